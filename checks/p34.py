from cmds import *
from common import *
LHS = ("ed_substitute", "lhs"); RF = ("ed_substitute", "r_f")
def holders(p, fn):
    """global variables that remember a compiled pattern: those given the newly allocated pattern (or each other's)"""
    home = p.defined[fn].file
    fs = [p.defined[n] for n in p.reach([fn]) if n in p.defined and p.defined[n].file == home]
    st = [(f, i) for f in fs for i in f.all() if i.op == "store" and i.ops[1][0] == "g"]
    def src(f, o, seen=None):
        seen = seen if seen is not None else set()
        if o in seen: return set()
        seen.add(o)
        if o[0] != "v": return set()
        i = f.inst[o[1]]
        if i.op == "phi": return set().union(*[src(f, x[0], seen) for x in i.ops]) if i.ops else set()
        if i.op == "select": return src(f, i.ops[1], seen) | src(f, i.ops[2], seen)
        if i.op == "call": return {("call", i.callee)}
        if i.op == "load" and i.ops[0][0] == "g": return {("g", i.ops[0][1])}
        if i.op == "load": return {("fld", field_of(i.ops[0], f))}
        return set()
    made = {n for n in p.defined if any(i.callee in ("malloc", "calloc") for i in p.defined[n].calls()) and p.defined[n].file == home and n != fn} | {"malloc", "calloc"}
    G = {}
    for f, i in st:
        for s in src(f, i.ops[0]):
            if s[0] == "call" and s[1] in made: G.setdefault(i.ops[1][1], []).append(i)
    return G
def plain(n): return n[4:] if n and n.startswith("rpl_") else n
class C(CPClient):
    """P = (what was released, in order; what was done to released patterns)"""
    prefix = 2
    forksel = True
    apart = frozenset(("A", "B", "C", "D", "N"))
    def __init__(s, p, home): s.p = p; s.home = home; s.sites = set(); s.compiles = set(); s.rel = {n for n in p.defined if any(plain(x) == "regfree" for x in p.reach([n])) and n not in p.reach(["exec_command"]) or any(plain(i.callee) == "regfree" for i in p.defined[n].calls())}
    def inline(s, n): return n != "regular_expression" and (s.p.defined[n].file == s.home or n in s.rel)
    def call(s, I, st, i, n, args):
        P = st.P; n = plain(n)
        if n is None: return [(None, P, {})]
        if n in ("regfree", "free"):
            a = args[0]
            if n == "regfree" or isinstance(a, tuple) and a[0] == "p" and a[1] in ("A", "B", "C", "N"): s.sites.add(i)
            if a == 0: return [(None, P, {})]
            k = a[1] if isinstance(a, tuple) and a[0] == "p" else "?"
            return [(None, P + ((n, k),), {})]
        if n in ("malloc", "calloc"): return [(0, P, {}), (("p", "N", 0), P, {})]
        if n == "re_compile_pattern": s.compiles.add(i); return [(0, P, {}), (("p", ("str", "error"), 0), P, {})]
        if n == "regcomp": s.compiles.add(i); return [(0, P, {}), (5, P, {})]
        if n in CT or n.startswith("llvm.") or n.startswith("__ctype"): return None
        f = s.p.defined.get(n)
        if f is not None and s.inline(n): return None
        if n in noreturn(s.p): return []
        if n in ("spl0", "spl1"): return [(None, P, {})]
        d = {l: None for l in I.writes.get(n, ()) if l[0] != "g"} if f is not None else {}
        for o in i.ops:
            l = I.loc(st, o) if o[0] == "v" else None
            if l is not None and l[0] == "l": d[l] = None
        return [(v, P, d) for v in rets(s.p, n)]
def states(k):
    """assignments of k references to nothing or to patterns, up to renaming"""
    out = []
    def go(cur, used):
        if len(cur) == k: out.append(tuple(cur)); return
        for v in [0] + ["A", "B", "C", "D"][:used + 1]: go(cur + [v], used + (v == ["A", "B", "C", "D"][used] if used < 4 else 0))
    go([], 0)
    return out
def ptr(v): return ("p", v, 0) if v else 0
def evaluate(p, fn, args, refs, vals, extra=None):
    c = C(p, p.defined[fn].file); I = Interp(p, c); I.MAX = 2000000
    m = {l: ptr(v) for l, v in zip(refs, vals)}
    m.update(extra or {})
    return c, I.run(fn, args, m, ())
def run(r):
    p = r.prog; gc = r.func("get_compiled_regex"); ss = r.func("save_substitute")
    G = holders(p, "get_compiled_regex")
    if len(G) < 2: raise AnalysisError("the variables that remember a pattern were not found")
    refs = [("g", g) for g in sorted(G)] + [LHS]
    r.explanation = ("Alias analysis by constant propagation: the functions that replace a remembered pattern are evaluated for every way the remembered references can coincide, "
                     "every outcome of allocation and compilation; what was released is compared with what is still referred to afterwards.")
    r.rule("kept", "a pattern that is still remembered, or that is handed out, was not released")
    r.rule("once", "no pattern is released twice, and only patterns the editor had referred to or just made are released")
    r.rule("dropped", "a pattern whose last reference is replaced is released then")
    r.rule("failed", "a pattern that cannot be compiled leaves the remembered patterns as they were")
    r.rule("nowhere", "patterns are released nowhere else")
    sites = set()
    def judge(f, outs, before, what, own=()):
        for ret, mem, P in outs:
            r.count("outcomes")
            after = [mem.get(l) for l in refs]
            names = [v[1] if isinstance(v, tuple) else v for v in after]
            gone = [k for n, k in P if n == "free"]; torn = [k for n, k in P if n == "regfree"]
            rel = set(gone) | set(torn)
            for k in rel:
                if k == "?": r.viol("once", f, "a pattern is released that is none of the remembered ones (%s)" % what, key="?" + f.name)
                elif k in names: r.viol("kept", f, "a pattern is released although it is still remembered (%s)" % what, key="kept" + f.name)
                elif isinstance(ret, tuple) and ret[1] == k: r.viol("kept", f, "a released pattern is handed out (%s)" % what, key="ret" + f.name)
            if len(gone) != len(set(gone)) or len(torn) != len(set(torn)): r.viol("once", f, "a pattern is released twice (%s)" % what, key="twice" + f.name)
            for n, (x, y) in enumerate(zip(P, P[1:])):
                if x[0] == "free" and y == ("regfree", x[1]): r.viol("once", f, "a pattern is taken apart after it was freed (%s)" % what, key="uaf" + f.name)
            if any(v is None for v in after): r.viol("kept", f, "a remembered pattern becomes unknown (%s)" % what, key="unknown" + f.name)
            for k in {v for v in before if v} | ({"N"} if f is gc and torn else set()):
                if k not in names and k not in gone and not (isinstance(ret, tuple) and ret[1] == k and f is ss): r.viol("dropped", f, "a pattern nothing refers to any more is never released (%s)" % what, key="leak" + f.name)
                elif k in gone and k not in torn: r.viol("dropped", f, "a pattern is freed without releasing what it holds (%s)" % what, key="half" + f.name)
            if f is gc and ret == 0 and "N" in torn + gone and [ptr(v) for v in before] != after: r.viol("failed", f, "a pattern that cannot be compiled changes a remembered one (%s)" % what, key="failed")
    for vals in states(3):
        for t in (0, 1):
            for dc in (ord("/"), 10):
                for rf in (0, 1):
                    c, outs = evaluate(p, "get_compiled_regex", (dc, t, None), refs, vals, {RF: rf})
                    sites |= c.sites; r.count("cases")
                    judge(gc, outs, vals, "search, substitution and saved pattern %s" % ", ".join(str(v or "none") for v in vals))
        for x in sorted({v for v in vals} | {"C"} | {0}, key=str):
            c, outs = evaluate(p, "save_substitute", (ptr(x),) + (None,) * (len(ss.args) - 1), refs, vals)
            sites |= c.sites; r.count("cases")
            # the caller's pattern is in hand: it must survive
            judge(ss, [(ptr(x) if x else 0, m, P) for _, m, P in outs], vals, "saving %s" % (x or "none"))
    r.need("cases", 100); r.need("outcomes", 200)
    for f in p.defined.values():
        for i in f.calls():
            if plain(i.callee) == "regfree":
                r.count("releases")
                if i not in sites: r.viol("nowhere", i, "a pattern is released here without regard to what is remembered")
        for i in f.all():
            if i.op == "store" and field_of(i.ops[1], f) == LHS and f is not ss and not (i.ops[0][0] == "null"): r.viol("nowhere", i, "the saved pattern is replaced here")
            if i.op == "store" and i.ops[1][0] == "g" and i.ops[1][1] in G and f.file != gc.file: r.viol("nowhere", i, "a remembered pattern is replaced here")
    r.need("releases", 1)
