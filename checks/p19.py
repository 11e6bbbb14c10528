"""Temporary files: how they are made, and that every ending of the editor removes them."""
from ir import AnalysisError, field_of
from cp import CPClient, Interp
from kernel import Client, TOP, ZERO, POS, NONNEG, atom
from common import *
import p22
from p22 import res, isres
import itertools
CORE, SCRIPT, REGF = ("ed_core", "fp"), ("ed_execute", "fp"), ("ed_register", "fp")
TEMP = (CORE, SCRIPT, REGF)
CPATH, SPATH = ("ed_core", "pathname"), ("ed_execute", "pathname")
MAKERS = {"mkstemp", "mkstemp64", "mkostemp", "mkostemp64"}
REMOVE = {"unlink", "remove"}
EXITS = {"exit", "_exit", "_Exit", "quick_exit", "abort"}
O_CREAT, O_EXCL = 0o100, 0o200
class T(p22.C):
    """P = (p22's objects, fds made exclusively, fds known to be regular files, a new file not yet removed, objects made from each, paths removed)"""
    fieldargs = frozenset(TEMP + (CPATH, SPATH))
    def __init__(s, p, inl, r): p22.C.__init__(s, p, inl, r); s.made = set(); s.bad = {}
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, name, args):
        B, ex, reg, new, good, gone = st.P
        if name in ("fstat", "fstat64", "__fxstat", "__fxstat64"):
            fd = args[1] if name.startswith("__") else args[0]; k = {l: None for l in st.mem if l[0] == "stat"}
            out = [(-1, st.P, dict(k, **{}))]
            for m in (0o100600, 0o040700, 0o020600, 0o010600): out.append((0, (B, ex, reg | {fd} if m == 0o100600 and fd is not None else reg, new if m == 0o100600 else None, good, gone), {**k, ("stat", "st_mode"): m, ("stat64", "st_mode"): m}))
            return out
        if name in REMOVE: return [(0, (B, ex, reg, None, good, gone | ({args[0]} if args[0] is not None else set())), {}), (-1, (B, ex, reg, None, good, gone | ({args[0]} if args[0] is not None else set())), {})]
        if name == "realloc_buffer": return [(0, st.P, {}), (77, st.P, {})]
        if name in ("getenv", "get_path_max"): return [(None, st.P, {})]
        if name in ("strcpy", "strlen", "strerror", "fprintf", "mktemp"): return [(None if name == "strlen" else 77, st.P, {})]
        st.P = B; r = p22.C.call(s, I, st, i, name, args); st.P = (B, ex, reg, new, good, gone)
        if r is None: return None
        out = []
        for v, P2, d in r:
            e, n, g = ex, new, good
            if name in MAKERS and s.isfd(v):
                e = ex | {v}; n = i; s.made.add(i)
            if name in ("open", "open64") and s.isfd(v):
                fl, mode = args[1], args[2] if len(args) > 2 else None
                if isinstance(fl, int) and fl & O_CREAT:
                    n = i; s.made.add(i)
                    if fl & O_EXCL and isinstance(mode, int) and not mode & 0o077: e = ex | {v}
            if name == "fdopen" and isres(v) and args[0] in ex: g = good | {(v, args[0])}
            if name in p22.OPEN and isres(v) and args and len(args) > 1 and isinstance(args[1], tuple) and args[1][:1] == ("p",) and isinstance(args[1][1], tuple) and args[1][1][0] == "str" and args[1][1][1][:1] in ("w", "a"): n = i
            out.append((v, (P2, e, reg, n, g, gone), d))
        return out
    def store(s, I, st, i, loc, v):
        B, ex, reg, new, good, gone = st.P
        st.P = B; p22.C.store(s, I, st, i, loc, v); st.P = (st.P, ex, reg, new, good, gone)
class Q(CPClient):
    """P = sorted tuple of (path, times) removed"""
    def __init__(s, cl): s.cl = cl; s.n = 0; s.ends = []
    def call(s, I, st, i, name, args):
        if name in REMOVE:
            s.n += 1; d = dict(st.P); a = args[0]
            if a == ("p", "reg", 0):
                k = elem(I, st, i.ops[0])
                if k is not None: a = ("reg", k)
            d[a] = 1 if a[0] == "reg" else d.get(a, 0) + 1
            return [(0, tuple(sorted(d.items(), key=repr)), {})]
        if name in ("fclose", "fflush", "pclose", "close"): return [(0, st.P, {})]
        return None
    def unknown(s, I, st, i):               # an element of the registers' streams reached by a moving pointer
        seen = set(); work = [i.ops[0]]; f = st.f
        while work:
            o = work.pop()
            if field_of(o, f) == REGF: return st.mem.get(REGF)
            if o[0] == "v" and o[1] in f.inst and o[1] not in seen:
                seen.add(o[1]); j = f.inst[o[1]]
                if j.op == "getelementptr": work.append(j.ops[0])
                elif j.op == "phi": work += [x for x, b in j.ops]
            elif o[0] == "gep": work.append(o[1])
        return None
    def end(s, I, st, i, name): s.ends.append((i, st.P))
class E(Client):
    """P = (in a child, temporary files can exist)"""
    cap = 300
    def __init__(s, p, r, quits): s.p = p; s.r = r; s.q = quits; s.n = set()
    def direct(s, f): return f.name == "main" or any(i.op == "call" and i.callee in EXITS | MAKERS | REMOVE | {"fork", "vfork", "quit", "open"} for i in f.all())
    def call(s, K, st, i, name):
        ch, tmp = st.P
        if name in ("fork", "vfork"): s.n.add(i); return [((1, tmp), ZERO), (st.P, POS), (st.P, atom(-1))]
        if name in MAKERS: return [((ch, 1), NONNEG), (st.P, atom(-1))]
        if name == "quit":
            s.n.add(i)
            if ch: K.report("child", i, "a child process ends like the editor and removes its files", st)
            return []
        if name in REMOVE:
            s.n.add(i)
            if ch: K.report("child", i, "a child process removes a file of the editor", st)
            return None
        if ch and name in ("spl0", "spl1"): return [(st.P, TOP)]      # P21: signals stay held in a child
        if name in EXITS:
            s.n.add(i)
            if not ch and tmp: K.report("end", i, "the editor ends here without removing its temporary files", st)
            return []
        return None
    def leave(s, K, P, f, rm):
        if f.name == "main" and not P[0] and P[1]: K.report("end", f, "main returns without removing the temporary files", None)
        return P
def run(r):
    p = r.prog; q = r.func("quit"); r.func("main"); r.func("reopen_ed_buffer")
    r.explanation = ("Constant propagation over the functions that make a temporary file (with one abstract object per descriptor and stream, and every kind of file), over quit with each set of "
                     "files in use, and a typestate analysis from main and from the signal handlers: what ends the editor, and what a child process may do.")
    r.rule("made", "the stream recorded for a temporary file comes from a descriptor made exclusively, for its owner only, and known to be a regular file")
    r.rule("failed", "a temporary file that was made but is not used is removed")
    r.rule("kept", "a buffer file is removed when another takes its place")
    r.rule("quit", "ending the editor removes every temporary file in use")
    r.rule("end", "the editor ends only through that function, once temporary files can exist")
    r.rule("child", "a child process removes no file and does not end like the editor")
    # made
    makers = {n for n, f in p.defined.items() if any(i.op == "call" and (i.callee in MAKERS or i.callee in ("open", "open64", "creat", "mktemp", "tmpfile", "fdopen")) for i in f.all())}
    roots = set()
    for n, f in p.defined.items():
        for i in f.all():
            if i.op == "call":
                for o in i.ops:
                    if o[0] in ("v", "gep") and field_of(o, f) in TEMP and (o[0] == "gep" or f.inst[o[1]].op == "getelementptr"): roots.add(n)
            if i.op == "store" and field_of(i.ops[1], f) in TEMP and not i.ops[0][0] == "null" and n in makers: roots.add(n)
    roots |= {n for n in ("reopen_ed_buffer",)}
    inl = set(makers)
    ch = True
    while ch:                               # what stands between
        ch = False
        for n in roots:
            for m in p.callees.get(n, ()):
                if m in p.defined and m not in inl and (p.reach([m]) | {m}) & (makers | set()) and "exec_command" not in p.reach([m]): inl.add(m); ch = True
                if m in p.defined and m not in inl and p.defined[m].file == p.defined[n].file and any(i.op == "call" and i.callee in REMOVE for i in p.defined[m].all()): inl.add(m); ch = True
    seen = set(); sites = set()
    for n in sorted(roots):
        if n in ("init_ed_buffer", "main") or "exec_command" in p.reach([n]): continue
        for cur in ((1,) if n == "reopen_ed_buffer" else (0,)):
            mem = {h: 0 for h in TEMP}
            if cur: mem[CORE] = res("file", ("held",) + CORE); mem[CPATH] = ("p", "core", 0)
            c = T(p, inl - {n} | {n}, r); I = Interp(p, c); I.MAX = 60000
            op = frozenset({mem[CORE]}) if cur else frozenset()
            outs = I.run(n, (), mem, ((op, frozenset(), frozenset()), frozenset(), frozenset(), None, frozenset(), frozenset()))
            r.count("functions evaluated"); r.count("paths", len(outs)); sites |= c.made
            for ret, m, (B, ex, reg, new, good, gone) in outs:
                if cur and m.get(CORE) != mem[CORE] and ("p", "core", 0) not in gone and "kept" not in seen: seen.add("kept"); r.viol("kept", p.defined[n], "%s gives up a buffer file that still exists" % n)
                g = {v for v, fd in good if fd in reg}
                held = [(h, m.get(h)) for h in TEMP if isres(m.get(h)) and m[h][1][2][0] != "held"]
                for h, v in held:
                    r.count("recorded streams")
                    if v not in g and ("made", v) not in seen: seen.add(("made", v)); r.viol("made", c.sites.get(v, p.defined[n]), "the stream kept in %s.%s is not known to be a private regular file" % h)
                if new is not None and not held and ("failed", new) not in seen: seen.add(("failed", new)); r.viol("failed", new, "the file made here can remain although %s gives it up" % n)
    r.set("places that make temporary files", len(sites))
    # quit
    nreg = 0
    for a, b, c2 in itertools.product((0, 1), repeat=3):
        mem = {CORE: 901 if a else 0, SCRIPT: 902 if b else 0, REGF: 903 if c2 else 0, CPATH: ("p", "core", 0), SPATH: ("p", "script", 0), ("ed_path", "name"): ("p", "reg", 0)}
        cl = Q(None); I = Interp(p, cl); I.MAX = 60000; I.run("quit", (), mem, ())
        if not cl.ends: raise AnalysisError("quit does not end the editor")
        for i, P in cl.ends:
            d = dict(P); r.count("endings of quit")
            for on, k, need, what in ((a, "core", 1, "buffer"), (b, "script", 1, "script"), (c2, "reg", regmax(p), "register")):
                have = d.get(("p", k, 0), 0) + (sum(1 for x in d if x[0] == "reg") if k == "reg" else 0)
                if on and have < need: r.viol("quit", i, "the editor ends without removing %s" % ("the %s file" % what if need == 1 else "the files of all registers (%d of %d)" % (have, need)))
    # ends
    e = E(p, r, q)
    tabs = {o[1] for f in p.defined.values() for i in f.all() for o in (i.ops or ()) if isinstance(o, tuple) and o[0] == "f" and o[1] in p.defined and p.defined[o[1]].ret == "void" and len(p.defined[o[1]].args) == 1 and (p.reach([o[1]]) & {"quit"})}
    r.kernel(e, [("main", (0, 0))] + [(n, (0, 1)) for n in sorted(tabs)])
    r.set("endings, forks and removals", len(e.n))
    r.need("endings of quit", 8); r.need("endings, forks and removals", 6); r.need("recorded streams", 3); r.need("places that make temporary files", 1)
def regmax(p):
    d = {n: o for o, n in p.structs.get("ed_register", ())}
    later = [o for o in d.values() if o > d.get("fp", 1 << 30)]
    if not later: raise AnalysisError("no registers")
    return (min(later) - d["fp"]) // 8
