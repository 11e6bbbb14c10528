from p34 import *
class MC(CPClient):
    """P = calls for a pattern: (delimiter, modifier r set)"""
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, n, args):
        if n == "strchr":
            a, c = args
            if isinstance(a, tuple) and a[0] == "p" and isinstance(a[1], tuple) and a[1][0] == "str" and isinstance(c, int): return [(("p", a[1], a[1][1].find(chr(c & 255))) if chr(c & 255) in a[1][1] else 0, st.P, {})]
        if n == "get_compiled_regex": return [(ptr("N"), st.P + ((args[0], st.mem.get(RF)),), {}), (0, st.P, {})]
        if n in ("spl0", "spl1"): return [(0, st.P, {})]
        return None
def modifier(r, p, SUB):
    """substitution_lhs tells get_compiled_regex whether the modifier r was given, for each command anew"""
    sl = r.func("substitution_lhs"); rs = r.func("resubstitute"); flags = {}
    def regs(t): return {("ed_buffer", "input"): ("p", ("str", t), 0), ("ed_execute", "opt"): 0}
    for t in ("\n", "r\n", "p\n", "rp\n"):
        c = MC(); c.inl = {n for n, f in p.defined.items() if f.file == rs.file}; I = Interp(p, c)
        ks = {m.get(("p", ("sg",), 0)) for ret, m, P in I.run("resubstitute", (("p", ("n",), 0), ("p", ("m",), 0), ("p", ("f",), 0), ("p", ("sg",), 0), None), {**regs(t), ("p", ("sg",), 0): 0, ("p", ("f",), 0): 0}, ()) if ret == 0}
        if len(ks) == 1 and isinstance(next(iter(ks)), int): flags[t] = next(iter(ks))
    if len(flags) < 4: raise AnalysisError("the modifiers of a repeated substitution could not be evaluated")
    for t, k in list(flags.items()) + [("/x/", 0)]:
        for old in (0, 1, k):
            c = MC(); c.inl = {n for n, f in p.defined.items() if f.file == sl.file and n != "get_compiled_regex"}; I = Interp(p, c)
            txt = "/x/y/\n" if t == "/x/" else "\n"
            for ret, m, P in I.run("substitution_lhs", (("p", ("lhs",), 0), ("p", ("sg",), 0), None), {**regs(txt), ("p", ("lhs",), 0): ptr("A"), ("p", ("sg",), 0): k, RF: old}, ()):
                r.count("modifiers evaluated"); got = m.get(("p", ("lhs",), 0))
                if not (isinstance(ret, int) and ret >= 0): continue
                if "r" in t:
                    if not P or not isinstance(P[-1][1], int) or not P[-1][1] or got != ptr("N"): r.viol("modifier", sl, "the modifier r of a repeated substitution is not obeyed")
                elif P and P[-1][1] != 0: r.viol("modifier", sl, "a substitution without modifier r uses the pattern that r would choose")
                elif t != "/x/" and not P and got != ptr("A"): r.viol("repeat", sl, "a repeated substitution does not use the pattern of the last one")
                elif t == "/x/" and got != ptr("N"): r.viol("modifier", sl, "the pattern of a new substitution is not used")
def run(r):
    p = r.prog; gc = r.func("get_compiled_regex")
    def kind(names):
        ks = {i.ops[1][1] for n in names for m in [r.func(n)] for i in m.calls() if i.callee == "get_compiled_regex" and i.ops[1][0] == "c"}
        if len(ks) != 1: raise AnalysisError("the kind of pattern asked for by %s is not one constant" % "/".join(names))
        return ks.pop()
    SUB, SEA = kind(["substitution_lhs"]), kind(["mark_global_nodes"])
    G = holders(p, "get_compiled_regex")
    # which variable holds which: evaluate a new pattern of either kind
    def new(t, vals, refs):
        c, outs = evaluate(p, "get_compiled_regex", (ord("/"), t, None), refs, vals, {RF: 0, ("ed_buffer", "input"): ("p", "in", 0), ("p", "in", 0): 47, ("p", "in", 1): 120})
        return [(ret, m) for ret, m, P in outs]
    gs = sorted(G); slot = {}
    for t in (SUB, SEA):
        for ret, m in new(t, (0, 0, 0), [("g", g) for g in gs[:2]] + [LHS]):
            if ret != 0:
                for g in gs:
                    if m.get(("g", g)) == ptr("N"): slot.setdefault(t, set()).add(g)
    r.explanation = ("The function that yields a compiled pattern is evaluated by constant propagation for an empty pattern of either kind, a repeated substitution and a new pattern, "
                     "with every combination of remembered patterns; the pattern it yields must be the documented one.")
    r.rule("remember", "a new search pattern is remembered as the last search pattern only, a new substitution pattern as the last substitution pattern only; an empty pattern replaces none")
    r.rule("empty-search", "an empty search pattern is the last search pattern, or the last substitution pattern when there was no search")
    r.rule("empty-subst", "an empty substitution pattern is the last search pattern, or the last substitution pattern when there was no search")
    r.rule("repeat", "a repeated substitution uses the last substitution pattern, with the 'r' modifier the last search pattern")
    r.rule("used", "the pattern that an empty one stands for counts as given from then on: it becomes the last pattern of its kind when there was none")
    r.rule("none", "without any remembered pattern an empty pattern is an error")
    if len(slot.get(SUB, ())) != 1 or len(slot.get(SEA, ())) != 1 or slot[SUB] == slot[SEA] or SUB == SEA:
        r.viol("remember", gc, "the last search and the last substitution pattern are not kept apart"); return
    sub, sea = ("g", slot[SUB].pop()), ("g", slot[SEA].pop()); refs = [sea, sub, LHS]
    for vals in ((0, 0, 0), ("A", 0, 0), (0, "B", 0), ("A", "B", 0), ("A", "B", "B")):
        what = "last search pattern %s, last substitution pattern %s" % ("set" if vals[0] else "unset", "set" if vals[1] else "unset")
        for t in (SUB, SEA):
            for ret, m in new(t, vals, refs):
                r.count("new patterns evaluated")
                a = [m.get(x) for x in refs]
                if ret == 0:
                    continue
                if ret != ptr("N"): r.viol("remember", gc, "a new pattern is not the one used (%s)" % what)
                want = [ptr("N") if t == SEA else ptr(vals[0]), ptr("N") if t == SUB else ptr(vals[1])]
                if a[:2] != want: r.viol("remember", gc, "a new %s pattern is not remembered as such, or replaces the other (%s)" % ("search" if t == SEA else "substitution", what))
            for nxt in (47, 10):
                for dc in (47, 63):
                    ends = dc if nxt == 47 else 10
                    c, outs = evaluate(p, "get_compiled_regex", (dc, t, None), refs, vals, {RF: 0, ("ed_buffer", "input"): ("p", "in", 0), ("p", "in", 0): dc, ("p", "in", 1): ends})
                    want = ptr(vals[0] or vals[1])
                    for ret, m, P in outs:
                        r.count("empty patterns evaluated")
                        for k, v in enumerate(vals[:2]):
                            if v and m.get(refs[k]) != ptr(v): r.viol("remember", gc, "an empty pattern replaces a remembered one (%s)" % what)
                        own = t == SUB
                        if want and ret == want and not vals[own] and m.get(refs[own]) != want: r.viol("used", gc, "an empty %s pattern is not remembered as the last %s pattern although there was none (%s)" % (("search", "substitution")[own], ("search", "substitution")[own], what))
                        if want == 0:
                            if ret != 0: r.viol("none", gc, "an empty pattern is accepted although none is remembered")
                        elif ret != want: r.viol("empty-search" if t == SEA else "empty-subst", gc, "an empty %s pattern is not the documented one (%s)" % ("search" if t == SEA else "substitution", what))
        for rf in (0, 1):
            if rf and not vals[0]: continue
            c, outs = evaluate(p, "get_compiled_regex", (10, SUB, None), refs, vals, {RF: rf, ("ed_buffer", "input"): ("p", "in", 0), ("p", "in", 0): 10})
            want = ptr(vals[0] if rf else vals[1])
            for ret, m, P in outs:
                r.count("repeats evaluated")
                if ret != want: r.viol("repeat" if want else "none", gc, "a repeated substitution%s does not use the documented pattern (%s)" % (" with modifier r" if rf else "", what))
    r.rule("modifier", "the modifier r of one repeated substitution does not affect the next")
    modifier(r, p, SUB)
    r.need("new patterns evaluated", 10); r.need("empty patterns evaluated", 30); r.need("repeats evaluated", 5); r.need("modifiers evaluated", 8)
