from shapes import *
from shape import *
import shapes
from common import *
from ir import AnalysisError, field_of
F = L(4, f=1)
B = addv(F, -3)                                         # walks start after this line
CACHE = ("cache",)
class KC(CC):
    """as CC; get_line_node is replaced by its contract: it returns the line at a position and remembers both"""
    def call(s, I, st, i, n, args):
        if n == "get_line_node":
            v = I.at(st.mem, args[0])
            if v is None: I.unresolved += 1
            return [(v, st.P, {CACHE: (args[0], v)})]
        if n == "free":
            if args and region(args[0]): return [(None, st.P + ((region(args[0]), i),), {})]
            return [(None, st.P, {})]
        return CC.call(s, I, st, i, n, args)
    def models(s, I, st, i, n, args):
        if n == "put_buffer_line": return s.put(I, st)
        return CC.models(s, I, st, i, n, args)
    def put(s, I, st):
        dot = st.mem.get(fld(S0, "dot")); a = I.at(st.mem, dot); ra = region(a)
        if ra is None: I.unresolved += 1; return [(0, st.P, {})]
        b = st.mem.get(fld(ra, "q_forw"), I.default(ra, "q_forw"))
        k, v = I.fresh(st.mem, "new")
        d = {("count",): k, fld(ra, "q_forw"): v, fld(region(v), "q_back"): a, fld(region(v), "q_forw"): b, fld(region(b), "q_back"): v,
             fld(S0, "dot"): addv(dot, 1), fld(S0, "lines"): addv(st.mem.get(fld(S0, "lines")), 1), CACHE: (dot, a)}
        return [(NZ, st.P, d), (0, st.P, {})]
class MS(Shape):
    """the core is allocated cleared; marks and their number start at zero"""
    def default(self, R, f):
        v = Shape.default(self, R, f)
        if v is None and R == ("core",): return 0
        return v
    def load(self, st, l, ty):
        if l is not None and l not in st.mem:
            R = region(l)
            if R is not None and R[0] == "el" and R[1][0] == "fld" and R[1][1] == ("core",): return 0
        return Shape.load(self, st, l, ty)
class RC(SClient):
    """releasing histories and marking: everything is followed; P = (region released, ...) or the marked line asked for"""
    inl = ()
    def models(s, I, st, i, n, args):
        if n == "free":
            R = region(args[0])
            return [(None, st.P + ((R, i),), {})]
        if n == "get_line_node_address": return [(0, st.P + (("asked", args[0]),), {})]
        return None
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, n, args):
        if n == "reset_undo_queue": return None
        return SClient.call(s, I, st, i, n, args)
def links_of(I, m, R): return m.get(fld(R, "q_forw"), I.default(R, "q_forw"))
def walk(I, m, a, stop, lim=40):
    """nodes after `a` up to `stop`"""
    out = []; x = a
    for _ in range(lim):
        x = links_of(I, m, region(x))
        if region(x) is None: return None
        if x == stop: return out
        out.append(x)
    return None
def differ(v, e):
    R = region(v)
    return R is None or R[0] != "n" or 0 not in sign(addv(R[1], e, -1))
def run(r):
    p = r.prog
    rq = r.func("reset_undo_queue"); gl = r.func("get_line_node"); un = r.func("undo_last_command"); mk_ = r.func("mark_line_node"); gm = r.func("get_marked_node_address")
    r.explanation = ("Shape analysis: the functions that change lines, and undo, are evaluated over abstract line lists and the released storage, the remembered line position and the marks are compared "
                     "with the list they leave; discarding a history is evaluated on the histories they leave, with and without undo; get_line_node is evaluated over positions relative to the remembered one.")
    r.rule("kept", "functions that change lines, and undo, release no line")
    r.rule("discard", "discarding an undo history releases exactly the lines that are no longer in the buffer, once each, and leaves no record")
    r.rule("marks", "no mark is left on a released line; a mark on any other line stays")
    r.rule("cached", "after every change of the lines, the remembered line is the one at the remembered position")
    r.rule("seek", "get_line_node returns the line at the position asked for, whatever position it remembers")
    r.rule("letter", "mark names outside a to z are rejected before the table of marks is used; a mark inside refers to the line marked")
    # 1 editing functions
    allc = list(cases()); hist = []
    for k in (0, 1, 2):                                  # histories of known length, for discarding
        T = addv(F, k); N = addv(T, 3)
        for c in (("delete_lines", (F, T)), ("move_lines", (F, T, addv(F, -2))), ("move_lines", (F, T, addv(T, 2))), ("copy_lines", (F, T, T)), ("copy_lines", (F, T, addv(F, -1))),
                  ("append_lines", (F,)), ("substitute_lines", (F, T, NZ, 1, 0, 0))) + ((("join_lines", (F, T)),) if k else ()):
            if c[0] == "substitute_lines" and k > 1: continue
            hist.append((c[0], c[1], N, L(0, d=1), "%d lines" % (k + 1)))
    kept = []
    def ev(case, visits=4):
        fn, args, N, dot, desc = case
        k = len(p.defined[fn].args) - 1
        a = tuple(args) + (None,) * (k - len(args)) + (ED,)
        I = MS(p, KC(p, helpers(p, [fn], STOP)), N); I.VISITS = visits
        m = I.initial(dot, is_modified=0); m[fld(("exec",), "global")] = 0; m[CACHE] = None
        return I, m, I.run(fn, a, m, ())
    def same_list(I, m): return not any(region(k) and region(k)[0] == "fld" and region(k)[1][0] == "n" and region(k)[2] in LINK and I.default(region(k)[1], region(k)[2]) != v for k, v in m.items())
    def cached(I, m, f, what):
        c = m.get(CACHE)
        if c is None:
            if not same_list(I, m): r.viol("cached", f, "%s changes the lines without looking up the line before them last" % f.name)
            return
        n, v = c
        if v is None: return
        w = I.at(m, n)
        r.count("remembered positions compared")
        if w is None: r.count("positions not followed"); return
        if w != v: r.viol("cached", f, "the line position remembered by get_line_node does not fit the lines %s leaves (%s)" % (f.name, what))
    for big, lst in ((False, allc), (True, hist)):
        for case in lst:
            fn = case[0]; f = r.func(fn)
            I, m0, outs = ev(case, (3 if fn == "substitute_lines" else 5) if big else 4)
            r.count("evaluations")
            for ret, m, P in outs:
                for R, i in P:
                    if R[0] == "n": r.viol("kept", i, "a line of the buffer is released by a change; undo would bring it back")
                    elif R[0] == "new" and any(region(x) == R for x in m.values() if isinstance(x, tuple)) and any(region(k) and region(k)[0] == "fld" and region(k)[1] != R and region(v) == R for k, v in m.items() if isinstance(v, tuple)):
                        r.viol("kept", i, "a line or record that is still referred to is released")
                cached(I, m, f, case[4])
                if big: kept.append((case, m, I.n, ret))
    r.need("evaluations", 60); r.need("remembered positions compared", 60)
    # 2 undo leaves a fitting position
    seen = set(); undone = []
    for case, m, N, ret in kept:
        m = clean(m)
        if statef(m, S1).get("lines") == -1: continue
        m.pop(CACHE, None)
        key = (repr(N), frozenset((k, v) for k, v in m.items() if region(k) and k[1][0] == "fld" and k[1][2] in ("q_forw", "q_back", "h", "t", "type")))
        if key in seen: continue
        seen.add(key)
        class UK(SClient):
            def call(s, I, st, i, n, args):
                if n == "free": return [(None, st.P + ((region(args[0]), i),), {})]
                if n == "get_line_node":
                    v = I.at(st.mem, args[0])
                    return [(v, st.P, {CACHE: (args[0], v)})]
                return SClient.call(s, I, st, i, n, args)
        c = UK(p); c.inl = helpers(p, ["undo_last_command"], STOP)
        I = MS(p, c, N); I.VISITS = 324
        m[fld(("exec",), "global")] = 0; m[CACHE] = None
        for ret, mm, P in I.run("undo_last_command", (ED,), m, ()):
            r.count("undo evaluations")
            for R, i in P: r.viol("kept", i, "undo releases a line or record")
            c_ = mm.get(CACHE)
            if ret == 0:
                if c_ is None: r.viol("cached", un, "undo relinks lines without resetting the line position that get_line_node remembers")
                else: cached(I, mm, un, case[0])
                undone.append((case, mm, N))
    r.need("undo evaluations", 20)
    # 3 discarding the history
    inl = helpers(p, ["reset_undo_queue"], STOP - {"reset_undo_queue"})
    done = set(); LET = "amz"
    def discard(what, m, N, full=True):
        m = clean(m); m.pop(CACHE, None)
        key = (full, repr(N), frozenset((k, v) for k, v in m.items() if region(k) and k[1][0] == "fld" and k[1][2] in ("q_forw", "q_back", "h", "t", "type")))
        if key in done: return
        done.add(key)
        c = RC(p); c.inl = inl | helpers(p, ["mark_line_node"], STOP)
        I = MS(p, c, N); I.VISITS = 27 * 12; I.MAX = 4000000
        cur = walk(I, m, node(B), HEAD)
        if cur is None: raise AnalysisError("the list of lines left by %s could not be followed" % what)
        lines = {node(addv(F, j)) for j in range(-2, 9) if sign(addv(N, addv(F, j), -1)) <= {0, 1}}
        # new line nodes: reachable from records and list
        news = {x for x in cur if region(x)[0] == "new"}
        recs = []; u = UHEAD
        for _ in range(20):
            u = links_of(I, m, region(u))
            if region(u) is None: raise AnalysisError("the undo history left by %s could not be followed" % what)
            if u == UHEAD: break
            recs.append(u)
            for q in ("h", "t"):
                x = m.get(fld(region(u), q))
                if x is not None and region(x) and region(x)[0] == "new": news.add(x)
        todo = list(news)
        while todo:
            x = todo.pop()
            for q in LINK:
                y = m.get(fld(region(x), q))
                if y is not None and region(y) and region(y)[0] == "new" and y not in news: news.add(y); todo.append(y)
        gone = (lines | news) - set(cur); gone.discard(HEAD)
        # marks: on a line that goes, on one that stays, twice on the same
        pick = sorted(gone, key=repr)[:2] + sorted(set(cur), key=repr)[:1]
        marks = {}
        for ch, x in zip("amz", pick): marks[ch] = x
        if gone: marks["k"] = sorted(gone, key=repr)[-1]
        ms = [(m, ())]
        for ch, x in marks.items():
            nx = []
            for mm, _ in ms:
                for ret, m2, P in I.run("mark_line_node", (x, ord(ch), ED), mm, ()):
                    if ret == 0: nx.append((clean(m2), ()))
                    else: r.viol("letter", mk_, "marking a line with '%s' fails" % ch)
            ms = nx
        for mm, _ in ms:
            outs = I.run("reset_undo_queue", (ED,), mm, ())
            r.count("discard evaluations")
            if I.cut: print(what, len(outs), I.cut, full,clean(m), P)
            if not outs: raise AnalysisError("discarding the history of %s could not be followed" % what)
            for ret, m2, P in outs:
                fr = [R for R, i in P]
                for R, i in P:
                    if R is None: r.viol("discard", i, "something unknown is released")
                    elif ("p", R, 0) in set(cur) or R == ("n", 0): r.viol("discard", i, "a line that is still in the buffer is released")
                    elif fr.count(R) > 1: r.viol("discard", i, "a line or record is released twice")
                for x in gone:
                    if full and region(x) not in fr: r.viol("discard", rq, "a line that is gone is not released with its undo record (%s)" % what)
                for u in recs:
                    if region(u) not in fr: r.viol("discard", rq, "an undo record is not released when the history is discarded")
                if m2.get(fld(("u", 0), "q_forw")) != UHEAD or m2.get(fld(("u", 0), "q_back")) != UHEAD: r.viol("discard", rq, "records are left in the undo history when it is discarded")
                if walk(I, m2, node(B), HEAD) != cur: r.viol("discard", rq, "discarding the history changes the lines")
                for ch, x in marks.items():
                    c.inl = inl | helpers(p, ["get_marked_node_address"], STOP | {"get_line_node_address"})
                    for ret3, m3, P3 in I.run("get_marked_node_address", (ord(ch), fld(("tmp",), "addr"), ED), clean(m2), ()):
                        got = [a[1] for a in P3 if a[0] == "asked"]
                        r.count("marks looked up")
                        for g in got:
                            if region(g) and region(g) in fr: r.viol("marks", rq, "a mark still refers to a line that was released")
                        if region(x) not in fr and got != [x]: r.viol("marks", rq, "a mark on a line that is not released is lost")
                    c.inl = inl | helpers(p, ["mark_line_node"], STOP)
    for case, m, N, ret in kept: discard(case[0], m, N, ret == 0)
    for case, m, N in undone: discard(case[0] + " undone", m, N)
    r.need("discard evaluations", 20); r.need("marks looked up", 40)
    # 4 mark names
    c = RC(p); c.inl = helpers(p, ["mark_line_node", "get_marked_node_address"], STOP | {"get_line_node_address"})
    I = MS(p, c, addv(F, 3))
    for n in list(range(-128, 256)):
        ok = 97 <= n <= 122
        for fn, f in (("mark_line_node", mk_), ("get_marked_node_address", gm)):
            m = I.initial(L(0, d=1))
            a = (node(F), n, ED) if fn == "mark_line_node" else (n, fld(("tmp",), "addr"), ED)
            outs = I.run(fn, a, m, ())
            r.count("mark names")
            if not outs: raise AnalysisError("%s could not be followed" % fn)
            for ret, m2, P in outs:
                if not ok and not (isinstance(ret, int) and ret < 0): r.viol("letter", f, "the mark name with character code %d is accepted" % n)
                if not ok and any(m2.get(k) != m.get(k) for k in m2 if region(k) and (region(k)[0] == "el" or region(k)[0] == "fld" and region(k)[1] == ("core",))): r.viol("letter", f, "the rejected mark name with character code %d changes the marks" % n)
                if ok and fn == "mark_line_node":
                    if ret != 0: r.viol("letter", f, "the mark name '%c' is rejected" % n)
                    for o in "abmyz":
                        for ret3, m3, P3 in I.run("get_marked_node_address", (ord(o), fld(("tmp",), "addr"), ED), clean(m2), ()):
                            g = [a[1] for a in P3 if a[0] == "asked"]
                            if (g == [node(F)]) != (ord(o) == n): r.viol("letter", gm, "a mark does not refer to the line it was put on")
    # 5 get_line_node itself
    c = RC(p); c.inl = {"get_line_node"} | helpers(p, ["get_line_node"], STOP - {"get_line_node"})
    class GC(SClient):
        def call(s, I, st, i, n, args):
            if n == "get_line_node": return None
            if n in ("spl1", "spl0"): return [(None, st.P, {})]
            return SClient.call(s, I, st, i, n, args)
    cold = {}
    for n in c.inl:
        for i in p.defined[n].all():
            for o in i.ops:
                g = p.globals.get(o[1]) if o[0] == "g" else None
                if g and g.get("internal") and not g.get("const"):
                    v = g.get("init1"); cold[("g", o[1])] = v[1] if v and v[0] == "c" else 0
    def start(I, dot): m = I.initial(dot); m.update(cold); return m
    N = L(9, n=1)
    for pos in ((0, 1, 2, 4), (N, addv(N, -1), addv(N, -2), addv(N, -4))):
        I = Shape(p, GC(p), N); I.VISITS = 9; I.c.inl = c.inl
        for first in pos:
            for ret, m1, P in I.run("get_line_node", (first, ED), start(I, L(0, d=1)), ()):
                if differ(ret, first): r.viol("seek", gl, "the line returned is not the one at the position asked for")
                for second in pos:
                    n = 0
                    for ret2, m2, P2 in I.run("get_line_node", (second, ED), clean(m1), ()):
                        n += 1; r.count("lookups")
                        if differ(ret2, second): r.viol("seek", gl, "the line returned after another look-up is not the one at the position asked for")
                        for ret3, m3, P3 in I.run("get_line_node", (first, ED), clean(m2), ()):
                            if differ(ret3, first): r.viol("seek", gl, "the line returned after another look-up is not the one at the position asked for")
                    if not n: raise AnalysisError("get_line_node could not be followed")
    for N in (0, 1, 2, 5):                               # short buffers
        I = Shape(p, GC(p), N); I.VISITS = 30; I.c.inl = c.inl
        for x in range(N + 1):
            for ret, m1, P in I.run("get_line_node", (x, ED), start(I, 0), ()):
                if differ(ret, I.norm(x)): r.viol("seek", gl, "the line returned is not the one at the position asked for")
                for y in range(N + 1):
                    for ret2, m2, P2 in I.run("get_line_node", (y, ED), clean(m1), ()):
                        r.count("lookups")
                        if differ(ret2, I.norm(y)): r.viol("seek", gl, "the line returned after another look-up is not the one at the position asked for")
    r.need("lookups", 60); r.need("mark names", 700)
