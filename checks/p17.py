import kernel
from kernel import Client, TOP, POS, ZERO
from cmds import *
import shapes
from shapes import *
from shape import *
from common import *
from itertools import combinations
QH = ("p", ("q", 0), 0)
GSTOP = STOP - {"delete_global_nodes", "reset_global_queue"}
F = L(2, f=1)                                            # first line of the range: an arbitrary inner line
def q(k): return ("p", ("q", k), 0)
def queue(m, lines):
    """memory with a list of lines still to visit"""
    m[fld(("core",), "global_head")] = QH; m[fld(("q", 0), "lp")] = 0
    ns = [q(k) for k in range(len(lines) + 1)]
    for k, n in enumerate(ns):
        m[fld(n[1], "q_forw")] = ns[(k + 1) % len(ns)]; m[fld(n[1], "q_back")] = ns[k - 1]
    for n, e in zip(ns[1:], lines): m[fld(n[1], "lp")] = node(e)
    return m
def walk(m):
    """the lines in the list, or None if its links are broken"""
    out = []; n = QH
    for _ in range(20):
        x = m.get(fld(n[1], "q_forw"))
        if region(x) is None or m.get(fld(x[1], "q_back")) != n: return None
        if x == QH: return out
        out.append(m.get(fld(x[1], "lp"))); n = x
    return None
class QC(CC):
    """as CC, with the list of lines to visit followed exactly; P = nodes released"""
    def models(s, I, st, i, n, args):
        if n in ("delete_global_nodes", "reset_global_queue"): return None
        if n == "free":
            R = region(args[0])
            if R and R[0] == "q":
                if R in st.P: s.bad.add(i)
                return [(None, st.P + (R,), {})]
            return [(None, st.P, {})]
        return CC.models(s, I, st, i, n, args)
    def call(s, I, st, i, n, args):
        if n in ("delete_global_nodes", "reset_global_queue"): return None
        return CC.call(s, I, st, i, n, args)
    bad = None
def evaluate(prog, fn, args, N, lines, dot=None, glob=1, mem=None, mod=None):
    k = len(prog.defined[fn].args) - 1
    args = tuple(args) + (None,) * (k - len(args)) + (ED,)
    I = Shape(prog, (mod or QC)(prog, helpers(prog, [fn], GSTOP)), N); I.VISITS = 6 if fn == "substitute_lines" else 40; I.MAX = 2000000; I.c.bad = set()
    m = dict(mem) if mem else I.initial(dot if dot is not None else L(0, d=1), is_modified=0)
    m[fld(("exec",), "global")] = glob
    queue(m, lines)
    return I, I.run(fn, args, m, ())
class VC(SClient):
    """exec_global: each visited line must have left the list before it is visited"""
    def models(s, I, st, i, n, args):
        if n in ("get_line_node_address",):
            w = walk(st.mem); s.visit(I, st, i, args[0], w)
            return [(L(1, x=1), st.P + (args[0],), {}), (-2, st.P + (args[0],), {})]
        if n in ("get_extended_line", "get_stdin_line"): return [(NZ, st.P, {}), (0, st.P, {})]
        if n in ("exec_command", "address_range", "display_lines"): return [(0, st.P, {INP2: 0} if n == "exec_command" else {}), (-2, st.P, {})]
        if n in ("strlen", "strcpy", "feof", "clearerr", "puts", "fprintf"): return [(NZ if n == "strlen" else None, st.P, {})]
        return None
INP2 = fld(("ed",), "input")
class MC(SClient):
    """mark_global_nodes: P = ((line, matched?), ...) of the lines examined"""
    def models(s, I, st, i, n, args):
        if n == "get_compiled_regex": return [(NZ, st.P, {}), (0, st.P, {})]
        if n == "get_buffer_line": return [(NZ, st.P + ((args[0], None),), {}), (0, st.P + (("fail",),), {})]
        if n in ("regexec", "rpl_regexec"):
            if not st.P or st.P[-1][0] == "fail" or st.P[-1][1] is not None: s.hit(i, "a line is matched twice or without being read"); return []
            return [(v, st.P[:-1] + ((st.P[-1][0], v == 0),), {}) for v in (0, 1)]
        return None
    def call(s, I, st, i, n, args):
        if n in ("delete_global_nodes", "reset_global_queue"): return None
        return SClient.call(s, I, st, i, n, args)
UDEL, UMOV = 1, 16
class TS(Client):
    """P = (hold depth, removal recorded, lines relinked after that, lines taken off the list)"""
    cap = 60
    tracked = frozenset({GLOB})
    def __init__(s, prog, r): s.p = prog; s.r = r; s.undo = exclusive(prog, {"undo_last_command"}); s.n = set()
    def direct(s, f): return f.name in ("delete_global_nodes", "reset_global_queue", "append_undo_node", "spl0", "spl1") or any(s.ev(i) for i in f.all())
    def ev(s, i): return i.op == "store" and field_of(i.ops[1], i.func) == ("ed_line_node", "q_forw") and i.func.name not in s.undo
    def inst(s, K, st, i):
        d, rec, lk, off = st.P
        if s.ev(i) and rec: return [(d, 1, 1, off)]
        return None
    def call(s, K, st, i, name):
        d, rec, lk, off = st.P
        if name in ("delete_global_nodes", "reset_global_queue"): return [((d, rec, lk, 1), TOP)]
        if name == "append_undo_node":
            t = i.ops[0]
            if t[0] != "c" or t[1] not in (UDEL, UMOV): return None
            s.n.add(i); return [((d, 1, lk, off), POS), (st.P, ZERO)]
        if name == "spl1": return [((min(d + 1, 6), rec, lk, off), TOP)]
        if name == "spl0":
            if d == 0: return []
            if d == 1:
                if rec and lk and not off: K.report("listed", i, "lines were removed or moved during a global command and signals are released before they left the list of lines to visit", st)
                return [((0, 0, 0, 0), TOP)]
            return [((d - 1, rec, lk, off), TOP)]
        return None
class N(CmdClient):
    def __init__(s, prog, hit): CmdClient.__init__(s, prog); s.hit = hit
    def inline(s, n): return CmdClient.inline(s, n) or n in s.loc
    def step(s, I, st, i, n, args):
        if n in ("mark_global_nodes", "exec_global"): s.hit(i, n)
def sub(k):
    for n in range(k + 1):
        yield from combinations(range(-1, k - 1), n)
def run(r):
    p = r.prog
    dg = r.func("delete_global_nodes"); rg = r.func("reset_global_queue"); mg = r.func("mark_global_nodes"); eg = r.func("exec_global"); un = r.func("undo_last_command")
    r.explanation = ("Shape analysis of the list of lines still to visit: the functions that delete, move, join, substitute or undo lines are evaluated over abstract line lists and lists of marked lines, "
                     "mark_global_nodes over ranges with every outcome of matching, exec_global over lists of marked lines; constant propagation over every command inside a global command.")
    r.rule("removed", "deleted, moved or discarded lines leave the list of lines to visit, and only they")
    r.rule("listed", "during a global command, a step that records and performs a removal or movement of lines takes them off the list before signals are released")
    r.rule("undo", "undo and editing another file empty the list")
    r.rule("visit", "a line leaves the list before it is visited; each marked line is visited once, in order")
    r.rule("marked", "exactly the lines of the range that match (g, G) or do not match (v, V) are put on the list, after the previous list was emptied")
    r.rule("nested", "a global command inside a global command is refused before it marks or visits anything")
    def off(v):
        R = region(v)
        return addv(R[1], F, -1) if R and R[0] == "n" else v
    n = 3
    # 1 delete_lines, move_lines, join_lines, substitute_lines, copy_lines
    jobs = []
    for t in (0, 1, 2):
        T = addv(F, t)
        N_ = addv(T, n)
        for S in sub(t + 3):                             # lines F-1 .. T+1
            jobs.append(("delete_lines", (F, T), N_, S, t, set(range(t + 1)), False))
        for S in (tuple(range(-1, t + 2)), tuple(range(0, t + 1)), (-1, t + 1), (t,), (0, t + 1), ()):
            S = tuple(sorted(set(S)))
            for A, w in ((0, 0), (addv(F, -2), 0), (addv(F, -1), 1), (T, 1), (addv(T, 1), 0), (N_, 0), (addv(T, 2), 0)):
                if A == 0: jobs.append(("move_lines@", (3, 3 + t, 0), 3 + t + n, S, t, set(range(t + 1)), w)); continue
                jobs.append(("move_lines", (F, T, A), N_, S, t, set(range(t + 1)), w))
            if t: jobs.append(("join_lines", (F, T), N_, S, t, set(range(t + 1)), False))
            if t < 2: jobs.append(("substitute_lines", (F, T, NZ, 1, 0, 0), N_, S, t, None, False))
            jobs.append(("copy_lines", (F, T, T), N_, S, t, set(), False))
    for end in (0, 1):                                   # ranges that touch the ends of the buffer
        for t in (0, 1):
            for S in (tuple(range(0, t + 1)), (0,), (t,), ()):
                if end: jobs.append(("delete_lines", (F, addv(F, t)), addv(F, t), tuple(sorted(set(S) | {-1})), t, set(range(t + 1)), False))
                else: jobs.append(("delete_lines!", (1, 1 + t), addv(1 + t, n), tuple(sorted(set(S) | {t + 1})), t, set(range(t + 1)), False))
    for fn, args, N_, S, t, gone, noop in jobs:
        base = F
        if fn[-1] in "!@": base = 1 if fn[-1] == "!" else 3; fn = fn[:-1]
        f = r.func(fn)
        lines = [addv(base, k) for k in S]
        I, outs = evaluate(p, fn, args, N_, lines)
        r.count("evaluations")
        if I.unresolved and fn != "substitute_lines": raise AnalysisError("the position of a line in %s could not be followed" % fn)
        for b in I.c.bad: r.viol("removed", b, "an element of the list of lines to visit is released twice")
        ok = False
        for ret, m, P in outs:
            w = walk(m)
            if w is None: r.viol("removed", f, "the list of lines to visit is broken after %s" % fn); continue
            if any(fld(R, "lp") in m and any(x == m.get(fld(R, "lp")) for x in w) for R in P): r.viol("removed", f, "%s releases an element that stays in the list of lines to visit" % fn)
            if isinstance(ret, int) and ret < 0: continue
            ok = True
            left = [addv(region(x)[1], base, -1) if region(x) and region(x)[0] == "n" else None for x in w]
            if gone is None:
                # substitute: lines replaced by a new one
                y = node(addv(base, -1)); on = set()
                for _ in range(60):
                    y = m.get(fld(region(y), "q_forw"), I.default(region(y), "q_forw"))
                    if region(y) is None or y == node(addv(base, t + 1)): break
                    on.add(y)
                G = {k for k in range(t + 1) if node(addv(base, k)) not in on}
            else: G = gone
            must = [k for k in S if k not in G]
            if left != must:
                stay = [k for k in left if k in G]
                if noop and not stay or noop and set(left) >= set(must): continue
                r.viol("removed", f, "%s: %s" % (fn, "a line that is removed or moved stays in the list of lines to visit" if stay else "a line that stays in place is dropped from the list of lines to visit"))
        if not ok and outs is not None and fn != "substitute_lines": raise AnalysisError("no successful outcome of %s was found" % fn)
    r.need("evaluations", 150)
    # 1b every function that records a removal takes the lines off the list
    c = TS(p, r)
    K = r.kernel(c, [("exec_command", (0, 0, 0, 0), {GLOB: POS})])
    for ctx in K.ctxs.values() if isinstance(K.ctxs, dict) else K.ctxs:
        if ctx.fn.name != "exec_command": continue
        for P, fa, rm in ctx.exits:
            r.count("outcomes inside a global command")
            if rm & kernel.NONNEG and dict(fa).get(GLOB, TOP) & ZERO: r.viol("nested", ctx.fn, "a command of a global command's list can end the global state, so that the rest of the list is run as if it were not part of it")
    r.need("outcomes inside a global command", 1)
    r.set("removal records", len(c.n)); r.need("removal records", 1)
    # 2 undo
    for case in (("delete_lines", (F, F), addv(F, n)), ("move_lines", (F, F, 0), addv(F, n)), ("append_lines", (F,), addv(F, n)), ("copy_lines", (F, F, 0), addv(F, n))):
        fn, args, N_ = case
        I, m0, outs = shapes.evaluate(p, (fn, args, N_, L(0, d=1), ""))
        for ret, mem, P in outs[:6]:
            mem = clean(mem)
            if statef(mem, S1).get("lines") == -1: continue
            for lines in ([], [F], [1, F, addv(F, 1)]):
                I2, us = evaluate(p, "undo_last_command", (), N_, lines, mem=mem)
                r.count("undo evaluations")
                for ret2, m2, P2 in us:
                    w = walk(m2)
                    if ret2 == 0 and w: r.viol("undo", un, "undo leaves lines in the list of lines to visit")
                    if w is None: r.viol("undo", un, "the list of lines to visit is broken after undo")
    r.need("undo evaluations", 10)
    for k in range(4):
        I, outs = evaluate(p, "reset_global_queue", (), addv(F, n), [addv(F, 2 * j) for j in range(k)])
        for ret, m, P in outs:
            if walk(m) != []: r.viol("undo", rg, "lines stay in the list of lines to visit when it is emptied")
            if len(set(P)) != k: r.viol("undo", rg, "elements of the list of lines to visit are not released when it is emptied")
        if not outs: raise AnalysisError("reset_global_queue does not end")
    # E: list emptied before anything is read
    class E(CmdClient):
        def step(s, I, st, i, n, args):
            if n == "reset_global_queue": return (1,)
            if n in ("read_file", "read_pipe"):
                s.reads += 1
                if not st.P: r.viol("undo", i, "another file is read while lines of the previous text may be left in the list of lines to visit")
    reads = 0
    for ch in "eE":
        cl = E(p); cl.reads = 0
        command(p, cl, ch, {GLOB: 1, ("ed_state", "is_modified"): 0}, 0)
        reads += cl.reads
    r.set("reading steps of e and E", reads); r.need("reading steps of e and E", 1)
    # 3 visiting
    for k in range(4):
        for inter in (1, 3):
            lines = [addv(F, 2 * j) for j in range(k)]
            seen = []
            class V(VC):
                def visit(s, I, st, i, a, w):
                    r.count("visits")
                    if w is None: r.viol("visit", i, "the list of lines to visit is broken when a line is visited"); return
                    if a in w: r.viol("visit", i, "a line is visited while it is still in the list of lines to visit")
                    if a != node(lines[len(st.P)]) if len(st.P) < k else True: r.viol("visit", i, "the lines to visit are not visited once each in order")
            I = Shape(p, V(p), addv(F, 9)); I.c.inl = helpers(p, ["exec_global"], GSTOP | {"exec_command", "address_range", "get_line_node_address"}); I.VISITS = 12; I.MAX = 3000000
            m = I.initial(L(0, d=1)); m[fld(("exec",), "global")] = inter; queue(m, lines)
            outs = I.run("exec_global", (ED,), m, ())
            r.count("visiting evaluations"); full = 0
            for ret, mm, P in outs:
                if isinstance(ret, int) and ret >= 0 or ret is None or isL(ret):
                    if len(P) == k: full += 1
            if not full: r.viol("visit", eg, "a global command does not visit every line of its list")
    r.need("visits", 6)
    # 4 marking
    for cnt in (1, 2, 3):
        for want in (0, 1):
            hits = []
            def hit(i, w): r.viol("marked", i, w)
            c4 = MC(p)
            c4.inl = helpers(p, ["mark_global_nodes"], GSTOP); c4.hit = hit
            N_ = addv(F, 6)
            I = Shape(p, c4, N_); I.VISITS = 12
            m = I.initial(L(0, d=1)); m[fld(("exec",), "global")] = 0; queue(m, [1, 3])
            m[fld(("exec",), "region")] = ("p", ("reg",), 0)
            m[fld(("reg",), "start")] = F; m[fld(("reg",), "end")] = addv(F, cnt - 1)
            outs = I.run("mark_global_nodes", (want, ED), m, ())
            r.count("marking evaluations")
            good = 0
            for ret, mm, P in outs:
                if isinstance(ret, int) and ret < 0: continue
                good += 1
                w = walk(mm)
                if w is None: r.viol("marked", mg, "the list of lines to visit is broken after marking"); continue
                if [x[0] for x in P] != [node(addv(F, k)) for k in range(cnt)]: r.viol("marked", mg, "not exactly the lines of the range are examined"); continue
                if any(x[1] is None for x in P): r.viol("marked", mg, "a line of the range is not matched against the pattern"); continue
                if w != [x[0] for x in P if x[1] == bool(want)]: r.viol("marked", mg, "the lines put on the list are not those that %s" % ("match" if want else "do not match"))
            if good < 2 ** cnt: r.viol("marked", mg, "marking fails although every line could be examined")
    # 5 nesting
    for ch in "gvGV":
        for g in (1, 2, 3):
            got = []
            cl = N(p, lambda i, n: got.append(i)); cl.loc = ()
            I, outs = command(p, cl, ch, {GLOB: g}, None)
            r.count("nested evaluations")
            for i in got: r.viol("nested", i, "a global command inside a global command gets here")
            for ret, m, P in outs:
                if ret == 0 or isinstance(ret, int) and ret > 0: r.viol("nested", r.func("exec_command"), "the global command %s is accepted inside a global command" % ch)
        got = []
        cl = N(p, lambda i, n: got.append(i)); cl.loc = ()
        command(p, cl, ch, {GLOB: 0}, None)
        if not got: raise AnalysisError("the global command %s does not mark lines" % ch)
