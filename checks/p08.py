from cp import *
import shapes
from shapes import *
from common import *
def run(r):
    p = r.prog; f = r.func("undo_last_command")
    r.explanation = ("Shape analysis: undo is evaluated over every kind of history that the list-editing functions leave, singly and two functions in a row, then "
                     "evaluated again on its own result, over abstract line lists with affine positions; and over the refused cases.")
    r.rule("exchange", "undo exchanges every member of the current and previous state")
    r.rule("restore", "undo restores the links of every line, for one change and for two changes sharing a history")
    r.rule("twice", "undoing twice restores all links and both states exactly as they were, and undoing again does what undoing once did")
    r.rule("refuse", "with nothing to undo, undo fails and changes nothing")
    r.rule("global", "undo inside a global command empties the list of lines to visit; outside it does not touch it")
    r.rule("fresh", "when a new history starts, no earlier record remains and the state saved for undo is the current one")
    r.rule("freed", "discarding the history frees no line that is in the buffer, and none twice")
    hist = []          # (mem, N0, dot0, N, what)
    single = {}
    for case in cases():
        fn, args, N, dot, desc = case
        r.func(fn)
        if fn == "substitute_lines" and "two" in desc and "inner" in desc: continue
        I, m0, outs = evaluate(p, case)
        seen = set()
        for ret, mem, P in outs:
            k = frozenset((k, v) for k, v in clean(mem).items() if region(k) and k[1][0] == "fld")
            if k in seen: continue
            seen.add(k); hist.append((mem, N, dot, "%s: %s" % (fn, desc)))
    n = L(4, n=1)
    chains = [(("move_lines", (1, 1, n)), ("delete_lines", (1, 1))), (("delete_lines", (1, 1)), ("move_lines", (1, 1, 2))), (("delete_lines", (1, 2)), ("delete_lines", (1, 1))),
              (("copy_lines", (1, 1, 0)), ("delete_lines", (1, 2))), (("copy_lines", (1, 1, 0)), ("move_lines", (1, 1, 2))), (("delete_lines", (2, 3)), ("append_lines", (1,))),
              (("append_lines", (0,)), ("delete_lines", (1, 1))), (("move_lines", (1, 1, 2)), ("move_lines", (1, 1, 3)))]
    for a, b in chains:
        dot = L(0, d=1)
        I, m0, outs = evaluate(p, (a[0], a[1], n, dot, ""))
        for ret, mem, P in outs[:6]:
            I2, outs2 = chain(p, mem, b, n)
            for ret2, mem2, P2 in outs2[:12]: hist.append((mem2, n, dot, "%s then %s" % (a[0], b[0])))
        r.count("pairs of changes")
    r.set("histories", len(hist)); r.need("histories", 150)
    def nl(I, m): return {k: v for k, v in links(I, m).items() if k[1][1][0] == "n"}
    def heap(I, m): return {k: v for k, v in m.items() if region(k) and k[1][0] == "fld" and k[1][1][0] in ("n", "new", "state") and k[1][2] != "type" and not (k[1][2] in LINK and I.default(k[1][1], k[1][2]) == v)}
    done = set()
    for mem, N, dot, what in hist:
        kk = frozenset(clean(mem).items())
        if kk in done: continue
        done.add(kk)
        mem = clean(mem)
        # distinguishable states
        s1 = statef(mem, S1)
        if s1.get("lines") == -1 or s1.get("dot") == -1: continue
        for k, v in (("is_binary", 41), ("is_empty", 43), ("newline_appended", 44), ("newline_missing", 45), ("is_utf8", 46)):
            mem[fld(S0, k)] = v; mem[fld(S1, k)] = v + 50
        flags = [(x, y) for x, y in p.structs["ed_state"] if True]
        for gl in (0, 1):
            I1, us = undo(p, mem, N, gl)
            r.count("undo evaluations")
            if not us: r.viol("twice", f, "undo does not terminate (%s)" % what)
            for r1, m1, _ in us:
                if not (r1 == 0): r.viol("restore", f, "undo fails although there is a history (%s)" % what); continue
                if nl(I1, m1): r.viol("restore", f, "undo does not restore the sequence of lines (%s)" % what)
                if not same(statef(m1, S0), statef(mem, S1)) or not same(statef(m1, S1), statef(mem, S0)): r.viol("exchange", f, "undo does not exchange the current and previous state (%s)" % what)
                I2, us2 = undo(p, m1, N, gl)
                if not us2: r.viol("twice", f, "undoing twice does not terminate (%s)" % what)
                for r2, m2, _ in us2:
                    r.count("second evaluations")
                    if r2 != 0: r.viol("twice", f, "the second undo fails (%s)" % what); continue
                    a, b = heap(I2, m2), heap(I2, mem)
                    if a != b: r.viol("twice", f, "undoing twice does not restore the buffer as it was (%s)" % what)
                    if gl: continue
                    I3, us3 = undo(p, m2, N, gl)
                    for r3, m3, _ in us3:
                        if r3 != 0 or heap(I3, m3) != heap(I3, m1): r.viol("twice", f, "undoing three times does not do what undoing once does (%s)" % what)
    # the state kept when a new history starts
    rs = r.func("reset_undo_queue")
    class R(SClient):
        def __init__(s): SClient.__init__(s, p); s.inl = helpers(p, ["reset_undo_queue"], STOP | {"unmark_line_node"})
        def models(s, I, st, i, n, a):
            if n == "unmark_line_node": return [(None, st.P, {})]
    done = set()
    start = shapes.Shape(p, R(), 3).initial(2)
    for mem, N, dot, what in [(start, 3, 2, "no changes")] + hist:
        mem = clean(mem); kk = frozenset(mem.items())
        if kk in done or statef(mem, S0).get("lines") is None: continue
        done.add(kk)
        for k, v in (("dot", 1), ("is_modified", 40), ("is_binary", 41), ("is_empty", 43), ("newline_appended", 44), ("newline_missing", 45), ("is_utf8", 46)):
            mem[fld(S0, k)] = v; mem[fld(S1, k)] = v + 50
        mem[fld(S1, "lines")] = 77
        I = Shape(p, R(), N); I.VISITS = 12
        for ret, m, P in I.run("reset_undo_queue", (ED,), mem):
            r.count("fresh histories")
            a, b = statef(m, S0), statef(m, S1)
            if not same(a, statef(mem, S0)): r.viol("fresh", rs, "starting a new history changes the current state of the buffer (%s)" % what)
            elif not same(a, b): r.viol("fresh", rs, "the state saved for undo when a new history starts is not the current one: %s (%s)" % (", ".join(k for k in a if a.get(k) != b.get(k)), what))
            if m.get(fld(("u", 0), "q_forw")) != UHEAD or m.get(fld(("u", 0), "q_back")) != UHEAD: r.viol("fresh", rs, "records of earlier changes remain when a new history starts (%s)" % what)
    r.need("fresh histories", 20)
    class Fr(R):
        def models(s, I, st, i, n, a):
            if n == "free": return [(None, (st.P or ()) + (region(a[0]),), {})]
            return R.models(s, I, st, i, n, a)
    CON = [("delete_lines", (2, 3)), ("delete_lines", (1, 1)), ("delete_lines", (5, 5)), ("delete_lines", (1, 5)), ("move_lines", (1, 2, 4)), ("move_lines", (3, 4, 0)), ("copy_lines", (1, 2, 4)),
           ("copy_lines", (2, 4, 3)), ("join_lines", (1, 3)), ("join_lines", (4, 5)), ("append_lines", (2,)), ("substitute_lines", (2, 3, NZ, 1, 0, 0))]
    def live(I, m):
        out, x = [], HEAD
        for _ in range(40):
            R0 = region(x)
            if R0 is None: return None
            out.append(R0); x = m.get(fld(R0, "q_forw"), I.default(R0, "q_forw"))
            if x == HEAD: return out
        return None
    for fn, args in CON:
        I, m0, outs = evaluate(p, (fn, args, 5, 2, ""))
        seqs = [(fn, I, m) for ret, m, P in outs]
        for mem in [m for _, _, m in seqs[:8]]:
            n2 = statef(mem, S0).get("lines")
            if isinstance(n2, int) and n2 > 2:
                I2, outs2 = chain(p, mem, ("delete_lines", (1, 2)), 5)
                seqs += [(fn + " then delete_lines", I2, m) for ret, m, P in outs2]
        for what, I0, mem in seqs:
            mem = clean(mem)
            if statef(mem, S0).get("lines") is None or live(I0, mem) is None: continue
            for again in (0, 1):
                if again:
                    I1, us = undo(p, mem, 5)
                    ms = [(x, " then undo") for rr, x, _ in us if rr == 0]
                else: ms = [(mem, "")]
                for mm, w in ms:
                    mm = clean(mm); lv = live(I0, mm)
                    if lv is None: continue
                    I = Shape(p, Fr(), 5); I.VISITS = 12
                    for ret, m, P in I.run("reset_undo_queue", (ED,), mm):
                        r.count("histories discarded")
                        fr = [x for x in P or () if x and x[0] in ("n", "new")]
                        if set(fr) & set(lv): r.viol("freed", rs, "discarding the history frees a line that is in the buffer (%s%s)" % (what, w))
                        if len(set(fr)) != len(fr): r.viol("freed", rs, "discarding the history frees a line twice (%s%s)" % (what, w))
    r.need("histories discarded", 30)
    # refused
    class G(SClient):
        def __init__(s, g): SClient.__init__(s, p); s.inl = helpers(p, ["undo_last_command"], STOP); s.g = g
        def models(s, I, st, i, n, a):
            if n == "reset_global_queue": s.g.append(i); return [(None, "reset", {})]
    for sd, sl, gl in ((-1, 5, 0), (3, -1, 0), (-1, -1, 0), (-1, -1, 1), (3, 5, 0), (3, 5, 1)):
        g = []; I = Shape(p, G(g), 5); m = I.initial(3); m[fld(S1, "dot")] = sd; m[fld(S1, "lines")] = sl; m[fld(("exec",), "global")] = gl
        outs = I.run("undo_last_command", (ED,), m)
        for ret, mm, P in outs:
            r.count("start cases")
            if sd == -1 or sl == -1:
                if not (isinstance(ret, int) and ret < 0): r.viol("refuse", f, "undo succeeds with nothing to undo")
                ch = [k for k in set(clean(mm)) | set(m) if region(k) and k[1][0] == "fld" and k[1][2] != "err" and k[1][1][0] in ("n", "u", "state", "exec") and mm.get(k) != m.get(k)]
                if ch or P: r.viol("refuse", f, "a refused undo changes the buffer")
            elif bool(gl) != (P == "reset"): r.viol("global", f, "undo within a global command does not empty the list of lines to visit" if gl else "undo empties the list of lines to visit outside global commands")
    r.need("start cases", 6)
def same(a, b): return {k: v for k, v in a.items() if v is not None} == {k: v for k, v in b.items() if v is not None}
