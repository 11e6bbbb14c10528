from kernel import *
import shapes
from shapes import *
from common import *
UADD, UDEL, UMOV = 0, 1, 16
LINES = ("ed_state", "lines")
class C(Client):
    """P = (hold depth, unrecorded addition, removal recorded, moves recorded, last record is an addition, a new line is being linked)"""
    cap = 60
    def __init__(s, prog, r):
        s.p = prog; s.r = r; s.seen = set()
        s.add = exclusive(prog, {"append_line_node"}); s.undo = exclusive(prog, {"undo_last_command"}); s.init = exclusive(prog, {"init_ed_state"})
        s.rec = exclusive(prog, {"append_undo_node"})
    def direct(s, f): return f.name in ("append_undo_node", "spl0", "spl1", "activate_signals") or any(s.ev(i) or i.callee in ("spl0", "spl1") or f.name in s.add and i.callee in ("malloc", "calloc") for i in f.all())
    def ev(s, i):
        if i.op != "store": return None
        fl = field_of(i.ops[1], i.func)
        if fl == LINES: return "count"
        if fl is None: return None
        if fl[0] == "ed_line_node" and fl[1] in ("q_forw", "q_back"): return "link"
        if fl == ("ed_undo_node", "t"): return "extend"
        return None
    def inst(s, K, st, i):
        e = s.ev(i); n = i.func.name
        if not e or n in s.undo or n in s.init or st.P[0] == -1: return None
        d, pend, dele, mov, last, fresh = st.P
        if e == "count":
            s.seen.add(i)
            v = i.ops[0]; x = i.func.inst.get(v[1]) if v[0] == "v" else None
            if x is not None and x.op == "add" and x.ops[1][0] == "c" and x.ops[1][1] > 0: return [(d, 1, dele, mov, last, fresh)]
            if not dele: K.report("recorded", i, "lines are removed from the buffer without an undo record", st)
        if e == "link":
            s.seen.add(i)
            if not fresh and not dele and mov < 2: K.report("recorded", i, "lines are relinked before their removal or movement was recorded for undo", st)
        if e == "extend" and n not in s.rec:
            s.seen.add(i)
            if not last: K.report("extend", i, "an undo record is extended although another change was recorded after it", st)
            return [(d, 0, dele, mov, last, 0)]
        return None
    def call(s, K, st, i, name):
        d, pend, dele, mov, last, fresh = st.P
        if name == "activate_signals": return [((0 if d == -1 else d,) + st.P[1:], TOP)]
        if name == "append_undo_node" and d != -1:
            t = i.ops[0]; s.seen.add(i)
            if t[0] != "c": K.report("recorded", i, "the kind of an undo record is not fixed by the program", st); return None
            ok = {UADD: (d, 0, dele, mov, 1, 0), UDEL: (d, pend, 1, mov, 0, fresh), UMOV: (d, pend, dele, min(mov + 1, 2), 0, fresh)}.get(t[1])
            if ok is None: K.report("recorded", i, "an undo record of an unknown kind", st); return None
            return [(ok, POS), ((d, 0, 1, 2, 1, 0), ZERO)]
        if name in ("malloc", "calloc") and i.func.name in s.add and d != -1: return [((d, pend, dele, mov, last, 1), POS), (st.P, ZERO)]
        if name in ("spl1", "spl0"):
            if d == -1: return [(st.P, TOP)]
            if name == "spl1": return [((min(d + 1, 6),) + st.P[1:], TOP)]
            if d == 0: return []
            if d == 1:
                if pend: K.report("recorded", i, "a line was added to the buffer and signals are released before the addition is recorded for undo", st)
                return [((0, 0, 0, 0, last, 0), TOP)]
            return [((d - 1,) + st.P[1:], TOP)]
        return None
def run(r):
    p = r.prog
    for n in ("append_line_node", "append_undo_node", "undo_last_command", "init_ed_state", "delete_lines", "move_lines", "copy_lines", "join_lines", "append_lines",
              "substitute_lines", "read_stream", "read_stream_r", "put_buffer_line"): r.func(n)
    r.explanation = ("(1) Path-sensitive interprocedural typestate over every change of the line count, of a line's links and of an undo record, from main. (2) Shape "
                     "analysis: each list-editing function and then undo are evaluated over an abstract line list with affine positions, for every position of the range "
                     "and destination relative to the ends of the buffer; links, line count and current line after undo must be those before the command.")
    r.rule("recorded", "every addition, removal and movement of lines has its undo record before signals are released (removals and movements: before the links change)")
    r.rule("extend", "an addition record is extended only while no other change was recorded after it")
    r.rule("restore", "undo after the function restores every link, the line count and the current line; only when a record could not be allocated is undo refused, and then the function fails")
    r.assumptions.append("loops of a list-editing function are explored up to %d times per path in the shape analysis (the typestate has no such bound)" % Shape.VISITS)
    c = C(p, r)
    r.kernel(c, [("main", (-1, 0, 0, 0, 0, 0))])
    r.set("operations checked by typestate", len(c.seen)); r.need("operations checked by typestate", 15)
    for case in cases():
        fn, args, N, dot, desc = case
        f = r.func(fn)
        I, m0, outs = evaluate(p, case)
        r.count("list cases"); r.count("outcomes", len(outs)); r.count("paths cut at the loop bound", I.cut)
        if not any(o[0] != NZ and isinstance(o[0], int) and o[0] >= 0 or o[0] is None for o in outs) and fn not in ("append_lines",): raise AnalysisError("%s never succeeds (%s)" % (fn, desc))
        seen = {}
        for ret, mem, P in outs:
            k = frozenset((k, v) for k, v in clean(mem).items() if region(k) and k[1][0] == "fld")
            seen.setdefault((ret, k), mem)
        for (ret, _), mem in seen.items():
            IU, us = undo(p, mem, N)
            changed = any(k[1][1][0] == "n" for k in links(I, mem)) or statef(mem, S0).get("lines") != N
            if not us and changed: r.viol("restore", f, "undo does not terminate after %s" % fn)
            for r2, m2, _ in us:
                r.count("undo evaluations")
                if not (isinstance(r2, int) and r2 == 0):
                    if changed and not (isinstance(ret, int) and ret < 0): r.viol("restore", f, "a successful change cannot be undone (%s)" % desc)
                    continue
                if any(k[1][1][0] == "n" for k in links(IU, m2)): r.viol("restore", f, "undo does not restore the sequence of lines (%s)" % desc); continue
                s = statef(m2, S0)
                if s.get("lines") != N: r.viol("restore", f, "undo does not restore the number of lines (%s)" % desc)
                elif s.get("dot") != dot: r.viol("restore", f, "undo does not restore the current line (%s)" % desc)
    r.need("list cases", 80); r.need("undo evaluations", 200)
