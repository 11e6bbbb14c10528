"""The current line after every step that edits, reads or prints lines and after every command; shared by P40 and P41."""
import p07
from p16 import *
from p16 import C as RC, cases as positions
import shapes
from shape import fld, S0, ED, SClient, region, node
LIST = {"append_lines", "read_file", "read_pipe", "append_from_register"}          # add lines after a given one
ANY = {"join_lines", "move_lines", "copy_lines", "substitute_lines", "resubstitute", "undo_last_command", "exec_global", "display_lines", "exec_command", "address_range", "read_file", "read_pipe"}
U, V = L(0, u=1), L(0, u=1, v=1)
def within(d, n):
    if lin(d) is None or lin(n) is None: return None
    return sign(d) <= {0, 1} and sign(addv(n, d, -1)) <= {0, 1}
def kept(d0, n0, d, n):
    """unchanged, and the buffer did not shrink"""
    return d is not None and d == d0 and lin(n) is not None and sign(addv(n, n0, -1)) <= {0, 1}
# ---- printing
class DI(Shape):
    """display_lines: local variables, lists and the frame's members; blocks are counted on back edges only"""
    more = ()
    def gep(s, st, base, path):
        b = s.val(st, base); R = region(b)
        if R and R[0] == "g":
            for q in path:
                if q[0] != "fld": return NZ
                R = ("fld", R, q[2])
            return ("p", R, 0)
        return Shape.gep(s, st, base, path)
    def loc(s, st, op):
        l = Shape.loc(s, st, op); R = region(l) if l is not None else None
        if l is None or l[0] != "p" or R and (R[0] == "l" or R[0] == "fld" and R[1][0] in ("state", "ed", "n", "l", "g") + s.more): return l
        return None
    def goto(s, st, b, t, work):
        if t <= b:
            k = ("vis", st.f.name, t); c = st.mem.get(k, 0) + 1
            if c > s.VISITS: s.cut += 1; return
            st.mem[k] = c
        Interp.goto(s, st, b, t, work)
class DC(SClient):
    def __init__(s, prog): SClient.__init__(s, prog); s.inl = set()
    def models(s, I, st, i, n, a):
        if n == "display_lines": return [(-2, st.P, {}), (0, st.P, {fld(S0, "dot"): U, fld(S0, "lines"): V})]
        if n in s.prog.defined and n != "get_line_node":
            t = s.prog.defined[n].ret
            return [(NZ, st.P, {}), (0, st.P, {})] if t == "ptr" else [(0, st.P, {}), (-2, st.P, {})] if t == "i32" else [(None, st.P, {})]
        if n in ("free", "spl1", "spl0"): return [(None, st.P, {})]
        return None
def printing(r, check, mem0={}):
    p = r.prog; f = r.func("display_lines")
    for F in (1, L(1, f=1)):
        for k in (0, 1):
            T = addv(F, k)
            for N in (T, addv(T, L(1, n=1))):
                I = DI(p, DC(p), N); I.VISITS = 6; I.more = ("disp",) if mem0 else ()
                for ret, mem, P in I.run("display_lines", (F, T, ED), {**I.initial(0), **mem0}):
                    d, n = mem.get(fld(S0, "dot")), mem.get(fld(S0, "lines"))
                    r.count("ways of printing evaluated")
                    check(f, F, T, N, ret, d, n)
    r.need("ways of printing evaluated", 100)
# ---- steps that edit or read
def steps(r, check):
    p = r.prog
    for case in shapes.cases():
        fn, args, N, dot, desc = case
        f = r.func(fn)
        I, m0, outs = shapes.evaluate(p, case)
        for ret, mem, P in outs:
            s = shapes.statef(mem, S0); d, n = s.get("dot"), s.get("lines")
            r.count("ways of editing evaluated")
            check(f, fn, args, N, dot, desc, ret, d, n)
    r.need("ways of editing evaluated", 300)
# ---- commands
class CC(RC):
    """P = description of the last step"""
    def step(s, I, st, i, n, args):
        N, D = st.mem.get(LINES), st.mem.get(DOT)
        if n == "address_range" and i.func.name in s.loops: return [(-2, n, {}), (1, n, {DOT: U, LINES: V})]
        if n == "address_range": return RC.step(s, I, st, i, n, args)
        w = {l: None for l in I.writes.get(n, ())}
        for o in i.ops:
            x = I.loc(st, o) if o[0] == "v" else None
            if x is not None and x[0] == "l": w[x] = None
        fail = lambda v: isinstance(v, int) and v < 0
        if n == "delete_lines":
            if None in (lin(args[0]), lin(args[1]), lin(N)): s.unk += 1; return None
            return [(v, n, {**w, LINES: N, DOT: D} if fail(v) else {**w, LINES: addv(addv(N, args[1], -1), addv(args[0], -1)), DOT: addv(args[0], -1)}) for v in rets(s.p, n)]
        if n in LIST:
            a = args[1] if n.startswith("read_") else args[0]
            out = []
            for v in rets(s.p, n):
                if lin(a) is None or lin(N) is None: out.append((v, n, {**w, DOT: U, LINES: V})); continue
                out.append((v, n, {**w, DOT: a, LINES: N}))
                out.append((v, n, {**w, DOT: addv(a, L(1, k=1)), LINES: addv(N, L(1, k=1))}))
                if fail(v): out.append((v, n, {**w, DOT: D, LINES: N}))
            return out
        if n == "filter_lines":
            if None in (lin(args[0]), lin(args[1]), lin(N)): s.unk += 1; return None
            left = N if args[0] == 0 else addv(addv(N, args[1], -1), addv(args[0], -1))
            return [(v, n, {**w, DOT: D, LINES: N} if fail(v) else {**w, DOT: U, LINES: addv(left, k)}) for v in rets(s.p, n) for k in (0, L(1, k=1))]
        if n == "init_ed_state":
            return [(None, n, {LINES: args[0], DOT: args[0]} if p07.slot(I, st, i.ops[1]) == 0 else {})]
        if n in s.p.defined and (n in ANY or DOT in w or LINES in w) and n not in s.neutral:
            same = {**w, DOT: D, LINES: N}
            out = []
            for v in rets(s.p, n):
                if n not in ("display_lines",): out.append((v, n, {**w, DOT: U, LINES: V}))
                elif fail(v): out.append((v, n, same))
                elif s.exact: out.append((v, n, same if N == 0 else {**w, DOT: args[1], LINES: N}))
                else: out += [(v, n, {**w, DOT: args[0], LINES: N}), (v, n, {**w, DOT: args[1], LINES: N}), (v, n, same)]
            return out
        return None
def commands(r, check, letters, exact=False):
    """check(letter, description, memory before, return value, memory after, last step)"""
    p = r.prog; r.func("exec_command")
    # functions that change the state only through restarting the history, which copies it
    neutral = {"reset_undo_queue", "reset_global_queue", "append_undo_node"}
    loops = {f.name for f in p.defined.values() if f.name != "main" and list(f.calls("address_range")) and list(f.calls("exec_command"))}
    for desc, m0 in positions():
        for ch in letters:
            cl = CC(p, r, ch, desc); cl.neutral = neutral; cl.loops = loops; cl.exact = exact; cl.bad = lambda *a: None
            m = {OPT: 0, GLOB: 0, INP: ("p", "in", 0)} if exact else {OPT: 0, INP: ("p", "in", 0)}
            for k, b in enumerate(ch): m[("p", "in", k)] = ord(b)
            m.update(m0)
            if m0[LINES] != 0: m[EMPTY] = 0
            I = Aff(p, cl); I.MAX = 2000000
            r.count("commands evaluated")
            for ret, mem, P in I.run("exec_command", (None,), m, None):
                r.count("ends of commands")
                check(ch, desc, m0, ret, mem, P)
