from kernel import *
from cp import CPClient, Interp
from common import *
import iv
SP = ("ed_core", "sp"); FP = ("ed_stack_frame", "fp")
HANDLERS = {"signal_handler", "handle_winch", "handle_interrupt", "handle_hangup"}
def spload(f, op):
    """(load of the frame count, added constant) or None"""
    k = 0
    for _ in range(6):
        if op[0] != "v": return None
        i = f.inst[op[1]]
        if i.op == "load": return (i, k) if field_of(i.ops[0], f) == SP else None
        if i.op in ("sext", "zext", "trunc", "freeze"): op = i.ops[0]
        elif i.op in ("add", "sub") and i.ops[1][0] == "c": k += i.ops[1][1] if i.op == "add" else -i.ops[1][1]; op = i.ops[0]
        else: return None
    return None
def strip(f, op):
    while op[0] == "v" and f.inst[op[1]].op in ("sext", "zext", "trunc", "freeze"): op = f.inst[op[1]].ops[0]
    return op
def frame_index(f, op):
    """index of the frame a pointer to a field of it is based on"""
    if op[0] != "v": return None
    g = f.inst[op[1]]
    b = g.ops[0] if g.op == "getelementptr" else None
    if b is None or b[0] != "v": return None
    l = f.inst[b[1]]
    if l.op == "call" or l.op == "phi": return "new"
    if l.op != "load" or l.ops[0][0] != "v": return None
    a = f.inst[l.ops[0][1]]
    if a.op != "getelementptr": return None
    for q in a.path:
        if q[0] == "arr": return strip(f, q[1])
    return None
class C(Client):
    """P = (frames above those at the root's entry: 0.. | -1 fewer | 'Z' none at all, 'n'/'0'/'?' what is known of the number, input restored since the last pop, input saved since the last push, values equal to the number)"""
    cap = 600
    def __init__(s, p, root): s.p = p; s.root = root; s.n = {"pops": set(), "pushes": set(), "commands": set(), "saves": set(), "restores": set(), "interrupts": set()}
    def direct(s, f):
        for i in f.all():
            if i.op == "store" and (field_of(i.ops[1], f) in (SP, FP) or i.ops[1] == ("g", "stdin")): return True
            if i.op == "load" and field_of(i.ops[0], f) == SP: return True
            if i.op == "call" and (i.callee == "exec_command" or i.callee in ("_setjmp", "__sigsetjmp", "setjmp", "sigsetjmp")): return True
        return False
    def entry(s, K, P, f): return P[:4] + (frozenset(),)
    def inst(s, K, st, i):
        P = st.P; d, z, res, sav, cur = P; f = i.func
        if i.op == "load":
            if field_of(i.ops[0], f) == SP: return [P[:4] + (cur | {i.id},)]
            return None
        if i.op != "store": return None
        k = field_of(i.ops[1], f)
        if i.ops[1] == ("g", "stdin"):
            v = i.ops[0]; l = f.inst[v[1]] if v[0] == "v" else None
            if l is not None and l.op == "load" and field_of(l.ops[0], f) == FP:
                s.n["restores"].add(i); x = frame_index(f, l.ops[0])
                if x is None or x == "new": return None
                if x[0] == "c" and x[1] == 0: return [(d, z, "0", sav, cur)]
                if x[0] == "v" and x[1] in cur: return [(d, z, "sp", sav, cur)]
                K.report("restored", i, "the input is taken from a frame other than the one left", st)
                return [(d, z, "sp", sav, cur)]
            return None
        if k == FP:
            v = i.ops[0]; l = f.inst[v[1]] if v[0] == "v" else None
            x = frame_index(f, i.ops[1])
            if l is not None and l.op == "load" and l.ops[0] == ("g", "stdin") and (x == "new" or x is not None and x[0] == "v" and x[1] in cur):
                s.n["saves"].add(i); return [(d, z, res, 1, cur)]
            return None
        if k != SP: return None
        x = spload(f, i.ops[0])
        if i.ops[0][0] == "c" and i.ops[0][1] == 0: return [("Z", "0", res, sav, frozenset())]
        if x is None or x[1] not in (1, -1) or x[0].id not in cur:
            K.report("paired", i, "the number of frames is set to something other than one more or one less", st); return []
        own = strip(f, i.ops[0]); new = frozenset({own[1]}) if own[0] == "v" else frozenset()
        if x[1] == 1:
            s.n["pushes"].add(i)
            if not sav: K.report("restored", i, "a frame is entered without the current input having been saved in it", st)
            if d == "Z": return [("Z", "n", None, 0, new)]
            return [(d + 1 if d < 3 else 3, "n", None, 0, new)]
        s.n["pops"].add(i)
        if d == "Z" and z != "n" or d != "Z" and d < 1 and z != "n":
            K.report("paired", i, "a frame is left although none may have been entered", st); return []
        return [(d if d == "Z" else d - 1 if d > 0 else -1, "n" if d != "Z" and d > 1 else "?", "0" if res == "0" else "P", sav, new)]
    def edge(s, K, st, br, taken):
        f = br.func; c, taken = K.cond(st, br, taken)
        if c is None or c.op != "icmp": return None
        for a, b, sw in ((0, 1, False), (1, 0, True)):
            x = spload(f, c.ops[a]); y = c.ops[b]
            own = strip(f, c.ops[a])
            if x is None or y[0] != "c" or not (own[0] == "v" and own[1] in st.P[4]): continue
            if own[1] != x[0].id: k = 0          # the decremented value itself is current
            elif x[1]: continue
            else: k = 0
            pr = c.pred
            if sw: pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
            h = {"eq": lambda v: v == y[1], "ne": lambda v: v != y[1], "slt": lambda v: v < y[1], "sgt": lambda v: v > y[1], "sle": lambda v: v <= y[1], "sge": lambda v: v >= y[1],
                 "ult": lambda v: v < y[1], "ugt": lambda v: v > y[1], "ule": lambda v: v <= y[1], "uge": lambda v: v >= y[1]}[pr]
            zero = h(0) == taken; some = any(h(v) == taken for v in range(1, 300))
            d, z, res, sav, cur = st.P
            if zero and some: return None
            if zero:
                if d not in ("Z", -1) and d > 0 or z == "n": return False
                return ((0 if res is None else "Z") if d == -1 else d, "0", res, sav, cur)
            if z == "0": return False
            return (d, "n", res, sav, cur)
        return None
    def call(s, K, st, i, name):
        d, z, res, sav, cur = st.P
        if name in ("_setjmp", "__sigsetjmp", "setjmp", "sigsetjmp"):
            s.n["interrupts"].add(i)
            return [(st.P, ZERO), ((-1, "?", None, sav, frozenset()), POS)]
        if name == "exec_command":
            s.n["commands"].add(i)
            if s.root == "main":
                if d not in (0, "Z") or z == "n": K.report("unwound", i, "the next command is read with frames of an ended macro in place", st); return []
                if d == "Z" and res != "0": K.report("restored", i, "the next command is read although the input from which the macro was called was not restored", st)
                return [((0, "0", None, sav, frozenset()), TOP)]
            keep = (d, "n" if z == "n" or d != "Z" and d > 0 else "?", None, sav, frozenset())
            return [(keep, NONNEG | atom(-1)), (keep, NEG & ~atom(-1)), (("Z", "0", "0", sav, frozenset()), NEG & ~atom(-1))]
        return None
    def leave(s, K, P, f, rm):
        d, z, res, sav, cur = P
        if f.name == s.root and s.root == "exec_command":
            if d not in (0, -1, "Z"): s.r.viol("paired", f, "a command returns with a macro frame still in place")
            elif d == -1: s.r.viol("unwound", f, "a command returns having left a frame it did not enter without leaving all")
            elif d == "Z" and rm & (NONNEG | atom(-1)): s.r.viol("unwound", f, "a command that left every frame returns as if it had succeeded")
            elif d == "Z" and z == "n": s.r.viol("unwound", f, "a command returns with frames in place after leaving all")
            if res == "P": s.r.viol("restored", f, "a frame is left without taking the input back from it")
            if d == "Z" and res != "0": s.r.viol("restored", f, "every frame was left without taking the input back from the outermost")
        # a function that pops restores the input before it returns
        return (d, z, res, sav, frozenset())
class FC(CPClient):
    """P = frames released (index or None), in order"""
    def __init__(s, inl): s.inl = inl
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, n, args):
        if n == "free":
            k = elem(I, st, i.ops[0]); d = i.func.inst[i.ops[0][1]] if i.ops[0][0] == "v" else None
            if k is None and not (d is not None and d.op == "load" and field_of(d.ops[0], i.func) == ("ed_core", "stack_frame")): return [(0, st.P, {})]
            return [(0, st.P + (k,), {})]
        if n in ("fseek", "fseeko", "ftruncate", "fflush", "dup2"): return [(0, st.P, {}), (-1, st.P, {})]
        return None
def released(r, p):
    """what is left is released, once"""
    fs = [n for n, f in p.defined.items() if any(i.op == "store" and field_of(i.ops[1], f) == SP and (spload(f, i.ops[0]) or (0, 0))[1] == -1 for i in f.all())]
    for n in sorted(fs):
        f = p.defined[n]
        inl = {m for m in p.reach([n]) if m in p.defined and p.defined[m].file == f.file and m not in ("exec_command", "main") and not any(x.op == "call" and x.callee == "exec_command" for x in p.defined[m].all())}
        for k in (1, 2, 3, 5):
            I = Interp(p, FC(inl)); I.MAX = 30000
            for ret, mem, P in I.run(n, (0, None)[:len(f.args)] if len(f.args) < 3 else (None,) * len(f.args), {SP: k}, ()):
                left = mem.get(SP)
                if not isinstance(left, int) or any(x is None for x in P): continue
                r.count("endings of frames")
                twice = sorted({x for x in P if P.count(x) > 1}); live = sorted(x for x in P if x < left or x >= k)
                if twice or live: r.viol("released", f, "with %d frames, frame %d is released %s" % (k, (twice or live)[0], "more than once" if twice else "although it is in use or was never entered"))
                elif isinstance(ret, int) and ret >= 0 and set(P) != set(range(left, k)): r.viol("released", f, "with %d frames, frame %d is left and not released" % (k, min(set(range(left, k)) - set(P))))
def run(r):
    p = r.prog
    for n in ("exec_command", "main"): r.func(n)
    r.explanation = "Path-sensitive interprocedural typestate of the macro frames: for every command, by induction over nested commands, how many frames it enters and leaves on each kind of return; interval analysis of the frame index."
    r.rule("limit", "every use of a frame, in particular the one made to enter it, has an index inside the frame table")
    r.rule("paired", "a command that succeeds or meets the end of its input leaves exactly the frames it entered; no frame is left that was not entered")
    r.rule("unwound", "a command that fails either leaves the frames as they were or leaves all of them; every command of the editor's own loop starts without frames, also after an interrupt")
    r.rule("restored", "the input is saved in a frame before the frame is entered, and taken back from the frame that is left, or from the outermost when all are left")
    for root in ("exec_command", "main"):
        c = C(p, root); c.r = r
        r.kernel(c, [(root, (0, "?" if root == "exec_command" else "0", None, 0, frozenset()))])
        for k, v in c.n.items(): r.count("%s (%s)" % (k, root), len(v))
    r.need("pops (exec_command)", 1); r.need("pushes (exec_command)", 1); r.need("commands (main)", 1); r.need("commands (exec_command)", 1); r.need("interrupts (main)", 1); r.need("restores (exec_command)", 1)
    r.rule("released", "a frame that is left is released, once, and no other is")
    released(r, p); r.need("endings of frames", 4)
    a = frames(p)
    n = set()
    def v(i, val):
        if i.op != "getelementptr": return
        for q in i.path:
            if q[0] == "arr" and field_of(("v", i.id), i.func) == ("ed_core", "stack_frame"):
                n.add(i); x = val(q[1])
                if q[1][0] == "c": x = (q[1][1], q[1][1], 0)
                if x is None or x[0] < 0 or x[1] >= q[2]: r.viol("limit", i, "the frame index may be %s, and the table has %d entries" % ("anything" if x is None else "%d to %d" % x[:2], q[2]))
    a.visit(v)
    r.set("frame uses", len(n)); r.need("frame uses", 3)
    r.set("functions in the interval analysis", len(a.live))
def frames(p):
    dim = [q[2] for f in p.defined.values() for i in f.all() if i.op == "getelementptr" and field_of(("v", i.id), f) == ("ed_core", "stack_frame") for q in i.path if q[0] == "arr"]
    return iv.Analysis(p, HANDLERS & set(p.defined), {SP: (0, (1 << 31) - 1, 0)}, {SP: (0, min(dim, default=0), 0)}).run()
