from common import *
import kernel
from kernel import Client, Kernel, TOP, ZERO, NONNEG, LT0, atom, show_mask
ERR = ("ed_execute", "err")
CODES = (-2, -3, -4)
LINE = {"get_stream_line"}                       # no line: end of input unless feof says otherwise
def steps(p):
    """internal steps: functions that record an error message and answer with a status or no pointer"""
    b = kernel.base_retmasks(p)
    own = {n for n, f in p.defined.items() if any(i.op == "store" and field_of(i.ops[1], f) == ERR and not (i.ops[0][0] == "null") for i in f.all())}
    sig = {n for n in ("spl0",) if n in p.defined}                 # delivers pending signals: not part of the step
    def deep(n):
        seen = set(); todo = [n]
        while todo:
            x = todo.pop()
            if x in seen or x in sig or x not in p.defined: continue
            seen.add(x); todo += p.callees.get(x, ())
        return bool(seen & own)
    ints = {n for n, f in p.defined.items() if f.ret == "i32" and b.get(n, TOP) & atom(-2) and deep(n)}
    ptrs = {n for n, f in p.defined.items() if f.ret == "ptr" and b.get(n, TOP) & ZERO and deep(n)}
    return b, ints, ptrs
class F(Client):
    """P = None | ('eof',) | (call, step, status): the failure that has happened"""
    cap = 600; fork = True
    def __init__(s, r, fn, b, ints, ptrs): s.r = r; s.p = r.prog; s.fn = fn; s.b = b; s.ints = ints; s.ptrs = ptrs; s.out = {}; s.sites = set(); s.late = {}; s.chg = frozenset()
    def direct(s, f): return f.name == s.fn
    def passed(s, K, st, i, f):
        """the missing pointer is handed to a step that fails on it"""
        for k, o in enumerate(i.ops[:len(f.args)]):
            if o[0] == "v" and o[1] == st.P[0].id and K.val(st, o) == ZERO: return nullfails(s, f, k)
        return False
    def call(s, K, st, i, name):
        f = s.p.defined.get(name)
        P = st.P
        if name == "feof" and P is not None: return [(P, TOP & ~ZERO if P[0] == "eof" else ZERO if P[2] == "line" else TOP)]
        if f is None: return None
        m = s.b.get(name, TOP)
        if m == 0: return []
        if name == "unwind_stack_frame": return [(P, K.val(st, i.ops[0]))]
        if f.ret == "void": return [(P, TOP)]
        if P is not None and P[0] != "eof":
            if s.passed(K, st, i, f): return [(P, LT0 & m)]
            if name in s.chg: s.late[i, P[1]] = 1
            return [(P, m)]
        if name in s.ints:
            s.sites.add((i.func.name, i.id)); out = []
            for c in CODES:
                if m & atom(c): out.append(((i, name, c), atom(c)))
            rest = m
            for c in CODES: rest &= ~atom(c)
            return out + ([(P, rest)] if rest else [])
        if name in s.ptrs:
            s.sites.add((i.func.name, i.id))
            if "get_stream_line" in s.p.reach([name]) | {name}: return [((i, name, "line"), ZERO), (("eof",), ZERO), (P, m & ~ZERO)]
            return [((i, name, "null"), ZERO), (P, m & ~ZERO)]
        return [(P, m)]
    def leave(s, K, P, f, rm):
        if P is not None and P[0] != "eof" and f.name == s.fn:
            if f.ret == "ptr": bad = rm & ~ZERO
            elif f.ret == "void": bad = 1
            elif isinstance(P[2], int): bad = rm & ~(atom(P[2]) | atom(-4))
            else: bad = rm & NONNEG
            if bad: s.out.setdefault(P, set()).add((f.ret, rm))
        return P
_nf = {}
def nullfails(c, f, k):
    key = (f.name, k)
    if key not in _nf:
        x = F(c.r, f.name, c.b, (), ()); ok = []
        x.leave = lambda K, P, g, rm: ok.append(rm) if g.name == f.name else P
        K = Kernel(c.p, x, c.b); K.relevant = {f.name}
        K.root(f.name, None, None, tuple(ZERO if j == k else TOP for j in range(len(f.args)))); K.run()
        _nf[key] = bool(ok) and not any(m & NONNEG for m in ok)
    return _nf[key]
def analyse(r, n, b, ints, ptrs, chg):
    c = F(r, n, b, ints, ptrs); c.chg = chg
    K = Kernel(r.prog, c, b); c.K = K; K.relevant = {n}
    K.root(n, None); K.run()
    r.count("paths_explored_states", K.nedges)
    return c
def run(r):
    p = r.prog; _nf.clear()
    for n in ("exec_command", "address_range", "delete_lines", "put_buffer_line", "read_stream", "write_stream", "realloc_buffer", "unwind_stack_frame", "pop_stack_frame"): r.func(n)
    r.explanation = ("Typestate analysis of every function on its own: each call of an internal step (a function that records an error message and answers with a status or no "
                     "pointer) is split into its possible failures, and every path from a failure to the function's end must end in failure with that status.")
    r.rule("propagate", "after a step failed, the function that called it fails, with the same status or the fatal one")
    r.rule("stop", "after a step failed, the function that called it calls no step that changes the buffer or the undo history")
    r.rule("void", "a function without a status does not call a step that can fail")
    r.rule("unwind", "leaving nested macros on an error keeps the error's status")
    b, ints, ptrs = steps(p)
    chg = frozenset(n for n in p.defined if {"append_undo_node", "reset_undo_queue", "exec_command"} & (p.reach([n]) | {n}))
    r.set("steps that change the buffer", len(chg))
    for n in sorted(p.defined):
        if n == "main": continue
        c = analyse(r, n, b, ints, ptrs, chg)
        r.count("calls of steps that can fail", len(c.sites))
        if c.sites: r.count("functions that call such steps")
        for i, name in sorted(c.late, key=lambda x: x[0].line): r.viol("stop", i, "%s can still be called after %s failed" % (i.callee, name))
        for (i, name, code), ms in sorted(c.out.items(), key=lambda x: (x[0][0].line, str(x[0][2]))):
            t = {x for x, _ in ms}; m = 0
            for _, x in ms: m |= x
            if "void" in t: r.viol("void", i, "the failure of %s is not reported by %s" % (name, n))
            else: r.viol("propagate", i, "%s can return %s after %s failed%s" % (n, "a result" if "ptr" in t else "status " + show_mask(m), name, " with status %d" % code if isinstance(code, int) else ""))
    for code in CODES:
        ok = []; x = F(r, "unwind_stack_frame", b, (), ()); x.leave = lambda K, P, g, rm: ok.append(rm) if g.name == "unwind_stack_frame" else P
        K = Kernel(p, x, b); K.relevant = {"unwind_stack_frame"}; K.root("unwind_stack_frame", None, None, (atom(code), TOP)); K.run()
        if not ok or any(m & ~(atom(code) | atom(-2)) for m in ok): r.viol("unwind", r.func("unwind_stack_frame"), "an error status does not survive unwinding")
        r.count("unwinding evaluations")
    r.set("steps that can fail", len(ints | ptrs))
    r.need("steps that can fail", 60); r.need("calls of steps that can fail", 150); r.need("functions that call such steps", 60)
