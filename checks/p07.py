from cmds import *
from kernel import Client, TOP, ZERO
from common import *
from ir import AnalysisError
REG = {"append_to_register", "inter_register_copy", "inter_register_move"}
class C(CmdClient):
    """P = (history restarted, changed, buffer reloaded, written to a register, changed before a restart, restarted after a change)"""
    def __init__(s, prog, r):
        CmdClient.__init__(s, prog); s.r = r; s.n = set(); s.prog = prog
        outer = {n for n in prog.defined if "exec_command" in prog.reach([n])}
        s.ch = {n for n in prog.defined if "append_undo_node" in prog.reach([n]) and n not in outer}
        s.reset = {n for n in prog.defined if "reset_undo_queue" in prog.reach([n]) and n not in outer and n not in s.ch}
    def step(s, I, st, i, n, args):
        h, c, l, w, early, late = st.P
        if n in s.reset:
            s.n.add(i); return ((1, c, l, w, early, i if c else late),)
        if n in s.ch:
            s.n.add(i)
            d = {x: None for x in I.writes.get(n, ())}
            for o in i.ops:
                x = I.loc(st, o) if o[0] == "v" else None
                if x is not None and x[0] == "l": d[x] = None
            P = (h, 1, l, w, early if h else early or i, late)
            fail = st.P if n == "delete_lines" else P
            return [(v, fail if isinstance(v, int) and v < 0 else P, d) for v in rets(s.prog, n)]
        if n == "reopen_ed_buffer": return ((h, c, 1, w, None, None),)
        if n in REG: return ((h, c, l, 1, early, late),)
        return None
class G(CmdClient):
    """P = (restarted, number of commands run)"""
    def __init__(s, prog, r, home): CmdClient.__init__(s, prog); s.home = home; s.r = r
    def inline(s, n): return s.p.defined[n].file == s.home
    def step(s, I, st, i, n, args):
        a, k = st.P
        if n == "exec_command":
            s.r.count("global command steps")
            if not a: s.r.viol("whole", i, "a command of a global command's list can run before its undo history was started")
            return ((a, 1),)
        if n == "reset_undo_queue":
            if a and k: s.r.viol("whole", i, "the undo history is restarted between the commands of a global command")
            return ((1, k),)
        return None
class A(CmdClient):
    """P = (buffer replaced, undo disabled, changed since the saved state was taken)"""
    def __init__(s, prog, ch, r):
        CmdClient.__init__(s, prog); s.ch = ch; s.r = r
        s.inner = {n for n in prog.defined if "init_ed_state" in prog.reach([n]) and n not in ch and n not in ("init_ed_state", "reset_undo_queue", "exec_command")}
    def inline(s, n): return CmdClient.inline(s, n) or n in s.inner
    def step(s, I, st, i, n, args):
        l, off, c = st.P
        if n == "reopen_ed_buffer":
            d = {x: None for x in I.writes.get(n, ())}
            return [(v, (l if isinstance(v, int) and v < 0 else 1, off, c), d) for v in rets(s.p, n)]
        if n == "reset_undo_queue": return ((l, 0, 0),)
        if n == "init_ed_state":
            k = slot(I, st, i.ops[1])
            if k is None: raise AnalysisError("cannot tell which editor state is initialised (%s:%d)" % (i.func.file, i.line))
            if k: return ((l, int(args[0] == -1), c),)
            return ((l, off, 1),)
        if n in s.ch: return ((l, off, 1),)
        return None
def slot(I, st, o):
    """the number of the state that a pointer designates"""
    for _ in range(8):
        if o[0] == "gep": path, b = o[2], o[1]
        elif o[0] == "v" and o[1] in st.f.inst and st.f.inst[o[1]].op == "getelementptr": path, b = st.f.inst[o[1]].path, st.f.inst[o[1]].ops[0]
        else: return None
        k = 0
        for e in path:
            if e[0] in ("idx", "arr"):
                k = I.val(st, e[1])
                if not isinstance(k, int): return None
            elif e[0] == "fld": return None
        return k
    return None
def run(r):
    p = r.prog; ec = r.func("exec_command"); r.func("reset_undo_queue"); r.func("append_undo_node"); r.func("delete_lines"); eg = r.func("exec_global"); r.func("reopen_ed_buffer")
    for n in REG: r.func(n)
    r.explanation = ("Constant propagation over exec_command and every command function for each command letter, on its own and inside a global command; the order of "
                     "history restarts and of steps that record changes is compared on every path. The same over exec_global, and a typestate that the global flag is "
                     "clear whenever the editor loop runs a command.")
    r.rule("fresh", "outside a global command the history is restarted before the first step that can change the buffer")
    r.rule("once", "the history is never restarted after a change by the same command, nor by a command inside a global command, unless a file is loaded instead")
    r.rule("kept", "commands that only display, report, write, mark or copy to registers do not restart the history")
    r.rule("afresh", "when a command has replaced the whole buffer, undo is disabled or its saved state was taken after the last change, on every way out of the command")
    r.rule("whole", "a global command restarts the history exactly once, before the first command of its list")
    r.rule("flag", "the editor loop runs commands with the global flag clear")
    KEEP = set("=PHQWZ[]fhklnpqwxz#@\n")
    for c in LETTERS:
        for g in (0, 1, 3):
            cl = C(p, r); I, outs = command(p, cl, c, {GLOB: g}, (0, 0, 0, 0, None, None))
            r.count("commands evaluated"); r.count("paths", len(outs)); r.count("restarts and changes", len(cl.n))
            for ret, mem, (h, ch, ld, w, early, late) in outs:
                if ld: continue
                if early is not None and not g: r.viol("fresh", early, "the buffer can be changed before a new undo history was started")
                if late is not None: r.viol("once", late, "the undo history is restarted after a change by the same command")
                if h and g: r.viol("once", ec, "command '%s' restarts the undo history inside a global command" % repr(c)[1:-1])
                if h and c in KEEP: r.viol("kept", ec, "command '%s' discards the undo history" % repr(c)[1:-1])
                if h and w and not ch and not (isinstance(ret, int) and ret < 0): r.viol("kept", ec, "command '%s' discards the undo history although it only copies to a register" % c)
    for c in "Ee":
        cl = A(p, C(p, r).ch, r); I, outs = command(p, cl, c, {GLOB: 0}, (0, 0, 0))
        for ret, mem, (l, off, ch) in outs:
            if not l: continue
            r.count("replaced buffers")
            if not off and ch: r.viol("afresh", ec, "after command '%s' loaded a file, undo can return to a state that does not belong to the history" % c)
    deep = p.reach([n for n in C(p, r).ch if p.defined[n].file != ec.file]); own = exclusive(p, {"append_undo_node"})
    for n in sorted(deep - own):
        for i in p.defined[n].calls("reset_undo_queue") if n in p.defined else ():
            r.viol("once", i, "the undo history is restarted by a step that records changes")
    for g in (1, 3):
        cl = G(p, r, eg.file); I = Interp(p, cl)
        I.run("exec_global", (None,), {GLOB: g}, (0, 0)); r.count("paths", 1)
    class F(Client):
        tracked = frozenset({GLOB}); cap = 8
        def direct(s, f): return f.name in ("exec_command", "address_range")
        def call(s, K, st, i, name):
            if i.func.name in inner: return None
            if name == "address_range": return [(1, TOP)]
            if name == "exec_command":
                if st.P:
                    r.count("user commands run by the editor loop")
                    if st.M.get(GLOB, TOP) != ZERO: K.report("flag", i, "a command can run with the global flag still set from an earlier one", st)
                return [(0, TOP)]
            return None
    inner = p.reach(["exec_command"])
    r.kernel(F(), [("main", 0, {GLOB: ZERO})])
    r.need("commands evaluated", 100); r.need("replaced buffers", 4); r.need("restarts and changes", 30); r.need("global command steps", 1); r.need("user commands run by the editor loop", 1)
