"""No command is rejected for its text after it has changed something: constant propagation of every command, with every step after the first change succeeding."""
from cmds import *
from common import *
ERRF = ("ed_execute", "err")
class C(CmdClient):
    """P = (the first step that changed something, a step of the text's analysis after it)"""
    def __init__(s, prog, r):
        CmdClient.__init__(s, prog); s.r = r; s.n = set()
        outer = {n for n in prog.defined if "exec_command" in prog.reach([n])}
        s.ch = {n for n in prog.defined if {"append_undo_node", "reset_undo_queue", "reopen_ed_buffer", "undo_last_command"} & (prog.reach([n]) | {n}) and n not in outer}
        s.parse = {n for n, f in prog.defined.items() if n not in outer | s.ch and f.file != s.home and s.reads(n)}
    def reads(s, n):
        for m in {n} | s.p.reach([n]):
            f = s.p.defined.get(m)
            if f and any(i.op == "store" and field_of(i.ops[1], f) == INP for i in f.all()): break
        else: return False
        return any(i.op == "store" and field_of(i.ops[1], s.p.defined[m]) == ERRF for m in {n} | s.p.reach([n]) if m in s.p.defined for i in s.p.defined[m].all())
    def step(s, I, st, i, n, args):
        c, late = st.P
        if n == "exec_command": return []                   # a command of its own
        d = {x: None for x in I.writes.get(n, ())} if n in s.p.defined else {}
        for o in i.ops:
            x = I.loc(st, o) if o[0] == "v" else None
            if x is not None and x[0] == "l": d[x] = None
        good = [v for v in rets(s.p, n) if not (isinstance(v, int) and v < 0) and not (v == 0 and s.ptr(n))] or [None]
        if n in s.ch:
            s.n.add((i.func.name, i.id))
            return [(v, (c or i, late), d) for v in good]
        if c is not None:
            if n in s.parse: return [(v, (c, late or i), d) for v in good]
            f = s.p.defined.get(n)
            if f is not None: return [(v, st.P, d) for v in good]
            if n in ("fclose", "fflush", "fseeko", "ftello", "isatty", "fileno"): return [(0, st.P, d)]
        return None
    def ptr(s, n): return n in s.p.defined and s.p.defined[n].ret == "ptr"
TAILS = ("\n", "x", "x\n", "p\n", "px", "p ", " ", " f", "1", ",", "/", "!")
def run(r):
    p = r.prog; r.func("exec_command"); r.func("append_undo_node"); r.func("reset_undo_queue"); r.func("reopen_ed_buffer"); r.func("delete_lines"); r.func("undo_last_command")
    r.explanation = ("Constant propagation over exec_command and every command function for each command letter with well and badly formed endings: once a step has changed the "
                     "buffer or restarted the undo history, every further step is taken to succeed, so a path that still fails rejects the command after the change.")
    r.rule("late", "a command that has changed the buffer, or given up the undo history, is not rejected any more")
    r.rule("parse", "the text of a command is analysed before it changes anything")
    sites = set()
    for pre in ("", "~"):
        for c in LETTERS:
            if pre and c not in "eErwW": continue
            for t in TAILS:
                for g in (0, 1) if t in ("\n", "x") else (0,):
                    cl = C(p, r); I, outs = command(p, cl, pre + c + t, {GLOB: g}, (None, None))
                    r.count("commands evaluated"); r.count("paths", len(outs)); sites |= cl.n
                    for ret, mem, (ch, late) in outs:
                        if ch is None: continue
                        r.count("paths with a change")
                        if late is not None: r.viol("parse", late, "%s is called after %s has changed something" % (late.callee, ch.callee))
                        if isinstance(ret, int) and ret < 0 and ret not in (-1, -5, -6, -7): r.viol("late", ch, "command '%s' can be rejected with status %d after %s succeeded" % (repr(pre + c)[1:-1], ret, ch.callee))
    r.set("steps that change something", len(sites))
    r.need("steps that change something", 12); r.need("paths with a change", 100); r.need("commands evaluated", 400)
