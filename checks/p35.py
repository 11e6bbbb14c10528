"""What a failing command does to the rest of a script and to the exit status: typestate of the editor loop, constant propagation of the commands."""
from cmds import *
from kernel import Client, TOP, ZERO, NONZ, NONNEG, atom
from common import *
STATUS, OPTF = ("ed_execute", "status"), ("ed_execute", "opt")
EXITERR = option("EXIT_ON_ERROR", 0x2); KEEP = {"EXIT_ON_ERROR": EXITERR, "SCRIPTED": option("SCRIPTED", 0x1000), "POSIXLY_CORRECT": option("POSIXLY_CORRECT", 0x8), "TRADITIONAL": option("TRADITIONAL", 0x2000)}
EOFS, FATAL, FAILS = (-1, -5, -6, -7), -4, (-2, -3)
def m(vs):
    r = 0
    for v in vs: r |= atom(v)
    return r
INPUT = ("get_stream_line", "address_range", "exec_command", "next_edit")
RELEVANT = {"exec_command", "get_stream_line", "address_range", "quit", "script_die", "puts", "putchar", "putc", "fputs", "printf"}
class L(Client):
    """P = (what happened: init, none, end, fail, fatal; shown; remembered)"""
    tracked = frozenset({OPTF}); flags = frozenset({OPTF}); cap = 1500; fork = True; bits = EXITERR
    def __init__(s, p, r): s.p = p; s.r = r; s.mf = p.defined["main"].file; s.quits = 0; s.dies = 0
    def home(s, f): return f.file == s.mf and f.name not in ("quit", "script_die")
    def direct(s, f): return f.name == "main" or s.home(f) and any(i.op == "call" and i.callee in RELEVANT or i.op == "store" and field_of(i.ops[1], f) == STATUS for i in f.all())
    def off(s, st):
        o = st.M.get(OPTF)
        return isinstance(o, tuple) and bool(o[0] & EXITERR) if not (isinstance(o, tuple) and o and o[0] == "fl") else bool(o[1] & EXITERR)
    def pending(s, K, st, i):
        k, shown, rem = st.P
        if k not in ("fail", "fatal"): return
        s.r.count("commands that follow a failure")
        if not shown: K.report("shown", i, "the next command follows a failing one without a `?'", st)
        if not rem: K.report("remember", i, "the next command follows a failing one whose status is not remembered", st)
        if k == "fatal": K.report("die", i, "another command follows a fatal error", st)
        elif not s.off(st): K.report("die", i, "another command follows a failing one although the script was to stop", st)
    def inst(s, K, st, i):
        if i.op == "store" and field_of(i.ops[1], i.func) == STATUS and s.home(i.func):
            k, shown, rem = st.P; v = K.val(st, i.ops[0])
            if k in ("fail", "fatal"):
                s.r.count("statuses remembered")
                return [(k, shown, not v & ZERO)]
            if k != "init" and v & ZERO: K.report("forget", i, "the remembered status is overwritten although no command failed", st)
        if i.op == "store" and field_of(i.ops[1], i.func) == ("ed_execute", "err") and s.home(i.func) and st.P[0] in ("none", "end"):
            return [("fail", False, False)]
        return None
    def call(s, K, st, i, name):
        if name is None or not s.home(i.func): return None
        P = st.P; N = ("none", False, False); F = ("fail", False, False)
        if name in INPUT: s.pending(K, st, i)
        if name == "get_stream_line": return [(N, NONZ), (("end", False, False), ZERO)]
        if name == "feof" and P[0] == "end": return [(P, NONZ), (F, ZERO)]
        if name in ("address_range", "exec_command", "next_edit", "save_edit", "display_lines"):
            s.r.count("command steps in the editor loop")
            ok = [(N if P[0] != "init" or name == "exec_command" else P, NONNEG)]
            if name == "display_lines": ok = [(P, NONNEG)]
            if name == "save_edit": return [(P, NONNEG), (P, m(EOFS)), (F, m(FAILS))]
            return ok + [(F, m(FAILS))] + ([(("fatal", False, False), m((FATAL,))), (("end", False, False), m(EOFS))] if name == "exec_command" else [])
        if name in ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp"): return [(P, ZERO), (F, NONZ)]
        if name == "unwind_stack_frame": return [(P, m(FAILS))]
        if name in ("puts", "printf", "fputs", "fputs_unlocked", "putchar", "putc", "fputc", "_IO_putc") and P[0] in ("fail", "fatal"):
            o = i.ops[0]
            if o[0] == "s" and o[2][:1] == "?" or o[0] == "c" and o[1] == 63: return [((P[0], True, P[2]), TOP)]
        if name == "script_die":
            s.dies += 1
            if K.val(st, i.ops[0]) & ZERO: K.report("exit", i, "a script that fails can exit with status 0", st)
        if name == "quit":
            s.quits += 1; o = i.ops[0]; v = K.val(st, o)
            ld = o[0] == "v" and i.func.inst[o[1]].op == "load" and field_of(i.func.inst[o[1]].ops[0], i.func) == STATUS
            if P[0] in ("fail", "fatal"):
                if not P[1]: K.report("shown", i, "the editor exits after a failing command without a `?'", st)
                if v & ZERO and not (ld and P[2]): K.report("exit", i, "the editor can exit with status 0 after a failing command", st)
            elif P[0] != "init" and not ld and v & ZERO: K.report("exit", i, "the editor exits without regard to the failures before", st)
        return None
class R(CmdClient):
    """P = the store that forgot the status"""
    def __init__(s, p, bits): CmdClient.__init__(s, p); s.n = 0; s.bits = bits
    def step(s, I, st, i, n, args):
        if n in ("address_range",): return [(v, st.P, {}) for v in (-2, 0, 2)]
        return None
    def store(s, I, st, i, loc, v):
        if loc == STATUS or field_of(i.ops[1], i.func) == STATUS: s.n += 1; st.P = i
def run(r):
    p = r.prog
    for n in ("main", "exec_command", "address_range", "get_stream_line", "script_die", "quit"): r.func(n)
    r.explanation = ("A typestate analysis of the editor loop from main: what a failing command, a failing read of input or an interrupt leads to before the next command or the exit; "
                     "and constant propagation through every command under each of the options that keep the status, looking for stores that forget it.")
    r.rule("shown", "a failing command is answered with a `?' before the next one is read, or the editor exits")
    r.rule("die", "with the option to exit on errors no command follows a failing one, and none ever follows a fatal error")
    r.rule("remember", "the status of a failing command, which is not zero, is remembered before the next command is read")
    r.rule("forget", "the editor loop never overwrites the remembered status with success")
    r.rule("exit", "the editor exits with the remembered status, or with one that is not zero")
    r.rule("reset", "a command that succeeds forgets the status only without the options for scripts, strict conformance, traditional mode and exiting on errors; one that fails never does")
    c = L(p, r)
    r.kernel(c, [("main", ("init", False, False))])
    r.count("exits of the editor loop", c.quits); r.count("fatal exits", c.dies)
    for fn, to in (("script_die", "quit"), ("quit", "_exit")):
        f = p.defined[fn]; n = 0
        for i in f.all():
            if i.op == "call" and i.callee in (to, "exit", "_Exit", "_exit"):
                n += 1; r.count("exit statuses passed on")
                if i.ops[0] != ("a", 0): r.viol("exit", i, "%s does not exit with the status it is given" % fn)
        if not n: raise AnalysisError("%s does not exit" % fn)
    texts = [x for x in LETTERS if x not in "wWeErf"] + [a + x for a in "wWeErf" for x in "\n q"]
    for t in texts:
        for k, bit in list(KEEP.items()) + [("", 0)]:
            cl = R(p, bit); I, outs = command(p, cl, t, {GLOB: 0, ("ed_file", "is_glob"): 0}, None, opt=bit)
            r.count("commands evaluated"); r.count("paths", len(outs)); r.count("stores of the status", cl.n)
            for ret, mem, st in outs:
                if st is None: continue
                if bit: r.viol("reset", st, "command '%s' forgets that a command failed although %s is set" % (repr(t)[1:-1], k))
                elif isinstance(ret, int) and ret in FAILS + (FATAL,): r.viol("reset", st, "command '%s' fails and forgets that a command failed" % repr(t)[1:-1])
    r.need("exits of the editor loop", 1); r.need("fatal exits", 3); r.need("statuses remembered", 1); r.need("stores of the status", 2); r.need("command steps in the editor loop", 3); r.need("commands that follow a failure", 1)
