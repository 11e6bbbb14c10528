import itertools
from cp import *
from ir import field_of, AnalysisError
from common import *
HUP, INT, WINCH = 1, 2, 28
NAME = {HUP: "hang-up", INT: "interrupt", WINCH: "window-size"}
FLAGS = ("g", "_sigflags"); MUTEX = ("g", "_mutex"); ACT = ("g", "_sigactive")
class C(CPClient):
    """P = tuple of (event, mutex value, flags value) seen on the path"""
    def __init__(s, prog, file): s.ends = []; s.prog = prog; s.file = file; s.regs = []
    arrive = None
    def inline(s, n): return s.prog.defined[n].file == s.file
    def inst(s, I, st, i):
        if s.arrive and i.op == "store" and i.ops[1] == MUTEX and I.val(st, i.ops[0]) == 0 and st.mem.get(MUTEX) == 1:
            st.mem[FLAGS] = bit(s.arrive)      # the signal arrives just before the hold is dropped
            for k in [k for k, x in st.org.items() if x == FLAGS]: del st.org[k]
    def snap(s, st): return (st.mem.get(MUTEX), st.mem.get(FLAGS))
    def ev(s, st, what): return (st.P or ()) + ((what,) + s.snap(st),)
    def call(s, I, st, i, n, args):
        if n == "quit":
            s.ends.append((s.ev(st, "quit" if isinstance(args[0], int) and args[0] or args[0] == NZ else "quit0"), i)); return []
        if n == "write_file": return [(None, s.ev(st, "save"), {})]
        if n == "ioctl":
            return [(0, s.ev(st, "winch"), {}), (-1, s.ev(st, "winch"), {})]
        if n == "sigaction":
            h = None
            for l, v in st.mem.items():
                if isinstance(l, tuple) and len(l) == 2 and isinstance(l[0], str) and "sigaction" in l[0] and (isinstance(v, tuple) and v[0] == "f"): h = v
            s.regs.append((args[0], h, i))
            return [(0, (st.P or ()) + (("reg", args[0], h),), {}), (-1, (st.P or ()) + (("failed",),), {})]
        if n in ("signal",):
            return [(None, (st.P or ()) + (("reg", args[0], args[1]),), {})]
        return None
    def end(s, I, st, i, n):
        s.ends.append((s.ev(st, "jump" if "longjmp" in n else n), i))
def run(r):
    p = r.prog; sh = r.func("signal_handler"); spl0 = r.func("spl0"); ini = r.func("init_signal_handler")
    for g in ("_sigflags", "_mutex", "_sigactive", "sighandler"):
        if g not in p.globals: raise AnalysisError("anchor %s is missing" % g)
    r.explanation = ("Conditional constant propagation over the signal layer: the handler and the release are evaluated abstractly for every signal, every "
                     "combination of remembered signals and held / outermost / not held, with all other state unknown; all paths are enumerated. Plus "
                     "effect rules on who writes the remembered-signal set and who changes signal dispositions.")
    r.rule("registered", "start-up registers the same deferring handler for SIGHUP, SIGINT and (on a terminal) SIGWINCH, and installs an action for each")
    r.rule("deferred", "while held, the handler performs no action and records exactly its own signal, leaving the others")
    r.rule("immediate", "while not held, the handler performs the action of that signal, and only that one")
    r.rule("release", "the outermost release performs the action of every remembered signal exactly once, forgetting it first, or leaves it remembered when it jumps; an inner release performs none")
    r.rule("writers", "the remembered-signal set is written only by the handler and the release (and what only they call)")
    r.rule("dispositions", "signal dispositions are changed only at start-up or in a child process before it runs another program")
    r.rule("mask", "the interrupt destination restores the signal mask, so that a second interrupt is delivered")
    # registration
    c = C(p, ini.file); I = Interp(p, c)
    table = None; regset = {HUP: set(), INT: set(), WINCH: set()}; okpaths = 0
    for ret, mem, P in I.run("init_signal_handler"):
        r.count("start-up paths")
        evs = P or ()
        failed = any(e[0] == "failed" for e in evs)
        if failed and ret == 0: r.viol("registered", ini, "registering a handler can fail without start-up failing")
        if failed: continue
        if ret != 0: continue
        okpaths += 1
        for s in regset:
            h = [e[2] for e in evs if e[0] == "reg" and e[1] == s]
            if h: regset[s].add(h[-1])
            elif s != WINCH: r.viol("registered", ini, "no handler is registered for %s" % NAME[s])
            else: r.count("paths without terminal")
        table = mem
    if not okpaths: raise AnalysisError("start-up never succeeds")
    hs = {x[1] if isinstance(x, tuple) else None for v in regset.values() for x in v}
    for s in regset:
        if not regset[s]: r.viol("registered", ini, "no handler is registered for %s" % NAME[s])
    for s, v in regset.items():
        for x in v:
            if x != ("f", "signal_handler"): r.viol("registered", ini, "%s is not handled by the deferring handler" % NAME[s])
    tab = {l: v for l, v in (table or {}).items() if l[0] == "e" and l[1] == "sighandler"}
    def go(fn, args, mem, arrive=None):
        c = C(p, sh.file); c.arrive = arrive; I = Interp(p, c)
        m = dict(tab); m[ACT] = 1; m.update(mem)
        outs = [("ret", mm, P) for _, mm, P in I.run(fn, args, m)]
        r.count("abstract evaluations"); r.count("paths", len(outs) + len(c.ends))
        return outs, c.ends
    ACTION = {HUP: "quit", INT: "jump", WINCH: "winch"}
    def acts(P): return [e for e in (P or ()) if e[0] not in ("save",)]
    for s in NAME:
        # held
        for held in (1, 2, 7):
            outs, ends = go("signal_handler", (s,), {MUTEX: held})
            for P, i in ends: r.viol("deferred", i, "%s is acted on although signals are held off" % NAME[s])
            for _, mm, P in outs:
                if acts(P): r.viol("deferred", sh, "%s is acted on although signals are held off" % NAME[s])
                if mm.get(FLAGS) != KB(0, bit(s)): r.viol("deferred", sh, "%s arriving while signals are held is not remembered exactly" % NAME[s])
                if mm.get(MUTEX) != held: r.viol("deferred", sh, "the handler changes the hold counter")
            if not outs and not ends: raise AnalysisError("handler has no path")
        # not held
        outs, ends = go("signal_handler", (s,), {MUTEX: 0})
        res = [(acts(P), i) for P, i in ends] + [(acts(P), sh) for _, mm, P in outs]
        for a, i in res:
            if [e[0] for e in a] != [ACTION[s]]: r.viol("immediate", i, "%s is not acted on at once when signals are not held" % NAME[s])
        for P, i in ends:
            if acts(P) and acts(P)[-1][0] == "jump" and acts(P)[-1][1] != 0: r.viol("immediate", i, "the interrupt is left with signals held off")
        for _, mm, P in outs:
            v = mm.get(FLAGS)
            if v is not None and not (isinstance(v, KB) and v[1] == 0 and not v[0] & 0xffffffff & ~bit(s)):
                r.viol("immediate", sh, "acting on %s changes which other signals are remembered" % NAME[s])
            if mm.get(MUTEX) != 0: r.viol("immediate", sh, "acting on %s leaves signals held off" % NAME[s])
    # release
    for k in range(0, 4):
        for sub in itertools.combinations(NAME, k):
            fl = sum(bit(s) for s in sub)
            for depth in (2, 3):
                outs, ends = go("spl0", (), {MUTEX: depth, FLAGS: fl})
                for P, i in ends: r.viol("release", i, "a remembered signal is acted on while signals are still held")
                for _, mm, P in outs:
                    if acts(P): r.viol("release", spl0, "a remembered signal is acted on while signals are still held")
                    if mm.get(FLAGS) != fl: r.viol("release", spl0, "an inner release forgets remembered signals")
            outs, ends = go("spl0", (), {MUTEX: 1, FLAGS: fl})
            for P, i, mm in [(P, i, None) for P, i in ends] + [(P, spl0, mm) for _, mm, P in outs]:
                a = acts(P)
                for e in a:
                    own = [s for s in NAME if ACTION[s] == e[0]]
                    if not own or own[0] not in sub: r.viol("release", i, "an action is performed for a signal that is not remembered"); continue
                    if e[0] != "quit" and (not isinstance(e[2], int) or e[2] & bit(own[0])):
                        r.viol("release", i, "%s is acted on before it is forgotten, so it is acted on again" % NAME[own[0]])
                    if e[0] == "jump" and e[1] != 0: r.viol("release", i, "the release jumps back with signals still held off")
                names = [e[0] for e in a]
                for s in sub:
                    n = names.count(ACTION[s])
                    if n > 1: r.viol("release", i, "%s is acted on twice" % NAME[s])
                    if n == 0:
                        if "quit" in names: continue
                        pend = a[-1][2] if names and names[-1] == "jump" else None
                        if not (isinstance(pend, int) and pend & bit(s)): r.viol("release", i, "remembered %s is lost when signals are released" % NAME[s])
                if mm is not None and mm.get(FLAGS) != 0: r.viol("release", i, "signals stay remembered after the release acted on them")
    # the signal arrives in the release itself, while it is still held
    for s in NAME:
        outs, ends = go("spl0", (), {MUTEX: 1, FLAGS: 0}, s)
        for P, i in [(P, i) for P, i in ends] + [(P, spl0) for _, mm, P in outs]:
            if [e[0] for e in acts(P)] != [ACTION[s]]: r.viol("release", i, "%s arriving during the release is not acted on" % NAME[s])
    # writers
    handlers = {v[1] for v in tab.values()}
    ok = exclusive(p, {"signal_handler", "spl0"} | handlers)
    for n, f in p.defined.items():
        for i in f.all():
            if i.op == "store" and i.ops[1] == ("g", "_sigflags"):
                r.count("stores of the remembered-signal set")
                # handlers are entered through the table
                if n not in ok and n not in handlers: r.viol("writers", i, "the set of remembered signals is changed outside the signal layer")
            if i.op == "store" and i.ops[1] == ACT:
                r.count("stores of the signals-active flag")
                if not (i.ops[0][0] == "c" and i.ops[0][1] != 0): r.viol("writers", i, "signal handling is declared inactive again")
            if i.op == "store" and p.base_global(i.ops[1], f) == "sighandler" and n not in p.reach(["init_signal_handler"]):
                r.viol("writers", i, "the action of a signal is replaced after start-up")
    # dispositions: forward reach from main not crossing a fork's child edge
    child = child_blocks(p)
    for n, f in p.defined.items():
        for i in f.calls():
            if i.callee in ("signal", "sigaction", "sigprocmask", "pthread_sigmask", "sigblock", "bsd_signal", "sigset", "sighold", "sigignore"):
                r.count("calls that change dispositions")
                if n in p.reach(["init_signal_handler"]): continue
                if i.block.id in child.get(n, ()): r.count("in child processes"); continue
                a = i.ops[0]
                if i.callee in ("signal", "sigaction") and a[0] == "c" and a[1] not in NAME: continue
                r.viol("dispositions", i, "the editor's own signal handling is changed outside start-up")
            if i.callee in ("__sigsetjmp", "sigsetjmp", "_setjmp", "setjmp"):
                r.count("interrupt destinations")
                if i.callee in ("_setjmp",) or (i.callee.endswith("sigsetjmp") and not (i.ops[1][0] == "c" and i.ops[1][1] != 0)):
                    r.viol("mask", i, "the interrupt destination does not restore the signal mask")
    r.need("abstract evaluations", 30); r.need("interrupt destinations", 1); r.need("stores of the remembered-signal set", 1)
