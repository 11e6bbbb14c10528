from kernel import *
from common import *
EXECS = {"execl", "execlp", "execle", "execv", "execvp", "execve", "execvpe", "fexecve"}
FAILNEG = {"dup2", "dup", "close", "dup3"}; FAILNULL = {"fopen", "fopen64", "fdopen"}; FAILNZ = {"fclose", "fflush"}
WAITS = {"waitpid": 2, "wait": None, "wait4": 2, "wait3": 1}
EINTR = 4
class C(Client):
    """P = (in a child, children not yet collected, last wait was interrupted or unexamined, SIGINT default, SIGQUIT default, something failed, signals held, programs to collect)"""
    cap = 400
    def __init__(s, p, roots): s.p = p; s.roots = roots; s.seen = {}
    def direct(s, f):
        return any(i.op == "call" and i.callee in EXECS | set(WAITS) | {"fork", "vfork", "popen", "pclose", "exit", "_exit", "_Exit", "siglongjmp", "longjmp", "__longjmp_chk", "spl0", "spl1", "signal", "sigaction"} for i in f.all())
    def note(s, k, i): s.seen.setdefault(k, set()).add(i)
    def up(s, P, **k):
        n = ("child", "kids", "intr", "sint", "squit", "fail", "held", "pipes")
        return tuple(k.get(a, v) for a, v in zip(n, P))
    def call(s, K, st, i, name):
        P = st.P; child, kids, intr, sint, squit, fail, held, pipes = P
        if name == "spl1": return [(s.up(P, held=min(held + 1, 4)), TOP)]
        if name == "spl0":
            if child and held <= 1: K.report("contained", i, "a child process releases the signals it inherited and can jump into the editor", st); return []
            return [(s.up(P, held=max(held - 1, 0)), TOP)]
        if name in ("fork", "vfork"):
            s.note("forks", i)
            if child: return None
            if not held: K.report("contained", i, "%s is called with signals released: the child can jump into the editor" % name, st)
            return [(s.up(P, child=1, sint=0, squit=0, fail=0), ZERO), (s.up(P, kids=kids + 1), POS), (P, atom(-1))]
        if name == "popen": s.note("pipes", i); return [(s.up(P, pipes=pipes + 1), POS), (P, ZERO)]
        if name == "pclose": s.note("pipes", i); return [(s.up(P, pipes=max(0, pipes - 1)), TOP)]
        if name == "signal" and child and i.ops[0][0] == "c":
            dfl = i.ops[1][0] == "null" or i.ops[1][0] == "c" and i.ops[1][1] == 0
            if i.ops[0][1] == 2: return [(s.up(P, sint=int(dfl)), TOP)]
            if i.ops[0][1] == 3: return [(s.up(P, squit=int(dfl)), TOP)]
            return None
        if name == "sigaction" and child and i.ops[0][0] == "c" and i.ops[0][1] in (2, 3):
            return [(s.up(P, **({"sint": 1} if i.ops[0][1] == 2 else {"squit": 1})), TOP)]
        if name in EXECS:
            s.note("execs", i)
            if not child: K.report("contained", i, "%s replaces the editor itself" % name, st)
            elif not (sint and squit): K.report("signals", i, "the user's command is started without default handling of %s" % ("interrupt" if not sint else "quit"), st)
            return [(s.up(P, fail=1), atom(-1))]
        if name in ("_exit", "_Exit"):
            if child:
                s.note("exits", i)
                if fail and K.val(st, i.ops[0]) & ZERO: K.report("status", i, "a child process that could not do its work reports success", st)
            return []
        if name in ("exit", "quick_exit", "abort", "siglongjmp", "longjmp", "__longjmp_chk"):
            if child: K.report("contained", i, "a child process calls %s, which runs on the parent's state" % name, st)
            return []
        if name in WAITS and not child:
            k = WAITS[name]; s.note("waits", i)
            if k is not None and not (i.ops[k][0] == "c" and i.ops[k][1] == 0): return None       # does not wait
            return [(s.up(P, kids=max(0, kids - 1), intr=0), POS), (s.up(P, intr=1), atom(-1))]
        if child:
            if name in FAILNEG: return [(P, NONNEG), (s.up(P, fail=1), atom(-1))]
            if name in FAILNULL: return [(P, POS), (s.up(P, fail=1), ZERO)]
            if name in FAILNZ: return [(P, ZERO), (s.up(P, fail=1), atom(-1))]
        return None
    def errno(s, f, op):
        x = f.inst.get(op[1]) if op[0] == "v" else None
        return x is not None and x.op == "load" and x.ops[0][0] == "v" and f.inst[x.ops[0][1]].callee == "__errno_location"
    def edge(s, K, st, br, taken):
        f = br.func; c, taken = K.cond(st, br, taken)
        if c is None or c.op != "icmp" or not st.P[2] or c.pred not in ("eq", "ne"): return None
        for a, b in ((0, 1), (1, 0)):
            if c.ops[a][0] == "c" and c.ops[a][1] == EINTR and s.errno(f, c.ops[b]):
                return s.up(st.P, intr=1) if (c.pred == "eq") == taken else s.up(st.P, intr=0, kids=0)      # nothing to wait for
    def swedge(s, K, st, i, vals):
        if st.P[2] and s.errno(i.func, i.ops[0]) and (vals is None and any(v == EINTR for v, t in i.cases) or vals and EINTR not in vals): return s.up(st.P, intr=0, kids=0)
    def leave(s, K, P, f, rm):
        if f.name in s.roots:
            i = f.blocks[-1].insts[-1]
            if P[0]: s.bad("contained", f, "a child process returns into the editor")
            elif P[1]: s.bad("collected", f, "%s returns without having waited for every child it started" % f.name if not P[2] else "%s returns after an interrupted wait without waiting again" % f.name)
            elif P[7]: s.bad("collected", f, "%s returns without having collected the command it started with popen" % f.name)
            return P
        if P[0] and rm and not rm & (NONNEG): return s.up(P, fail=1)
        return P
    def bad(s, rule, f, msg): s.r.viol(rule, f, msg)
def run(r):
    p = r.prog
    for n in ("exec_command", "spl0", "spl1"): r.func(n)
    direct = sorted(n for n, f in p.defined.items() if any(i.callee in ("fork", "vfork", "popen") for i in f.calls()))
    # a helper that only starts the process is analysed as part of the function that calls it
    roots = []
    for n in direct:
        while any(i.op == "ret" for i in p.defined[n].all()) and (p.defined[n].ret or "") != "void" and n not in p.addr_taken and len(p.callers.get(n, ())) == 1 and p.defined[next(iter(p.callers[n]))].file == p.defined[n].file \
            and not any(x.callee in set(WAITS) | {"pclose"} for m in p.reach([n]) if m in p.defined for x in p.defined[m].calls()): n = next(iter(p.callers[n]))
        roots.append(n)
    roots = sorted(set(roots))
    r.explanation = ("Path-sensitive interprocedural typestate of the functions that start processes: role of the process, signals held, dispositions reset, failures met, children outstanding.")
    r.rule("contained", "signals are held across fork; a child process never returns into the editor, releases signals, or calls exit or a long jump: it executes a program or calls _exit")
    r.rule("signals", "a child that runs the user's command first resets interrupt and quit to their default")
    r.rule("status", "a child that could not do its work exits with a failure status")
    r.rule("collected", "every path that returns has waited for each child it started (again if the wait was interrupted), and has closed each command started with popen")
    r.assumptions.append("a wait that fails for another reason than an interruption means there is no child left; a jump to the editor's loop on interrupt ends the path")
    c = C(p, roots); c.r = r
    r.kernel(c, [(n, (0,) * 8) for n in roots])
    r.set("functions that start a process", len(roots)); r.need("functions that start a process", 3)
    for k in ("forks", "execs", "exits", "waits", "pipes"): r.set(k, len(c.seen.get(k, ())))
    r.need("forks", 1); r.need("execs", 1); r.need("waits", 1)
