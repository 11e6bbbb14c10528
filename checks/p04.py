from cp import *
from ir import field_of, AnalysisError
from common import *
LINES = 4711; HOME = ("p", ("home",), 0)
MUTEX = ("g", "_mutex"); ACT = ("g", "_sigactive"); LN = ("ed_state", "lines")
COPY = {"memcpy": 1, "memmove": 1, "mempcpy": 1, "strcpy": 1, "stpcpy": 1, "strcat": 1, "strncat": 1, "strncpy": 1, "llvm.memcpy.p0.p0.i64": 1}
class C(CPClient):
    def __init__(s, prog, file, home): s.ends = []; s.prog = prog; s.file = file; s.home = home; s.saves = 0
    def inline(s, n): return s.prog.defined[n].file == s.file
    def res(s, st, op, v):
        if v is None:
            for _ in range(4):
                if op[0] == "gep": op = op[1]
                elif op[0] == "v":
                    d = st.f.inst[op[1]]
                    if d.op == "alloca": return ("p", ("loc", st.f.name, d.id), 0)
                    if d.op != "getelementptr": break
                    op = d.ops[0]
                    if op[0] == "v":
                        b = st.env.get(op[1])
                        if isinstance(b, tuple) and b and b[0] == "p": return b
        return v
    def ev(s, st, *e): return (st.P or ()) + (e,)
    def call(s, I, st, i, n, args):
        if n == "quit":
            bad = not (args[0] == NZ or isinstance(args[0], int) and args[0])
            s.ends.append((s.ev(st, "quit", not bad), i)); return []
        if n == "write_file":
            s.saves += 1
            e = ("save", args[0], args[2], args[3], args[6], st.mem.get(MUTEX), i)
            return [(0, s.ev(st, *e, True), {}), (-1, s.ev(st, *e, False), {})]
        if n == "getenv":
            if args[0] == ("p", ("str", "HOME"), 0): return [(HOME if s.home else 0, s.ev(st, "home"), {})]
            return None
        if n == "strlen" and args[0] == HOME: return [(9, st.P, {})]
        if n in ("malloc", "calloc"): return [(("p", ("buf", i.id), 0), st.P, {}), (0, s.ev(st, "nomem"), {})]
        if n in COPY:
            return [(None, s.ev(st, "copy", s.res(st, i.ops[0], args[0]), s.res(st, i.ops[COPY[n]], args[COPY[n]])), {})]
        if n in ("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk", "asprintf"):
            out = (st.P or ())
            for o, a in list(zip(i.ops, args))[1:]: out += (("copy", s.res(st, i.ops[0], args[0]), s.res(st, o, a)),)
            return [(None, out, {})]
        return None
    def end(s, I, st, i, n): s.ends.append((s.ev(st, "jump" if "longjmp" in n else n, True), i))
def text(v): return v[1][1] if isinstance(v, tuple) and v and v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "str" else None
def run(r):
    p = r.prog; sh = r.func("signal_handler"); r.func("write_file"); q = r.func("quit")
    r.explanation = ("Conditional constant propagation from the hang-up handler for an empty and a non-empty buffer, every outcome of each save, HOME set "
                     "or not and memory exhausted; every path's sequence of saves and its end are compared with the required one.")
    r.rule("save", "with lines in the buffer, the first action is to write lines 1 to the last, replacing ed.hup, with signals held off")
    r.rule("home", "after that write failed and HOME is set, the same lines are written to a name built from HOME and ed.hup")
    r.rule("exit", "every path ends in quit() with a non-zero status: no return, no jump back into the editor")
    r.rule("early", "before signal handling is active, hang-up only quits, with a non-zero status")
    r.rule("quit", "quit() ends the process with the status it was given, on every path")
    def handler():
        class T(C):
            def call(s, I, st, i, n, a): return [(0, None, {})] if n == "sigaction" else None
        t = {}
        for ret, mem, P in Interp(p, T(p, sh.file, 1)).run("init_signal_handler"):
            if ret == 0: t.update({l: v for l, v in mem.items() if l[0] == "e" and l[1] == "sighandler"})
        return t
    tab = handler()
    if not tab: raise AnalysisError("no table of signal actions")
    def go(mem, home, entry=("signal_handler", (1,))):
        c = C(p, sh.file, home); I = Interp(p, c); m = dict(tab); m.update(mem)
        outs = I.run(entry[0], entry[1], m)
        r.count("paths", len(outs) + len(c.ends))
        return outs, c.ends
    ENT = [(("signal_handler", (1,)), {MUTEX: 0}), (("spl0", ()), {MUTEX: 1, ("g", "_sigflags"): 1})]
    for ent, em in ENT:
        outs, ends = go({**em, ACT: 0}, 1, ent)
        for o in outs: r.viol("early", sh, "a hang-up before signals are active can return")
        for P, i in ends:
            if [e[0] for e in P if e[0] in ("save", "quit", "jump")] != ["quit"] or not P[-1][1]: r.viol("early", i, "a hang-up before signals are active does not just exit with a failure status")
        for lines in (0, 1, LINES):
            for home in (0, 1, 2):
                outs, ends = go({**em, ACT: 1, LN: lines, HOME: {0: None, 1: 47, 2: 0}[home]}, home, ent)
                r.count("handler evaluations")
                for o in outs: r.viol("exit", sh, "the hang-up handler can return to editing")
                for P, i in ends:
                    if P[-1][0] != "quit": r.viol("exit", i, "the hang-up handler ends in %s instead of quitting" % P[-1][0]); continue
                    if not P[-1][1]: r.viol("exit", i, "the editor exits with status 0 after a hang-up")
                    sv = [e for e in P if e[0] == "save"]
                    if lines and not sv: r.viol("save", i, "a path of the hang-up handler does not save the buffer"); continue
                    for k, e in enumerate(sv):
                        _, name, fr, to, mode, mu, at, ok = e
                        if (fr, to) != (1, lines) and lines: r.viol("save", at, "hang-up does not write lines 1 to the last")
                        if text(mode) != "w": r.viol("save", at, "hang-up does not replace the contents of the save file")
                        if not (isinstance(mu, int) and mu > 0 or mu == NZ):
                            r.viol("save" if k == 0 else "home", at, "the buffer is saved while an interrupt can abandon the save")
                        if k == 0:
                            if text(name) != "ed.hup": r.viol("save", at, "the first save on hang-up is not to ed.hup in the current directory")
                        else:
                            cps = [x[2] for x in P if x[0] == "copy" and same_region(x[1], name)]
                            cps += [y[2] for x in cps if isinstance(x, tuple) and x[0] == "p" and x[1][0] == "loc" for y in P if y[0] == "copy" and same_region(y[1], x)]
                            tx = "".join(text(x) or "" for x in cps)
                            if not same_buf(name): r.viol("home", at, "the second save on hang-up does not go to a name built for it")
                            elif HOME not in cps: r.viol("home", at, "the second save on hang-up is not in the home directory")
                            elif not template(p, cps, tx): r.viol("home", at, "the second save on hang-up is not to ed.hup")
                    if lines and sv and not sv[0][-1] and home == 1 and len(sv) < 2 and not any(e[0] == "nomem" for e in P):
                        r.viol("home", i, "after a failed save on hang-up the home directory is not tried")
    class Q(CPClient):
        def __init__(s): s.n = 0
        def end(s, I, st, i, n):
            s.n += 1
            if n not in ("_exit", "exit", "_Exit"): r.viol("quit", i, "quit() ends in %s" % n); return
            if I.val(st, i.ops[0]) != 13: r.viol("quit", i, "quit() does not exit with the status it was given")
    c = Q()
    for o in Interp(p, c).run("quit", (13,)): r.viol("quit", q, "quit() can return")
    r.set("exits of quit", c.n)
    r.need("exits of quit", 1); r.need("handler evaluations", 6)
def same_region(a, b): return isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[:2] == b[:2]
def same_buf(n): return isinstance(n, tuple) and n[0] == "p" and isinstance(n[1], tuple) and n[1][0] == "buf"
def template(p, cps, tx): return "ed.hup" in tx
