from cmds import *
from common import *
OPENS = {"fopen", "fopen64"}
HANDLE = ("ed_file", "handle")
READS = {"getc", "fgetc", "_IO_getc", "getc_unlocked", "fread", "getline", "getdelim", "fgets"}
PUTS = {"fwrite", "putc", "fputc", "fputs", "_IO_putc", "putc_unlocked", "write"}
EX, NB, UN = 2, 4, 8                     # flock
SETLK = {6, 37}; SETLKW = {7, 38}; GETLK = {5, 36}
class C(CPClient):
    """P = (mode the stream was opened with, an exclusive lock was asked for, the request was refused, something else failed)"""
    prefix = 3
    forksel = True
    def __init__(s, p, home): s.p = p; s.home = home; s.viol = []; s.xfer = set(); s.req = set(); s.io = {n for n in p.defined if p.reach([n]) & (READS | PUTS)}; s.opens = 0
    def inline(s, n): return s.p.defined[n].file == s.home and n not in s.io
    def refuse(s, ok):
        return lambda P: (P[0], P[1] or ok, True, P[3])
    def lock(s, st, i, fd, ex):
        P = st.P; s.req.add(i)
        if not ex and fd == 7: s.viol.append((i, "asked", "the lock asked for is not exclusive, or not of the whole file"))
        if not ex or fd != 7: return [(0, P, {}), (-1, P, {})]      # of something else, or shared
        return [(0, (P[0], True, P[2], P[3]), {}), (-1, (P[0], True, True, P[3]), {})]
    def call(s, I, st, i, n, args):
        P = st.P
        if n is None: return [(None, P, {})]
        if n in CT or n.startswith("llvm.") or n.startswith("__ctype"): return None
        if n in OPENS:
            m = args[1]
            m = m[1][1] if isinstance(m, tuple) and m[0] == "p" and isinstance(m[1], tuple) and m[1][0] == "str" and m[2] == 0 else "?"
            s.opens += 1
            return [(0, (P[0], P[1], P[2], True), {}), (("p", "opened", 0), (m, False, False, P[3]), {})]
        if n in ("fileno", "fileno_unlocked"):
            a = args[0]
            return [(7 if isinstance(a, tuple) and a[0] == "p" and a[1] == "opened" else 5, P, {})]
        if n == "flock":
            if not isinstance(args[1], int): s.viol.append((i, "block", "a lock is asked for with an operation that is not known not to wait")); return s.lock(st, i, None, 0)
            if not args[1] & (NB | UN): s.viol.append((i, "block", "flock waits for the lock"))
            return s.lock(st, i, args[0], args[1] & EX)
        if n in ("fcntl", "fcntl64"):
            if args[1] in SETLKW: s.viol.append((i, "block", "fcntl waits for the lock"))
            if args[1] in SETLK:
                t = [st.mem.get(("flock", k)) for k in ("l_type", "l_whence", "l_start", "l_len")]
                if any(x not in (None, y) for x, y in zip(t, (1, 0, 0, 0))): return s.lock(st, i, args[0], False)
                if None in t: return s.lock(st, i, None, False)
                return s.lock(st, i, args[0], True)
            return [(-1, P, {}), (0, P, {})]
        if n in ("lockf", "lockf64"):
            if args[1] == 1: s.viol.append((i, "block", "lockf waits for the lock"))
            return s.lock(st, i, args[0], args[1] in (1, 2))
        f = s.p.defined.get(n)
        if n in s.io or n in READS | PUTS:
            if any(isinstance(x, tuple) and not isinstance(x, KB) and x[0] == "p" and x[1] == "opened" for x in args):
                s.xfer.add(i)
                if (P[0] == "?" or "+" in P[0] or P[0][:1] in "wa") and not P[1]: s.viol.append((i, "asked", "a file opened with mode %r is used without an exclusive lock having been asked for" % P[0]))
        elif f is not None and s.inline(n): return None
        if n in noreturn(s.p): return []
        d = {l: None for l in I.writes.get(n, ())} if f is not None else {}
        for o in i.ops:
            l = I.loc(st, o) if o[0] == "v" else None
            if l is not None and l[0] == "l": d[l] = None
        void = f is not None and f.ret == "void"
        v = rets(s.p, n)
        if f is None and n in ("fclose", "access", "stat", "__xstat", "fseeko", "fseeko64", "fseek", "fflush", "ftruncate", "ftruncate64", "isatty", "fprintf"): v = (-1, 0) if n not in ("isatty",) else (0, 1)
        out = []
        for x in v:
            bad = not void and (x is None and f is not None or isinstance(x, int) and x < 0 and n != "fprintf")
            out.append((x, (P[0], P[1], P[2], P[3] or bad), d))
        return out
def run(r):
    p = r.prog
    r.explanation = ("Constant propagation through the functions that read and write a file by name: at every transfer from or to a stream opened with write access an exclusive lock must have been asked for on that very stream, "
                     "and no path on which only the lock was refused may answer with a failure.  Every request in the program must be one that never waits.")
    r.rule("asked", "before text is transferred, an exclusive lock of the whole file is asked for on every stream opened with write access")
    r.rule("block", "no lock request waits for the lock")
    r.rule("refusal", "a refused lock does not fail the read or write command")
    r.rule("writable", "the file to be read is opened with write access where this is possible, so that the lock can be asked for")
    seen = set()
    for name, nargs, mode in (("read_file", 6, None), ("write_file", 8, "w"), ("write_file", 8, "a")):
        f = r.func(name)
        if len(f.args) != nargs: raise AnalysisError("%s takes other arguments than expected" % name)
        for dflt in (0, 1):
            c = C(p, f.file); I = Interp(p, c); I.MAX = 1500000
            mem = {HANDLE: ("p", "handle", 0)}
            if mode:
                mem.update({("p", ("str", mode), 0): ord(mode), ("p", ("str", mode), 1): 0})
                a = (("p", "fn", 0), dflt, None, None, None, None, ("p", ("str", mode), 0), None)
            else: a = (("p", "fn", 0), None, None, None, dflt, None)
            out = I.run(name, a, mem, (None, False, False, False))
            r.count("paths", len(out)); seen |= c.req
            if not c.opens or not c.xfer: raise AnalysisError("%s opens or transfers nothing" % name)
            r.count("transfers checked", len(c.xfer)); r.count("openings", c.opens)
            if not c.req: r.viol("asked", f, "no lock is asked for")
            for i, rule, m in dict.fromkeys(c.viol): r.viol(rule, i, m)
            for v, m, P in out:
                if P[2] and not P[3] and not (isinstance(v, int) and v >= 0): r.viol("refusal", f, "%s fails when only the lock was refused" % name)
            r.count("paths with a refused lock", sum(1 for v, m, P in out if P[2]))
            if not mode and not any(P[0] and "+" in P[0] for v, m, P in out): r.viol("writable", f, "a file to be read is never opened with write access, so no exclusive lock can be asked for")
    r.set("lock requests", len(seen))
    r.need("lock requests", 1); r.need("transfers checked", 6)
    for f in p.defined.values():
        for i in f.calls():
            if i in seen or i.callee not in ("flock", "fcntl", "fcntl64", "lockf", "lockf64"): continue
            r.count("other requests"); o = i.ops[1]
            if o[0] != "c": r.viol("block", i, "a request that is not known not to wait")
            elif i.callee == "flock" and not o[1] & (NB | UN) or i.callee.startswith("fcntl") and o[1] in SETLKW or i.callee.startswith("lockf") and o[1] == 1: r.viol("block", i, "%s waits for the lock" % i.callee)
