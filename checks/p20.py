from kernel import *
import kernel
from common import *
from letters import letters
OPTS = ("ed_execute", "opt"); NAME = ("ed_file", "name"); INPUT = ("ed_buffer", "input")
EXEC = {"popen", "system", "fork", "vfork", "execl", "execlp", "execle", "execv", "execvp", "execve", "posix_spawn", "posix_spawnp", "fexecve", "execvpe"}
STAT = {"stat", "stat64", "lstat", "lstat64", "fstat", "fstat64", "__xstat", "__xstat64", "fstatat", "fstatat64"}
OPEN = {"fopen", "fopen64", "freopen", "freopen64", "open", "open64", "creat", "creat64", "openat", "openat64"}
BANG, SLASH = ord("!"), ord("/")
ZEROP = ("", 0, 0, 0, 0, 0, 0)
def through(f, op):
    """the values an operand stands for, through copies"""
    out = []; seen = set(); st = [op]
    while st:
        o = st.pop()
        if o in seen: continue
        seen.add(o)
        if o[0] == "v":
            i = f.inst[o[1]]
            if i.op == "phi": st += [x[0] for x in i.ops]; continue
            if i.op == "select": st += i.ops[1:]; continue
            if i.op in ("sext", "zext", "trunc", "freeze", "bitcast"): st.append(i.ops[0]); continue
        out.append(o)
    return out
class C(Client):
    """P = (what produced the name in hand, a byte was found not to be '!', no slash in the name, name is not "..", target is regular or absent, default name read, stepped back to the command letter)"""
    flags = {OPTS}; tracked = {OPTS}
    def __init__(s, p, r, bit):
        s.p = p; s.r = r; s.bits = bit; s.bit = bit; s.opens = set(); s.names = set(); s.execs = set(); s.asked = set()
    def direct(s, f):
        return any(i.op == "call" and (i.callee in EXEC | STAT | OPEN | {"strchr", "strcmp", "strncmp", "file_name", "file_glob", "expand_shell_command"})
                   or i.op == "store" and field_of(i.ops[1], f) in (NAME, INPUT) or i.op == "and" and i.ops[1][0] == "c" and i.ops[1][1] & s.bit
                   or i.op == "icmp" and any(o[0] == "c" and o[1] in (BANG, 0o100000) for o in i.ops) or i.op == "switch" and any(v in (BANG, 0o100000) for v, t in i.cases) for i in f.all())
    def entry(s, K, P, f):
        if f.name == "exec_command": return ZEROP
        if f.name in s.only: P = P[:6] + (0,)
        if f.name == "file_name": return P[:2] + (0, 0) + P[4:]
        if f.name == "file_glob": return ("",) + P[1:5] + (0,) + P[6:]
        return P
    def origin(s, f, op):
        """where the byte compared comes from: 'name', 'input', 'hand' or None"""
        got = set()
        for o in through(f, op):
            i = f.inst[o[1]] if o[0] == "v" else None
            if i is None or i.op != "load": got.add(None); continue
            for q in through(f, i.ops[0]):
                j = f.inst[q[1]] if q[0] == "v" else None
                if q[0] == "a": got.add("hand")
                elif j is not None and j.op == "load": got.add({NAME: "name", INPUT: "input"}.get(field_of(j.ops[0], f)))
                elif j is not None and j.op == "call" and j.callee in ("file_name", "file_glob", "expand_shell_command"): got.add("hand")
                elif q[0] == "null": pass
                else: got.add(None)
        return got
    def never(s, st, f, op):
        g = s.origin(f, op)
        return bool(g) and all(x == "name" or x == "hand" and st.P[0] == "checked" for x in g)
    def cmpmask(s, K, st, i):
        for a, b in ((0, 1), (1, 0)):
            if i.ops[a][0] == "c" and i.ops[a][1] == BANG and i.pred in ("eq", "ne"):
                s.asked.add(i)
                if i.func.name in s.only and st.P[6] and s.origin(i.func, i.ops[b]) == {"input"}: return atom(1) if i.pred == "eq" else atom(0)
                if s.never(st, i.func, i.ops[b]): return atom(0) if i.pred == "eq" else atom(1)
        return None
    def swcase(s, K, st, i, v):
        return not (v == BANG and s.never(st, i.func, i.ops[0]))
    def edge(s, K, st, br, taken):
        f = br.func; c, taken = K.cond(st, br, taken)
        if c is None or c.op != "icmp" or c.pred not in ("eq", "ne"): return None
        k = next((o[1] for o in c.ops if o[0] == "c"), None); x = next((o for o in c.ops if o[0] == "v"), None)
        return s.learn(st.P, f, x, k, (c.pred == "eq") == taken) if k is not None and x else None
    def swedge(s, K, st, i, vals):
        f = i.func
        if vals is not None and len(vals) == 1: return s.learn(st.P, f, i.ops[0], vals[0], True)
        if (vals is None and any(v == BANG for v, t in i.cases)) or vals and BANG not in vals: return s.learn(st.P, f, i.ops[0], BANG, False)
    def learn(s, P, f, x, k, eq):
        """the value x equals k / differs from k"""
        if k == BANG and not eq: return P[:1] + (1,) + P[2:]
        if not eq: return None
        for o in through(f, x):
            i = f.inst[o[1]] if o[0] == "v" else None
            if i is None: continue
            if k == 0o100000 and i.op == "and" and i.ops[1][0] == "c" and i.ops[1][1] == 0o170000: return P[:4] + (1,) + P[5:]
            if k == 2 and i.op == "load" and i.ops[0][0] == "v" and f.inst[i.ops[0][1]].callee == "__errno_location": return P[:4] + (1,) + P[5:]
        return None
    def inst(s, K, st, i):
        P = st.P; f = i.func
        if i.op == "load" and field_of(i.ops[0], f) == NAME and f.name == "file_glob": return [P[:5] + (1,) + P[6:]]
        if i.op == "store" and field_of(i.ops[1], f) == INPUT:
            st_ = [f.inst[o[1]] for o in through(f, i.ops[0]) if o[0] == "v" and f.inst[o[1]].op == "getelementptr"]
            back = bool(st_) and all(j.path and j.path[-1][0] == "idx" and j.path[-1][1][:2] == ("c", -1) for j in st_)
            return [P[:1] + (0 if st_ else P[1],) + P[2:6] + (int(back),)]
        if i.op == "store" and field_of(i.ops[1], f) == NAME:
            s.names.add(i)
            for o in through(f, i.ops[0]):
                if not (o[0] == "null" or o[0] == "v" and f.inst[o[1]].callee in ("realloc", "malloc", "calloc")):
                    K.report("default", i, "the default file name is set to a string that is not a copy of an accepted name", st)
        return None
    def text(s, f, o):
        return o[2] if o[0] == "s" else None
    def call(s, K, st, i, name):
        P = st.P; f = i.func
        if name in EXEC:
            s.execs.add(i); K.report("shell", i, "%s is reached in restricted mode" % name, st); return []
        if name in OPEN:
            src = [f.inst[o[1]] for o in through(f, i.ops[0]) if o[0] == "v"]
            if src and all(j.op == "load" and (field_of(j.ops[0], f) or ("", ""))[1] == "pathname" for j in src): return None      # the editor's own script or buffer file
            s.opens.add(i)
            if not P[4]: K.report("regular", i, "a file is opened in restricted mode although it was not found to be regular or absent", st)
            return None
        if name in ("strchr", "memchr") and len(i.ops) > 1 and i.ops[1][0] == "c" and i.ops[1][1] == SLASH:
            return [(P[:2] + (1,) + P[3:], ZERO), (P, POS)]
        if name in ("strcmp",) and any(s.text(f, o) == ".." for o in i.ops[:2]):
            return [(P[:3] + (1,) + P[4:], NONZ), (P, ZERO)]
        if name in ("strcpy", "memcpy", "strncpy", "stpcpy", "llvm.memcpy.p0.p0.i64"):
            if any(o[0] == "v" and f.inst[o[1]].op == "load" and field_of(f.inst[o[1]].ops[0], f) == NAME for o in through(f, i.ops[0])):
                s.names.add(i)
                if P[0] != "checked": K.report("default", i, "the default file name is copied from a name that was not accepted", st)
            return None
        if name == "file_name" and not P[1]:
            K.report("bang", i, "a name is accepted in restricted mode without a test for a leading '!', which runs a shell", st)
        return None
    def leave(s, K, P, f, rm):
        n = f.name
        if n == "exec_command": return ZEROP
        if not rm & NONZ: return P
        if n == "file_name":
            if not (P[2] and P[3]): s.bad("slash", f, "a name is accepted in restricted mode that was not tested for %s" % ("a slash" if not P[2] else "'..'"))
            return ("checked",) + P[1:]
        if n == "file_glob":
            if P[0] != "checked" and not P[5]: s.bad("listed", f, "a name from the file list is accepted in restricted mode unchecked")
            return ("checked",) + P[1:]
        if n == "expand_shell_command": return ("shell",) + P[1:]
        return P
    def bad(s, rule, f, msg):
        s.r.viol(rule, f, msg)
def run(r):
    p = r.prog
    for n in ("exec_command", "file_name", "file_glob", "expand_shell_command", "read_file", "write_file"): r.func(n)
    bit = option("RESTRICTED", 0x400)
    r.explanation = ("Path-sensitive interprocedural typestate of exec_command with the restricted option set: where the name in hand came from, and which tests it passed, "
                     "decide which branches on a leading '!' are possible.")
    r.rule("shell", "in restricted mode no command reaches a call that runs a shell or another program")
    r.rule("bang", "in restricted mode a name is accepted only after its first byte was found not to be '!'")
    r.rule("slash", "in restricted mode a name is accepted only after it was found to contain no slash and not to be '..'")
    r.rule("listed", "in restricted mode a name taken from the file list passes the same tests as a name typed in")
    r.rule("default", "the default file name is always a copy of an accepted name")
    r.rule("regular", "in restricted mode a command opens a file only after its status was found to be regular or absent")
    r.assumptions.append("the first byte of the line that names a file is the first byte of the name")
    c = C(p, r, bit)
    by = {}; blank = set(b" \t\v\f\r")       # skipped before the letter
    for pre in ((), (ord("<"),), (ord("~"),)):
        out, bad, n = letters(p, (bit,), lambda b: pre + (b,))
        for (b, o), Ps in out.items():
            for f in {x for P in Ps for x in P}: by.setdefault(f, set()).add(b)
    c.only = {f for f, bs in by.items() if bs - blank == {BANG} and not any(i.callee == f for n, g in p.defined.items() if n != "exec_command" for i in g.calls())}
    r.set("commands only run by the letter '!'", len(c.only))
    r.kernel(c, [("exec_command", ZEROP, {OPTS: (0, (bit,))})])
    r.set("calls that open a file", len(c.opens)); r.set("tests for a shell escape", len(c.asked)); r.set("writes of the default name", len(c.names))
    r.set("calls that run a program, in the whole program", sum(1 for f in p.defined.values() for i in f.calls() if i.callee in EXEC))
    r.need("calls that open a file", 1); r.need("tests for a shell escape", 2); r.need("writes of the default name", 2)
    for i in sorted(c.opens, key=lambda i: (i.func.name, i.line)):
        f = i.func; K = {n for n in p.defined if p.reach([n]) & STAT}
        st = [j for j in f.calls() if (j.callee in STAT or j.callee in K and j.callee not in ("exec_command",)) and j.ops]
        if st and not any(same(f, j.ops[0], i.ops[0]) for j in st): r.viol("regular", i, "the file opened is not the one whose status was tested")
from p13 import same
