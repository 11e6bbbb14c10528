"""Memory requests that fail: typestate of each function that makes one, and of the functions a missing pointer is handed to."""
from common import *
import kernel
from kernel import Client, Kernel, TOP, ZERO, NONNEG
MEM = {"malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "realloc_buffer"}
LIB = {"fopen", "fopen64", "fdopen", "popen", "tmpfile", "getenv", "getpass", "setlocale", "opendir", "ttyname", "getpwuid", "getpwnam", "realpath", "freopen", "freopen64"}
TAKES = {"free", "realloc", "realloc_buffer", "time", "setlocale", "fflush", "freopen", "freopen64", "regfree", "waitpid", "wait", "sigaction", "sigprocmask", "signal", "printf", "fprintf", "gettext", "bindtextdomain", "textdomain", "strtol", "strtoul", "strtoll", "execl", "glob", "glob64", "globfree", "globfree64", "setvbuf", "longjmp", "siglongjmp"}
OWN = set()
def within(p, n):
    """the functions n calls, without the delivery of signals"""
    seen = set(); todo = [n]
    while todo:
        x = todo.pop()
        if x not in seen and x in p.defined and x != "spl0": seen.add(x); todo += p.callees.get(x, ())
    return seen
class D(Client):
    """P = None | (the request that failed, field it was kept in, values loaded from there)"""
    cap = 500; fork = True
    def __init__(s, r, fn, arg=None): s.r = r; s.p = r.prog; s.fn = fn; s.arg = arg; s.own = OWN; s.bad = {}; s.sites = set(); s.mem = set(); s.out = {}
    def direct(s, f): return f.name == s.fn
    def missing(s, K, st, op):
        """op is the pointer that the failed request did not deliver"""
        f = K.f if hasattr(K, "f") else s.p.defined[s.fn]
        P = st.P
        if P is None: return False
        o = op; n = 0
        while n < 50:
            n += 1
            if o[0] == "gep": o = o[1]; continue
            if o[0] == "v":
                i = f.inst[o[1]]
                if i.op in ("getelementptr", "bitcast", "freeze"): o = i.ops[0]; continue
            break
        if o[0] == "a": return P[0] == "arg" and o[1] == s.arg and K.val(st, o) == ZERO
        if o[0] != "v": return False
        if o[1] in P[2]: return True
        return K.val(st, o) == ZERO and s.comes(f, o[1], P[0], set())
    def comes(s, f, v, src, seen):
        """value v can be the one delivered by src"""
        if v in seen: return False
        seen.add(v); i = f.inst[v]
        if i is src: return True
        if i.op == "phi": return any(o[0] == "v" and s.comes(f, o[1], src, seen) or src == "arg" and o == ("a", s.arg) for o, _ in i.ops)
        if i.op in ("bitcast", "freeze", "getelementptr"): return i.ops[0][0] == "v" and s.comes(f, i.ops[0][1], src, seen) or src == "arg" and i.ops[0] == ("a", s.arg)
        if i.op == "select": return any(o[0] == "v" and s.comes(f, o[1], src, seen) for o in i.ops[1:])
        return False
    def param(s, f, o):
        while o[0] in ("v", "gep"):
            if o[0] == "gep": o = o[1]; continue
            i = f.inst[o[1]]
            if i.op not in ("getelementptr", "bitcast"): return False
            o = i.ops[0]
        return o[0] == "a"
    def loadmask(s, K, st, i):
        P = st.P
        if P is not None and P[1] is not None and i.ty == "ptr" and (field_of(i.ops[0], i.func) or (i.ops[0] if i.ops[0][0] == "g" else None)) == P[1]: return ZERO
        return None
    def inst(s, K, st, i):
        P = st.P
        if P is None: return None
        if i.op in ("load", "store"):
            a = i.ops[i.op == "store"]
            if s.missing(K, st, a): s.bad.setdefault(i, P[0])
        if i.op == "store":
            l = field_of(i.ops[1], i.func) or (i.ops[1] if i.ops[1][0] == "g" else None)
            gone = i.ops[0][0] == "v" and s.missing(K, st, i.ops[0])
            if l and gone: return [(P[0], l, P[2])]
            if gone and s.arg is None and i.func.ret == "void" and s.param(i.func, i.ops[1]): return [None]      # delivered to the caller
            if l and l == P[1]: return [(P[0], None, P[2])]
        if i.op == "load" and i.ty == "ptr" and P[1] is not None:
            l = field_of(i.ops[0], i.func) or (i.ops[0] if i.ops[0][0] == "g" else None)
            if l == P[1]: return [(P[0], P[1], P[2] | {i.id})]
        return None
    def call(s, K, st, i, name):
        P = st.P
        if P is not None and name:
            for k, o in enumerate(i.ops):
                if o[0] in ("v", "a", "gep") and s.missing(K, st, o):
                    g = s.p.defined.get(name)
                    if g is None and name not in TAKES and not name.startswith("llvm.") or name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): s.bad.setdefault(i, P[0])
                    elif g is not None and k < len(g.args) and uses(s.r, g, k): s.bad.setdefault(i, P[0])
        if s.arg is None and (name in MEM or name in LIB or name in s.own) and i.func.name == s.fn:
            s.sites.add((i.func.name, i.id))
            if name in MEM: s.mem.add((i.func.name, i.id))
            if P is None or name in MEM: return [((i, None, frozenset()), ZERO), (P, TOP & ~ZERO)]
        return None
    def leave(s, K, P, f, rm):
        if s.arg is None and P is not None and P[0] != "arg" and P[0].callee in MEM and f.name == s.fn:
            bad = rm & ~ZERO if f.ret == "ptr" else 1 if f.ret == "void" else rm & NONNEG
            if bad: s.out[P[0]] = f.ret
        return P
_u = {}
def uses(r, g, k):
    key = (g.name, k)
    if key not in _u:
        _u[key] = False
        c = D(r, g.name, k); run1(r, c, g.name, ("arg", None, frozenset()), tuple(ZERO if j == k else TOP for j in range(len(g.args))))
        _u[key] = bool(c.bad)
    return _u[key]
def run1(r, c, n, P=None, args=None):
    K = Kernel(r.prog, c, kernel.base_retmasks(r.prog)); K.relevant = {n}
    if args: K.root(n, P, None, args)
    else: K.root(n, P)
    K.run(); r.count("paths_explored_states", K.nedges)
def run(r):
    p = r.prog; _u.clear(); r.func("realloc_buffer")
    b = kernel.base_retmasks(p); OWN.clear()
    OWN.update(n for n, f in p.defined.items() if f.ret == "ptr" and b.get(n, TOP) & ZERO and n not in MEM and any(i.op == "call" and (i.callee in MEM or i.callee in LIB) for m in within(p, n) for i in p.defined[m].all()))
    r.explanation = ("Typestate analysis of every function that makes a memory request or calls a library function that can deliver no pointer: on the paths on which it delivers "
                     "none, the pointer, and the field it is kept in, is not used for an access and not handed to a function that would, and after a failed memory request the function fails.")
    r.rule("use", "a pointer that a request did not deliver is not used for an access")
    r.rule("fail", "a function whose memory request failed fails")
    for n, f in sorted(p.defined.items()):
        if not any(i.op == "call" and (i.callee in MEM or i.callee in LIB or i.callee in OWN) for i in f.all()): continue
        c = D(r, n); run1(r, c, n)
        r.count("functions with requests"); r.count("requests", len(c.sites)); r.count("memory requests", len(c.mem))
        for i, src in sorted(c.bad.items(), key=lambda x: x[0].line): r.viol("use", i, "a pointer that %s (line %d) did not deliver is used" % (src.callee, src.line))
        for src, ret in sorted(c.out.items(), key=lambda x: x[0].line): r.viol("fail", src, "%s goes on as if it had succeeded when %s delivers no memory" % (n, src.callee))
    r.need("functions with requests", 25); r.need("memory requests", 50)
