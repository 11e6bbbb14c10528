from kernel import *
import kernel
from common import *
CT = {"isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "ispunct", "isprint", "iscntrl", "isxdigit", "isblank", "isgraph", "toupper", "tolower"}
TABLES = {"__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"}
GETC = {"getc", "fgetc", "getchar", "_IO_getc", "getc_unlocked", "getchar_unlocked"}
class Values:
    """is a value always EOF or representable as unsigned char, by its construction"""
    def __init__(s, p): s.p = p; s.memo = {}
    def ok(s, f, o):
        k = (f.name, o)
        if k in s.memo: return s.memo[k]
        s.memo[k] = True                  # coinductive: loops of copies add nothing
        r = s._ok(f, o)
        s.memo[k] = r
        return r
    def _ok(s, f, o):
        if o[0] == "c": return -1 <= o[1] <= 255
        if o[0] == "null": return True
        if o[0] == "a":
            if f.name in s.p.addr_taken or f.name == "main": return False
            cs = [i for m in s.p.callers.get(f.name, ()) if m in s.p.defined for i in s.p.defined[m].calls() if i.callee == f.name]
            return bool(cs) and all(len(i.ops) > o[1] and s.ok(i.func, i.ops[o[1]]) for i in cs)
        if o[0] != "v": return False
        i = f.inst[o[1]]
        if i.op == "zext": return i.from_ in ("i1", "i8") or s.ok(f, i.ops[0])
        if i.op in ("sext", "trunc", "freeze"): return (i.op != "sext" or i.from_ not in ("i8", "i1")) and s.ok(f, i.ops[0])
        if i.op == "and": return any(x[0] == "c" and 0 <= x[1] <= 255 for x in i.ops)
        if i.op == "urem": return i.ops[1][0] == "c" and 0 < i.ops[1][1] <= 256
        if i.op == "lshr": return False
        if i.op == "icmp": return True
        if i.op == "phi": return all(s.ok(f, x[0]) for x in i.ops)
        if i.op == "select": return s.ok(f, i.ops[1]) and s.ok(f, i.ops[2])
        if i.op == "call":
            if i.callee in GETC: return True
            if i.callee in ("toupper", "tolower"): return s.ok(f, i.ops[0])
            g = s.p.defined.get(i.callee)
            return g is not None and all(s.ok(g, x.ops[0]) for x in g.all() if x.op == "ret" and x.ops)
        if i.op == "load" and i.ops[0][0] == "v" and f.inst[i.ops[0][1]].op == "alloca":
            a = i.ops[0]
            st = [x for x in f.all() if x.op == "store" and x.ops[1] == a]
            return bool(st) and not any(x.op == "call" and a in x.ops for x in f.all()) and all(s.ok(f, x.ops[0]) for x in st)
        return False
class Guard(Client):
    """what a function itself has tested about the value"""
    cap = 60
    def __init__(s): s.m = {}
    def direct(s, f): return False
    def call(s, K, st, i, name):
        if name in CT: s.m[i] = s.m.get(i, 0) | K.val(st, i.ops[0])
        return None
def run(r):
    p = r.prog
    for n in ("exec_command", "address_range", "file_name", "expand_shell_command"): r.func(n)
    r.explanation = ("Value-range analysis by construction, across calls, of the argument of every character classification and conversion call and of every index into the C library's "
                     "character tables; where construction does not settle it, the tests the function makes on the value are taken into account path by path.")
    r.rule("range", "the argument of a character classification or conversion is EOF or a value of an unsigned char")
    v = Values(p)
    for f in p.defined.values():
        open_ = []
        for i in f.all():
            if i.op == "call" and i.callee in CT:
                r.count("classification calls")
                if not v.ok(f, i.ops[0]): open_.append(i)
            if i.op == "getelementptr" and i.ops[0][0] == "v":
                j = f.inst[i.ops[0][1]]
                if j.op == "load" and j.ops[0][0] == "v" and f.inst[j.ops[0][1]].op == "call" and f.inst[j.ops[0][1]].callee in TABLES:
                    r.count("table lookups")
                    ix = [q[1] for q in i.path if q[0] in ("idx", "arr")]
                    if not ix or not all(v.ok(f, x) for x in ix): r.viol("range", i, "a character table is indexed with a value that can be out of range")
        if open_:
            g = Guard(); K = kernel.Kernel(p, g, kernel.base_retmasks(p)); K.relevant = {f.name}; K.root(f.name, None); K.run()
            for i in open_:
                m = g.m.get(i, 0); bad = LT0 & ~atom(-1)
                x = f.inst[i.ops[0][1]] if i.ops[0][0] == "v" else None
                if m & bad or x is None or not (x.op == "sext" and x.from_ == "i8"): r.viol("range", i, "%s is applied to a value that can be out of its range (a byte above 127 becomes negative)" % i.callee)
    r.need("classification calls", 10)
    if p.callees.get("main") is None: raise AnalysisError("no program")
