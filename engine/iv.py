"""Interval analysis (abstract interpretation) of the whole program.

Values are signed intervals with a note whether 0 or 1 is excluded.  Locals are
SSA values; program-owned structure fields and globals have an invariant (the
join of everything ever stored in them) and, along a path, the tighter value
last stored or tested.  Parameters, results and field values on entry are joined
over all call sites; loops and recursion are closed by widening to the constants
that occur in the program.  Nothing is executed and no solver is involved."""
from ir import field_of, AnalysisError
import bisect, re
def bits(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 0
def full(ty):
    w = bits(ty)
    if w == 1: return (0, 1, 0)
    if not w: return None
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1, 0)
def mk(lo, hi, ex=0):
    while ex:
        if ex & 1 and lo == 0: lo = 1
        elif ex & 2 and lo == 1: lo = 2
        elif ex & 1 and hi == 0: hi = -1
        elif ex & 2 and hi == 1: hi = 0
        else: break
        if lo > hi: return None
    if lo > hi: return None
    if not lo <= 0 <= hi: ex &= ~1
    if not lo <= 1 <= hi: ex &= ~2
    return (lo, hi, ex)
def no(x, k): return x[0] > k or x[1] < k or (k in (0, 1) and x[2] >> k & 1)
def exof(x): return (1 if no(x, 0) else 0) | (2 if no(x, 1) else 0)
def join(a, b):
    if a is None: return b
    if b is None or a == b: return a
    return mk(min(a[0], b[0]), max(a[1], b[1]), exof(a) & exof(b))
def meet(a, b):
    if a is None or b is None: return None
    return mk(max(a[0], b[0]), min(a[1], b[1]), a[2] | b[2])
def shift(x, k):
    ex = 0
    for v in (0, 1):
        if no(x, v - k) if v - k in (0, 1) else (x[0] > v - k or x[1] < v - k): ex |= 1 << v
    return (x[0] + k, x[1] + k, ex)
def fit(x, ty, nsw=False):
    t = full(ty)
    if x is None or t is None: return x
    if x[0] < t[0] or x[1] > t[1]:
        if not nsw: return t
        return mk(max(x[0], t[0]), min(x[1], t[1]), x[2])
    return mk(*x)
NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
def refine(x, p, y):
    """x knowing x p y"""
    if x is None or y is None: return x
    if p == "eq": return meet(x, y)
    if p == "ne":
        if y[0] != y[1]: return x
        k = y[0]
        if x[0] == k: return mk(x[0] + 1, x[1], x[2])
        if x[1] == k: return mk(x[0], x[1] - 1, x[2])
        return mk(x[0], x[1], x[2] | 1 << k) if k in (0, 1) else x
    if p == "slt": return mk(x[0], min(x[1], y[1] - 1), x[2])
    if p == "sle": return mk(x[0], min(x[1], y[1]), x[2])
    if p == "sgt": return mk(max(x[0], y[0] + 1), x[1], x[2])
    if p == "sge": return mk(max(x[0], y[0]), x[1], x[2])
    if p in ("ult", "ule"):
        if y[0] >= 0: return mk(max(x[0], 0), min(x[1], y[1] - (p == "ult")), x[2])
        return x
    if p in ("ugt", "uge"):
        if y[0] >= 0 and x[0] >= 0: return mk(max(x[0], y[0] + (p == "ugt")), x[1], x[2])
        c = y[0] + (p == "ugt")              # the unsigned value is at least c: a non-negative one below c is excluded
        if y[0] >= 0: return meet(x, (x[0], x[1], (1 if c > 0 else 0) | (2 if c > 1 else 0)))
        return x
    return x
def holds(x, p, y):
    """may x p y be true"""
    if x is None or y is None: return True
    return refine(x, p, y) is not None and refine(y, SWP[p], x) is not None
CTYPE = {"isdigit": (48, 57), "islower": (97, 122), "isupper": (65, 90), "isxdigit": (48, 102), "isalpha": None, "isalnum": None, "isspace": (9, 32), "isblank": (9, 32), "iscntrl": None}
PURE = set(CTYPE) | {"isprint", "ispunct", "isgraph", "toupper", "tolower", "strlen", "strcmp", "strncmp", "memcmp", "strchr", "strrchr", "__errno_location", "gettext", "dcgettext", "strerror", "isatty", "fileno", "feof", "ferror", "abs", "labs"}
RANGE = {"getc": (-1, 255), "fgetc": (-1, 255), "getchar": (-1, 255), "_IO_getc": (-1, 255), "putc": (-1, 255), "fputc": (-1, 255), "putchar": (-1, 255), "mblen": (-1, 16), "mbtowc": (-1, 16), "wcwidth": (-1, 2),
         "close": (-1, 0), "fclose": (-1, 0), "fflush": (-1, 0), "fseek": (-1, 0), "fseeko": (-1, 0), "fseeko64": (-1, 0), "unlink": (-1, 0), "access": (-1, 0), "stat": (-1, 0), "fstat": (-1, 0)}
NN = {"strlen", "fread", "fwrite", "strspn", "strcspn", "abs", "labs", "sysconf", "getpid", "getuid", "getppid"}
NORET = {"exit", "_exit", "abort", "longjmp", "siglongjmp", "_Exit", "__assert_fail"}
class Analysis:
    MANY = ("ed_line_node", "ed_undo_node", "ed_global_node", "ed_frame_node", "ed_stack_frame", "ed_state", "ed_path", "ed_text_node")
    def __init__(s, p, handlers=(), clamp=None, guess=None):
        s.guess = guess or {}               # location -> range tried as its invariant; kept only if it proves closed
        s.p = p
        s.clamp = clamp or {}               # location -> range its stored values are assumed to lie in (decided elsewhere)
        s.handlers = set(handlers)          # functions the system calls with a signal number
        s.th = s._thresholds()
        s.A = {}; s.R = {}; s.E = {}; s.live = set(); s.ret = set()
        s.escaped = set(); s.vol = set(); s.G = {}; s.readers = {}; s.upd = {}
        s._scan()
    def _thresholds(s):
        t = {0, 1, -1, 255, 127, -128}
        for f in s.p.defined.values():
            for i in f.all():
                if i.op in ("icmp", "and", "urem", "srem"):
                    for o in i.ops:
                        if o[0] == "c": t |= {o[1] - 1, o[1], o[1] + 1}
                elif i.op == "switch":
                    for c in i.cases: t |= {c[0] - 1, c[0], c[0] + 1}
                elif i.op == "getelementptr":
                    for q in i.path:
                        if q[0] == "arr" and len(q) > 2 and isinstance(q[2], int): t |= {q[2] - 1, q[2]}
        for w in (8, 16, 32, 64): t |= {-(1 << (w - 1)), (1 << (w - 1)) - 1, (1 << w) - 1}
        return sorted(t)
    def local(s, f):
        c = s.__dict__.setdefault("lth", {})
        if f.name not in c:
            t = set(s.HARD)
            for i in f.all():
                if i.op == "icmp":
                    for o in i.ops:
                        if o[0] == "c": t |= {o[1] - 1, o[1], o[1] + 1}
                elif i.op == "getelementptr":
                    for q in i.path:
                        if q[0] == "arr" and len(q) > 2 and isinstance(q[2], int): t |= {q[2] - 1, q[2]}
            c[f.name] = sorted(t)
        return c[f.name]
    def forward(s, f):
        """values computed from another one by adding a constant"""
        c = s.__dict__.setdefault("lfw", {})
        if f.name not in c:
            d = c[f.name] = {}
            for i in f.all():
                if i.op in ("add", "sub") and i.ops[1][0] == "c" and i.ops[0][0] in "va":
                    d.setdefault(i.ops[0][1] if i.ops[0][0] == "v" else -1 - i.ops[0][1], []).append((i, i.ops[1][1] if i.op == "add" else -i.ops[1][1]))
        return c[f.name]
    HARD = [-(1 << 63), -(1 << 31), -(1 << 15), -128, -1, 0, 1, 127, 255, (1 << 15) - 1, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
    def widen(s, a, b, hard=False, th=None):
        """a: old, b: new (includes a)"""
        if a is None: return b
        lo, hi = b[0], b[1]; th = s.HARD if hard else th or s.th
        if lo < a[0]:
            k = bisect.bisect_right(th, lo) - 1
            lo = th[k] if k >= 0 else lo
        if hi > a[1]:
            k = bisect.bisect_left(th, hi)
            hi = th[k] if k < len(th) else hi
        return mk(lo, hi, exof(a) & exof(b))
    # ---- locations
    def key(s, f, op):
        """('g',name) | (struct, field) | ('l', f, alloca) | None"""
        if op[0] == "g":
            g = s.p.globals.get(op[1])
            return ("g", op[1]) if g and bits(g["type"]) else None
        if op[0] == "v" and f.inst[op[1]].op == "alloca":
            return ("l", f.name, op[1]) if bits(f.inst[op[1]].sty) else None
        l = field_of(op, f)
        if l and l[0].startswith("ed_"): return l
        return None
    def single(s, k): return k[0] in ("g", "l") or not any(k[0] == m or k[0].startswith(m + "[") for m in s.MANY)
    def _scan(s):
        p = s.p
        for f in p.defined.values():
            for i in f.all():
                if i.op == "store":
                    k = s.key(f, i.ops[1])
                    if k and i.vol: s.vol.add(k)
                    if i.ops[0][0] != "c": s._esc(f, i.ops[0])
                elif i.op == "load":
                    k = s.key(f, i.ops[0])
                    if k: s.readers.setdefault(k, set()).add(f.name)
                elif i.op == "call":
                    for o in i.ops: s._esc(f, o)
                elif i.op in ("phi", "select", "ptrtoint", "ret"):
                    for o in i.ops: s._esc(f, o[0] if i.op == "phi" else o)
        for n, g in p.globals.items():
            if not bits(g["type"]): continue
            v = g.get("init1")
            c = v[1] if v and v[0] == "c" else 0
            s.G["g", n] = (c, c, 0) if not (not g["internal"] and "init1" not in g) else full(g["type"])
        s.base = dict(s.G); s.acc = None
        w = {n: set() for n in p.defined}
        s.blind = {n: False for n in p.defined}                      # stores through a pointer that is not a field
        for n, f in p.defined.items():
            for i in f.all():
                if i.op == "store":
                    k = s.key(f, i.ops[1])
                    if k and k[0] != "l": w[n].add(k)
        ch = True
        while ch:
            ch = False
            for n in p.defined:
                for c in p.callees[n]:
                    if c in w and not w[c] <= w[n]: w[n] |= w[c]; ch = True
        s.w = w
        for n, f in p.defined.items():
            if n == "main" or n in p.addr_taken:
                s.A[n] = [full(a["type"]) for a in f.args]
                if n in s.handlers: s.A[n] = [(1, 64, 0)] + s.A[n][1:]
                s.live.add(n); s.E[n] = {}
    def _esc(s, f, o, n=0):
        if n > 6: return
        if o and o[0] in ("g",) or o and o[0] == "v":
            k = s.key(f, o)
            if k: s.escaped.add(k)
    def inv(s, k, ty):
        t = full(ty)
        if k in s.escaped: return t
        g = s.G.get(k, (0, 0, 0))
        x = meet(g, t) if g else t
        return x if x is not None else t
    # ---- global fixpoint
    def run(s):
        for n in s.handlers: s.G
        todo = sorted(s.live); s.dirty = set()
        rounds = 0
        q = list(todo); inq = set(q)
        while q:
            n = q.pop(0); inq.discard(n); rounds += 1
            if rounds > 30000: raise AnalysisError("interval analysis does not end")
            s.dirty = set()
            Fn(s, s.p.defined[n]).solve()
            for m in s.dirty:
                if m in s.live and m not in inq: q.append(m); inq.add(m)
        s.rounds = rounds
        s.proved = [k for k, x in s.guess.items() if k in s.G and k not in s.escaped and s.narrow((k, x))]
        for _ in range(2):
            if not s.narrow(): break
        return s
    def narrow(s, guess=None):
        """one descending step: everything once more from the values found, kept only if it is again closed"""
        def once():
            acc = (dict(s.base), {}, {}, {}, set())
            for n in s.live:
                if n in s.p.addr_taken or n == "main": acc[1][n] = s.A[n]; acc[2][n] = s.E[n]
            s.acc = acc
            for n in sorted(s.live): Fn(s, s.p.defined[n]).solve()
            s.acc = None
            return acc
        def within(a, b): return a is None or b is not None and meet(a, b) == a or a == b
        old = (s.G, s.A, s.E, s.R)
        if guess:
            k, x = guess
            if meet(s.G[k], x) in (None, s.G[k]): return meet(s.G[k], x) is not None
            s.G = dict(s.G); s.G[k] = meet(s.G[k], x)
            s.E = {n: {q: (meet(y, x) or y if q == k else y) for q, y in e.items()} for n, e in s.E.items()}
        g, a, e, r, live = once()
        if guess and not within(g.get(guess[0]), guess[1]): s.G, s.A, s.E, s.R = old; return False
        g = {k: meet(x, s.G[k]) if k in s.G else x for k, x in g.items()}
        s.G, s.A, s.E, s.R = g, {n: a.get(n, s.A[n]) for n in s.A}, {n: e.get(n, s.E[n]) for n in s.E}, r
        if (s.G, s.A, s.E, s.R) == old: return False
        g2, a2, e2, r2, live = once()
        ok = all(within(x, s.G.get(k)) for k, x in g2.items()) and all(within(x, y) for n in a2 for x, y in zip(a2[n], s.A[n])) \
            and all(k in e2[n] and within(e2[n][k], x) for n in e2 for k, x in s.E[n].items()) and all(within(x, s.R.get(n)) for n, x in r2.items())
        if not ok: s.G, s.A, s.E, s.R = old
        return ok
    def store(s, k, x):
        if k in s.clamp: x = meet(x, s.clamp[k])
        if x is None: return
        if s.acc: s.acc[0][k] = join(s.acc[0].get(k, (0, 0, 0)), x); return
        old = s.G.get(k, (0, 0, 0)); new = join(old, x)
        if new != old:
            c = s.upd[k] = s.upd.get(k, 0) + 1
            s.G[k] = s.widen(old, new, c > 8) if c > 3 else new
            s.dirty |= s.readers.get(k, set())
    def called(s, n, args, facts):
        f = s.p.defined[n]
        if n in s.p.addr_taken or n == "main":
            if n not in s.live: s.live.add(n); s.dirty.add(n)
            return
        if s.acc:
            a, e = s.acc[1].get(n), s.acc[2].get(n)
            if a is None: s.acc[1][n] = list(args[:len(f.args)]) + [None] * (len(f.args) - len(args)); s.acc[2][n] = dict(facts); return
            for k in range(len(f.args)):
                x = args[k] if k < len(args) else None
                if a[k] is not None: a[k] = join(a[k], x) if x is not None else full(f.args[k]["type"])
            for k in list(e):
                if k not in facts: del e[k]
                else: e[k] = join(e[k], facts[k])
            return
        a = s.A.get(n)
        if a is None:
            s.A[n] = list(args[:len(f.args)]) + [None] * (len(f.args) - len(args)); s.E[n] = dict(facts); s.live.add(n); s.dirty.add(n); return
        c = s.upd.get(("A", n), 0); ch = False
        for k in range(len(f.args)):
            x = args[k] if k < len(args) else None
            if a[k] is None: continue
            nw = join(a[k], x) if x is not None else full(f.args[k]["type"])
            if nw != a[k]:
                a[k] = s.widen(a[k], nw, c > 8) if c > 3 else nw; ch = True
        e = s.E[n]
        for k in list(e):
            if k not in facts: del e[k]; ch = True
            else:
                nw = join(e[k], facts[k])
                if nw != e[k]: e[k] = s.widen(e[k], nw, c > 8) if c > 3 else nw; ch = True
        if ch: s.upd["A", n] = c + 1; s.dirty.add(n)
    def returned(s, n, x):
        if s.acc:
            s.acc[3][n] = join(s.acc[3].get(n), x); return
        first = n not in s.ret
        if first: s.ret.add(n)
        old = s.R.get(n); new = join(old, x)
        if new != old:
            c = s.upd[("R", n)] = s.upd.get(("R", n), 0) + 1
            s.R[n] = s.widen(old, new, c > 8) if c > 3 else new
            first = True
        if first: s.dirty |= s.p.callers.get(n, set())
    # ---- client
    def visit(s, fn):
        """fn(i, value) for every reachable instruction, value(op) -> interval"""
        for n in sorted(s.live): Fn(s, s.p.defined[n]).solve(fn)
class St:
    __slots__ = ("e", "m", "y")
    def __init__(s, e=None, m=None, y=None): s.e = e or {}; s.m = m or {}; s.y = y or {}
    def copy(s): return St(dict(s.e), dict(s.m), dict(s.y))
class Fn:
    """one pass to a fixpoint over one function"""
    def __init__(s, a, f):
        s.a = a; s.f = f; s.p = a.p; s.visitor = None
        s.args = a.A[f.name]
        s.esc = {k for k in a.escaped if k[0] == "l" and k[1] == f.name}
        s.th = a.local(f)
        s.fwd = a.forward(f)
    def rep(s, st, op):
        """value number of an operand"""
        if op[0] == "v":
            return st.y.get(op[1], op[1])
        if op[0] == "a": return -1 - op[1]
        return None
    def ty(s, op):
        if op[0] == "v": return s.f.inst[op[1]].ty
        if op[0] == "a": return s.f.args[op[1]]["type"]
        if op[0] == "c": return "i%d" % op[2]
        return "ptr"
    def val(s, st, op):
        k = op[0]
        if k == "c": return (op[1] & 1, op[1] & 1, 0) if op[2] == 1 else (op[1], op[1], 0)
        if k in ("v", "a"):
            x = st.e.get(s.rep(st, op))
            if x is not None: return x
            if k == "a":
                x = s.args[op[1]]
                return x if x is not None else full(s.ty(op))
            return full(s.ty(op))
        return None
    def setrep(s, st, op, x):
        """op is known to be x (tighter)"""
        r = s.rep(st, op)
        if r is None: return
        st.e[r] = x
    def memkey(s, st, op):
        """key of a location for flow-sensitive values"""
        k = s.a.key(s.f, op)
        if k is not None:
            if k in s.a.vol or k in s.a.escaped: return None
            if s.a.single(k): return k
            b = s.base(st, op)
            return ("b", k, b) if b is not None else None
        if op[0] == "v":
            r = s.rep(st, op); i = s.f.inst[op[1]]
            if i.op == "getelementptr":
                pa = []; o = op
                for _ in range(5):
                    if o[0] != "v" or s.f.inst[o[1]].op != "getelementptr": break
                    j = s.f.inst[o[1]]
                    for q in j.path:
                        if q[0] in ("idx", "arr") and q[1][0] != "c": return ("d", r)
                    pa.append(j.path); o = j.ops[0]
                b = s.rep(st, o)
                return ("d", b, tuple(tuple(x) for x in pa)) if b is not None else None
            if i.op in ("load", "phi", "call", "select"): return ("d", r)
        if op[0] == "a": return ("d", -1 - op[1])
        return None
    def ptrkey(s, st, op):
        """key of a location holding a pointer or of any type"""
        k = s.memkey(st, op)
        if k is not None: return k
        if op[0] == "g": return ("pg", op[1])
        l = field_of(op, s.f)
        if l is not None and l[0].startswith("ed_"):
            if any(q for q in s.path(op) if q[0] in ("arr",)): return None
            if s.a.single(l): return ("pf",) + l
        return None
    def path(s, op):
        return s.f.inst[op[1]].path if op[0] == "v" and s.f.inst[op[1]].op == "getelementptr" else op[2] if op[0] == "gep" else ()
    def base(s, st, op):
        for _ in range(6):
            if op[0] == "v":
                i = s.f.inst[op[1]]
                if i.op != "getelementptr": return ("v", s.rep(st, op))
                if any(q[0] in ("idx", "arr") and q[1][0] != "c" for q in i.path): return None
                op = i.ops[0]; continue
            if op[0] == "a": return op
            return None
        return None
    # ---- joins
    def joins(s, a, b, widen=False):
        if a is None: return b
        e = {}
        for k, x in a.e.items():
            y = b.e.get(k)
            if y is None: continue
            n = join(x, y)
            if widen and n != x: n = s.a.widen(x, n, widen > 1, s.th)
            e[k] = n
        m = {}
        for k, x in a.m.items():
            y = b.m.get(k)
            if y is None: continue
            if x == y: m[k] = x; continue
            if x[0] is not None and y[0] is not None:
                n = join(x[0], y[0])
                if widen and n != x[0]: n = s.a.widen(x[0], n, widen > 1, s.th)
                m[k] = (n, x[1] if x[1] == y[1] else None)
            elif x[1] == y[1] and x[1] is not None: m[k] = (None, x[1])
        y = {k: v for k, v in a.y.items() if b.y.get(k) == v}
        # a value whose number differs gets none: keep its interval under its own number
        for k in set(a.y) | set(b.y):
            if k not in y:
                xa = a.e.get(a.y.get(k, k)); xb = b.e.get(b.y.get(k, k))
                if xa is not None and xb is not None:
                    n = join(xa, xb); o = a.e.get(k)
                    e[k] = s.a.widen(xa, n, widen > 1, s.th) if widen and n != xa else n
                else: e.pop(k, None)
        return St(e, m, y)
    # ---- refinement
    def learn(s, st, op, x, n=0):
        """op's value lies in x; False when impossible"""
        if op[0] == "c": return meet(s.val(st, op), x) is not None
        if op[0] not in ("v", "a"): return True
        old = s.val(st, op)
        if old is None: return True
        nw = meet(old, x)
        if nw is None: return False
        if nw == old: return True
        s.setrep(st, op, nw)
        r = s.rep(st, op)
        for k, (iv, rr) in list(st.m.items()):
            if rr is not None and rr == r and iv is not None: st.m[k] = (meet(iv, nw) or nw, rr)
        for j, c in s.fwd.get(op[1] if op[0] == "v" else -1 - op[1], ()) if n < 3 else ():
            z = st.e.get(j.id)
            if z is not None and j.id not in st.y:
                t = full(j.ty)
                if j.pred == "nsw" or t[0] <= nw[0] + c and nw[1] + c <= t[1]:
                    w = shift(nw, c); w = meet(z, mk(*w) or w)
                    if w is not None: st.e[j.id] = w
        if op[0] != "v" or n > 5: return True
        i = s.f.inst[op[1]]
        if i.op == "zext":
            if nw[0] < 0: return True
            z = s.val(st, i.ops[0])
            if z is not None and z[0] >= 0: return s.learn(st, i.ops[0], nw, n + 1)
            w = bits(i.from_); h = 1 << (w - 1)
            if nw[1] < h: return s.learn(st, i.ops[0], nw, n + 1)
            if nw[0] >= h: return s.learn(st, i.ops[0], (nw[0] - (1 << w), nw[1] - (1 << w), 0), n + 1)
            if no(nw, 0) and w > 1: return s.learn(st, i.ops[0], mk(*full(i.from_)[:2], 1), n + 1)
        elif i.op in ("sext", "freeze"): return s.learn(st, i.ops[0], nw, n + 1)
        elif i.op == "trunc":
            z = s.val(st, i.ops[0]); t = full(i.ty)
            if z is not None and t[0] <= z[0] and z[1] <= t[1]: return s.learn(st, i.ops[0], nw, n + 1)
        elif i.op in ("add", "sub") and i.ops[1][0] == "c":
            c = i.ops[1][1] if i.op == "add" else -i.ops[1][1]
            z = s.val(st, i.ops[0]); t = full(i.ty)
            if z is not None and (i.pred == "nsw" or t[0] <= z[0] + c and z[1] + c <= t[1]): return s.learn(st, i.ops[0], shift(nw, -c), n + 1)
        return True
    def assume(s, st, op, truth, n=0):
        """the i1 (or integer) op is true/false"""
        if op[0] == "c": return bool(op[1]) == truth
        if op[0] != "v" or n > 8: return True
        i = s.f.inst[op[1]]
        if i.op == "xor" and i.ty == "i1" and i.ops[1][0] == "c": return s.assume(st, i.ops[0], truth ^ bool(i.ops[1][1]), n + 1)
        if i.op == "icmp":
            p = i.pred if truth else NEGP[i.pred]
            x, y = i.ops
            if s.ty(x) == "ptr" or s.ty(x) == "i0": return s.ptrcmp(st, x, p, y)
            if y[0] == "c" and y[1] == 0 and p in ("eq", "ne") and x[0] == "v":
                j = s.f.inst[x[1]]
                if j.op in ("zext", "sext", "freeze") and j.from_ == "i1": return s.assume(st, j.ops[0], p == "ne", n + 1) and s.learn(st, x, (0, 0, 0) if p == "eq" else mk(-1, 1, 1))
                if j.op == "call" and p == "ne" and CTYPE.get(j.callee): 
                    lo, hi = CTYPE[j.callee]
                    if not s.learn(st, j.ops[0], (lo, hi, 0)): return False
                if j.op == "and" and p == "ne" and not s.learn(st, x, mk(*full(j.ty)[:2], 1)): return False
            vx, vy = s.val(st, x), s.val(st, y)
            if vx is None or vy is None: return True
            nx, ny = refine(vx, p, vy), refine(vy, SWP[p], vx)
            if nx is None or ny is None: return False
            return s.learn(st, x, nx) and s.learn(st, y, ny)
        if i.op in ("zext", "sext", "freeze", "trunc") and i.op != "trunc": return s.assume(st, i.ops[0], truth, n + 1)
        if i.op == "select" and i.ty == "i1":
            # a && b / a || b
            c, a, b = i.ops
            if b[0] == "c" and not b[1] and truth: return s.assume(st, c, True, n + 1) and s.assume(st, a, True, n + 1)
            if a[0] == "c" and a[1] and not truth: return s.assume(st, c, False, n + 1) and s.assume(st, b, False, n + 1)
        v = s.val(st, op)
        if v is not None:
            if truth and v == (0, 0, 0) or not truth and no(v, 0): return False
            if i.ty == "i1": s.setrep(st, op, (1, 1, 0) if truth else (0, 0, 0))
        return True
    def ptrcmp(s, st, x, p, y): return True
    # ---- transfer
    def kill(s, st, k):
        """a store to a location with invariant key k (None: unknown location)"""
        for q in list(st.m):
            if k is None:
                if q[0] == "d": del st.m[q]
            elif q == k or q[0] == "b" and q[1] == k or q[0] == "pf" and q[1:] == k or q[0] == "pg" and k == ("g", q[1]): del st.m[q]
    def define(s, st, i):
        st.e.pop(i.id, None); st.y.pop(i.id, None)
        # numbers and locations based on the old value of i are stale
        for k in [k for k, v in st.y.items() if v == i.id]:
            del st.y[k]; st.e.pop(k, None)
        for k in [k for k, v in st.m.items() if v[1] == i.id or k[0] in "dz" and k[1] == i.id or k[0] == "b" and k[2] == ("v", i.id)]:
            v = st.m[k]
            if k[0] in "dz" and k[1] == i.id or k[0] == "b" and k[2] == ("v", i.id): del st.m[k]
            elif v[0] is not None: st.m[k] = (v[0], None)
            else: del st.m[k]
    def load(s, st, i):
        o = i.ops[0]; s.define(st, i)
        if bits(i.ty):
            k = s.a.key(s.f, o); mk_ = s.memkey(st, o)
            t = s.a.inv(k, i.ty) if k is not None and k[0] != "l" else full(i.ty)
            if mk_ is not None:
                c = st.m.get(mk_)
                if c is not None and c[1] is not None and c[1] != i.id and s.sameval(st, c[1], i):
                    st.y[i.id] = c[1]
                    x = st.e.get(c[1])
                    if x is None and c[0] is not None: st.e[c[1]] = meet(c[0], t) or c[0]
                    elif x is None: st.e[c[1]] = t
                    return
                if c is not None and c[0] is not None: t = meet(c[0], t) or t
                st.m[mk_] = (t, i.id)
            if t is not None: st.e[i.id] = t
            return
        if i.ty == "ptr":
            k = s.ptrkey(st, o)
            if k is not None:
                c = st.m.get(k)
                if c is not None and c[1] is not None and c[1] != i.id: st.y[i.id] = c[1]
                else: st.m[k] = (None, i.id)
    def sameval(s, st, r, i):
        if r < 0: return s.f.args[-1 - r]["type"] == i.ty
        return s.f.inst[r].ty == i.ty
    def stores(s, st, i):
        v, o = i.ops[0], i.ops[1]
        if bits(i.sty or ""):
            k = s.a.key(s.f, o); m = s.memkey(st, o); x = s.val(st, v)
            if k is not None:
                if k in s.a.clamp:
                    x = meet(x, s.a.clamp[k])
                    if x is None or not s.learn(st, v, x): return False
                if k[0] != "l": s.a.store(k, x if x is not None else full(i.sty))
                s.kill(st, k)
            else: s.kill(st, None)
            if m is not None: st.m[m] = (x, s.rep(st, v))
            return
        k = s.ptrkey(st, o); l = field_of(o, s.f)
        if l is not None: s.kill(st, l)
        elif o[0] == "g": s.kill(st, ("g", o[1]))
        else: s.kill(st, None)
        if k is not None and s.rep(st, v) is not None: st.m[k] = (None, s.rep(st, v))
    def call(s, st, i):
        n = i.callee; p = s.p
        if n is not None and n.startswith("llvm."):
            s.define(st, i)
            if n.startswith(("llvm.mem",)): s.kill(st, None)
            if n.startswith("llvm.abs"): st.e[i.id] = (0, full(i.ty)[1], 0)
            return True
        ts = [n] if n is not None else list(p.targets(i)) or [None]
        res = None; back = False; wr = set(); ext = False
        for t in ts:
            if t in NORET: continue
            f = p.defined.get(t) if t else None
            if f is None:
                if t and t in p.funcs and p.funcs[t].noreturn: continue
                back = True; ext = ext or t not in PURE
                x = full(i.ty)
                if t in RANGE and x: x = (RANGE[t][0], RANGE[t][1], 0)
                elif t in ("read", "write") and x: x = (-1, x[1], 0)
                elif t in NN and x: x = (0, x[1], 0)
                if t in ("fread", "fwrite") and len(i.ops) > 2 and x:
                    c = s.val(st, i.ops[2])
                    if c and c[0] >= 0: x = (0, c[1], 0)
                res = join(res, x) if x else res
                continue
            args = [s.val(st, o) if bits(s.ty(o)) else None for o in i.ops]
            facts = {k: v[0] for k, v in st.m.items() if v[0] is not None and (k[0] == "g" or k[0].startswith("ed_"))}
            # an untracked fact is what the invariant says; give the tighter ones only
            s.a.called(t, args, facts)
            wr |= s.a.w[t]
            if t in s.a.ret:
                back = True; ext = True
                res = join(res, s.a.R.get(t)) if s.a.R.get(t) else res
        s.define(st, i)
        if not back: return False
        for k in wr: s.kill(st, k)
        if ext: s.kill(st, None)
        if ext and any(t is None or t not in PURE for t in ts):
            for q in list(st.m):
                if q[0] == "pg": del st.m[q]
                elif q[0] == "pf" and any(t is None or t in p.defined for t in ts):
                    if not all(t in p.defined and (q[1], q[2]) not in s.ptrw(t) for t in ts): del st.m[q]
        if bits(i.ty):
            st.e[i.id] = res if res is not None else full(i.ty)
        return True
    _pw = {}
    def ptrw(s, t):
        """every field a function may store to"""
        c = s.a.__dict__.setdefault("pw", None)
        if c is None:
            p = s.p; c = {n: set() for n in p.defined}
            for n, f in p.defined.items():
                for i in f.all():
                    if i.op == "store":
                        l = field_of(i.ops[1], f)
                        if l: c[n].add(l)
            ch = True
            while ch:
                ch = False
                for n in p.defined:
                    for d in p.callees[n]:
                        if d in c and not c[d] <= c[n]: c[n] |= c[d]; ch = True
            s.a.pw = c
        return c[t]
    def local(s, o):
        """the local array a pointer is the start of"""
        for _ in range(4):
            if o[0] != "v": return None
            i = s.f.inst[o[1]]
            if i.op == "alloca": return i.id
            if i.op != "getelementptr" or not all(q[0] in ("idx", "arr") and q[1][0] == "c" and q[1][1] == 0 for q in i.path): return None
            o = i.ops[0]
        return None
    def fixed(s, al):
        """length of the constant text a local array is initialised with and never changed from"""
        n = None; der = {al}
        for i in s.f.all():
            if i.op == "getelementptr" and i.ops[0][0] == "v" and i.ops[0][1] in der: der.add(i.id)
        for i in s.f.all():
            us = [k for k, o in enumerate(i.ops) if not isinstance(o[0], tuple) and o[0] == "v" and o[1] in der]
            if not us or i.op in ("load", "getelementptr", "ptrtoint", "icmp"): continue
            if i.op == "call" and i.callee.startswith("llvm.lifetime"): continue
            if i.op == "call" and i.callee.startswith("llvm.memcpy") and us == [0] and n is None and i.ops[1][0] == "s": n = len(i.ops[1][2].split("\0")[0]); continue
            if i.op == "call" and i.callee in PURE: continue
            return None
        return n
    def strpos(s, st, x, y):
        """strchr (S, c) - S"""
        def root(o):
            if o[0] == "v":
                i = s.f.inst[o[1]]
                if i.op == "ptrtoint": return i.ops[0]
            return None
        a, b = root(x), root(y)
        if a is None or b is None or a[0] != "v": return None
        i = s.f.inst[s.rep(st, a)] if s.rep(st, a) in s.f.inst else s.f.inst[a[1]]
        if i.op != "call" or i.callee not in ("strchr", "strrchr"): return None
        t = i.ops[0]; n = None
        if s.local(t) is not None and s.local(t) == s.local(b): n = s.fixed(s.local(t))
        elif t != b and s.rep(st, t) != s.rep(st, b): return None
        if n is not None: pass
        elif t[0] == "s": n = len(t[2])
        elif t[0] == "v": 
            j = s.f.inst[t[1]]
            g = s.p.globals.get(j.ops[0][1]) if j.op == "load" and j.ops[0][0] == "g" else None
            if g and g["internal"] and g.get("init1", ["?"])[0] == "s" and not any(k.op == "store" and k.ops[1] == j.ops[0] for f in s.p.defined.values() for k in f.all()): n = len(g["init1"][2])
        if n is None: return None
        c = s.val(st, i.ops[1])
        return (0, n - 1 if c and no(c, 0) else n, 0)
    def arith(s, st, i):
        a, b = s.val(st, i.ops[0]), s.val(st, i.ops[1])
        t = full(i.ty)
        if t is None: return None
        a = a or t; b = b or t
        op = i.op; nsw = i.pred == "nsw"
        if op == "add":
            if b[0] == b[1]: r = shift(a, b[0])
            elif a[0] == a[1]: r = shift(b, a[0])
            else: r = (a[0] + b[0], a[1] + b[1], 0)
            return fit(r, i.ty, nsw) or t
        if op == "sub":
            q = s.strpos(st, i.ops[0], i.ops[1])
            if q: return q
            r = shift(a, -b[0]) if b[0] == b[1] else (a[0] - b[1], a[1] - b[0], 0)
            return fit(r, i.ty, nsw) or t
        if op == "mul":
            v = [x * y for x in a[:2] for y in b[:2]]
            return fit((min(v), max(v), 1 if no(a, 0) and no(b, 0) else 0), i.ty, nsw) or t
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if y[0] >= 0: return mk(0, min(y[1], x[1]) if x[0] >= 0 else y[1]) 
            return t
        if op == "or":
            if a[0] >= 0 and b[0] >= 0: return mk(max(a[0], b[0]), (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
            return mk(t[0], t[1], 1 if no(a, 0) or no(b, 0) else 0)
        if op == "xor":
            if bits(i.ty) == 1: return (0, 1, 0)
            if a[0] >= 0 and b[0] >= 0: return (0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1, 0)
            if i.ops[1][0] == "c" and i.ops[1][1] == -1: return (-1 - a[1], -1 - a[0], 0)
            return t
        if op == "shl":
            if b[0] == b[1] and 0 <= b[0] < bits(i.ty): return fit((a[0] << b[0], a[1] << b[0], 1 if no(a, 0) else 0), i.ty, nsw) or t
            return t
        if op in ("lshr", "ashr"):
            if b[0] >= 0 and (a[0] >= 0 or op == "ashr"):
                k = b[0] if b[0] < 128 else 0
                return mk(min(a[0], a[0] >> k), max(a[1] >> k, 0 if a[0] >= 0 else a[1] >> k)) if a[0] < 0 else (a[0] >> min(b[1], 128), a[1] >> k, 0)
            if op == "lshr" and b[0] == b[1] and 0 < b[0] < bits(i.ty): return (0, ((1 << bits(i.ty)) - 1) >> b[0], 0)
            return t
        if op == "sdiv":
            if b[0] > 0: 
                d = lambda x, y: abs(x) // y * (1 if x >= 0 else -1)
                v = [d(x, y) for x in a[:2] for y in b[:2]]
                return (min(v + [0] if a[0] < 0 < a[1] else v), max(v), 0)
            return t
        if op == "udiv":
            if a[0] >= 0 and b[0] > 0: return (a[0] // b[1], a[1] // b[0], 0)
            if b[0] > 1: return (0, ((1 << bits(i.ty)) - 1) // b[0], 0)
            return t
        if op == "srem":
            h = max(abs(b[0]), abs(b[1])) - 1
            if h < 0: return t
            return (max(a[0], -h) if a[0] < 0 else 0, min(a[1], h) if a[1] > 0 else 0, 0)
        if op == "urem":
            if b[0] > 0: return (0, min(a[1], b[1] - 1) if a[0] >= 0 else b[1] - 1, 0)
            if b[0] >= 0 and a[0] >= 0: return (0, a[1], 0)
            return t
        return t
    def exec(s, st, i):
        """False: control does not pass"""
        op = i.op
        if s.visitor is not None: s.visitor(i, lambda o: s.val(st, o))
        if op == "load": s.load(st, i)
        elif op == "store": return s.stores(st, i) is not False
        elif op == "call": return s.call(st, i)
        elif op == "icmp":
            s.define(st, i)
            if s.ty(i.ops[0]) != "ptr":
                x, y = s.val(st, i.ops[0]), s.val(st, i.ops[1])
                t, f = holds(x, i.pred, y), holds(x, NEGP[i.pred], y)
                if t != f: st.e[i.id] = (1, 1, 0) if t else (0, 0, 0)
        elif op in ("zext", "sext", "trunc", "freeze"):
            s.define(st, i)
            x = s.val(st, i.ops[0]); t = full(i.ty)
            if x is not None and t is not None:
                if op == "zext":
                    w = bits(i.from_)
                    if x[0] < 0: x = (x[0] + (1 << w), x[1] + (1 << w), 0) if x[1] < 0 else (0, (1 << w) - 1, 1 if no(x, 0) else 0)
                elif op == "sext" and i.from_ == "i1": x = (-x[1], -x[0], x[2] & 1)
                elif op == "trunc":
                    if bits(i.ty) == 1: x = x if x[0] >= 0 and x[1] <= 1 else (0, 1, 0)
                    elif not (t[0] <= x[0] and x[1] <= t[1]): x = t
                st.e[i.id] = mk(*x) or x
                if op in ("zext", "sext") and s.rep(st, i.ops[0]) is not None:
                    k = ("z", s.rep(st, i.ops[0]), op, i.ty); c = st.m.get(k)
                    if c is not None and c[1] != i.id:
                        z = meet(st.e.get(c[1]), st.e[i.id])
                        if z is not None: st.e[c[1]] = z; st.y[i.id] = c[1]; st.e.pop(i.id, None)
                    else: st.m[k] = (None, i.id)
        elif op == "select":
            s.define(st, i)
            if bits(i.ty):
                r = None
                for tr, o in ((True, i.ops[1]), (False, i.ops[2])):
                    z = st.copy()
                    if s.assume(z, i.ops[0], tr): r = join(r, s.val(z, o))
                if r is not None: st.e[i.id] = r
        elif op == "phi": pass
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            x = s.arith(st, i); s.define(st, i)
            if x is not None and mk(*x) is not None: st.e[i.id] = mk(*x)
        elif op == "ret":
            x = s.val(st, i.ops[0]) if i.ops and bits(s.ty(i.ops[0])) else None
            s.a.returned(s.f.name, x)
        elif op not in ("br", "switch", "unreachable"): s.define(st, i)
        return True
    def phis(s, st, b, pred):
        ph = [i for i in b.insts if i.op == "phi"]
        vs = []
        for i in ph:
            for o in i.ops:
                if o[1] == pred:
                    vs.append((i, s.val(st, o[0]) if bits(i.ty) else None, s.rep(st, o[0]) if i.ty == "ptr" else None, o[0])); break
        for i, x, r, o in vs: s.define(st, i)
        for i, x, r, o in vs:
            if bits(i.ty): st.e[i.id] = x if x is not None else full(i.ty)
    def bool_phi(s, b):
        t = b.insts[-1]
        if t.op not in ("br", "switch") or not t.ops: return False
        o = t.ops[0]; n = 0
        while o[0] == "v" and n < 6:
            i = s.f.inst[o[1]]
            if i.op == "phi": return i.block is b
            if i.op in ("zext", "sext", "trunc", "freeze", "xor", "icmp") and i.block is b: o = i.ops[0]; n += 1; continue
            return False
        return False
    def subst(s, b, op, pred):
        """operand of the terminator's condition with the phi of b replaced by its value from pred"""
        if op[0] != "v": return op
        i = s.f.inst[op[1]]
        if i.op == "phi" and i.block is b:
            for o in i.ops:
                if o[1] == pred: return o[0]
        return op
    def assume_from(s, st, b, op, pred, truth, n=0):
        if op[0] != "v" or n > 6: return s.assume(st, op, truth)
        i = s.f.inst[op[1]]
        if i.block is b:
            if i.op == "phi":
                for o in i.ops:
                    if o[1] == pred: return s.assume(st, op, truth) and s.assume(st, o[0], truth)
            if i.op == "xor" and i.ty == "i1" and i.ops[1][0] == "c": return s.assume_from(st, b, i.ops[0], pred, truth ^ bool(i.ops[1][1]), n + 1)
            if i.op in ("zext", "freeze") or i.op == "sext": return s.assume_from(st, b, i.ops[0], pred, truth, n + 1)
            if i.op == "icmp" and i.ops[1][0] == "c" and i.ops[1][1] == 0 and i.pred in ("eq", "ne"):
                j = i.ops[0]
                z = s.f.inst[j[1]] if j[0] == "v" else None
                if z is not None and z.block is b and (z.op == "phi" and z.ty == "i1" or z.op in ("zext", "sext", "freeze") and z.from_ == "i1"):
                    return s.assume_from(st, b, j, pred, truth == (i.pred == "ne"), n + 1)
        return s.assume(st, op, truth)
    def block(s, st, b, pred):
        """[(succ, state)]"""
        for i in b.insts:
            if i.op == "phi": continue
            if i.op in ("br", "switch", "unreachable"): break
            if not s.exec(st, i): return []
        t = b.insts[-1]
        if s.visitor is not None: s.visitor(t, lambda o: s.val(st, o))
        if t.op == "ret" or t.op == "unreachable": return []
        if t.op == "br":
            if not t.ops: return [(t.t, st)]
            out = []
            for tr, d in ((True, t.t), (False, t.f)):
                z = st.copy()
                if s.assume_from(z, b, t.ops[0], pred, tr): out.append((d, z))
            return out
        if t.op == "switch":
            out = {}; v = s.val(st, t.ops[0])
            for c, d in t.cases:
                z = st.copy()
                if s.learn(z, t.ops[0], (c, c, 0)): out[d] = s.joins(out.get(d), z) if d in out else z
            z = st.copy(); ok = True
            for c, d in t.cases:
                x = s.val(z, t.ops[0])
                if x is None: break
                nx = refine(x, "ne", (c, c, 0))
                if nx is None: ok = False; break
                if nx != x and not s.learn(z, t.ops[0], nx): ok = False; break
            if ok: out[t.default] = s.joins(out.get(t.default), z) if t.default in out else z
            return list(out.items())
        return []
    def solve(s, visitor=None):
        f = s.f; bl = {b.id: b for b in f.blocks}
        st0 = St()
        for k, x in (s.a.E.get(f.name) or {}).items():
            if k in s.a.vol or k in s.a.escaped: continue
            st0.m[k] = (x, None)
        entry = f.blocks[0].id
        IN = {}                                # (block, pred) -> state
        OUT = {}                               # (pred, succ) -> state
        order = s.rpo()
        cnt = {}
        back = s.backs(order)
        q = [entry]; pend = {entry}
        OUT[None, entry] = st0
        n = 0
        pos = {b: k for k, b in enumerate(order)}
        INB = {}
        while pend:
            n += 1
            if n > 20000: raise AnalysisError("interval analysis of %s does not end" % f.name)
            bid = min(pend, key=lambda x: pos[x]); pend.discard(bid)
            s.flow(bid, bl, OUT, INB, cnt, back, pend, pos, True)
        for _ in range(2):                     # descending passes
            for bid in order: s.flow(bid, bl, OUT, INB, cnt, back, set(), pos, False)
        if visitor is not None:
            s.visitor = visitor
            for bid in order: s.flow(bid, bl, OUT, INB, cnt, back, set(), pos, False)
            s.visitor = None
    def rpo(s):
        seen = set(); out = []
        st = [(s.f.blocks[0].id, iter(s.f.blocks[0].succ))]; seen.add(s.f.blocks[0].id)
        bl = {b.id: b for b in s.f.blocks}
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x, iter(bl[x].succ))); break
            else: out.append(b); st.pop()
        return out[::-1]
    def backs(s, order):
        pos = {b: k for k, b in enumerate(order)}
        return {b.id for b in s.f.blocks if b.id in pos and any(q in pos and pos[q] >= pos[b.id] for q in b.preds)}
    def flow(s, bid, bl, OUT, INB, cnt, back, pend, pos, up):
        b = bl[bid]
        ins = []
        for pr in [None] + list(dict.fromkeys(b.preds)):
            o = OUT.get((pr, bid))
            if o is None: continue
            z = o.copy(); s.phis(z, b, pr); ins.append((pr, z))
        if not ins:
            if not up:
                for d in b.succ: OUT.pop((bid, d), None)
            return
        split = len(ins) > 1 and s.bool_phi(b) and bid not in back
        if split: runs = ins
        else:
            j = None
            for pr, z in ins: j = s.joins(j, z) if j is not None else z
            if bid in back and up:
                old = INB.get(bid)
                if old is not None:
                    cnt[bid] = cnt.get(bid, 0) + 1
                    j = s.joins(old, j, widen=0 if cnt[bid] <= 2 else 1 if cnt[bid] <= 14 else 2)
                INB[bid] = j.copy()
            runs = [(ins[0][0] if len(ins) == 1 else None, j)]
        res = {}
        for pr, z in runs:
            for d, w in s.block(z.copy(), b, pr):
                res[d] = s.joins(res[d], w) if d in res else w
        for d in b.succ:
            o = OUT.get((bid, d)); w = res.get(d)
            if w is None:
                if not up: OUT.pop((bid, d), None)
                continue
            if o is None or o.e != w.e or o.m != w.m or o.y != w.y:
                OUT[bid, d] = w
                if up: pend.add(d)
