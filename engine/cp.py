"""Path-sensitive conditional constant propagation over the editor's IR.

Values: Python int (exactly known), KB (some bits known, the others as they were
initially), NZ (known non-zero), ('p', region, offset) / ('e', table, index)
pointers, ('f', name) functions, None (unknown).  Unknown branches fork; both
sides are explored and equalities learnt.  Loops converge because unknown
values compare equal; nothing is executed."""
from ir import field_of, AnalysisError
NZ = "nz"
M64 = (1 << 64) - 1
class KB(tuple):
    """(zeros, ones): known-zero and known-one bits; the others unchanged"""
    __slots__ = ()
    def __new__(c, z, o): return tuple.__new__(c, (z & M64, o & M64))
def width(t):
    try: return int(t[1:]) if t and t[0] == "i" else 64
    except ValueError: return 64
def wrap(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if w > 1 and n >> (w - 1) else n
def uns(n, w): return n & ((1 << w) - 1)
CT = {"isspace": lambda c: chr(c) in " \t\n\v\f\r", "isdigit": lambda c: 48 <= c <= 57, "islower": lambda c: 97 <= c <= 122,
      "isupper": lambda c: 65 <= c <= 90, "isalpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122}
class CPClient:
    prefix = 4
    fieldargs = frozenset()                             # fields whose address is followed into calls
    arrays = False                                      # follow the elements of local arrays
    ptrs = False                                        # follow positions of a text through integer arithmetic
    forksel = False                                     # follow both arms of an undecided choice
    def call(s, I, st, i, name, args): return None      # None | [(ret, P, {loc: val})]
    apart = frozenset()                                 # regions known to be different objects
    def inline(s, name): return True
    def store(s, I, st, i, loc, val): pass
    def inst(s, I, st, i): pass                         # may change st.P; return False to end the path
    def end(s, I, st, i, name): pass                    # noreturn call
    def unknown(s, I, st, i): return None               # the value loaded from a place that is not known
def noreturn(prog):
    """functions of the program that never return"""
    from kernel import NORETURN
    nr = getattr(prog, "_noreturn", None)
    if nr is not None: return nr
    nr = set(); ch = True
    def stops(i):
        t = prog.targets(i)
        return bool(t) and all(n in NORETURN or n in nr or (n in prog.funcs and prog.funcs[n].noreturn) for n in t)
    while ch:
        ch = False
        for n, f in prog.defined.items():
            if n in nr: continue
            seen = set(); st = [0]; ret = False
            while st and not ret:
                b = st.pop()
                if b in seen: continue
                seen.add(b); dead = False
                for i in f.blocks[b].insts:
                    if i.op == "call" and stops(i): dead = True; break
                    if i.op == "ret": ret = True
                if not dead: st += f.blocks[b].succ
            if not ret: nr.add(n); ch = True
    prog._noreturn = nr
    return nr
class St:
    __slots__ = ("env", "mem", "org", "P", "f", "stack")
class Interp:
    MAX = 400000
    def __init__(self, prog, client):
        self.p = prog; self.c = client; self.steps = 0; self.memo = {}; self.active = set(); self.truncated = False
        w = getattr(prog, "_cpwrites", None)
        if w is not None: self.writes = w; return
        w = {n: set() for n in prog.defined}; unk = set()
        for n, f in prog.defined.items():
            for i in f.all():
                if i.op == "store":
                    l = self.sloc(i.ops[1], f)
                    if l: w[n].add(l)
        nr = noreturn(prog)
        ch = True
        while ch:
            ch = False
            for n in prog.defined:
                for c in prog.callees[n]:
                    if c in w and c not in nr and not w[c] <= w[n]: w[n] |= w[c]; ch = True
        self.writes = prog._cpwrites = w
    def sloc(self, op, f):
        if op[0] == "g": return ("g", op[1])
        return field_of(op, f)
    # ---- evaluation
    def val(self, st, o):
        k = o[0]
        if k == "c": return o[1] if o[2] != 1 else (1 if o[1] else 0)
        if k == "null": return 0
        if k == "v":
            v = st.env.get(o[1])
            return ("p", ("l", st.f.name, o[1]), 0) if v is None and self.c.arrays and st.f.inst[o[1]].op == "alloca" and o[1] in st.f.inst else v
        if k == "a": return st.env.get(-1 - o[1])
        if k == "f": return ("f", o[1])
        if k == "s": return ("p", ("str", o[2]), 0)
        if k == "g": return ("p", ("g", o[1]), 0)
        if k == "gep": return self.gep(st, o[1], o[2])
        return None
    def gep(self, st, base, path):
        b = self.val(st, base)
        if not (isinstance(b, tuple) and not isinstance(b, KB) and b and b[0] in ("p",)): return None
        idx = None; last = None
        for q in path:
            if q[0] in ("idx", "arr"):
                v = self.val(st, q[1])
                if last is not None and (last[1] != 0): return None
                last = (q, v)
                if v is None: return None
            else: return None
        if last is None: return b
        q, v = last
        if not isinstance(v, int): return None
        if len(q) > 2 and q[2] == "i8" or (isinstance(b[1], tuple) and b[1][0] == "str") or q[0] == "arr" and b[1][0] != "g" or isinstance(b[1], str):
            # beyond the modelled prefix of a text the position is unknown
            return ("p", b[1], b[2] + v) if not (isinstance(b[1], str) and b[2] + v > self.c.prefix) else None
        if b[1][0] == "g": return ("e", b[1][1], b[2] + v)
        return None
    def loc(self, st, op):
        if op[0] == "g": return ("e", op[1], 0) if op[1] in self.p.tables else ("g", op[1])
        if op[0] == "v":
            i = st.f.inst[op[1]]
            if i.op == "alloca": return ("l", st.f.name, i.id)
        v = self.val(st, op)
        if isinstance(v, tuple) and not isinstance(v, KB):
            if v[0] == "p" and isinstance(v[1], tuple) and v[1][0] in ("g",) and v[2] == 0: return v[1]
            if v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "fld" and v[2] == 0: return v[1][1:]
            if v[0] in ("p", "e"): return v
        l = field_of(op, st.f)
        if l: return l
        return None
    def load(self, st, l, ty):
        if l is None: return None
        if l in st.mem: return st.mem[l]
        if l[0] == "p" and isinstance(l[1], tuple) and l[1][0] == "str":
            s, k = l[1][1], l[2]
            if 0 <= k < len(s): return wrap(ord(s[k]) & 255, 8)
            if k == len(s): return 0
            return None
        if l[0] == "e":
            g = self.p.globals.get(l[1], {}); init = g.get("init")
            if init and 0 <= l[2] < len(init):
                o = init[l[2]]
                if o and o[0] == "f": return ("f", o[1])
                if o and o[0] == "c": return o[1]
                if o and o[0] == "null": return 0
        if l[0] == "g":
            g = self.p.globals.get(l[1], {}); o = g.get("init1")
            if g.get("const") and o:
                if o[0] == "f": return ("f", o[1])
                if o[0] == "c": return o[1]
        return None
    def bin(self, i, a, b):
        w = width(i.ty); op = i.op
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return wrap(a + b, w)
            if op == "sub": return wrap(a - b, w)
            if op == "mul": return wrap(a * b, w)
            if op == "and": return wrap(a & b, w)
            if op == "or": return wrap(a | b, w)
            if op == "xor": return wrap(a ^ b, w)
            if op == "shl": return wrap(a << b, w) if 0 <= b < 64 else None
            if op == "lshr": return wrap(uns(a, w) >> b, w) if 0 <= b < 64 else None
            if op == "ashr": return wrap(a >> b, w) if 0 <= b < 64 else None
            if op in ("sdiv", "srem") and b:
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return wrap(q if op == "sdiv" else a - q * b, w)
            if op in ("udiv", "urem") and b: return wrap(uns(a, w) // uns(b, w) if op == "udiv" else uns(a, w) % uns(b, w), w)
            return None
        if op in ("and", "or") and isinstance(a, int): a, b = b, a
        full = (1 << w) - 1
        if op == "and" and isinstance(b, int):
            k = b & full
            if k == 0: return 0
            if isinstance(a, KB):
                if not (k & ~(a[0] | a[1])): return wrap(a[1] & k, w)
                return KB(a[0] | ~k, a[1] & k)
            return KB(~k, 0) if k != full else a
        if op == "or" and isinstance(b, int):
            k = b & full
            if isinstance(a, KB): return KB(a[0] & ~k, a[1] | k)
            return KB(0, k) if k else a
        if op == "xor" and isinstance(b, int) and b == wrap(-1, w): return None
        return None
    def zero(self, v, w=64):
        """1 known zero, 0 known non-zero, None"""
        if v is None: return None
        if v == NZ: return 0
        if isinstance(v, int): return 1 if v == 0 else 0
        if isinstance(v, KB):
            if v[1]: return 0
            return 1 if not (~v[0] & ((1 << w) - 1)) else None
        return 0
    def cmp(self, st, i, a, b):
        w = 64
        for o in i.ops:
            if o[0] == "c": w = o[2]
            elif o[0] == "v": w = width(st.f.inst[o[1]].ty) if st.f.inst[o[1]].ty != "ptr" else 64
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = uns(a, w), uns(b, w)
            return int({"eq": ua == ub, "ne": ua != ub, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
                        "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}[i.pred])
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y == 0 and i.pred in ("eq", "ne"):
                z = self.zero(x, w)
                if z is not None: return z if i.pred == "eq" else 1 - z
        if isinstance(a, KB) and isinstance(b, int) and i.pred in ("eq", "ne"):
            if (b & a[0]) or (a[1] & ~b & ((1 << w) - 1)): return 0 if i.pred == "eq" else 1
        if a is not None and a == b and not isinstance(a, (KB, str)) and i.pred in ("eq", "ne"): return int(i.pred == "eq")
        if isinstance(a, tuple) and isinstance(b, tuple) and i.pred in ("eq", "ne") and not isinstance(a, KB) and not isinstance(b, KB):
            if a[0] == b[0] == "p" and a[2:] == b[2:] == (0,) and a[1] in self.c.apart and b[1] in self.c.apart: return int((a[1] == b[1]) == (i.pred == "eq"))
            if a[0] == b[0] == "f": return int((a == b) == (i.pred == "eq"))
        return None
    # ---- learning
    def learn(self, st, op, v, truth_nz=None):
        """op == v (int) or, with truth_nz, op != 0"""
        if op[0] not in "va": return True
        vid = op[1] if op[0] == "v" else -1 - op[1]
        cur = st.env.get(vid)
        if truth_nz:
            z = self.zero(cur)
            if z == 1: return False
            if cur is None: self.setv(st, vid, NZ)
        else:
            if isinstance(cur, int) and cur != v: return False
            if cur == NZ and v == 0: return False
            if isinstance(cur, KB) and ((v & cur[0]) or (cur[1] & ~v & M64 and v >= 0)): return False
            if isinstance(cur, tuple) and not isinstance(cur, KB) and v == 0: return False
            self.setv(st, vid, v)
        if op[0] == "a": return True
        i = st.f.inst[vid]
        if i.op == "icmp":
            t = True if truth_nz else bool(v)
            return self.learn_cmp(st, i, t)
        if i.op in ("zext", "sext"):
            if truth_nz: return self.learn(st, i.ops[0], None, True)
            w = width(i.from_)
            return self.learn(st, i.ops[0], wrap(v, w) if w > 1 else int(bool(v)))
        if i.op == "xor" and i.ty == "i1" and i.ops[1][0] == "c":
            t = True if truth_nz else bool(v)
            return self.learn(st, i.ops[0], 0 if t else 1)
        if i.op == "and" and i.ops[1][0] == "c":
            src = i.ops[0]; k = i.ops[1][1] & M64
            z = (v == 0) if not truth_nz else False
            cur = self.val(st, src)
            if src[0] == "v" and (cur is None or isinstance(cur, KB)):
                Z, O = cur if cur is not None else (0, 0)
                if z:
                    if O & k: return False
                    self.setv(st, src[1], KB(Z | k, O)); self.org_store(st, src[1])
                elif bin(k & ~Z).count("1") == 1: self.setv(st, src[1], KB(Z, O | (k & ~Z))); self.org_store(st, src[1])
            return True
        self.org_store(st, vid)
        return True
    def org_store(self, st, vid):
        l = st.org.get(vid)
        if l is not None: st.mem[l] = st.env.get(vid)
    def setv(self, st, vid, v):
        if v is None: st.env.pop(vid, None)
        else: st.env[vid] = v
    def learn_cmp(self, st, i, t):
        p = i.pred if t else {"eq": "ne", "ne": "eq"}.get(i.pred)
        a, b = i.ops
        for x, y in ((a, b), (b, a)):
            n = self.val(st, y)
            if isinstance(n, int):
                if p == "eq": return self.learn(st, x, n)
                if p == "ne" and n == 0: return self.learn(st, x, None, True)
                if p == "ne":
                    return self.val(st, x) != n
        return True
    # ---- exploration
    def run(self, fname, args=(), mem=None, P=None):
        f = self.p.defined.get(fname)
        if f is None: raise AnalysisError("missing function " + fname)
        return self.fn(f, tuple(args), dict(mem or {}), P, ())
    def fn(self, f, args, mem, P, stack):
        key = (f.name, args, frozenset(mem.items()), P)
        if key in self.memo: return self.memo[key]
        if key in self.active or len(stack) > 40 or stack.count(f.name) > 2:
            m = {l: v for l, v in mem.items() if l not in self.writes[f.name]}
            return [(None, m, P)]
        self.active.add(key)
        st = St(); st.f = f; st.env = {-1 - k: v for k, v in enumerate(args) if v is not None}; st.mem = mem; st.org = {}; st.P = P
        st.stack = stack + (f.name,)
        seen = set(); work = [(0, 0, st)]; outs = {}
        while work:
            b, idx, st = work.pop()
            k = (b, idx, frozenset(st.env.items()), frozenset(st.mem.items()), st.P)
            if k in seen: continue
            seen.add(k); self.steps += 1
            if self.steps > self.MAX: raise AnalysisError("constant propagation does not converge in " + f.name)
            self.block(b, idx, st, work, outs)
        self.active.discard(key)
        r = list(outs.values())
        self.memo[key] = r
        return r
    def cp(self, st):
        n = St(); n.f = st.f; n.env = dict(st.env); n.mem = dict(st.mem); n.org = dict(st.org); n.P = st.P; n.stack = st.stack
        return n
    def block(self, b, idx, st, work, outs):
        B = st.f.blocks[b]; insts = B.insts
        while idx < len(insts):
            i = insts[idx]; op = i.op
            if op == "phi": idx += 1; continue
            if self.c.inst(self, st, i) is False: return
            if op == "call":
                for s in self.call(st, i): work.append((b, idx + 1, s))
                return
            if op == "load":
                l = self.loc(st, i.ops[0]); v = self.load(st, l, i.ty)
                if l is None and v is None: v = self.c.unknown(self, st, i)
                self.setv(st, i.id, v); st.org.pop(i.id, None)
                if l is not None: st.org[i.id] = l
            elif op == "store":
                l = self.loc(st, i.ops[1]); v = self.val(st, i.ops[0])
                self.c.store(self, st, i, l, v)
                if l is not None:
                    if v is None: st.mem.pop(l, None)
                    else: st.mem[l] = v
                    for k in [k for k, x in st.org.items() if x == l]: del st.org[k]
                    if l[0] == "ed_state?": pass
            elif op == "icmp": self.setv(st, i.id, self.cmp(st, i, self.val(st, i.ops[0]), self.val(st, i.ops[1])))
            elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                v = self.val(st, i.ops[0])
                if isinstance(v, int):
                    w0, w1 = width(i.from_ or i.ty), width(i.ty)
                    if op == "zext": v = wrap(uns(v, w0), w1) if w0 > 1 else v
                    elif op == "sext": v = -1 if w0 == 1 and v else v
                    elif op == "trunc": v = wrap(v, w1) if w1 > 1 else v & 1
                elif isinstance(v, KB) and op == "trunc": v = KB(v[0], v[1] & ((1 << width(i.ty)) - 1))
                elif isinstance(v, KB) and op == "zext": v = KB(v[0] | ~((1 << width(i.from_)) - 1), v[1])
                elif v == NZ and op == "trunc": v = None
                self.setv(st, i.id, v)
            elif op == "select":
                z = self.zero(self.val(st, i.ops[0]), 1)
                a, c = self.val(st, i.ops[1]), self.val(st, i.ops[2])
                if z == 0: v = a
                elif z == 1: v = c
                elif a == c: v = a
                elif self.c.forksel and i.ty[:1] == "i":
                    for truth, x in ((1, a), (0, c)):
                        s = self.cp(st)
                        if self.learn(s, i.ops[0], truth):
                            self.setv(s, i.id, x); work.append((b, idx + 1, s))
                    return
                elif self.zero(a) == 0 and self.zero(c) == 0: v = NZ
                else: v = None
                self.setv(st, i.id, v)
            elif op == "getelementptr":
                self.setv(st, i.id, self.gep(st, i.ops[0], i.path))
            elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
                self.setv(st, i.id, self.bin(i, self.val(st, i.ops[0]), self.val(st, i.ops[1])))
            elif op == "ret":
                v = self.val(st, i.ops[0]) if i.ops else None
                mem = {l: x for l, x in st.mem.items() if l[0] != "l" or l[1] != st.f.name}
                outs[(v, frozenset(mem.items()), st.P)] = (v, mem, st.P)
                return
            elif op == "unreachable": return
            elif op == "br":
                if not i.ops: self.goto(st, b, i.t, work); return
                z = self.zero(self.val(st, i.ops[0]), 1)
                for truth, t in ((1, i.t), (0, i.f)):
                    if z is not None and (1 - z) != truth: continue
                    s = self.cp(st)
                    if z is None:
                        if not self.learn(s, i.ops[0], truth): continue
                    self.goto(s, b, t, work)
                return
            elif op == "switch":
                v = self.val(st, i.ops[0])
                if isinstance(v, int):
                    t = i.default
                    for (c, d) in i.cases:
                        if c == v: t = d; break
                    self.goto(st, b, t, work); return
                for (c, d) in i.cases:
                    s = self.cp(st)
                    if self.learn(s, i.ops[0], c): self.goto(s, b, d, work)
                self.goto(st, b, i.default, work); return
            elif op == "ptrtoint" and self.c.ptrs: self.setv(st, i.id, self.val(st, i.ops[0]))
            else:
                st.env.pop(i.id, None)
            idx += 1
    def goto(self, st, b, t, work):
        T = st.f.blocks[t]; nv = []
        for q in T.insts:
            if q.op != "phi": break
            src = [o for o, pb in q.ops if pb == b]
            nv.append((q.id, self.val(st, src[0]) if src else None))
        for vid, v in nv: self.setv(st, vid, v); st.org.pop(vid, None)
        # values defined in other blocks stay; drop those not live to converge
        live = self.live(st.f)[t]
        st.env = {k: v for k, v in st.env.items() if k < 0 or k in live}
        st.org = {k: v for k, v in st.org.items() if k in live}
        work.append((t, 0, st))
    def live(self, f):
        c = getattr(self, "_live", None)
        if c is None: c = self._live = {}
        if f.name not in c:
            from kernel import Prep
            c[f.name] = Prep(f).livein
        return c[f.name]
    def call(self, st, i):
        name = i.callee
        args = [self.val(st, o) for o in i.ops]
        if self.c.fieldargs:
            for k, o in enumerate(i.ops):
                if args[k] is None and o[0] in ("v", "gep"):
                    l = field_of(o, st.f)
                    if l in self.c.fieldargs and (o[0] == "gep" or st.f.inst[o[1]].op == "getelementptr"): args[k] = ("p", ("fld",) + tuple(l), 0)
        names = None
        if name is None and i.calleeop:
            v = self.val(st, i.calleeop)
            if isinstance(v, tuple) and v and v[0] == "f": names = (v[1],)
            else: names = self.p.targets(i) or (None,)
        else: names = (name,)
        res = []
        for n in names:
            s0 = self.cp(st)
            r = self.c.call(self, s0, i, n, args)
            if r is not None:
                for ret, P, delta in r:
                    s = self.cp(s0); s.P = P
                    for l, v in (delta or {}).items():
                        if v is None: s.mem.pop(l, None)
                        else: s.mem[l] = v
                    s.org.clear() if delta else None
                    self.setv(s, i.id, ret); res.append(s)
                continue
            f = self.p.defined.get(n) if n else None
            if f is None:
                from kernel import NORETURN
                if n in NORETURN or (n and n in self.p.funcs and self.p.funcs[n].noreturn):
                    self.c.end(self, s0, i, n); continue
                if n in CT and isinstance(args[0], int) and -1 <= args[0] < 128:
                    self.setv(s0, i.id, NZ if args[0] >= 0 and CT[n](args[0]) else 0)
                elif n and n.startswith("llvm."): pass
                else:
                    s0.env.pop(i.id, None); s0.org.pop(i.id, None)
                    for o in i.ops:
                        l = self.loc(s0, o) if o[0] in ("v", "g", "gep") else None
                        if l is not None and l[0] in ("l",): s0.mem.pop(l, None)
                res.append(s0)
            elif not self.c.inline(n):
                if n in noreturn(self.p): self.c.end(self, s0, i, n); continue
                for l in self.writes[n]: s0.mem.pop(l, None)
                s0.org.clear()
                for o in i.ops:
                    l = self.loc(s0, o) if o[0] in ("v",) else None
                    if l is not None and l[0] == "l": s0.mem.pop(l, None)
                s0.env.pop(i.id, None); res.append(s0)
            else:
                loc = {l: v for l, v in s0.mem.items() if l[0] == "l" and l[1] == st.f.name}
                mem = {l: v for l, v in s0.mem.items() if l not in loc}
                for ret, m2, P in self.fn(f, tuple(a if not (isinstance(a, tuple) and a and a[0] == "p" and isinstance(a[1], tuple) and a[1][0] == "l") else None for a in args[:len(f.args)]), mem, s0.P, s0.stack):
                    s = self.cp(s0); s.P = P; s.mem = dict(m2); s.mem.update(loc)
                    for o in i.ops:
                        if o[0] == "v" and s.f.inst[o[1]].op == "alloca": s.mem.pop(("l", s.f.name, o[1]), None)
                    s.org.clear(); self.setv(s, i.id, ret); res.append(s)
        return res
