"""Path-sensitive interprocedural typestate engine (ESP / tabulation style).

A client supplies a finite property state P, transferred at instructions and
calls.  The engine explores the control-flow graphs of the functions below the
client's roots, keeping along each path
  * P,
  * masks (sets of integer atoms) for tracked singleton locations ("facts"),
  * masks for live SSA values, refined by the branches taken,
and tabulates function summaries (entry state -> exit states, return mask) to a
fixpoint, so recursion and loops are covered without bounds.  Calls into code
without relevant operations are replaced by a sound over-approximation of their
return value.  Nothing is executed and no solver is involved."""
from collections import deque
from ir import field_of, AnalysisError

class Split:
    """A case distinction made by a client: property state plus refined facts."""
    def __init__(s, P, facts): s.P = P; s.facts = facts

# ---- integer atoms ---------------------------------------------------------
LO, HI = -8, 17
NB = HI - LO + 3                      # NEG, LO..HI, POS
TOP = (1 << NB) - 1
NEG = 1
POS = 1 << (NB - 1)
def atom(n):
    if n < LO: return NEG
    if n > HI: return POS
    return 1 << (n - LO + 1)
ZERO = atom(0)
NONNEG = 0
for _n in range(0, HI + 1): NONNEG |= atom(_n)
NONNEG |= POS
LT0 = TOP & ~NONNEG
NONZ = TOP & ~ZERO
BOOL = atom(0) | atom(1)
PTR = ZERO | POS
SMALL = atom(1) | atom(2) | atom(3) | atom(4)

def mask_lt(n):
    """atoms possibly < n"""
    m = NEG
    for k in range(LO, HI + 1):
        if k < n: m |= atom(k)
    if n > HI + 1: m |= POS
    return m
def mask_gt(n):
    m = POS
    for k in range(LO, HI + 1):
        if k > n: m |= atom(k)
    if n < LO - 1: m |= NEG
    return m
def mask_eq(n): return atom(n)
def mask_ne(n):
    return TOP & ~atom(n) if LO <= n <= HI else TOP
def cmp_mask(pred, n, ty):
    """atoms of x for which `x pred n` may be true"""
    if pred == "eq": return mask_eq(n)
    if pred == "ne": return mask_ne(n)
    if pred[0] == "u":
        if n < 0: return TOP
        if pred == "ult": return mask_lt(n) & NONNEG if True else TOP
        if pred == "ule": return mask_lt(n + 1) & NONNEG
        if pred == "ugt": return (mask_gt(n)) | LT0
        if pred == "uge": return (mask_gt(n - 1)) | LT0
    if pred == "slt": return mask_lt(n)
    if pred == "sle": return mask_lt(n + 1)
    if pred == "sgt": return mask_gt(n)
    if pred == "sge": return mask_gt(n - 1)
    return TOP
NOTP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
        "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

def show_mask(m):
    if m == TOP: return "any"
    r = []
    if m & NEG: r.append("<%d" % LO)
    for k in range(LO, HI + 1):
        if m & atom(k): r.append(str(k))
    if m & POS: r.append(">%d" % HI)
    return "{" + ",".join(r) + "}"

# ---- static per-function preparation ----------------------------------------
class Prep:
    def __init__(self, f):
        self.f = f
        use = {}
        n = len(f.blocks)
        gen = [set() for _ in range(n)]; kill = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]     # uses on the edge out of a pred block
        for b in f.blocks:
            for i in b.insts:
                if i.op == "phi":
                    for (o, p) in i.ops:
                        if o[0] == "v": phiuse[p].add(o[1])
                    kill[b.id].add(i.id)
                    continue
                for o in ops_of(i):
                    if o not in kill[b.id]: gen[b.id].add(o)
                kill[b.id].add(i.id)
        livein = [set() for _ in range(n)]; liveout = [set() for _ in range(n)]
        phis = [{i.id for i in b.insts if i.op == "phi"} for b in f.blocks]
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                lo = set(phiuse[b.id])
                for s in b.succ: lo |= livein[s] - phis[s]
                li = gen[b.id] | (lo - kill[b.id])
                # phi results are live in
                for i in b.insts:
                    if i.op == "phi": li.add(i.id)
                    else: break
                li2 = set(li)
                if li2 != livein[b.id] or lo != liveout[b.id]:
                    livein[b.id] = li2; liveout[b.id] = lo; ch = True
        # phis themselves must not count as live-out of preds (handled at edge)
        self.livein = [frozenset(x) for x in livein]
        self.liveout = liveout
        self.after = {}
        for b in f.blocks:
            live = set(liveout[b.id])
            for i in reversed(b.insts):
                if i.op == "call": self.after[i.id] = frozenset(live | {i.id})
                live.discard(i.id)
                if i.op != "phi":
                    for o in ops_of(i): live.add(o)

def ops_of(i):
    out = []
    def w(o):
        if not o: return
        if o[0] == "v": out.append(o[1])
        elif o[0] == "gep": w(o[1]); wp(o[2])
    def wp(p):
        for q in p:
            if q[0] == "idx": w(q[1])
            elif q[0] == "arr": w(q[1])
    for o in i.ops: w(o)
    wp(i.path)
    if i.calleeop: w(i.calleeop)
    return out

class Client:
    """Override what is needed."""
    name = "null"
    tracked = frozenset()      # (struct, field) / ('g', name) locations
    fork = False
    bits = None                # of the bit sets, follow only these bits
    flags = frozenset()        # subset of tracked that are bit sets
    cap = 48                   # distinct states per (context, block, P) before joining
    posargs = frozenset()      # functions of which arguments known not to be null are told apart
    allocas = True             # track scalar address-taken locals
    def direct(self, f): return True                 # function has relevant operations itself
    def entry(self, K, P, f): return P               # on entering f (hook)
    def inst(self, K, st, i): return None            # non-call: None (unchanged) | list of P
    def call(self, K, st, i, name): return None      # None: default | list of (P, retmask[, facts])
    def leave(self, K, P, f, retmask): return P      # on returning from f
    def edge(self, K, st, br, taken): return None    # branch hook: None | new P | False: impossible
    def ret(self, K, st, i): pass                    # at a return instruction
    moves = False
    def move(self, K, st, b, tgt): return None       # hook on passing from block b to tgt, when moves is set: None | new P
    def at_exit(self, K, st, i): pass                # path ends in a noreturn call
    def extern_ret(self, K, i, name): return None
    def cmpmask(self, K, st, i): return None         # outcomes of a comparison the client knows to be the only ones
    def swcase(self, K, st, i, v): return True       # False: this case of a switch cannot be taken
    def swedge(self, K, st, i, vals): return None    # switch hook: values of the case taken, None = default; None | new P
    def loadmask(self, K, st, i): return None        # value of an untracked load, where the client knows more

class State:
    __slots__ = ("P", "M", "E", "A", "C", "ctx", "edge")
    # M: facts dict, E: value masks, A: loc -> vid, C: copies vid->vid
    def fz(self):
        return (self.P, tuple(sorted(self.M.items(), key=repr)), tuple(sorted(self.E.items())),
                tuple(sorted(self.A.items(), key=repr)), tuple(sorted(self.C.items())))

class Edge:
    __slots__ = ("ctx", "block", "idx", "key", "parent", "via", "line")
    def __init__(self, ctx, block, idx, key, parent, via=None, line=0):
        self.ctx = ctx; self.block = block; self.idx = idx; self.key = key; self.parent = parent; self.via = via; self.line = line

class Ctx:
    __slots__ = ("fn", "key", "seen", "exits", "callers", "counts", "root", "tags", "args", "entry_edge", "acc")
    def __init__(self, fn, key):
        self.fn = fn; self.key = key; self.seen = set(); self.exits = {}; self.callers = []; self.callers_set = set() if False else None
        self.counts = {}; self.root = None; self.acc = {}

# give Ctx room for a set of callers
class Ctx(object):
    def __init__(self, fn, key):
        self.fn = fn; self.key = key; self.seen = set(); self.exits = {}
        self.callers = []; self.callerset = set(); self.counts = {}; self.acc = {}
        self.root = None; self.tags = (); self.args = (); self.first = None

_RET_CACHE = {}

class Kernel:
    MAXEDGES = 3000000
    def __init__(self, prog, client, retmasks=None):
        self.prog = prog; self.c = client
        self.preps = {}; self.ctxs = {}; self.work = deque()
        self.reports = {}; self.nedges = 0; self.sites = set(); self.fnseen = set()
        self.retmasks = retmasks
        self.stats = {}
        self._relevance()
        self._reads()

    # -- relevance and effect closure ---------------------------------------
    def _relevance(self):
        p = self.prog
        direct = {n for n, f in p.defined.items() if self.c.direct(f)}
        rel = set(direct); st = list(direct)
        while st:
            n = st.pop()
            for c in p.callers.get(n, ()):
                if c not in rel: rel.add(c); st.append(c)
        self.relevant = rel

    def _reads(self):
        """tracked locations read / written, transitively"""
        p = self.prog
        r = {n: set() for n in p.defined}; w = {n: set() for n in p.defined}
        if self.c.tracked:
            for n, f in p.defined.items():
                for i in f.all():
                    if i.op == "load":
                        l = self.loc(i.ops[0], f, None)
                        if l: r[n] |= self.may(l)
                    elif i.op == "store":
                        l = self.loc(i.ops[1], f, None)
                        if l: w[n] |= self.may(l)
            ch = True
            while ch:
                ch = False
                for n in p.defined:
                    for c in p.callees[n]:
                        if c in r:
                            if not r[c] <= r[n]: r[n] |= r[c]; ch = True
                            if not w[c] <= w[n]: w[n] |= w[c]; ch = True
        self.reads, self.writes = r, w

    def may(self, l):
        """tracked locations a symbolic location may denote"""
        if l in self.c.tracked: return {l}
        if isinstance(l, tuple) and len(l) == 2 and isinstance(l[0], str) and l[0].startswith("ed_state"):
            return {t for t in self.c.tracked if t[0].startswith("ed_state") and t[1] == l[1]}
        return set()

    def prep(self, f):
        if f.name not in self.preps: self.preps[f.name] = Prep(f)
        return self.preps[f.name]

    # -- locations -------------------------------------------------------------
    def loc(self, op, f, ctx):
        """symbolic location of a pointer operand"""
        if op[0] == "g": return ("g", op[1])
        if op[0] == "v":
            i = f.inst[op[1]]
            if i.op == "alloca": return ("l", f.name, i.id)
        r = field_of(op, f)
        if r and r[0] == "ed_state":
            k = self.state_arg(op, f)
            if k is not None:
                if ctx is not None and k < len(ctx.tags) and ctx.tags[k] is not None:
                    return ("ed_state" if ctx.tags[k] == 0 else "ed_state[%d]" % ctx.tags[k], r[1])
                return ("ed_state?", r[1])
        return r

    def state_arg(self, op, f):
        """argument number if an ed_state field pointer is based on an argument"""
        for _ in range(6):
            if op[0] == "a": return op[1]
            if op[0] == "gep": op = op[1]; continue
            if op[0] == "v":
                i = f.inst[op[1]]
                if i.op == "getelementptr":
                    op = i.ops[0]; continue
            return None
        return None

    def state_tag(self, op, f, ctx):
        """0/1 if the operand is a pointer to ed->state[k]"""
        for _ in range(4):
            if op[0] == "a":
                return ctx.tags[op[1]] if ctx is not None and op[1] < len(ctx.tags) else None
            if op[0] == "v":
                i = f.inst[op[1]]
                if i.op == "getelementptr" and i.sty == "struct ed_state" and len(i.path) <= 1:
                    if i.path and i.path[0][0] == "idx":
                        k = i.path[0][1]
                        return k[1] if k[0] == "c" else None
                    op = i.ops[0]; continue
                if i.op == "load":
                    fl = field_of(i.ops[0], f)
                    return 0 if fl == ("ed_buffer", "state") else None
            return None
        return None

    # -- values ------------------------------------------------------------------
    def val(self, st, op):
        k = op[0]
        if k == "c": return atom(op[1]) if op[2] != 1 else (atom(1) if op[1] else ZERO)
        if k == "null": return ZERO
        if k in ("f", "g", "s", "gep"): return POS
        if k == "v": return st.E.get(op[1], TOP)
        if k == "a": return st.E.get(-1 - op[1], TOP)
        return TOP

    def setv(self, st, vid, m):
        if m == TOP: st.E.pop(vid, None)
        else: st.E[vid] = m

    def define(self, st, i):
        """i is (re)computed: forget relations that mention its old value"""
        v = i.id
        st.E.pop(v, None)
        if st.C:
            for k in [k for k, x in st.C.items() if x == v or k == v]: del st.C[k]
        if st.A:
            for k in [k for k, x in st.A.items() if x == v]: del st.A[k]

    def clobber(self, st, l):
        st.M.pop(l, None); st.A.pop(l, None)

    # flags are kept as ('fl', Z, N): Z bits known zero, N tuple of masks known non-zero
    def flag_query(self, fl, m):
        if fl is None: return BOOL2
        Z, N = fl
        if (m & ~Z) == 0: return ZERO
        for n in N:
            if (n & ~Z & ~m) == 0: return NONZ
        return TOP
    def flag_learn(self, fl, m, nz):
        Z, N = fl if fl else (0, ())
        if nz: N = tuple(sorted(set(N) | {m}))
        else:
            Z |= m
        return (Z, N)

    def refine(self, st, op, m):
        """assume op's value is in mask m; False if impossible"""
        if op[0] != "v" and op[0] != "a":
            return bool(self.val(st, op) & m)
        vid = op[1] if op[0] == "v" else -1 - op[1]
        cur = st.E.get(vid, TOP)
        new = cur & m
        if not new: return False
        if new != cur: self.setv(st, vid, new)
        # locations currently holding this value
        for l, x in list(st.A.items()):
            if x == vid and l in st.M or x == vid:
                if l in self.c.flags: continue
                c0 = st.M.get(l, TOP) & new
                if not c0: return False
                if c0 != TOP: st.M[l] = c0
        if op[0] == "a": return True
        if vid in st.C:
            s = st.C[vid]
            if not self.refine(st, ("v", s), m): return False
        i = st.ctx.fn.inst.get(vid)
        if i is None: return True
        o = i.op
        if o == "icmp":
            if new == ZERO or new == NONZ or new == atom(1) or not (new & ZERO):
                t = not (new & ZERO)
                return self.refine_cmp(st, i, t)
        elif o in ("zext", "sext"):
            mm = new
            if i.ops[0][0] == "v":
                if i.from_ == "i1":
                    mm = 0
                    if new & ZERO: mm |= ZERO
                    if new & NONZ: mm |= atom(1)
                return self.refine(st, i.ops[0], mm)
        elif o == "xor" and i.ty == "i1" and i.ops[1][0] == "c":
            mm = 0
            if new & ZERO: mm |= atom(1)
            if new & NONZ: mm |= ZERO
            return self.refine(st, i.ops[0], mm)
        elif o == "and" and i.ops[1][0] == "c":
            k = i.ops[1][1]
            l = self.flagloc(st, i.ops[0])
            if l is not None:
                nz = None
                if not (new & ZERO): nz = True
                elif not (new & NONZ): nz = False
                if nz is not None and (self.c.bits is None or not (k & ~self.c.bits) or not nz and k & self.c.bits):
                    if not nz and self.c.bits is not None: k &= self.c.bits
                    q = self.flag_query(st.M.get(l), k)
                    if nz and not (q & NONZ): return False
                    if not nz and not (q & ZERO): return False
                    st.M[l] = self.flag_learn(st.M.get(l), k, nz)
        elif o == "sub" and i.ops[0][0] == "c" and i.ops[0][1] == 0:
            return self.refine(st, i.ops[1], neg_mask(new))
        return True

    def flagloc(self, st, op):
        if op[0] != "v": return None
        for l, x in st.A.items():
            if x == op[1] and l in self.c.flags: return l
        return None

    def refine_cmp(self, st, i, truth):
        a, b = i.ops[0], i.ops[1]
        pred = i.pred if truth else NOTP[i.pred]
        cb = const_of(b); ca = const_of(a)
        if cb is not None:
            return self.refine(st, a, cmp_mask(pred, cb, i.ty))
        if ca is not None:
            return self.refine(st, b, cmp_mask(SWAP[pred], ca, i.ty))
        # singletons through masks
        va, vb = self.val(st, a), self.val(st, b)
        n = single(vb)
        if n is not None:
            if not self.refine(st, a, cmp_mask(pred, n, i.ty)): return False
        n = single(va)
        if n is not None:
            if not self.refine(st, b, cmp_mask(SWAP[pred], n, i.ty)): return False
        if pred == "eq":
            if not (va & vb): return False
            if not self.refine(st, a, vb): return False
            return self.refine(st, b, va)
        return True

    def eval_cmp(self, st, i):
        """mask over {0,1}"""
        r = 0
        for truth in (True, False):
            pred = i.pred if truth else NOTP[i.pred]
            a, b = i.ops[0], i.ops[1]
            cb, ca = const_of(b), const_of(a)
            va, vb = self.val(st, a), self.val(st, b)
            ok = True
            if cb is None: cb = single(vb)
            if ca is None: ca = single(va)
            if cb is not None: ok = bool(va & cmp_mask(pred, cb, i.ty))
            if ok and ca is not None: ok = bool(vb & cmp_mask(SWAP[pred], ca, i.ty))
            if ok and pred == "eq": ok = bool(va & vb)
            if ok: r |= atom(1) if truth else ZERO
        return r

    # -- driver --------------------------------------------------------------------
    def root(self, fname, P, facts=None, args=None, label=None):
        f = self.prog.defined.get(fname)
        if f is None: raise AnalysisError("missing function " + fname)
        return self.get_ctx(f, P, dict(facts or {}), tuple(args or ()), (), label or fname)

    def get_ctx(self, f, P, facts, args, tags, label=None, parent=None):
        key = (f.name, P, tuple(sorted(facts.items(), key=repr)), args, tags)
        x = self.ctxs.get(key)
        if x is None:
            x = Ctx(f, key); self.ctxs[key] = x
            x.root = label; x.tags = tags; x.args = args; x.first = parent
            self.fnseen.add(f.name)
            st = State(); st.P = P; st.M = dict(facts); st.E = {}; st.A = {}; st.C = {}; st.ctx = x
            for k, m in enumerate(args):
                if m != TOP: st.E[-1 - k] = m
            st.P = self.c.entry(self, P, f)
            self.push(x, 0, 0, st, None, parent)
        if label and not x.root: x.root = label
        return x

    def push(self, ctx, block, idx, st, parent, via=None, line=0):
        k = (block, idx) + st.fz()
        if k in ctx.seen: return
        ck = (block, idx, st.P)
        n = ctx.counts.get(ck, 0)
        if n >= self.c.cap:
            # join with the accumulated state
            acc = ctx.acc.get(ck)
            if acc is None: M, E = dict(st.M), dict(st.E)
            else:
                M = {l: join_fact(v, acc[0][l], l in self.c.flags) for l, v in st.M.items() if l in acc[0]}
                M = {l: v for l, v in M.items() if v is not None and v != TOP}
                E = {v: m | acc[1][v] for v, m in st.E.items() if v in acc[1] and (m | acc[1][v]) != TOP}
                if M == acc[0] and E == acc[1]: return
            ctx.acc[ck] = (dict(M), dict(E))
            st.M, st.E, st.A, st.C = M, E, {}, {}
            self.stats["joined"] = self.stats.get("joined", 0) + 1
            k = (block, idx) + st.fz()
            if k in ctx.seen: return
        ctx.counts[ck] = n + 1
        ctx.seen.add(k)
        e = Edge(ctx, block, idx, k, parent, via, line)
        self.nedges += 1
        if self.nedges > self.MAXEDGES: raise AnalysisError("state limit exceeded in " + ctx.fn.name)
        self.work.append((e, st))

    def run(self):
        while self.work:
            e, st = self.work.pop()
            st.edge = e
            self.step(e, st)

    def copy(self, st):
        n = State(); n.P = st.P; n.M = dict(st.M); n.E = dict(st.E); n.A = dict(st.A); n.C = dict(st.C); n.ctx = st.ctx; n.edge = st.edge
        return n

    def step(self, e, st):
        ctx = e.ctx; f = ctx.fn; b = f.blocks[e.block]
        insts = b.insts; n = len(insts); idx = e.idx
        while idx < n:
            i = insts[idx]; op = i.op
            if op == "phi": idx += 1; continue
            if op == "call":
                self.do_call(e, st, i, idx)
                return
            r = self.c.inst(self, st, i)
            if r is not None:
                if len(r) == 0: return
                if len(r) > 1:
                    for p in r[1:]:
                        s2 = self.copy(st); self.setp(s2, p)
                        self.exec1(s2, i, ctx)
                        if op in ("br", "switch", "ret", "unreachable"): self.term(e, s2, i, ctx, b)
                        else: self.push(ctx, b.id, idx + 1, s2, e, None, i.line)
                self.setp(st, r[0])
            if op in ("br", "switch", "ret", "unreachable"):
                self.term(e, st, i, ctx, b); return
            self.exec1(st, i, ctx)
            if self.c.fork and i.ty == "i1" and i.id in self.chosen(f):
                c = st.E.get(i.id, TOP)
                if c & ZERO and c & NONZ:           # follow both values of a condition that is kept in a variable
                    for m in (ZERO, atom(1)):
                        s2 = self.copy(st)
                        if self.refine(s2, ("v", i.id), m): self.push(ctx, b.id, idx + 1, s2, e, None, i.line)
                    return
            idx += 1

    def chosen(self, f):
        r = getattr(f, "_chosen", None)
        if r is None:
            r = f._chosen = {o[0][1] if isinstance(o[0], tuple) else o[1] for i in f.all() if i.op in ("phi", "select") for o in (i.ops if i.op == "phi" else i.ops[:1]) if (o[0][0] if isinstance(o[0], tuple) else o[0]) == "v"}
        return r

    def setp(self, st, p):
        if isinstance(p, Split):
            for l, m in p.facts.items(): st.M[l] = m; st.A.pop(l, None)
            p = p.P
        st.P = p

    def exec1(self, st, i, ctx):
        op = i.op
        if op == "load":
            self.define(st, i)
            l = self.loc(i.ops[0], ctx.fn, ctx)
            if l is not None:
                if l in self.c.flags:
                    st.A[l] = i.id
                elif l in self.c.tracked or (l[0] == "l" and self.c.allocas):
                    m = st.M.get(l, TOP)
                    if i.ty == "ptr": m &= PTR
                    self.setv(st, i.id, m)
                    old = st.A.get(l)
                    if old is not None and old != i.id: st.C[i.id] = old
                    st.A[l] = i.id
                    return
            m = self.c.loadmask(self, st, i)
            if m is not None: self.setv(st, i.id, m)
            elif i.ty == "ptr": self.setv(st, i.id, PTR)
        elif op == "store":
            l = self.loc(i.ops[1], ctx.fn, ctx)
            if l is None: return
            if l[0] == "ed_state?":
                for t in self.may(l): self.clobber(st, t)
                return
            if l in self.c.flags:
                self.flag_store(st, l, i.ops[0], ctx)
            elif l in self.c.tracked or (l[0] == "l" and self.c.allocas):
                m = self.val(st, i.ops[0])
                if m == TOP: st.M.pop(l, None)
                else: st.M[l] = m
                if i.ops[0][0] == "v": st.A[l] = i.ops[0][1]
                elif i.ops[0][0] == "a": st.A[l] = -1 - i.ops[0][1]
                else: st.A.pop(l, None)
        elif op == "icmp":
            self.define(st, i)
            m = self.eval_cmp(st, i); h = self.c.cmpmask(self, st, i)
            self.setv(st, i.id, m if h is None else m & h or m)
        elif op in ("zext", "sext", "trunc", "freeze"):
            self.define(st, i)
            m = self.val(st, i.ops[0])
            if op == "zext" and i.from_ == "i1":
                m = (m & ZERO) | (atom(1) if m & NONZ else 0)
            elif op == "sext" and i.from_ == "i1":
                m = (m & ZERO) | (atom(-1) if m & NONZ else 0)
            elif op == "zext":
                if m & LT0: m = TOP & NONNEG
                else: m &= NONNEG
            elif op == "trunc":
                if i.ty == "i1": m = BOOL if m & (TOP & ~BOOL) else m
                elif m & (POS | NEG): m = TOP
            self.setv(st, i.id, m)
        elif op == "select":
            self.define(st, i)
            c = self.val(st, i.ops[0]); m = 0
            if c & NONZ: m |= self.val(st, i.ops[1])
            if c & ZERO: m |= self.val(st, i.ops[2])
            self.setv(st, i.id, m)
        elif op == "and":
            self.define(st, i)
            if i.ops[1][0] == "c":
                l = self.flagloc(st, i.ops[0])
                if l is not None:
                    q = self.flag_query(st.M.get(l), i.ops[1][1])
                    self.setv(st, i.id, q)
                else:
                    va = self.val(st, i.ops[0])
                    s = single(va)
                    if s is not None: self.setv(st, i.id, atom(s & i.ops[1][1]))
                    elif va == ZERO: self.setv(st, i.id, ZERO)
                    elif not va & LT0 or i.ops[1][1] >= 0 and i.ops[1][2] > 1: self.setv(st, i.id, NONNEG)
        elif op == "or":
            self.define(st, i)
            va, vb = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            s, t = single(va), single(vb)
            if s is not None and t is not None: self.setv(st, i.id, atom(s | t))
            else:
                m = TOP
                if not (va & ZERO) or not (vb & ZERO): m = NONZ
                if not ((va | vb) & LT0): m &= NONNEG
                self.setv(st, i.id, m)
        elif op == "xor":
            self.define(st, i)
            if i.ty == "i1" and i.ops[1][0] == "c" and i.ops[1][1]:
                m = self.val(st, i.ops[0])
                self.setv(st, i.id, (atom(1) if m & ZERO else 0) | (ZERO if m & NONZ else 0))
        elif op == "sub":
            self.define(st, i)
            if i.ops[0][0] == "c" and i.ops[0][1] == 0:
                self.setv(st, i.id, neg_mask(self.val(st, i.ops[1])))
        elif op == "add":
            va = self.val(st, i.ops[0])
            self.define(st, i)
            if i.ops[1][0] == "c" and 0 < i.ops[1][1] < 256 and i.ty in ("i32", "i64") and not va & LT0: self.setv(st, i.id, NONNEG & ~ZERO)    # counters do not overflow
            elif i.ops[1][0] == "c" and i.ops[1][1] == -1 and i.ty in ("i32", "i64") and va and not va & ~SMALL: self.setv(st, i.id, va >> 1)
        elif op == "getelementptr":
            self.define(st, i)
            self.setv(st, i.id, POS)
        elif op in ("alloca",):
            self.setv(st, i.id, POS)
        else:
            self.define(st, i)
            if i.ty == "ptr": self.setv(st, i.id, PTR)

    def flag_store(self, st, l, op, ctx):
        old = st.M.get(l)
        new = None
        if op[0] == "c":
            k = op[1]
            new = (~k & 0xffffffffffffffff, tuple(1 << b for b in range(32) if k >> b & 1))
        elif op[0] == "v":
            d = ctx.fn.inst[op[1]]
            if d.op in ("or", "and", "xor") and d.ops[1][0] == "c" and self.flagloc(st, d.ops[0]) == l:
                k = d.ops[1][1] & 0xffffffffffffffff
                Z, N = old if old else (0, ())
                if d.op == "or":
                    Z &= ~k; N = tuple(sorted(set(N) | {1 << b for b in range(64) if k >> b & 1}))
                elif d.op == "xor":
                    Z &= ~k; N = tuple(n for n in N if not n & k)
                else:
                    Z |= ~k & 0xffffffffffffffff
                    N = tuple(n for n in N if not (n & ~k & 0xffffffffffffffff))
                new = (Z, N)
        st.A.pop(l, None)
        if new is not None and self.c.bits is not None:
            new = (new[0] & self.c.bits, tuple(n for n in new[1] if not (n & ~self.c.bits)))
            if new == (0, ()): new = None
        if new is None: st.M.pop(l, None)
        else: st.M[l] = new

    # -- terminators -----------------------------------------------------------
    def term(self, e, st, i, ctx, b):
        op = i.op
        if op == "ret":
            m = self.val(st, i.ops[0]) if i.ops else TOP
            self.c.ret(self, st, i)
            P = self.c.leave(self, st.P, ctx.fn, m)
            if P is None: return
            facts = {l: v for l, v in st.M.items() if l[0] != "l" or l[1] != ctx.fn.name}
            self.add_exit(ctx, (P, tuple(sorted(facts.items(), key=repr)), m), e, i)
        elif op == "br":
            if not i.ops:
                self.goto(e, st, b, i.t, i)
            else:
                for truth, tgt in ((True, i.t), (False, i.f)):
                    s2 = self.copy(st)
                    if self.refine(s2, i.ops[0], NONZ if truth else ZERO):
                        p = self.c.edge(self, s2, i, truth)
                        if p is False: continue
                        if p is not None: s2.P = p
                        self.goto(e, s2, b, tgt, i)
        elif op == "switch":
            rest = TOP
            groups = {}
            for (v, t) in i.cases: groups.setdefault(t, []).append(v)
            for t, vs in groups.items():
                m = 0
                vs = [v for v in vs if self.c.swcase(self, st, i, v)]
                if not vs: continue
                for v in vs:
                    m |= atom(v)
                    if LO <= v <= HI: rest &= ~atom(v)
                s2 = self.copy(st)
                if self.refine(s2, i.ops[0], m):
                    p = self.c.swedge(self, s2, i, vs)
                    if p is not None: s2.P = p
                    self.goto(e, s2, b, t, i)
            s2 = self.copy(st)
            if self.refine(s2, i.ops[0], rest):
                p = self.c.swedge(self, s2, i, None)
                if p is not None: s2.P = p
                self.goto(e, s2, b, i.default, i)

    def cond(self, st, br, taken):
        """the comparison a branch depends on, through copies and negations, and its outcome; (None, None) if there is none"""
        o = br.ops[0]; f = br.func; seen = set()
        while o[0] == "v" and o[1] not in seen:
            seen.add(o[1]); i = f.inst[o[1]]
            if i.op == "phi":
                if i.id not in st.C: break
                o = ("v", st.C[i.id]); continue
            if i.op in ("zext", "sext", "trunc", "freeze"): o = i.ops[0]; continue
            if i.op == "xor" and i.ty == "i1" and i.ops[1][0] == "c": o = i.ops[0]; taken = not taken; continue
            if i.op == "icmp":
                a, b = i.ops
                x = f.inst.get(a[1]) if a[0] == "v" else None
                if i.pred in ("eq", "ne") and b[0] == "c" and b[1] == 0 and x is not None and (x.op in ("zext", "sext") and x.from_ == "i1"):
                    taken = taken == (i.pred == "ne"); o = a; continue
                return i, taken
            break
        return None, None

    def goto(self, e, st, b, tgt, i):
        f = st.ctx.fn; B = f.blocks[tgt]; p = self.prep(f)
        newv = []
        for q in B.insts:
            if q.op != "phi": break
            src = None
            for (o, pb) in q.ops:
                if pb == b.id: src = o
            newv.append((q, src, self.val(st, src) if src else TOP))
        if newv:
            als = []
            for q, src, m in newv:
                al = [l for l, x in st.A.items() if src and src[0] == "v" and x == src[1]]
                als.append(al)
            cps = {}
            for q, src, m in newv: self.define(st, q)
            ids = {q.id for q, _, _ in newv}
            for (q, src, m), al in zip(newv, als):
                self.setv(st, q.id, m)
                if src and src[0] == "v" and src[1] not in ids: st.C[q.id] = src[1]
                for l in al:
                    if src[1] in ids or src[1] not in p.livein[tgt]: st.A[l] = q.id
        live = p.livein[tgt]
        if self.c.moves:
            q = self.c.move(self, st, b, B)
            if q is not None: st.P = q
        self.prune(st, live)
        self.push(st.ctx, tgt, 0, st, e, None, i.line)

    def prune(self, st, live):
        st.E = {v: m for v, m in st.E.items() if v in live or v < 0}
        st.A = {l: v for l, v in st.A.items() if v in live or v < 0}
        if st.C: st.C = {v: s for v, s in st.C.items() if v in live and s in st.ctx.fn.inst and useful(st.ctx.fn, s, live)}

    # -- calls ---------------------------------------------------------------------
    def do_call(self, e, st, i, idx):
        ctx = st.ctx; prog = self.prog
        targets = prog.targets(i) or (None,)
        live = self.prep(ctx.fn).after[i.id]
        for name in targets:
            s2 = self.copy(st) if len(targets) > 1 else st
            r = self.c.call(self, s2, i, name)
            if r is not None:
                for out in r:
                    s3 = self.copy(s2)
                    self.define(s3, i)
                    s3.P = out[0]
                    if len(out) > 2 and out[2]:
                        for l, m in out[2].items():
                            if m == TOP or m is None: self.clobber(s3, l)
                            else: s3.M[l] = m; s3.A.pop(l, None)
                    self.setv(s3, i.id, out[1])
                    if len(out) <= 3 or out[3]: self.escape(s3, i)
                    self.prune_call(s3, live)
                    self.push(ctx, e.block, idx + 1, s3, e, None, i.line)
                continue
            f = prog.defined.get(name) if name else None
            if f is None:
                if name in NORETURN or (name and prog.funcs[name].noreturn):
                    self.c.at_exit(self, s2, i); continue
                if name in ("llvm.va_start", "llvm.va_end", "llvm.stacksave", "llvm.stackrestore") or (name and name.startswith("llvm.dbg")):
                    self.push(ctx, e.block, idx + 1, s2, e, None, i.line); continue
                self.define(s2, i)
                m = self.c.extern_ret(self, i, name)
                if m is None: m = PTR if i.ty == "ptr" else LIBRET.get(name, TOP)
                self.setv(s2, i.id, m)
                self.escape(s2, i)
                self.prune_call(s2, live)
                self.push(ctx, e.block, idx + 1, s2, e, None, i.line)
            elif name not in self.relevant:
                m = self.retmask(name)
                if m == 0:
                    self.c.at_exit(self, s2, i); continue
                self.define(s2, i)
                for l in self.writes[name]: self.clobber(s2, l)
                if i.ty != "void": self.setv(s2, i.id, m)
                self.escape(s2, i)
                self.prune_call(s2, live)
                self.push(ctx, e.block, idx + 1, s2, e, None, i.line)
            else:
                args = tuple(self.val(s2, o) for o in i.ops[:len(f.args)])
                args = tuple(m if informative(m) or m == POS and name in self.c.posargs else TOP for m in args)
                tags = tuple(self.state_tag(o, ctx.fn, ctx) for o in i.ops[:len(f.args)])
                if not any(t is not None for t in tags): tags = ()
                rd = self.reads[name] | self.writes[name]
                facts = {l: v for l, v in s2.M.items() if l in rd}
                frame = {l: v for l, v in s2.M.items() if l not in rd}
                x = self.get_ctx(f, s2.P, facts, args, tags, None, e)
                ck = (e, idx)
                base = self.copy(s2)
                base.M = frame
                base.A = {l: v for l, v in s2.A.items() if l not in self.writes[name]}
                x.callers.append((e, idx, base, i, dict(facts)))
                for ex, ed in list(x.exits.items()):
                    self.resume((e, idx, base, i, facts), ex, ed)

    def add_exit(self, ctx, ex, e, i):
        if ex in ctx.exits: return
        ctx.exits[ex] = (e, i.line)
        for c in list(ctx.callers): self.resume(c, ex, ctx.exits[ex])

    def resume(self, caller, ex, ed):
        e, idx, base, i, facts = caller
        P, M, m = ex
        s = self.copy(base)
        self.define(s, i)
        s.P = P
        s.M.update(dict(M))
        if i.ty != "void": self.setv(s, i.id, m)
        self.escape(s, i)
        s.edge = e
        p2 = self.c_after(s, i)
        if p2 is None: return
        live = self.prep(e.ctx.fn).after[i.id]
        self.prune_call(s, live)
        self.push(e.ctx, e.block, idx + 1, s, e, ed, i.line)

    def c_after(self, s, i):
        g = getattr(self.c, "after", None)
        if g is None: return s.P
        p = g(self, s, i)
        if p is not None: s.P = p
        return p

    def prune_call(self, st, live): self.prune(st, live)

    def escape(self, st, i):
        """locals whose address is passed may be changed by the callee"""
        f = st.ctx.fn
        for o in i.ops:
            if o[0] == "v":
                d = f.inst[o[1]]
                k = 0
                while d.op == "getelementptr" and d.ops[0][0] == "v" and k < 5: d = f.inst[d.ops[0][1]]; k += 1
                if d.op == "alloca": self.clobber(st, ("l", f.name, d.id))

    # -- return masks of irrelevant functions ------------------------------------------
    def retmask(self, name):
        if self.retmasks is None: self.retmasks = base_retmasks(self.prog)
        return self.retmasks.get(name, TOP)

    # -- reporting -----------------------------------------------------------------------
    def report(self, rule, i, msg, st):
        k = (rule, i.func.name, i.line, msg)
        if k not in self.reports: self.reports[k] = (i, st.edge)

    def witness(self, edge, last=None, limit=60):
        out = []; e = edge; seen = 0
        steps = []
        while e is not None and seen < 4000:
            seen += 1
            if e.line: steps.append("%s:%d (%s)" % (e.ctx.fn.file, e.line, e.ctx.fn.name))
            nxt = e.parent if e.parent is not None else e.via
            if e.parent is None: steps.append("enter %s" % e.ctx.fn.name)
            e = nxt if nxt is not e else None
        steps.reverse()
        # drop immediate duplicates
        r = []
        for s in steps:
            if not r or r[-1] != s: r.append(s)
        if len(r) > limit: r = r[:limit // 2] + ["..."] + r[-limit // 2:]
        return r

BOOL2 = TOP
LIBRET = {}
for _n in ("execl", "execlp", "execle", "execv", "execve", "execvp"): LIBRET[_n] = atom(-1)
for _n in ("fclose", "fflush", "fseek", "fseeko", "close", "unlink", "ftruncate", "sigaction", "stat", "fstat", "access", "pipe"): LIBRET[_n] = atom(-1) | ZERO
for _n in ("ftell", "ftello", "lseek", "open", "dup", "dup2", "fork", "vfork", "mkstemp", "fileno", "getc", "fgetc", "putc", "fputc"): LIBRET[_n] = atom(-1) | NONNEG
for _n in ("fread", "fwrite", "strlen", "umask", "wcwidth"): LIBRET[_n] = NONNEG
LIBRET.pop("wcwidth")
NORETURN = {"exit", "_exit", "abort", "siglongjmp", "longjmp", "__assert_fail", "_longjmp", "__longjmp_chk"}

def useful(f, v, live):
    """copy source worth keeping: itself live or a comparison on live operands"""
    return True if v in live else f.inst[v].op in ("icmp", "xor", "and", "zext")

def informative(m):
    return m not in (TOP, NONNEG, PTR, POS) or m == ZERO

def const_of(o):
    if o[0] == "c": return o[1] if o[2] != 1 else (1 if o[1] else 0)
    if o[0] == "null": return 0
    return None

_single = {}
for _n in range(LO, HI + 1): _single[atom(_n)] = _n
def single(m): return _single.get(m)

def neg_mask(m):
    r = 0
    if m & NEG: r |= POS
    if m & POS: r |= NEG
    for k in range(LO, HI + 1):
        if m & atom(k): r |= atom(-k)
    if m & POS: r |= mask_lt(LO) | atom(LO)
    # values 9..17 negate below LO and are covered by atom(); POS may negate to < -17
    if m & NEG: r |= POS | mask_gt(-LO)
    return r

def join_fact(a, b, isflag):
    if isflag:
        if a == b: return a
        Z = a[0] & b[0]; N = tuple(sorted(set(a[1]) & set(b[1])))
        return (Z, N) if Z or N else None
    return a | b

class NullClient(Client):
    name = "ret"
    cap = 24

def base_retmasks(prog):
    k = id(prog)
    if k in _RET_CACHE: return _RET_CACHE[k]
    K = Kernel(prog, NullClient(), retmasks={})
    # context-insensitive: every function analysed once with unknown arguments
    K.get_ctx_orig = K.get_ctx
    def gc(f, P, facts, args, tags, label=None, parent=None):
        return K.get_ctx_orig(f, 0, {}, (), (), label, parent)
    K.get_ctx = gc
    for n in prog.defined: K.root(n, 0)
    K.run()
    r = {}
    for n in prog.defined:
        x = K.ctxs[(n, 0, (), (), ())]
        m = 0
        for (_, _, mm) in x.exits: m |= mm
        r[n] = m
    _RET_CACHE[k] = r
    return r
