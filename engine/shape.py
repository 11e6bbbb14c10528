"""Shape analysis of the line list: abstract interpretation of the editor's IR in a
domain of affine values (sums of named non-negative quantities) and abstract
list nodes (`the node that was at affine position e`).  Loops are explored up to
VISITS times around each block per path; nothing is executed."""
from cp import *
LINK = ("q_forw", "q_back")
ST = {"ed": "ed_buffer", "core": "ed_core", "exec": "ed_execute", "n": "ed_line_node", "u": "ed_undo_node", "state": "ed_state", "disp": "ed_display"}
def L(c, **kw): return mk(tuple(kw.items()), c)
def mk(co, c):
    d = {}
    for k, v in co: d[k] = d.get(k, 0) + v
    co = tuple(sorted((k, v) for k, v in d.items() if v))
    return ("L", co, c) if co else c
def isL(v): return isinstance(v, tuple) and len(v) == 3 and v[0] == "L"
def lin(v):
    if isinstance(v, bool): return None
    if isinstance(v, int): return ((), v)
    return (v[1], v[2]) if isL(v) else None
def addv(a, b, s=1):
    x, y = lin(a), lin(b)
    if x is None or y is None: return None
    return mk(x[0] + tuple((k, s * v) for k, v in y[0]), x[1] + s * y[1])
def sign(v):
    """set of possible signs of an affine value (all names >= 0)"""
    x = lin(v)
    if x is None: return {-1, 0, 1}
    co, c = x
    if not co: return {(c > 0) - (c < 0)}
    if all(k > 0 for _, k in co): return {1} if c > 0 else ({0, 1} if c == 0 else {-1, 0, 1})
    if all(k < 0 for _, k in co): return {-1} if c < 0 else ({0, -1} if c == 0 else {-1, 0, 1})
    return {-1, 0, 1}
def fld(R, f): return ("p", ("fld", R, f), 0)
def node(v): return ("p", ("n", v), 0)
HEAD, UHEAD, ED, CORE, EXEC = node(0), ("p", ("u", 0), 0), ("p", ("ed",), 0), ("p", ("core",), 0), ("p", ("exec",), 0)
S0, S1 = ("state", 0), ("state", 1)
def region(v): return v[1] if isinstance(v, tuple) and v and v[0] == "p" and isinstance(v[1], tuple) else None
class Shape(Interp):
    VISITS = 4
    def __init__(self, prog, client, n):
        Interp.__init__(self, prog, client); self.n = n; self.cut = 0; self.unresolved = 0
    def initial(self, dot, **st):
        m = {fld(("ed",), "state"): ("p", S0, 0), fld(("ed",), "core"): CORE, fld(("ed",), "exec"): EXEC, fld(("ed",), "display"): ("p", ("disp",), 0),
             fld(("core",), "line_head"): HEAD, fld(("core",), "undo_head"): UHEAD,
             fld(("u", 0), "q_forw"): UHEAD, fld(("u", 0), "q_back"): UHEAD}
        for S in (S0, S1):
            m[fld(S, "lines")] = self.n; m[fld(S, "dot")] = dot
            for k in ("is_modified", "is_binary", "is_empty", "newline_appended", "newline_missing", "is_utf8"): m[fld(S, k)] = st.get(k, 0)
        return m
    # nodes
    def norm(self, e):
        if e == addv(self.n, 1): return 0
        if e == -1: return self.n
        return e
    def default(self, R, f):
        if R[0] == "n" and f in LINK:
            if f == "q_forw": return node(self.norm(addv(R[1], 1)))
            return node(self.norm(addv(R[1], -1)))
        return None
    def at(self, mem, e):
        """node at position e of the current list"""
        if lin(e) is None: return None
        mods = [k[1][1] for k in mem if k[0] == "p" and isinstance(k[1], tuple) and k[1][0] == "fld" and k[1][2] == "q_forw" and k[1][1][0] in ("n", "new")
                and mem[k] != self.default(k[1][1], "q_forw")]
        pos = [r[1] for r in mods if r[0] == "n"]
        for d in range(0, 7):
            b = addv(e, -d)
            if sign(b) & {-1}: break
            if all(sign(addv(p, b, -1)) <= {0, 1} for p in pos):
                v = node(self.norm(b))
                for _ in range(d):
                    R = region(v)
                    if R is None: return None
                    v = mem.get(fld(R, "q_forw"), self.default(R, "q_forw"))
                return v
        # from the end
        for d in range(0, 3):
            t = addv(mem.get(fld(S0, "lines")), e, -1)
            if t == d:
                v = HEAD
                for _ in range(d + 1): v = mem.get(fld(region(v), "q_back"), self.default(region(v), "q_back")) if region(v) else None
                return v
        return None
    # overrides
    def val(self, st, o):
        if o[0] == "v":
            i = st.f.inst[o[1]]
            if i.op == "alloca": return ("p", ("l", st.f.name, o[1]), 0)
        return Interp.val(self, st, o)
    def gep(self, st, base, path):
        b = self.val(st, base); R = region(b)
        if R is not None and R[0] != "str" and R[0] != "g":
            for q in path:
                if q[0] == "fld":
                    R = ("fld", R, q[2]) if True else R
                elif q[0] == "idx" and len(q) > 2 and q[2] == "struct ed_state" and R == S0:
                    v = self.val(st, q[1])
                    if not isinstance(v, int): return None
                    R = ("state", v)
                else:
                    v = self.val(st, q[1])
                    if v is None: return None
                    R = ("el", R, v)
            return ("p", R, 0)
        v = Interp.gep(self, st, base, path)
        return NZ if v is None and self.zero(b) == 0 else v
    def loc(self, st, op):
        if op[0] == "g": return Interp.loc(self, st, op)
        v = self.val(st, op); R = region(v)
        if R is not None: return v if R[0] not in ("g",) else Interp.loc(self, st, op)
        if isinstance(v, tuple) and v and v[0] in ("p", "e"): return v
        return None
    def load(self, st, l, ty):
        if l is None: return None
        if l in st.mem: return st.mem[l]
        R = region(l)
        if R is not None and R[0] == "fld": return self.default(R[1], R[2])
        return Interp.load(self, st, l, ty)
    def bin(self, i, a, b):
        if i.op in ("add", "sub") and (isL(a) or isL(b)): return addv(a, b, 1 if i.op == "add" else -1)
        if i.op == "mul" and isL(a) and isinstance(b, int): return mk(tuple((k, v * b) for k, v in a[1]), a[2] * b)
        if isL(a) or isL(b): return None
        return Interp.bin(self, i, a, b)
    def zero(self, v, w=64):
        if isL(v):
            s = sign(v)
            return 1 if s == {0} else (0 if 0 not in s else None)
        return Interp.zero(self, v, w)
    def cmp(self, st, i, a, b):
        if isL(a) or isL(b):
            d = addv(a, b, -1)
            if d is None: return None
            s = sign(d)
            want = {"eq": {0}, "ne": {-1, 1}, "slt": {-1}, "sle": {-1, 0}, "sgt": {1}, "sge": {0, 1}}.get(i.pred)
            if want is None:
                if sign(a) <= {0, 1} and sign(b) <= {0, 1}: want = {"ult": {-1}, "ule": {-1, 0}, "ugt": {1}, "uge": {0, 1}}[i.pred]
                else: return None
            if s <= want: return 1
            if not (s & want): return 0
            return None
        ra, rb = region(a), region(b)
        if i.pred in ("eq", "ne") and ra and rb:
            r = None
            if ra == rb and a[2] == b[2]: r = 1
            elif ra[0] == "n" and rb[0] == "n":
                s = sign(addv(ra[1], rb[1], -1))
                r = 1 if s == {0} else (0 if 0 not in s else None)
            else: r = 0
            return r if r is None or i.pred == "eq" else 1 - r
        if i.pred in ("eq", "ne") and (ra and b == 0 or rb and a == 0): return int(i.pred == "ne")
        return Interp.cmp(self, st, i, a, b)
    def learn(self, st, op, v, truth_nz=None):
        if op[0] in "va":
            cur = st.env.get(op[1] if op[0] == "v" else -1 - op[1])
            if isL(cur): return True
        return Interp.learn(self, st, op, v, truth_nz)
    def goto(self, st, b, t, work):
        k = ("vis", st.f.name, t)
        c = st.mem.get(k, 0) + 1
        if c > self.VISITS: self.cut += 1; return
        if len(st.f.blocks[t].preds) > 1: st.mem[k] = c
        Interp.goto(self, st, b, t, work)
    def copy(self, mem, dst, src):
        for k in [k for k in mem if region(k) and region(k)[0] == "fld" and region(k)[1] == dst]: del mem[k]
        for k in [k for k in mem if region(k) and region(k)[0] == "fld" and region(k)[1] == src]: mem[fld(dst, region(k)[2])] = mem[k]
    def fresh(self, mem, tag):
        k = ("count",)
        n = mem.get(k, 0) + 1
        return n, ("p", (tag, n), 0)
    def clobber(self, mem, name):
        for (s, f) in self.writes.get(name, ()):
            for k in [k for k in mem if region(k) and region(k)[0] == "fld" and region(k)[2] == f and (ST.get(region(k)[1][0]) == s.split("[")[0] or region(k)[1][0] in ("new", "l"))]: del mem[k]
class SClient(CPClient):
    """default models of the calls below the functions analysed"""
    OPAQUE = ("realloc_buffer", "get_buffer_line", "get_stdin_line", "substitute_matching", "transfer_marks", "get_extended_line", "get_stream_line",
              "init_text_deque", "filter_lines", "display_lines", "get_compiled_regex")
    def __init__(s, prog): s.prog = prog; s.adds = 0; s.events = set()
    def inline(s, n): return n not in s.OPAQUE and n in s.inl
    def models(s, I, st, i, n, args): return None
    def call(s, I, st, i, n, args):
        r = s.models(I, st, i, n, args)
        if r is not None: return r
        if n in ("spl1", "spl0"): return [(None, st.P, {})]
        if n == "get_line_node":
            v = I.at(st.mem, args[0])
            if v is None: I.unresolved += 1
            return [(v, st.P, {})]
        if n in ("malloc", "calloc"):
            k, v = I.fresh(st.mem, "new")
            return [(v, st.P, {("count",): k}), (0, st.P, {})]
        if n in ("free", "llvm.dbg.declare"): return [(None, st.P, {})]
        if n and n.startswith("llvm.memcpy"):
            d, r = region(args[0]), region(args[1])
            if d is not None and r is not None:
                m = dict(st.mem); I.copy(m, d, r)
                delta = {k: m.get(k) for k in set(m) | set(st.mem) if m.get(k) != st.mem.get(k)}
                return [(None, st.P, delta)]
            return None
        if n == "reset_undo_queue":
            m = dict(st.mem); I.copy(m, S1, S0)
            delta = {k: m.get(k) for k in set(m) | set(st.mem) if m.get(k) != st.mem.get(k)}
            delta[fld(("u", 0), "q_forw")] = UHEAD; delta[fld(("u", 0), "q_back")] = UHEAD
            return [(None, st.P, delta)]
        if n in ("delete_global_nodes", "reset_global_queue"): return [(None, st.P, {})]
        if n in s.prog.defined and not s.inline(n):
            m = dict(st.mem); I.clobber(m, n)
            delta = {k: None for k in st.mem if k not in m}
            ret = s.prog.defined[n].ret
            return [(NZ, st.P, delta), (0, st.P, delta)] if ret == "ptr" else [(0, st.P, delta), (-2, st.P, delta)] if ret == "i32" else [(None, st.P, delta)]
        return None
