"""Ownership of streams and descriptors: constant propagation with one abstract object per opening call."""
from ir import AnalysisError, field_of
from cp import CPClient, Interp
from common import *
import itertools
HANDLES = (("ed_file", "handle"), ("ed_core", "fp"), ("ed_execute", "fp"), ("ed_register", "fp"))
OPEN = {"fopen": "file", "fopen64": "file", "popen": "pipe", "tmpfile": "file", "tmpfile64": "file"}
FDS = {"open", "open64", "mkstemp", "mkstemp64", "dup", "creat", "creat64", "socket"}
CLOSE = {"fclose": "file", "pclose": "pipe", "close": "fd"}
OPS = set(OPEN) | FDS | set(CLOSE) | {"fdopen", "pipe", "pipe2"}
HOW = {"file": "fclose", "pipe": "pclose", "fd": "close"}
def res(kind, n): return ("p", ("res", kind, n), 0)
def isres(v): return isinstance(v, tuple) and len(v) == 3 and v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "res"
class Apart:
    def __contains__(s, x): return isinstance(x, tuple) and x[0] == "res"
class C(CPClient):
    """P = (open, closed, handed to an unknown place)"""
    fieldargs = frozenset(HANDLES); apart = Apart(); arrays = True
    def __init__(s, p, inl, r): s.p = p; s.inl = inl; s.r = r; s.bad = {}; s.sites = {}; s.opens = set(); s.closes = set(); s.forksel = True; s.fdn = {}
    def inline(s, n): return n in s.inl
    def fd(s, i, k=0):
        key = (i.func.name, i.block, i.idx, k) if hasattr(i, "block") else (i.func.name, i.id, k)
        if key not in s.fdn: s.fdn[key] = 7000001 + len(s.fdn)
        n = s.fdn[key]; s.sites[n] = i
        return n
    def new(s, st, kind, i):
        for k in range(4):
            v = res(kind, (i.func.name, i.id, k))
            if v not in st.P[0] and v not in st.mem.values(): break
        return v
    def isfd(s, v): return isinstance(v, int) and 7000001 <= v < 7100000
    def report(s, rule, i, msg): s.bad.setdefault((rule, i.func.name, i.id, msg), (rule, i, msg))
    def store(s, I, st, i, loc, v):
        if isres(v) or s.isfd(v):
            if loc is None and v in st.P[0]: st.P = (st.P[0], st.P[1], st.P[2] | {v})
    def call(s, I, st, i, name, args):
        op, cl, gv = st.P
        if name not in CLOSE:
            for a in args:
                if a in cl and (isres(a) or s.isfd(a)): s.report("after", i, "%s uses a stream or descriptor that was closed before" % (name or "a call"))
        if name in OPEN:
            s.opens.add((i.func.name, i.id)); v = s.new(st, OPEN[name], i); s.sites[v] = i
            return [(0, st.P, {}), (v, (op | {v}, cl - {v}, gv), {})]
        if name in FDS:
            s.opens.add((i.func.name, i.id)); v = s.fd(i)
            return [(-1, st.P, {}), (v, (op | {v}, cl - {v}, gv), {})]
        if name in ("pipe", "pipe2"):
            s.opens.add((i.func.name, i.id)); o = i.ops[0]; b = I.val(st, o)
            if not (isinstance(b, tuple) and b[0] == "p" and isinstance(b[1], tuple) and b[1][0] == "l" and b[2] == 0): return [(-1, st.P, {}), (0, st.P, {})]
            x, y = s.fd(i, 0), s.fd(i, 1); l = b[1]
            return [(-1, st.P, {}), (0, (op | {x, y}, cl - {x, y}, gv), {l: x, ("p", l, 0): x, ("p", l, 1): y})]
        if name == "fdopen":
            s.opens.add((i.func.name, i.id)); v = s.new(st, "file", i); s.sites[v] = i; a = args[0]
            return [(0, st.P, {}), (v, ((op - {a} if s.isfd(a) else op) | {v}, cl - {v}, gv), {})]
        if name in CLOSE:
            s.closes.add((i.func.name, i.id)); a = args[0]
            if isres(a) or s.isfd(a):
                k = "fd" if s.isfd(a) else a[1][1]
                if a in cl: s.report("after", i, "%s of a stream or descriptor that was closed before" % name)
                elif k != CLOSE[name]: s.report("match", i, "a stream to be closed with %s is closed with %s" % (HOW[k], name))
                return [(0, (op - {a}, cl | {a}, gv), {}), (-1, (op - {a}, cl | {a}, gv), {})]
            if a is None:       # which one is not known: none is reported any more
                k = CLOSE[name]; d = {v for v in op if ("fd" if s.isfd(v) else v[1][1]) == k and not (isres(v) and v[1][2][0] == "held")}
                return [(0, (op - d, cl, gv), {}), (-1, (op - d, cl, gv), {})]
            return [(0, st.P, {}), (-1, st.P, {})]
        if name == "fork": return [(-1, st.P, {}), (0, st.P, {}), (4242, st.P, {})]
        if name in ("dup2", "dup3"): return [(-1, st.P, {}), (1, st.P, {})]
        if name in ("execl", "execv", "execlp", "execvp", "execle", "execve"): return [(-1, st.P, {})]
        return None
def run(r):
    p = r.prog
    for n in ("read_file", "read_pipe", "write_file", "write_pipe"): r.func(n)
    r.explanation = ("Every function that opens or closes a stream or descriptor is evaluated along all its paths, with one abstract object per opening call and the recorded handles "
                     "both set and not; at each return every object still open must be held by a recorded handle or handed to the caller, which is then evaluated too.")
    r.rule("leak", "at each return, what was opened is closed or held by the handle of the edited file, of a register or of a temporary file")
    r.rule("match", "a stream is closed with the operation that belongs to the one that opened it")
    r.rule("after", "a stream or descriptor is not used, or closed again, after it was closed")
    r.rule("replace", "a recorded handle is not replaced while what it held is open")
    direct = {n for n, f in p.defined.items() if any(i.op == "call" and i.callee in OPS for i in f.all())}
    inl = set(direct)
    inl |= {n for n, f in p.defined.items() if any(i.op == "store" and field_of(i.ops[1], f) in HANDLES[:1] for i in f.all())} - {"main"}
    clp = {}                                # functions that close one of their arguments
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            for i in f.all():
                if i.op != "call": continue
                for k, o in enumerate(i.ops):
                    if o[0] == "a" and (i.callee in CLOSE and k == 0 or (i.callee, k) in clp) and (n, o[1]) not in clp:
                        clp[n, o[1]] = 1; inl.add(n); ch = True
    todo = sorted(inl); roots = {}; big = set(); ops = set(); cls = set()
    while todo:
        n = todo.pop()
        if n in roots: continue
        roots[n] = None; esc = False; viol = []
        for combo in itertools.product((0, 1), repeat=3):
            mem = {}; op = set()
            for h, b in zip(HANDLES, combo):
                v = res("file", ("held",) + h) if b else 0
                mem[h] = v
                if b: op.add(v)
            c = C(p, inl, r); I = Interp(p, c); I.MAX = 60000 if n in direct else 15000
            try: outs = I.run(n, (), mem, (frozenset(op), frozenset(), frozenset()))
            except AnalysisError:
                if n in direct: raise
                viol = None; break          # too large: what its callees leave is judged there
            r.count("paths", len(outs)); r.count("functions evaluated");
            ops |= c.opens; cls |= c.closes
            viol += list(c.bad.values())
            for ret, m, (op2, cl, gv) in outs:
                held = {v: l for l, v in m.items() if isres(v) or c.isfd(v) if l[0] not in ("l",) and not (l[0] == "p")}
                for l, v in m.items():
                    if isres(v) and v in cl and l in HANDLES: viol.append(("after", p.defined[n], "a recorded handle still denotes a stream that was closed"))
                for v in op2:
                    r.count("objects open at a return")
                    if v in held:
                        if held[v] not in HANDLES: viol.append(("leak", c.sites.get(v, p.defined[n]), "what is opened here is kept in %s.%s" % tuple(str(x) for x in held[v][:2])))
                        continue
                    if ret == v or v in gv: esc = True; continue
                    if isres(v) and v[1][2][0] == "held":
                        if v[1][2][1:] not in m: continue       # unknown
                        esc = True
                        if not p.callers.get(n): esc = esc
                        viol.append(("?replace", p.defined[n], "the handle %s.%s is replaced while it is open" % v[1][2][1:])); continue
                    viol.append(("leak", c.sites[v], "what is opened here is still open when %s returns, and nothing refers to it" % n))
        if viol is None: inl.discard(n); big.add(n); del roots[n]; continue
        roots[n] = (esc, viol)
        if esc:
            for q in p.callers.get(n, ()):
                if q in p.defined and q != "main" and q not in big: inl.add(q); roots.pop(q, None); todo.append(q)
            for q in list(roots):
                if n in p.callees.get(q, ()) and q != n and roots[q] is not None: roots.pop(q); todo.append(q)
    seen = set()
    for n, (esc, viol) in sorted(roots.items()):
        for rule, w, msg in viol:
            if rule == "?replace":
                if p.callers.get(n) and not any(q in big or q == "main" for q in p.callers[n]) or n == "init_ed_buffer" or set(p.callers.get(n, ())) <= {"main"}: continue
                rule = "replace"
            k = (rule, msg, getattr(w, "id", None))
            if k not in seen: seen.add(k); r.viol(rule, w, msg)
    r.set("opening calls", len(ops)); r.set("closing calls", len(cls))
    r.need("opening calls", 8); r.need("closing calls", 10); r.need("functions evaluated", 5)
