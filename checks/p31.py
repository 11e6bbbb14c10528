from kernel import *
from common import *
from ir import field_of
import iv, p25
SIGNED = {"strtol": 64, "strtoll": 64, "strtoimax": 64, "__isoc23_strtol": 64, "__isoc23_strtoll": 64, "strtoq": 64}
UNSIGNED = {"strtoul": 64, "strtoull": 64, "strtoumax": 64, "__isoc23_strtoul": 64, "__isoc23_strtoull": 64, "strtouq": 64}
CONV = {**SIGNED, **UNSIGNED}
BLIND = {"atoi", "atol", "atoll", "atof", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "fscanf", "scanf"}
ERANGE = 34
CAST = ("sext", "zext", "trunc", "freeze", "bitcast")
def is_errno(f, op):
    return op[0] == "v" and f.inst[op[1]].op == "call" and f.inst[op[1]].callee == "__errno_location"
def short(p, i):
    """text that cannot hold a number out of range"""
    op = i.ops[0]; f = i.func
    for _ in range(4):
        if op[0] == "v" and f.inst[op[1]].op == "getelementptr" and all(q[1][0] == "c" for q in f.inst[op[1]].path if q[0] in ("arr", "idx")): op = f.inst[op[1]].ops[0]
    ty = p.globals[op[1]]["type"] if op[0] == "g" else f.inst[op[1]].sty if op[0] == "v" and f.inst[op[1]].op == "alloca" else ""
    import re
    m = re.match(r"\[(\d+)\]i(\d+)$|\[(\d+) x i(\d+)\]$", ty or "")
    if not m: return False
    n, b = [int(x) for x in m.groups() if x]
    return n * b // 8 <= 16
class Conv(Client):
    """P = (errno cleared, values that hold a number out of range, what they are)"""
    cap = 400; moves = True
    def __init__(s, p): s.p = p; s.seen = set(); s.uses = 0
    def direct(s, f): return any(i.op == "call" and i.callee in CONV for i in f.all())
    def conc(s, st, op):
        if op[0] == "c": return op[1]
        if op[0] == "v" and op[1] in st.P[1]: return st.P[2]
        return None
    def cmpmask(s, K, st, i):
        f = i.func; ids, v = st.P[1], st.P[2]
        if v is None: return None
        a, b = s.conc(st, i.ops[0]), s.conc(st, i.ops[1])
        for k, o in enumerate(i.ops):
            if o[0] == "v" and f.inst[o[1]].op == "load" and is_errno(f, f.inst[o[1]].ops[0]):
                if k: b = ERANGE
                else: a = ERANGE
        if a is None or b is None: return None
        w = 1 << 64
        if i.pred[0] == "u": a %= w; b %= w
        else: a = (a + w // 2) % w - w // 2; b = (b + w // 2) % w - w // 2
        r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[i.pred]
        return atom(1) if r else ZERO
    def move(s, K, st, b, tgt):
        c, ids, v = st.P
        if not ids: return None
        add = set(); rem = set()
        for q in tgt.insts:
            if q.op != "phi": break
            for o, pb in q.ops:
                if pb == b.id: (add if o[0] == "v" and o[1] in ids else rem).add(q.id)
        n = frozenset((ids - rem) | add)
        return (c, n, v if n else None) if n != ids else None
    def bad(s, K, st, i, what): K.report("range", i, "a number out of range is %s" % what, st)
    def inst(s, K, st, i):
        c, ids, v = st.P; f = i.func
        if i.op == "store":
            if is_errno(f, i.ops[1]): return [(i.ops[0][0] == "c" and i.ops[0][1] == 0, ids, v)]
            if i.ops[0][0] == "v" and i.ops[0][1] in ids and f.inst[i.ops[1][1]].op != "alloca" if i.ops[1][0] == "v" else i.ops[0][0] == "v" and i.ops[0][1] in ids:
                s.bad(K, st, i, "used"); return []
            return None
        if i.id in ids: return [(c, ids - {i.id}, v)]
        if not ids: return None
        if i.op in CAST and i.ops[0][0] == "v" and i.ops[0][1] in ids:
            if i.op == "trunc": s.bad(K, st, i, "cut short"); return []
            return [(c, ids | {i.id}, v)]
        if i.op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "getelementptr") and any(o[0] == "v" and o[1] in ids for o in i.ops):
            s.bad(K, st, i, "used"); return []
        return None
    def call(s, K, st, i, name):
        c, ids, v = st.P
        if ids and any(o[0] == "v" and o[1] in ids for o in i.ops): s.bad(K, st, i, "passed to %s" % name); return []
        if name in CONV:
            s.seen.add(i)
            if ids and v is not None: return None
            if short(s.p, i): return None
            if not c: K.report("reset", i, "errno is not cleared before the conversion, so a number in range may be rejected", st)
            w = 64
            out = [((False, frozenset(), None), TOP)]
            if name in SIGNED: out += [((False, frozenset({i.id}), (1 << 63) - 1), TOP), ((False, frozenset({i.id}), -(1 << 63)), TOP)]
            else: out += [((False, frozenset({i.id}), (1 << 64) - 1), TOP)]
            return out
        if name is None: return [((False, ids, v), TOP)]
        if name in s.p.defined: return [] if s.p.defined[name].noreturn else [((False, ids, v), K.retmask(name))]
        if name in iv.PURE or name.startswith("llvm.") or name in ("getenv", "memcpy", "memset", "strcpy"): return None
        return None if s.p.funcs[name].noreturn else [((False, ids, v), TOP)]
    def ret(s, K, st, i):
        c, ids, v = st.P
        if i.ops and i.ops[0][0] == "v" and i.ops[0][1] in ids: s.bad(K, st, i, "returned")
        elif v is not None and i.ops and K.val(st, i.ops[0]) & (POS if i.func.ret == "ptr" else NONNEG):
            if i.func.name != "main": K.report("range", i, "%s returns as if it had succeeded after a number out of range" % i.func.name, st)
def run(r):
    p = r.prog
    r.func("address_offset"); r.func("address_range"); r.func("main")
    r.explanation = "Path-sensitive typestate of every number conversion with its overflow outcome; case analysis of the address sums; whole-program interval analysis of what becomes of converted numbers."
    r.rule("range", "a number that does not fit is never used: no path that follows the overflow outcome of a conversion stores it, computes with it, passes it on or returns it, and the function fails unless it puts another number in its place (errno and the largest and smallest number being what the C library makes them)")
    r.rule("reset", "errno is cleared before each conversion whose overflow is recognised by it")
    r.rule("blind", "no conversion is used that cannot report overflow")
    r.rule("narrow", "a converted number is narrowed only where its interval fits the narrower type")
    r.rule("sum", "an offset is added to an address only on paths where the sum cannot overflow")
    # conversions
    roots = sorted({f.name for f in p.defined.values() for i in f.all() if i.op == "call" and i.callee in CONV})
    c = Conv(p); c.r = r; c.roots = set(roots)
    r.kernel(c, [(n, (False, frozenset(), None)) for n in roots])
    r.set("conversions", len(c.seen)); r.need("conversions", 6)
    for f in p.defined.values():
        for i in f.calls():
            if i.callee in BLIND: r.viol("blind", i, "%s does not report numbers out of range" % i.callee)
    # narrowing
    a = iv.Analysis(p, p25.HANDLERS & set(p.defined)).run()
    taint = {}
    for f in p.defined.values():
        t = {i.id for i in f.all() if i.op == "call" and i.callee in CONV and not short(p, i)}; ch = bool(t)
        while ch:
            ch = False
            for i in f.all():
                if i.id not in t and i.op in CAST + ("phi", "add", "sub", "select") and any((o[0] if i.op == "phi" else o)[0] == "v" and (o[0] if i.op == "phi" else o)[1] in t for o in i.ops): t.add(i.id); ch = True
        if t: taint[f.name] = t
    nar = set()
    def v(i, val):
        if i.op == "trunc" and i.ops[0][0] == "v" and i.ops[0][1] in taint.get(i.func.name, ()):
            nar.add(i); x = val(i.ops[0]); t = iv.full(i.ty)
            if x is None or x[0] < t[0] or x[1] > t[1]: r.viol("narrow", i, "a number from %s to %s is cut to %s" % ((x[0], x[1], i.ty) if x else ("anything", "anything", i.ty)))
    a.visit(v)
    r.set("narrowings", len(nar)); r.need("narrowings", 1)
    # sums
    n = 0
    for name in sorted(p.reach(["address_offset"])):
        f = p.defined.get(name)
        if f is None: continue
        for i in f.all():
            if i.op == "call" and (i.callee or "").startswith(("llvm.sadd.with.overflow", "llvm.ssub.with.overflow")): n += 1
            if i.op == "store" and i.ops[0][0] == "v" and f.inst[i.ops[0][1]].op in ("add", "sub"):
                d = f.inst[i.ops[0][1]]
                if d.ty != "i64" or any(o[0] == "c" for o in d.ops): continue
                x = [o for o in d.ops if o[0] == "v" and f.inst[o[1]].op == "load" and f.inst[o[1]].ops[0] == i.ops[1]]
                if not x: continue
                n += 1; other = [o for o in d.ops if o is not x[0]][0]
                for sc in ("over", "under"):
                    k = Sum(f, d, i.ops[1], other, sc); r.kernel(k, [(name, None)])
    r.set("address sums", n); r.need("address sums", 1)
class Sum(Client):
    """one overflowing case of one addition; the addition must not be reached in it"""
    cap = 400
    def __init__(s, f, d, ptr, n, sc): s.f = f; s.d = d; s.ptr = ptr; s.n = n; s.sc = sc
    def direct(s, f): return f is s.f
    def sym(s, op):
        f = s.f
        if op == s.n: return ("n", 0)
        if op[0] == "c": return ("c", op[1])
        if op[0] == "v":
            i = f.inst[op[1]]
            if i.op == "load" and i.ops[0] == s.ptr: return ("x", 0)
            if i.op == "sub" and i.ops[0][0] == "c" and s.sym(i.ops[1]) in (("n", 0), ("x", 0)): return ("-" + s.sym(i.ops[1])[0], i.ops[0][1])
        return None
    def range(s, e):
        """what is known of x and n: list of (x, n) corner cases"""
        M, m = (1 << 63) - 1, -(1 << 63)
        return {("over", "add"): [(M, 1), (1, M), (M, M), (1 << 62, 1 << 62), (M - 5, 6)], ("under", "add"): [(m, -1), (-2, m + 1), (-2, -M), (m + 5, -6), (m, -M)],
                ("over", "sub"): [(M, -1), (0, -M), (M, -M), (1, -M)], ("under", "sub"): [(m, 1), (-2, M), (m, M), (m + 5, 6)]}[s.sc, s.d.op]
    def cmpmask(s, K, st, i):
        if i.func is not s.f: return None
        a, b = s.sym(i.ops[0]), s.sym(i.ops[1])
        if a is None or b is None or a[0] == b[0] == "c": return None
        r = 0
        for x, n in s.range(s.sc):
            if s.d.op == "sub" and s.d.ops[0] == s.n: x, n = n, x
            u = {"x": x, "n": n}
            def ev(t):
                if t[0] == "c": return t[1]
                if t[0] in u: return u[t[0]]
                z = t[1] - u[t[0][1:]]
                return z if -(1 << 63) <= z < 1 << 63 else None
            y, z = ev(a), ev(b)
            if y is None or z is None: return None
            if i.pred[0] == "u": y %= 1 << 64; z %= 1 << 64
            h = {"eq": y == z, "ne": y != z, "lt": y < z, "le": y <= z, "gt": y > z, "ge": y >= z}[i.pred if i.pred in ("eq", "ne") else i.pred[1:]]
            r |= atom(1) if h else ZERO
        return r
    def edge(s, K, st, br, taken):
        if br.func is not s.f: return None
        o = br.ops[0]
        for _ in range(5):
            if o[0] != "v": return None
            i = s.f.inst[o[1]]
            if i.op == "xor" and i.ops[1][0] == "c": taken ^= bool(i.ops[1][1]); o = i.ops[0]
            elif i.op in ("zext", "trunc", "freeze"): o = i.ops[0]
            elif i.op == "icmp" and i.pred in ("eq", "ne") and i.ops[1][0] == "c" and i.ops[1][1] == 0: taken ^= i.pred == "eq"; o = i.ops[0]
            elif i.op == "extractvalue":
                c = s.f.inst[i.ops[0][1]] if i.ops[0][0] == "v" else None
                if c is not None and c.op == "call" and (c.callee or "").startswith("llvm.s%s.with.overflow" % s.d.op) and i.ty == "i1" and [s.sym(q) for q in c.ops[:2]] == [s.sym(q) for q in s.d.ops]: return None if taken else False
                return None
            else: return None
    def inst(s, K, st, i):
        if i is s.d:
            K.report("sum", i, "an offset is added to an address although the sum may %s" % ("exceed the largest number" if s.sc == "over" else "fall below the smallest number"), st); return []
        return None
