from kernel import *
from common import *
from ir import field_of
import iv, p25
def source(f, op, seen=None):
    """locations an index is computed from"""
    seen = set() if seen is None else seen; out = set()
    if op[0] != "v" or op[1] in seen: return out
    seen.add(op[1]); i = f.inst[op[1]]
    if i.op == "load":
        l = field_of(i.ops[0], f)
        if l: out.add(l)
        elif i.ops[0][0] == "g": out.add(("g", i.ops[0][1]))
        return out
    if i.op in ("sext", "zext", "trunc", "freeze", "add", "sub", "phi", "select"):
        for o in (i.ops if i.op != "select" else i.ops[1:]): out |= source(f, o[0] if i.op == "phi" else o, seen)
    return out
def tables(p):
    """(instruction, array position, index operand, size) of every access by a computed number to an array of fixed size"""
    for f in p.defined.values():
        for i in f.all():
            if i.op != "getelementptr": continue
            for k, q in enumerate(i.path):
                if q[0] == "arr": yield i, q[1], q[2]
def analysis(p):
    g = {}
    for i, op, n in tables(p):
        for k in source(i.func, op):
            if k[0] == "g" or k[0].startswith("ed_"): g[k] = max(g.get(k, 0), n)
    # a field used as an index is guessed to stay within the table (kept only if the guess proves closed)
    for k in list(g):
        ty = [i.ty for f in p.defined.values() for i in f.all() if i.op == "load" and (field_of(i.ops[0], f) == k or i.ops[0] == k)]
        if not ty or not iv.bits(ty[0]): del g[k]
    guess = {k: (-1, n, 0) for k, n in g.items()}
    guess[p25.SP] = (0, g.get(p25.SP, 50), 0)
    return iv.Analysis(p, p25.HANDLERS & set(p.defined), {p25.SP: (0, (1 << 31) - 1, 0)}, guess).run()
def run(r):
    p = r.prog
    r.func("main"); r.func("exec_command")
    r.explanation = "Whole-program interval analysis (abstract interpretation with path refinement and structure-field invariants) of every index into an array of fixed size."
    r.rule("index", "the interval of every index lies within the table it is applied to")
    r.assumptions.append("the number of macro frames never goes below zero, which the frame typestate of P25 decides (also run here)")
    a = analysis(p)
    seen = set(); const = set(); var = set()
    def v(i, val):
        if i.op != "getelementptr": return
        for q in i.path:
            if q[0] != "arr": continue
            seen.add(i)
            if q[1][0] == "c":
                const.add(i); n = q[2]
                if not (0 <= q[1][1] < n or q[1][1] == n and not used(i)): r.viol("index", i, "index %d of a table with %d entries" % (q[1][1], n))
                continue
            var.add(i); x = val(q[1])
            if x is None or x[0] < 0 or x[1] >= q[2]:
                if x is not None and x[0] >= 0 and x[1] == q[2] and not used(i): continue
                r.viol("index", i, "the index may be %s, and the table has %d entries" % ("anything" if x is None else "%d to %d" % x[:2], q[2]))
    a.visit(v)
    r.set("accesses with a constant index", len(const)); r.set("accesses with a computed index", len(var)); r.need("accesses with a computed index", 40)
    r.set("functions analysed", len(a.live)); r.set("functions never called", len(set(p.defined) - a.live)); r.set("analysis rounds", a.rounds)
    for root in ("exec_command", "main"):
        c = p25.C(p, root); c.r = r
        r.kernel(c, [(root, (0, "?" if root == "exec_command" else "0", None, 0, frozenset()))])
def used(i):
    """is the address used to access memory (and not only compared)"""
    for j in i.func.all():
        if any((o[0] if isinstance(o[0], tuple) else o) == ("v", i.id) for o in j.ops):
            if j.op not in ("icmp", "ptrtoint"): return True
    return False
