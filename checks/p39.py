from kernel import *
from common import *
from ir import field_of
import iv, p38
WS = ("ed_display", "ws_row"), ("ed_display", "ws_col")
class C(Client):
    tracked = frozenset(WS); cap = 60; fork = True
    def direct(s, f): return any(i.op == "store" and field_of(i.ops[1], f) in WS for i in f.all())
def run(r):
    p = r.prog
    f1 = r.func("one_time_init"); r.func("main")
    r.explanation = "Whole-program interval analysis with path refinement and structure-field invariants: divisors, and the values the window size can take."
    r.rule("divisor", "the interval of every divisor excludes zero")
    r.rule("window", "every value stored as a number of rows or columns is at least two; initialisation leaves neither at zero")
    a = p38.analysis(p)
    div = set(); st = set(); low = {}
    for k in WS: low[k] = 2
    def v(i, val):
        if i.op in ("sdiv", "udiv", "srem", "urem"):
            div.add(i); x = val(i.ops[1])
            if x is None or not iv.no(x, 0): r.viol("divisor", i, "the divisor may be zero")
            elif i.op in ("sdiv", "srem") and x[0] <= -1 <= x[1]:
                t = iv.full(i.ty); y = val(i.ops[0])
                if y is None or y[0] == t[0]: r.viol("divisor", i, "the quotient may not be representable")
        if i.op == "store":
            k = field_of(i.ops[1], i.func)
            if k in WS:
                st.add(i); x = val(i.ops[0])
                if x is None or x[0] < 2: r.viol("window", i, "the number of %s may be set to %s" % ("rows" if k[1] == "ws_row" else "columns", "anything" if x is None else x[0]))
    a.visit(v)
    r.set("divisions", len(div)); r.set("window size stores", len(st))
    r.need("window size stores", 4); r.need("divisions", 4)
    # neither dimension is left at zero: paths through initialisation, starting from zero
    c = C(); K = r.kernel(c, [("one_time_init", 0, {k: ZERO for k in WS})])
    n = 0
    for ctx in K.ctxs.values() if isinstance(K.ctxs, dict) else K.ctxs:
        if ctx.fn.name != "one_time_init": continue
        for ex in ctx.exits:
            n += 1
            fa = dict(ex[1])
            for k in WS:
                if ex[2] & NONNEG and fa.get(k, TOP) & ZERO: r.viol("window", f1, "initialisation can leave the number of %s at zero" % ("rows" if k[1] == "ws_row" else "columns"))
    r.set("outcomes of initialisation", n); r.need("outcomes of initialisation", 1)
