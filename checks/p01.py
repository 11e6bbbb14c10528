from kernel import *
import ir
from cp import CPClient, Interp
from common import exclusive
class Hold(Client):
    """P = hold depth; -1 before signals are activated is not distinguished here."""
    cap = 32
    LIMIT = 6
    def direct(s, f): return any(i.callee in ("spl0", "spl1") for i in f.calls())
    def call(s, K, st, i, name):
        if name == "spl1":
            s.sites.add(i)
            if st.P >= s.LIMIT:
                K.report("balance", i, "signals are held once more on every round: a hold is never released", st); return []
            return [(st.P + 1, TOP)]
        if name == "spl0":
            s.sites.add(i)
            if st.P <= 0:
                K.report("underflow", i, "signals are released here although they are not held", st); return []
            return [(st.P - 1, TOP)]
        return None
    def after(s, K, st, i):
        if st.ctx.fn.name == "main" and st.P != 0:
            K.report("balance", i, "%s() can return with signals still held (depth %d)" % (i.callee, st.P), st)
            return None
        return st.P
def run(r):
    r.explanation = ("Path-sensitive interprocedural typestate over the hold depth of signals, from main: every spl1() raises, every "
                     "spl0() lowers the depth; branch conditions on return values and error codes are followed.")
    r.rule("balance", "after every call made by main the hold depth is the one before the call (0), on every path incl. all failure returns")
    r.rule("underflow", "spl0 is never reached with depth 0")
    r.rule("counter", "the hold counter is written by spl1 (+1) and spl0 (-1) only, exactly once on each of their paths")
    p = r.prog; r.func("spl1"); r.func("spl0")
    c = Hold(); c.sites = set()
    # who writes the counter, and how
    M = ("g", "_mutex"); ok = exclusive(p, {"spl1", "spl0"})
    for n, f in p.defined.items():
        for i in f.all():
            if i.op == "store" and i.ops[1] == M:
                r.count("counter_writes")
                if n not in ok: r.viol("counter", i, "the hold counter is written outside spl0/spl1")
    for n, k, starts in (("spl1", 1, (0, 1, 2, 5)), ("spl0", -1, (1, 2, 3, 6))):
        for v in starts:
            cl = CPClient(); ends = []; cl.end = lambda I, st, i, name: ends.append(i)
            outs = Interp(p, cl).run(n, (), {M: v, ("g", "_sigflags"): 0})
            if not outs: r.viol("counter", r.func(n), "%s does not return" % n)
            for ret, mem, P in outs:
                r.count("counter evaluations")
                if mem.get(M) != v + k: r.viol("counter", r.func(n), "%s does not change the hold counter by %+d" % (n, k))
    K = r.kernel(c, [("main", 0)])
    r.set("hold_and_release_sites", len(c.sites))
    r.need("hold_and_release_sites", 60); r.need("counter_writes", 2)
