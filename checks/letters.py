"""What exec_command runs for each input byte, by constant propagation."""
from cp import *
from ir import field_of, AnalysisError
OPT = ("ed_execute", "opt")
INP = ("ed_buffer", "input")
class LC(CPClient):
    """P = tuple of handlers called"""
    prefix = 6
    def __init__(s, prog, inl): s.p = prog; s.inl = inl; s.called = {}; s.bad = []; s.ncalls = 0
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, n, args):
        if n is None:
            s.bad.append(i); return [(None, (st.P or ()) + ("?",), {})]
        if n in ("isspace", "iswspace", "isblank"):
            if isinstance(args[0], int) and not -1 <= args[0] < 128: return [(0, st.P, {})]
            return None
        if n.startswith("__ctype"): return None
        f = s.p.defined.get(n)
        if f is None or n in s.inl: return None
        s.ncalls += 1
        return [(None, (st.P or ()) + (n,), {})]
def letters(prog, opts=(0,), text=lambda c: (c,), extra=None):
    """{(byte, opt): set of tuples of functions called}; helpers called for most bytes are looked into"""
    if "exec_command" not in prog.defined: raise AnalysisError("exec_command is missing")
    tab = {f for t in prog.tables.values() for f in t}
    inl = {"exec_command"}
    for rnd in range(4):
        out = {}; cnt = {}; bad = []; n = 0
        for o in opts:
            for c in range(256):
                cl = LC(prog, inl); I = Interp(prog, cl)
                m = {OPT: o, INP: ("p", "in", 0)}
                for k, b in enumerate(text(c)): m[("p", "in", k)] = wrap(b, 8)
                if extra: m.update(extra)
                outs = I.run("exec_command", (None,), m, ())
                out[c, o] = {P for _, _, P in outs}; n += cl.ncalls
                for i in cl.bad: bad.append((c, o, i))
                for f in {x for _, _, P in outs for x in P}: cnt[f] = cnt.get(f, 0) + 1
        letters.cnt = cnt
        more = {f for f in cnt if f in prog.defined and f not in tab and cnt[f] > 40 * len(opts)} - inl
        if not more: return out, bad, n
        inl |= more
    return out, bad, n
