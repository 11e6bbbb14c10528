"""Evaluation of every command: exec_command and the functions of its file by constant propagation;
functions of other files are steps whose possible results come from the typestate engine's return analysis."""
from letters import *
import kernel
GLOB = ("ed_execute", "global")
LETTERS = "=@EGHPQVWZ[]acdefghijklmnpqrstuvwxz!#\n"
def rets(prog, n):
    f = prog.defined.get(n)
    if f is None: return (None,)
    if f.ret == "void": return (None,)
    m = kernel.base_retmasks(prog).get(n, kernel.TOP)
    if f.ret == "ptr": return tuple(v for v, b in ((0, kernel.ZERO), (NZ, kernel.POS)) if m & b) or (None,)
    if m == kernel.TOP: return (None,)
    out = [k for k in range(kernel.LO, 0) if m & kernel.atom(k)]
    if m & kernel.NEG: out.append(-77)
    if m & kernel.ZERO: out.append(0)
    if m & kernel.NONNEG & ~kernel.ZERO: out.append(77)
    return tuple(out)
class CmdClient(CPClient):
    prefix = 2
    depth = True
    def __init__(s, prog):
        s.p = prog; s.home = prog.defined["exec_command"].file; s.steps = 0; s.sites = set()
    def inline(s, n): return s.p.defined[n].file == s.home
    def step(s, I, st, i, n, args): return None        # None | P | [(ret, P, delta)]
    def call(s, I, st, i, n, args):
        if n is None: return [(None, s.nextP(I, st, i, "?", args), {})]
        if n in ("isspace", "isblank") and isinstance(args[0], int) and not -1 <= args[0] < 128: return [(0, st.P, {})]
        if n in CT or n.startswith("llvm.") or n.startswith("__ctype"): return None
        f = s.p.defined.get(n)
        if f is not None and s.inline(n) and not (n == "exec_command"): return None
        s.steps += 1; s.sites.add((i.func.name, i.id))
        r = s.step(I, st, i, n, args)
        if isinstance(r, list): return r
        P = st.P if r is None else r[0]
        d = {l: None for l in I.writes.get(n, ())} if f is not None else {}
        if n in noreturn(s.p): return []
        if f is None:
            for o in i.ops:
                l = I.loc(st, o) if o[0] == "v" else None
                if l is not None and l[0] == "l": d[l] = None
        else:
            for o in i.ops:
                l = I.loc(st, o) if o[0] == "v" else None
                if l is not None and l[0] == "l": d[l] = None
        return [(v, P, d) for v in rets(s.p, n)]
    def nextP(s, I, st, i, n, args):
        r = s.step(I, st, i, n, args)
        return st.P if r is None or isinstance(r, list) else r[0]
class CmdInterp(Interp):
    pass
def command(prog, client, c, mem=None, P=None, opt=0, entry="exec_command"):
    """[(ret, mem, P)] of the command given by byte or text c"""
    t = c if isinstance(c, (str, bytes, tuple, list)) else (c,)
    m = {OPT: opt, INP: ("p", "in", 0)}
    for k, b in enumerate(t): m[("p", "in", k)] = wrap(ord(b) if isinstance(b, str) else b, 8)
    if mem: m.update(mem)
    I = Interp(prog, client); I.MAX = 1500000
    return I, I.run(entry, (None,), m, P)
