"""Cases of the list-editing functions analysed by shape.py, shared by P06, P08 and P09."""
from shape import *
from ir import AnalysisError, field_of
F0 = L(1, f=1)
def cases():
    """(function, args, N, dot, description)"""
    out = []
    FR = {"first line": 1, "an inner first line": L(2, f=1)}
    for fn, F in FR.items():
        for tn, t in (("one line", 0), ("several lines", L(1, t=1))):
            T = addv(F, t)
            for nn, n in (("up to the last line", 0), ("before the last but one line", L(2, n=1)), ("before the last line", 1)):
                N = addv(T, n)
                out.append(("delete_lines", (F, T), N, L(0, d=1), "%s, %s %s" % (tn, fn, nn)))
                if True:
                    out.append(("join_lines", (F, T), N, L(0, d=1), "%s, %s %s" % (tn, fn, nn)))
                    T2 = F if t == 0 else addv(F, 1)
                    out.append(("substitute_lines", (F, T2, NZ, 1, 0, 0), addv(T2, n), L(0, d=1), "%s, %s %s" % ("one line" if t == 0 else "two lines", fn, nn)))
                # move: destination before / after, adjacent / distant
                dests = []
                if F == 1: dests.append(("already there", 0))
                else:
                    dests += [("already there", addv(F, -1)), ("to the top", 0), ("one line up", addv(F, -2))]
                dests.append(("already at the end of itself", T))
                if n: dests += [("to the end", N)]
                if n and n != 1: dests += [("one line down", addv(T, 1))]
                for dn, A in dests:
                    out.append(("move_lines", (F, T, A), N, L(0, d=1), "%s, %s %s, %s" % (tn, fn, nn, dn)))
                    out.append(("copy_lines", (F, T, A), N, L(0, d=1), "%s, %s %s, %s" % (tn, fn, nn, dn)))
                if n == 1:
                    out.append(("move_lines", (F, T, addv(T, L(2, a=1))), addv(T, L(4, a=1, n=1)), L(0, d=1), "%s, %s, further down" % (tn, fn)))
                if F != 1:
                    N2 = addv(N, L(2, a=1)); G = addv(F, L(2, a=1)); H = addv(T, L(2, a=1))
                    out.append(("move_lines", (G, H, L(1, f=1)), N2, L(0, d=1), "%s, %s %s, further up" % (tn, fn, nn)))
    for A, N, w in ((0, 0, "to an empty buffer"), (0, L(1, n=1), "before the first line"), (L(1, a=1), L(1, a=1), "after the last line"), (L(1, a=1), L(2, a=1, n=1), "inside the buffer")):
        out.append(("append_lines", (A,), N, A, w))
        out.append(("read_stream", (NZ, A, None), N, A, w))
        out.append(("read_stream_r", (NZ, A, None), N, A, w))
    return out
class CC(SClient):
    def __init__(s, prog, inl): SClient.__init__(s, prog); s.inl = inl
    def models(s, I, st, i, n, args):
        if n in ("get_stdin_line", "get_stream_line", "shift_text_node"): return [(NZ, st.P, {}), (0, st.P, {})]
        if n == "put_buffer_line":
            dot = st.mem.get(fld(S0, "dot")); a = I.at(st.mem, dot); ra = region(a)
            if ra is None: I.unresolved += 1; return [(0, st.P, {})]
            b = st.mem.get(fld(ra, "q_forw"), I.default(ra, "q_forw"))
            k, v = I.fresh(st.mem, "new")
            d = {("count",): k, fld(ra, "q_forw"): v, fld(region(v), "q_back"): a, fld(region(v), "q_forw"): b, fld(region(b), "q_back"): v,
                 fld(S0, "dot"): addv(dot, 1), fld(S0, "lines"): addv(st.mem.get(fld(S0, "lines")), 1)}
            return [(NZ, st.P, d), (0, st.P, {})]
        if n == "substitute_matching":
            d = args[2]
            return [(0, st.P, {d: NZ}), (0, st.P, {d: 0}), (-2, st.P, {})]
        if n in ("fseeko", "fseek", "fwrite", "fread", "ftello"): return [(None, st.P, {})]
        return None
class UC(SClient):
    def __init__(s, prog, inl): SClient.__init__(s, prog); s.inl = inl
def helpers(prog, roots, stop):
    """editor functions reached from `roots` without passing a modelled one"""
    seen = set(); st = list(roots)
    while st:
        n = st.pop()
        if n in seen or n in stop or n not in prog.defined: continue
        seen.add(n); st += prog.callees[n]
    return seen
STOP = {"get_line_node", "reset_undo_queue", "delete_global_nodes", "reset_global_queue", "get_stdin_line", "get_stream_line", "get_buffer_line",
        "substitute_matching", "put_buffer_line", "get_extended_line", "display_lines", "realloc_buffer", "transfer_marks"}
def links(I, m):
    out = {}
    for k, v in m.items():
        R = region(k)
        if R and R[0] == "fld" and R[1][0] in ("n", "new") and R[2] in LINK:
            if I.default(R[1], R[2]) != v: out[k] = v
    return out
def statef(m, S): return {k[1][2]: v for k, v in m.items() if region(k) and k[1][0] == "fld" and k[1][1] == S}
def clean(m): return {k: v for k, v in m.items() if not (k[0] == "vis" or region(k) and k[1][0] == "fld" and k[1][1][0] == "l")}
def evaluate(prog, case, modified=0):
    fn, args, N, dot, desc = case
    k = len(prog.defined[fn].args) - 1
    args = tuple(args) + (None,) * (k - len(args)) + (ED,)
    inl = helpers(prog, [fn], STOP)
    I = Shape(prog, CC(prog, inl), N)
    m = I.initial(dot, is_modified=modified)
    m[fld(("exec",), "global")] = 0
    return I, m, I.run(fn, args, m)
def chain(prog, m, case, N):
    fn, args = case
    k = len(prog.defined[fn].args) - 1
    I = Shape(prog, CC(prog, helpers(prog, [fn], STOP)), N)
    return I, I.run(fn, tuple(args) + (None,) * (k - len(args)) + (ED,), clean(m))
def undo(prog, m, N, glob=0):
    I = Shape(prog, UC(prog, helpers(prog, ["undo_last_command"], STOP)), N); I.VISITS = 24
    m = clean(m); m[fld(("exec",), "global")] = glob
    return I, I.run("undo_last_command", (ED,), m)
