from kernel import *
from common import *
LN, MOD = ("ed_state", "lines"), ("ed_state", "is_modified")
LOADS = {"read_file", "read_pipe", "filter_lines"}
class C(Client):
    """P = (hold depth, changed since signals were held, exempt)"""
    tracked = frozenset({LN, MOD}); cap = 60
    def __init__(s, prog):
        s.p = prog; s.sites = set(); s.ends = 0
        s.skip = exclusive(prog, {"undo_last_command", "init_ed_state"})
        s.reads = {n for n in prog.reach({"append_from_register"})}
    def ev(s, i):
        if i.op != "store": return False
        fl = field_of(i.ops[1], i.func)
        return fl == LN or fl is not None and fl[0] == "ed_line_node" and fl[1] in ("q_forw", "q_back")
    def direct(s, f): return f.name == "init_ed_state" or any(s.ev(i) or i.op == "store" and field_of(i.ops[1], i.func) == MOD for i in f.all())
    def inst(s, K, st, i):
        if s.ev(i) and i.func.name not in s.skip:
            s.sites.add(i)
            d, ch, ex = st.P
            return [(d, 1, ex)]
        if i.op == "load" and i.func.name in s.reads and s.direct(i.func) and field_of(i.ops[0], i.func) == LN:
            m = st.M.get(LN, TOP); d, ch, ex = st.P   # reading into an empty buffer / into another one
            return [Split((d, ch, x), {LN: k}) for k, x in ((m & ZERO, 1), (m & NONNEG & ~ZERO, ex)) if k]
        return None
    def call(s, K, st, i, name):
        d, ch, ex = st.P
        if name in LOADS and st.M.get(LN, TOP) == ZERO: return [((d, ch, 1), TOP, {LN: TOP, MOD: TOP})]
        if name == "init_ed_state": return [((d, 0, 1), TOP, {LN: TOP, MOD: TOP})]
        if name == "append_undo_node": return [(st.P, PTR)]
        if name == "get_line_node": return [(st.P, POS)]
        if name == "spl1": return [((min(d + 1, 6), ch, ex), TOP)]
        if name == "spl0":
            if d == 0: return []
            if d == 1:
                s.check(K, st, i, "signals are released")
                return [((0, 0, ex), TOP)]
            return [((d - 1, ch, ex), TOP)]
        return None
    def check(s, K, st, i, what):
        d, ch, ex = st.P
        if ch and not ex and st.M.get(MOD, TOP) & ZERO: K.report("mark", i, "the buffer was changed but may not be marked modified when %s" % what, st)
def run(r):
    p = r.prog
    for n in LOADS | {"exec_command", "append_line_node", "undo_last_command", "init_ed_state", "delete_lines", "append_undo_node", "get_line_node"}: r.func(n)
    r.explanation = ("Path-sensitive interprocedural typestate from exec_command, with the modified flag initially clear, for an empty and a non-empty buffer: every store that "
                     "changes the line count or the links of lines must be followed by setting the flag before signals are released (changes outside such a section are P02's subject).")
    r.rule("mark", "when signals are released after a change of the line list, the modified flag is set")
    r.assumptions.append("loading a file as the new contents, reading into an empty buffer and undo are the exceptions named in the property")
    c = C(p)
    r.kernel(c, [("exec_command", (0, 0, 0), {MOD: ZERO, LN: POS}), ("exec_command", (0, 0, 0), {MOD: ZERO, LN: ZERO})])
    r.set("changes analysed", len(c.sites)); r.need("changes analysed", 6)
