from kernel import *
import ir
from ir import field_of
LINK = {"q_forw", "q_back"}
FIELDS = {("ed_core", "sp"): "macro frames", ("ed_core", "stack_frame"): "macro frames", ("ed_file", "handle"): "record of the open file",
          ("ed_file", "inode"): "record of the open file", ("ed_file", "is_writable"): "record of the open file"}
DEQUE = {"ed_line_node": "line list", "ed_undo_node": "undo history", "ed_global_node": "global-command list", "ed_text_node": "pending text queue"}
def base_of(op, f):
    """value a field pointer is computed from"""
    for _ in range(6):
        if op[0] == "gep": op = op[1]; continue
        if op[0] == "v":
            i = f.inst[op[1]]
            if i.op == "getelementptr": op = i.ops[0]; continue
        return op
    return op
def same(a, b, f):
    if a == b: return True
    if a[0] == "v" and b[0] == "v":
        x, y = f.inst[a[1]], f.inst[b[1]]
        if x.op == "load" and y.op == "load":
            return ir.field_of(x.ops[0], f) == ir.field_of(y.ops[0], f) and ir.field_of(x.ops[0], f) is not None
    return False
class C(Client):
    cap = 8
    def __init__(s, cache): s.cache = cache; s.seen = set()
    def site(s, i):
        if i.op != "store": return None
        if i.ops[1][0] == "g":
            return "cached line position" if i.ops[1][1] in s.cache else None
        q = field_of(i.ops[1], i.func)
        if q is None: return None
        if q[1] in LINK:
            if same(base_of(i.ops[1], i.func), i.ops[0], i.func): return None     # empty ring: both links to itself
            return DEQUE.get(q[0], q[0])
        if q in FIELDS: return FIELDS[q]
        if q[0] == "ed_register" and q[1] in ("fp", "path") or q[0] == "ed_path": return "record of a register file"
        if q[0].startswith("ed_state") and q[1] == "lines": return "line count"
        return None
    def direct(s, f): return any(i.callee in ("spl0", "spl1", "activate_signals") for i in f.calls()) or any(s.site(i) for i in f.all())
    def inst(s, K, st, i):
        t = s.site(i)
        if t:
            s.seen.add(i)
            if st.P == 0: K.report("held", i, "%s changed while signals are not held off" % t, st)
        return None
    def call(s, K, st, i, name):
        if name == "activate_signals": return [(0 if st.P == -1 else st.P, TOP)]
        if name in ("spl1", "spl0"):
            if st.P == -1: return [(-1, TOP)]
            if name == "spl1": return [(min(st.P + 1, 6), TOP)]
            if st.P == 0: return []
            return [(st.P - 1, TOP)]
        return None
def run(r):
    r.explanation = ("Path-sensitive interprocedural typestate over the hold depth from main; every store to a link field of the four rings, the line "
                     "count, the cached line position, the macro frames and the open-file and register records is an obligation: depth >= 1.")
    r.rule("held", "after signals were activated, the store is reached with signals held off, in every calling context")
    r.assumptions.append("A ring made empty by pointing a head to itself is atomic for the purpose (it is idempotent)")
    p = r.prog; f = r.func("get_line_node"); r.func("activate_signals")
    cache = {g["name"] for g in p.globals.values() if g.get("fn") == "get_line_node" and not g["const"]}
    c = C(cache)
    r.kernel(c, [("main", -1)])
    for i in c.seen: r.count("stores: " + c.site(i))
    r.set("stores_checked", len(c.seen)); r.need("stores_checked", 60)
