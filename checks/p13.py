from common import *
import kernel
from kernel import Client, LT0, Split, NONNEG, NONZ, ZERO, TOP, PTR, POS, atom, show_mask
ERR = ("ed_execute", "err")
IO = {("ed_display", "io_f"), ("ed_substitute", "sio_f"), ("ed_region", "addrs")}
FAIL = atom(-2) | atom(-4)
ENDS = {"fread": ZERO, "getc": atom(-1), "fgetc": atom(-1), "_IO_getc": atom(-1), "getc_unlocked": atom(-1)}     # nothing read: end of file or an error
class C(Client):
    """P = 1 when an error message was recorded since the command began"""
    tracked = frozenset(IO); cap = 40; fork = True
    def __init__(s, p):
        own = {("g", i.ops[1][1]) for f in p.defined.values() for i in f.all() if i.op == "store" and i.ops[1][0] == "g" and i.ops[0][0] == "v" and f.inst[i.ops[0][1]].callee == "calloc"}
        s.tracked = frozenset(IO | own | {("g", x.ops[0][1]) for f in p.defined.values() for i in f.all() if s.ev(i) and i.ops[0][0] == "v" for x in [f.inst[i.ops[0][1]]] if x.op == "load" and x.ops[0][0] == "g"})
        s.posargs = {n for n, f in p.defined.items() if any(i.op == "icmp" and i.ops[0][0] == "a" and i.ops[1][0] == "null" or i.op == "phi" and i.ty == "ptr" and any(o[0] == "a" for o, _ in i.ops) for i in f.all())}
        s.low = p.reach(["get_des_char"]) | {"get_des_char"}
        s.p = p; s.dom = {}; s.sites = set(); s.ends = set(); s.msgs = set(); s.flow = {n for n, f in p.defined.items() if "exec_command" in p.reach([n]) | {n}}
    def ev(s, i): return i.op == "store" and field_of(i.ops[1], i.func) == ERR
    def direct(s, f): return f.name in ("exec_command", "address_range") or any(s.ev(i) for i in f.all())
    def entry(s, K, P, f): return 0 if f.name in ("exec_command", "address_range") else 0 if P != 1 and f.name in ("get_stream_line", "get_des_char") else P
    def leave(s, K, P, f, rm):
        if P in (0, 1) or f.name in s.low: return P
        return "eof" if P == "eof" and f.ret == "ptr" and rm & ZERO else 0
    def inst(s, K, st, i):
        if s.ev(i):
            s.sites.add(i)
            m = K.val(st, i.ops[0])
            o = i.ops[0]
            if o[0] == "v" and i.func.inst[o[1]].op == "load" and field_of(i.func.inst[o[1]].ops[0], i.func) == ERR: return None
            return [0] if m == ZERO else [1]
        if i.op == "load" and field_of(i.ops[0], i.func) in IO: return [Split(st.P, {field_of(i.ops[0], i.func): NONNEG})]     # a set of display flags
        if i.op == "ret" and i.func.name in s.low:
            m = K.val(st, i.ops[0])
            if i.func.name == "get_des_char":
                if st.P in (0, "read") and m == atom(-1): return []     # the block in hand is not empty
            elif st.P == "read" and m & (LT0 | ZERO): K.report("explained", i, "%s can deliver nothing although data was read, and record no message" % i.func.name, st)
        if i.op == "ret" and i.func.name in ("exec_command", "address_range"):
            m = K.val(st, i.ops[0]) & FAIL
            s.ends.add((i, st.P))
            if m and st.P != 1: K.report("explained", i, "%s can end with failure status %s and no message recorded" % (i.func.name, show_mask(m)), st)
        return None
    def loadmask(s, K, st, i):
        if i.func.name == "realloc_buffer" and i.ops[0] == ("a", 0): return POS      # a buffer with room exists
        if field_of(i.ops[0], i.func) == ("ed_file", "list"): return POS
        if i.ty == "ptr" and any(x.op == "call" and x.callee == "strlen" and x.idx < i.idx and same(i.func, x.ops[0], ("v", i.id)) for x in i.block.insts): return POS      # a string of known length
        if i.ty == "ptr" and i.ops[0][0] == "g" and s.sized(i): return POS
        if i.ty == "ptr" and s.tested(i): return POS
        return None
    def tested(s, i):
        """the branch into this block has just found the same variable not to be null"""
        f = i.func; b = i.block
        pr = [x for x in f.blocks if b.id in x.succ]
        if len(pr) != 1 or any(x.op in ("call", "store") and x.idx < i.idx for x in b.insts): return False
        t = pr[0].insts[-1]
        if t.op != "br" or not t.ops or t.ops[0][0] != "v": return False
        c = f.inst[t.ops[0][1]]
        return c.op == "icmp" and c.ops[1][0] == "null" and c.pred in ("eq", "ne") and b.id == (t.t if c.pred == "ne" else t.f) and same(f, c.ops[0], ("v", i.id))
    def sized(s, i):
        """every way to the load passes a successful or already explained request of room for the same buffer"""
        if i not in s.dom:
            f = i.func; seen = set(); todo = [0]
            while todo:
                b = todo.pop()
                if b in seen: continue
                seen.add(b)
                for x in f.blocks[b].insts:
                    if x.op == "store" and s.via(x.ops[1], f) == i.ops[0]: break
                    if x is i: s.dom[i] = False; return False
                    if x.op == "call" and x.callee == "realloc_buffer" and x.ops[0] == i.ops[0]: break
                else: todo += f.blocks[b].succ
            s.dom[i] = True
        return s.dom[i]
    def via(s, o, f):
        """the variable whose text is written to"""
        for _ in range(4):
            if o[0] == "gep": o = o[1]; continue
            x = f.inst[o[1]] if o[0] == "v" else None
            if x is None: return None
            if x.op == "load": return x.ops[0]
            if x.op != "getelementptr": return None
            o = x.ops[0]
    def call(s, K, st, i, name):
        if name == "unwind_stack_frame": return [(st.P, K.val(st, i.ops[0]))]
        if name in ("gettext", "strerror"): return [(st.P, POS)]
        if name == "spl0": return [(st.P, TOP)]
        if name == "get_line_node": return [(st.P, POS)]
        if name == "utf8_char_size": return [(st.P, NONZ)]
        if name == "strchr" and i.ops[1][0] == "c" and i.ops[1][1] == 10: return [(st.P, POS)]        # commands end with a newline
        if name == "feof": return [(st.P, TOP)] if st.P == 1 else [("eof", NONZ)] + ([("bad" if st.P == "end" else st.P, ZERO)] if st.P != "eof" else [])
        if name == "ferror" and st.P == "bad": return [(st.P, NONZ)]
        if name in ENDS and st.P != 1: 
            m = NONNEG
            if name == "fread":
                n = [o[1] for o in i.ops[1:3]] if all(o[0] == "c" for o in i.ops[1:3]) else None
                if n and n[0] * n[1] <= 17:
                    m = 0
                    for k in range(n[1] + 1): m |= atom(k)
            return [("end", ENDS[name]), ("read", m & ~ENDS[name])]
        if name == "realloc_buffer" and i.func.name != name: return [(1, ZERO), (st.P, POS)]
        return None
def same(f, a, b):
    """the same expression"""
    if a == b: return True
    if a[0] != b[0]: return False
    if a[0] == "v":
        x, y = f.inst[a[1]], f.inst[b[1]]
        return x.op == y.op and x.op in ("load", "getelementptr", "sext", "zext") and x.sty == y.sty and len(x.ops) == len(y.ops) and len(x.path) == len(y.path) \
            and all(same(f, o, q) for o, q in zip(x.ops, y.ops)) and all(same(f, o, q) for o, q in zip(x.path, y.path))
    if a[0] in ("idx", "arr"): return same(f, a[1], b[1])
    return False
def run(r):
    p = r.prog
    for n in ("exec_command", "address_range", "realloc_buffer", "get_stream_line"): r.func(n)
    r.explanation = ("Path-sensitive interprocedural typestate from exec_command and address_range: recording a message is an event; a path that returns a failure status "
                     "from either function without that event since its beginning is a violation.")
    r.rule("explained", "a command or an address that fails with a general or fatal error has recorded a message since it began")
    c = C(p)
    r.kernel(c, [("exec_command", 0), ("address_range", 0)])
    x = C(p); out = []
    x.leave = lambda K, P, f, rm: out.append((P, rm)) if f.name == "realloc_buffer" else P
    K = kernel.Kernel(p, x, kernel.base_retmasks(p)); x.K = K; K.root("realloc_buffer", 0); K.run()
    if not out or any(P != 1 and rm & ZERO for P, rm in out): r.viol("explained", r.func("realloc_buffer"), "a request of room can fail without a message")
    r.set("message sites", len(c.sites)); r.need("message sites", 100)
    r.set("endings", len(c.ends)); r.need("endings", 2)
