"""Ranges handed to the functions that work on lines, by case analysis over affine positions."""
from cmds import *
from common import *
from shape import Shape, L, mk, isL, lin, addv, sign
START, END, ADDRS = ("ed_region", "start"), ("ed_region", "end"), ("ed_region", "addrs")
LINES, DOT, EMPTY = ("ed_state", "lines"), ("ed_state", "dot"), ("ed_state", "is_empty")
# name: (index of first, index of last, index of the line to go after or None, may the range be (0, 0))
USE = {"delete_lines": (0, 1, None, False), "join_lines": (0, 1, None, False), "move_lines": (0, 1, 2, False), "copy_lines": (0, 1, 2, False),
       "substitute_lines": (0, 1, None, False), "append_to_register": (0, 1, None, False), "filter_lines": (0, 1, None, "empty"), "display_lines": (0, 1, None, True),
       "write_file": (2, 3, None, "empty"), "write_pipe": (1, 2, None, "empty"), "append_lines": (None, None, 0, False), "read_file": (None, None, 1, False),
       "read_pipe": (None, None, 1, False), "append_from_register": (None, None, 0, False), "get_line_node": (None, None, 0, False)}
SCROLL = set("zZ[]")
class Aff(Interp):
    """constant propagation with affine values"""
    def bin(self, i, a, b): return Shape.bin(self, i, a, b)
    def zero(self, v, w=64): return Shape.zero(self, v, w)
    def cmp(self, st, i, a, b):
        if isL(a) or isL(b): return Shape.cmp(self, st, i, a, b)
        return Interp.cmp(self, st, i, a, b)
    def learn(self, st, op, v, truth_nz=None): return Shape.learn(self, st, op, v, truth_nz)
def ge(a, b):
    d = addv(a, b, -1)
    return None if d is None else sign(d) <= {0, 1} if not (sign(d) - {0, 1} and sign(d) & {0, 1}) else None
def cases():
    """(description, memory): every order of first, last and current line among 0..number of lines"""
    b, z = L(0, b=1), L(0, z=1)
    top = lambda m: [m, addv(addv(m, z), 1)] if m != 0 else [1, L(2, z=1)]
    out = []
    def add(n, s, e, k, dots):
        seen = set()
        for d in dots:
            if d not in seen: seen.add(d); out.append(("%d address%s, range %s,%s of %s lines, current line %s" % (k, "" if k == 1 else "es", sh(s), sh(e), sh(n), sh(d)), {START: s, END: e, ADDRS: k, LINES: n, DOT: d}))
    for k in (0, 1, 2):
        add(0, 0, 0, k, [0])
        prs = [(0, 0, 0)]
        for p1 in (1, L(2, a=1)):
            prs.append((p1, p1, p1))
            if k == 2:
                prs += [(0, p1, p1), (p1, 0, p1)]
                for q1 in (addv(p1, 1), addv(addv(p1, b), 2)): prs += [(p1, q1, q1), (q1, p1, q1)]
        for s, e, m in prs:
            for n in top(m): add(n, s, e, k, [e] if k == 0 else [e, 0, n])
    return out
def sh(v):
    x = lin(v)
    if x is None: return str(v)
    t = "+".join(k if c == 1 else "%d%s" % (c, k) for k, c in x[0])
    return (t + ("%+d" % x[1] if x[1] else "")) if t else str(x[1])
class C(CmdClient):
    def __init__(s, prog, r, ch, desc): CmdClient.__init__(s, prog); s.r = r; s.ch = ch; s.desc = desc; s.chk = 0; s.unk = 0; s.used = set()
    def bad(s, i, n, msg): s.r.viol("range", i, "command '%s' with %s: %s of %s" % (repr(s.ch)[1:-1], s.desc, msg, n), key="range:%s:%s" % (n, i.func.name))
    def step(s, I, st, i, n, args):
        N = st.mem.get(LINES)
        if n == "address_range":
            # destination: any line of the buffer; the current line may become any line, too
            out = [(-2, st.P, {})]
            vals = {0, st.mem.get(START), st.mem.get(END), N} | ({addv(st.mem.get(START), -1)} if sign(addv(st.mem.get(START, 0), -1) if st.mem.get(START) is not None else None) <= {0, 1} else set())
            for e in vals:
                if e is None: continue
                for k in (0, 1): out.append((k, st.P, {ADDRS: k, START: e, END: e}))
            return out
        if n in USE and N is not None and s.ch not in SCROLL or n == "mark_global_nodes":
            f, t, af, emp = USE.get(n, (None, None, None, False))
            if n == "mark_global_nodes": x, y = st.mem.get(START), st.mem.get(END)
            else: x, y = (args[f], args[t]) if f is not None else (None, None)
            s.used.add(n)
            if f is not None or n == "mark_global_nodes":
                if lin(x) is None or lin(y) is None or lin(N) is None: s.unk += 1
                elif not ((x == 0 and y == 0) and (emp is True or emp == "empty" and N == 0)):
                    s.chk += 1
                    if sign(addv(x, 1, -1)) != {1} and not sign(addv(x, 1, -1)) <= {0, 1}: s.bad(i, n, "first line %s of %s may be below 1 in the call" % (sh(x), sh(y)))
                    elif not sign(addv(y, x, -1)) <= {0, 1}: s.bad(i, n, "the range %s,%s is not ordered in the call" % (sh(x), sh(y)))
                    elif not sign(addv(N, y, -1)) <= {0, 1}: s.bad(i, n, "last line %s exceeds the %s lines in the call" % (sh(y), sh(N)))
                else: s.chk += 1
            if af is not None:
                v = args[af]
                if lin(v) is None or lin(N) is None: s.unk += 1
                else:
                    s.chk += 1
                    if n == "move_lines" and None not in (lin(x), lin(y)) and not (sign(addv(addv(x, 1, -1), v, -1)) <= {0, 1} or sign(addv(v, y, -1)) <= {0, 1}):
                        s.bad(i, n, "the destination %s lies inside the range %s,%s in the call" % (sh(v), sh(x), sh(y)))
                    if not sign(v) <= {0, 1} or not sign(addv(N, v, -1)) <= {0, 1}: s.bad(i, n, "the line to go after, %s, is not among 0..%s in the call" % (sh(v), sh(N)))
        if n == "delete_lines":
            d = {l: None for l in I.writes.get(n, ())}
            if lin(args[0]) is not None and lin(args[1]) is not None and lin(N) is not None:
                d[LINES] = addv(addv(N, args[1], -1), addv(args[0], -1)); d[DOT] = addv(args[0], -1)
            return [(v, st.P, d) for v in rets(s.p, n)]
        return None
class BC(CPClient):
    """evaluation of the addresses in front of a command"""
    prefix = 1
    def __init__(s, prog, addrs): s.p = prog; s.addrs = addrs; s.f = prog.defined["address_range"]
    def inline(s, n): return s.p.defined[n].file == s.f.file and n != "next_address"
    def call(s, I, st, i, n, args):
        if n == "next_address":
            l = I.loc(st, i.ops[0])
            w = {INP: None}
            if isinstance(st.mem.get(ADDRS), int) and st.mem[ADDRS] > 2: w[ADDRS] = 2         # more than two addresses count as two
            return [(-2, st.P, w), (0, st.P, w)] + [(1, st.P, w | {l: v}) for v in s.addrs]
        return None
def bounds(r):
    p = r.prog; f = r.func("address_range"); r.func("next_address")
    x, z = L(0, x=1), L(0, z=1)
    for n in (0, L(1, z=1)):
        dots = [0] if n == 0 else [0, n, 1]
        for d0 in dots:
            for opt in (0, 0x8, 0x2000):
                vals = [mk((("x", -1),), -2), -1, 0, 1, n, addv(n, 1), addv(addv(n, 2), x)]
                cl = BC(p, [v for v in vals]); I = Aff(p, cl); I.MAX = 3000000
                for c0 in (",", ";", "x"):
                    out = I.run("address_range", (None,), {OPT: opt, INP: ("p", "in", 0), ("p", "in", 0): ord(c0), LINES: n, DOT: d0}, None)
                    for ret, mem, P in out:
                        r.count("address evaluations")
                        if isinstance(ret, int) and ret < 0: continue
                        for loc, nm in ((START, "first address"), (END, "second address"), (DOT, "current line")):
                            v = mem.get(loc); r.count("accepted positions checked")
                            if lin(v) is None: r.viol("bounds", f, "the %s accepted has an unknown value" % nm)
                            elif not sign(v) <= {0, 1} or not sign(addv(n, v, -1)) <= {0, 1}:
                                r.viol("bounds", f, "with %s lines and current line %s, %s %s is accepted" % (sh(n), sh(d0), nm, sh(v)))
                        k = mem.get(ADDRS)
                        if ret != k or k not in (0, 1, 2): r.viol("bounds", f, "reports %s addresses but records %s" % (ret, k))
                        if k in (0, 1) and mem.get(START) != mem.get(END): r.viol("bounds", f, "records different first and second addresses although %s was given" % ("one" if k else "none"))
                        if k == 0 and mem.get(START) != mem.get(DOT): r.viol("bounds", f, "records %s instead of the current line when no address was given" % sh(mem.get(START)))
def display(r):
    p = r.prog; f = r.func("display_lines")
    class D(CPClient):
        def inline(s, n): return False
        def call(s, I, st, i, n, args):
            if n in p.defined and n not in ("spl1", "spl0"): hit.append(i); return []
            return None
    for n in (1, L(1, z=1)):
        hit = []; I = Aff(p, D()); I.MAX = 200000
        out = I.run("display_lines", (0, 0, None), {LINES: n, DOT: 0}, None); r.count("displays of line 0 evaluated")
        if hit: r.viol("zero", hit[0], "printing line 0 of a buffer with lines goes on to %s" % hit[0].callee)
        if any(not (isinstance(v, int) and v < 0) for v, _, _ in out): r.viol("zero", f, "printing line 0 of a buffer with lines does not fail")
    hit = []; I = Aff(p, D()); out = I.run("display_lines", (0, 0, None), {LINES: 0, DOT: 0}, None)
    if hit: r.viol("zero", hit[0], "printing an empty buffer goes on to %s" % hit[0].callee)
class EC(CPClient):
    """the mark of an empty buffer against the number of lines"""
    prefix = 0
    def __init__(s, prog, hit, prim, keep): s.p = prog; s.hit = hit; s.prim = prim; s.keep = keep; s.n = 0
    def inline(s, n): return False
    def check(s, i, mem, what):
        s.n += 1
        if mem.get(EMPTY) != 0 and mem.get(LINES) != 0: s.hit(i, what)
    def call(s, I, st, i, n, args):
        if n == "spl0": s.check(i, st.mem, "signals are released"); return [(None, st.P, {})]
        if n in s.prim:
            return [(NZ, st.P, {LINES: L(1, z=1)}), (0, st.P, {})]
        if n in s.p.defined and n not in noreturn(s.p):
            d = {l: None for l in I.writes.get(n, ())}
            if i.ops:
                for o in i.ops:
                    l = I.loc(st, o) if o[0] == "v" else None
                    if l is not None and l[0] == "l": d[l] = None
            alts = [d]
            if LINES in d or EMPTY in d:
                if n == "append_undo_node":                     # touches the remembered previous state only (rule checked in empty())
                    return [(v, st.P, {k: x for k, x in d.items() if k not in (LINES, EMPTY)}) for v in rets(s.p, n)]
                if n not in s.keep: s.check(i, st.mem, "%s is called" % n)
                alts = [{**d, LINES: 0, EMPTY: None}, {**d, LINES: L(1, z=1), EMPTY: 0}]
                if n == "delete_lines": alts = [{**d, LINES: v, EMPTY: st.mem.get(EMPTY)} for v in ((0,) if st.mem.get(LINES) == 0 else (0, L(1, z=1)))]
            return [(v, st.P, a) for v in rets(s.p, n) for a in alts]
        return None
    def store(s, I, st, i, l, v):
        if l == EMPTY and v != 0 and st.mem.get(LINES) != 0 and I.zero(v, 8) != 1: s.hit(i, "the mark is set")
        if l == LINES and isinstance(v, tuple) and not isL(v): st.mem[LINES] = None
def empty(r):
    p = r.prog
    lines = {f.name for f in p.defined.values() for i in f.all() if i.op == "store" and field_of(i.ops[1], f) == LINES}
    marks = {f.name for f in p.defined.values() for i in f.all() if i.op == "store" and field_of(i.ops[1], f) == EMPTY}
    prim = {"append_line_node", "put_buffer_line"}
    for n in prim: r.func(n)
    init = {n for n in lines & marks if not any(x in p.callees[n] for x in p.defined)}
    for x in sorted(p.reach(["append_undo_node"]) & set(p.defined)):
        for i in p.defined[x].all():
            if i.op == "call" and i.callee in init:
                q = p.defined[x].inst.get(i.ops[-1][1]) if i.ops[-1][0] == "v" else None
                r.count("initialisations of a state from the undo history")
                if not (q is not None and q.op == "getelementptr" and any(e[0] in ("idx", "arr") and e[1][0] == "c" and e[1][1] == 1 for e in q.path)):
                    r.viol("empty", i, "recording a change resets the state of the buffer itself")
    users = {f.name for f in p.defined.values() if set(p.callees[f.name]) & prim} - prim
    ranged = {n for n, u in USE.items() if u[0] is not None and u[3] is False} | {"resubstitute"}
    for n in sorted((marks | users) - init):
        f = p.defined[n]
        if n in ranged and n not in marks: r.count("adders that start from a buffer with lines"); continue
        for n0, e0 in ((0, None), (L(1, z=1), 0)):
            if n0 == 0 and n in ranged: continue
            def hit(i, what): r.viol("empty", i, "a buffer with lines may be marked as empty when %s" % what)
            cl = EC(p, hit, prim, set()); I = Aff(p, cl); I.MAX = 400000
            m = {LINES: n0}
            if e0 is not None: m[EMPTY] = e0
            out = I.run(n, tuple(None for _ in f.args), m, None)
            r.count("functions evaluated for the empty mark")
            for v, mem, P in out:
                r.count("paths for the empty mark")
                if mem.get(EMPTY) != 0 and mem.get(LINES) != 0: r.viol("empty", f, "a buffer with lines may be marked as empty when %s returns %s" % (n, v if isinstance(v, int) else "something"))
    r.need("paths for the empty mark", 20)
def run(r):
    p = r.prog; ec = r.func("exec_command")
    r.explanation = ("Case analysis with affine values: for every command letter, every number of addresses and every order of first line, last line, current line and buffer end, exec_command is evaluated; "
                     "each call of a function that works on a range or position of lines is an obligation. Buffer sizes and positions are symbols, so each case stands for all sizes.")
    r.rule("bounds", "addresses in front of a command are accepted only if first, second and current line lie within 0..number of lines, and their number is recorded truly")
    r.rule("range", "a range given to a function that prints, deletes, moves, copies, joins, substitutes, writes, marks or filters lines is ordered and lies within 1..number of lines (or is the empty range of an empty buffer); a position to go after lies within 0..number of lines")
    r.rule("zero", "printing line 0, which an error-free command may leave as the current line, is refused")
    r.rule("empty", "a buffer that has lines is never marked as logically empty (a mark that makes the next append or read replace a line)")
    for n in USE: r.func(n)
    empty(r); bounds(r); display(r)
    used = {}; n0 = 0
    for desc, m0 in cases():
        for ch in list(LETTERS) + ["<1m", "<1t", "<1@"]:
            if ch in SCROLL: continue
            cl = C(p, r, ch, desc)
            m = {OPT: 0, INP: ("p", "in", 0)}
            for k, b in enumerate(ch): m[("p", "in", k)] = ord(b)
            m.update(m0)
            if m0[LINES] != 0: m[EMPTY] = 0                                                      # rule `empty'
            I = Aff(p, cl); I.MAX = 2000000
            out = I.run("exec_command", (None,), m, None)
            r.count("commands evaluated"); r.count("paths", len(out)); r.count("ranges and positions checked", cl.chk); r.count("ranges and positions unknown", cl.unk)
            for u in cl.used: used.setdefault(u, set()).add(ch)
    for n in sorted(set(USE) - {"get_line_node"}):
        if n not in used: raise AnalysisError("no command was seen to use " + n)
    r.set("functions that work on lines", len(used)); r.need("ranges and positions checked", 300); r.need("accepted positions checked", 500)
