from cmds import *
from kernel import Client, TOP, ZERO, NONZ, atom
from common import *
from p27 import consts
MOD, LN, OPTF, GLOBF = ("ed_state", "is_modified"), ("ed_state", "lines"), ("ed_execute", "opt"), ("ed_file", "is_glob")
NAME = ("ed_file", "name")
EOFS, EMOD = (-1, -5, -6, -7), -3
LOSS = {"delete_lines", "reopen_ed_buffer", "init_ed_state", "read_file", "read_pipe"}
class C(CmdClient):
    """P = (whole buffer written to a named file, loaded or discarded, modified mark cleared without reason)"""
    forksel = True
    def __init__(s, prog, lines): CmdClient.__init__(s, prog); s.lines = lines; s.n = 0; s.clears = 0; s.writes = 0
    def step(s, I, st, i, n, args):
        w, l, b = st.P
        if n == "write_file":
            s.writes += 1
            named = not (isinstance(args[0], tuple) and args[0][:1] == ("p",) and args[0][1] == ("str", "/dev/null"))
            d = {x: None for x in I.writes.get(n, ()) if x not in (MOD, LN)}
            a, z = I.loc(st, i.ops[4]), I.loc(st, i.ops[5])
            def out(k):
                e = dict(d)
                if a: e[a] = k
                if z: e[z] = 4242
                return e
            return [(-2, (0, l, b), out(s.lines)), (0, (named, l, b), out(s.lines))] + [(0, (0, l, b), out(k)) for k in (0, s.lines - 1) if k >= 0 and k != s.lines]
        if n in ("file_name", "file_glob", "expand_shell_command"):
            d = {x: None for x in I.writes.get(n, ()) if x not in (MOD, LN, NAME)}
            ch = (33,) if n == "expand_shell_command" else (0, 97, 33) if n == "file_glob" else (0, 97)
            return [(0, st.P, d)] + [(("p", "fn", 0), st.P, dict(d, **{})|{("p", "fn", 0): c}) for c in ch]
        if n == "address_range": return [(v, st.P, {x: None for x in I.writes.get(n, ()) if x not in (MOD, LN)}) for v in (-2, 0, 2)]
        if n in LOSS: return ((w, l or i, b),)
        return None
    def store(s, I, st, i, loc, v):
        if loc == MOD or field_of(i.ops[1], i.func) == MOD:
            s.n += 1
            if v == 0 or v is None and not ored(i):
                s.clears += 1; w, l, b = st.P
                if not w: st.P = (w, l, b or i)
def ored(i):
    """the stored value is the old one with bits added"""
    v = i.ops[0]
    if v[0] == "c": return v[1] != 0
    d = i.func.values.get(v[1]) if v[0] == "v" and hasattr(i.func, "values") else None
    if d is None and v[0] == "v":
        for x in i.func.all():
            if x.id == v[1]: d = x
    if d is None: return False
    if d.op == "or":
        for o in d.ops:
            if o[0] == "c" and o[1]: return True
            if o[0] == "v":
                for x in i.func.all():
                    if x.id == o[1] and x.op == "load" and field_of(x.ops[0], i.func) == field_of(i.ops[1], i.func): return True
    if d.op == "select": return all(o[0] == "c" and o[1] for o in d.ops[1:])
    return False
LEAVE = 0
for _v in EOFS: LEAVE |= atom(_v)
SCRIPTED = option("SCRIPTED", 0x1000)
class M(Client):
    """the editor loop.  P = (leaving permitted by the last command, mark cleared without warning, warning status with the mark still set)"""
    tracked = frozenset({MOD, OPTF}); flags = frozenset({OPTF}); cap = 1500; fork = True
    def __init__(s, prog, r, scripted): s.p = prog; s.r = r; s.bit = s.bits = scripted; s.quits = 0
    def direct(s, f): return f.name in ("main", "init_ed_state") or s.home(f) and any(i.op == "call" and i.callee in ("exec_command", "init_ed_state") or i.op == "store" and field_of(i.ops[1], f) == MOD for i in f.all())
    def home(s, f): return f.file == s.p.defined["main"].file
    def ok(s, st):
        if st.P[0] or st.M.get(MOD, TOP) == ZERO: return True
        o = st.M.get(OPTF)
        return isinstance(o, tuple) and any(not (n & ~s.bit) for n in o[1])
    def inst(s, K, st, i):
        if i.op == "store" and field_of(i.ops[1], i.func) == MOD and i.func.name != "init_ed_state" and i.func.name not in s.skip:
            if not ored(i): return [(st.P[0], i.line, 0)]
        return None
    def again(s, K, st, i):
        if st.P[2]: K.report("once", i, "after the warning the buffer is still marked as modified, so that repeating the attempt only repeats the warning", st)
    def warned(s, K, st, i, what):
        if st.P[1]: K.report("warn", i, "the modified mark was cleared without a warning before %s" % what, st)
    def call(s, K, st, i, name):
        if not s.home(i.func): return None
        if name == "exec_command":
            s.r.count("command calls in the editor loop"); s.warned(K, st, i, "the next command")
            c = st.P[1]; s.again(K, st, i)
            return [((1, c, 0), LEAVE, {MOD: TOP}), ((0, c, 1), atom(EMOD), {MOD: TOP}), ((0, c, 0), TOP & ~LEAVE & ~atom(EMOD), {MOD: TOP})]
        if name == "get_stream_line":
            s.again(K, st, i)
            return [((0, st.P[1], 0), TOP)]
        if name in ("puts", "putchar", "printf", "fprintf", "fputs"):
            o = i.ops[name == "fprintf"]
            return [((st.P[0], 0 if o[0] in ("s", "c") else st.P[1], st.P[2]), TOP)]
        if name in ("quit", "next_edit"):
            s.quits += 1
            s.warned(K, st, i, "leaving")
            if not s.ok(st): K.report("leave", i, "the buffer can be given up here while it is modified, without a warning", st)
            if name == "next_edit": return [(st.P, TOP & ~LEAVE)]
        if name == "address_range": return [(st.P, TOP & ~LEAVE)]
        if name == "save_edit":         # runs the command `w name', whose statuses are those decided by rule quit
            return [((int(s.ok(st)), st.P[1], 0), TOP & ~LEAVE, {MOD: TOP}), ((1, st.P[1], 0), LEAVE, {MOD: TOP})]
        return None
OPTS = (0, ~(SCRIPTED | 0x2008)) + tuple(1 << b for b in range(18) if 1 << b != SCRIPTED)
def run(r):
    p = r.prog; ec = r.func("exec_command"); r.func("main")
    for n in LOSS | {"write_file", "undo_last_command", "quit", "get_stream_line"}: r.func(n)
    r.explanation = ("Constant propagation over exec_command and every command function with the buffer modified, for writes of the whole and of part of the buffer, successful or "
                     "not: where the modified mark is cleared, what is returned, and whether buffer contents can be given up; a typestate analysis of the editor loop from main: "
                     "leaving or loading another file requires an unmodified buffer, a command that permits it, or script mode; a warning accompanies clearing the mark.")
    r.rule("clear", "a command clears the modified mark only after the whole buffer was written to a named file")
    r.rule("sites", "other code never clears the mark, except when a new buffer is set up and in undo")
    r.rule("quit", "no command permits leaving, or gives the buffer up, while it is modified, except by Q, E or in script mode")
    r.rule("leave", "the editor loop leaves or loads the next file only with an unmodified buffer, with a command's permission or in script mode")
    r.rule("warn", "the editor loop clears the mark only together with a warning")
    r.rule("once", "the warning clears the mark, so that repeating the attempt goes ahead")
    r.rule("warned", "the quit and edit commands answer with the warning status while the buffer is modified")
    texts = [c for c in LETTERS if c not in "wW"] + [pre + c + x for pre in ("", "~") for c in "wW" for x in "\n \tqnpQx!"] + [pre + c + x for pre in ("", "~") for c in "eEfq" for x in "\n np" if pre + c != "~f"]
    for t in texts:
        files = t.strip("~")[:1] in set("wWeErfq")
        for g, ln, nm, op in [(g, ln, nm, op) for g in ((0, 1) if len(t) == 1 else (0,)) for ln in ((5, 1, 0) if files else (5,)) for nm in ((0, 97, 33) if files else (None,)) for op in (OPTS if files and ln == 5 and nm == 97 else (0,))]:
                mem = {GLOB: g, MOD: 1, LN: ln, GLOBF: 0}
                if nm is not None: mem[NAME] = ("p", "nm", 0) if nm else 0; mem["p", "nm", 0] = nm
                cl = C(p, ln); I, outs = command(p, cl, t, mem, (0, None, None), opt=op)
                r.count("commands evaluated"); r.count("paths", len(outs)); r.count("modified-mark stores", cl.n); r.count("clearing stores", cl.clears)
                for ret, mem, (w, l, b) in outs:
                    if b is not None and not (t[:1] == "E"): r.viol("clear", b, "command '%s' clears the modified mark although the whole buffer was not written" % repr(t)[1:-1])
                    m = mem.get(MOD)
                    if m == 0 or w: continue
                    if ret is None or isinstance(ret, int) and ret in EOFS:
                        if ret is None and t[0] in "gGvV@[]": continue          # status of the command that was run
                        if t[0] not in "QE" and t[:2] != "~E": r.viol("quit", ec, "command '%s' permits leaving or going on to another file while the buffer is modified" % repr(t)[1:-1])
                    if l is not None and t.strip("~")[:1] in "eq": r.viol("quit", l, "command '%s' gives up the modified buffer" % repr(t)[1:-1])
                    if l is not None and t.strip("~")[:1] in "wWf": r.viol("quit", l, "command '%s' discards buffer contents" % repr(t)[1:-1])
                ns = {x[0] for x in outs}
                if (t in ("q", "q\n", "e", "e\n") or t in ("~e\n", "~e ") and not op & 0x2008) and EMOD not in ns: r.viol("warned", ec, "command '%s' does not warn about a modified buffer" % repr(t)[1:-1])
    own = exclusive(p, {"undo_last_command", "init_ed_state"}); mf = p.defined["main"].file
    for f in p.defined.values():
        if f.file in (ec.file, mf) or f.name in own: continue
        for i in f.all():
            if i.op == "store" and field_of(i.ops[1], f) == MOD:
                r.count("modified-mark stores elsewhere")
                if not ored(i): r.viol("sites", i, "the modified mark can be cleared here")
    c = M(p, r, SCRIPTED); c.skip = own
    r.kernel(c, [("main", (1, 0, 0))])
    r.count("leaving points of the editor loop", c.quits)
    r.need("leaving points of the editor loop", 2); r.need("clearing stores", 1); r.need("modified-mark stores elsewhere", 4); r.need("command calls in the editor loop", 2)
