from cp import *
import kernel
from kernel import Client, atom, TOP
from ir import field_of, AnalysisError
from common import *
OFF, SOW, MUTEX = ("ed_core", "offset"), ("ed_core", "seek_on_write"), ("g", "_mutex")
FP = ("ed_core", "fp"); SEEK, LEN = ("ed_line_node", "seek"), ("ed_line_node", "len")
EOFPOS = 90000
class C(CPClient):
    """P = (true position: int | 'x' unknown, events)"""
    def __init__(s, prog, pos, mem0): s.prog = prog; s.pos = pos; s.bad = []; s.ops = 0; s.stop = False
    NOINL = {"get_line_node", "realloc_buffer"}
    def inline(s, n): return n not in s.NOINL
    def isbuf(s, I, st, op):
        return s.stream(op, st.f)
    def stream(s, op, f):
        d = f.inst[op[1]] if op[0] == "v" else None
        if d is None: return op[0] == "a" and f.name in s.helpers and op[1] in s.helpers[f.name]
        return d.op == "load" and field_of(d.ops[0], f) == FP
    def guard(s, I, st, i, write):
        """an interrupt during the operation must find the memory invalid"""
        m = st.mem.get(MUTEX)
        if isinstance(m, int) and m > 0: return
        o = st.mem.get(OFF); w = st.mem.get(SOW)
        if o != -1: s.bad.append(("interrupt", i, "an interrupt during this access leaves the remembered position valid"))
        if not (w == NZ or isinstance(w, int) and w): s.bad.append(("interrupt", i, "an interrupt during this access lets the next write go ahead without seeking"))
    def call(s, I, st, i, n, args):
        P = st.P
        if n in ("fseeko", "fseek") and s.isbuf(I, st, i.ops[0]):
            s.ops += 1; s.guard(I, st, i, False)
            t = args[1] if args[2] == 0 else EOFPOS if args[2] == 2 and args[1] == 0 else "x"
            return [(0, (t, None), {}), (-1, ("x", None), {})]
        if n in ("ftello", "ftell") and s.isbuf(I, st, i.ops[0]):
            return [(P[0] if isinstance(P[0], int) else None, P, {}), (-1, P, {})]
        if n in ("rewind",) and s.isbuf(I, st, i.ops[0]): s.guard(I, st, i, False); return [(None, (0, None), {})]
        if n in ("fread", "fread_unlocked", "fgets", "getline") and any(s.isbuf(I, st, o) for o in i.ops):
            s.ops += 1; s.guard(I, st, i, False)
            tot = args[1] * args[2] if isinstance(args[1], int) and isinstance(args[2], int) else None
            want = (st.mem.get(SEEK), st.mem.get(LEN))
            if P[0] != want[0]: s.bad.append(("place", i, "a line is read without being positioned at its text"))
            if tot != want[1]: s.bad.append(("place", i, "the amount read is not the length of the line"))
            return [(args[2], (P[0] + tot if isinstance(tot, int) and isinstance(P[0], int) else "x", ("r",)), {}), (3, ("x", ("r",)), {}), (0, ("x", ("r",)), {})]
        if n in ("fwrite", "fputs", "putc", "fputc", "_IO_putc", "fwrite_unlocked", "fprintf") and s.isbuf(I, st, i.ops[-1 if n != "fprintf" else 0]):
            s.ops += 1; s.guard(I, st, i, True)
            tot = args[1] * args[2] if n.startswith("fwrite") and isinstance(args[1], int) and isinstance(args[2], int) else None
            if P[0] != EOFPOS: s.bad.append(("append", i, "text is written without being positioned at the end of the file"))
            if P[1] is not None and P[1][0] == "w": return [(None, ("x", ("w", "x", "x")), {})]
            return [(args[2], (P[0] + tot if tot is not None and isinstance(P[0], int) else "x", ("w", P[0], tot)), {}), (3, ("x", ("w", "x", tot)), {})]
        if n in ("ungetc", "getc", "fgetc", "setvbuf", "freopen") and any(s.isbuf(I, st, o) for o in i.ops):
            return [(None, ("x", None), {})]
        return None
def run(r):
    p = r.prog; gb = r.func("get_buffer_line"); pb = r.func("put_buffer_line"); r.func("reopen_ed_buffer"); r.func("filter_lines")
    r.explanation = ("Conditional constant propagation over the functions that read, append to and reopen the temporary file, with symbolic positions: for every "
                     "remembered position and every outcome of each seek, read, write and allocation the memory left behind is compared with the true "
                     "position. Plus who-may-touch rules for the stream and the memory, and a typestate rule for child processes.")
    r.rule("place", "a line is read with the stream at its recorded position, and exactly its length")
    r.rule("append", "text is written only at the end of the file, and the new line records that position and length")
    r.rule("memory", "after every outcome the remembered position is the true one, or invalid; the write flag allows a write without seek only at the end of the file")
    r.rule("interrupt", "at every access outside a signal hold the memory is already marked invalid")
    r.rule("touch", "nothing else uses the temporary file's stream or sets its memory to anything but invalid")
    r.rule("held", "text is appended only while signals are held off")
    r.rule("child", "a child process reads the buffer only through a stream of its own, opened after pending output was flushed, with the memory invalid")
    helpers = stream_params(p)
    C.helpers = helpers
    def valid(mem, P, pos):
        o = mem.get(OFF); w = mem.get(SOW)
        if o == -1: pass
        elif o != P[0] or not isinstance(P[0], int): return "the remembered position is not the true one"
        if w == NZ or isinstance(w, int) and w: return None
        if w == 0 and (P[0] == pos): return None
        return "the next write goes ahead without seeking although the file may not be positioned at its end"
    # reading
    for off, pos in ((700, 700), (800, 800), (-1, "x"), (EOFPOS, EOFPOS)):
        for w in (0, 1):
            if w == 0 and pos != EOFPOS: continue
            for held in (0, 1):
                c = C(p, pos, None)
                outs = Interp(p, c).run("get_buffer_line", (NZ, NZ), {OFF: off, SOW: w, SEEK: 700, LEN: 30, MUTEX: held}, (pos, None))
                r.count("outcomes of reading", len(outs)); r.count("accesses analysed", c.ops)
                for k, i, m in c.bad: r.viol(k, i, m)
                for ret, mem, P in outs:
                    v = valid(mem, P, EOFPOS)
                    if v: r.viol("memory", gb, "after reading a line %s" % v)
                    z = Interp.zero(None, ret)
                    if P[1] == ("r",) and z != 1 and P[0] != 730: r.viol("memory", gb, "a failed read of a line is not reported")
    # writing
    for off, pos, w in ((EOFPOS, EOFPOS, 0), (700, 700, 1), (-1, "x", 1), (EOFPOS, EOFPOS, 1)):
        c = C(p, pos, None)
        outs = Interp(p, c).run("put_buffer_line", (NZ, 50, NZ), {OFF: off, SOW: w, MUTEX: 1, SEEK: None, ("ed_state", "lines"): 5, ("ed_state", "dot"): 2}, (pos, None))
        r.count("outcomes of writing", len(outs)); r.count("accesses analysed", c.ops)
        for k, i, m in c.bad: r.viol(k, i, m)
        for ret, mem, P in outs:
            ok = Interp.zero(None, ret) != 1
            wr = P[1] if P[1] and P[1][0] == "w" else None
            end = P[0] if wr and wr[1] == EOFPOS and isinstance(P[0], int) else EOFPOS
            v = valid(mem, P, end)
            if v: r.viol("memory", pb, "after %s a line %s" % ("appending" if ok else "failing to append", v))
            if ok:
                if not wr or wr[1] == "x" or not isinstance(P[0], int): r.viol("memory", pb, "appending a line can succeed although writing its text failed")
                elif mem.get(SEEK) != wr[1]: r.viol("append", pb, "a new line does not record the position of its text")
                elif mem.get(LEN) != wr[2]: r.viol("append", pb, "a new line does not record the length of its text")
                elif wr[2] != 49: r.viol("append", pb, "the text written is not the line without its newline")
                if mem.get(("ed_state", "lines")) != 6: r.viol("append", pb, "appending a line does not count it")
    # reopening
    for off in (700, -1):
        class R(CPClient):
            def inline(s, n): return n not in ("realloc_buffer", "get_path_max")
            def call(s, I, st, i, n, args):
                if n == "fdopen": return [(("p", ("new",), 0), st.P, {}), (0, st.P, {})]
                return None
        outs = Interp(p, R()).run("reopen_ed_buffer", (NZ,), {OFF: off, SOW: 0, FP: ("p", ("old",), 0)})
        for ret, mem, P in outs:
            r.count("outcomes of reopening")
            if not (mem.get(OFF) in (0, -1) or mem.get(FP) == ("p", ("old",), 0)): r.viol("memory", r.func("reopen_ed_buffer"), "the position in the old file is remembered for the new one")
    # touch
    ok = exclusive(p, {"get_buffer_line", "put_buffer_line"})
    anyok = exclusive(p, {"reopen_ed_buffer", "one_time_init", "quit", "script_die"}) | p.reach(["reopen_ed_buffer"]) & exclusive(p, {"reopen_ed_buffer", "one_time_init"})
    child = child_blocks(p)
    for n, f in p.defined.items():
        for i in f.all():
            if i.op == "store" and field_of(i.ops[1], f) in (OFF, SOW):
                r.count("stores of the memory")
                v = i.ops[0]; fl = field_of(i.ops[1], f)
                safe = v[0] == "c" and (v[1] == -1 if fl == OFF else v[1] != 0)
                if not safe and n not in ok and n not in anyok: r.viol("touch", i, "the remembered position is set outside the functions that access the file")
            if i.op == "call":
                for o in i.ops:
                    if C(p, 0, 0).stream(o, f) if o[0] in "va" else False:
                        r.count("uses of the stream")
                        if n in ok or n in anyok or i.block.id in child.get(n, ()): continue
                        if i.callee in ("fclose", "fflush", "fileno", "ferror", "feof", "clearerr") or i.callee in p.defined: continue
                        r.viol("touch", i, "the temporary file is accessed outside the functions that track its position")
    # held
    wr = {n for n in ok if any(i.callee == "fwrite" for i in p.defined[n].calls())}
    class H(Client):
        cap = 16
        def direct(s, f): return f.name in ("spl1", "spl0", "put_buffer_line", "activate_signals") or any(i.callee in ("spl0", "spl1") for i in f.calls())
        def call(s, K, st, i, name):
            if name == "activate_signals": return [(0 if st.P == -1 else st.P, TOP)]
            if name == "put_buffer_line":
                r.count("append sites (contexts)")
                if st.P == 0: K.report("held", i, "text is appended to the temporary file while an interrupt can hit", st)
                return None
            if name in ("spl1", "spl0"):
                if st.P == -1: return [(-1, TOP)]
                if name == "spl1": return [(min(st.P + 1, 6), TOP)]
                return [(st.P - 1, TOP)] if st.P > 0 else []
            return None
    r.kernel(H(), [("main", -1)])
    # child
    class Ch(Client):
        """P = (where, flushed) where in parent|child|own"""
        tracked = frozenset({OFF}); cap = 16
        def direct(s, f): return f.name in ("get_buffer_line", "put_buffer_line") or any(i.callee in ("fork", "vfork", "fflush") for i in f.calls())
        def inst(s, K, st, i):
            w, fl = st.P
            if w == "parent" and i.block.id in child.get(i.func.name, ()): w = "child"
            if i.op == "store" and field_of(i.ops[1], i.func) == FP and w == "child":
                src = i.func.inst.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
                if src is not None and src.op == "call" and src.callee in ("fopen", "fdopen", "freopen"):
                    if not fl: K.report("child", i, "the child opens the temporary file although the editor's output to it may not be flushed", st)
                    w = "own"
            return [(w, fl)] if (w, fl) != st.P else None
        def call(s, K, st, i, name):
            w, fl = st.P
            if name == "fflush":
                a = i.ops[0]
                if a[0] == "null" or a[0] == "v" and i.func.inst[a[1]].op == "load" and field_of(i.func.inst[a[1]].ops[0], i.func) == FP:
                    return [((w, True), kernel.ZERO), ((w, fl), atom(-1))]
            if name in ("get_buffer_line", "put_buffer_line"):
                if w == "child": K.report("child", i, "a child process uses the temporary file through the offset it shares with the editor", st)
                if w == "own":
                    r.count("reads in child processes")
                    m = st.M.get(OFF, TOP)
                if w != "parent": return [(st.P, TOP)]
                if name == "put_buffer_line": return [((w, False), TOP)]
                return [(st.P, TOP)]
            return None
        def enter(s): pass
    class Ch2(Ch):
        def inst(s, K, st, i):
            was = st.P[0]; x = Ch.inst(s, K, st, i); now = x[0][0] if x else was
            if was != "own" and now == "own" and st.M.get(OFF, TOP) != atom(-1):
                x = [("stale", x[0][1])]
            if i.op == "store" and field_of(i.ops[1], i.func) == OFF and was == "stale" and i.ops[0][0] == "c" and i.ops[0][1] == -1: return [("own", st.P[1])]
            return x
        def call(s, K, st, i, name):
            if st.P[0] == "stale" and name in ("get_buffer_line", "put_buffer_line"):
                K.report("child", i, "the child's own stream is used with the editor's remembered position", st); return [(st.P, TOP)]
            return Ch.call(s, K, st, i, name)
    r.kernel(Ch2(), [("filter_lines", ("parent", False))])
    r.need("accesses analysed", 10); r.need("outcomes of writing", 8); r.need("outcomes of reading", 8); r.need("stores of the memory", 5)
def stream_params(p):
    """helper functions that receive the temporary file's stream: name -> argument numbers"""
    out = {}; ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            for i in f.calls():
                if i.callee in p.defined:
                    for k, o in enumerate(i.ops):
                        hit = False
                        if o[0] == "v":
                            d = f.inst[o[1]]; hit = d.op == "load" and field_of(d.ops[0], f) == FP
                        elif o[0] == "a": hit = o[1] in out.get(n, ())
                        if hit and k not in out.get(i.callee, ()):
                            out.setdefault(i.callee, set()).add(k); ch = True
    return out
