from p12 import *
from p12 import _nf
from kernel import NONZ, POS
from shapes import *
ROOTS = ("write_file", "write_pipe", "append_to_register", "inter_register_copy", "inter_register_move")
LIB = {n: -1 for n in ("fseek", "fseeko", "fflush", "ftruncate", "fclose", "open", "mkstemp", "dup", "dup2", "pipe", "ftell", "ftello", "putc", "fputc", "fputs", "putc_unlocked", "_IO_putc", "rewind", "close", "fsync")}
LIBP = {"fopen", "fdopen", "popen", "freopen", "tmpfile"}
PUT = {"putc", "fputc", "fputs", "fwrite", "putc_unlocked", "_IO_putc", "fprintf", "vfprintf", "fwrite_unlocked", "write"}
def std(i):
    """the stream is standard output or error"""
    for o in i.ops:
        if o[0] == "v":
            d = i.func.inst[o[1]]
            if d.op == "load" and d.ops[0][0] == "g" and d.ops[0][1] in ("stdout", "stderr"): return True
    return False
class G(F):
    """as F for the failures of library calls that hand data over"""
    def call(s, K, st, i, name):
        P = st.P; f = s.p.defined.get(name)
        if P is not None and P[0] == "dirty" and f is None and not std(i) and name == "fclose":
            s.sites.add((i.func.name, i.id)); return [((i, name, "lib"), atom(-1)), (None, NONNEG)]
        if f is None and (P is None or P[0] == "dirty") and name in LIB and name != "fclose" and not std(i):
            s.sites.add((i.func.name, i.id))
            return [((i, name, "lib"), atom(-1)), (("dirty",) if name in PUT else P, NONNEG)]
        if f is None and P is None and name in LIBP: s.sites.add((i.func.name, i.id)); return [((i, name, "lib"), ZERO), (P, POS)]
        if name == "ferror" and P is not None and P[0] != "dirty" and P[1] in PUT | {"fflush"}: return [(P, NONZ)]
        if name == "clearerr" and P is not None and P[0] != "dirty" and P[1] in PUT and st.P[2] == "lib" and s.retry(i): return [(None, TOP)]
        if f is not None and name != "unwind_stack_frame":
            m = s.b.get(name, TOP)
            if m == 0: return []
            if P is None and name in s.puts: P = ("dirty",)
            return [(P, m if f.ret != "void" else TOP)]
        if name == "feof": return None
        return None if f is None else F.call(s, K, st, i, name)
    def retry(s, i):
        """the block goes back to a loop that writes"""
        f = i.func; seen = set(); todo = list(i.block.succ)
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            if any(x.op == "call" and x.callee in PUT for x in f.blocks[b].insts): return True
            todo += f.blocks[b].succ
        return False
    def leave(s, K, P, f, rm):
        if P is not None and P[0] == "dirty": return P
        return F.leave(s, K, P, f, rm)
class Flush(Client):
    """P = data may be waiting in a stream's buffer"""
    def __init__(s, r): s.r = r; s.p = r.prog; s.puts = set(); s.flushes = set()
    def direct(s, f): return any(i.op == "call" and i.callee in PUT | {"fflush", "fclose", "pclose"} and not std(i) for i in f.all()) and not s.ignored(f)
    def ignored(s, f): return f.name in s.skip
    def call(s, K, st, i, name):
        if s.p.defined.get(name) is not None or std(i): return None
        if name == "feof": return [(st.P & ~2, NONZ), (st.P | 2, ZERO)]
        if name == "ferror" and st.P & 4: return [(st.P, NONZ)]
        if name == "clearerr": return [(st.P & ~4, TOP)]
        if name == "ferror" and st.P & 2: return [(st.P & ~2, NONZ)]          # a read stops at the end of the file or at an error
        if name in ("fread", "getc", "fgetc"): return [(st.P & ~2, TOP)]
        if name in PUT: s.puts.add(i); return [(st.P | 1, TOP)]
        if name in ("fflush", "fclose"): s.flushes.add(i); return [(0, ZERO), (st.P | 4, atom(-1))]
        if name == "pclose": s.flushes.add(i); return [(0, TOP)]
        return None
    def leave(s, K, P, f, rm):
        if f.name in ROOTS + ("append_stream", "write_stream") and P & 1 and rm & NONNEG: s.bad[f.name] = 1
        return P
class WC(CC):
    """P = lines handed over"""
    def models(s, I, st, i, n, args):
        P = st.P or ()
        if n == "get_buffer_line": return [(("p", ("txt", args[0]), 0), P, {}), (0, P, {})]
        if n == "put_stream_line": return [(0, P + ((args[1], args[2]),), {}), (-2, P, {})]
        if n == "write_stream":
            s.ws.append((args[1], args[2], dict(st.mem))); return [(0, P + (("stream", args[1], args[2]),), {args[3]: 4242}), (-2, P, {})]
        if n in ("fflush", "flush_des_file", "fclose", "fseeko", "ftruncate"): return [(0, P, {}), (-1, P, {})]
        if n in ("ferror",): return [(0, P, {}), (1, P, {})]
        if n in ("get_inode",): return [(0, P, {}), (-2, P, {})]
        if n in ("init_register_buffer", "reset_register_buffer"): return [(0, P, {}), (-2, P, {})]
        return CC.models(s, I, st, i, n, args)
def run(r):
    p = r.prog; _nf.clear()
    for n in ROOTS + ("write_stream", "put_stream_line", "append_stream", "get_buffer_line"): r.func(n)
    r.explanation = ("Typestate analysis of the functions below every writing command: a failed put, flush, seek, truncate, open or close must end in failure of the function, and "
                     "success is only possible with no unflushed data; abstract interpretation of the line loop and its callers over list nodes: each line of the range is handed "
                     "over exactly once, in order and in full, before success can be returned.")
    r.rule("library", "a failed operation on the target stream makes the function fail")
    r.rule("flushed", "success is only reported after the last data was flushed or the stream closed")
    r.rule("checked", "the count returned by a block write is examined")
    r.rule("source", "copying a stream succeeds only when the end of the source was reached")
    r.rule("lines", "every line of the range is handed over once, in order, with its whole length and its newline")
    r.rule("size", "the size reported is the number of bytes handed over")
    r.rule("range", "the range asked for is the range handed over, and its length is what is reported")
    b, ints, ptrs = steps(p)
    def below(ns):
        seen = set(); todo = list(ns)
        while todo:
            x = todo.pop()
            if x in seen or x == "spl0" or x not in p.defined: continue
            seen.add(x); todo += p.callees.get(x, ())
        return seen
    seen = below(ROOTS + ("append_stream",))
    puts = {n for n in seen if any(i.op == "call" and i.callee in PUT and not std(i) for m in below([n]) for i in p.defined[m].all())}
    for n in sorted(seen):
        if n in noreturn(p): continue
        c = G(r, n, b, (), ()); c.puts = puts & seen
        K = Kernel(p, c, b); c.K = K; K.relevant = {n}; K.root(n, None); K.run()
        r.count("stream operations", len(c.sites)); r.count("functions below writing commands")
        for (i, name, code), ms in sorted(c.out.items(), key=lambda x: x[0][0].line):
            r.viol("library", i, "%s can return without failure after %s failed" % (n, name))
        for i in p.defined[n].calls():
            if i.callee in ("fwrite", "fwrite_unlocked", "fread") and not std(i):
                r.count("block transfers")
                if not examined(p.defined[n], i): r.viol("checked", i, "the count returned by %s is not examined" % i.callee)
    c = Flush(r); c.skip = exclusive(p, {"spl0"}) - seen; c.bad = {}
    r.kernel(c, [(n, 0) for n in ROOTS + ("append_stream",)])
    for n in c.bad: r.viol("flushed", p.defined[n], "%s can report success while data may still be waiting to be written" % n)
    r.set("put sites", len(c.puts)); r.set("flush sites", len(c.flushes))
    class S(Client):
        def direct(s, f): return f.name == "append_stream"
        def call(s, K, st, i, name):
            if name == "feof": return [(1, NONZ), (2, ZERO)]
            if name == "ferror" and st.P == 2: return [(0, NONZ)]
            return [(st.P, TOP)] if name in p.defined else None
        def leave(s, K, P, f, rm):
            if f.name == "append_stream" and P != 1 and rm & NONNEG: r.viol("source", f, "copying can succeed although the end of the source was not reached")
            return P
    r.kernel(S(), [("append_stream", 0)])
    class SC(WC):
        """P = (a block was not written completely, end of source seen)"""
        def models(s, I, st, i, n, args):
            P = st.P
            if n == "fread": return [(10, P, {}), (0, P, {})]
            if n == "fwrite":
                k = args[1] * args[2] if all(isinstance(x, int) for x in args[1:3]) else None
                if k is None: return [(None, P, {})]
                return [(k, P, {}), (0, 1, {})] + ([(k - 1, 1, {})] if k > 1 else [])
            if n in ("feof", "ferror"): return [(1, P, {}), (0, P, {})]
            if n == "fflush": return [(0, P, {}), (-1, P, {})]
            return None
    I = Shape(p, SC(p, {"append_stream"}), L(9, n=1)); I.VISITS = 6
    for ret, mem, P in I.run("append_stream", (("p", ("dst",), 0), ("p", ("src",), 0), ("p", ("size",), 0), ED), I.initial(1), 0):
        r.count("copy outcomes")
        if P and not (isinstance(ret, int) and ret < 0): r.viol("checked", p.defined["append_stream"], "copying can succeed although a block was not written completely")
    lines(r, p); r.need("copy outcomes", 4); r.need("stream operations", 20); r.need("put sites", 3); r.need("flush sites", 3); r.need("block transfers", 2); r.need("line loops evaluated", 8); r.need("ranges evaluated", 6); r.need("lines of bytes evaluated", 4)
class BC(CPClient):
    """P = bytes handed over"""
    def __init__(s, inl): s.inl = inl
    def inline(s, n): return n in s.inl
    def call(s, I, st, i, n, args):
        if n in PUTB or n == "put_des_char":
            v = args[0]; return [(v & 255 if isinstance(v, int) else 1, st.P + (v & 255 if isinstance(v, int) else v,), {})]
        if n == "ferror": return [(0, st.P, {})]
        if n == "is_des_file": return [(1, st.P, {})]
        if n in PUT:                        # whole blocks
            a = args[0] if n != "write" else args[1]; t = a[1][1][a[2]:] if isinstance(a, tuple) and a[0] == "p" and isinstance(a[1], tuple) and a[1][0] == "str" and isinstance(a[2], int) else None
            k = args[2] if n == "write" else args[1] * args[2] if n[:6] == "fwrite" and isinstance(args[1], int) and isinstance(args[2], int) else t.index("\0") if t and n == "fputs" and "\0" in t else len(t or "")
            if t is None or not isinstance(k, int): return [(None, st.P + (None,), {})]
            return [((args[2] if n[:6] == "fwrite" else k), st.P + tuple(ord(x) for x in t[:k]), {})]
        return None
PUTB = {"putc", "fputc", "putc_unlocked", "fputc_unlocked", "_IO_putc"}
def bytes_(r, p):
    """the bytes of a line are handed over as they are"""
    f = p.defined["put_stream_line"]; inl = helpers(p, ["put_stream_line"], {"put_des_char", "flush_des_file", "is_des_file"})
    for key in (0, 1):
        for t in ("a", "\xe9\x80\xff", "\0\r\t\x7f\n"):
            c = BC(inl); I = Interp(p, c); I.MAX = 20000
            for ret, mem, P in I.run("put_stream_line", (("p", ("stream",), 0), ("p", ("str", t), 0), len(t), ED), {("ed_execute", "have_key"): key}, ()):
                if isinstance(ret, int) and ret < 0: continue
                r.count("lines of bytes evaluated")
                if P and any(v is None for v in P): continue
                if P != tuple(ord(x) for x in t): r.viol("lines", f, "the bytes %s are handed over as %s" % ([ord(x) for x in t], list(P)))
def examined(f, i):
    vals = {i.id}; ch = True
    while ch:
        ch = False
        for x in f.all():
            if x.id not in vals and x.op in ("phi", "zext", "sext", "trunc", "sub", "add") and any((o[0] if x.op == "phi" else o)[:2] == ("v", v) for o in x.ops for v in vals): vals.add(x.id); ch = True
    return any(x.op in ("icmp", "switch") and any(o[:2] == ("v", v) for o in x.ops for v in vals) for x in f.all()) or any(x.op == "ret" and x.ops and x.ops[0][:2] in {("v", v) for v in vals} for x in f.all())
def lines(r, p):
    inl = helpers(p, ["write_stream"], STOP | {"put_stream_line", "flush_des_file", "init_des_cipher"})
    ws = p.defined["write_stream"]
    for k in range(0, 5 if r.tier == "thorough" else 4):
        for bnl in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for key in (0, 1):
                total = sum(10 + j + (0 if j == k - 1 and bnl == (1, 1) else 1) for j in range(k))
                c = WC(p, inl); c.ws = []; I = Shape(p, c, L(9, n=1)); I.VISITS = 8
                m = I.initial(1, is_binary=bnl[0], newline_appended=bnl[1]); m[fld(("exec",), "have_key")] = key
                start = node(3)
                for j in range(k + 1): m[fld(("n", 3 + j), "len")] = 10 + j
                r.count("line loops evaluated")
                for ret, mem, P in I.run("write_stream", (None, start, k, ("p", ("size",), 0), ED), m, ()):
                    if isinstance(ret, int) and ret < 0: continue
                    got = mem.get(("p", ("size",), 0))
                    if not key and (isinstance(got, int) or got is None and k == 0) and got != total: r.viol("size", ws, "%s bytes are reported where %d were handed over" % (got, total))
                    want = [(("p", ("txt", node(3 + j)), 0), 10 + j + (0 if j == k - 1 and bnl == (1, 1) else 1)) for j in range(k)]
                    if list(P or ()) != want:
                        r.viol("lines", ws, "success although %s" % ("a line was left out, repeated or out of order" if [x[0] for x in P or ()] != [x[0] for x in want] else "a line was not handed over with its whole length and newline"))
    bytes_(r, p)
    for fn, args in (("write_file", lambda f, t: (("p", ("str", "x"), 0), 0, f, t, ("p", ("addr",), 0), ("p", ("size",), 0), ("p", ("str", "w"), 0), ED)),
                     ("write_pipe", lambda f, t: (("p", ("str", "!x"), 0), f, t, ("p", ("addr",), 0), ("p", ("size",), 0), ED)),
                     ("append_to_register", lambda f, t: (f, t, 0, ED))):
        inl = {fn}
        for f, t, n in ((1, 1, 1), (2, 4, 3), (0, 0, 0), (1, 5, 5), (5, 5, 1), (1, 9, 9), (9, 9, 1), (4, 9, 6)):
            c = WC(p, inl); c.ws = []; I = Shape(p, c, L(9, n=1)); m = I.initial(1)
            for ret, mem, P in I.run(fn, args(f, t), m, ()):
                r.count("ranges evaluated")
                if isinstance(ret, int) and ret < 0: continue
                got = [x[1:] for x in P or () if x[0] == "stream"]
                if got != [(node(f), n)] and not (n == 0 and fn == "append_to_register" and not got):
                    if n == 0 and got and got[0][1] == 0: pass
                    else: r.viol("range", p.defined[fn], "%s does not hand over the range it was given" % fn)
                if fn != "append_to_register" and mem.get(("p", ("addr",), 0)) != n: r.viol("range", p.defined[fn], "%s does not report the number of lines of its range" % fn)
