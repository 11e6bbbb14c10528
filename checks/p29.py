"""What a set encryption key does to every transfer, by constant propagation with symbolic streams."""
from cmds import *
from common import *
GETS = {"getc", "fgetc", "_IO_getc", "getc_unlocked", "fgetc_unlocked", "__uflow", "fread", "fread_unlocked", "fgets", "getline", "getdelim", "fgets_unlocked", "read"}
PUTS = {"putc", "fputc", "_IO_putc", "putc_unlocked", "fputc_unlocked", "__overflow", "fwrite", "fwrite_unlocked", "fputs", "fputs_unlocked", "fprintf", "write"}
KEYF = ("ed_execute", "have_key"); RFP = ("ed_register", "fp"); HANDLE = ("ed_file", "handle")
OPENERS = {"fopen", "fopen64", "fdopen", "popen", "freopen", "freopen64", "rpl_fopen", "rpl_popen", "rpl_fdopen"}
def strm(n): return ("p", n, 0)
class C(CPClient):
    """P = (stream the cipher was initialised for or None, bytes went through since, flushed)"""
    prefix = 0
    forksel = True
    apart = frozenset(("file", "reg", "stdin", "other"))
    def __init__(s, p, hit, homes, plain): s.p = p; s.hit = hit; s.homes = homes; s.plain = plain; s.n = 0; s.cip = 0; s.raw = 0; s.child = False
    def inline(s, n): return s.p.defined[n].file in s.homes and n not in ("get_des_char", "put_des_char", "flush_des_file")
    def name(s, v): return v[1] if isinstance(v, tuple) and v and v[0] == "p" and isinstance(v[1], str) else None
    def call(s, I, st, i, n, args):
        if n is None: return [(None, st.P, {})]
        if n.startswith("llvm.") or n.startswith("__ctype"): return None
        P = st.P; key = st.mem.get(KEYF); ks = [s.name(a) for a in args]
        fs = [k for k in ks if k in ("file", "reg", "stdin")]
        if n == "init_des_cipher":
            s.cip += 1; k = ks[0] if ks else None
            st.P = ("file" if not ks else k, False, False)
            return None
        if n in ("get_des_char", "put_des_char", "flush_des_file"):
            s.cip += 1; k = fs[0] if fs else None
            if key == 0: s.hit("off", i, "%s is used although no key is set" % n)
            elif s.plain or k in ("reg", "stdin"): s.hit("plain", i, "%s goes through the cipher" % ("script input" if k == "stdin" else "a register" if k == "reg" else "the text of a filter"))
            elif P[0] != k: s.hit("fresh", i, "the cipher is used for a transfer without being initialised for it")
            elif P[2] and n == "put_des_char": s.hit("fresh", i, "bytes follow after the cipher was flushed")
            if n == "get_des_char": return [(None, (P[0], True, P[2]), {}), (-1, P, {})]
            if n == "put_des_char": return [(1, (P[0], True, P[2]), {}), (-1, P, {})]
            return [(0, (P[0], P[1], True), {}), (-1, P, {})]
        if n in GETS | PUTS and fs:
            s.raw += 1
            if key != 0 and not s.plain and "file" in fs: s.hit("route", i, "bytes of a file are %s directly although a key is set" % ("read" if n in GETS else "written"))
            return [(None, P, {}), (-1, P, {})] if n in ("getc", "fgetc", "_IO_getc", "__uflow", "putc", "fputc", "_IO_putc", "__overflow") else [(None, P, {})]
        if n in OPENERS: return [(0, P, {}), (strm("file"), P, {})]
        if n in ("fork", "vfork"): return [(0, P, {("child",): 1}), (5, P, {}), (-1, P, {})]
        f = s.p.defined.get(n)
        if f is not None and s.inline(n): return None
        if n in noreturn(s.p) or f is None and n in s.p.funcs and s.p.funcs[n].noreturn: s.end(I, st, i, n); return []
        d = {l: None for l in I.writes.get(n, ())} if f is not None else {}
        for o in i.ops:
            l = I.loc(st, o) if o[0] == "v" else None
            if l is not None and l[0] == "l": d[l] = None
        if f is None and n in ("feof", "ferror", "fflush", "fileno", "clearerr", "fclose", "pclose"): return [(v, P, d) for v in ((0, -1) if n in ("fflush", "fclose", "pclose") else (0, NZ) if n in ("feof", "ferror") else (None,))]
        return [(v, P, d) for v in rets(s.p, n)] if f is not None else [(None, P, d)]
def run(r):
    p = r.prog
    for n in ("read_file", "read_pipe", "write_file", "write_pipe", "append_to_register", "append_from_register", "filter_lines", "get_stream_line", "read_stream_r",
              "init_des_cipher", "get_des_char", "put_des_char", "flush_des_file", "get_des_keyword"): r.func(n)
    r.explanation = ("Constant propagation through every function that transfers text, with a key set and without: the streams are symbols, the use of the cipher and of direct input and output on each of them is followed on every path. "
                     "Then the cipher itself: what is written was encrypted, what is returned was decrypted, and the key that was typed is erased.")
    r.rule("route", "with a key set, no byte of a file or command pipe is read or written except through the cipher")
    r.rule("fresh", "each such transfer initialises the cipher for its stream before the first byte")
    r.rule("flush", "such a write succeeds only after the cipher was flushed")
    r.rule("plain", "script input, registers and filters never go through the cipher")
    r.rule("off", "without a key the cipher is not used")
    r.rule("cipher", "the cipher writes only blocks that were encrypted since they were filled, and delivers only bytes that were decrypted")
    r.rule("last", "a successful flush ends the file with a block that records how many bytes it holds, as reading expects")
    r.rule("erase", "the typed key is erased before the function that asked for it returns, whether it is accepted or not")
    home = p.defined["read_file"].file; cbc = p.defined["get_des_char"].file
    # variables of the cipher that remember a stream
    mem0 = {}
    for i in p.defined["init_des_cipher"].all():
        if i.op == "store" and i.ops[1][0] == "g" and i.ops[0][0] == "a": mem0[("g", i.ops[1][1])] = 1
    io = {"read_file": 0, "read_pipe": 0, "write_file": 1, "write_pipe": 1}
    def go(fn, key, plain, same, args=None, homes=None, extra=None):
        f = p.defined[fn]; tot = []
        def hit(rule, i, msg): r.viol(rule, i, "%s: %s" % (fn, msg))
        c = C(p, hit, homes or {home, cbc}, plain); I = Interp(p, c); I.MAX = 3000000
        m = {KEYF: key, RFP: strm("reg"), ("g", "stdin"): strm("stdin"), ("g", "stdout"): strm("other"), ("g", "stderr"): strm("other"), HANDLE: strm("file")}
        for g in mem0: m[g] = strm(same)
        m.update(extra or {})
        out = I.run(fn, args or tuple(None for _ in f.args), m, (None, False, False))
        r.count("transfers evaluated"); r.count("paths", len(out)); r.count("cipher calls", c.cip); r.count("direct transfers", c.raw)
        return f, c, out
    for fn, w in io.items():
        f, c, out = go(fn, 1, False, "other")
        if not c.cip: r.viol("route", f, "%s never uses the cipher" % fn)
        if w:
            for ret, mem, P in out:
                if isinstance(ret, int) and ret < 0: continue
                r.count("successful writes checked")
                if not P[2]: r.viol("flush", f, "%s succeeds although the cipher was not flushed" % fn)
        go(fn, 0, False, "file")
    for fn, st in (("append_to_register", "reg"), ("append_from_register", "reg")):
        f, c, out = go(fn, 1, False, "reg"); go(fn, 0, False, "reg")
        if not c.raw: r.viol("plain", f, "%s transfers nothing" % fn)
    fi = p.defined["filter_lines"].file
    f, c, out = go("filter_lines", 1, True, "file", homes={home, cbc, fi}); go("filter_lines", 0, True, "file", homes={home, cbc, fi})
    if not c.raw: r.viol("plain", f, "filter_lines transfers nothing")
    f, c, out = go("get_stream_line", 1, False, "other", args=(strm("stdin"), None, None)); go("get_stream_line", 0, False, "file", args=(strm("file"), None, None))
    if not c.raw: r.viol("plain", f, "script input is not read")
    cipher(r, p, cbc); erase(r, p, cbc)
    r.need("cipher calls", 8); r.need("direct transfers", 8); r.need("successful writes checked", 2)
class BC(CPClient):
    """P = (state of the block: plain, encrypted, raw (read), decrypted; its length byte; the length byte of the last block written)"""
    prefix = 0
    def __init__(s, p, cbc, r): s.p = p; s.cbc = cbc; s.r = r; s.w = 0; s.d = 0
    def inline(s, n): return s.p.defined[n].file == s.cbc
    def store(s, I, st, i, loc, val):
        if loc[0] in ("p", "g") and isinstance(loc[-1], int) and loc[-1] == 7 and isinstance(val, int) and 0 <= val <= 8: st.P = (st.P[0], val, st.P[2])
    def call(s, I, st, i, n, args):
        if n is None or n.startswith("llvm.memcpy") or n == "memcpy":
            return None
        if n.startswith("DES_") and "encrypt" in n:
            e = args[3] if len(args) > 3 else None; s.d += 1
            to = "encrypted" if e == 1 else "decrypted" if e == 0 and st.P[0] == "raw" else "odd"
            return [(None, (to, st.P[1], st.P[2]), {})]
        if n in PUTS:
            s.w += 1
            if st.P[0] != "encrypted": s.r.viol("cipher", i, "the cipher writes a block that was not encrypted")
            P = ("plain", None, st.P[1])
            return [(8, P, {})]                # a failure shows in ferror
        if n in ("fread", "fread_unlocked"): return [(8, ("raw",) + st.P[1:], {}), (3, ("raw",) + st.P[1:], {}), (0, ("raw",) + st.P[1:], {})]
        if n in GETS: return [(-1, st.P, {}), (65, st.P, {})]
        f = s.p.defined.get(n)
        if f is not None and s.inline(n): return None
        return [(None, st.P, {})]
def cipher(r, p, cbc):
    f = p.defined["put_des_char"]; fl = p.defined["flush_des_file"]
    buf = [l for l in {i.ops[0][1] for i in f.all() if i.op == "load" and i.ops[0][0] == "g"}]
    idx = {i.ops[1][1] for i in f.all() if i.op == "store" and i.ops[1][0] == "g"} | set(buf)
    for n in range(9):
        for fn in ("put_des_char", "flush_des_file"):
            for ct in (0, 8):
                c = BC(p, cbc, r); I = Interp(p, c); m = {("g", g): n for g in idx if g != "des_fp"}
                for g in idx:
                    if g in cts(p): m[("g", g)] = ct
                out = I.run(fn, (65, None) if fn == "put_des_char" else (None,), m, ("plain", None, None)); r.count("cipher states evaluated"); r.count("blocks written", c.w)
                if fn != "flush_des_file": continue
                for ret, mem, P in out:
                    if ret != 0 or not n and not ct: continue
                    r.count("flushes checked")
                    if P[2] != n % 8: r.viol("last", fl, "a flush with %d bytes pending ends with a block that records %s of them" % (n, "none" if P[2] is None else P[2]))
    g = p.defined["get_des_char"]
    c = BC(p, cbc, r); I = Interp(p, c); out = I.run("get_des_char", (None, None), {}, ("old", None, None)); r.count("cipher states evaluated")
    idx2 = {i.ops[1][1] for i in g.all() if i.op == "store" and i.ops[1][0] == "g"}
    c = BC(p, cbc, r); I = Interp(p, c); out = I.run("get_des_char", (None, None), {("g", x): 0 for x in idx2}, ("none", None, None))
    for ret, mem, P in out:
        r.count("deliveries checked")
        if not (isinstance(ret, int) and ret < 0) and P[0] != "decrypted": r.viol("cipher", g, "a byte is delivered that was not decrypted")
    r.need("blocks written", 4); r.need("deliveries checked", 2); r.need("flushes checked", 9)
def cts(p):
    """the count that get_des_char compares the position with"""
    f = p.defined["flush_des_file"]; g = p.defined["get_des_char"]
    st = {i.ops[1][1] for i in g.all() if i.op == "store" and i.ops[1][0] == "g" and i.ops[0][0] == "v" and g.inst[i.ops[0][1]].op == "call"}
    return st
class KC(CPClient):
    """P = what still holds key text: subset of {typed, block}"""
    prefix = 0
    def __init__(s, p): s.p = p; s.n = 0
    def inline(s, n): return False
    def call(s, I, st, i, n, args):
        P = set(st.P)
        if n in ("getpass", "getpass_r", "readpassphrase", "rpl_getpass", "gnu_getpass"):
            s.n += 1
            return [(0, st.P, {}), (("p", "typed", 0), tuple(sorted(P | {"typed"})), {("p", "typed", 0): NZ}), (("p", "typed", 0), st.P, {("p", "typed", 0): 0})]
        a0 = args[0] if args else None
        isty = isinstance(a0, tuple) and a0[:2] == ("p", "typed")
        if n in ("memset", "explicit_bzero", "bzero", "memset_s") or n is None and len(args) == 3 or n is not None and n.startswith("llvm.memset"):
            if isty:
                P.discard("typed")
            return [(None, tuple(sorted(P)), {})]
        if n and n.startswith("llvm."): return None
        if n == "strlen": return [(NZ, st.P, {})]
        f = s.p.defined.get(n)
        return [(v, st.P, {}) for v in rets(s.p, n)] if f is not None else [(None, st.P, {})]
def erase(r, p, cbc):
    f = p.defined["get_des_keyword"]; c = KC(p); I = Interp(p, c)
    out = I.run("get_des_keyword", tuple(None for _ in f.args), {}, ())
    for ret, mem, P in out:
        r.count("ends of asking for a key checked")
        if "typed" in P: r.viol("erase", f, "returns %s while the typed key is still in memory" % ret)
    if not c.n: raise AnalysisError("nothing asks for the key")
    r.need("ends of asking for a key checked", 3)
