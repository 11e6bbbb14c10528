"""Address expressions: every form the documentation lists, evaluated with symbolic positions and compared with the documented meaning."""
from p16 import *
from curline import within
import itertools
D = L(20, d=1); N = L(40, d=1, z=1); NUM = {"3": 3, "12": 12}; MARK = {"a": 10, "z": 5}
POSIX, TRAD = 0x2000, 0x8
def nxt(d): return addv(d, 2)
def prv(d): return addv(d, -3)
BASES = [".", "$", "3", "12", "'a", "'z", "/x/", "?x?", ""]
OFFS = ["", "+", "-", "^", "+3", "-3", "^3", " 3", "++", "--", "-^", "+3-", " +3 ", "+ 3", "- 3", "^ 12", "3", "-3+12", "+12 3", "\t3"]
def offset(v, o):
    """reads an offset as the documentation says: signs count one, a sign with a number that number, a number after space is added"""
    k = 0
    while k < len(o):
        c = o[k]
        if c in "+-^":
            k += 1; j = k
            while j < len(o) and o[j].isdigit(): j += 1
            n = int(o[k:j]) if j > k else 1; k = j
            v = addv(v, n if c == "+" else -n)
        elif c.isdigit():
            j = k
            while j < len(o) and o[j].isdigit(): j += 1
            v = addv(v, int(o[k:j])); k = j
        else: k += 1
    return v
def meaning(base, off, dot, n):
    """value, whether there is an address"""
    if base == "": v = dot
    elif base == ".": v = dot
    elif base == "$": v = n
    elif base[0] == "'": v = MARK[base[1]]
    elif base[0] == "/": v = nxt(dot)
    elif base[0] == "?": v = prv(dot)
    else: v = NUM[base]
    return offset(v, off)
def inside(v, n): return sign(v) <= {0, 1} and sign(addv(n, v, -1)) <= {0, 1}
def expected(parts, seps, dot, n, opt):
    """(first, second, count, current line), or None if it is an error"""
    first = second = dot; cnt = 0
    for k, a in enumerate(parts):
        if k or a is None and seps:
            pass
        if k:
            s = seps[k - 1]
            if cnt == 0: first = dot if s == ";" else 1; second = n; cnt = 2
            else:
                first = second
                if s == ";": dot = second
        if a is not None and (a[0] + a[1]).strip(" \t"):
            if a[0] and a[0][0] in "/?" and not inside(dot, n): return None
            second = meaning(a[0], a[1], dot, n); cnt += 1
    cnt = min(cnt, 2)
    if cnt < 2: first = second
    if not opt & (POSIX | TRAD):
        roll = lambda v: n if v == -1 else 0 if v == addv(n, 1) else v
        first, second = roll(first), roll(second)
    if not all(inside(v, n) for v in (first, second, dot)): return None
    return first, second, cnt, dot
class Pos(Aff):
    """positions in the text are compared as well"""
    def cmp(s, st, i, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a[0] == b[0] == "p" and a[1] == b[1] == "in":
            x, y = a[2], b[2]
            return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}.get(i.pred, False))
        return Aff.cmp(s, st, i, a, b)
    def bin(s, i, a, b):
        f = lambda x: isinstance(x, tuple) and len(x) == 3 and x[:2] == ("p", "in")
        if f(a) and f(b) and i.op == "sub": return a[2] - b[2]
        return Aff.bin(s, i, a, b)
class AC(CPClient):
    prefix = 60; arrays = True
    def __init__(s, prog, r, text): s.p = prog; s.text = text; s.r = r; s.f = prog.defined["address_range"]; s.lib = prog.reach(["address_range"])
    def inline(s, n): return n in s.p.defined and n in s.lib and n not in ("get_marked_node_address", "get_compiled_regex", "get_matching_node_address")
    def call(s, I, st, i, n, a):
        if n in ("strtoll", "strtol", "__isoc23_strtoll", "__isoc23_strtol", "strtoimax", "strtoq"):
            if not (isinstance(a[0], tuple) and a[0][:2] == ("p", "in")): return None
            if a[2] != 10: s.r.viol("value", i, "the digits of an address are not read as a decimal number")
            k = j = a[0][2]
            while k < len(s.text) and s.text[k] in " \t": k += 1
            e = k + (s.text[k:k + 1] in ("+", "-")); 
            while e < len(s.text) and s.text[e].isdigit(): e += 1
            try: v = int(s.text[k:e])
            except ValueError: v, e = 0, j
            l = I.loc(st, i.ops[1]); w = {}
            if l is None: 
                if a[1] != 0: return None
            else: w[l] = ("p", "in", e)
            return [(v, st.P, w)]
        if n == "__errno_location": return [(("p", ("errno",), 0), st.P, {})]
        if n in ("spl1", "spl0", "gettext", "dcgettext"): return [(None if n[:3] == "spl" else NZ, st.P, {})]
        if n == "get_marked_node_address":
            l = I.loc(st, i.ops[1]); c = a[0]
            v = MARK.get(chr(c)) if isinstance(c, int) and 0 <= c < 128 else None
            return [(-2, st.P, {})] if v is None else [(0, st.P, {l: v})]
        if n == "get_compiled_regex":
            q = st.mem.get(INP)
            if not (isinstance(q, tuple) and q[:2] == ("p", "in")): return None
            c = s.text[q[2]]; k = q[2] + 1
            if a[0] != ord(c): s.r.viol("search", i, "the delimiter handed to the pattern compiler is not the one that was typed")
            while k < len(s.text) and s.text[k] not in (c, "\n"): k += 1
            return [(NZ, st.P + (c,), {INP: ("p", "in", k)})]
        if n == "get_matching_node_address":
            d = st.mem.get(DOT); s.r.count("searches evaluated")
            if lin(d) is None or not inside(d, s.n): s.r.viol("base", i, "in '%s' a search starts from line %s of %s lines" % (show(s.text), sh(d), sh(s.n)), key="base:" + i.func.name); return [(-2, st.P, {})]
            if a[1] not in (0, 1) or not st.P: return None
            want = 1 if st.P[-1] == "/" else 0
            if a[1] != want: s.r.viol("search", i, "'%s' searches in the wrong direction" % show(s.text), key="search:dir")
            return [(0, st.P, {I.loc(st, i.ops[2]): (nxt if a[1] else prv)(d)})]
        if s.inline(n): return passed(s, I, st, i, n, a)
        return None
def passed(s, I, st, i, n, a):
    """calls a function with local variables of the caller: they become places of their own for the call"""
    a = list(a[:len(s.p.defined[n].args)]); cells = {}
    mem = {l: v for l, v in st.mem.items() if not (l[0] == "l" and l[1] == st.f.name)}
    for k, o in enumerate(i.ops[:len(a)]):
        l = I.loc(st, o) if o[0] == "v" and st.f.inst[o[1]].op == "alloca" else None
        if l is not None and l[0] == "l":
            a[k] = c = ("p", ("cell",) + l[1:], 0); cells[c] = l
            if l in st.mem: mem[c] = st.mem[l]
    if not cells: return None
    out = []
    for ret, m, P in I.fn(s.p.defined[n], tuple(a), dict(mem), st.P, st.stack):
        d = {l: m.get(l) for l in set(m) | set(mem) if m.get(l) != mem.get(l)}
        for c, l in cells.items(): d[l] = m.get(c); d[c] = None
        out.append((ret, P, d))
    return out
def show(t): return repr(t)[1:-1]
def sweep(r):
    p = r.prog; f = r.func("address_range")
    for n in ("next_address", "get_matching_node_address", "get_compiled_regex", "get_marked_node_address", "get_line_node_address"): r.func(n)
    one = [(b, o) for b in BASES for o in OFFS if not (b == "" and o and o[0] in "3\t " and not "+" in o[:2]) and not (b in NUM and o[:1].isdigit()) ]
    small = [(".", ""), ("$", ""), ("3", ""), ("12", ""), ("'a", ""), ("/x/", ""), ("?x?", ""), ("", "+3"), ("", "-"), ("$", "-3"), ("/x/", "+")]
    T = [([a], []) for a in one] + [([None], [])]
    for s in ",;%":
        T += [([a, b], [s]) for a in small for b in small + [None]] + [([None, b], [s]) for b in small + [None]]
    mini = [("3", ""), ("", "+3"), ("/x/", ""), ("$", "-")]
    for s in (",,", ",;", ";,", ";;"): T += [([a, b, c], s) for a in mini + [None] for b in mini for c in mini + [None]]
    T += [([(b, "")], []) for b in ("/x", "?x")] + [([a, (b, "")], [c]) for a in small for b in ("/x", "?x") for c in ",;"]
    # out of range and rolling over
    edge = [("$", "+"), ("3", "-3"), ("3", "-3-"), ("$", "+3"), ("", "+3"), ("3", ""), ("3", "--3")]
    T += [([a], []) for a in edge] + [([a, b], [s]) for a in edge for b in edge + [("/x/", ""), ("?x?", ""), ("", "+"), None] for s in ",;"]
    for parts, seps in T:
        text = ""
        for k, a in enumerate(parts):
            text += (seps[k - 1] if k else "") + (a[0] + a[1] if a else "")
        end = len(text)
        full = text + ("\n" if text.endswith("x") else "p\n")
        for dot, n in ((D, N), (20, 40)) + (((0, 0), (0, 15)) if len(parts) < 3 and not any(a and ("'" in a[0]) for a in parts) else ()):
            if n in (0, 15) and any(a and a[0][:1] in ("/", "?") for a in parts): continue
            for opt in ((0, POSIX, TRAD) if len(parts) < 3 else (0,)):
                exp = expected(parts, seps, dot, n, opt)
                cl = AC(p, r, full); cl.n = n; I = Pos(p, cl); I.MAX = 400000
                m = {OPT: opt, INP: ("p", "in", 0), LINES: n, DOT: dot, ADDRS: 0}
                for k, b in enumerate(full): m["p", "in", k] = ord(b)
                m["p", "in", len(full)] = 0
                out = I.run("address_range", (None,), m, ())
                r.count("address expressions evaluated")
                where = "'%s' with current line %s of %s lines" % (show(text), sh(dot), sh(n))
                ok = [(ret, mem) for ret, mem, P in out if not (isinstance(ret, int) and ret < 0)]
                if exp is None:
                    r.count("expressions to be refused")
                    if ok: r.viol("value", f, "%s is accepted although it designates no line" % where, key="value:refuse")
                    continue
                if not ok: r.viol("value", f, "%s is refused" % where, key="value:refused"); continue
                if len(out) > len(ok): r.count("undecided refusals")
                for ret, mem in ok:
                    r.count("accepted expressions compared")
                    got = (mem.get(START), mem.get(END), mem.get(ADDRS), mem.get(DOT))
                    if got != exp or ret != exp[2]:
                        r.viol("value", f, "%s designates %s instead of %s" % (where, ", ".join(x + " " + sh(v) for x, v in zip(("first", "last", "addresses", "current line"), got)), ", ".join(sh(v) for v in exp)), key="value:" + (parts[0][0] if parts[0] else "") + "".join(seps))
                    ip = mem.get(INP)
                    if ip != ("p", "in", end) and not (isinstance(ip, tuple) and ip[:2] == ("p", "in") and full[end:ip[2]].strip(" \t") == "" and ip[2] >= end): r.viol("value", f, "after '%s' the command is not read from where the addresses end" % show(text), key="value:input")
    r.need("accepted expressions compared", 800); r.need("expressions to be refused", 60); r.need("searches evaluated", 200)
class SC(CPClient):
    prefix = 4
    def __init__(s, prog, r): s.p = prog; s.r = r
    def inline(s, n): return n in s.p.defined and n not in ("spl0", "spl1")
    def call(s, I, st, i, n, a):
        if n == "get_line_node": return [(("p", ("line", a[0]), 0) if isinstance(a[0], int) else NZ, st.P, {})]
        if n == "get_buffer_line":
            k = a[0][1][1] if isinstance(a[0], tuple) and a[0][0] == "p" and isinstance(a[0][1], tuple) and a[0][1][0] == "line" else None
            if k is not None and not 1 <= k <= s.n: s.r.viol("order", i, "a search reads line %d of %d lines" % (k, s.n))
            return [(("p", ("text", k), 0), st.P, {})]
        if n in ("regexec", "rpl_regexec"):
            k = a[1][1][1] if isinstance(a[1], tuple) and a[1][0] == "p" and isinstance(a[1][1], tuple) and a[1][1][0] == "text" else None
            if len(st.P) > 12: return []
            return [(0, st.P + (k, "match"), {}), (1, st.P + (k,), {})]
        if n in ("gettext", "dcgettext"): return [(NZ, st.P, {})]
        return None
def search(r):
    p = r.prog; f = r.func("get_matching_node_address")
    for n in range(0, 6):
        for d in range(0, n + 1):
            for way in (0, 1):
                # the lines in the documented order, ending with the current line
                seq = [x % (n + 1) for x in (range(d + 1, d + n + 2) if way else range(d + n, d - 1, -1))]
                seq = [x for x in seq if x]
                cl = SC(p, r); cl.n = n; I = Interp(p, cl); I.MAX = 200000
                out = I.run("get_matching_node_address", (NZ, way, ("p", ("addr",), 0), None), {LINES: n, DOT: d, ("p", ("addr",), 0): d}, ())
                r.count("searches followed")
                ends = set()
                for ret, mem, P in out:
                    vis = [x for x in P if x != "match"]
                    if None in vis: raise AnalysisError("lines searched cannot be identified")
                    what = "a %s search from line %d of %d" % ("forward" if way else "backward", d, n)
                    if vis != seq[:len(vis)]: r.viol("order", f, "%s reads lines %s instead of %s" % (what, vis, seq), key="order:%d" % way); continue
                    if "match" in P:
                        r.count("matches followed"); ends.add(len(vis))
                        if ret != 0 or mem.get(("p", ("addr",), 0)) != vis[-1]: r.viol("order", f, "%s does not report the first line that matches" % what, key="order:first")
                    elif not (isinstance(ret, int) and ret < 0): r.viol("order", f, "%s succeeds without a match" % what, key="order:none")
                    elif vis != seq: r.viol("order", f, "%s gives up before every line was tried" % what, key="order:all")
                    if mem.get(DOT) != d: r.viol("order", f, "%s changes the current line" % what, key="order:dot")
                if ends != set(range(1, len(seq) + 1)): r.viol("order", f, "%s cannot find every line" % what, key="order:find")
    r.need("matches followed", 60)
def number(r):
    """the address of a line node"""
    import shapes
    from shape import Shape, SClient, node, ED, fld
    p = r.prog; f = r.func("get_line_node_address")
    class H(SClient):
        def models(s, I, st, i, n, a): return None
    for n in range(0, 5):
        for k in list(range(0, n + 1)) + [None]:
            I = Shape(p, H(p), n); I.VISITS = 10
            t = fld(("tmp",), "addr")
            for ret, mem, P in I.run("get_line_node_address", (node(k) if k is not None else ("p", ("gone",), 0), t, ED), I.initial(0), ()):
                r.count("line numbers computed")
                v = [x for l, x in mem.items() if l == t or region(l) == region(t)]
                if k is None:
                    if n and ret == 0: r.viol("number", f, "a line that is not in the buffer is given a number")
                elif ret != 0 or v != [k]: r.viol("number", f, "line %d of %d is given number %s" % (k, n, v or "none"))
    r.need("line numbers computed", 15)
from shape import region
# text of a search, the pattern in it, where it ends (None: it is refused)
def pats():
    for t, n in (("a", 1), ("abc", 3), ("a\\%s", 3), ("\\%sa", 3), ("a\\%sb\\%sc", 7), ("[%s]", 3), ("x[^%s]y", 6), ("[]%s]", 4), ("[^]%s]z", 6), ("[[:alpha:]%s]", 12), ("[[.%s.]]", 7), ("[[=%s=]%s]q", 9),
                 ("[a%sb]%s", None), ("\\[%s", None), ("\\\\", 2), ("\\(a\\)*", 6), ("a.b", 3), ("[[]%s", None), ("[a-z]", 5), ("\\]", 2), ("[\\%s]", 4), ("a]", 2)):
        for d in "/?":
            x = t.replace("%s", d)
            # up to the first delimiter that is neither escaped nor in brackets
            if n is None:
                n2 = {"[a%sb]%s": 5, "\\[%s": 2, "[[]%s": 3}[t]
                yield d + x, x[:n2], 1 + n2 + 1
            else:
                yield d + x + d, x, n + 2; yield d + x, x, n + 1
    yield "/[a", None, None
    yield "?[^]", None, None
    yield "/[[:alpha:", None, None
    yield "/a\\", None, None
class PC(AC):
    """patterns are read by the editor's own code"""
    ptrs = True
    def inline(s, n): return n in s.p.defined and n in s.lib and n not in ("get_marked_node_address", "get_matching_node_address", "release_regex", "spl0", "spl1") and not n.startswith("re")
    def call(s, I, st, i, n, a):
        if n in ("re_compile_pattern", "rpl_re_compile_pattern", "regcomp", "rpl_regcomp"): return [(0, st.P + (("len", a[1] if isinstance(a[1], int) else None),), {})]
        if n in ("malloc", "realloc", "realloc_buffer", "calloc"): return [(NZ, st.P, {})]
        if n in ("release_regex", "regfree", "free"): return [(None, st.P, {})]
        if n == "get_compiled_regex": return passed(s, I, st, i, n, a)
        if n == "regular_expression": return passed(s, I, st, i, n, a)
        if n and (n.startswith("llvm.memcpy") or n in ("memcpy", "strncpy")):
            if isinstance(a[1], tuple) and a[1][:2] == ("p", "in") and isinstance(a[2], int): return [(None, st.P + (("pattern", s.text[a[1][2]:a[1][2] + a[2]]),), {})]
            return [(None, st.P, {})]
        if n == "get_matching_node_address" and a[0] == 0: return [(-2, st.P, {})]
        if n == "get_matching_node_address": return [(0, st.P + ("/" if a[1] == 1 else "?",), {I.loc(st, i.ops[2]): 7})]
        return AC.call(s, I, st, i, n, a)
def read(P, want):
    """the pattern that was read, if it is known: its text or as much of it as its length tells"""
    got = [x[1] for x in P if x[0] == "pattern"]; n = [x[1] for x in P if x[0] == "len"]
    if got: return got[0]
    if n and n[0] is not None: return want if n[0] == len(want) else "%d characters" % n[0]
    return None
def patterns(r):
    p = r.prog; f = r.func("get_compiled_regex"); ra = p.defined["address_range"]
    for text, pat, end in pats():
        full = text + ("p" if end == len(text) and text[-1] == text[0] and pat is not None and len(pat) + 2 == end else "") + "\n"
        cl = PC(p, r, full); cl.n = 9; I = Pos(p, cl); I.MAX = 400000
        m = {OPT: 0, INP: ("p", "in", 0), LINES: 9, DOT: 3, ADDRS: 0}
        for k, b in enumerate(full): m["p", "in", k] = ord(b)
        m["p", "in", len(full)] = 0
        out = I.run("address_range", (None,), m, ())
        r.count("patterns read")
        ok = [(mem, P) for ret, mem, P in out if ret == 1]
        if pat is None:
            if ok: r.viol("pattern", f, "the pattern of '%s' is accepted although it does not end" % show(text), key="pattern:refuse")
            continue
        if not ok: r.viol("pattern", f, "'%s' is refused" % show(text), key="pattern:refused"); continue
        for mem, P in ok:
            r.count("patterns compared")
            got = read(P, pat)
            if got not in (None, pat): r.viol("pattern", f, "the pattern of '%s' is read as '%s' instead of '%s'" % (show(text), show(got), show(pat)), key="pattern:text")
            if got is not None: r.count("patterns known")
            if mem.get(INP) != ("p", "in", end): r.viol("pattern", f, "after '%s' the command is not read from where the pattern ends" % show(text), key="pattern:end")
            if text[0] not in P: r.viol("pattern", ra, "'%s' searches in the wrong direction" % show(text), key="pattern:way")
    for d in ("?", "/", ",", "|", "#", "e"):
        for t, n in (("a", 1), ("ab.*", 4), ("a..", 3), ("a\\%s", 3), ("[%s]", 3), ("[^]%s]c", 6), ("[[:alpha:]%s]", 12), ("[[.%s.]]b", 8), ("\\\\", 2)):
            for tail in (d, d + d, "", d + "q" + d + "p", d + "\\" + d):
                for kind in range(2):
                    x = t.replace("%s", d); full = d + x + tail + "\n"
                    cl = PC(p, r, full); I = Pos(p, cl); I.MAX = 400000; m = {OPT: 0, INP: ("p", "in", 0)}
                    for k, b in enumerate(full): m["p", "in", k] = ord(b)
                    m["p", "in", len(full)] = 0
                    for ret, mem, P in I.run("get_compiled_regex", (ord(d), kind, None), m, ()):
                        got = read(P, x); r.count("patterns compared")
                        if got is not None: r.count("patterns known")
                        if got not in (None, x): r.viol("pattern", f, "with delimiter %s the pattern of '%s' is read as '%s' instead of '%s'" % (d, show(full[:-1]), show(got), show(x)), key="pattern:text")
                        if ret != 0 and ret is not None and mem.get(INP) != ("p", "in", 1 + n): r.viol("pattern", f, "with delimiter %s the pattern of '%s' does not end at the delimiter" % (d, show(full[:-1])), key="pattern:end")
    r.need("patterns compared", 400); r.need("patterns known", 1)
def marks(r):
    """a mark is found under its own letter, and no other is disturbed"""
    import shapes
    from shape import Shape, SClient, node, ED, fld
    p = r.prog; mk = r.func("mark_line_node"); gm = r.func("get_marked_node_address")
    class M(SClient):
        def __init__(s): SClient.__init__(s, p); s.inl = shapes.helpers(p, ["mark_line_node", "get_marked_node_address"], shapes.STOP | {"get_line_node_address"})
        def models(s, I, st, i, n, a):
            if n == "get_line_node_address": return [(0, st.P + (("asked", a[0]),), {})]
            return None
    t = fld(("tmp",), "addr"); n = 9
    abc = "abcdefghijklmnopqrstuvwxyz"
    for x, y in [(a, b) for a in abc for b in abc]:
        I = Shape(p, M(), n); I.VISITS = 40
        for r1, m1, P1 in I.run("mark_line_node", (node(2), ord(x), ED), I.initial(0), ()):
            for r2, m2, P2 in I.run("mark_line_node", (node(5), ord(y), ED), shapes.clean(m1), ()):
                for c, want in ((x, 2 if x != y else 5), (y, 5)):
                    for r3, m3, P3 in I.run("get_marked_node_address", (ord(c), t, ED), shapes.clean(m2), ()):
                        r.count("marks looked up")
                        got = [q[1] for q in P3 if q[0] == "asked"]
                        if r1 != 0 or r2 != 0 or r3 != 0: r.viol("mark", gm, "a line marked with '%s' is not found" % c, key="mark:refused")
                        elif got != [node(want)]: r.viol("mark", gm, "'%s designates another line than the one marked with it" % c, key="mark:other")
    for c in (0, 10, 32, 47, 65, 90, 96, 123, 127):
        I = Shape(p, M(), n)
        for ret, mm, P in I.run("get_marked_node_address", (c, t, ED), I.initial(0), ()):
            if not (isinstance(ret, int) and ret < 0): r.viol("mark", gm, "a mark named by byte %d is accepted" % c, key="mark:name")
    r.need("marks looked up", 1352)
def run(r):
    r.explanation = ("Evaluation with affine positions: every form of address in the documentation - bases, offsets, marks, searches, separators, omissions, three-address lists - is evaluated through address_range with symbolic current and last line, "
                     "and first, last and current line, number of addresses and the place where the command starts are compared with the documented meaning; searches and line numbers are followed over small buffers.")
    r.rule("value", "an address expression designates the lines the documentation says, or is refused if they are outside the buffer; what follows it is read as the command")
    r.rule("base", "a search starts from a line of the buffer")
    r.rule("search", "/ searches forward and ? backward, with the delimiter that was typed")
    r.rule("order", "a search tries the following (preceding) lines in order, wraps around once, ends with the current line, and reports the first that matches")
    r.rule("number", "the number of a line is its position in the list of lines")
    r.rule("pattern", "a search pattern ends at the first delimiter that is neither escaped nor in brackets, or with the line, and is refused if a bracket expression or escape is not finished")
    r.rule("mark", "a mark designates the line that was marked with its letter last")
    sweep(r); search(r); number(r); patterns(r); marks(r)
