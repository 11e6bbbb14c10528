from cmds import *
from common import *
PUT = {"fwrite", "putc", "fputc", "fputs", "putc_unlocked", "_IO_putc", "fputs_unlocked", "fwrite_unlocked", "__overflow", "write"}
SEEKS = {"fseeko", "fseek", "fseeko64", "lseek", "lseek64"}; TRUNC = {"ftruncate", "ftruncate64"}
OPENS = {"fopen", "fopen64", "freopen", "freopen64"}; RAW = {"open", "open64", "creat", "creat64", "truncate", "truncate64"}
HANDLE = ("ed_file", "handle")
class C(CPClient):
    """P = (stream opened with this mode or None, last positioning (offset, whence), truncated to)"""
    prefix = 2
    forksel = True
    def __init__(s, p, mode, home):
        s.p = p; s.mode = mode; s.home = home; s.viol = []; s.writes = 0; s.sites = set(); s.seen = set(); s.other = set()
        s.put = {n for n in p.defined if p.reach([n]) & PUT}
    def inline(s, n): return s.p.defined[n].file == s.home and n not in s.put
    def call(s, I, st, i, n, args):
        if n is None: return [(None, st.P, {})]
        if n in CT or n.startswith("llvm.") or n.startswith("__ctype"): return None
        P = st.P
        if n in OPENS:
            s.seen.add("open"); m = args[1] if n.startswith("fopen") else args[1]
            m = m[1][1] if isinstance(m, tuple) and m[0] == "p" and isinstance(m[1], tuple) and m[1][0] == "str" and m[2] == 0 else None
            return [(0, P, {}), (("p", "opened", 0), (m, None, P[2]), {})]
        if n in RAW: s.viol.append((i, "a file is opened or truncated in a way the rule does not follow")); return [(None, P, {})]
        if n in SEEKS:
            s.seen.add("seek"); return [(-1, P, {}), (0, (P[0], (args[1], args[2]) , P[2]), {})]
        if n in TRUNC:
            s.seen.add("truncate"); return [(-1, P, {}), (0, (P[0], P[1], args[1] if isinstance(args[1], int) else "?"), {})]
        f = s.p.defined.get(n)
        if n in PUT or n in s.put:
            a = {x[1] for x in args if isinstance(x, tuple) and x[0] == "p" and x[1] in ("opened", "handle")}
            if a: s.check(I, st, i, n, args, "opened" in a)
            elif n in PUT or s.p.defined[n].file == s.home: s.other.add(i)
            return [(v, P, {l: None for l in I.writes.get(n, ())} if f is not None else {}) for v in rets(s.p, n)]
        if f is not None and s.inline(n): return None
        if n in noreturn(s.p): return []
        d = {l: None for l in I.writes.get(n, ())} if f is not None else {}
        for o in i.ops:
            l = I.loc(st, o) if o[0] == "v" else None
            if l is not None and l[0] == "l": d[l] = None
        return [(v, P, d) for v in rets(s.p, n)]
    def check(s, I, st, i, n, args, opened):
        s.writes += 1; s.sites.add(i); om, pos, tr = st.P
        if opened:
            if om != s.mode: s.viol.append((i, "the file is opened with mode %r for a write of mode %r" % (om, s.mode)))
            elif s.mode == "a" and tr is not None: s.viol.append((i, "an appending write truncates the file"))
            elif pos is not None and s.mode == "w" and pos != (0, 0): s.viol.append((i, "a plain write starts at another position than the beginning"))
            return
        if s.mode == "a":
            if tr is not None: s.viol.append((i, "an appending write truncates the file"))
            elif pos is None or pos != (0, 2): s.viol.append((i, "an appending write to the open file does not start at its end"))
        else:
            if tr is None or tr != 0: s.viol.append((i, "a plain write to the open file does not truncate it to nothing first"))
            elif pos is None or pos != (0, 0): s.viol.append((i, "a plain write to the open file does not start at its beginning"))
def run(r):
    p = r.prog; wf = r.func("write_file"); r.func("exec_command")
    r.explanation = ("Constant propagation through write_file for both modes: at every point where lines are written, how the stream was obtained, positioned and truncated must be "
                     "what the mode demands.  Then exec_command is evaluated for the two write letters, and every other opening of a file by name is checked for its mode.")
    r.rule("append", "an appending write opens the file for appending, or positions the open stream at its end, and truncates nothing")
    r.rule("replace", "a plain write opens the file for replacing, or positions the open stream at its beginning and truncates the file to nothing")
    r.rule("mode", "the command 'W' asks for an appending write and the commands 'w', 'wq' and the like for a plain one")
    r.rule("elsewhere", "a file named by the user is opened by other functions only for reading or without truncation")
    for mode in ("w", "a"):
        for dflt in (0, 1):
            c = C(p, mode, wf.file); I = Interp(p, c); I.MAX = 1500000
            if len(wf.args) != 8: raise AnalysisError("write_file takes other arguments than expected")
            out = I.run("write_file", (("p", "fn", 0), dflt, None, None, None, None, ("p", ("str", mode), 0), None), {("p", ("str", mode), 0): ord(mode), ("p", ("str", mode), 1): 0, HANDLE: ("p", "handle", 0)}, (None, None, None))
            r.count("paths", len(out)); r.count("writes evaluated", c.writes)
            r.set("writing steps", len(c.sites))
            for i, m in c.viol: r.viol("append" if mode == "a" else "replace", i, m, key="%s:%s" % (mode, m))
            if not c.writes: raise AnalysisError("write_file writes nothing in mode %r" % mode)
    r.need("writes evaluated", 6)
    import p28
    for ch, want in (("w", "w"), ("W", "a")):
        for mem in ({GLOB: 0}, {GLOB: 1}):
            cl = p28.C(p); I, o = command(p, cl, ch, mem)
            for i, args, m in cl.wr.get("write_file", ()):
                r.count("write commands evaluated"); a = args[6]
                if not (isinstance(a, tuple) and a[0] == "p" and a[1] == ("str", want) and a[2] == 0): r.viol("mode", i, "command '%s' does not ask for a write of mode \"%s\"" % (ch, want), key=ch)
    r.need("write commands evaluated", 2)
    for f in p.defined.values():
        for i in f.calls():
            if i.callee in OPENS:
                r.count("calls that open a file by name")
                m = i.ops[1]
                if m[0] == "s" and m[2][:1] == "r": continue
                if f.name == "write_file" or f.file == wf.file and f.name in p.reach(["write_file"]): continue
                r.viol("elsewhere", i, "a file is opened with a mode that may truncate or change it")
            elif i.callee in TRUNC | {"truncate", "truncate64"}: r.count("truncations")
    r.need("calls that open a file by name", 5)
