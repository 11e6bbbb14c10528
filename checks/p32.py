import re
from kernel import *
from common import *
from ir import AnalysisError
# format position, and whether arguments are in a va_list
FMT = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "asprintf": 1, "syslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "error": 2, "error_at_line": 4,
       "wprintf": 0, "fwprintf": 1, "swprintf": 2, "obstack_printf": 1,
       "vprintf": 0, "vfprintf": 1, "vdprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vasprintf": 1, "vsyslog": 1, "verr": 1, "verrx": 1, "vwarn": 0, "vwarnx": 0,
       "scanf": 0, "fscanf": 1, "sscanf": 1, "vscanf": 0, "vfscanf": 1, "vsscanf": 1,
       "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4, "__vsnprintf_chk": 4, "__vfprintf_chk": 2, "strftime": 2}
VA = {n for n in FMT if n.startswith("v") or n.startswith("__v")}
SCAN = {n for n in FMT if n.endswith("scanf")}
WRITE = {"sprintf": 0, "snprintf": 0, "__sprintf_chk": 0, "__snprintf_chk": 0}
XLATE = {"gettext": 0, "dgettext": 1, "dcgettext": 1, "libintl_gettext": 0, "libintl_dgettext": 1, "libintl_dcgettext": 1}
CONV = re.compile(r"%(?:(%)|([-+ #0'I]*)(\*|\d+)?(?:\.(\*|-?\d*))?(hh|h|ll|l|q|L|j|z|Z|t)?(.))", re.S)
LEN64 = {"l", "ll", "q", "j", "z", "Z", "t"}
def conversions(s):
    """types of the arguments a format takes, or None when it is not well formed"""
    out = []; k = 0
    while True:
        k = s.find("%", k)
        if k < 0: return out
        m = CONV.match(s, k)
        if not m: return None
        k = m.end()
        if m.group(1): continue
        if m.group(3) == "*": out.append("i32")
        if m.group(4) == "*": out.append("i32")
        c = m.group(6); l = m.group(5)
        if c in "diouxX": out.append("i64" if l in LEN64 else "i32")
        elif c == "c": out.append("i32")
        elif c == "s" or c == "p": out.append("ptr")
        elif c in "eEfFgGaA": out.append("x86_fp80" if l == "L" else "double")
        elif c == "m": pass
        else: return None                 # %n writes memory; anything else is undefined
class Formats:
    def __init__(s, p):
        s.p = p; s.memo = {}; s.names = {}
        for f in p.defined.values():
            for i in f.all():
                for k, o in enumerate(i.ops):
                    g = s.root(f, o)
                    if g: s.names.setdefault(g, []).append((i, k))
    def root(s, f, o, n=0):
        """the object (global or alloca) a pointer points into"""
        if n > 8: return None
        if o[0] == "phi": o = o[1]
        if isinstance(o[0], tuple): o = o[0]
        if o[0] == "g": return ("g", o[1])
        if o[0] == "gep": return s.root(f, o[1], n + 1)
        if o[0] == "v":
            i = f.inst[o[1]]
            if i.op == "alloca": return ("l", f.name, o[1])
            if i.op == "getelementptr" or i.op == "bitcast": return s.root(f, i.ops[0], n + 1)
        return None
    def of(s, f, o):
        """every format string the operand can denote; None: not fixed by the program"""
        k = (f.name, o)
        if k in s.memo: return s.memo[k]
        s.memo[k] = frozenset()
        r = s.memo[k] = s._of(f, o)
        return r
    def all(s, xs):
        out = set()
        for x in xs:
            if x is None: return None
            out |= x
        return frozenset(out)
    def _of(s, f, o):
        if o[0] == "s": return frozenset((o[2],))
        if o[0] == "null": return frozenset()
        if o[0] == "a":
            if f.name in s.p.addr_taken or f.name == "main": return None
            cs = [i for m in s.p.callers.get(f.name, ()) if m in s.p.defined for i in s.p.defined[m].calls() if i.callee == f.name]
            return s.all(s.of(i.func, i.ops[o[1]]) if len(i.ops) > o[1] else None for i in cs) if cs else None
        g = s.root(f, o)
        if g: return s.buffer(f, g)
        if o[0] != "v": return None
        i = f.inst[o[1]]
        if i.op == "phi": return s.all(s.of(f, x[0]) for x in i.ops)
        if i.op == "select": return s.all(s.of(f, x) for x in i.ops[1:3])
        if i.op == "call":
            if i.callee in XLATE: return s.of(f, i.ops[XLATE[i.callee]])
            if i.callee in ("ngettext", "libintl_ngettext"): return s.all(s.of(f, x) for x in i.ops[:2])
            h = s.p.defined.get(i.callee)
            return s.all(s.of(h, x.ops[0]) for x in h.all() if x.op == "ret" and x.ops) if h else None
        if i.op == "load":
            a = i.ops[0]
            g = s.root(f, a)
            if g is None: return None
            if g[0] == "g":
                d = s.p.globals.get(g[1])
                if d is None or not d["internal"]: return None
            out = []
            for j, k in s.names.get(g, ()):
                if j.op in ("load", "getelementptr", "bitcast", "icmp"): continue
                if j.op == "store" and k == 1: out.append(s.of(j.func, j.ops[0]))
                elif j.op == "call" and j.callee and j.callee.startswith("llvm.lifetime"): continue
                else: return None
            if g[0] == "g":
                ini = list(d.get("init", ())) + ([d["init1"]] if "init1" in d else [])
                for x in ini: out += [s.cell(y) for y in (x if x and isinstance(x[0], (list, tuple)) else [x])]
                if not ini and not out: return None
            return s.all(out)
        return None
    def cell(s, x):
        if isinstance(x, (list, tuple)) and x and x[0] == "s": return frozenset((x[2],))
        if x and x[0] in ("null", "zero", "c"): return frozenset()
        return None
    def buffer(s, f, g):
        """a buffer: built only by formatted output of numbers"""
        if g[0] == "g":
            d = s.p.globals.get(g[1])
            if d is None or not d["internal"]: return None
        out = set(); seen = False
        for j, k in s.names.get(g, ()):
            if j.op in ("load", "getelementptr", "bitcast", "icmp", "phi", "select"):
                if j.op in ("phi", "select"): return None
                continue
            if j.op == "store":
                if k == 1 and j.ops[0][0] == "c" and j.ops[0][1] == 0: continue
                return None
            if j.op != "call": return None
            if WRITE.get(j.callee) == k:
                x = s.of(j.func, j.ops[FMT[j.callee]])
                if x is None: return None
                for t in x:
                    if conversions(t) is None or any(c not in ("i32", "i64") for c in conversions(t)) or re.search(r"%[^%]*?c", t.replace("%%", "")): return None
                    out.add(CONV.sub(lambda m: "%" if m.group(1) else "7", t)); seen = True
                continue
            if j.callee in FMT and k == FMT[j.callee]: continue
            if j.callee in ("strlen", "puts", "printf", "fputs") or (j.callee or "").startswith("llvm.lifetime"): continue
            return None
        return frozenset(out) if seen else None
def typ(f, o):
    if o[0] == "c": return "i%d" % o[2]
    if o[0] == "v": return f.inst[o[1]].ty
    if o[0] == "a":
        a = f.args[o[1]]
        return a.get("ty", a.get("type")) if isinstance(a, dict) else a if isinstance(a, str) else a[-1]
    return "ptr"
def run(r):
    p = r.prog
    for n in ("exec_command", "put_frame_buffer_line", "read_file"): r.func(n)
    r.explanation = ("Value analysis across calls of the format operand of every formatted input and output call in the program: every value it can take is traced to string constants (through translation lookups, "
                     "choices, parameters, private variables and buffers built by formatting numbers), and the conversions of each are matched with the types of the arguments passed.")
    r.rule("fixed", "the format of a formatted input or output call is fixed by the program")
    r.rule("arguments", "the conversions of a format agree in number and type with the arguments, and none writes to memory")
    F = Formats(p)
    for f in p.defined.values():
        for i in f.calls():
            if i.callee not in FMT: continue
            k = FMT[i.callee]
            if len(i.ops) <= k: raise AnalysisError("call of %s at line %d not understood" % (i.callee, i.line))
            r.count("formatted calls")
            x = F.of(f, i.ops[k])
            if x is None:
                r.viol("fixed", i, "the format of %s is not fixed by the program" % i.callee); continue
            if not x: raise AnalysisError("no format found for %s in %s" % (i.callee, f.name))
            if i.callee in VA or i.callee == "strftime": continue
            for t in sorted(x):
                c = conversions(t)
                r.count("formats")
                if c is None: r.viol("arguments", i, "format %r has a conversion that is undefined or writes to memory" % t); continue
                a = [typ(f, o) for o in i.ops[k + 1:]]
                if i.callee in SCAN: c = ["ptr"] * len(c)
                if len(a) < len(c) or any(u != v for u, v in zip(c, a)):
                    r.viol("arguments", i, "format %r takes %s, the call passes %s" % (t, c, a))
    r.need("formatted calls", 60)
