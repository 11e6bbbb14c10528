"""Transfers between registers and the buffer, by evaluation with symbolic streams."""
from cmds import *
from common import *
from shape import Shape, fld, ED, CORE, region
SEEKS = {"fseeko", "fseek", "fseeko64", "rpl_fseeko", "rpl_fseek"}; TRUNC = {"ftruncate", "ftruncate64"}
REG = ("reg",); FP = ("fld", REG, "fp")
def stream(n): return ("p", ("file", n), 0)
def slot(k): return ("p", ("el", FP, k), 0)
def name(k): return fld(("el", ("fld", REG, "path"), k), "name")
class C(CPClient):
    """P = (state of source, state of target): each (content, position); content: old, empty, moved over, written; position: None, start, end"""
    prefix = 2
    def __init__(s, p, hit): s.p = p; s.hit = hit; s.n = 0; s.home = p.defined["append_to_register"].file
    def inline(s, n):
        f = s.p.defined[n]
        return f.file == s.home and n not in s.xfer
    xfer = {"write_stream", "append_stream", "read_stream", "init_register_buffer"}
    def which(s, v):
        r = region(v)
        return r[1] if r and r[0] == "file" else None
    def call(s, I, st, i, n, args):
        if n is None: return [(None, st.P, {})]
        if n.startswith("llvm."): return None
        P = dict(st.P); up = lambda k, v: tuple(sorted({**P, k: v}.items()))
        if n in SEEKS:
            k = s.which(args[0]); s.n += 1
            if k is None: return [(0, st.P, {}), (-1, st.P, {})]
            c, _ = P[k]; pos = {(0, 0): "start", (0, 2): "end"}.get((args[1], args[2]), "other") if len(args) > 2 else None
            return [(0, up(k, (c, pos)), {}), (-1, up(k, (c, None)), {})]
        if n == "rewind":
            k = s.which(args[0]); s.n += 1
            return [(None, up(k, (P[k][0], "start")), {})] if k else None
        if n in ("fileno", "rpl_fileno"):
            k = s.which(args[0])
            return [(("p", ("fd", k), 0), st.P, {})] if k else None
        if n in TRUNC:
            r = region(args[0]); k = r[1] if r and r[0] == "fd" else None; s.n += 1
            if k is None: s.hit(i, "a stream the rule does not follow is truncated"); return None
            if args[1] != 0: s.hit(i, "a register is truncated to something else than nothing")
            c, pos = P[k]
            if k == "R":
                if c != "taken" : s.hit(i, "the source register is emptied before its lines were transferred")
                elif not s.move: s.hit(i, "copying empties the source register")
            if k == "W" and s.append: s.hit(i, "an appending transfer empties the target register")
            if k == "W" and c == "written": s.hit(i, "the target register is emptied after the transfer")
            return [(0, up(k, ("empty", pos)), {}), (-1, st.P, {})]
        f = s.p.defined.get(n)
        if n == "init_register_buffer":
            k = args[0]; s.n += 1
            if k != s.widx: s.hit(i, "a register other than the target is created")
            return [(0, up("W", ("empty", None)), {slot(s.widx): stream("W")}), (-2, st.P, {})]
        if f is not None and (n in ("write_stream", "append_stream", "read_stream") or not s.inline(n) and any(s.which(a) for a in args)):
            ks = [s.which(a) for a in args]; s.n += 1
            w = ks[0] if n != "read_stream" else None; rd = ks[0] if n == "read_stream" else ks[1] if n == "append_stream" else None
            if n not in s.xfer: s.hit(i, "a register is handed to %s, which the rule does not know" % n); return None
            if n != "read_stream":
                if w != "W": s.hit(i, "lines are written to something else than the target register")
                else:
                    c, pos = P["W"]
                    if s.append and c == "old" and pos != "end": s.hit(i, "an appending transfer does not start at the end of the target register")
                    if not s.append and c != "empty": s.hit(i, "a transfer that does not append finds old lines in the target register")
            if n != "write_stream":
                if rd != "R": s.hit(i, "lines are read from something else than the source register")
                elif P["R"][1] != "start": s.hit(i, "the source register is not read from its beginning")
            ok = dict(P)
            if n != "read_stream": ok["W"] = ("written", None)
            if n != "write_stream": ok["R"] = ("taken", None)
            bad = {k: (v[0], None) for k, v in P.items()}; bad["W"] = ("part", None) if n != "read_stream" else bad["W"]
            d = {}
            return [(0, tuple(sorted(ok.items())), d), (-2, tuple(sorted(bad.items())), d), (-4, tuple(sorted(bad.items())), d)]
        if f is not None and s.inline(n): return None
        if n in ("fflush", "fclose") and args and s.which(args[0]) and n == "fclose": s.hit(i, "a register is closed")
        if f is not None: return [(v, st.P, {}) for v in rets(s.p, n)]
        return None
class RInterp(Shape):
    VISITS = 4
FUN = (("append_from_register", False), ("append_to_register", False), ("inter_register_copy", False), ("inter_register_move", True))
def size(p):
    """number of registers"""
    n = {q[2] for f in p.defined.values() for i in f.all() if i.op == "getelementptr" and i.path and any(x[0] == "fld" and x[2] == "fp" and "register" in x[1] for x in i.path) for q in i.path if q[0] == "arr"}
    n |= {q[2] for f in p.defined.values() for i in f.all() if i.op == "getelementptr" for q in i.path if q[0] == "arr" and i.ops[0][0] == "v" and f.inst[i.ops[0][1]].op == "getelementptr" and any(x[0] == "fld" and x[2] == "fp" and "register" in x[1] for x in f.inst[i.ops[0][1]].path)}
    n = {x for x in n if isinstance(x, int)}
    if len(n) != 1: raise AnalysisError("the number of registers cannot be told")
    return n.pop()
def transfers(r):
    p = r.prog
    last = size(p) - 1
    for (fn, move), (ri, wi) in ((x, y) for x in FUN for y in ((1, 2), (0, last), (last, 0))):
        f = r.func(fn); rd = fn != "append_to_register"; wr = fn != "append_from_register"
        for same in ((False, True) if rd and wr else (False,)):
            for rex in ((True, False) if rd else (None,)):
                for wex in ((True, False) if wr and not same else (None,)):
                    for app in ((0, 1) if wr else (0,)):
                        rules = []
                        def hit(i, msg): r.viol("transfer", i, "%s%s: %s" % ("appending, " if app else "", "source and target are the same register" if same else "source %s, target %s" % tuple("is not used" if x is None else "exists" if x else "was never used" for x in (rex, wex)), msg))
                        c = C(p, hit); c.move = move; c.append = bool(app); c.widx = ri if same else wi
                        I = RInterp(p, c, 5)
                        m = {fld(("ed",), "core"): CORE, fld(("ed",), "exec"): ("p", ("exec",), 0), fld(("ed",), "file"): ("p", ("efile",), 0), fld(("ed",), "state"): ("p", ("state", 0), 0),
                             fld(("core",), "regbuf"): ("p", REG, 0), fld(REG, "read_idx"): ri, fld(REG, "write_idx"): c.widx, slot(ri): stream("R") if rex else 0, name(ri): ("p", ("str", "r"), 0) if rex else 0}
                        if not same: m[slot(wi)] = stream("W") if wex else 0; m[name(wi)] = ("p", ("str", "w"), 0) if wex else 0
                        P0 = (("R", ("old", None)), ("W", ("old", None)))
                        args = {"append_from_register": (0,), "append_to_register": (1, 3, app), "inter_register_copy": (app,), "inter_register_move": (app,)}[fn] + (ED,)
                        out = I.run(fn, args, m, P0); r.count("transfers evaluated"); r.count("paths", len(out)); r.count("stream operations followed", c.n)
                        if not out: raise AnalysisError("no path through " + fn)
                        if I.cut: r.count("paths cut", I.cut)
                        for ret, mem, P in out:
                            st = dict(P); fin = []
                            ok = isinstance(ret, int) and ret >= 0
                            s1, s2 = mem.get(slot(ri)), mem.get(slot(wi)); S = lambda v: v[1][1] if isinstance(v, tuple) and isinstance(v[1], tuple) and v[1][0] == "file" else 0
                            if ret is None: fin.append("the result is unknown")
                            if same:
                                if st["R"][0] not in ("old", "taken") or S(s1) != ("R" if rex else 0): fin.append("the register loses its lines")
                            elif rd:
                                swapped = wr and S(s1) == 0 and S(s2) == "R" and mem.get(name(wi)) == (("p", ("str", "r"), 0)) and mem.get(name(ri)) == 0
                                if rex and not swapped and S(s1) != "R": fin.append("the source register is lost")
                                if swapped and not move: fin.append("copying removes the source register")
                                if swapped and wex and not app and False: pass
                                if not ok and st["R"][0] == "empty" and st["W"][0] != "written" : fin.append("the source is emptied although the transfer failed")
                                if ok and rex and not swapped and st["R"][0] not in ("taken", "empty"): fin.append("succeeds without reading the source register")
                                if ok and move and rex and not swapped and st["R"][0] != "empty": fin.append("succeeds without emptying the source register")
                                if ok and not move and st["R"][0] == "empty": fin.append("copying empties the source register")
                                if wr and ok and rex and not swapped and st["W"][0] != "written": fin.append("succeeds without writing the target register")
                                if wr and ok and not rex and wex:
                                    if not app and st["W"][0] != "empty": fin.append("an empty source leaves old lines in the target register")
                                    if app and st["W"][0] != "old": fin.append("appending an empty source changes the target register")
                                if swapped and wex: fin.append("the lines of the target register are lost")
                            elif ok and st["W"][0] != "written": fin.append("succeeds without writing the target register")
                            for x in fin: r.viol("transfer", f, "%s%s: %s" % ("appending, " if app else "", "one register with itself" if same else "source %s, target %s" % tuple("not used" if x is None else "present" if x else "absent" for x in (rex, wex)), x))
    r.need("transfers evaluated", 18); r.need("stream operations followed", 30)
RI, WI, IOF = ("ed_register", "read_idx"), ("ed_register", "write_idx"), ("ed_register", "io_f")
class LC2(CmdClient):
    prefix = 6
    def __init__(s, p): CmdClient.__init__(s, p); s.seen = {}
    def step(s, I, st, i, n, args):
        P = st.P
        if n in ("append_from_register", "append_to_register", "inter_register_copy", "inter_register_move", "script_from_register", "reset_register_buffer", "delete_lines"):
            s.seen.setdefault(n, []).append((i, list(args), dict(st.mem), P))
            out = []
            for v in rets(s.p, n):
                d = {l: None for l in I.writes.get(n, ()) if l not in (RI, WI, IOF)}
                out.append((v, P + ((n, v),), d))
            return out
        return None
def letters_(r):
    p = r.prog; ec = r.func("exec_command"); last = None
    def ev(t):
        cl = LC2(p); I, out = command(p, cl, t, {}, P=()); r.count("register commands evaluated"); return cl, out
    def idx(x, loc): return {m.get(loc) for _, _, m, _ in x}
    # which register a digit names
    digits = [str(k) for k in range(10)] + [""]
    got = {}
    for d in digits:
        for t, fn, loc in (("<%sm" % d + "1\n", "append_from_register", RI), ("<%st" % d + ("x" if d == "" else "") + "\n", "append_from_register", RI), ("m>%s\n" % d, "append_to_register", WI), ("t>>%s\n" % d, "append_to_register", WI),
                           ("<%s@\n" % d, "script_from_register", RI), ("d\n" if d == "" else "m>%s\n" % d, "append_to_register", WI), ("<3m>%s\n" % d, "inter_register_move", WI), ("<%st>>3\n" % d, "inter_register_copy", RI)):
            if "tx" in t: t = t.replace("x", "")
            cl, out = ev(t); x = cl.seen.get(fn, [])
            v = idx(x, loc); r.count("register names checked")
            if not x: r.viol("name", ec, "the command %r does not reach %s" % (t, fn)); continue
            if len(v) != 1 or None in v: r.viol("name", ec, "the command %r may address several registers" % t); continue
            v = v.pop(); got.setdefault(d, set()).add(v)
            if d and v != int(d): r.viol("name", x[0][0], "in %r, register %s is taken for number %s" % (t, d, v))
            app = {"append_to_register": 2, "inter_register_copy": 0, "inter_register_move": 0}.get(fn)
            if app is not None:
                for i, a, m, P in x:
                    r.count("append flags checked")
                    if not isinstance(a[app], int) or bool(a[app]) != (">>" in t): r.viol("append", i, "in %r the transfer %s" % (t, "appends" if a[app] else "does not append"))
    if len(got.get("", ())) > 1 or any(v in range(10) for v in got.get("", ())): r.viol("name", ec, "without a digit different registers are used: %s" % sorted(got[""]))
    # order of steps
    for t, kind in (("<1m1\n", "from"), ("m>1\n", "to"), ("m>>1\n", "to"), ("<1t1\n", "copyfrom"), ("t>1\n", "copyto"), ("t>>1\n", "copyto"), ("<1t>2\n", "cc"), ("<1m>2\n", "mm"), ("d\n", "to")):
        cl, out = ev(t)
        for ret, mem, P in out:
            ok = isinstance(ret, int) and ret >= 0 or isinstance(ret, KB)
            steps = [n for n, v in P]; r.count("step sequences checked")
            okay = lambda n: any(a == n and v == 0 for a, v in P)
            def bad(msg): r.viol("order", ec, "the command %r %s" % (t, msg))
            if kind == "from":
                if "reset_register_buffer" in steps and not (("append_from_register", 0) in P and steps.index("append_from_register") < steps.index("reset_register_buffer")): bad("empties the register before its lines were added")
                if ok and not okay("reset_register_buffer"): bad("succeeds without emptying the register")
            if kind == "to":
                if "delete_lines" in steps and not (("append_to_register", 0) in P and steps.index("append_to_register") < steps.index("delete_lines")): bad("deletes the lines before they were written to the register")
                if ok and not okay("delete_lines"): bad("succeeds without deleting the lines")
            if kind.startswith("copy") or kind == "cc":
                if "reset_register_buffer" in steps or "delete_lines" in steps or "inter_register_move" in steps: bad("removes what it copies")
            n = {"from": "append_from_register", "to": "append_to_register", "copyfrom": "append_from_register", "copyto": "append_to_register", "cc": "inter_register_copy", "mm": "inter_register_move"}[kind]
            if ok and not okay(n): bad("succeeds without the transfer")
            others = {"append_from_register", "append_to_register", "inter_register_copy", "inter_register_move"} - {n}
            if others & set(steps): bad("makes another kind of transfer")
        x = cl.seen.get("reset_register_buffer", [])
        for i, a, m, P in x:
            if a[0] != m.get(RI): r.viol("order", i, "the command %r empties another register than its source" % t)
        if kind == "to":
            w = [(a[0], a[1]) for i, a, m, P in cl.seen.get("append_to_register", [])]; dl = [(a[0], a[1]) for i, a, m, P in cl.seen.get("delete_lines", [])]
            if set(w) != set(dl): r.viol("order", ec, "the command %r deletes other lines than it writes to the register" % t)
    r.need("register names checked", 70); r.need("step sequences checked", 20)
def run(r):
    r.explanation = ("The transfer functions are evaluated with a symbolic stream for each register, for every combination of existing and never used source and target, the same register twice, and appending or not, with every operation failing or not; "
                     "content (old, empty, written, taken) and position of each stream are followed. Then every command that takes a register is evaluated with every digit.")
    r.rule("transfer", "copying leaves the source; a move empties it only after the transfer succeeded (or hands its file over); without appending the target is empty when it is written, with appending it keeps its lines and is written at its end; the source is read from its start; a register is never transferred onto itself; an absent source counts as an empty one")
    r.rule("name", "a digit names the register of that number, no digit names one further register")
    r.rule("append", "'>>' appends and '>' replaces")
    r.rule("order", "lines moved or deleted to a register are removed from the buffer only after they were written there, those moved from a register leave it only after they were added to the buffer, and copying removes nothing")
    transfers(r); letters_(r)
