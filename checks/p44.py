"""The lines every command acts on: those addressed, or the documented default."""
from p16 import *
from p16 import C as RC
from curline import *
D0 = ((L(20, d=1), L(40, d=1, z=1)), (3, 9), (1, 1), (L(2, d=1), L(2, d=1)))           # current line, number of lines
RANGE, AFTER, BEFORE, AT = "range", "after", "before", "at"
DOTS, ALL, LAST, PAIR, NEXT = "the current line", "all lines", "the last line", "the current line and the next", "the next line"
# letter: (default, {function: what it is given})
SPEC = {"a": (DOTS, {"append_lines": AFTER}), "c": (DOTS, {"delete_lines": RANGE, "append_lines": "first"}), "d": (DOTS, {"delete_lines": RANGE, "append_to_register": RANGE}),
        "g": (ALL, {"mark_global_nodes": RANGE}), "G": (ALL, {"mark_global_nodes": RANGE}), "v": (ALL, {"mark_global_nodes": RANGE}), "V": (ALL, {"mark_global_nodes": RANGE}),
        "i": (DOTS, {"append_lines": BEFORE}), "j": (PAIR, {"join_lines": RANGE}), "k": (DOTS, {"get_line_node": AFTER}),
        "l": (DOTS, {"display_lines": RANGE}), "n": (DOTS, {"display_lines": RANGE}), "p": (DOTS, {"display_lines": RANGE}),
        "m": (DOTS, {"move_lines": RANGE}), "t": (DOTS, {"copy_lines": RANGE}), "r": (LAST, {"read_file": AFTER, "read_pipe": AFTER}), "s": (DOTS, {"substitute_lines": RANGE}),
        "w": (ALL, {"write_file": RANGE, "write_pipe": RANGE}), "W": (ALL, {"write_file": RANGE, "write_pipe": RANGE}), "!": (None, {"filter_lines": RANGE}),
        "\n": (NEXT, {"display_lines": AT}), "=": (LAST, {"printf": "number"}), "e": (ALL, {"delete_lines": RANGE, "read_file": "top", "read_pipe": "top"}), "E": (ALL, {"delete_lines": RANGE, "read_file": "top", "read_pipe": "top"})}
class WC(RC):
    """records what the functions of SPEC are given"""
    forksel = False
    def __init__(s, prog, r, ch, dest): RC.__init__(s, prog, r, ch, ""); s.log = {}; s.dest = dest
    def bad(s, *a): pass
    def step(s, I, st, i, n, a):
        if n in ("printf", "fprintf") and s.ch == "=": s.log.setdefault(("printf", tuple(a[1:])), i)
        if n == "address_range":
            k, v = s.dest
            return [(k, st.P, {ADDRS: k, START: v, END: v})]
        u = USE.get(n)
        if n == "mark_global_nodes": s.log.setdefault((n, (st.mem.get(START), st.mem.get(END), None)), i)
        elif u: s.log.setdefault((n, (a[u[0]] if u[0] is not None else None, a[u[1]] if u[1] is not None else None, a[u[2]] if u[2] is not None else None)), i)
        return RC.step(s, I, st, i, n, a)
def default(kind, dot, n):
    return {DOTS: (dot, dot), ALL: (1, n), LAST: (n, n), PAIR: (dot, addv(dot, 1)), NEXT: (addv(dot, 1), addv(dot, 1)), None: None}[kind]
def run(r):
    p = r.prog; ec = r.func("exec_command")
    r.explanation = ("Evaluation with affine positions: exec_command is evaluated for every command letter without, with one and with two addresses, with symbolic current and last line; what each function that works on lines is given "
                     "is compared with the addressed lines or, without addresses, with the default the documentation states for the command.")
    r.rule("lines", "a command acts on exactly the lines addressed, and without addresses on the documented default")
    r.rule("dest", "move and copy put the lines after the destination given, by default after the current line")
    for n in USE: r.func(n)
    seen = {}
    for ch, (kind, fns) in SPEC.items():
        texts = [ch] + ([ch + "q"] if ch == "w" else []) + (["!" + "x"] if ch == "!" else [])
        for text in texts:
            for dot, n in D0:
                rs = [(0, dot, dot)]
                if ch not in "eE":
                    big = dot == D0[0][0] or dot == 3
                    rs += [(1, dot, dot), (1, 1, 1), (1, n, n)] + ([(1, 2, 2), (2, 1, 2), (2, 2, dot), (2, dot, n), (2, 1, n), (2, 2, 2)] if big else [])
                    if ch in "ar=ic": rs.append((1, 0, 0))
                for k, s, e in rs:
                    for dest in ((1, 0), (1, n), (1, dot), (0, dot)) if ch in "mt" else ((0, dot),):
                        m = {OPT: 0, INP: ("p", "in", 0), START: s, END: e, ADDRS: k, LINES: n, DOT: dot, EMPTY: 0, GLOB: 0}
                        if ch in "eE": m[("ed_state", "is_modified")] = 0
                        for q, b in enumerate(text): m[("p", "in", q)] = ord(b)
                        cl = WC(p, r, ch, dest); I = Aff(p, cl); I.MAX = 2000000
                        I.run("exec_command", (None,), m, None)
                        r.count("commands evaluated")
                        want = (s, e) if k else default(kind, dot, n)
                        if ch == "\n" and k: want = (e, e)
                        if ch == "c" and k and e == 0: want = (1, 1)
                        if want and kind in (PAIR, NEXT) and not k and not sign(addv(n, want[1], -1)) <= {0, 1}: want = None
                        what = "command '%s' with %s, current line %s of %s" % (repr(text)[1:-1], "no address" if not k else "address %s" % sh(e) if k == 1 else "addresses %s,%s" % (sh(s), sh(e)), sh(dot), sh(n))
                        hit = False
                        for (fn, v), i in cl.log.items():
                            if fn not in fns: continue
                            role = fns[fn]; x, y, af = (v + (None, None, None))[:3]
                            if role == "number": x, y = v[-1] if v else None, None
                            got = {RANGE: (x, y), AT: (x, y), AFTER: af, BEFORE: af, "first": af, "top": af, "number": x}[role]
                            if None in (got if isinstance(got, tuple) and role in (RANGE, AT) else (got,)): r.count("calls with unknown lines"); continue
                            if role == "number" and lin(got) is None: continue
                            hit = True; r.count("calls compared")
                            if ch == "j" and k == 1: r.viol("lines", i, "%s joins lines" % what, key="lines:j1"); continue
                            if want is None:
                                r.viol("lines", i, "%s acts on lines %s although none are designated" % (what, got), key="lines:none:" + ch); continue
                            exp = {RANGE: want, AT: want, AFTER: want[1], BEFORE: addv(want[1], -1) if want[1] != 0 else 0, "first": addv(want[0], -1), "top": 0, "number": want[1]}[role]
                            if got != exp:
                                f2 = lambda z: "%s,%s" % (sh(z[0]), sh(z[1])) if role in (RANGE, AT) else sh(z)
                                r.viol("lines", i, "%s gives %s to %s instead of %s" % (what, f2(got), fn, f2(exp)), key="lines:%s:%s" % (fn, ch))
                            if ch in "mt":
                                if af is None: r.count("destinations unknown")
                                else:
                                    r.count("destinations compared")
                                    if af != dest[1]: r.viol("dest", i, "%s puts the lines after %s instead of %s" % (what, sh(af), sh(dest[1])), key="dest:" + ch)
                        if hit: seen.setdefault(ch, 0); seen[ch] += 1
                        inside = ch == "m" and want and sign(addv(dest[1], want[0], -1)) <= {0, 1} and sign(addv(want[1], dest[1], -1)) == {1}
                        if want and not hit and not (ch == "j" and k and s == e) and not inside and not r_unknown(cl, fns): r.viol("lines", ec, "%s does not act on any line" % what, key="lines:nothing:" + ch)
    for ch in SPEC:
        if ch not in seen: raise AnalysisError("command %r was never seen to act on lines" % ch)
    r.set("commands with a documented range", len(seen)); r.need("calls compared", 300); r.need("destinations compared", 20)
def r_unknown(cl, fns): return any(fn in fns for fn, v in cl.log)
