from curline import *
def run(r):
    p = r.prog; ec = r.func("exec_command"); r.explanation = ("Evaluation with affine positions, as for P40: the current line at the end of every successful editing function and command is compared with the one the manual names for that command.")
    r.rule("edit", "adding, copying, moving, joining and substituting lines makes the last line affected current")
    r.rule("print", "printing makes the last line printed current")
    r.rule("command", "a command ends with the documented line current")
    bad = set()
    def no(rule, f, what, key):
        if key not in bad: bad.add(key); r.viol(rule, f, what, key=key)
    def printed(f, F, T, N, ret, d, n):
        if ret == 0 and n == N:
            r.count("printed ranges")
            if d != T: no("print", f, "after printing %s,%s of %s lines the current line may be %s" % (sh(F), sh(T), sh(N), sh(d)), "print")
    def edited(f, fn, args, N, dot, desc, ret, d, n):
        if ret != 0 and not (ret is None and fn == "append_lines"): return
        F, T = args[0], args[1] if len(args) > 1 else None
        if fn == "copy_lines": want = addv(args[2], addv(n, N, -1))
        elif fn == "move_lines":
            A = args[2]
            want = T if A in (T, addv(F, -1)) else A if sign(addv(A, T, -1)) == {1} else addv(addv(A, T), addv(F, -1), -1)
        elif fn == "join_lines": want = F
        elif fn == "append_lines": want = addv(F, addv(n, N, -1))
        elif fn in ("read_stream", "read_stream_r"): want = addv(T, addv(n, N, -1))
        elif fn == "substitute_lines":
            if F == T: want = addv(F, addv(n, N, -1))
            else:
                r.count("editing results compared")
                top = addv(T, addv(n, N, -1))
                if not (sign(addv(d, F, -1)) <= {0, 1} and sign(addv(top, d, -1)) <= {0, 1}): no("edit", f, "substitution (%s) leaves line %s current, which it did not affect" % (desc, sh(d)), "edit:" + fn)
                return
        else: return
        r.count("editing results compared")
        if d != want: no("edit", f, "%s (%s) leaves line %s current instead of the last one affected, %s" % (fn, desc, sh(d), sh(want)), "edit:" + fn)
    def low(a, b):
        s = sign(addv(b, a, -1))
        return a if s <= {0, 1} else b if s <= {0, -1} else None
    one = lambda v: 1 if v == 0 else v
    def ended(ch, desc, m0, ret, mem, P):
        if isinstance(ret, int) and ret < 0: return
        d, n = mem.get(DOT), mem.get(LINES); N, D, s, e, k = (m0[x] for x in (LINES, DOT, START, END, ADDRS))
        want = None
        if ch in "pln": want = D if N == 0 else e
        elif ch == "\n": want = mem.get(END)
        elif ch == "d": want = low(s, n)
        elif ch == "a": want = addv(e, addv(n, N, -1)) if N != 0 else n
        elif ch == "i": want = low(one(e), n) if n == N else addv(addv(one(e), -1), addv(n, N, -1))
        elif ch == "c":
            if N == 0: return
            left = addv(addv(N, one(e), -1), addv(one(s), -1))
            want = low(one(s), n) if n == left else addv(addv(one(s), -1), addv(n, left, -1))
        elif ch == "r": want = addv(N if k == 0 or N == 0 else e, addv(n, N, -1))
        elif ch in "eE": want = n
        elif ch in "jmts": want = U if P in ANY else None
        elif ch in "=kfhHPwW#": want = D
        elif ch == "!":
            if k == 0: want = D
            elif N == 0: want = n
            else:
                left = addv(addv(N, one(e), -1), addv(one(s), -1))
                want = addv(addv(one(s), -1), addv(n, left, -1))
        if want is None: r.count("results without expectation"); return
        r.count("commands' results compared")
        if d != want: no("command", ec, "command '%s' with %s leaves line %s current instead of %s (of %s lines)" % (repr(ch)[1:-1], desc, sh(d), sh(want), sh(n)), "command:" + ch)
    steps(r, edited); printing(r, printed, {("p", ("fld", ("disp",), "io_f"), 0): 1})
    commands(r, ended, list("plnaicdrejmtsE=kfhHPwW#!\n"), exact=True)
    r.need("editing results compared", 100); r.need("commands' results compared", 1000); r.need("printed ranges", 30)
