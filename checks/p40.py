from curline import *
def run(r):
    p = r.prog; ec = r.func("exec_command"); r.explanation = ("Evaluation with affine positions: every function that edits, reads or prints lines, over every kind of range, and every command letter (scrolling excepted) over every number of addresses and order of "
                     "first, last and current line and buffer end; at every end, successful or not, the current line is compared with the number of lines. Sizes and positions are symbols.")
    r.rule("edit", "a function that adds, deletes, moves, copies, joins, substitutes or reads lines leaves the current line within 0..number of lines; deleting makes the line before current, adding the last line added")
    r.rule("print", "printing a range leaves the current line within the buffer")
    r.rule("command", "every command leaves the current line within 0..number of lines, or unchanged in a buffer that did not shrink")
    r.assumptions.append("ranges handed to these functions lie in the buffer and addresses move the current line inside it only (P16)")
    def printed(f, F, T, N, ret, d, n):
        if not within(d, n): r.viol("print", f, "after printing %s,%s of %s lines the current line may be %s" % (sh(F), sh(T), sh(N), sh(d)))
    def edited(f, fn, args, N, dot, desc, ret, d, n):
        if not (within(d, n) or kept(dot, N, d, n)): r.viol("edit", f, "%s (%s) may leave %s as the current line of %s lines" % (fn, desc, sh(d), sh(n)))
        if fn == "delete_lines" and ret == 0 and (d != addv(args[0], -1) or n != addv(addv(N, args[1], -1), addv(args[0], -1))):
            r.viol("edit", f, "delete_lines does not make the line before the deleted ones current or miscounts them (%s)" % desc)
        if fn in ("append_lines", "read_stream", "read_stream_r") and isinstance(ret, int) and ret >= 0 and addv(d, args[0 if fn == "append_lines" else 1], -1) != addv(n, N, -1):
            r.viol("edit", f, "%s does not make the last line added current (%s)" % (fn, desc))
    def ended(ch, desc, m0, ret, mem, P):
        d, k = mem.get(DOT), mem.get(LINES); w = within(d, k)
        if w is None: r.count("ends of commands undecided"); return
        r.count("ends of commands decided")
        if not w and not kept(m0[DOT], m0[LINES], d, k):
            r.viol("command", ec, "command '%s' with %s%s may leave %s as the current line of %s lines" % (repr(ch)[1:-1], desc, " after " + P if P else "", sh(d), sh(k)), key="command:" + ch)
    steps(r, edited); printing(r, printed)
    commands(r, ended, [c for c in list(LETTERS) + ["<1m", "<1t", "<1@"] if c not in SCROLL])
    r.need("ends of commands decided", 3000)
