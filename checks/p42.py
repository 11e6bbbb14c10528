"""The sequence of lines after every editing function, compared with the documented one."""
from shapes import *
from curline import sh
from common import *
class SQ(Shape):
    """lines carry the tokens of their text"""
    def default(s, R, f):
        if R[0] == "n" and f in ("len", "seek"): return ("tok", R[1], f)
        return Shape.default(s, R, f)
def cases():
    """(function, first, last, destination or None, number of lines)"""
    for F in (1, 2, L(3, f=1)):
        for c in (0, 1, 2, 3):
            T = addv(F, c)
            for n in (0, 1, L(3, n=1)):
                N = addv(T, n)
                yield "delete_lines", F, T, None, N
                if c < 2 or n != 1: yield "join_lines", F, T, None, N
                if c < 2: yield "substitute_lines", F, T, None, N
                D = [0]
                if F != 1: D += [addv(F, -2), addv(F, -1)]
                D += [addv(F, k) for k in range(c + 1)]
                if n: D += [addv(T, 1)]
                if n and n != 1: D += [addv(T, 2), N]
                for A in dict.fromkeys(D):
                    inside = sign(addv(A, F, -1)) <= {0, 1} and sign(addv(T, A, -1)) == {1}
                    if not inside: yield "move_lines", F, T, A, N
                    yield "copy_lines", F, T, A, N
    for A, N in ((0, 0), (0, L(1, n=1)), (1, 1), (L(2, a=1), L(2, a=1)), (L(2, a=1), L(3, a=1, n=1))):
        for fn in ("append_lines", "read_stream", "read_stream_r"): yield fn, None, None, A, N
def walk(I, m):
    """the list from its head: [('seg', first, last) | ('new', region)], or a description of what is wrong"""
    get = lambda R, f: m.get(fld(R, f), I.default(R, f))
    mods = [k[1][1][1] for k in m if region(k) and region(k)[0] == "fld" and region(k)[1][0] == "n" and region(k)[2] == "q_forw" and m[k] != I.default(region(k)[1], "q_forw")]
    backs = {k[1][1][1] for k in m if region(k) and region(k)[0] == "fld" and region(k)[1][0] == "n" and region(k)[2] == "q_back" and m[k] != I.default(region(k)[1], "q_back")}
    items = []; prev = HEAD; cur = get(("n", 0), "q_forw")
    for _ in range(40):
        R = region(cur)
        if R is None or R[0] not in ("n", "new"): return None, "the list leads to something that is not a line"
        if get(R, "q_back") != prev: return None, "the line after %s does not lead back to it" % name(prev)
        if R == ("n", 0): break
        if R[0] == "new": items.append(("new", R)); prev = cur; cur = get(R, "q_forw"); continue
        e = R[1]; best = None
        for q in [x for x in mods if x != 0] + [I.n]:
            s = sign(addv(q, e, -1))
            if s <= {0, 1}:
                if best is None or sign(addv(best, q, -1)) <= {0, 1}: best = q
                elif not sign(addv(q, best, -1)) <= {0, 1}: return None, None
            elif s & {0, 1}: return None, None
        if best is None: return None, "a line beyond the last one is in the list"
        for b in backs:
            if b != e and b != 0:
                x, y = sign(addv(b, e, -1)), sign(addv(best, b, -1))
                if x == {1} and y <= {0, 1}: return None, "line %s does not lead back to the line before it" % sh(b)
        items.append(("seg", e, best)); prev = node(I.norm(best)); cur = get(("n", best), "q_forw")
    else: return None, "the list does not end"
    return items, None
def name(v):
    R = region(v)
    return "the head" if R == ("n", 0) else "line %s" % sh(R[1]) if R[0] == "n" else "a new line"
def seg(a, b):
    s = sign(addv(addv(b, a, -1), 1))
    return [] if s == {0} else [("seg", a, b)]
def norm(items):
    out = []
    for x in items:
        if x[0] == "seg" and out and out[-1][0] == "seg" and addv(out[-1][2], 1) == x[1]: out[-1] = ("seg", out[-1][1], x[2])
        else: out.append(x)
    return out
def show(items): return ", ".join("new" if x[0] == "new" else sh(x[1]) + ("" if x[1] == x[2] else ".." + sh(x[2])) for x in items) or "none"
def run(r):
    p = r.prog
    r.explanation = ("Shape analysis with affine positions: every function that edits or reads lines is evaluated over symbolic buffers for every position of its range and destination; "
                     "the list it leaves is walked from its head, forward and back, and compared with the sequence the command is documented to leave.")
    r.rule("order", "after success, the list holds exactly the documented sequence: what was not addressed keeps its place, deleted lines are gone, moved lines stand after the destination, new ones at their place")
    r.rule("linked", "after success and after failure, the links lead forward and back through the same lines and end at the head")
    r.rule("count", "the recorded number of lines is the number of lines in the list")
    r.rule("copy", "copies hold the text of the lines copied, in their order")
    r.assumptions.append("loops over lines are unrolled for up to four addressed or four added lines; positions and buffer sizes are symbols")
    bad = set()
    def no(rule, f, what):
        k = "%s:%s" % (rule, f.name)
        if k not in bad: bad.add(k); r.viol(rule, f, what, key=k)
    for fn, F, T, A, N in cases():
        f = r.func(fn)
        args = {"delete_lines": (F, T), "join_lines": (F, T), "substitute_lines": (F, T, NZ, 1, 0, 0), "append_lines": (A,), "read_stream": (NZ, A, None), "read_stream_r": (NZ, A, None)}.get(fn, (F, T, A))
        args += (None,) * (len(f.args) - 1 - len(args)) + (ED,)
        I = SQ(p, CC(p, helpers(p, [fn], STOP)), N); I.VISITS = 10 if A is not None and F is not None else 4; m = I.initial(A if F is None else 1); m[fld(("exec",), "global")] = 0
        what = "%s (%s%s of %s lines)" % (fn, "%s..%s" % (sh(F), sh(T)) if F is not None else "", " after %s" % sh(A) if A is not None else "", sh(N))
        r.count("cases"); good = 0
        for ret, mem, P in I.run(fn, args, m):
            n = mem.get(fld(S0, "lines")); r.count("results")
            items, err = walk(I, mem)
            if err: no("linked", f, "after %s, %s" % (what, err)); continue
            if items is None: r.count("results not decided"); continue
            total = 0
            for x in items: total = addv(total, 1 if x[0] == "new" else addv(addv(x[2], x[1], -1), 1))
            if total != n: no("count", f, "after %s the list has %s lines but %s are counted" % (what, sh(total), sh(n)))
            if isinstance(ret, int) and ret < 0: r.count("failures walked"); continue
            good = 1
            items = norm(items); new = [x for x in items if x[0] == "new"]
            rest = seg(1, addv(F, -1)) + seg(addv(T, 1), N) if F is not None else None
            if fn == "delete_lines": want = rest
            elif fn == "join_lines": want = seg(1, addv(F, -1)) + new[:1] + seg(addv(T, 1), N)
            elif fn in ("append_lines", "read_stream", "read_stream_r"):
                want = seg(1, A) + new + seg(addv(A, 1), N)
                if [x[1][1] for x in new] != sorted(x[1][1] for x in new): no("order", f, "after %s the lines added are not in the order they came in" % what)
            elif fn == "copy_lines":
                k = T[2] - F[2] if isL(T) else T - F
                if len(new) != k + 1: no("order", f, "after %s there are %d copies" % (what, len(new))); continue
                want = seg(1, A) + new + seg(addv(A, 1), N)
                for j, x in enumerate(new):
                    for fl in ("len", "seek"):
                        if mem.get(fld(x[1], fl)) != ("tok", addv(F, j), fl): no("copy", f, "after %s, copy %d does not hold the text of line %s" % (what, j + 1, sh(addv(F, j))))
                r.count("copies compared", len(new))
            elif fn == "move_lines":
                mv = [("seg", F, T)]
                if A in (T, addv(F, -1)): want = [("seg", 1, N)]
                elif sign(addv(A, T, -1)) == {1}: want = seg(1, addv(F, -1)) + seg(addv(T, 1), A) + mv + seg(addv(A, 1), N)
                else: want = seg(1, A) + mv + seg(addv(A, 1), addv(F, -1)) + seg(addv(T, 1), N)
            elif fn == "substitute_lines":
                # lines are replaced where they stand
                pre, post = seg(1, addv(F, -1)), seg(addv(T, 1), N)
                flat = []
                for x in items:
                    if x[0] == "new": flat.append(x); continue
                    a, b = x[1], x[2]
                    for s0, e0 in ((1, addv(F, -1)), (F, F), (addv(F, 1), T), (addv(T, 1), N)):
                        lo = a if sign(addv(a, s0, -1)) <= {0, 1} else s0; hi = b if sign(addv(e0, b, -1)) <= {0, 1} else e0
                        if sign(addv(hi, lo, -1)) <= {0, 1}: flat.append(("seg", lo, hi))
                mid = [x for x in flat if x not in pre and x not in post]
                if [x for x in flat if x not in mid] != pre + post or flat[:len(pre)] != pre or (post and flat[-1:] != post): no("order", f, "after %s the lines are %s" % (what, show(items)))
                else: r.count("sequences compared")
                continue
            r.count("sequences compared")
            if items != norm(want): no("order", f, "after %s the lines are %s instead of %s" % (what, show(items), show(norm(want))))
        r.count("cases that succeed", good)
    r.need("sequences compared", 200); r.need("cases that succeed", int(0.9 * r.coverage["cases"])); r.need("copies compared", 50); r.need("failures walked", 100)
