"""Helpers shared by the checks."""
from ir import *
import ir
def exclusive(p, via, roots=("main",)):
    """functions that can only be reached through one of `via` (which are included)"""
    seen = set(); st = list(roots)
    for g in p.tables.values(): pass
    while st:
        n = st.pop()
        if n in seen or n in via: continue
        seen.add(n)
        st += [c for c in p.callees.get(n, ())]
    return p.reach(list(via)) - seen
def bit(s): return 1 << (s - 1)
def child_blocks(p):
    """per function: blocks only reachable through a `fork () == 0` edge (functions only called from such blocks: all blocks)"""
    out = {}
    for n, f in p.defined.items():
        forks = [i for i in f.calls() if i.callee in ("fork", "vfork")]
        if not forks: continue
        ids = {i.id for i in forks}
        def kids(v):      # values that are copies of the fork result
            s = set(v); ch = True
            while ch:
                ch = False
                for i in f.all():
                    if i.id not in s and i.op in ("phi", "sext", "zext", "trunc", "freeze") and any((o[0] if i.op == "phi" else o)[:2] == ("v", x) for o in i.ops for x in s): s.add(i.id); ch = True
            return s
        ids = kids(ids)
        # child edges: block edge on which the result is known 0
        edges = set()
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == "switch" and t.ops[0][0] == "v" and t.ops[0][1] in ids:
                for (v, d) in t.cases:
                    if v == 0: edges.add((b.id, d))
            if t.op == "br" and t.ops and t.ops[0][0] == "v":
                c = f.inst[t.ops[0][1]]
                if c.op == "icmp" and c.ops[1][0] == "c" and c.ops[1][1] == 0 and c.ops[0][0] == "v" and c.ops[0][1] in ids:
                    if c.pred == "eq": edges.add((b.id, t.t))
                    if c.pred == "ne": edges.add((b.id, t.f))
        # blocks reachable without a child edge
        seen = set(); st = [0]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            st += [s for s in f.blocks[x].succ if (x, s) not in edges]
        out[n] = {b.id for b in f.blocks} - seen
    # functions called only from child blocks
    ch = True
    while ch:
        ch = False
        for n, f in p.defined.items():
            if n in out and out[n] == {b.id for b in f.blocks}: continue
            cs = [i for m in p.callers.get(n, ()) for i in p.defined[m].all() if n in p.targets(i)]
            if cs and n not in p.addr_taken and all(i.block.id in out.get(i.func.name, ()) for i in cs):
                out[n] = {b.id for b in f.blocks}; ch = True
    return out
def option(name, default):
    """an option bit, from the enumeration in the headers"""
    import glob, os, re
    t = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(os.path.join(ir.REPO, "src", "*.h"))))
    m = re.search(r"\b%s\s*=\s*(0[xX][0-9a-fA-F]+|\d+)" % name, t)
    return int(m.group(1), 0) if m else default
def elem(I, st, o):
    """which element of an array a value was loaded from, if that is known"""
    for _ in range(12):
        if o[0] == "gep":
            for e in o[2]:
                if e[0] == "arr": return I.val(st, e[1]) if isinstance(I.val(st, e[1]), int) else None
            o = o[1]; continue
        if o[0] != "v" or o[1] not in st.f.inst: return None
        j = st.f.inst[o[1]]
        if j.op == "getelementptr":
            for e in j.path:
                if e[0] == "arr": return I.val(st, e[1]) if isinstance(I.val(st, e[1]), int) else None
        elif j.op not in ("load", "sext", "zext", "bitcast"): return None
        o = j.ops[0]
    return None
