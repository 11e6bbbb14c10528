from cmds import *
from common import *
NODE = {("ed_line_node", x) for x in ("q_forw", "q_back", "len", "seek")}
UNDO = {("ed_undo_node", x) for x in ("q_forw", "q_back", "h", "t", "type")} | {("ed_core", "undo_head")}
STATE = {("ed_state", x) for x in ("lines", "is_modified", "is_empty", "newline_appended", "is_binary")} | {("ed_core", "line_head"), ("ed_buffer", "core"), ("ed_buffer", "state")}
PROT = NODE | UNDO | STATE
KIND = {"p": "print", "l": "list", "n": "number", "z": "scroll", "Z": "scroll", "[": "scroll", "]": "scroll", "=": "line-number", "f": "file-name", "h": "help", "H": "help",
        "P": "prompt", "#": "comment", "k": "mark", "!": "shell", "\n": "print"}
class C(CmdClient):
    def __init__(s, prog, hit): CmdClient.__init__(s, prog); s.names = {}; s.hit = hit; s.n = 0
    def step(s, I, st, i, n, args):
        if n == "?": s.hit("lookup", i, "calls a function that is not in the command table")
        s.names.setdefault(n, i); return None
    def store(s, I, st, i, l, v):
        s.n += 1
        f = field_of(i.ops[1], i.func)
        if f in PROT: s.hit("effect", i, "changes %s" % what(f))
def what(f):
    return "the line sequence" if f in NODE else "the undo history" if f in UNDO else "the modified mark" if f[1] == "is_modified" else "the buffer's state (%s)" % f[1]
def effects(p, n, stop):
    """protected stores reachable from n without entering `stop`"""
    seen = set(); todo = [n]; out = []
    while todo:
        x = todo.pop()
        if x in seen or x in stop or x not in p.defined: continue
        seen.add(x)
        for i in p.defined[x].all():
            if i.op == "store":
                f = field_of(i.ops[1], i.func)
                if f in PROT: out.append((i, f))
        todo += p.callees.get(x, ())
    return seen, out
def run(r):
    p = r.prog; ec = r.func("exec_command"); r.func("display_lines"); r.func("append_undo_node"); r.func("address_range")
    r.explanation = ("Constant propagation over exec_command for each display and information command with arbitrary text after it, in each mode and also as part of a global command; "
                     "the stores of every function these commands can reach are checked against the fields that make up the line sequence, the undo history and the buffer's state.")
    r.rule("effect", "no store to line links, line contents, undo records, line count or modified mark can be reached from a display or information command")
    r.rule("address", "nor from evaluating the addresses in front of a command")
    r.rule("again", "a display step that runs a command itself runs a display command")
    r.rule("lookup", "commands are looked up inside the command table")
    memo = {}; fns = set()
    def closure(n):
        if n not in memo: memo[n] = effects(p, n, {"exec_command"})
        return memo[n]
    for c in KIND:
        txts = (c,) if r.tier != "thorough" else tuple(c + x for x in ("", "\n", "p\n", " a\n", "l", "n", "5", "+", "\\", " !ls\n", "a"))
        for t in txts:
            for g in (0, 1, 3):
                for o in (0, 0x8, 0x2000):
                    def hit(rule, i, msg): r.viol(rule, i, "the %s command %s" % (KIND[c], msg))
                    cl = C(p, hit); mem = {GLOB: g}
                    if c == "!": mem[("ed_region", "addrs")] = 0
                    I, outs = command(p, cl, t, mem, None, opt=o)
                    r.count("commands evaluated"); r.count("paths", len(outs)); r.count("stores seen", cl.n)
                    for n, at in cl.names.items():
                        s, out = closure(n); fns |= s
                        for i, f in out: r.viol("effect", i, "the %s command changes %s here" % (KIND[c], what(f)))
    s, out = closure("address_range"); fns |= s
    for i, f in out: r.viol("address", i, "evaluating an address changes %s here" % what(f))
    for n in sorted(fns):
        if "exec_command" in p.callees.get(n, ()):
            for i in p.defined[n].calls():
                if i.callee and "printf" in i.callee:
                    for o in i.ops[1:]:
                        if o[0] == "c" and o[2] == 32 and 33 <= o[1] < 127:
                            r.count("commands run again")
                            if chr(o[1]) not in KIND: r.viol("again", i, "a display step runs the command '%s'" % chr(o[1]))
    r.set("functions reachable from display and information commands", len(fns))
    r.set("protected stores in the program", sum(1 for f in p.defined.values() for i in f.all() if i.op == "store" and field_of(i.ops[1], f) in PROT))
    r.need("functions reachable from display and information commands", 15); r.need("protected stores in the program", 20); r.need("commands evaluated", 100)
