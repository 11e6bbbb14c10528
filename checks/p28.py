from cmds import *
from common import *
KEY = {"inter_register_copy", "inter_register_move", "append_from_register", "expand_shell_command", "file_glob", "append_lines", "delete_lines", "move_lines", "copy_lines", "join_lines", "substitute_lines", "undo_last_command", "read_file", "write_file",
       "exec_global", "mark_line_node", "get_des_keyword", "system_shell", "filter_lines", "reopen_ed_buffer", "script_from_register",
       "append_to_register", "display_lines", "mark_global_nodes"}
CHANGE = {"append_lines", "delete_lines", "move_lines", "copy_lines", "join_lines", "substitute_lines", "undo_last_command", "read_file", "reopen_ed_buffer"}
# documented letter -> (steps it must be able to take, further steps it may take)
DOC = {"a": ("append_lines", "delete_lines"), "c": ("append_lines delete_lines", ""), "i": ("append_lines", "delete_lines"),
       "d": ("delete_lines", "append_to_register"), "e": ("reopen_ed_buffer read_file", "delete_lines"), "E": ("reopen_ed_buffer read_file", "delete_lines"),
       "f": ("", ""), "g": ("exec_global mark_global_nodes", ""), "G": ("exec_global mark_global_nodes", ""), "v": ("exec_global mark_global_nodes", ""),
       "V": ("exec_global mark_global_nodes", ""), "h": ("", ""), "H": ("", ""), "j": ("join_lines", ""), "k": ("mark_line_node", ""),
       "l": ("display_lines", ""), "m": ("move_lines", "append_to_register delete_lines"), "n": ("display_lines", ""), "p": ("display_lines", ""),
       "P": ("", ""), "q": ("", ""), "Q": ("", ""), "r": ("read_file", "delete_lines"), "s": ("substitute_lines", "display_lines"),
       "t": ("copy_lines", "append_to_register"), "u": ("undo_last_command", ""), "w": ("write_file", ""), "W": ("write_file", ""),
       "x": ("get_des_keyword", ""), "z": ("display_lines", ""), "Z": ("display_lines", ""), "=": ("", "display_lines"), "!": ("system_shell filter_lines", ""),
       "#": ("", ""), "\n": ("display_lines", ""), "[": ("display_lines", ""), "]": ("display_lines", ""), "@": ("script_from_register", "display_lines")}
OPTS = ("ed_execute", "opt"); IOF = ("ed_display", "io_f"); MODF = ("ed_state", "is_modified")
class C(CmdClient):
    def __init__(s, prog): CmdClient.__init__(s, prog); s.names = {}; s.wr = {}; s.bad = []; s.emod = False
    def step(s, I, st, i, n, args):
        if n == "?": s.bad.append(i)
        if n in ("write_file", "mark_global_nodes", "exec_global", "display_lines"): s.wr.setdefault(n, []).append((i, list(args), dict(st.mem)))
        s.names.setdefault(n, i); return None
    def store(s, I, st, i, l, v):
        fl = field_of(i.ops[1], i.func)
        if fl in (MODF,): s.names.setdefault(".".join(fl), i)
def run(r):
    p = r.prog; ec = r.func("exec_command")
    for n in sorted(KEY): r.func(n)
    r.explanation = ("Constant propagation over exec_command for all 256 byte values in command position: the command table index, the function selected and the steps it can take. "
                     "Each documented letter must lead to the steps of its documented command, every other byte to the same rejection.")
    r.rule("letter", "a documented command letter runs the documented command")
    r.rule("unknown", "any other byte is rejected with an error and an explanation, without reaching any editing, file or shell step")
    r.rule("lookup", "the command function is always taken from inside the command table")
    r.rule("pair", "commands that differ only in a detail differ in that detail")
    r.rule("prefix", "a register or file-list prefix is accepted only by the commands that use it")
    pre = [ord(c) for c in "<~"]; ws = set(b" \t\v\f\r")
    def ev(c, mem=None, opt=0):
        cl = C(p); m = {GLOB: 0}; m.update(mem or {})
        I, o = command(p, cl, (c,), m, opt=opt); r.count("bytes evaluated"); r.count("paths", len(o))
        for i in cl.bad: r.viol("lookup", i, "for byte 0x%02x the function called is not an entry of the command table" % c)
        return cl, o
    opts = sorted({0, 0x8, 0x2000} if r.tier != "thorough" else {0, 0x8, 0x2000, 0x400, 0x1000, 0x2008})
    for c in range(256):
        if c in ws or c in pre or chr(c) in DOC: continue
        for o in (opts if r.tier == "thorough" or c < 128 else (0,)):
            cl, out = ev(c, opt=o)
            bad = sorted(set(cl.names) & KEY)
            if bad: r.viol("unknown", cl.names[bad[0]], "byte 0x%02x is not a documented command but reaches %s" % (c, ", ".join(bad)))
            for ret, mem, P in out:
                if not (isinstance(ret, int) and ret < 0): r.viol("unknown", ec, "byte 0x%02x is not a documented command but is not rejected" % c); break
            if MODF[0] + "." + MODF[1] in cl.names: r.viol("unknown", cl.names[".".join(MODF)], "byte 0x%02x is not a documented command but changes the modified mark" % c)
    outs = {}
    for ch, (must, may) in sorted(DOC.items()):
        cl, out = ev(ord(ch)); outs[ch] = (cl, out); r.count("documented letters")
        have = set(cl.names) & (KEY - {"expand_shell_command", "file_glob"}); must = set(must.split()); may = set(may.split()) | must
        for n in sorted(must - have): r.viol("letter", ec, "command '%s' does not reach %s" % (repr(ch)[1:-1], n))
        for n in sorted(have - may): r.viol("letter", cl.names[n], "command '%s' can reach %s, which is not part of that command" % (repr(ch)[1:-1], n))
        if all(isinstance(x[0], int) and x[0] < 0 for x in out) and ch not in "qQ": r.viol("letter", ec, "command '%s' is always rejected" % repr(ch)[1:-1])
    def need(ok, msg): 
        r.count("distinctions"); 
        if not ok: r.viol("pair", ec, msg)
    ret = lambda ch: {x[0] for x in outs[ch][1]}
    need(-3 in ret("q") and -1 in ret("q"), "command 'q' does not both warn and leave"); need(-3 not in ret("Q") and -1 in ret("Q"), "command 'Q' does not leave unconditionally")
    need(-3 in ret("e") and -3 not in ret("E"), "commands 'e' and 'E' do not differ in warning about unsaved changes")
    def consts(ch, name): return {a[0] for _, a, _ in outs[ch][0].wr.get(name, ())}
    m = {ch: consts(ch, "mark_global_nodes") for ch in "gvGV"}
    need(m["g"] == m["G"] and m["v"] == m["V"] and not (m["g"] & m["v"]), "the global commands do not select matching (g, G) and non-matching (v, V) lines")
    gl = {ch: {x[2].get(GLOB) for x in outs[ch][0].wr.get("exec_global", ())} for ch in "gvGV"}
    need(gl["g"] == gl["v"] and gl["G"] == gl["V"] and not (gl["g"] & gl["G"]), "the interactive global commands (G, V) are not distinguished from g and v")
    fl = {}
    for ch in "pln":
        v = [x[2].get(IOF) for x in outs[ch][0].wr.get("display_lines", ())]; k = -1
        for x in v: k &= x if isinstance(x, int) else 0
        fl[ch] = k
    for a, b in ("pl", "pn", "ln"): need(fl[a] != fl[b] and fl[a] and fl[b], "commands '%s' and '%s' print in the same format" % (a, b))
    sc = {ch: {x[2].get(IOF) for x in outs[ch][0].wr.get("display_lines", ())} for ch in "zZ[]"}
    need(None in sc["z"] | sc["Z"] or not sc["z"] & sc["Z"], "commands 'z' and 'Z' scroll in the same direction")
    md = {ch: {x[1][1] for _, a, _ in outs[ch][0].wr.get("write_file", ()) for x in a if isinstance(x, tuple) and x[0] == "p" and x[1][0] == "str"} for ch in "wW"}
    a = lambda ch, k: any(x.startswith(k) for x in md[ch])
    need(a("w", "w") and not a("w", "a") and a("W", "a") and not a("W", "w"), "commands 'w' and 'W' do not differ in appending")
    for pre, ok in (("~", "EefrwW"), ("<1", "mt@")):
        for ch in sorted(DOC):
            if ch in ok: continue
            cl = C(p); I, o = command(p, cl, pre + ch, {GLOB: 0}); r.count("prefixed letters evaluated")
            bad = sorted(set(cl.names) & KEY)
            if bad: r.viol("prefix", cl.names[bad[0]], "command '%s' accepts the prefix '%s' and reaches %s" % (repr(ch)[1:-1], pre[0], bad[0]))
            if any(not (isinstance(x[0], int) and x[0] < 0) for x in o): r.viol("prefix", ec, "command '%s' accepts the prefix '%s'" % (repr(ch)[1:-1], pre[0]))
        for ch in ok.replace("f", ""):
            cl = C(p); I, o = command(p, cl, pre + ch, {GLOB: 0}); r.count("prefixed letters evaluated")
            if all(isinstance(x[0], int) and x[0] < 0 for x in o): r.viol("prefix", ec, "command '%s' rejects the prefix '%s'" % (ch, pre[0]))
    r.need("prefixed letters evaluated", 70); r.need("bytes evaluated", 250); r.need("documented letters", 36); r.need("distinctions", 9)
