from common import *
from cmds import *
from p28 import KEY, C
ADDRS = ("ed_region", "addrs")
REG = {"append_to_register", "append_from_register", "inter_register_copy", "inter_register_move", "script_from_register"}
def consts(prog): return option("POSIXLY_CORRECT", 0x0008), option("TRADITIONAL", 0x2000)
def run(r):
    p = r.prog; ec = r.func("exec_command")
    for n in sorted(KEY): r.func(n)
    r.explanation = ("Constant propagation over exec_command and the command functions for every extension command, prefix and argument form, with each combination of the strict "
                     "and traditional options set: no path may reach a step that reads, writes, runs, displays or changes anything, and every path must fail.")
    r.rule("reject", "an extension command or prefix fails in POSIX and traditional mode")
    r.rule("effect", "it reaches no editing, register, file, shell or display step")
    POSIX, TRAD = consts(p)
    both = (POSIX, TRAD, POSIX | TRAD)
    cases = [(t, both, {}, KEY, True) for t in ("@", "[", "]", "Z", "#")]
    cases += [("z", (POSIX, POSIX | TRAD), {}, KEY, True)]
    cases += [(pre + ch, both, {}, KEY, True) for pre in ("<", "<1") for ch in ("m", "t", "@", "p", "d", "w", "\n")]
    cases += [("~" + ch, both, {}, KEY, True) for ch in ("e", "E", "r", "w", "W", "f", "p", "\n")]
    cases += [("f !", both, {}, KEY, True), ("f !ls\n", both, {}, KEY, True)]
    cases += [("!", both, {ADDRS: k}, {"filter_lines", "system_shell"}, True) for k in (1, 2)]
    cases += [(ch + t, both, {}, REG, False) for ch in "mt" for t in (">", ">1", ">>", ">>1\n")]
    for t, opts, mem, key, must in cases:
        other = [1 << k for k in range(20)] if r.tier == "thorough" else [1 << k for k in range(16) if k % 2 == 0 or k in (1, 11)]
        for o, g in [(o | x, g) for o in opts for x in [0, 0xffff] + (other if o in opts[:2] else []) for g in ((0, 1) if not x else (0,))]:
                cl = C(p); m = {GLOB: g}; m.update(mem); I, outs = command(p, cl, t, m, opt=o)
                r.count("extension forms evaluated"); r.count("paths", len(outs))
                for n in sorted(set(cl.names) & key): r.viol("effect", cl.names[n], "'%s' reaches %s with the mode of option bits 0x%x selected" % (repr(t)[1:-1], n, o))
                if must and any(not (isinstance(x[0], int) and x[0] < 0) for x in outs):
                    r.viol("reject", ec, "'%s' does not fail with the mode of option bits 0x%x selected" % (repr(t)[1:-1], o))
    r.need("extension forms evaluated", 200)
