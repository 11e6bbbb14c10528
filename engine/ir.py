"""Builds LLVM IR of /repo's current sources and loads it as Python objects.

Nothing of the editor is executed: clang translates the sources to IR, `opt`
promotes locals to SSA, and irdump (irdump.cpp) dumps the resolved program
(struct fields, callees, CFG, source positions) as JSON."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")

class AnalysisError(Exception):
    """The analysis cannot decide (missing anchor, build failure, ...)."""

def _tool(*names):
    for n in names:
        for d in ("/usr/bin", "/usr/lib/llvm-18/bin"):
            p = os.path.join(d, n)
            if os.path.exists(p): return p
        p = shutil.which(n)
        if p: return p
    raise AnalysisError("tool not found: " + "/".join(names))

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout

def build_irdump():
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cfg = _tool("llvm-config-18", "llvm-config")
        fl = _run([cfg, "--cxxflags", "--ldflags", "--libs"]).decode().split()
        tmp = out + ".%d.tmp" % os.getpid()
        _run([_tool("g++", "clang++-18"), "-O1", src, "-o", tmp] + fl + ["-fexceptions"])
        os.replace(tmp, out)
    return out

def flags(repo):
    f = ["-DHAVE_CONFIG_H", "-I" + repo + "/src", "-I" + repo]
    if not os.path.exists(repo + "/config.h"):
        f.append("-I" + HERE + "/fallback")
    f.append("-I" + repo + "/lib")
    if not os.path.exists(repo + "/lib/regex.h"):
        f.append("-I" + HERE + "/fallback/lib")
    f += ["-I" + repo + "/include", '-DLOCALEDIR="/usr/local/share/locale"', "-DRE_ENABLE_I18N=1"]
    return f

def dump(repo=None, extra=()):
    repo = repo or REPO
    srcs = sorted(glob.glob(repo + "/src/*.c"))
    if not srcs: raise AnalysisError("no sources in %s/src" % repo)
    h = hashlib.sha256()
    for f in srcs + sorted(glob.glob(repo + "/src/*.h")) + sorted(glob.glob(repo + "/include/*.h")) \
            + sorted(glob.glob(repo + "/lib/*.h")) + [repo + "/config.h", HERE + "/irdump.cpp", HERE + "/ir.py"]:
        h.update(f.encode())
        if os.path.exists(f): h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    out = os.path.join(BUILD, "ir-" + h.hexdigest()[:20] + ".json")
    if os.path.exists(out): return out
    tool = build_irdump()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ir.", dir=BUILD)
    try:
        clang = _tool("clang-18", "clang")
        ps = []
        for s in srcs:
            bc = os.path.join(tmp, os.path.basename(s)[:-2] + ".bc")
            cmd = [clang, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-D__NO_CTYPE", "-fno-builtin",
                   ] + flags(repo) + list(extra) + ["-emit-llvm", "-c", s, "-o", bc]
            ps.append((s, bc, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=repo + "/src")))
        bcs = []
        for s, bc, q in ps:
            _, e = q.communicate()
            if q.returncode: raise AnalysisError("cannot compile %s:\n%s" % (s, e.decode(errors="replace")[-3000:]))
            bcs.append(bc)
        _run([_tool("llvm-link-18", "llvm-link")] + bcs + ["-o", tmp + "/all0.bc"])
        _run([_tool("opt-18", "opt"), "-passes=function(mem2reg)", tmp + "/all0.bc", "-o", tmp + "/all.bc"])
        js = _run([tool, tmp + "/all.bc"])
        with open(tmp + "/o.json", "wb") as f: f.write(js)
        os.replace(tmp + "/o.json", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

class Inst:
    __slots__ = ("id", "op", "ty", "line", "col", "ops", "fn", "callee", "calleeop", "pred", "path", "sty", "t", "f",
                 "default", "cases", "var", "block", "func", "idx", "from_", "vol")
    def __init__(self, d, block, func):
        self.id = d["id"]; self.op = d["op"]; self.ty = d["ty"]; self.line = d.get("line", 0); self.col = d.get("col", 0)
        self.ops = [tuple2(o) for o in d["ops"]]
        self.callee = d.get("fn"); self.calleeop = tuple2(d["callee"]) if "callee" in d else None
        self.pred = d.get("pred"); self.path = [tuple2(x) for x in d.get("path", [])]; self.sty = d.get("sty")
        self.t = d.get("t"); self.f = d.get("f"); self.default = d.get("default")
        self.cases = [tuple(c) for c in d.get("cases", [])]; self.var = d.get("var"); self.from_ = d.get("from"); self.vol = d.get("vol")
        self.block = block; self.func = func
    def loc(self): return "%s:%d" % (self.func.file, self.line)
    def __repr__(self): return "<%s %s#%d %s l.%d>" % (self.func.name, self.op, self.id, self.callee or "", self.line)

def tuple2(x):
    return tuple(tuple2(y) for y in x) if isinstance(x, list) else x

class Block:
    __slots__ = ("id", "insts", "succ", "preds", "func")

class Func:
    def __init__(self, d, prog):
        self.name = d["name"]; self.decl = d["decl"]; self.ret = d["ret"]; self.prog = prog
        self.noreturn = d.get("noreturn", False); self.vararg = d.get("vararg", False)
        self.src = d.get("src", self.name); self.line = d.get("line", 0)
        f = d.get("file", "")
        self.file = "src/" + os.path.basename(f) if f else ""
        self.internal = d.get("internal", False)
        self.args = d.get("args", []); self.blocks = []; self.inst = {}
        if self.decl: return
        for b in d["blocks"]:
            B = Block(); B.id = b["id"]; B.succ = list(dict.fromkeys(b["succ"])); B.func = self; B.preds = []
            B.insts = [Inst(i, B, self) for i in b["insts"]]
            self.blocks.append(B)
            for k, i in enumerate(B.insts): self.inst[i.id] = i; i.idx = k
        for B in self.blocks:
            for s in B.succ: self.blocks[s].preds.append(B.id)
    def all(self):
        for b in self.blocks:
            for i in b.insts: yield i
    def calls(self, name=None):
        for i in self.all():
            if i.op == "call" and (name is None or i.callee == name): yield i

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.structs = {k: [tuple(x) for x in v] for k, v in d["structs"].items()}
        self.globals = {g["name"]: g for g in d["globals"]}
        self.funcs = {f["name"]: Func(f, self) for f in d["functions"]}
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}
        self._targets = {}
        self._indirect()
        self.callers = {n: set() for n in self.funcs}
        self.callees = {n: set() for n in self.defined}
        self.addr_taken = set()
        for n, f in self.defined.items():
            for i in f.all():
                for t in self.targets(i):
                    self.callers.setdefault(t, set()).add(n); self.callees[n].add(t)
                for o in i.ops:
                    if o and o[0] == "f": self.addr_taken.add(o[1])

    def _indirect(self):
        """function tables: global -> functions it may hold (initializer + stores)"""
        self.tables = {}
        for g in self.globals.values():
            fs = [o[1] for o in map(tuple2, g.get("init", [])) if o and o[0] == "f"]
            if fs: self.tables[g["name"]] = list(fs)
        for f in self.defined.values():
            for i in f.all():
                if i.op == "store" and i.ops[0][0] == "f":
                    g = self.base_global(i.ops[1], f)
                    if g: self.tables.setdefault(g, []).append(i.ops[0][1])

    def base_global(self, op, f):
        for _ in range(8):
            if op[0] == "g": return op[1]
            if op[0] == "gep": op = op[1]; continue
            if op[0] == "v":
                i = f.inst[op[1]]
                if i.op == "getelementptr": op = i.ops[0]; continue
            return None
        return None

    def targets(self, i):
        """possible callee names of a call instruction"""
        if i.op != "call": return ()
        if i.callee: return (i.callee,)
        k = (i.func.name, i.id)
        if k in self._targets: return self._targets[k]
        r = ()
        op = i.calleeop
        if op and op[0] == "v":
            d = i.func.inst.get(op[1])
            if d is not None and d.op == "load":
                g = self.base_global(d.ops[0], i.func)
                if g in self.tables: r = tuple(dict.fromkeys(self.tables[g]))
        self._targets[k] = r
        return r

    def reach(self, roots):
        seen = set(); st = list(roots)
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            for c in self.callees.get(n, ()):
                if c not in seen: st.append(c)
        return seen

def load(repo=None):
    return Program(dump(repo))

# ---- symbolic locations ----------------------------------------------------
def field_of(op, f):
    """(struct, field) a pointer operand denotes, following GEPs; else None.
    For ed_state a constant index other than 0 gives struct 'ed_state[k]'."""
    idx = {}
    for _ in range(10):
        if op[0] == "gep": base, path = op[1], op[2]
        elif op[0] == "v":
            i = f.inst[op[1]]
            if i.op != "getelementptr": return None
            base, path = i.ops[0], i.path
        else: return None
        fl = [p for p in path if p[0] == "fld"]
        if fl:
            last = fl[-1]
            # array element inside a field keeps the field name
            s = last[1]
            if s == "ed_state":
                k = None
                for p in path:
                    if p[0] == "idx": k = p[1]
                if k is None and base[0] == "v":
                    b = f.inst[base[1]]
                    if b.op == "getelementptr" and b.sty == "struct ed_state":
                        for p in b.path:
                            if p[0] == "idx": k = p[1]
                if k is not None:
                    s = "ed_state[%s]" % (k[1] if k[0] == "c" else "?")
            return (s, last[2])
        op = base
    return None

def strip(op, f):
    """look through casts"""
    while op[0] == "v":
        i = f.inst[op[1]]
        if i.op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"): op = i.ops[0]
        else: break
    return op

def defn(op, f):
    return f.inst[op[1]] if op[0] == "v" else None
