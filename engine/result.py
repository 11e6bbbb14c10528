import re
from ir import AnalysisError, load
import kernel

class Result:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.violations = []; self.coverage = {}; self.rules = {}
        self.explanation = ""; self.assumptions = []; self.minima = {}; self._prog = None; self._keys = set()
    @property
    def prog(self):
        if self._prog is None: self._prog = load()
        return self._prog
    def rule(self, name, text): self.rules[name] = text
    def count(self, name, n=1): self.coverage[name] = self.coverage.get(name, 0) + n
    def set(self, name, n): self.coverage[name] = n
    def need(self, name, minimum):
        """instance count `name` must reach `minimum`, else the rule is vacuous"""
        self.minima[name] = minimum
    def viol(self, rule, where, msg, path=(), key=None):
        """where: instruction, function or text"""
        if hasattr(where, "func"): w = "%s:%d (%s)" % (where.func.file, where.line, where.func.name); fn = where.func.name
        elif hasattr(where, "blocks"): w = "%s:%d (%s)" % (where.file, where.line, where.name); fn = where.name
        else: w = str(where); fn = w
        k = key or re.sub(r"[^A-Za-z0-9_.:|<>=+-]+", "_", "%s|%s|%s" % (rule, fn, msg))
        if (k, w) in self._keys: return
        self._keys.add((k, w))
        self.violations.append({"rule": rule, "where": w, "msg": msg, "path": list(path), "key": k})
    def kernel(self, client, roots, retmasks=True):
        K = kernel.Kernel(self.prog, client, kernel.base_retmasks(self.prog) if retmasks else None)
        client.K = K
        for r in roots:
            if isinstance(r, str): r = (r,)
            K.root(*r)
        K.run()
        self.count("paths_explored_states", K.nedges)
        self.count("function_contexts", len(K.ctxs))
        self.coverage["functions_analysed"] = max(self.coverage.get("functions_analysed", 0), len(K.fnseen))
        for (rule, fn, line, msg), (i, e) in sorted(K.reports.items(), key=lambda x: (x[0][0], x[0][1], x[0][2], x[0][3])):
            self.viol(rule, i, msg, K.witness(e)[-25:])
        return K
    def finish(self):
        for n, m in self.minima.items():
            if self.coverage.get(n, 0) < m and not self.violations:
                raise AnalysisError("rule instances vanished: %s = %d, expected at least %d" % (n, self.coverage.get(n, 0), m))
    def func(self, name):
        f = self.prog.defined.get(name)
        if f is None: raise AnalysisError("anchor function %s is missing" % name)
        return f
