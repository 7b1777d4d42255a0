"""Y01: encode_ffnn, run symbolically against a model of the compiled expression_ann and kernel_set_double."""
import importlib.util
import os
import sys
import types

import z3

from dse import ArbitrarySet, Engine, SymInt, Violation, term

REPO = os.environ.get("DCGP_REPO", "/repo")
KNOWN = ["sig", "tanh", "ReLu"]
E = None # the engine, or None in a replay


class kernel_set_double:
    def __init__(self, names=()):
        self.names = list(names)
        for k in self.names:
            if k not in KNOWN:
                raise ValueError("unimplemented function " + k)

    def __call__(self): return list(self.names)
    def __getitem__(self, i): return self.names[i]
    def push_back(self, k): self.names.append(k)


class expression_ann: # the documented layout of a Cartesian program
    def __init__(self, inputs, outputs, rows, cols, levels_back, arity, kernels, seed=0):
        if min(inputs, outputs, rows, cols) < 1 or levels_back < 1 or len(kernels) < 1:
            raise ValueError("malformed expression")
        self.n, self.m, self.r, self.c, self.l = inputs, outputs, rows, cols, levels_back
        self.arity = list(arity) if not isinstance(arity, (int, SymInt)) else [arity] * cols
        if len(self.arity) != cols or min(self.arity) < 1:
            raise ValueError("malformed arity")
        self.f = list(kernels)
        self.n, self.m, self.r, self.c = int(self.n), int(self.m), int(self.r), int(self.c)
        self.arity = [int(a) for a in self.arity]
        n, r, l = self.n, self.r, term(self.l)
        self.idx, self.lb, self.ub = [0] * n, [], []
        If = z3.If
        for c in range(self.c):
            for _ in range(r):
                self.idx.append(len(self.lb))
                self.lb.append(z3.IntVal(0))
                self.ub.append(z3.IntVal(len(self.f) - 1))
                for _ in range(self.arity[c]):
                    self.lb.append(z3.If(c >= l, n + r * (c - l), 0))
                    self.ub.append(z3.IntVal(n + r * c - 1))
        for _ in range(self.m):
            self.lb.append(z3.If(self.c >= l, n + r * (self.c - l), 0))
            self.ub.append(z3.IntVal(n + r * self.c - 1))
        self.x = [self.gene(i) for i in range(len(self.lb))]
        self.given = None

    def gene(self, i): # arbitrary
        if E is None:
            return z3.simplify(self.ub[i]).as_long()
        v = z3.Int("gene#%d" % i)
        E.solver.add(v >= self.lb[i], v <= self.ub[i])
        return SymInt(E, v)

    def get(self): return list(self.x)
    def get_gene_idx(self): return list(self.idx)
    def get_n(self): return self.n
    def get_m(self): return self.m
    def get_rows(self): return self.r
    def get_cols(self): return self.c
    def get_levels_back(self): return self.l
    def get_arity(self, node_id=None): return list(self.arity) if node_id is None else self.arity[(node_id - self.n) // self.r]
    def get_f(self): return list(self.f)

    def set(self, x):
        if len(x) != len(self.lb):
            raise ValueError("chromosome of the wrong length")
        self.given = list(x)
        self.x = list(x)

    def set_f_gene(self, node_id, k):
        self.x[self.idx[node_id]] = k
        self.given = list(self.x)


fake = types.ModuleType("dcgpy")
fake.expression_ann, fake.kernel_set_double = expression_ann, kernel_set_double
sys.modules["dcgpy"] = fake
spec = importlib.util.spec_from_file_location("encode_under_test", os.path.join(REPO, "dcgpy", "_encode.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)


def require(c, msg):
    if E is not None:
        return E.require(c, msg)
    if not isinstance(c, bool):
        c = z3.is_true(z3.simplify(c))
    if not c:
        raise Violation(msg, [])


def claim(n, m, hidden, kernels, lb):
    """What is promised for one network (any of the numbers may be symbolic)."""
    well = len(kernels) == len(hidden) + 1 and all(k in KNOWN for k in kernels)
    hidden0, kernels0 = list(hidden), list(kernels)
    try:
        ex = mod.encode_ffnn(n, m, hidden, kernels, lb)
    except ValueError:
        require(not well, "a well formed network is encoded")
        return
    except Exception as x:
        require(False, "nothing but ValueError is raised (%s: %s)" % (type(x).__name__, x))
    require(well, "a malformed request is refused with ValueError")
    require(hidden == hidden0 and kernels == kernels0, "the caller's lists are left alone")
    layers = [int(h) for h in hidden0] + [int(m)]
    n, m = int(n), int(m)
    require(isinstance(ex, expression_ann) and ex.n == n and ex.m == m, "the expression has the inputs and outputs asked for")
    require(term(ex.l) == term(lb), "the expression has the levels back asked for")
    require(ex.given is not None and len(ex.x) == len(ex.lb), "the chromosome is set")
    for i, g in enumerate(ex.x):
        require(z3.And(term(g) >= ex.lb[i], term(g) <= ex.ub[i]), "the chromosome respects the bounds of the expression")
    val = {}

    def node(k): # what a node computes: an input, or (kernel, arguments)
        if k < n:
            return ("in", k)
        if k not in val:
            g, a = ex.idx[k], ex.arity[(k - n) // ex.r]
            val[k] = (ex.f[int(ex.x[g])], tuple(node(int(ex.x[g + 1 + j])) for j in range(a)), k)
        return val[k]
    outs = [node(int(ex.x[len(ex.x) - m + i])) for i in range(m)]
    prev, depth = None, len(layers)

    def layer(nodes, d): # the nodes of layer d compute the fully connected layer on the layer before
        require(len(set(x[2] for x in nodes)) == layers[d], "every neuron of a layer is a node of its own")
        args = nodes[0][1]
        for x in nodes:
            require(x[0] == kernels0[d], "the neurons of a layer have its non linearity")
            require(x[1] == args, "all neurons of a layer see the same neurons")
        if d == 0:
            require(sorted(args) == [("in", i) for i in range(n)], "the first layer sees every input once")
        else:
            require(len(args) == layers[d - 1] and all(a[0] != "in" for a in args), "a layer sees every neuron of the one before")
            layer(list(args), d - 1)
    require(all(o[0] != "in" for o in outs), "the outputs are the neurons of the last layer")
    layer(outs, depth - 1)


def path(e, depth, maxsize, bad, kinds): # bad: malformed requests, or well formed ones
    e.orders = {}
    n, m = e.int("inputs", 1, maxsize), e.int("outputs", 1, maxsize)
    hidden = [e.int("size", 1, maxsize) for _ in range(depth)]
    nk = depth + 1
    odd = 1 + e.pick("malformed", 3) if bad else 0
    names = list(KNOWN)
    if odd == 1:
        nk += 1
    elif odd == 2:
        nk -= 1
    kernels = [names[e.pick("kernel", kinds)] for _ in range(nk)]
    if odd == 3:
        kernels[e.pick("which", nk)] = "nonsense"
    claim(n, m, hidden, kernels, e.int("levels back", 1, depth + 3))


class Fixed: # a replay: the inputs are those of the counterexample, in their order
    def __init__(self, values): self.v = list(values)
    def int(self, name, lo, hi):
        while self.v and self.v[0][0] == "order of a set":
            self.v.pop(0)
        return self.v.pop(0)[1]
    def pick(self, name, n): return self.int(name, 0, n - 1)


def run(deadline, *how):
    global E
    E = Engine()
    E.memo, E.orders = {}, {}
    ArbitrarySet.engine = E
    mod.set = ArbitrarySet
    viol = None
    try:
        complete = E.explore(lambda e: path(e, *how), deadline)
    except Violation as v:
        viol, complete = v, True
    return E, complete, viol


def replay(values, *how):
    global E
    E = None
    if hasattr(mod, "set"):
        del mod.set
    try:
        path(Fixed(values), *how)
    except Violation as v:
        return v.msg
    except Exception as x:
        return "raises %r" % x
    return None


if __name__ == "__main__":
    import json
    import subprocess
    import time
    if sys.argv[1] == "--replay":
        print(replay(json.loads(sys.argv[2]), *map(int, sys.argv[3:])) or "")
        sys.exit(0)
    e, complete, viol = run(time.time() + float(sys.argv[2]), *map(int, sys.argv[3:]))
    r = {"paths": e.paths, "complete": complete, "queries": e.queries, "sat": e.sat, "unsat": e.unsat, "solver_s": e.solver_s, "checks": e.checks, "proved": e.proved, "violation": None}
    if viol:
        r["violation"] = {"msg": viol.msg, "inputs": viol.model, "observed": None}
        for seed in range(12): # the order of a set of strings depends on the seed of Python's hashes
            p = subprocess.run([sys.executable, __file__, "--replay", json.dumps(viol.model)] + sys.argv[3:], stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
            if p.stdout.strip():
                r["violation"]["observed"] = "%s (PYTHONHASHSEED=%d)" % (p.stdout.strip(), seed)
                break
    json.dump(r, open(sys.argv[1], "w"))
