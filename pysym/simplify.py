"""Y02: _sympy_simplify on the formulas of arbitrary expressions: the result is the same function, for all values."""
import importlib.util
import json
import os
import sys
import time
import types
from fractions import Fraction

import sympy
import z3

from dse import Engine, Violation

REPO = os.environ.get("DCGP_REPO", "/repo")


class gdual_vdouble:
    def __init__(self, v): self.constant_cf = [v]


fake, core = types.ModuleType("pyaudi"), types.ModuleType("pyaudi.core")
core.gdual_vdouble = gdual_vdouble
fake.core = core
sys.modules["pyaudi"], sys.modules["pyaudi.core"] = fake, core
spec = importlib.util.spec_from_file_location("simplify_under_test", os.path.join(REPO, "dcgpy", "_simplify.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
UF = {"sin": z3.Function("sin", z3.RealSort(), z3.RealSort())}


class Expression: # what the compiled expressions offer: the layout and the formulas they print
    def __init__(self, n, m, r, c, arity, x, kernels, weights):
        self.n, self.m, self.r, self.c, self.arity, self.x, self.kernels, self.weights = n, m, r, c, arity, x, kernels, weights

    def get_n(self): return self.n
    def get_m(self): return self.m
    def get_rows(self): return self.r
    def get_cols(self): return self.c
    def get_arity(self, node_id=None): return list(self.arity) if node_id is None else self.arity[(node_id - self.n) // self.r]
    def get_weights(self): return list(self.weights)
    def get(self): return list(self.x)

    def walk(self, leaf, op, weight):
        val, g, w = [leaf(i) for i in range(self.n)], 0, 0
        for k in range(self.r * self.c):
            a = self.arity[k // self.r]
            args = [val[self.x[g + 1 + j]] for j in range(a)]
            if self.weights is not None:
                args = [weight(w + j, self.n + k, j, args[j]) for j in range(a)]
            val.append(op(self.kernels[self.x[g]], args))
            g += 1 + a
            w += a
        return [val[self.x[g + i]] for i in range(self.m)]

    def __call__(self, s):
        def op(k, a):
            return "(" + {"sum": "+", "diff": "-", "mul": "*", "div": "/"}[k].join(a) + ")" if k != "sin" else "sin(" + "+".join(a) + ")"
        return self.walk(lambda i: s[i], op, lambda i, node, j, a: "(w%d_%d*%s)" % (node, j, a))


def apply(k, a):
    r = a[0]
    for b in a[1:]:
        r = r - b if k == "diff" else r * b if k == "mul" else r / b if k == "div" else r + b
    return UF["sin"](r) if k == "sin" else r


def to_z3(e, env, dens):
    if e.is_Symbol:
        return env[e.name]
    if e.is_Integer or e.is_Rational:
        return z3.RealVal(str(Fraction(int(e.p), int(e.q))))
    if e.is_Float:
        return z3.RealVal(str(Fraction(float(e))))
    if e.is_Add or e.is_Mul:
        r = to_z3(e.args[0], env, dens)
        for a in e.args[1:]:
            b = to_z3(a, env, dens)
            r = r + b if e.is_Add else r * b
        return r
    if e.is_Pow and e.exp.is_Integer:
        b = to_z3(e.base, env, dens)
        r = z3.RealVal(1)
        for _ in range(abs(int(e.exp))):
            r = r * b
        if int(e.exp) < 0:
            dens.append(b)
            return 1 / r
        return r
    if e.func == sympy.sin:
        return UF["sin"](to_z3(e.args[0], env, dens))
    raise NotImplementedError(str(e))


STATS = {"inconclusive": []}


def path(e, cfg):
    n, m, r, c = cfg["n"], cfg["m"], cfg["r"], cfg["c"]
    arity = cfg["arity"]
    kernels = cfg["kernels"]
    weighted = cfg["weighted"]
    kind = e.pick("request", 8)
    if kind == 0 or kind == 1: # refused
        ex = Expression(n, m, r, c, arity, [0] * (sum((1 + a) * r for a in arity) + m), kernels, None)
        names = ["v%d" % i for i in range(n + (1 if kind == 0 else 0))]
        if kind == 0 and e.pick("short", 2):
            names = names[:n - 1]
        try:
            mod._sympy_simplify(ex, names, False, [1.] * (n + 1) if kind == 1 else [])
            raised = False
        except Exception as err:
            raised = isinstance(err, ValueError)
        e.require(raised, "symbols or constants of the wrong number are refused")
        return
    x, node = [], n
    for k in range(r * c):
        if k % r == 0:
            hi = n + k
        x.append(e.pick("function", len(kernels)))
        for _ in range(arity[k // r]):
            # only a few connections are free, the others are derived from the seed
            x.append(e.pick("connection", hi) if len(x) % 3 == cfg["free"] else (cfg["free"] * 7 + len(x) * 5) % hi)
    for i in range(m):
        x.append(e.pick("output", n + r * c) if i == 0 else (n + r * c - 1 - i) % (n + r * c))
    W = sum(a * r for a in arity)
    subs = weighted and kind % 2 == 0
    nerc = {2: 0, 3: 0, 4: 1, 5: 1, 6: n, 7: n}[kind]
    if not weighted and kind % 2 == 0:
        return # the same request
    dual = subs and e.pick("dual numbers", 2)
    names = ["c0", "x", "y2"][:n]
    env, point = {}, {}
    for i, s in enumerate(names):
        env[s] = z3.Real(s)
    wsym = [sympy.Symbol("W%d" % i, real=True) for i in range(W)]
    esym = [sympy.Symbol("E%d" % i, real=True) for i in range(nerc)]
    for s in wsym + esym:
        env[s.name] = z3.Real(s.name)
    k = 0
    wz = []
    for j in range(r * c):
        for a in range(arity[j // r]):
            nm = "w%d_%d" % (n + j, a)
            env[nm] = z3.Real(nm)
            wz.append(env["W%d" % k] if subs else env[nm])
            k += 1
    ex = Expression(n, m, r, c, arity, x, kernels, ([gdual_vdouble(s) for s in wsym] if dual else list(wsym)) if weighted else None)
    given = list(names)
    try:
        out = mod._sympy_simplify(ex, given, subs, list(esym))
    except Exception as err:
        vals = [(nm, "0.5") for nm in env]
        raise Violation("a well formed request is simplified (%s: %s)" % (type(err).__name__, err), vals + [("chromosome", x), ("names", names), ("subs", subs), ("nerc", nerc), ("dual", bool(dual)), ("output", 0)])
    e.require(given == names, "the caller's symbols are left alone")
    e.require(len(out) == m, "one formula per output")
    leaf = [env[s] for s in names]
    for i in range(nerc):
        leaf[n - nerc + i] = env["E%d" % i]
    dens = []

    def op(kn, a):
        if kn == "div":
            dens.extend(a[1:])
        return apply(kn, a)
    want = ex.walk(lambda i: leaf[i], op, lambda i, nd, j, a: wz[i] * a)
    for i in range(m):
        got = sympy.sympify(out[i])
        if got.has(sympy.zoo, sympy.nan, sympy.oo):
            e.solver.push()
            e.solver.add([d != 0 for d in dens])
            e.solver.set("timeout", 4000)
            r0 = e.solver.check()
            e.solver.pop()
            if r0 == z3.sat:
                e.require(False, "the simplified formula is defined where the formula is")
            return
        d2 = []
        g = to_z3(got, env, d2)
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add([d != 0 for d in dens] + [d != 0 for d in d2])
        s.add(g != want[i])
        t = time.time()
        res = s.check()
        e.solver_s += time.time() - t
        e.queries += 1
        e.checks += 1
        if res == z3.unsat:
            e.unsat += 1
            e.proved += 1
        elif res == z3.sat:
            e.sat += 1
            md = s.model()
            vals = {nm: md.eval(v, model_completion=True) for nm, v in env.items()}
            raise Violation("the simplified formula is the same function (output %d: %s for %s)" % (i, got, ex(names)[i]),
                            [(nm, v.as_decimal(12) if hasattr(v, "as_decimal") else str(v)) for nm, v in vals.items()]
                            + [("chromosome", x), ("names", names), ("subs", subs), ("nerc", nerc), ("dual", bool(dual)), ("output", i)])
        else:
            STATS["inconclusive"].append(str(got)[:80])


def replay(v, cfg):
    """The counterexample in numbers, with the real function."""
    d = dict((k, x) for k, x in v)
    if "chromosome" not in d:
        return "refusal"
    import math
    import random
    num = {k: float(str(x).rstrip("?")) for k, x in d.items() if k not in ("chromosome", "names", "subs", "nerc", "dual", "output")}
    rnd = random.Random(1)
    for attempt in range(20):
        W = sum(a * cfg["r"] for a in cfg["arity"])
        ws = [num["W%d" % i] for i in range(W)]
        er = [num["E%d" % i] for i in range(d["nerc"])]
        ex = Expression(cfg["n"], cfg["m"], cfg["r"], cfg["c"], cfg["arity"], d["chromosome"], cfg["kernels"], ([gdual_vdouble(w) for w in ws] if d["dual"] else ws) if cfg["weighted"] else None)
        try:
            out = mod._sympy_simplify(ex, list(d["names"]), d["subs"], er)
        except Exception as err:
            return "raises %r" % err
        got = float(sympy.sympify(out[d["output"]]).subs({s: num[s.name] for s in sympy.sympify(out[d["output"]]).free_symbols}))
        leaf = [num[s] for s in d["names"]]
        for i in range(d["nerc"]):
            leaf[cfg["n"] - d["nerc"] + i] = er[i]

        def op(k, a):
            r = a[0]
            for b in a[1:]:
                r = r - b if k == "diff" else r * b if k == "mul" else r / b if k == "div" else r + b
            return math.sin(r) if k == "sin" else r
        try:
            want = ex.walk(lambda i: leaf[i], op, lambda i, nd, j, a: (ws[i] if d["subs"] else num["w%d_%d" % (nd, j)]) * a)[d["output"]]
        except ZeroDivisionError:
            want = None
        if want is not None and abs(got - want) > 1e-6 * max(1., abs(want)):
            return "simplify gives %.9g where the expression is %.9g" % (got, want)
        num = {k: rnd.uniform(-2, 2) for k in num}
    return None


if __name__ == "__main__":
    cfg = json.loads(sys.argv[3])
    E = Engine()
    E.memo, E.orders = {}, {}
    viol = None
    try:
        complete = E.explore(lambda e: path(e, cfg), time.time() + float(sys.argv[2]))
    except Violation as v:
        viol, complete = v, True
    r = {"paths": E.paths, "complete": complete and not STATS["inconclusive"], "queries": E.queries, "sat": E.sat, "unsat": E.unsat, "solver_s": E.solver_s, "checks": E.checks, "proved": E.proved, "violation": None,
         "inconclusive": STATS["inconclusive"][:10]}
    if viol:
        r["violation"] = {"msg": viol.msg, "inputs": viol.model, "observed": replay(viol.model, cfg)}
    json.dump(r, open(sys.argv[1], "w"))
