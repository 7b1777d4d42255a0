"""What each check runs: harness, parameters, time limits, bounds."""

G1 = dict(n=2, m=1, r=1, c=2, l=3, ar=2, nf=2)
G2 = dict(n=1, m=2, r=2, c=2, l=1, ar=12, nf=2, neph=1)
G3 = dict(n=2, m=2, r=1, c=3, l=2, ar=2, nf=2)
G4 = dict(n=1, m=1, r=1, c=3, l=1, ar=213, nf=2, neph=2)


def J(src, name, time=120, **p):
    j = {"src": src, "time": time, "params": {}}
    for k in ("defs", "reach", "thorough", "weight", "engine"):
        if k in p:
            j[k] = p.pop(k)
    j["params"] = p
    j["name"] = name + " " + ",".join("%s=%s" % kv for kv in p.items())
    return j


P = {}
# quick tier: the two small geometries entirely, the two larger ones with only some genes arbitrary (the others fixed, two choices)
QUICK = (G1, G4, dict(G2, ns=7, fs=1), dict(G2, ns=7, fs=2), dict(G3, ns=5, fs=1), dict(G3, ns=5, fs=2))
FULL = (G2, G3)
GEO = ("Geometries (inputs n, outputs m, rows r, columns c, levels-back l, arity per column ar, kernels nf, constants neph): "
       "%s and %s with every gene arbitrary; %s with 7 and %s with 5 genes arbitrary, the others fixed in two ways (thorough: every gene arbitrary)." % (G1, G4, G2, G3))


def geos(src, name, quick=QUICK, full=FULL, **p):
    return [J(src, name, **dict(g, **p)) for g in quick] + [J(src, name, thorough=True, **dict(g, **p)) for g in full]


def ops(inv):
    js = []
    for op in range(0, 13):
        if op == 0:
            js += geos("h_ops.cpp", "operation", quick=(G1, G2, G3, G4), full=(), op=op, inv=inv)
        else:
            js += geos("h_ops.cpp", "operation", op=op, inv=inv)
    for op in (4, 5, 6, 7, 8, 9, 10):
        js += geos("h_ops.cpp", "operation", quick=(dict(G1, ns=2), dict(G4, ns=2, fs=1)), full=(G1,), op=op, inv=inv, N=2)
    js += [J("h_ops.cpp", "any small geometry", op=13, inv=inv, c=c) for c in (1, 2, 3)]
    return js


P["E01"] = dict(jobs=ops(1), reach=["end"], bounds=GEO)
P["E02"] = dict(jobs=ops(2), reach=["end"], bounds=GEO)
P["E06"] = dict(jobs=[j for op in range(3, 11) for N in (1, 2, 0) for j in
                      (geos("h_mut.cpp", "mutation", op=op, N=1) if N == 1 else
                       geos("h_mut.cpp", "mutation", quick=(dict(G1, ns=3), dict(G2, ns=2, fs=1), dict(G4, ns=3)), full=(G1,), op=op, N=N)) if op > 3 or N == 1], reach=["end"], bounds=GEO)
P["E03"] = dict(jobs=[j for m in (0, 2, 3) for j in geos("h_eval.cpp", "numeric", mode=m)]
                + [j for op in (3, 7, 8, 9, 10) for j in geos("h_eval.cpp", "numeric", quick=(G1, dict(G2, ns=5), dict(G3, ns=5, fs=3), dict(G4, ns=6)), mode=4, op=op)], reach=["end"], bounds=GEO)
P["E04"] = dict(jobs=[j for m in (1, 5) for j in geos("h_eval.cpp", "string", mode=m)], reach=["end"], bounds=GEO)
P["E07"] = dict(jobs=[j for op in range(0, 11) for j in geos("h_invalid.cpp", "invalid", quick=tuple(dict(g, ns=3, fs=f) for g in (G1, G2, G3, G4) for f in (1, 2)),
                                                                full=(G1, G4) if op in (1, 3, 4, 6) else (), op=op)], reach=["end"], bounds=GEO)
P["E08"] = dict(jobs=[J("h_loss.cpp", "loss", mode=0, ce=ce, B=B, wired=w, n=2, m=m, r=1, c=2, l=3, ar=2, ns=4) for ce in (0, 1) for B in (1, 2, 3) for m in (1, 2, 3) for w in (0, 1)]
                + [J("h_loss.cpp", "loss", mode=0, ce=ce, B=B, wired=0, thorough=True, n=2, m=3, r=1, c=2, l=3, ar=2) for ce in (0, 1) for B in (1, 2, 3)]
                + [J("h_loss.cpp", "loss", mode=0, ce=ce, B=B, wired=0, ns=4, **dict(G2)) for ce in (0, 1) for B in (1, 2)],
                reach=["end"], bounds=GEO)
P["E09"] = dict(jobs=[J("h_loss.cpp", "loss", mode=1, ce=ce, B=B, sched=s, n=2, m=m, r=1, c=2, l=3, ar=2) for ce in (0, 1) for B in (1, 2, 3, 4, 6) for s in (0, 1, 2) for m in (1, 2)]
                + [J("h_loss.cpp", "loss", mode=1, ce=ce, B=4, sched=s, wired=0, ns=3, **g) for ce in (0, 1) for s in (0, 1, 2) for g in (G2, G3)], reach=["end"], bounds=GEO)
# seeds
E10 = dict(G1, l=2, neph=0, free=1)
P["E10"] = dict(jobs=[J("h_seed.cpp", "seed", mode=0, kind=k, uniform=u, **dict(g, free=1, neph=g.get("neph", 0) if k == 0 else 0)) for k in (0, 1, 2) for g in (E10, dict(G3, c=1, r=2), dict(G2, ar=2, m=1)) for u in (0, 1)]
                + [J("h_seed.cpp", "seed", mode=0, kind=k, **dict(g, free=1, neph=g.get("neph", 0) if k == 0 else 0)) for k in (0, 1, 2) for g in (G2, G4)]
                + [J("h_seed.cpp", "seed", mode=m, kind=k, op=op, N=N, ns=2, **dict(E10, neph=1 if k == 0 else 0)) for k in (0, 1, 2) for m in (1, 3) for op in range(7) for N in ((1, 2) if op in (0, 1, 5) else (1,))]
                + [J("h_seed.cpp", "seed", mode=m, kind=k, op=0, s=s, ns=1, **dict(E10, neph=1 if k == 0 else 0)) for k in (0, 1, 2) for m in (1, 3) for s in (0, 1, 5, 6, 4294967295)]
                + [J("h_seed.cpp", "copies", mode=2, kind=k, op=op, ns=2, assign=a, **dict(E10, neph=1 if k == 0 else 0)) for k in (0, 1, 2) for op in range(7) for a in (0, 1)]
                + [J("h_seed.cpp", "history", mode=m, kind=0, op=op, first=f, ns=1, **dict(E10, neph=1)) for m in (1, 2, 3) for op in (0, 2, 5) for f in range(7) if m != 2 or op == 5]
                + [J("h_seed.cpp", "history", thorough=True, mode=2, kind=0, op=op, first=f, ns=1, **dict(E10, neph=1)) for op in (0, 2) for f in range(7)]
                + [J("h_seed.cpp", "parameters", mode=4, biases=b, **dict(g, neph=0, free=1)) for b in (0, 1) for g in (E10, G3, G2)], reach=["end"],
                bounds=GEO + " Every seed for the constructors and the parameters; one seed for the mutations, whose draws are arbitrary functions of the words of the generator (rejection loops: one rejected draw).")
P["W01"] = dict(jobs=[j for m in (0, 1, 2) for j in geos("h_weighted.cpp", "weighted", quick=(G1, dict(G2, neph=0), dict(G3, ns=6), dict(G3, ns=6, fs=2), dict(G4, neph=0)),
                                                             full=(G3,), mode=m)], reach=["end"], bounds=GEO)
A1 = dict(n=2, m=1, r=1, c=2, l=3, ar=2)
A2 = dict(n=2, m=2, r=2, c=2, l=1, ar=12)
A3 = dict(n=1, m=2, r=1, c=3, l=2, ar=2)
KS = (102, 607, 306, 205, 405, 1011, 1201, 501, 1105, 511, 902)
RC = ["--real-cmp", "--real-timeout", "3000"]
P["A01"] = dict(jobs=[J("h_ann.cpp", "ann", mode=0, k=k, engine=RC, **A1) for k in (102, 306, 406, 506, 708, 910, 1112)]
                + [J("h_ann.cpp", "ann", mode=0, k=k, engine=RC, ns=5, fs=f, **g) for k in (102, 607) for g in (A2, A3) for f in (1, 2)]
                + [J("h_ann.cpp", "ann", mode=1, k=k, ns=5, fs=f, **g) for k in (102, 506, 708) for g in (A1, A2, A3) for f in (1, 2)], reach=["end"], bounds=GEO)
P["A02"] = dict(jobs=[J("h_ann.cpp", "gradient", mode=2, k=k, engine=RC, **A1) for k in KS]
                + [J("h_ann.cpp", "gradient", mode=2, k=k, ce=ce, ns=3, fs=f, engine=RC, **g) for k in (102, 607) for ce in (0, 1) for g in (A2, A3) for f in (1, 2, 3)]
                + [J("h_ann.cpp", "gradient", mode=7, k=k, B=B, sched=s, ns=2, fs=f, engine=RC, **A1) for k in (607,) for B in (2, 3) for f in (1, 2) for s in (0, 1, 2)], reach=["end"], bounds=GEO)
P["A03"] = dict(jobs=[J("h_ann.cpp", "sgd", mode=3, k=k, ce=0, B=B, ns=2, fs=f, engine=RC, **A1) for k in (607, 102) for B in (1, 2, 3) for f in (1, 2)]
                + [J("h_ann.cpp", "sgd", mode=3, k=607, ce=1, B=2, ns=2, fs=f, engine=RC, **A3) for f in (1, 2)]
                + [J("h_ann.cpp", "sgd", mode=9, k=607, B=B, ns=2, fs=f, **A1) for B in (2, 3, 4) for f in (1, 2)]
                + [J("h_ann.cpp", "sgd", mode=10, k=607, B=B, ns=1, fs=1, **A1) for B in (2, 3, 4)], reach=["end"], bounds=GEO)
P["A04"] = dict(jobs=[J("h_ann.cpp", "access", mode=m, k=k, ns=5, fs=f, **g) for m in (4, 5, 6) for k in (102, 607) for g in (A1, A2, A3) for f in (1, 2)]
                + [J("h_ann.cpp", "access", mode=m, k=102, ns=ns, fs=f, **dict(A1, ar=ar)) for m in (4, 6) for ar, ns in ((34, 6), (43, 6)) for f in (1, 2)]
                + [J("h_ann.cpp", "access", mode=8, **g) for g in (A1, A2)], reach=["end"], bounds=GEO)


# every small geometry (up to 2 inputs, a constant, 2 outputs, 2 rows, any levels-back, arities 1 and 2), one arbitrary gene
def small(src, name, geo_, cs=(2,), fss=(1,), **p):
    js = [J(src, name + " in any small geometry", anygeo=geo_, c=c, ns=1, fs=f, **p) for c in cs for f in fss]
    js += [J(src, name + " in any small geometry", thorough=True, anygeo=geo_, c=3, ns=1, fs=f, **p) for f in (1, 2)]
    return js


P["E03"]["jobs"] += [j for m in (0, 2) for j in small("h_eval.cpp", "numeric", 1, cs=(2, 3), fss=(1, 2), mode=m)] + small("h_eval.cpp", "numeric", 1, mode=3)
P["E04"]["jobs"] += [j for m in (1, 5) for j in small("h_eval.cpp", "string", 1, cs=(2, 3), fss=(1, 2), mode=m)]
P["W01"]["jobs"] += [j for m in (0, 1, 2) for j in small("h_weighted.cpp", "weighted", 2, cs=(2, 3), fss=(1, 2), mode=m)]
P["E06"]["jobs"] += [j for op in range(3, 11) for j in small("h_mut.cpp", "mutation", 1, op=op)]
P["E08"]["jobs"] += [j for ce in (0, 1) for j in small("h_loss.cpp", "loss", 1, cs=(2,), mode=0, ce=ce, B=2, wired=0)]
P["A01"]["jobs"] += [j for m in (0, 1) for j in small("h_ann.cpp", "ann", 2, fss=(1, 2), mode=m, k=607, engine=RC)]
P["A02"]["jobs"] += [j for ce in (0, 1) for j in small("h_ann.cpp", "gradient", 2, cs=(2,), fss=(1, 2), mode=2, k=607, ce=ce, engine=RC)]
P["A04"]["jobs"] += [j for m in (5, 6) for j in small("h_ann.cpp", "access", 2, fss=(1, 2), mode=m, k=607)]
for k in P:
    P[k]["bounds"] = P[k]["bounds"] + " Also every geometry with up to 2 inputs, 1 constant, 2 outputs, 2 rows, 2 or 3 columns, any levels-back and arities 1 or 2, with one arbitrary gene."

KB = "Kernels: all 23 of the library. "
P["K01"] = dict(jobs=[J("h_kernel.cpp", "kernel", mode=0, amax=5, engine=RC), J("h_kernel.cpp", "protected division", mode=1, amax=5), J("h_kernel.cpp", "taylor", mode=6, amax=3, engine=RC)]
                + [J("h_kernel.cpp", "kernel", thorough=True, mode=0, amax=9, engine=RC), J("h_kernel.cpp", "taylor", thorough=True, mode=6, amax=5, engine=RC)],
                reach=["end"], bounds=KB + "1 to 5 arguments (thorough: 9; Taylor polynomials 3, thorough 5), every real value.")
P["K02"] = dict(jobs=[J("h_kernel.cpp", "print", mode=2, amax=5, engine=RC)] + [J("h_kernel.cpp", "print composed", mode=3, amax=3, lo=i, hi=i + 4, engine=RC) for i in range(0, 23, 4)]
                + [J("h_kernel.cpp", "print composed", thorough=True, mode=3, amax=5, lo=i, hi=i + 4, engine=RC) for i in range(0, 23, 4)],
                reach=["end"], bounds=KB + "1 to 5 arguments; compositions of two kernels with up to 3 arguments (thorough: 5); symbols stand for any real number.")
P["K03"] = dict(jobs=[J("h_kernel.cpp", "set", mode=4, lo=i, hi=i + 4, engine=RC) for i in range(0, 23, 4)] + [J("h_kernel.cpp", "unknown names", mode=5)], reach=["end"],
                bounds=KB + "Lists of up to three names; unknown names of up to 11 printable characters.")
PROPERTIES = P

# symbolic regression
R1 = dict(n=1, m=1, r=1, c=2, l=2, ar=2, nf=2, neph=1)
R2 = dict(n=1, m=1, r=1, c=2, l=2, ar=2, nf=2, neph=2)
R3 = dict(n=2, m=2, r=2, c=1, l=1, ar=2, nf=2, neph=1)
R0 = dict(n=2, m=1, r=1, c=2, l=1, ar=2, nf=2, neph=0)
RB = ("Problems (inputs n, outputs m, rows r, columns c, levels-back l, arity ar, constants neph): %s, %s, %s, %s; kernels by pairs from sum, diff, mul, div, pdiv, sin, exp, tanh, "
      "sig, cos, gaussian; one to three points; " % (R1, R2, R3, R0))
P["P01"] = dict(jobs=[J("h_sr.cpp", "fitness", mode=0, k=32, B=B, mo=mo, engine=RC, **g) for B, mo in ((1, 0), (2, 1)) for g in (R1, R0)]
                + [J("h_sr.cpp", "fitness", mode=0, k=k, B=2, ce=ce, parts=parts, ns=4, fs=f, engine=RC, **g) for k in (32, 36) for ce, parts in ((0, 2), (1, 0), (0, 0)) for f in (1, 2) for g in (R2, R3)]
                + [J("h_sr.cpp", "arguments", mode=m, k=32, B=2, engine=RC, ns=2, **R1) for m in (4, 7)]
                + [J("h_sr.cpp", "arguments", mode=7, k=32, B=2, engine=RC, ns=2, **dict(R1, nf=3))]
                + [J("h_sr.cpp", "arguments", mode=4, k=32, B=2, ce=1, mo=1, engine=RC, ns=2, **R3)]
                + [J("h_sr.cpp", "model", mode=5, k=k, B=2, engine=RC, ns=4, fs=f, **g) for k in (32, 69) for f in (1, 2) for g in (R1, R2, R3, R0)]
                + [J("h_sr.cpp", "refusal", mode=6, k=32, engine=RC, ns=2, fs=f, **g) for f in (1, 2) for g in (R1, R3)], reach=["end"],
                bounds=RB + "every decision vector with constants in [-8, 8] (for the larger problems, 4 arbitrary genes and the others fixed in two ways).")
P["P02"] = dict(jobs=[J("h_sr.cpp", "derivatives", mode=m, k=k, B=B, mo=mo, ns=3, fs=f, engine=RC, **g) for m, k, B, mo in ((2, 32, 1, 0), (2, 32, 2, 1), (3, 32, 1, 0), (2, 37, 1, 0)) for f in (1, 2, 3) for g in (R1, R2, R3)]
                + [J("h_sr.cpp", "derivatives", mode=2, ce=1, k=32, B=1, ns=2, fs=f, engine=RC, **g) for f in (1, 2, 3) for g in (R1, R3)]
                + [J("h_sr.cpp", "derivatives after others", mode=m, history=1, k=32, B=1, ns=2, fs=f, engine=RC, **g) for m in (2, 3) for f in (1, 2) for g in (R1, R2)]
                + [J("h_sr.cpp", "derivatives after another model", mode=2, history=1, other=1, k=32, B=1, ns=1, fs=f, engine=RC, **g) for f in (1, 2, 3) for g in (R1, R2)]
                + [J("h_sr.cpp", "derivatives, other kernels", mode=2, k=k, B=1, ns=2, fs=f, engine=RC, **R1) for k in (16 * 5 + 2, 16 * 6 + 2, 16 * 7 + 2, 16 * 8 + 2, 16 * 9 + 2, 16 * 10 + 2, 16 * 1 + 3) for f in (1, 2)]
                + [J("h_sr.cpp", "derivatives, ten constants", mode=2, k=32, neph=10, engine=RC, n=1, m=1, r=1, c=1, l=1, ar=2, nf=2)], reach=["end"],
                bounds=RB + "every constant in [-8, 8]; two or three arbitrary genes, the others fixed in three ways; a problem with ten constants and every gene arbitrary.")
P["P03"] = dict(jobs=[J("h_sr.cpp", "history", mode=1, k=k, B=B, zero=1, ns=ns, fs=f, engine=RC, **g) for k in (32, 36) for B, ns, g in ((1, 1, R1), (2, 1, R1), (1, 1, R2), (1, 2, R1)) for f in (1, 2)]
                + [J("h_sr.cpp", "history of two models", mode=1, mo=mo, k=k, B=1, zero=1, other=1, ns=1, fs=f, engine=RC, **g) for f in (1, 2, 3) for mo, k, g in ((1, 32, R1), (1, 36, R1), (0, 32, R2))]
                + [J("h_sr.cpp", "history", thorough=True, mode=1, steps=3, k=k, B=1, zero=1, ns=1, fs=f, engine=RC, **R1) for k in (32, 36) for f in (1, 2)], reach=["end"],
                bounds=RB + "every sequence of two operations (thorough: three) before the evaluation, constants in [-8, 8], one or two arbitrary genes.")

# the algorithms
AN = ["es", "mes", "moes", "momes", "gd"]
AG = dict(r=1, c=1, l=1, fin=1, n=1, m=1, ar=2, ns=1)


def X(algo, mode, name, time=150, **p):
    q = {k: p.pop(k) for k in ("reach", "thorough", "weight") if k in p}
    d = dict(AG, mode=mode)
    d.update(p)
    return J("h_algo.cpp", "%s %s" % (AN[algo], name), time, defs=["-DALGO=%d" % algo], engine=RC, **dict(q, **d))


BIG = dict(nf=2, neph=1)
ONE = [dict(nf=1, neph=1, one=i) for i in (1, 2)]
CALM = [dict(nf=1, neph=1, one=i, calm=1, gen=2, ftol=1) for i in (1, 2)]
XB = ("Populations of two individuals of problems with one input, output and node and one constant; the values the problem returns are arbitrary (every evaluation, or one of them in each generation); one generation with "
      "arbitrary random draws, two or three with arbitrary normal draws and sweeping integer ones. ")
P["X01"] = dict(jobs=[X(a, 0, "members", **BIG) for a in (0, 1, 2)] + [X(a, 0, "members", learn=0, **BIG) for a in (0, 2)] + [X(a, 0, "members", **o) for a in (0, 1, 2, 3) for o in ONE]
                + [X(a, 0, "generations", **o) for a in (0, 1, 2) for o in CALM] + [X(a, 0, "generations", **dict(o, gen=3)) for a in (0, 1) for o in CALM]
                + [X(a, 0, "generations", thorough=True, **dict(o, gen=3)) for a in (2, 3) for o in CALM], reach=["end"], bounds=XB)
P["X02"] = dict(jobs=[X(a, 1, "offspring", **BIG) for a in (0, 1, 2)] + [X(a, 1, "offspring", learn=0, **BIG) for a in (0, 2)] + [X(a, 1, "offspring", **o) for a in (0, 1, 2, 3) for o in ONE]
                + [X(a, 1, "offspring", **o) for a in (0, 1, 2) for o in CALM]
                + [X(a, 1, "learning", newt=w, nf=1, neph=n, calm=1, one=i, select=2) for a in (1, 3) for w, n in ((1, 2), (1, 3), (2, 2), (3, 3), (4, 2)) for i in ((1, 2) if w in (1, 3) else (1,)) if (a, w) != (3, 4)]
                + [X(3, 1, "learning", thorough=True, newt=4, nf=1, neph=2, calm=1, one=i, select=2) for i in (1, 2)],
                reach=["end"], bounds=XB + "Newton steps with one constant, every derivative; with two constants, one active, every Hessian; two active, every gradient and the Hessians of entries -1, 0, 1, 2, 3, or with one arbitrary entry; "
                "three constants, any of them active, every gradient, eight Hessians.")
P["X03"] = dict(jobs=[X(4, 6, "descent", policy=q, nf=1, neph=1) for q in (0, 1, 2, 3)] + [X(4, 6, "descent", gen=2, nf=1, neph=1), X(4, 6, "descent", gen=3, nf=1, neph=1), X(4, 6, "descent", gen=2, nf=1, neph=2),
                X(4, 0, "members", nf=1, neph=1, gen=2)], reach=["end"], bounds="Populations of two, problems with one or two constants, one to three iterations, arbitrary rates, fitnesses and gradients (within 1e3).")
P["X04"] = dict(jobs=[X(2, 2, "selection", **BIG)] + [X(a, 2, "selection", apart=q, **o) for a in (2, 3) for o in ONE for q in (0, 1)] + [X(2, 2, "selection", **o) for o in CALM], reach=["end"],
                bounds=XB + "pagmo's selection of the best individuals is any choice of them.")
P["X05"] = dict(jobs=[X(2, 3, "log", **BIG)] + [X(a, 3, "log", **o) for a in (0, 1, 2, 3) for o in ONE] + [X(a, 3, "log of two", verb=v, **o) for a in (0, 1) for o in CALM for v in (1, 2)]
                + [X(a, 3, "log of three", verb=2, **dict(o, gen=3)) for a in (0, 1) for o in CALM[:1]], reach=["end"], bounds=XB)
P["X06"] = dict(jobs=[X(a, 4, "refusals", nf=2, neph=1) for a in range(5)], reach=["end"], bounds="Every number as tolerance or learning rate, up to five mutations.")
P["X07"] = dict(jobs=[X(a, 5, "determinism", how=h, **BIG) for a in (0, 1, 2) for h in ((0, 1, 2, 3) if a in (0, 2) else (0, 1, 3))]
                + [X(3, 5, "determinism", how=h, **o) for h in (0, 1, 3) for o in ONE]
                + [X(a, 5, "determinism", how=h, mut=2, nf=1, neph=1, one=3) for a in (0, 1, 3) for h in (1, 3)]
                + [X(a, 5, "determinism", how=1, gen=2, nf=1, neph=1, one=3) for a in (0, 1, 3)]
                + [X(a, 5, "determinism", thorough=True, how=1, mut=2, nf=1, neph=1, one=3) for a in (2,)], reach=["end"], bounds=XB)

# serialization
H = "h_s11n.cpp"
P["S01"] = dict(jobs=[J(H, "expression", what=0, ns=3, fs=f, **g) for g in (dict(G1, neph=1), G2, G3, G4) for f in (1, 2)]
                + [J(H, "weighted", what=1, ns=3, fs=f, **g) for g in (G1, G2, G3, G4) for f in (1, 2)]
                + [J(H, "network", what=2, k=k, ns=2, fs=f, **g) for k in (0, 2, 4, 6, 8, 10) for g in (A1, A2, A3) for f in (1, 2)]
                + [J(H, "kernel and set", what=3), J(H, "function", what=5), J(H, "keys", what=6)]
                + [J(H, "problem", what=4, ce=ce, mo=mo, parts=q, B=2, ns=1, fs=f, k1=k1, k2=k2, **g) for g in (R1, R2, R3) for f in (1, 2) for ce, mo, q, k1, k2 in ((0, 0, 0, 0, 2), (0, 1, 2, 1, 4), (1, 0, 0, 2, 5))]
                + [X(a, 7, "saved", nf=1, neph=1, one=1, calm=1, ftol=1, select=2) for a in (0, 1, 2, 3)] + [X(4, 7, "saved", nf=1, neph=1, one=1)]
                + [X(a, 7, "saved", learn=0, nf=1, neph=1, one=2, calm=1, ftol=1, select=2) for a in (0, 2)], reach=["end"],
                bounds="Expressions: %s, %s, %s, %s with three arbitrary genes, the others fixed in two ways; networks: %s, %s, %s; problems: %s, %s, %s; all constants, weights, points. "
                "Every kernel of the library; wrapped functions of four kinds. Algorithms: used once or not, populations of two. The archive is one in memory that keeps the typed sequence of what is saved "
                "(Boost's own archives are compiled code, taken to do the same)." % (G1, G2, G3, G4, A1, A2, A3, R1, R2, R3))

# the rest of the library
P["G01"] = dict(jobs=[J("h_gym.cpp", "function", mode=0, f=f) for f in range(16)] + [J("h_gym.cpp", "data", mode=1, f=f, junk=1 if f < 8 or f == 9 else 2) for f in range(16)]
                + [J("h_gym.cpp", "twice", mode=2, f=f) for f in range(16)] + [J("h_gym.cpp", "any function", mode=3)] + [J("h_gym.cpp", "data sets", mode=4, f=f) for f in range(8)], reach=["end"],
                bounds="All problems of the library: functions at every real point of their domain; data into vectors of up to two earlier entries; equally spaced data of any function, between any two numbers, up to 12 points.")
RNG = dict(defs=["-DWHAT=0"])
P["R01"] = dict(jobs=[J("h_rng.cpp", "engine", mode=0, n=n, **RNG) for n in (3, 630)] + [J("h_rng.cpp", "seeds", mode=1, n=3, **RNG)] + [J("h_rng.cpp", "threads", mode=2, n=n, **RNG) for n in (2, 3)]
                + [J("h_rng.cpp", "constructed twice", defs=["-DWHAT=1"], what=w) for w in range(10)] + [J("h_rng.cpp", "mutated twice", defs=["-DWHAT=1"], what=w, steps=1) for w in (1, 2, 3, 5)]
                + [J("h_rng.cpp", "mutated twice", 600, thorough=True, defs=["-DWHAT=1"], what=w, steps=1) for w in (0, 4)], reach=["end"],
                bounds="Every seed, every state of the engine before; three (and 630) words, up to three threads in every order; objects of the smallest geometry, and one mutation of them (of one seed).")
P["F01"] = dict(jobs=[J("h_function.cpp", "wrappers", steps=n) for n in (1, 2)] + [J("h_function.cpp", "wrappers", 600, thorough=True, steps=3)], reach=["end"],
                bounds="Every sequence of one or two (thorough: three) operations on wrappers of functions, lambdas, functors and members with arbitrary thread safety.")
import json

import pyrun


def PY(pid, **spec):
    spec["runner"] = lambda pid_, tier: pyrun.run(pid_, tier, spec)
    spec["technique"] = "symbolic execution of the real Python code with z3"
    P[pid] = spec


PY("Y01", script="encode.py", pyjobs=[("depth %s, sizes to %s, malformed %s, kernels %s" % a, [str(v) for v in a], t) for a, t in
   (((0, 6, 0, 3), False), ((1, 3, 0, 3), False), ((1, 4, 0, 3), False), ((2, 2, 0, 3), False), ((2, 3, 0, 2), False), ((3, 2, 0, 2), False), ((4, 1, 0, 3), False), ((4, 2, 0, 1), False),
    ((0, 3, 1, 3), False), ((1, 3, 1, 3), False), ((2, 2, 1, 3), False), ((3, 2, 1, 3), False), ((2, 3, 0, 3), True), ((3, 2, 0, 3), True), ((3, 3, 0, 1), True), ((4, 2, 0, 2), True))],
   functions=["dcgpy/_encode.py: encode_ffnn"],
   bounds="Networks with up to four hidden layers; inputs, outputs and sizes up to 6 (no hidden layer), 4 (one), 3 (two), 2 (more); every combination of (two or three) kernels, every levels-back up to three more than the layers; "
          "malformed lists of kernels and unknown kernels; every order of Python's sets.",
   assumptions=["The compiled classes expression_ann and kernel_set_double (pybind11 is not installed) are a model with the documented layout of a Cartesian program, whose initial chromosome is arbitrary.",
                "Kernel names are three of the library's."])
SIMPL = [(dict(n=2, m=1, r=1, c=2, arity=[2, 2], kernels=['sum', 'mul'], weighted=True, free=0), False),
         (dict(n=2, m=1, r=1, c=2, arity=[2, 2], kernels=['diff', 'div'], weighted=True, free=1), False),
         (dict(n=2, m=2, r=2, c=1, arity=[2], kernels=['sum', 'mul'], weighted=True, free=0), False),
         (dict(n=2, m=2, r=2, c=2, arity=[1, 2], kernels=['sum'], weighted=True, free=2), False),
         (dict(n=2, m=1, r=1, c=2, arity=[2, 3], kernels=['sum', 'sin'], weighted=True, free=0), False),
         (dict(n=3, m=2, r=1, c=2, arity=[2, 2], kernels=['sum', 'mul'], weighted=False, free=0), False),
         (dict(n=3, m=1, r=1, c=3, arity=[2, 2, 2], kernels=['diff', 'mul'], weighted=False, free=1), False),
         (dict(n=2, m=1, r=1, c=2, arity=[2, 2], kernels=['div', 'sin'], weighted=False, free=0), False),
         (dict(n=1, m=1, r=1, c=2, arity=[2, 2], kernels=['sum', 'div'], weighted=True, free=2), False)]
PY("Y02", script="simplify.py", pyjobs=[(json.dumps(c), [json.dumps(c)], t) for c, t in SIMPL],
   functions=["dcgpy/_simplify.py: _sympy_simplify"],
   bounds="Expressions: %s (a third of the connections and every kernel arbitrary), every value of inputs, constants and weights." % json.dumps([c for c, _ in SIMPL]),
   assumptions=["The compiled expression (pybind11 is not installed) is a model that prints formulas as the library does and evaluates over the reals.", "sympy runs as installed; its result is compared with the expression by z3.",
                "sin is an uninterpreted function; divisors are not zero."])
