"""C21 Hutchinson estimators: recorded probes against the defining formulas and laws."""
import itertools

import numpy as np
import torch
from scipy.sparse import csr_matrix
from scipy.sparse.linalg import aslinearoperator
from vf import ops, stats
from vf.rec import Recorder, Wrapped, matrix

LEVEL = "exploration"
CASES = {"quick": 4200, "thorough": 63000}
MUST = ["hutch.trace", "hutch.diag", "hutch.norm", "oracle.law", "oracle.fresh",
        "oracle.rejections", "hutch.exact_diagonal", "hutch.rectangular", "hutch.decoded",
        "hutch.curvature", "hutch.interleaved"]
RULE = (
    "Random operator (dense, low-rank, ill-scaled, integer, diagonal, rectangular for the "
    "norm; recording operator, ndarray, sparse, exported curvature) x estimator x "
    "distribution x several estimators interleaved with global reseeding; every sample is "
    "recomputed from the recorded probe, probes are tested for support, law, independence "
    "and freshness; non-trivial when the operator is non-zero."
)


def classes():
    from curvlinops.diagonal.hutchinson import HutchinsonDiagonalEstimator
    from curvlinops.norm.hutchinson import HutchinsonSquaredFrobeniusNormEstimator
    from curvlinops.trace.hutchinson import HutchinsonTraceEstimator

    return {"trace": HutchinsonTraceEstimator, "diag": HutchinsonDiagonalEstimator,
            "norm": HutchinsonSquaredFrobeniusNormEstimator}


def formula(which, M, v):
    Av = M @ v
    return {"trace": lambda: v @ Av, "diag": lambda: v * Av, "norm": lambda: Av @ Av}[which]()


def exact(which, M):
    return {"trace": lambda: np.trace(M), "diag": lambda: np.diag(M),
            "norm": lambda: (M**2).sum()}[which]()


def draw(est, dist, default):
    if default:
        return est.sample()
    return est.sample(distribution=dist) if dist == "normal" else est.sample(dist)


def case(ctx):
    mode = ctx.pick("formula", "formula", "formula", "formula", "law", "biglaw", "decode",
                    "reject", "curvature")
    which = ctx.pick("trace", "diag", "norm")
    dist = ctx.pick("rademacher", "normal")
    ctx.describe(mode=mode, estimator=which, distribution=dist)
    {"formula": formulas, "law": laws, "biglaw": biglaw, "decode": decode,
     "reject": reject, "curvature": curvature}[mode](ctx, which, dist)


def formulas(ctx, which, dist):
    cls = classes()
    n = ctx.r.randint(1, 12)
    m = ctx.r.randint(1, 12) if which == "norm" else n
    dt = ctx.pick(np.float64, np.float64, np.float32)
    M, how = matrix(ctx, m, n, dt)
    tol = 1e-11 if dt is np.float64 else 3e-5
    Mf = M.astype(float)
    ctx.ev("hutch.rectangular", m != n)
    # several estimators share one recorded operator and are interleaved
    A = Recorder(M)
    names = [which] + (ctx.r.sample([w for w in cls if m == n], ctx.r.randint(0, 2))
                       if m == n else [])
    ests = [(w, cls[w](A)) for w in names]
    ctx.equal(len(A.log), 0, "hutch.products", "products before the first sample")
    probes = []
    for t in range(ctx.r.randint(3, 8)):
        w, est = ctx.pick(*ests)
        d = ctx.pick("rademacher", "normal")
        default = ctx.coin(0.3)
        d = "rademacher" if default else d
        if len(ests) > 1:
            ctx.ev("hutch.interleaved")
        before = len(A.log)
        got = draw(est, d, default)
        ctx.ev(f"hutch.{w}")
        if not ctx.equal(len(A.log) - before, 1, "hutch.products",
                         f"products for one {w} sample"):
            continue
        v = A.cols[-1]
        stats.entries(ctx, v, d, "hutch")
        want = formula(w, Mf, v)
        mag = float(np.abs(Mf).max() * n * max(np.abs(v).max(), 1) ** 2)
        ctx.equal(np.shape(got), np.shape(want), "hutch.shape", f"{w} sample")
        ctx.close(np.asarray(got, float), np.asarray(want), "hutch.formula", f"{w} sample ({d})",
                  rtol=tol, scale=mag if w != "norm" else mag**2)
        if d == "rademacher" and not np.any(Mf - np.diag(np.diag(Mf)) if m == n else 1):
            ctx.ev("hutch.exact_diagonal")
            ctx.close(np.asarray(got, float), np.asarray(exact(w, Mf)), "hutch.exact_diagonal",
                      f"{w} of a diagonal matrix", rtol=10 * tol)
        probes.append((d, v))
        if ctx.coin(0.15):
            np.random.seed(ctx.r.randint(0, 2**31))  # a user reseeding in between
        if ctx.coin(0.3) and isinstance(got, np.ndarray) and got.ndim:
            got[...] = np.nan  # results belong to the caller
    stats.distinct(ctx, [v for d, v in probes if d == "normal" and n > 1], "hutch")
    if np.abs(Mf).max() > 0:
        ctx.sig(which, how, m, n, tuple(names), len(probes))


def laws(ctx, which, dist):
    """Many samples in a small dimension: the joint law of entries and successive probes."""
    cls = classes()
    n, T = ctx.r.randint(1, 5), 1500 if ctx.tier == "quick" else 6000
    M, how = matrix(ctx, n, n)
    A = Recorder(M)
    k = ctx.pick(1, 1, 2)
    ests = [cls[which](A) for _ in range(k)]
    got = [ests[t % k].sample(dist) for t in range(T)]
    V = np.array(A.cols)
    if not ctx.equal(len(V), T, "hutch.products", f"products for {T} samples"):
        return
    stats.law(ctx, V, dist, "hutch")
    i = ctx.r.randrange(T)
    ctx.close(np.asarray(got[i]), np.asarray(formula(which, M, V[i])), "hutch.formula",
              f"sample {i}", scale=np.abs(M).max() ** (2 if which == "norm" else 1) * n)
    # unbiased
    want = np.atleast_1d(exact(which, M))
    G = np.array(got).reshape(T, -1)
    from vf.mc import mean_test
    for j in range(G.shape[1]):
        if G[:, j].std() > 1e-9 * (1 + np.abs(want[j])):
            mean_test(ctx, G[:, j], float(want[j]), "hutch.unbiased", f"{which}[{j}]", z=12)
    if np.abs(M).max() > 0:
        ctx.sig("law", which, dist, n, how, k, ctx.idx)


def biglaw(ctx, which, dist):
    """Few samples of a large diagonal operator: precise law, fresh probes, exactness."""
    cls = classes()
    n, T = 40000, 8
    diag = ctx.np.randn(n)
    log = []

    class D(Recorder):
        def __init__(self):
            super(Recorder, self).__init__(np.dtype(float), (n, n))

        def _matvec(self, x):
            log.append(np.array(x).reshape(-1))
            return diag * x.reshape(-1)

        def _matmat(self, X):
            for c in X.T:
                log.append(np.array(c))
            return diag[:, None] * X

    vals = []
    for _ in range(2):  # two estimators made after identical histories
        A = D()
        est = cls[which](A)
        vals += [est.sample(dist) for _ in range(T // 2)]
    if not ctx.equal(len(log), T, "hutch.products", f"products for {T} samples"):
        return
    for v in log:
        stats.entries(ctx, v, dist, "hutch")
    stats.law(ctx, np.array(log), dist, "hutch")
    stats.distinct(ctx, log, "hutch")
    if dist == "rademacher":
        ctx.ev("hutch.exact_diagonal")
        want = {"trace": diag.sum(), "diag": diag, "norm": (diag**2).sum()}[which]
        for g in vals:
            ctx.close(np.asarray(g), np.asarray(want), "hutch.exact_diagonal",
                      f"{which} of a diagonal matrix", scale=1.0)
    ctx.sig("biglaw", which, dist, ctx.idx)


def decode(ctx, which, dist):
    """Operators that cannot be recorded: samples lie in the set of Rademacher values."""
    cls = classes()
    n = ctx.r.randint(1, 5)
    m = ctx.r.randint(1, 5) if which == "norm" else n
    M, how = matrix(ctx, m, n)
    A = ctx.pick(lambda: M, lambda: aslinearoperator(M), lambda: csr_matrix(M),
                 lambda: np.asfortranarray(M), lambda: aslinearoperator(csr_matrix(M)))()
    est = cls[which](A)
    table = np.array([np.atleast_1d(formula(which, M, np.array(s, float)))
                      for s in itertools.product((-1, 1), repeat=n)])
    s = max(np.abs(table).max(), 1e-30)
    for _ in range(6):
        g = np.atleast_1d(np.asarray(est.sample(), float))
        ctx.ev("hutch.decoded")
        err = np.abs(table - g).max(1).min()
        ctx.true(err < 1e-10 * s, "hutch.formula",
                 f"{which} sample {g} of {type(A).__name__} is no Rademacher value ({err:.1e})")
    if np.abs(M).max() > 0:
        ctx.sig("decode", which, how, m, n, type(A).__name__)


def reject(ctx, which, dist):
    cls = classes()
    m, n = ctx.r.randint(1, 6), ctx.r.randint(1, 6)
    M, _ = matrix(ctx, m, n)
    A = Recorder(M) if ctx.coin() else M
    if m != n and which != "norm":
        ctx.raises(ValueError, lambda: cls[which](A), "hutch.reject", f"{which} of {m}x{n}")
        return
    est = cls[which](A)
    for bad in ("Rademacher", "gaussian", "", "uniform"):
        ctx.raises(ValueError, lambda: est.sample(distribution=bad), "hutch.reject",
                   f"distribution {bad!r}")
    # the estimator still works
    v = est.sample()
    ctx.true(np.isfinite(v).all(), "hutch.formula", f"sample after rejection {v}")


def curvature(ctx, which, dist):
    cls = classes()
    o = ops.random_op(ctx, kinds=("hessian", "ggn", "ef", "kfac", "jac"),
                      dtype=torch.float64)
    op = o.make()
    S = op.to_scipy(dtype=np.float64)
    M = S @ np.eye(S.shape[1])
    if M.shape[0] != M.shape[1]:
        which = "norm"
    W = Wrapped(S)
    est = cls[which](W)
    f64 = "64" in str(o.p.dtype)
    for t in range(4):
        d = ctx.pick(dist, "rademacher", "normal")
        g = est.sample(d)
        ctx.ev("hutch.curvature")
        if not ctx.equal(len(W.cols), t + 1, "hutch.products", "products with curvature"):
            return
        v = W.cols[-1]
        stats.entries(ctx, v, d, "hutch")
        s = np.abs(M).max() * len(v) * np.abs(v).max() ** 2
        ctx.close(np.asarray(g), np.asarray(formula(which, M, v)), "hutch.formula",
                  f"{which} sample of {o.kind}", rtol=1e-9 if f64 else 1e-3,
                  scale=s if which != "norm" else s * np.abs(M).max())
    if np.abs(M).max() > 0:
        ctx.sig("curv", o.kind, which, dist, o.p.arch)
