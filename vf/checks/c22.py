"""C22 Hutch++: recorded basis and probe products against the defining formula."""
import itertools

import numpy as np
import torch
from scipy.sparse import csr_matrix
from scipy.sparse.linalg import aslinearoperator
from vf import mc, ops, stats
from vf.rec import Recorder, Wrapped, matrix

LEVEL = "exploration"
CASES = {"quick": 3500, "thorough": 52500}
MUST = ["hpp.samples", "hpp.basis", "hpp.cached", "hpp.exact_lowrank", "hpp.full_basis",
        "hpp.decoded", "oracle.law", "oracle.rejections", "hpp.curvature", "hpp.default_dim",
        "hpp.ndarray", "hpp.warm"]
RULE = (
    "Random square operator (symmetric or not, full/low rank, ill-scaled, integer, sparse, "
    "recording operator or exported curvature) x basis dimension 1..d x distributions x "
    "sample sequences of interleaved estimators; the recorded products give basis probes, "
    "basis, and projected probes, from which every sample is recomputed; law tests of the "
    "probes over many samples; non-trivial when the operator is non-zero."
)


def make(A, b, basis_dist, explicit):
    from curvlinops.trace.meyer2020hutch import HutchPPTraceEstimator

    if not explicit:
        return HutchPPTraceEstimator(A, basis_dim=b)
    return HutchPPTraceEstimator(A, basis_dim=b, basis_distribution=basis_dist)


def check_basis(ctx, cols, b, M, basis_dist, tol=1e-9, noise=1e-12):
    """cols: the 2b products of the basis computation. Returns Q and its trace."""
    n = len(M)
    S, Q = np.array(cols[:b]).T, np.array(cols[b:]).T
    ctx.ev("hpp.basis")
    for s in S.T:
        stats.entries(ctx, s, basis_dist, "hpp.basis_probe")
    if basis_dist == "normal" and n > 1:
        stats.distinct(ctx, list(S.T), "hpp.basis_probe")
    ctx.close(Q.T @ Q, np.eye(b), "hpp.orthonormal", "basis Gram matrix", rtol=max(tol, 1e-9))
    AS = M @ S
    R = AS - Q @ (Q.T @ AS)
    nrm = np.linalg.norm(AS, axis=0) + 1e-300
    ctx.true(bool((np.linalg.norm(R, axis=0) <= 1e2 * tol * nrm +
                   noise * np.abs(M).max() * n).all()), "hpp.span",
             "range of A S is not contained in the basis")
    return Q, float(np.trace(Q.T @ M @ Q))


def check_sample(ctx, got, w, Q, tr, M, dist, tol=1e-9):
    n = len(M)
    ctx.ev("hpp.samples")
    ctx.equal(np.shape(got), (), "hpp.shape", "sample")
    s = max(np.linalg.norm(w), 1.0)
    ctx.close(Q.T @ w, np.zeros(Q.shape[1]), "hpp.complement", "basis^T probe",
              rtol=max(tol, 1e-9), scale=s)
    mag = np.abs(M).max() * n * max(s**2, Q.shape[1])
    ctx.close(np.asarray(got, float), np.asarray(tr + w @ M @ w), "hpp.formula", "sample",
              rtol=max(tol, 1e-10), scale=mag)
    if dist == "rademacher":
        P = np.eye(n) - Q @ Q.T
        ctx.true(np.linalg.norm(w) <= n**0.5 * (1 + 1e-9), "hpp.probe",
                 "projected Rademacher probe longer than sqrt(d)")
        if n <= 7:
            T = np.array(list(itertools.product((-1.0, 1.0), repeat=n)))
            err = np.abs(T @ P - w).max(1)
            hits = T[err < 1e-7]
            ctx.ev("hpp.decoded")
            ctx.true(len(hits) > 0, "hpp.probe",
                     f"projected probe stems from no Rademacher vector ({err.min():.1e})")
            return hits[0] if len(hits) == 1 else None
    return None


def case(ctx):
    mode = ctx.pick("formula", "formula", "formula", "formula", "law", "reject", "curvature",
                    "ndarray", "default")
    ctx.describe(mode=mode)
    {"formula": formulas, "law": laws, "reject": reject, "curvature": curvature,
     "ndarray": ndarray_, "default": default}[mode](ctx)


def formulas(ctx):
    n = ctx.r.randint(1, 12)
    dt = ctx.pick(np.float64, np.float64, np.float64, np.float32)
    M, how = matrix(ctx, n, n, dt)
    if ctx.coin(0.3):
        M, how = ((M + M.T) / 2).astype(dt), how + "+sym"
    tol = 1e-9 if dt is np.float64 else 1e-4
    Mf = M.astype(float)
    rank = np.linalg.matrix_rank(Mf)
    A = Recorder(M)
    ests = []
    for _ in range(ctx.pick(1, 1, 2)):
        b = ctx.pick(1, n, ctx.r.randint(1, n), min(n, max(1, int(rank))))
        explicit = ctx.coin(0.7)
        bd = ctx.pick("rademacher", "normal") if explicit else "rademacher"
        ests.append([make(A, b, bd, explicit), b, bd, None, None, 0])
        ctx.ev("hpp.full_basis", b == n)
    ctx.equal(len(A.log), 0, "hpp.products", "products before the first sample")
    ctx.describe(n=n, matrix=how, rank=rank, dims=[e[1] for e in ests])
    for t in range(ctx.r.randint(3, 9)):
        e = ctx.pick(*ests)
        est, b, bd = e[:3]
        start = len(A.log)
        if e[3] is None and ctx.coin(0.2):
            ctx.ev("hpp.warm")
            est.maybe_compute_and_cache_subspace()
            if not ctx.equal(len(A.log) - start, 2 * b, "hpp.products",
                             "products for the subspace"):
                return
            e[3], e[4] = check_basis(ctx, A.cols[start:], b, Mf, bd, tol)
            start = len(A.log)
        dist = ctx.pick("rademacher", "normal", None)
        got = est.sample() if dist is None else est.sample(distribution=dist)
        dist = dist or "rademacher"
        want = 1 if e[3] is not None else 2 * b + 1
        if not ctx.equal(len(A.log) - start, want, "hpp.products",
                         f"products of sample {e[5]} with basis dimension {b}"):
            return
        if e[3] is None:
            e[3], e[4] = check_basis(ctx, A.cols[start:start + 2 * b], b, Mf, bd, tol)
        else:
            ctx.ev("hpp.cached")
        e[5] += 1
        Q, tr, w = e[3], e[4], A.cols[-1]
        check_sample(ctx, got, w, Q, tr, Mf, dist, tol)
        rest = Mf - Q @ (Q.T @ Mf)
        if np.abs(rest).max() <= 1e-10 * max(np.abs(Mf).max(), 1e-300):
            ctx.ev("hpp.exact_lowrank")
            ctx.close(np.asarray(got, float), np.asarray(np.trace(Mf)), "hpp.exact",
                      f"sample when rank {rank} is captured by dimension {b}",
                      rtol=max(10 * tol, 1e-8), scale=np.abs(Mf).max() * n)
        if ctx.coin(0.1):
            np.random.seed(ctx.r.randint(0, 2**31))
    if np.abs(Mf).max() > 0:
        ctx.sig(n, how, int(rank), tuple(e[1] for e in ests), tuple(e[5] for e in ests))


def laws(ctx):
    """Law of the projected probes, of basis probes over estimators, and unbiasedness."""
    n = ctx.r.randint(2, 6)
    M, how = matrix(ctx, n, n)
    if np.abs(M).max() == 0:
        M = ctx.np.randn(n, n)
    A = Recorder(M)
    dist = ctx.pick("rademacher", "normal")
    bd = ctx.pick("rademacher", "normal")
    b = ctx.r.randint(1, n - 1)
    T = 1500 if ctx.tier == "quick" else 6000
    est = make(A, b, bd, True)
    got = [est.sample(dist) for _ in range(T)]
    if not ctx.equal(len(A.log), 2 * b + T, "hpp.products", f"products of {T} samples"):
        return
    Q, tr = check_basis(ctx, A.cols[:2 * b], b, M, bd)
    P = np.eye(n) - Q @ Q.T
    W = np.array(A.cols[2 * b:])
    V = []
    for i in ctx.r.sample(range(T), 5):
        check_sample(ctx, got[i], W[i], Q, tr, M, dist)
    for _ in range(6):
        i, j = ctx.r.randrange(n), ctx.r.randrange(n)
        x = W[:, i] * W[:, j]
        if x.std() > 1e-12:
            mc.mean_test(ctx, x, P[i, j], "hpp.law", f"second moment of probe entries {i}, {j}")
        if W[:, i].std() > 1e-12:
            mc.mean_test(ctx, W[:, i], 0.0, "hpp.law", f"mean of probe entry {i}")
    for lag in (1, 2):
        mc.mean_test(ctx, (W[lag:] * W[:-lag]).sum(1), 0.0, "hpp.fresh",
                     f"product with probe {lag} samples ago")
    if dist == "rademacher":
        tab = np.array(list(itertools.product((-1.0, 1.0), repeat=n)))
        img = tab @ P
        d = np.abs(img[:, None] - img[None]).max(-1) + 9 * np.eye(len(img))
        if d.min() > 1e-6:  # projection is injective on the probes
            V = tab[np.abs(W[:, None] - img[None]).max(-1).argmin(1)]
            stats.law(ctx, V, dist, "hpp.probe")
    else:
        u = P @ ctx.np.randn(n)
        u /= np.linalg.norm(u)
        stats.law(ctx, (W @ u)[:, None], "normal", "hpp.probe")
    R = np.array(got) - tr
    if R.std() > 1e-9 * np.abs(M).max():
        mc.mean_test(ctx, np.array(got), float(np.trace(M)), "hpp.unbiased", "samples", z=12)
    # basis probes over many estimators
    k = 400
    probes = []
    for _ in range(k):
        A.log.clear()
        make(A, b, bd, True).sample(dist)
        probes += A.cols[:b]
    stats.law(ctx, np.array(probes), bd, "hpp.basis_probe")
    ctx.sig("law", n, b, dist, bd, how, ctx.idx)


def reject(ctx):
    from curvlinops.trace.meyer2020hutch import HutchPPTraceEstimator as H

    m, n = ctx.r.randint(1, 6), ctx.r.randint(1, 6)
    M, _ = matrix(ctx, m, n)
    A = Recorder(M) if ctx.coin() else M
    if m != n:
        ctx.raises(ValueError, lambda: H(A, basis_dim=1), "hpp.reject", f"{m}x{n}")
        return
    ctx.raises(ValueError, lambda: H(A, basis_dim=n + ctx.pick(1, 2, 100)), "hpp.reject",
               f"basis larger than {n}")
    est = H(A, basis_dim=ctx.r.randint(1, n))
    if ctx.coin():
        est.sample()
    for bad in ("Rademacher", "uniform"):
        ctx.raises(ValueError, lambda: est.sample(distribution=bad), "hpp.reject",
                   f"distribution {bad!r}")
    ctx.true(np.isfinite(est.sample()), "hpp.formula", "sample after a rejection")

    def bad_basis():
        return H(A, basis_dim=1, basis_distribution="uniform").sample()

    ctx.raises(ValueError, bad_basis, "hpp.reject", "basis distribution")


def curvature(ctx):
    o = ops.random_op(ctx, kinds=("hessian", "ggn", "ef", "kfac"), dtype=torch.float64)
    S = o.make().to_scipy(dtype=np.float64)
    M = S @ np.eye(S.shape[1])
    n = len(M)
    W = Wrapped(S)
    b = ctx.r.randint(1, n)
    bd = ctx.pick("rademacher", "normal")
    est = make(W, b, bd, True)
    Q = None
    for t in range(3):
        d = ctx.pick("rademacher", "normal")
        got = est.sample(d)
        if not ctx.equal(len(W.cols), 2 * b + t + 1, "hpp.products", "products"):
            return
        if Q is None:
            Q, tr = check_basis(ctx, W.cols[:2 * b], b, M, bd, noise=1e-8)
        check_sample(ctx, got, W.cols[-1], Q, tr, M, d)
    ctx.ev("hpp.curvature")
    if np.abs(M).max() > 0:
        ctx.sig("curv", o.kind, o.p.arch, o.p.loss_name, n, b)


def ndarray_(ctx):
    """Matrices that cannot be recorded: exactness for captured range."""
    n = ctx.r.randint(1, 8)
    k = ctx.r.randint(1, n)
    M = ctx.np.randn(n, k) @ ctx.np.randn(k, n)
    A = ctx.pick(lambda: M, lambda: aslinearoperator(M), lambda: csr_matrix(M))()
    est = make(A, ctx.r.randint(k, n), "normal", True)
    for _ in range(3):
        ctx.ev("hpp.ndarray")
        ctx.close(np.asarray(est.sample(ctx.pick("rademacher", "normal"))),
                  np.asarray(np.trace(M)), "hpp.exact",
                  f"rank {k} of dimension {n}, {type(A).__name__}", rtol=1e-7,
                  scale=np.abs(M).max() * n)
    ctx.sig("nd", n, k, type(A).__name__)


def default(ctx):
    from curvlinops.trace.meyer2020hutch import HutchPPTraceEstimator as H

    n = ctx.pick(1, 5, 99, 199, 250, 640, 999, 1500)
    M = np.diag(ctx.np.randn(n))
    A = Recorder(M)
    H(A).sample()
    b = min(10, max(n // 100, 1))
    ctx.ev("hpp.default_dim")
    ctx.equal(len(A.log), 2 * b + 1, "hpp.products", f"products with default basis, d={n}")
    ctx.sig("default", n)
