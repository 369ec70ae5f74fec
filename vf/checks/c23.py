"""C23 Lanczos spectral densities: recorded start vectors against an own quadrature."""
import inspect
import math

import numpy as np
import torch
from scipy.sparse.linalg import aslinearoperator
from vf import mc, ops, stats
from vf.rec import Recorder, Wrapped

LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 30000}
MUST = ["lan.density", "lan.log", "lan.cached_request", "lan.partial", "lan.estimated",
        "lan.given", "oracle.law", "lan.fast_lanczos", "lan.curvature", "lan.mass",
        "lan.reused", "lan.boundaries"]
RULE = (
    "Random symmetric operators with well-separated spectra of either sign x number of "
    "Lanczos vectors x repeats x grid size x width x margin x epsilon x given/partial/missing "
    "boundaries; one-shot functions and cached variants with random request sequences "
    "(growing/shrinking repeats, caller writing into results); the density is recomputed from "
    "the recorded start vectors with a fully re-orthogonalised Lanczos, products are counted; "
    "non-trivial always."
)


def spectrum(ctx, n):
    """A symmetric matrix with n distinct, well-separated eigenvalues."""
    lam = np.cumsum(0.3 + ctx.np.rand(n))
    lam -= ctx.pick(0.0, lam.mean(), lam[-1] + 0.5, lam[n // 3])
    lam = lam * ctx.pick(1.0, 1.0, 0.05, 30.0)
    Q = np.linalg.qr(ctx.np.randn(n, n))[0]
    M = Q @ np.diag(lam) @ Q.T
    return (M + M.T) / 2, np.sort(lam)


def lanczos(M, v0, ncv):
    """Nodes, weights and the smallest off-diagonal entry of the Lanczos quadrature."""
    V, al, be = [v0 / np.linalg.norm(v0)], [], []
    for m in range(ncv):
        w = M @ V[-1]
        al.append(w @ V[-1])
        for _ in range(2):
            for u in V:
                w = w - (u @ w) * u
        if m < ncv - 1:
            be.append(np.linalg.norm(w))
            V.append(w / be[-1])
    T = np.diag(al) + np.diag(be, 1) + np.diag(be, -1)
    ev, U = np.linalg.eigh(T)
    return ev, U[0] ** 2, min(be) / np.abs(M).max()


def density(runs, lo, hi, P, kappa, margin, eps=None):
    """The documented quadrature: (grid, density)."""
    if eps is not None:
        lo, hi = math.log(lo + eps), math.log(hi + eps)
    pad = margin * (hi - lo)
    lo, hi = lo - pad, hi + pad
    c, d = (hi + lo) / 2, (hi - lo) / 2
    t = np.linspace(-1, 1, P)
    out = np.zeros(P)
    for ev, w in runs:
        x = ev if eps is None else np.log(np.abs(ev) + eps)
        s = 2 / (len(ev) - 1) / math.sqrt(8 * math.log(kappa))
        for node, weight in zip((x - c) / d, w):
            out += weight * np.exp(-0.5 * ((t - node) / s) ** 2) / (s * math.sqrt(2 * math.pi))
    out /= len(runs)
    if eps is None:
        return t * d + c, out / d
    grid = np.exp(t * d + c)
    return grid, out / (d * grid)


def api():
    from curvlinops.papyan2020traces import spectrum as s

    return s


def options(ctx, log, cached):
    """Request arguments, some left at their documented defaults, and effective values."""
    full = dict(num_points=1024, num_repeats=1, kappa=1.04 if log and not cached else 3.0,
                margin=0.05)
    if log:
        full["epsilon"] = 1e-5
    kw = {}
    if ctx.coin(0.85):
        kw["num_points"] = ctx.pick(1, 2, 17, 50, 200)
    if ctx.coin(0.8):
        kw["num_repeats"] = ctx.pick(1, 2, 3, 5)
    if ctx.coin(0.7):
        kw["kappa"] = ctx.pick(1.01, 1.04, 1.5, 3.0, 10.0)
    if ctx.coin(0.7):
        kw["margin"] = ctx.pick(0.0, 0.01, 0.05, 0.3)
    if log and ctx.coin(0.7):
        kw["epsilon"] = ctx.pick(1e-8, 1e-5, 1e-2, 0.3)
    return kw, {**full, **kw}


def bounds(ctx, lam, log):
    """Boundary argument and the given parts."""
    a = np.abs(lam)
    lo, hi = (a.min(), a.max()) if log else (lam.min(), lam.max())
    w = hi - lo
    f = lambda x: float(x) if ctx.coin() else np.float64(x)  # noqa: E731
    glo = f(lo + ctx.pick(0.0, -0.1, 0.2) * w * (not log) + (0.1 * lo * log))
    ghi = f(hi + ctx.pick(0.0, 0.1, -0.2) * w)
    how = ctx.pick("both", "both", "both", "none", "lo", "hi", "tuple-none")
    arg = {"both": (glo, ghi), "none": None, "lo": (glo, None), "hi": (None, ghi),
           "tuple-none": (None, None)}[how]
    if how == "both":
        ctx.ev("lan.given")
    elif how in ("lo", "hi"):
        ctx.ev("lan.partial")
    else:
        ctx.ev("lan.estimated")
    return arg, how, (lo, hi)


def ends(ctx, grid, margin, log, eps, arg, true, tol, what):
    """Boundaries in force, from the grid's ends; given parts exact, others accurate."""
    x = np.log(grid) if log else grid
    w = (x[-1] - x[0]) / (1 + 2 * margin)
    lo, hi = x[0] + margin * w, x[-1] - margin * w
    if log:
        lo, hi = math.exp(lo) - eps, math.exp(hi) - eps
    ctx.ev("lan.boundaries")
    given = arg or (None, None)
    s = max(abs(true[0]), abs(true[1]))
    for got, g, t, name in zip((lo, hi), given, true, ("lower", "upper")):
        if g is not None:
            ctx.close(np.asarray(got), np.asarray(float(g)), "lan.given",
                      f"{what}: given {name} boundary", rtol=1e-8, scale=s + eps)
        else:
            ctx.close(np.asarray(got), np.asarray(t), "lan.estimated",
                      f"{what}: estimated {name} boundary", rtol=max(2 * tol, 1e-7),
                      scale=s)
    return lo, hi


def compare(ctx, grid, dens, runs, lo, hi, o, log, what, cover, rtol=1e-6):
    P = o["num_points"]
    eps = o.get("epsilon")
    g, d = density(runs, lo, hi, P, o["kappa"], o["margin"], eps)
    ctx.ev("lan.log" if log else "lan.density")
    ctx.equal(np.shape(grid), (P,), "lan.grid", f"{what}: grid")
    ctx.close(grid, g, "lan.grid", f"{what}: grid", rtol=1e-8)
    if log:  # compare in log-space: sizes of grid points differ by orders of magnitude
        ctx.close(dens * grid, d * g, "lan.formula", f"{what}: density", rtol=rtol,
                  scale=1e-3)
    else:
        ctx.close(dens, d, "lan.formula", f"{what}: density", rtol=rtol, scale=1e-6)
    ctx.true(bool((dens >= 0).all()), "lan.nonnegative", f"{what}: min {dens.min()}")
    sig = 2 / (len(runs[0][0]) - 1) / math.sqrt(8 * math.log(o["kappa"]))
    if P >= 200 and sig > 0.03 and cover:
        x, y = (np.log(grid), dens * grid) if log else (grid, dens)
        mass = float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
        ctx.ev("lan.mass")
        lost = 1.0 if sig > 0.15 or o["margin"] < 0.02 else 0.6
        ctx.true(1 - lost <= mass <= 1.02, "lan.mass", f"{what}: density integrates to {mass}")


def split(ctx, cols, ncv, R, start=0):
    """Start vectors of the last R Lanczos runs among the recorded products."""
    return [cols[len(cols) - R * ncv + r * ncv] for r in range(R)]


def run_refs(ctx, M, starts, ncv):
    runs, worst = [], 1.0
    for v in starts:
        ctx.close(np.asarray(np.linalg.norm(v)), np.asarray(1.0), "lan.start",
                  "norm of a Lanczos start vector", rtol=1e-10)
        ev, w, b = lanczos(M, v, ncv)
        worst = min(worst, b)
        runs.append((ev, w))
    return runs, worst


def case(ctx):
    mode = ctx.pick("oneshot", "oneshot", "cached", "cached", "law", "fast", "curvature",
                    "bounds")
    ctx.describe(mode=mode)
    {"oneshot": oneshot, "cached": cached, "law": law, "fast": fast,
     "curvature": curvature, "bounds": boundaries}[mode](ctx)


def oneshot(ctx):
    s = api()
    log = ctx.coin()
    ncv = ctx.r.randint(2, 7)
    n = ncv + ctx.r.randint(2, 8)
    M, lam = spectrum(ctx, n)
    A = Recorder(M)
    arg, how, true = bounds(ctx, lam, log)
    kw, o = options(ctx, log, False)
    tol = ctx.pick(None, 1e-1, 1e-2, 1e-8)
    if tol is not None:
        kw["boundaries_tol"] = tol
    fn = s.lanczos_approximate_log_spectrum if log else s.lanczos_approximate_spectrum
    ctx.describe(fn=fn.__name__, n=n, ncv=ncv, bounds=how, **kw)
    if arg is None and ctx.coin():
        grid, dens = fn(A, ncv, **kw)
    else:
        grid, dens = fn(A, ncv, boundaries=arg, **kw)
    R = o["num_repeats"]
    if how == "both":
        ctx.equal(len(A.log), R * ncv, "lan.products", "products with known boundaries")
    elif not ctx.true(len(A.log) > R * ncv, "lan.products", "products with unknown boundary"):
        return
    check_one(ctx, A, M, lam, grid, dens, ncv, R, o, log, arg, true, tol or 1e-2, fn.__name__)
    ctx.sig(fn.__name__, n, ncv, how, R, o["num_points"], o["kappa"], o["margin"])


def check_one(ctx, A, M, lam, grid, dens, ncv, R, o, log, arg, true, tol, what,
              starts=None):
    if len(A.cols) < R * ncv:
        return
    starts = starts or split(ctx, A.cols, ncv, R)
    runs, worst = run_refs(ctx, M, starts, ncv)
    if worst < 1e-4:
        return  # near-breakdown of the recurrence
    if len(starts) > 1:
        stats.distinct(ctx, starts, "lan")
    eps = o.get("epsilon", 0.0)
    if o["num_points"] > 1:
        lo, hi = ends(ctx, grid, o["margin"], log, eps, arg, true, tol, what)
    elif arg and None not in arg:
        lo, hi = arg
    else:
        return
    if arg:  # exact where given
        lo = arg[0] if arg[0] is not None else lo
        hi = arg[1] if arg[1] is not None else hi
    cover = lo <= true[0] + 1e-9 and hi >= true[1] - 1e-9 and not log
    compare(ctx, grid, dens, runs, lo, hi, o, log, what, cover)


def cached(ctx):
    s = api()
    log = ctx.coin()
    ncv = ctx.r.randint(2, 6)
    n = ncv + ctx.r.randint(2, 8)
    M, lam = spectrum(ctx, n)
    A = Recorder(M)
    arg, how, true = bounds(ctx, lam, log)
    cls = s.LanczosApproximateLogSpectrumCached if log else s.LanczosApproximateSpectrumCached
    tol = ctx.pick(None, 1e-2, 1e-8)
    kw = {} if tol is None else {"boundaries_tol": tol}
    c = cls(A, ncv, **({} if arg is None and ctx.coin() else {"boundaries": arg}), **kw)
    ctx.describe(cls=cls.__name__, n=n, ncv=ncv, bounds=how)
    used = len(A.log)
    if how == "both":
        ctx.equal(used, 0, "lan.products", "products at construction, known boundaries")
    else:
        ctx.true(used > 0 or how == "tuple-none", "lan.products", "boundaries estimated")
    starts, asked = [], []
    base = used
    for t in range(ctx.r.randint(2, 6)):
        kw, o = options(ctx, log, True)
        R = o["num_repeats"]
        before = len(A.log)
        f = c.approximate_log_spectrum if log else c.approximate_spectrum
        grid, dens = f(**kw)
        ctx.ev("lan.cached_request")
        need = max(0, R - len(starts)) * ncv
        if not ctx.equal(len(A.log) - before, need, "lan.products",
                         f"products for {R} repeats with {len(starts)} cached"):
            return
        ctx.ev("lan.reused", need == 0)
        if need:
            starts += split(ctx, A.cols, ncv, need // ncv)
        check_one(ctx, A, M, lam, grid, dens, ncv, R, o, log, arg, true, tol or 1e-2,
                  cls.__name__, starts[:R])
        asked.append(R)
        if ctx.coin(0.5):  # results belong to the caller
            grid[...] = np.nan
            dens[...] = np.nan
        if ctx.coin(0.15):
            np.random.seed(ctx.r.randint(0, 2**31))
    ctx.sig(cls.__name__, n, ncv, how, tuple(asked), base)


def law(ctx):
    """Start vectors are uniform on the sphere, independent between runs and calls."""
    s = api()
    ncv = 2
    n = ctx.r.randint(4, 7)
    M, lam = spectrum(ctx, n)
    A = Recorder(M)
    R = 400 if ctx.tier == "quick" else 2000
    log = ctx.coin()
    a = np.abs(lam)
    b = (a.min() + 1e-3, a.max()) if log else (lam.min(), lam.max())
    fn = s.lanczos_approximate_log_spectrum if log else s.lanczos_approximate_spectrum
    how = ctx.pick("repeats", "calls", "cached")
    if how == "repeats":
        fn(A, ncv, num_points=3, num_repeats=R, boundaries=b)
    elif how == "calls":
        for _ in range(R):
            fn(A, ncv, num_points=3, boundaries=b)
    else:
        cls = s.LanczosApproximateLogSpectrumCached if log else s.LanczosApproximateSpectrumCached
        c = cls(A, ncv, boundaries=b)
        g = c.approximate_log_spectrum if log else c.approximate_spectrum
        for r in range(1, R + 1, 7):
            g(num_repeats=r, num_points=3)
        R = r
    if not ctx.equal(len(A.log), R * ncv, "lan.products", f"products for {R} runs"):
        return
    V = np.array(split(ctx, A.cols, ncv, R))
    ctx.ev("oracle.law")
    stats.distinct(ctx, list(V), "lan")
    for i in range(n):
        mc.mean_test(ctx, V[:, i], 0.0, "lan.law", f"start entry {i}")
        mc.mean_test(ctx, V[:, i] ** 2, 1 / n, "lan.law", f"squared start entry {i}")
    mc.mean_test(ctx, (V**4).ravel(), 3 / (n * (n + 2)), "lan.law", "fourth powers")
    for i, j in ((0, 1), (1, n - 1), (0, n - 1)):
        mc.mean_test(ctx, V[:, i] * V[:, j], 0.0, "lan.law", f"start entries {i}, {j}")
    for lag in (1, 2):
        mc.mean_test(ctx, (V[lag:] * V[:-lag]).sum(1), 0.0, "lan.fresh",
                     f"product with the start vector {lag} runs ago")
    ctx.sig("law", how, log, n, ctx.idx)


def fast(ctx):
    """The recurrence itself: Ritz values, eigenvectors, both eigensolvers."""
    s = api()
    ncv = ctx.r.randint(2, 8)
    n = ncv + ctx.r.randint(0, 8)
    M, lam = spectrum(ctx, n)
    A = Recorder(M)
    kw = ctx.pick({}, {"use_eigh_tridiagonal": True}, {"use_eigh_tridiagonal": False})
    ev, U = s.fast_lanczos(A, ncv, **kw)
    ctx.ev("lan.fast_lanczos")
    ctx.equal(len(A.log), ncv, "lan.products", "products of one Lanczos run")
    runs, worst = run_refs(ctx, M, A.cols[:1], ncv)
    if worst < 1e-4:
        return
    (want, w) = runs[0]
    U = np.asarray(U)
    o = np.argsort(ev)
    ctx.close(np.asarray(ev)[o], want, "lan.ritz", "Ritz values", rtol=1e-6)
    ctx.close(U[0, o] ** 2, w, "lan.weights", "quadrature weights", rtol=1e-5)
    ctx.close(U.T @ U, np.eye(ncv), "lan.evecs", "eigenvectors orthonormal", rtol=1e-8)
    if n == ncv:
        ctx.close(want, lam, "lan.ritz", "full Krylov space", rtol=1e-6)
    ctx.sig("fast", ncv, n, str(kw))


def boundaries(ctx):
    """Boundary estimation alone, larger operators, partial boundaries, accuracy."""
    s = api()
    n = ctx.r.randint(4, 60)
    M, lam = spectrum(ctx, n)
    log = ctx.coin()
    if log:
        tol = ctx.pick(1e-2, 1e-4) if n <= 20 else None
        if tol is None:
            n = 18
            M, lam = spectrum(ctx, n)
            tol = 1e-6
    else:
        tol = ctx.pick(0.0, 1e-2, 1e-6)
    A = Recorder(M)
    arg, how, true = bounds(ctx, lam, log)
    fn = s.approximate_boundaries_abs if log else s.approximate_boundaries
    lo, hi = fn(A, tol=tol, boundaries=arg)
    ctx.ev("lan.boundaries")
    sc = np.abs(lam).max()
    for got, g, t, name in zip((lo, hi), arg or (None, None), true, ("lower", "upper")):
        if g is not None:
            ctx.equal(float(got), abs(float(g)) if log else float(g), "lan.given",
                      f"given {name} boundary")
        else:
            ctx.close(np.asarray(float(got)), np.asarray(t), "lan.estimated",
                      f"{name} boundary, n={n}", rtol=max(2 * tol, 1e-8), scale=sc)
    if how == "both":
        ctx.equal(len(A.log), 0, "lan.products", "products with known boundaries")
    ctx.sig("bounds", n, log, how, tol)


def curvature(ctx):
    """Real curvature operators exported to SciPy (shifted to separate the spectrum)."""
    s = api()
    o = ops.random_op(ctx, kinds=("hessian", "ggn", "kfac"), dtype=torch.float64)
    S = o.make().to_scipy(dtype=np.float64)
    n = S.shape[0]
    if n < 6:
        return
    D = np.diag(np.linspace(0.0, 2.0, n) ** 2)
    M = S @ np.eye(n) + D
    M = (M + M.T) / 2
    lam = np.linalg.eigvalsh(M)
    W = Wrapped(S + aslinearoperator(D))
    ncv = ctx.r.randint(2, min(6, n - 2))
    log = ctx.coin()
    a = np.abs(lam)
    arg = (a.min(), a.max()) if log else (lam[0], lam[-1])
    arg = (float(arg[0]), float(arg[1]))
    kw, op = options(ctx, log, False)
    fn = s.lanczos_approximate_log_spectrum if log else s.lanczos_approximate_spectrum
    grid, dens = fn(W, ncv, boundaries=arg, **kw)
    R = op["num_repeats"]
    if not ctx.equal(len(W.cols), R * ncv, "lan.products", "products with curvature"):
        return
    starts = split(ctx, W.cols, ncv, R)
    runs, worst = run_refs(ctx, M, starts, ncv)
    if worst < 1e-3:
        return
    ctx.ev("lan.curvature")
    compare(ctx, grid, dens, runs, *arg, op, log, f"{fn.__name__} of {o.kind}", not log,
            rtol=1e-5)
    ctx.sig("curv", o.kind, o.p.arch, ncv, R, log)
