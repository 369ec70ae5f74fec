"""C18 CG, LSMR and Neumann inverses against dense solutions and reference iterates."""
import numpy as np
import torch
from scipy.sparse.linalg import aslinearoperator, lsmr
from vf import ops
from vf.rec import Recorder, layout

LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 30000}
MUST = ["cg.solved", "cg.default", "cg.iterates", "cg.callback", "cg.precond", "cg.x0",
        "lsmr.solved", "lsmr.default", "lsmr.damped", "lsmr.rect", "lsmr.maxiter", "lsmr.x0",
        "neumann.series", "neumann.nan_raised", "neumann.nan_kept", "inv.matrix",
        "inv.reconfigured", "inv.two_operators", "inv.curvature", "oracle.unmodified",
        "cg.small_rhs", "neumann.converged", "neumann.nan_onset", "neumann.no_nan",
        "lsmr.conlim", "lsmr.conlim_off"]
RULE = (
    "Random SPD / general / rectangular / ill-scaled matrices (recording operators, exported "
    "curvature plus damping) x histories of 2-6 (re-)configurations and products on one or "
    "two interleaved inverse operators; residual and optimality conditions at the configured "
    "tolerances, iteration-limited results against dense Krylov references, the exact "
    "truncated Neumann series; non-trivial always."
)


# ------------------------------------------------------------------------- references
def ref_cg(A, b, x0, M, k, stop):
    """Conjugate gradients: list of iterates until ||r|| < stop or k iterations."""
    x = np.zeros_like(b) if x0 is None else x0.astype(float).copy()
    r = b - A @ x
    xs, p, rho = [x.copy()], None, None
    for _ in range(k):
        if np.linalg.norm(r) < stop:
            break
        z = r if M is None else M @ r
        rn = r @ z
        p = z.copy() if p is None else z + rn / rho * p
        rho = rn
        q = A @ p
        a = rho / (p @ q)
        x = x + a * p
        r = r - a * q
        xs.append(x.copy())
    return xs


def ref_lsmr(A, b, damp, k, x0):
    """argmin of ||A^T r - damp^2 dx|| over the k-dim. Krylov space (full: damped solution)."""
    n = A.shape[1]
    x0 = np.zeros(n) if x0 is None else x0
    N = A.T @ A + damp**2 * np.eye(n)
    g = A.T @ (b - A @ x0)
    if np.linalg.norm(g) == 0:
        return x0
    V = [g / np.linalg.norm(g)]
    for _ in range(k - 1):
        w = N @ V[-1]
        s = np.linalg.norm(w)
        for _ in range(2):
            for u in V:
                w = w - (u @ w) * u
        if np.linalg.norm(w) < 1e-7 * s:
            break
        V.append(w / np.linalg.norm(w))
    V = np.array(V).T
    c = np.linalg.lstsq(N @ V, g, rcond=None)[0]
    return x0 + V @ c


def spd(ctx, n, cond):
    Q = np.linalg.qr(ctx.np.randn(n, n))[0]
    lam = np.exp(ctx.np.rand(n) * np.log(cond))
    if ctx.coin(0.2):
        lam = np.round(lam) + 1  # clustered spectrum
    A = Q @ np.diag(lam) @ Q.T * ctx.pick(1.0, 1.0, 1e-3, 1e3)
    return (A + A.T) / 2


def rhs(ctx, n, cols=None):
    b = ctx.np.randn(n) if cols is None else ctx.np.randn(n, cols)
    return b * ctx.pick(1.0, 1.0, 1.0, 1e-7, 1e4)


def operands(ctx, n):
    """(operand, list of columns)"""
    how = ctx.pick("vec", "vec", "col", "mat", "mat", "colvec")
    if how == "vec":
        x = layout(ctx, rhs(ctx, n))
    elif how in ("col", "colvec"):
        x = rhs(ctx, n, 1)
    else:
        x = layout(ctx, rhs(ctx, n, ctx.r.randint(2, 3)))
        ctx.ev("inv.matrix")
    if ctx.coin(0.1):
        x = np.rint(3 * x / max(np.abs(x).max(), 1e-300)).astype(ctx.pick(np.int64, np.float32))
    return x, how


def apply(ctx, inv, x, how):
    keep = x.copy()
    if how == "vec":
        y = ctx.pick(lambda: inv @ x, lambda: inv.matvec(x), lambda: inv.dot(x))()
    elif how == "colvec":
        y = inv.matvec(x)
    else:
        y = ctx.pick(lambda: inv @ x, lambda: inv.matmat(x))()
    ctx.ev("oracle.unmodified")
    ctx.same(x.copy(), keep, "inv.operand", "operand")
    ctx.equal(tuple(y.shape), (inv.shape[0],) + tuple(x.shape[1:]), "inv.shape",
              f"{how} result")
    return y


def columns(x):
    return [x] if x.ndim == 1 else [x[:, j] for j in range(x.shape[1])]


# ------------------------------------------------------------------------- CG
def cg_config(ctx, n, A):
    kw = {}
    if ctx.coin(0.6):
        kw["tol"] = ctx.pick(1e-2, 1e-5, 1e-9, 1e-12)
    if ctx.coin(0.3):
        kw["atol"] = ctx.pick(0.0, 1e-3, 1e-8, 1e-1)
    if ctx.coin(0.35):
        kw["maxiter"] = ctx.r.randint(1, 5)
    if ctx.coin(0.3):
        ctx.ev("cg.x0")
        kw["x0"] = ctx.np.randn(n)
    if ctx.coin(0.3):
        ctx.ev("cg.precond")
        D = np.diag(1 / np.diag(A) * (0.5 + ctx.np.rand(n)))
        kw["M"] = ctx.pick(D, aslinearoperator(D))
        kw["_M"] = D
    if ctx.coin(0.4):
        ctx.ev("cg.callback")
        kw["_log"] = log = []
        kw["callback"] = lambda xk: log.append(np.array(xk))
    return kw


def cg_case(ctx):
    from curvlinops import CGInverseLinearOperator as CG

    n = ctx.r.randint(1, 10)
    A = spd(ctx, n, ctx.pick(3.0, 100.0, 1e4))
    low = ctx.coin(0.15) and np.linalg.cond(A) < 1e3
    if low:
        A = A.astype(np.float32).astype(float)
    op = Recorder(A.astype(np.float32) if low else A)
    insts = [[CG(op), {}]]
    if ctx.coin(0.4):
        insts.append([CG(op), {}])
        ctx.ev("inv.two_operators")
    for _ in range(ctx.r.randint(2, 5)):
        e = ctx.pick(*insts)
        if ctx.coin(0.6):
            e[1] = cg_config(ctx, n, A)
            e[0].set_cg_hyperparameters(**{k: v for k, v in e[1].items() if k[0] != "_"})
            ctx.ev("inv.reconfigured")
        inv, kw = e
        for _ in range(ctx.pick(1, 1, 2)):
            cg_product(ctx, inv, kw, A, op, n)
    ctx.sig("cg", n, len(insts), ctx.idx)


def cg_product(ctx, inv, kw, A, op, n):
    x, how = operands(ctx, n)
    if op.dtype == np.float32 and x.dtype == np.float32:
        x = x.astype(float)  # otherwise everything is computed in single precision
    x0k = kw["x0"].copy() if "x0" in kw else None
    log = kw.get("_log")
    if log is not None:
        log.clear()
    y = apply(ctx, inv, x, how)
    if x0k is not None:
        ctx.same(kw["x0"], x0k, "cg.x0", "starting point")
    tol, atol = kw.get("tol", 1e-5), kw.get("atol", 0.0)
    M, maxiter = kw.get("_M"), kw.get("maxiter")
    if not kw:
        ctx.ev("cg.default")
    eps = 1e-13 * np.linalg.cond(A) ** 0.5 * 10
    n_cb = 0
    for b, got in zip(columns(x.astype(float)), columns(y)):
        nb = np.linalg.norm(b)
        if nb < 1e-5:
            ctx.ev("cg.small_rhs")
        if nb == 0:
            ctx.close(got, 0 * b, "cg.solution", "zero right-hand side")
            continue
        stop = max(atol, tol * nb)
        xs = ref_cg(A, b, kw.get("x0"), M, maxiter or 10 * n, stop)
        scale = max(np.abs(t).max() for t in xs) + 1e-300
        x0n = np.linalg.norm(A, 2) * (np.linalg.norm(kw["x0"]) if "x0" in kw else 0)
        res = np.linalg.norm(b - A @ got)
        # rounding of the recursively updated residual
        slack = 1e3 * np.finfo(float).eps * (nb + x0n + np.linalg.norm(A, 2) * scale)
        what = f"CG {sorted(k for k in kw if k[0] != '_')} tol={tol} atol={atol} n={n} |b|={nb:.1e}"
        done = np.linalg.norm(b - A @ xs[-1]) < stop
        if maxiter is None:
            ctx.ev("cg.solved")
            ctx.true(res <= stop * 1.001 + slack, "cg.residual",
                     f"{what}: residual {res:.2e} > {stop:.2e}")
        if len(xs) <= 6 and np.linalg.cond(A) < 1e3 and stop > 1e-11 * (nb + x0n):
            # few iterations: iterates are reproducible
            ctx.ev("cg.iterates")
            near = [t for t in xs[-2:] if np.linalg.norm(got - t) <= 1e-6 * scale * n + eps]
            marginal = len(xs) > 1 and abs(
                np.linalg.norm(b - A @ xs[-2]) - stop) < 1e-6 * stop
            ok = np.linalg.norm(got - xs[-1]) <= 1e-6 * scale * n + eps
            if not done and len(xs) - 1 == maxiter or done:
                ctx.true(ok or (marginal and near), "cg.iterate",
                         f"{what}: result is not iterate {len(xs) - 1} of CG")
            if log is not None:
                mine = log[n_cb:n_cb + len(xs) - 1]
                n_cb += len(xs) - 1
                if not marginal and np.ndim(x) == 1 or x.shape[1] == 1:
                    ctx.equal(len(log), len(xs) - 1, "cg.callback", f"{what}: callback calls")
                    for t, u in zip(mine, xs[1:]):
                        ctx.close(t.reshape(-1), u, "cg.callback",
                                  f"{what}: callback argument", rtol=1e-5, scale=scale)
        elif log is not None and len(xs) > 2:
            ctx.true(len(log) > 0, "cg.callback", f"{what}: callback not called")


# ------------------------------------------------------------------------- LSMR
def lsmr_config(ctx, n, m, cond):
    kw = {}
    if ctx.coin(0.5):
        t = ctx.pick(1e-3, 1e-8, 1e-12)
        kw["atol"], kw["btol"] = t, ctx.pick(t, 1e-6)
        if ctx.coin(0.7):
            kw["maxiter"] = 60
    if ctx.coin(0.4):
        ctx.ev("lsmr.damped")
        kw["damp"] = ctx.pick(1e-2, 0.3, 3.0)
    if ctx.coin(0.3) and "maxiter" not in kw:
        kw["maxiter"] = ctx.r.randint(1, 4)
    if ctx.coin(0.25):
        ctx.ev("lsmr.x0")
        kw["x0"] = ctx.np.randn(n)
    if ctx.coin(0.2):
        kw["conlim"] = ctx.pick(1e12, 1e10)
    if ctx.coin(0.1):
        kw["show"] = False
    return kw


def lsmr_case(ctx):
    from curvlinops import LSMRInverseLinearOperator as L

    m = ctx.r.randint(1, 9)
    n = ctx.pick(m, m, ctx.r.randint(1, 9))
    ctx.ev("lsmr.rect", m != n)
    k = min(m, n)
    U = np.linalg.qr(ctx.np.randn(m, k))[0]
    V = np.linalg.qr(ctx.np.randn(n, k))[0]
    cond = ctx.pick(2.0, 10.0)
    A = U @ np.diag(np.exp(ctx.np.rand(k) * np.log(cond))) @ V.T
    A = A * ctx.pick(1.0, 1.0, 1e-2, 1e2)
    op = Recorder(A)
    insts = [[L(op), {}]]
    if ctx.coin(0.4):
        insts.append([L(op), {}])
        ctx.ev("inv.two_operators")
    ctx.equal(tuple(insts[0][0].shape), (n, m), "lsmr.shape", f"inverse of a {m}x{n} operator")
    for _ in range(ctx.r.randint(2, 5)):
        e = ctx.pick(*insts)
        if ctx.coin(0.6):
            e[1] = lsmr_config(ctx, n, m, cond)
            e[0].set_lsmr_hyperparameters(**e[1])
            ctx.ev("inv.reconfigured")
        inv, kw = e
        x, how = operands(ctx, m)
        if how == "colvec":
            how = "col"
        if x.dtype == np.float32:
            x = x.astype(float)  # SciPy's LSMR computes in the operand's precision
        x0k = kw["x0"].copy() if "x0" in kw else None
        info = None
        if ctx.coin(0.25) and x.ndim == 1:
            info = inv.matvec_with_info(x)
            y = info[0]
        else:
            y = apply(ctx, inv, x, how)
        if x0k is not None:
            ctx.same(kw["x0"], x0k, "lsmr.x0", "starting point")
        for b, got in zip(columns(x.astype(float)), columns(y)):
            lsmr_check(ctx, A, b, got, kw, info, m, n)
    if ctx.coin(0.2):
        lsmr_limit(ctx, L)
    ctx.sig("lsmr", m, n, len(insts), ctx.idx)


def lsmr_limit(ctx, L):
    """The condition-number limit stops ill-conditioned problems when, and only when, asked to."""
    n = ctx.r.randint(10, 25)
    U, V = (np.linalg.qr(ctx.np.randn(n, n))[0] for _ in range(2))
    op = Recorder(U @ np.diag(np.logspace(0, -ctx.pick(6, 12), n)) @ V.T)
    b = ctx.np.randn(n)
    kw = {"atol": 0.0, "btol": 0.0, "maxiter": ctx.pick(200, 400),
          "conlim": ctx.pick(0, 0.0, 10.0, 1e3)}
    inv = L(op)
    inv.set_lsmr_hyperparameters(**kw)
    got, want = inv.matvec_with_info(b), lsmr(op, b, **kw)
    ctx.ev("lsmr.conlim" if kw["conlim"] else "lsmr.conlim_off")
    what = f"LSMR {kw} n={n}"
    ctx.equal(got[1], want[1], "lsmr.conlim", f"{what}: reason for stopping")
    ctx.true(abs(got[2] - want[2]) <= 2, "lsmr.conlim",
             f"{what}: {got[2]} iterations instead of {want[2]}")
    if kw["conlim"]:
        ctx.close(got[0], want[0], "lsmr.conlim", f"{what}: solution", rtol=1e-3)


def lsmr_check(ctx, A, b, got, kw, info, m, n):
    damp, x0 = kw.get("damp", 0.0), kw.get("x0")
    atol, btol = kw.get("atol", 1e-6), kw.get("btol", 1e-6)
    z = np.zeros(n) if x0 is None else x0
    b1 = b - A @ z  # the update solves the damped problem
    dx = got - z
    B = np.vstack([A, damp * np.eye(n)])
    r = np.concatenate([b1, np.zeros(n)]) - B @ dx
    nA = np.linalg.norm(B)
    nr, ng = np.linalg.norm(r), np.linalg.norm(B.T @ r)
    what = f"LSMR {m}x{n} damp={damp} atol={atol} btol={btol} {sorted(kw)}"
    if np.linalg.norm(b) == 0 and x0 is None:
        ctx.close(got, np.zeros(n), "lsmr.solution", "zero right-hand side")
        return
    steps = kw.get("maxiter", min(m, n))
    full = ref_lsmr(A, b, damp, min(m, n), x0)
    s = max(np.abs(full).max(), np.abs(z).max(), 1e-300)
    tiny = 1e-12 * nA * (np.linalg.norm(b) + nA * s)
    if steps >= min(m, n):
        ctx.ev("lsmr.solved")
        ctx.ev("lsmr.default", not kw)
        # one of the two documented stopping conditions (estimates: factor 3)
        c1 = nr <= 3 * (btol * np.linalg.norm(b) + atol * nA * np.linalg.norm(got)) + tiny
        c2 = ng <= 3 * atol * nA * nr + tiny
        # or, without iteration budget beyond min(m, n): finite termination
        g0 = np.linalg.norm(B.T @ np.concatenate([b1, np.zeros(n)]))
        c3 = steps < 60 and ng <= 1e-4 * g0
        ctx.true(c1 or c2 or c3, "lsmr.optimality",
                 f"{what}: residual {nr:.2e}, gradient {ng:.2e} meet no stopping condition")
        if max(atol, btol) <= 1e-8 and steps >= 60 or not kw:
            ctx.close(got, full, "lsmr.solution", f"{what}: least-squares solution",
                      rtol=3e3 * max(atol, btol), scale=s)
    else:
        ctx.ev("lsmr.maxiter")
        if max(atol, btol) <= 1e-6:
            early = [ref_lsmr(A, b, damp, k, x0) for k in range(1, steps + 1)]
            err = min(np.abs(got - e).max() for e in early[-1:])
            conv = min(np.abs(full - e).max() for e in early) < 1e-4 * s
            ctx.true(err <= 1e-5 * s or conv, "lsmr.iterate",
                     f"{what}: result after {steps} iterations is off by {err:.1e}")
    if info is not None:
        ctx.equal(len(info), 8, "lsmr.info", "information tuple")
        ctx.true(info[2] <= steps if "maxiter" in kw else True, "lsmr.maxiter",
                 f"{what}: {info[2]} iterations")


# ------------------------------------------------------------------------- Neumann
def neumann_case(ctx):
    from curvlinops import NeumannInverseLinearOperator as N

    n = ctx.r.randint(1, 8)
    A = ctx.pick(lambda: spd(ctx, n, 10.0), lambda: ctx.np.randn(n, n),
                 lambda: spd(ctx, n, 10.0))()
    low = ctx.coin(0.2)
    if low:  # the operator's own data type does not limit that of the operand
        A = A.astype(np.float32).astype(float)
        ctx.ev("neumann.low_dtype")
    op = Recorder(A.astype(np.float32) if low else A)
    top = np.linalg.norm(A, 2)

    def config():
        kw = {}
        if ctx.coin(0.7):
            kw["num_terms"] = ctx.pick(0, 1, 2, 3, 10, 40)
        if ctx.coin(0.8):
            kw["scale"] = float(ctx.pick(0.3, 0.9, 1.0, 1.9) / top)
        if ctx.coin(0.3):
            kw["check_nan"] = ctx.coin()
        return kw

    kw = config()
    insts = [[N(op, **kw), kw]]
    if ctx.coin(0.4):
        kw = config()
        insts.append([N(op, **kw), kw])
        ctx.ev("inv.two_operators")
    for _ in range(ctx.r.randint(2, 5)):
        e = ctx.pick(*insts)
        if ctx.coin(0.6):
            e[1] = config()
            e[0].set_neumann_hyperparameters(**e[1])
            ctx.ev("inv.reconfigured")
        inv, kw = e
        K, a = kw.get("num_terms", 100), kw.get("scale", 1.0)
        P, S = np.eye(n), np.eye(n)
        with np.errstate(all="ignore"):
            for _ in range(K):
                P = P - a * (A @ P)
                S = S + P
            S = a * S
        x, how = operands(ctx, n)
        if low and x.dtype == np.float32:
            x = x.astype(float)
        if not np.isfinite(S).all() or np.abs(S).max() > 1e200:
            continue
        y = apply(ctx, inv, x, how)
        ctx.ev("neumann.series")
        growth = max(np.abs(S).max(), a)
        ctx.close(y, S @ x.astype(float), "neumann.series",
                  f"{K} terms, scale {a:.2e} ({how}, {x.dtype})",
                  rtol=1e-5 if x.dtype == np.float32 else 1e-8,
                  scale=float(growth * np.abs(x).max()) * n)
        if K == 40 and np.linalg.norm(np.eye(n) - a * A, 2) < 0.5:
            ctx.ev("neumann.converged")
            ctx.close(A @ y, x.astype(float), "neumann.inverse", "A A^-1 x", rtol=1e-6)
    nan_case(ctx, N, n)
    ctx.sig("neumann", n, len(insts), ctx.idx)


def nan_case(ctx, N, n):
    """Diverging series and NaN operators: raise if and only if asked to."""
    A = 1e8 * spd(ctx, n, 3.0)
    if ctx.coin(0.3):
        A[0, 0] = np.nan
    x = 1 + ctx.np.rand(n)
    terms = 100
    for check in (True, False):
        inv = N(Recorder(A), num_terms=terms, scale=1.0, check_nan=check)
        if ctx.coin():
            inv = N(Recorder(A))
            inv.set_neumann_hyperparameters(num_terms=terms, check_nan=check)
        with np.errstate(all="ignore"):
            if check:
                ctx.ev("neumann.nan_raised")
                ctx.raises(ValueError, lambda: inv @ x, "neumann.nan", "diverging series")
            else:
                ctx.ev("neumann.nan_kept")
                y = inv @ x
                ctx.true(np.isnan(y).any(), "neumann.nan", "diverging series without check")
    # the number of terms decides whether NaNs show up: raise if and only if they do
    A = spd(ctx, n, 3.0) * 10.0 ** ctx.r.randint(20, 80)
    for terms in ctx.r.sample(range(1, 24), 6):
        with np.errstate(all="ignore"):
            y = N(Recorder(A), num_terms=terms, check_nan=False) @ x
            inv = N(Recorder(A), num_terms=terms, check_nan=True)
            if np.isnan(y).any():
                ctx.ev("neumann.nan_onset")
                ctx.raises(ValueError, lambda: inv @ x, "neumann.nan",
                           f"NaNs in the result of {terms} terms")
            else:
                ctx.ev("neumann.no_nan")
                ctx.same(inv @ x, y, "neumann.nan", f"series of {terms} terms without NaNs")


# ------------------------------------------------------------------------- curvature
def curvature_case(ctx):
    import curvlinops as C

    o = ops.random_op(ctx, kinds=("ggn", "ef", "kfac"), dtype=torch.float64)
    S = o.make().to_scipy(dtype=np.float64)
    n = S.shape[0]
    M = S @ np.eye(n)
    d = max(np.abs(M).max(), 1e-3) * ctx.pick(0.1, 1.0)
    op = S + aslinearoperator(d * np.eye(n))
    M = M + d * np.eye(n)
    lam = np.linalg.eigvalsh(M)
    if lam[0] <= 0.01 * lam[-1]:
        return  # non-convex losses
    b = ctx.np.randn(n, 2)
    want = np.linalg.solve(M, b)
    ctx.ev("inv.curvature")
    which = ctx.pick("cg", "lsmr", "neumann")
    if which == "cg":
        inv = C.CGInverseLinearOperator(op)
        inv.set_cg_hyperparameters(tol=1e-10)
    elif which == "lsmr":
        inv = C.LSMRInverseLinearOperator(op)
        inv.set_lsmr_hyperparameters(atol=1e-11, btol=1e-11, maxiter=20 * n)
    else:
        top = np.linalg.norm(M, 2)
        inv = C.NeumannInverseLinearOperator(op, scale=1 / top, num_terms=150)
        if np.linalg.cond(M) > 8:
            return
    ctx.close(inv @ b, want, f"{which}.curvature", f"{which} inverse of damped {o.kind}",
              rtol=1e-6)
    ctx.close(inv @ b[:, 0], want[:, 0], f"{which}.curvature",
              f"{which} inverse of damped {o.kind}", rtol=1e-6)
    ctx.sig("curv", which, o.kind, o.p.arch, o.p.loss_name)


def case(ctx):
    mode = ctx.pick("cg", "cg", "cg", "lsmr", "lsmr", "lsmr", "neumann", "neumann",
                    "curvature") if ctx.r.random() < 0.9 else ctx.pick("cg", "lsmr", "neumann")
    ctx.describe(mode=mode)
    {"cg": cg_case, "lsmr": lsmr_case, "neumann": neumann_case,
     "curvature": curvature_case}[mode](ctx)
