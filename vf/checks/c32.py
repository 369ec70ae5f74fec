"""C32 Omitted optional arguments take their documented defaults (metamorphic oracle)."""
import contextlib
import io
import warnings

import numpy as np
import torch
from torch import nn
from torch.utils._python_dispatch import TorchDispatchMode

from vf import gen, kfac, ops
from vf.checks import c16
from vf.monitor import DataLog
from vf.rec import Recorder

LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 60000}
TARGETS = ["hessian", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfac_load", "act",
           "inverse", "retry", "cg", "lsmr", "neumann", "set_neumann", "trace", "diag",
           "norm", "hpp", "spectrum", "logspectrum", "cached", "cachedlog", "fast",
           "tensor", "array", "export"]
MUST = [f"default.{t}" for t in TARGETS] + [
    "matters.progressbar", "matters.check_deterministic", "matters.seed", "matters.mc_samples",
    "matters.fisher_type", "matters.kfac_approx", "matters.separate_weight_and_bias",
    "matters.damping", "matters.use_heuristic_damping", "matters.min_damping",
    "matters.use_exact_damping", "matters.cache", "matters.retry_double_precision",
    "matters.tol", "matters.atol", "matters.maxiter", "matters.x0", "matters.damp",
    "matters.btol", "matters.conlim", "matters.show", "matters.num_terms", "matters.scale",
    "matters.check_nan", "matters.distribution", "matters.basis_dim",
    "matters.basis_distribution", "matters.num_points", "matters.num_repeats",
    "matters.kappa", "matters.boundaries", "matters.margin", "matters.epsilon",
    "matters.rtol", "matters.equal_nan", "matters.num_data", "matters.block_sizes",
    "default.positional", "default.noisy", "default.quiet"]
RULE = (
    "Every public constructor, setter, estimator, spectrum function and comparison helper x "
    "a random subset of its optional arguments left out (the others at random values): "
    "results, products, data passes, tensor operations, warnings, printed text and exceptions "
    "must equal those of the call that passes the documented defaults, by keyword or in their "
    "documented position; a control call with another value counts the arguments that matter "
    "in the recorded outcome; non-trivial when one does."
)
MC_SEED = 2147483647
BASE = [("progressbar", False), ("check_deterministic", True), ("num_data", None)]


class Count(TorchDispatchMode):
    def __init__(self):
        super().__init__()
        self.n = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        return func(*args, **(kwargs or {}))


def outcome(fn, show=True):
    """What a call did: values, printed text, exception, warnings."""
    torch.manual_seed(12345)
    np.random.seed(12345)
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                val = fn()
                exc = None
            except Exception as e:
                val, exc = [], type(e).__name__
    # UserWarning: retries, targets; others stem from the libraries and depend on history
    n_warn = sum(1 for x in w if x.category is UserWarning)
    return dict(exc=exc, val=val, printed=(len(out.getvalue()) > 0, len(err.getvalue()) > 0),
                warned=n_warn)


def flat(val):
    if isinstance(val, (list, tuple)):
        return [y for x in val for y in flat(x)]
    if isinstance(val, torch.Tensor):
        return [val.detach().double().numpy()]
    return [np.asarray(val)]


def equal(a, b, tol):
    if (a["exc"], a["printed"], a["warned"]) != (b["exc"], b["printed"], b["warned"]):
        return f"{[(x['exc'], x['printed'], x['warned']) for x in (a, b)]}"
    x, y = flat(a["val"]), flat(b["val"])
    if len(x) != len(y):
        return f"{len(x)} != {len(y)} results"
    for i, (p, q) in enumerate(zip(x, y)):
        if p.shape != q.shape or p.dtype != q.dtype:
            return f"result {i}: {p.shape} {p.dtype} != {q.shape} {q.dtype}"
        if p.dtype.kind in "fc" and tol:
            ok = np.allclose(p, q, rtol=tol, atol=tol * (np.abs(q).max() if q.size else 0),
                             equal_nan=True)
        elif p.dtype.kind in "fc":
            ok = np.array_equal(p, q, equal_nan=True)
        else:
            ok = np.array_equal(p, q)
        if not ok:
            return f"result {i}: {p.ravel()[:4]} != {q.ravel()[:4]}"
    return None


def compare(ctx, target, doc, alts, run, tol=0.0, positional=True):
    """``run(*optional, **optional)``: the call; ``doc``: documented (name, default) in order.

    ``alts`` maps arguments to other values.
    """
    ctx.ev(f"default.{target}")
    given = {n: ctx.pick(*alts[n]) for n, _ in doc if n in alts and ctx.coin(0.3)}
    left = [(n, d) for n, d in doc if n not in given]
    a = outcome(lambda: run(**given))
    full = {n: given.get(n, d) for n, d in doc}
    k = ctx.r.randint(0, len(doc)) if positional else 0
    ctx.ev("default.positional", k)
    pos = [full[n] for n, _ in doc[:k]]
    kw = {n: full[n] for n, _ in doc[k:]}
    b = outcome(lambda: run(*pos, **kw))
    ctx.describe(target=target, given=given, positional=k)
    diff = equal(a, b, tol)
    ctx.true(diff is None, f"default.{target}",
             f"{target}: omitting {[n for n, _ in left]} (given {given}) vs documented "
             f"defaults, {k} by position: {diff}")
    if not a["printed"][1]:
        ctx.ev("default.quiet")
    # control: does the outcome depend on an omitted argument?
    cand = [n for n, _ in left if n in alts]
    for n in ctx.r.sample(cand, min(len(cand), 3)):
        c = outcome(lambda: run(**{**given, n: ctx.pick(*alts[n])}))
        if equal(a, c, tol) is not None:
            ctx.ev(f"matters.{n}")
            ctx.sig(target, n, *sorted(given))
    return a


class Noisy(nn.Module):
    def __init__(self, model):
        super().__init__()
        self.model = model

    def forward(self, X):
        return self.model(X) * (1 + 0.1 * torch.rand(()))


def curvature(ctx, target):
    import curvlinops as C
    from curvlinops.experimental.activation_hessian import (
        ActivationHessianLinearOperator as A,
    )

    if target == "act":
        p, act, shape = ops.act_problem(ctx, torch.float64)
    elif target.startswith("kfac"):
        p = kfac.kfac_problem(ctx, dtype=torch.float64, allow_dict=False, max_dim=40)
    else:
        losses = ("mse", "ce", "bce")
        p = gen.problem(ctx, losses=losses, dtype=torch.float64, allow_dict=False, max_dim=40,
                        n_max=4)
    items = [(X, y) for X, y in p.data]
    model = p.model_func
    noisy = target not in ("act",) and not target.startswith("kfac") and ctx.coin(0.25)
    if noisy:
        ctx.ev("default.noisy")
        model = Noisy(model)
    doc = list(BASE)
    alts = dict(progressbar=[True], check_deterministic=[False], num_data=[p.N])
    cls = dict(hessian=C.HessianLinearOperator, ggn=C.GGNLinearOperator,
               ef=C.EFLinearOperator, mc=C.FisherMCLinearOperator,
               jac=C.JacobianLinearOperator, jact=C.TransposedJacobianLinearOperator).get(target)
    if target in ("hessian", "ggn"):
        if len(p.params) > 1 and target == "hessian":
            alts["block_sizes"] = [[1] * len(p.params)]
        doc.append(("block_sizes", None))
    if target == "mc":
        doc[2:2] = [("seed", MC_SEED), ("mc_samples", 1)]
        alts.update(seed=[0, MC_SEED - 1, 7], mc_samples=[2, 3])
    if target == "kfac":
        doc[2:2] = [("shape", None), ("seed", MC_SEED), ("fisher_type", "mc"),
                    ("mc_samples", 1), ("kfac_approx", "expand"),
                    ("num_per_example_loss_terms", None), ("separate_weight_and_bias", True)]
        alts.update(seed=[0, 7], fisher_type=["type-2", "empirical", "forward-only"],
                    mc_samples=[2, 3], kfac_approx=["reduce"], separate_weight_and_bias=[False])
    if target == "kfac_load":
        doc = [("check_deterministic", True)]
        alts = dict(check_deterministic=[False])
        base = kfac.make(p, kfac.kfac_options(ctx, ("mc", "empirical")))
        base @ torch.ones(p.D, dtype=p.dtype)
        sd = base.state_dict()
    if target == "act":
        doc, alts = doc[:2], dict(list(alts.items())[:2])
    else:
        doc.append(("batch_size_fn", None))
    width = p.D
    if target == "act":
        width = torch.Size(shape).numel()
    elif target == "jact":
        width = p.N * p.ref().fwd(0).shape[1:].numel()
    v = ctx.randn(width, dtype=p.dtype)

    def run(*a, **k):
        data = DataLog(items)
        if target == "act":
            op = A(model, p.loss, act, data, *a, **k)
        elif target == "kfac_load":
            op = C.KFACLinearOperator.from_state_dict(sd, model, p.params, data, *a, **k)
        elif target == "kfac":
            op = C.KFACLinearOperator(model, p.loss, p.params, data, *a, **k)
        elif target in ("jac", "jact"):
            op = cls(model, p.params, data, *a, **k)
        else:
            op = cls(model, p.loss, p.params, data, *a, **k)
        made = len(data.log)
        return [op @ v, np.asarray([made, len(data.log)])]

    compare(ctx, target, doc, alts, run)


def export(ctx):
    o = ops.random_op(ctx, n_max=4)
    op = o.make()
    S = op.to_scipy()
    x = ctx.np.randn(S.shape[1]).astype(S.dtype)
    with contextlib.redirect_stderr(io.StringIO()):
        S @ x  # factors computed on first use

    def run(*a, **k):
        T = op.to_scipy(*a, **k)
        return [T @ x.astype(T.dtype), str(T.dtype)]

    compare(ctx, "export", [("dtype", None)], dict(dtype=[np.float16, np.float32, np.float64]),
            run)


def inverse(ctx):
    from curvlinops import KFACInverseLinearOperator as I

    if ctx.coin(0.3):
        p, opts, A, sd, kw, how = c16.retry_setup(ctx)
        target = "retry"
        fixed = {k: v for k, v in kw.items() if k != "cache"}
        doc = [("cache", True), ("retry_double_precision", True)]
        alts = dict(cache=[False], retry_double_precision=[False])
        positional = False
    else:
        p = kfac.kfac_problem(ctx, dtype=torch.float64, max_dim=40, check_det=False)
        A = kfac.make(p, kfac.kfac_options(ctx))
        # factors that are invertible without damping
        A @ torch.ones(p.D, dtype=p.dtype)
        sd = A.state_dict()
        for key in ("input_covariances", "gradient_covariances"):
            for name, F in sd[key].items():
                if F is not None:
                    n = len(F)
                    G = ctx.randn(n, n)
                    s = 10.0 ** ctx.pick(-14, -9, -4, 0, 0, 0)
                    sd[key][name] = (s * (G @ G.T / n + 0.3 * torch.eye(n))).to(F.dtype)
        A.load_state_dict(sd)
        fixed, target, positional = {}, "inverse", True
        doc = [("damping", 0.0), ("use_heuristic_damping", False), ("min_damping", 1e-8),
               ("use_exact_damping", False), ("cache", True), ("retry_double_precision", True)]
        alts = dict(damping=[1e-3, 1e-1], min_damping=[1e-7, 1e-9, 1e-2], cache=[False],
                    use_heuristic_damping=[True], use_exact_damping=[True])
        if ctx.coin(0.5):
            fixed = {}
            alts["damping"] = [1e-12, 1e-8]
    v = ctx.randn(p.D, dtype=p.dtype)

    def run(*a, **k):
        op = I(A, *a, **fixed, **k)
        vals, counts = [], []
        for _ in range(3):
            with Count() as c:
                vals.append(op @ v)
            counts.append(c.n)
        return vals + [np.asarray(counts)]

    compare(ctx, target, doc, alts, run, positional=positional)


def system(ctx, m, n, cond):
    U, _ = np.linalg.qr(ctx.np.randn(m, m))
    V, _ = np.linalg.qr(ctx.np.randn(n, n))
    k = min(m, n)
    s = cond ** (-np.arange(k) / max(k - 1, 1))
    return U[:, :k] * s @ V[:, :k].T


def cg(ctx):
    from curvlinops import CGInverseLinearOperator

    n = ctx.r.randint(5, 14)
    U, _ = np.linalg.qr(ctx.np.randn(n, n))
    lam = ctx.pick(1e2, 1e4, 1e6) ** (np.arange(n) / (n - 1))
    A = Recorder((U * lam) @ U.T)
    b = ctx.np.randn(n) * 10.0 ** ctx.np.randint(-3, 3)
    doc = [("x0", None), ("maxiter", None), ("M", None), ("callback", None), ("atol", 0.0),
           ("tol", 1e-5)]
    seen = []
    alts = dict(x0=[ctx.np.randn(n)], maxiter=[1, 3], M=[np.diag(1 / np.diag(A.M))],
                callback=[lambda x: seen.append(x.copy())], atol=[1e-1, 1.0],
                tol=[1e-1, 1e-3, 1e-9])
    inv = CGInverseLinearOperator(A)
    inv.set_cg_hyperparameters(maxiter=2, tol=0.3, x0=np.ones(n))  # earlier settings

    def run(*a, **k):
        A.log.clear()
        inv.set_cg_hyperparameters(*a, **k)
        return [inv @ b, np.asarray(len(A.log))]

    compare(ctx, "cg", doc, alts, run)
    # an operator without settings uses the same defaults
    fresh = CGInverseLinearOperator(A)
    x = outcome(lambda: [fresh @ b])
    y = outcome(lambda: run(None, None, None, None, 0.0, 1e-5)[:1])
    ctx.true(equal(x, y, 0) is None, "default.cg_fresh",
             f"CG without settings: {equal(x, y, 0)}")


def lsmr(ctx):
    from curvlinops import LSMRInverseLinearOperator

    m, n = ctx.r.randint(3, 10), ctx.r.randint(3, 10)
    A = Recorder(system(ctx, m, n, ctx.pick(10.0, 1e3, 1e7, 3e8, 1e10)))
    b = ctx.np.randn(m)
    if ctx.coin(0.4):
        b = A.M @ ctx.np.randn(n)
    doc = [("damp", 0.0), ("atol", 1e-6), ("btol", 1e-6), ("conlim", 1e8), ("maxiter", None),
           ("show", False), ("x0", None)]
    alts = dict(damp=[0.1, 1e-3], atol=[1e-2, 1e-12], btol=[0.5, 1e-2, 1e-12], conlim=[10.0, 1e12],
                maxiter=[1, 2], show=[True], x0=[ctx.np.randn(n)])
    inv = LSMRInverseLinearOperator(A)
    inv.set_lsmr_hyperparameters(damp=1.0, maxiter=1)

    def run(*a, **k):
        A.log.clear()
        inv.set_lsmr_hyperparameters(*a, **k)
        return [inv @ b, np.asarray(len(A.log)), *inv.matvec_with_info(b)[1:]]

    compare(ctx, "lsmr", doc, alts, run)
    fresh = LSMRInverseLinearOperator(A)
    x = outcome(lambda: [fresh @ b])
    y = outcome(lambda: run(0.0, 1e-6, 1e-6, 1e8, None, False, None)[:1])
    ctx.true(equal(x, y, 0) is None, "default.lsmr_fresh",
             f"LSMR without settings: {equal(x, y, 0)}")


def neumann(ctx, target):
    from curvlinops import NeumannInverseLinearOperator as N

    n = ctx.r.randint(2, 8)
    U, _ = np.linalg.qr(ctx.np.randn(n, n))
    A = Recorder((U * ctx.np.uniform(0.05, 1.9, n)) @ U.T)
    if ctx.coin(0.3):
        A = Recorder(np.full((n, n), np.nan))
    b = ctx.np.randn(n)
    doc = [("num_terms", 100), ("scale", 1.0), ("check_nan", True)]
    alts = dict(num_terms=[0, 1, 99, 101], scale=[0.5, 0.99], check_nan=[False])
    old = N(A, num_terms=3, scale=0.1, check_nan=False)

    def run(*a, **k):
        A.log.clear()
        if target == "neumann":
            inv = N(A, *a, **k)
        else:
            inv = old
            inv.set_neumann_hyperparameters(*a, **k)
        return [inv @ b, np.asarray(len(A.log))]

    compare(ctx, target, doc, alts, run)


def estimator(ctx, target):
    from curvlinops import (HutchinsonDiagonalEstimator,
                            HutchinsonSquaredFrobeniusNormEstimator,
                            HutchinsonTraceEstimator, HutchPPTraceEstimator)

    cls = dict(trace=HutchinsonTraceEstimator, diag=HutchinsonDiagonalEstimator,
               norm=HutchinsonSquaredFrobeniusNormEstimator, hpp=HutchPPTraceEstimator)[target]
    n = ctx.r.randint(2, 9)
    A = Recorder(ctx.np.randn(n, n))
    dist = dict(distribution=["normal"])
    if target == "hpp":
        if ctx.coin(0.4):
            n = ctx.pick(5, 40, 160)
            A = Recorder(ctx.np.randn(n, n))
        # constructor, then a sample with the default or given distribution
        doc = [("basis_dim", None), ("basis_distribution", "rademacher")]
        alts = dict(basis_dim=[b for b in (1, 2, n) if b <= n],
                    basis_distribution=["normal"])
        if ctx.coin():
            def run(*a, **k):
                A.log.clear()
                e = cls(A, *a, **k)
                return [e.sample(), e.sample(), *A.cols]

            return compare(ctx, target, doc, alts, run)
    b = {} if target != "hpp" else dict(basis_dim=ctx.r.randint(1, min(n, 4)))

    def run(*a, **k):
        A.log.clear()
        e = cls(A, **b)
        return [e.sample(*a, **k), e.sample(*a, **k), *A.cols]

    compare(ctx, target, [("distribution", "rademacher")], dist, run)


def spectrum(ctx, target):
    from curvlinops import (LanczosApproximateLogSpectrumCached,
                            LanczosApproximateSpectrumCached,
                            lanczos_approximate_log_spectrum, lanczos_approximate_spectrum)

    log = target in ("logspectrum", "cachedlog")
    n = ctx.r.randint(6, 16)
    U, _ = np.linalg.qr(ctx.np.randn(n, n))
    lam = np.sort(ctx.np.uniform(1.0, 5.0, n)) * 10.0 ** ctx.pick(-4, -2, 0)
    if ctx.coin():
        lam = lam * np.where(ctx.np.rand(n) < 0.5, -1, 1)
    A = Recorder((U * lam) @ U.T)
    a = np.abs(lam) if log else lam
    lo, hi = float(a.min()), float(a.max())
    ncv = ctx.r.randint(2, n - 1)
    num = [("num_points", 1024), ("num_repeats", 1)]
    alts = dict(num_points=[512, 1025, 7], num_repeats=[2, 3], kappa=[1.5, 2.9, 10.0],
                boundaries=[(lo, hi * 1.1), (lo * 0.9, None), (None, hi * 1.2)],
                margin=[0.01, 0.2], boundaries_tol=[1e-4])
    if log:
        alts["epsilon"] = [1e-3, 1e-4, 1e-7]
    eps = [("epsilon", 1e-5)] if log else []
    if target in ("spectrum", "logspectrum"):
        fn = lanczos_approximate_log_spectrum if log else lanczos_approximate_spectrum
        doc = num + [("kappa", 1.04 if log else 3.0), ("boundaries", None), ("margin", 0.05),
                     ("boundaries_tol", 1e-2)] + eps

        def run(*a_, **k):
            A.log.clear()
            return list(fn(A, ncv, *a_, **k))

        return compare(ctx, target, doc, alts, run, tol=1e-6)
    cls = LanczosApproximateLogSpectrumCached if log else LanczosApproximateSpectrumCached
    call = "approximate_log_spectrum" if log else "approximate_spectrum"
    if ctx.coin(0.3):
        doc = [("boundaries", None), ("boundaries_tol", 1e-2)]

        def run(*a_, **k):
            return list(getattr(cls(A, ncv, *a_, **k), call)(num_points=64))
    else:
        doc = num[::-1] + [("kappa", 3.0), ("margin", 0.05)] + eps

        def run(*a_, **k):
            return list(getattr(cls(A, ncv), call)(*a_, **k))

    compare(ctx, target, doc, {k: v for k, v in alts.items() if k in dict(doc)}, run, tol=1e-6)


def fast(ctx, target):
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    n = ctx.r.randint(3, 12)
    M = ctx.np.randn(n, n)
    A = Recorder(M + M.T)
    ncv = ctx.r.randint(1, n)

    def run(*a, **k):
        A.log.clear()
        ev, V = fast_lanczos(A, ncv, *a, **k)
        return [ev, np.asarray(V) ** 2, *A.cols]

    compare(ctx, target, [("use_eigh_tridiagonal", False)], dict(use_eigh_tridiagonal=[True]),
            run)


def helpers(ctx, target):
    from curvlinops.examples.utils import report_nonclose
    from curvlinops.utils import allclose_report

    n = ctx.r.randint(1, 6)
    b = ctx.np.randn(n) * 10.0 ** ctx.np.randint(-5, 3)
    if ctx.coin(0.3):
        b[:] = 0.0
    f = ctx.pick(0.5, 0.9, 1.1, 2.0, 5.0)
    a = b + f * (1e-8 + 1e-5 * np.abs(b)) * np.where(ctx.np.rand(n) < 0.5, -1, 1)
    if ctx.coin(0.2):
        i = ctx.r.randrange(n)
        a[i] = b[i] = np.nan
    doc = [("rtol", 1e-5), ("atol", 1e-8)]
    alts = dict(rtol=[1e-3, 1e-7], atol=[1e-5, 0.0])
    if target == "tensor":
        return compare(ctx, target, doc, alts,
                       lambda *x, **k: [allclose_report(torch.tensor(a), torch.tensor(b), *x, **k)])
    compare(ctx, target, doc + [("equal_nan", False)], {**alts, "equal_nan": [True]},
            lambda *x, **k: [report_nonclose(a, b, *x, **k) is None])


def case(ctx):
    t = ctx.pick("hessian", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfac", "kfac", "kfac_load",
                 "act", "inverse", "inverse", "inverse", "cg", "cg", "lsmr", "lsmr", "neumann",
                 "set_neumann",
                 "trace", "diag", "norm", "hpp", "spectrum", "logspectrum", "cached",
                 "cachedlog", "fast", "tensor", "array", "array", "export")
    if t in ("hessian", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfac_load", "act"):
        return curvature(ctx, t)
    if t in ("neumann", "set_neumann"):
        return neumann(ctx, t)
    if t in ("trace", "diag", "norm", "hpp"):
        return estimator(ctx, t)
    if t in ("spectrum", "logspectrum", "cached", "cachedlog"):
        return spectrum(ctx, t)
    if t in ("tensor", "array"):
        return helpers(ctx, t)
    if t == "fast":
        return fast(ctx, t)
    {"inverse": inverse, "cg": cg, "lsmr": lsmr, "export": export}[t](ctx)
