"""C33 Realistic sizes: exact products without ever forming the matrix."""
import tracemalloc

import numpy as np
import torch
from scipy.sparse.linalg import LinearOperator
from torch import nn
from torch.utils._python_dispatch import TorchDispatchMode

from vf import gen, kfac, oracle

LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 12000}
KINDS = ["hessian", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfac", "kfacinv", "kfacinv"]
SOLVERS = ["trace", "diag", "norm", "hpp", "cg", "lsmr", "neumann", "spectrum", "logspectrum",
           "cached", "submatrix", "outer", "projector"]
MUST = ([f"large.{k}" for k in set(KINDS)] + [f"solver.{s}" for s in SOLVERS] +
        ["large.wide", "large.many_batches", "large.many_classes", "large.columns",
         "large.memory", "large.gradient", "large.export", "large.properties",
         "solver.memory", "large.deep", "large.float32", "large.act",
         "large.loaded", "large.logdet"])
RULE = (
    "Models of 1,500 to 8,000 parameters (wide, deep, convolutional, sequence), up to 40 data "
    "in up to 20 batches, up to 12 classes, up to 70 columns x operator kind: products "
    "against exact directional derivatives of the whole risk (double backward, per-datum sums, "
    "or Kronecker factors of the reference); every tensor produced while constructing and "
    "multiplying is watched, and none may reach an eighth of the squared dimension. NumPy "
    "operators of dimension 2,000 to 4,000 with known action x solvers, estimators, spectra "
    "and structured operators under a memory tracer; non-trivial when the product is non-zero."
)


class Watch(TorchDispatchMode):
    """Largest tensor any operation produced."""

    def __init__(self):
        super().__init__()
        self.n = self.big = 0
        self.what = ""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.n += 1
        for t in out if isinstance(out, (tuple, list)) else (out,):
            # views (also broadcast ones) occupy no more than their storage
            if isinstance(t, torch.Tensor) and t.layout == torch.strided:
                size = t.untyped_storage().nbytes() // max(t.element_size(), 1)
                size = min(size, t.numel()) if t.numel() else 0
                if size > self.big:
                    self.big, self.what = size, f"{func} {tuple(t.shape)}"
        return out


def builder(ctx, loss_name):
    r = ctx.r
    C = r.randint(2, 12) if loss_name == "ce" else r.randint(1, 8)
    if C >= 6:
        ctx.ev("large.many_classes")
    kind = ctx.pick("wide", "wide", "deep", "cnn", "seq")
    ctx.ev(f"large.{kind}")
    act = lambda: ctx.pick(nn.Tanh, nn.Sigmoid, nn.ReLU, nn.ELU)()  # noqa: E731
    if kind == "wide":
        a, b = r.randint(8, 60), r.randint(36, 90)
        return kind, nn.Sequential(nn.Linear(a, b), act(), nn.Linear(b, C)), (a,)
    if kind == "deep":
        h = r.randint(15, 24)
        layers = [nn.Linear(h, h), act()]
        for _ in range(r.randint(5, 9)):
            layers += [nn.Linear(h, h, bias=ctx.coin(0.7)), act()]
        return kind, nn.Sequential(*layers, nn.Linear(h, C)), (h,)
    if kind == "cnn":
        ci, c1, c2 = 3, r.randint(6, 12), r.randint(12, 24)
        m = nn.Sequential(nn.Conv2d(ci, c1, 3, padding=1), act(), nn.Conv2d(c1, c2, 3, stride=2),
                          act(), nn.AdaptiveAvgPool2d((2, 2)), gen.Flatten(),
                          nn.Linear(4 * c2, C))
        return kind, m, (ci, 7, 7)
    d, h = r.randint(20, 40), r.randint(30, 60)
    return kind, nn.Sequential(nn.Linear(d, h), act(), gen.MeanAxis(), nn.Linear(h, C)), (
        r.randint(2, 6), d)


def sizes(ctx):
    def f(N):
        if N <= 20 and ctx.coin(0.25):
            return [1] * N
        return gen.composition(ctx, N, max_batches=12)
    return f


# ----------------------------------------------------------------- reference products
def whole(ref):
    """Predictions for all data in one pass."""
    return ref.model({"x": ref.X} if ref.dict_in else ref.X)


def split(v, params):
    return gen.unflatten(v, [tuple(q.shape) for q in params])


def jvp(f, params, v):
    """J v by differentiating the vector-Jacobian product."""
    u = torch.zeros_like(f, requires_grad=True)
    g = torch.autograd.grad(f, params, u, create_graph=True, allow_unused=True)
    s = sum((a * b).sum() for a, b in zip(g, split(v, params)) if a is not None)
    return torch.autograd.grad(s, u, retain_graph=True)[0]


def vjp(f, params, u):
    gs = torch.autograd.grad(f, params, u, retain_graph=True, allow_unused=True)
    return oracle.flat([torch.zeros_like(q) if g is None else g for g, q in zip(gs, params)])


def reference(ctx, o, ref, V):
    """Columns of the matrix times V."""
    cols = [v for v in V.T]
    if o.kind in ("hessian", "ggn"):
        f = whole(ref)
        L = ref.loss(f, ref.y)
        if o.kind == "hessian":
            g = oracle.flat(oracle._grads(L, ref.params, create=True))
            out = []
            for v in cols:
                if o.blocks is None:
                    out.append(oracle.flat(oracle._grads((g * v).sum(), ref.params)))
                    continue
                ps, parts, i = [q.numel() for q in ref.params], [], 0
                for b in o.blocks:
                    w = torch.zeros_like(v)
                    lo, hi = sum(ps[:i]), sum(ps[:i + b])
                    w[lo:hi] = v[lo:hi]
                    hv = oracle.flat(oracle._grads((g * w).sum(), ref.params))
                    parts.append(hv[lo:hi])
                    i += b
                out.append(torch.cat(parts))
            return torch.stack(out, 1)
        z = f.detach().requires_grad_(True)
        (gz,) = torch.autograd.grad(ref.loss(z, ref.y), z, create_graph=True)
        out = []
        for v in cols:
            Jv = jvp(f, ref.params, v)
            (HJv,) = torch.autograd.grad((gz * Jv).sum(), z, retain_graph=True)
            out.append(vjp(f, ref.params, HJv))
        return torch.stack(out, 1)
    if o.kind == "ef":
        rows = []
        for n in range(ref.N):
            f = ref.fwd(n)
            g = oracle.unreduced_term_grad(ref.loss_name, f, ref.y[n:n + 1])
            for t in oracle.terms(ref, f, ref.loss_name == "ce"):
                u = torch.zeros_like(f).reshape(-1)
                u[t] = g.reshape(-1)[t]
                rows.append(vjp(f, ref.params, u.reshape(f.shape)))
        G = torch.stack(rows)
        return oracle.term_scale(ref) * G.T @ (G @ V)
    f = whole(ref)
    if o.kind == "jac":
        return torch.stack([jvp(f, ref.params, v).reshape(-1) for v in cols], 1)
    return torch.stack([vjp(f, ref.params, v.reshape(f.shape)) for v in cols], 1)


def kron_product(ref, fac, separate, V, inverse=None):
    """Block-diagonal Kronecker products from factors, never forming a block."""
    out = torch.zeros_like(V)
    sizes_ = [q.numel() for q in ref.params]
    offs = [sum(sizes_[:i]) for i in range(len(sizes_))]
    for name, m, d in kfac.layout(ref.model, ref.params):
        A, B = fac[name]
        o = len(B)
        groups = []
        if "weight" in d and "bias" in d and not separate:
            w, b = d["weight"], d["bias"]
            groups.append(([w, b], A, [sizes_[w] // o, 1]))
        else:
            for pn, i in d.items():
                groups.append(([i], A if pn == "weight" else None, [sizes_[i] // o]))
        for pos, F, widths in groups:
            X = torch.cat([V[offs[i]:offs[i] + sizes_[i]].reshape(o, w, -1)
                           for i, w in zip(pos, widths)], 1)
            L, R = B, F
            if inverse is not None:
                L = torch.linalg.inv(B + inverse * torch.eye(o, dtype=B.dtype))
                if F is not None:
                    R = torch.linalg.inv(F + inverse * torch.eye(len(F), dtype=F.dtype))
            Y = torch.einsum("ij,jkm->ikm", L, X)
            if R is not None:
                Y = torch.einsum("ikm,kl->ilm", Y, R)
            for i, part in zip(pos, Y.split(widths, 1)):
                out[offs[i]:offs[i] + sizes_[i]] = part.reshape(sizes_[i], -1)
    return out


# ------------------------------------------------------------------------------ cases
class O:  # noqa: E742
    blocks = None


def large(ctx):
    import curvlinops as C

    o = O()
    o.kind = ctx.pick(*KINDS)
    ctx.ev(f"large.{o.kind}")
    losses = ("mse", "ce", "bce") + (("cubic", "huber") if o.kind == "hessian" else ())
    watch_memory = ctx.coin(0.7)
    dtype = ctx.pick(torch.float64, torch.float64, torch.float64, torch.float32)
    ctx.ev("large.float32", dtype == torch.float32)
    kw = dict(dtype=dtype, max_dim=9000, n_max=40, check_det=False, allow_dict=ctx.coin(),
              losses=losses, sizes=sizes(ctx), builder=builder, allow_func=False,
              subset=ctx.coin(0.3) and not o.kind.startswith("kfac"), freeze=False)
    p = gen.problem(ctx, **kw)
    P = [tuple(q.shape) for q in p.params]
    ref = p.ref()
    if len(p.sizes) >= 8:
        ctx.ev("large.many_batches")
    args = dict(p.kw(progressbar=False))
    watch = Watch()
    rows = p.N * ref.fwd(0)[0].numel()
    width = p.D if o.kind != "jact" else rows
    height = p.D if o.kind != "jac" else rows
    per_batch = max(p.sizes) * ref.fwd(0)[0].numel()
    opts, sep, damping, over = {}, True, None, {}
    if o.kind == "hessian" and ctx.coin(0.5):
        o.blocks, left = [], len(p.params)
        while left:
            o.blocks.append(ctx.r.randint(1, left))
            left -= o.blocks[-1]
    if o.kind.startswith("kfac"):
        opts = kfac.kfac_options(ctx, ("type-2", "empirical", "forward-only"))
        sep = opts["separate_weight_and_bias"]
        damping = 10.0 ** ctx.r.uniform(-2, 0) if o.kind == "kfacinv" else None
    if o.kind == "mc":
        over = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 3))
    K = 1 if watch_memory else ctx.pick(1, 2, 5, 33, 70)
    if o.kind in ("hessian", "jac") and K > 5 and p.N > 20:
        K = 9
    if K > 8:
        ctx.ev("large.columns")
    V = ctx.randn(width, K, dtype=p.dtype)
    as_list = ctx.coin()
    in_shapes = P if o.kind != "jact" else [(p.N, *ref.fwd(0).shape[1:])]
    out_shapes = P if o.kind != "jac" else [(p.N, *ref.fwd(0).shape[1:])]
    ctx.describe(kind=o.kind, D=p.D, N=p.N, problem=p.label()[:80], K=K, watch=watch_memory,
                 **opts)

    def build():
        if o.kind in ("jac", "jact"):
            cls = {"jac": C.JacobianLinearOperator,
                   "jact": C.TransposedJacobianLinearOperator}[o.kind]
            return cls(p.model, p.params, p.data, **args)
        if o.kind.startswith("kfac"):
            op = C.KFACLinearOperator(p.model, p.loss, p.params, p.data, **opts, **args)
            return op if damping is None else C.KFACInverseLinearOperator(op, damping=damping)
        cls = {"hessian": C.HessianLinearOperator, "ggn": C.GGNLinearOperator,
               "ef": C.EFLinearOperator, "mc": C.FisherMCLinearOperator}[o.kind]
        more = dict(block_sizes=o.blocks) if o.blocks else {}
        return cls(p.model, p.loss, p.params, p.data, **args, **more, **over)

    def use():
        op = build()
        X = gen.unflatten(V, in_shapes) if as_list else V
        return op, op @ X

    if watch_memory:
        with watch:
            op, Y = use()
            if o.kind == "kfac":
                op.trace, op.frobenius_norm, op.logdet, op.det
    else:
        op, Y = use()
    Y = gen.to_dense(Y, out_shapes)
    ctx.equal(tuple(Y.shape), (height, K), "large.shape", "product shape")
    small = dtype == torch.float32
    # exact products
    want = None
    if o.kind == "mc":
        mc(ctx, p, op, V, Y, small)
    else:
        if o.kind.startswith("kfac"):
            if kfac.ambiguous(p, opts):
                want = None
            else:
                fac = kfac.factors(ref, **opts)
                want = kron_product(ref, fac, sep, V.double(), damping)
        else:
            want = reference(ctx, o, ref, V.double()).detach()
        if want is not None:
            ctx.close(Y, want, f"large.{o.kind}", f"product of dimension {width}",
                      rtol=2e-2 if small and o.kind == "kfacinv" else 5e-3 if small else 1e-7,
                      scale=1e-6 * V.abs().max().item())
        if o.kind == "kfac" and want is not None and not small:
            properties(ctx, op, ref, fac, sep)
    # memory: the matrix would be 8 times larger than anything seen
    if watch_memory:
        ctx.ev("large.memory", watch.n)
        # per-batch Jacobians and activations are legitimate
        legit = 4 * per_batch * (sum(q.numel() for q in p.model.parameters()) + 1) * K
        legit += 64 * p.X.numel()
        bound = width * height / 8
        if bound > legit:
            ctx.true(watch.big < bound, "large.memory",
                     f"{o.kind}: a tensor of {watch.big} entries ({watch.what}) for a "
                     f"{height} x {width} operator")
            ctx.sig("memory", o.kind, p.arch)
    if ctx.coin(0.3) and not o.kind.startswith(("jac", "kfacinv")):
        ctx.ev("large.gradient")
        g, L = op.gradient_and_loss()
        want_g, want_L = whole_gradient(ref)
        ctx.close(oracle.flat(g), want_g, "large.gradient", "gradient",
                  rtol=5e-3 if small else 1e-8, scale=1e-6)
        ctx.close(L, want_L, "large.gradient", "loss", rtol=1e-3 if small else 1e-9)
    if ctx.coin(0.4):
        ctx.ev("large.export")
        S = op.to_scipy()
        v = V[:, 0].numpy()
        ctx.close(S @ v, Y[:, 0], "large.export", "exported product",
                  rtol=5e-3 if small else 1e-8)
    if o.kind == "kfac" and want is not None and not small and ctx.coin(0.6):
        loaded(ctx, op, ref, fac, sep, V)
    if Y.abs().max() > 0:
        ctx.sig(o.kind, p.arch, p.loss_name, p.red, len(p.sizes), K, as_list, dtype,
                *opts.values())


def whole_gradient(ref):
    L = ref.loss(whole(ref), ref.y)
    return oracle.flat(oracle._grads(L, ref.params)).detach(), L.detach()


def mc(ctx, p, op, V, Y, small):
    """Sampled Fisher: symmetric, positive, same matrix for each format."""
    tol = 5e-3 if small else 1e-8
    W = ctx.randn(*V.shape, dtype=p.dtype)
    a, b = (W * Y).sum(0), ((op @ W) * V).sum(0)
    big = (W.norm(dim=0) * Y.norm(dim=0)).max().item()
    ctx.close(a, b, "large.mc", "symmetry", rtol=tol, scale=big)
    q = (V * Y).sum(0)
    ctx.true(bool((q >= -tol * V.norm() * Y.norm()).all()), "large.mc", "negative curvature")
    ctx.close(op @ V[:, 0], Y[:, 0], "large.mc", "vector product", rtol=tol)


def loaded(ctx, op, ref, fac, sep, V):
    """Regular factors of any magnitude, loaded into the large operator."""
    ctx.ev("large.loaded")
    s = op.state_dict()

    def spd(M):
        n = len(M)
        Q = torch.linalg.qr(ctx.randn(n, n, dtype=torch.float64))[0]
        e = torch.rand(n, generator=ctx.g, dtype=torch.float64) * 2 - 1
        return 10.0 ** ctx.r.uniform(-12, 12) * (Q * (10.0**e)) @ Q.T

    fac = {n: (A if A is None else spd(A), B if B is None else spd(B))
           for n, (A, B) in fac.items()}
    for i, key in enumerate(("input_covariances", "gradient_covariances")):
        s[key] = {n: fac[n][i].to(M.dtype).clone() for n, M in s[key].items()}
    for key in ("trace", "det", "logdet", "frobenius_norm"):
        s[key] = None
    op.load_state_dict(s)
    want = kron_product(ref, fac, sep, V.double())
    ctx.close(op @ V, want, "large.loaded", "product with loaded factors", rtol=1e-8)
    properties(ctx, op, ref, fac, sep)


def properties(ctx, op, ref, fac, sep):
    """Trace, norm and log-determinant of blocks too large to form."""
    ctx.ev("large.properties")
    tr, fro, ld, regular = 0.0, 0.0, 0.0, True
    for name, m, d in kfac.layout(ref.model, ref.params):
        A, B = fac[name]
        joint = "weight" in d and "bias" in d and not sep
        parts = [A] if joint else [A if pn == "weight" else None for pn in d]
        for F in parts:
            a = torch.ones(1, 1, dtype=B.dtype) if F is None else F
            tr += (a.trace() * B.trace()).item()
            fro += (a.norm() ** 2 * B.norm() ** 2).item()
            for M, k in ((a, len(B)), (B, len(a))):
                e = torch.linalg.eigvalsh(M)
                regular &= bool(e.min() > 1e-7 * e.max()) and bool(e.max() > 1e-200)
                if regular:
                    ld += k * e.log().sum().item()
    ctx.close(torch.as_tensor(op.trace), tr, "large.trace", "trace", rtol=1e-8)
    ctx.close(torch.as_tensor(op.frobenius_norm), fro**0.5, "large.norm", "norm", rtol=1e-8)
    if regular:
        ctx.ev("large.logdet")
        ctx.close(torch.as_tensor(op.logdet), ld, "large.logdet", "log-determinant",
                  rtol=1e-6)


# ------------------------------------------------------------------ NumPy-level solvers
class Fast(LinearOperator):
    """Diagonal plus low rank, applied without its matrix."""

    def __init__(self, d, U):
        super().__init__(np.dtype(float), (len(d), len(d)))
        self.d, self.U, self.n = d, U, 0

    def _matvec(self, x):
        x = x.reshape(-1)
        self.n += 1
        return self.d * x + self.U @ (self.U.T @ x)

    def _adjoint(self):
        return self


def solver(ctx):
    import curvlinops as C
    which = ctx.pick(*SOLVERS)
    ctx.ev(f"solver.{which}")
    n = ctx.r.randint(2000, 4000)
    d = ctx.np.uniform(0.5, 1.5, n)
    k = ctx.pick(0, 1, 3)
    U = ctx.np.randn(n, k) / n**0.5
    A = Fast(d, U)
    x = ctx.np.randn(n)
    ctx.describe(solver=which, n=n, rank=k)
    tracemalloc.start()
    try:
        out = SOLVE[which](ctx, C, A, x)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    ctx.ev("solver.memory", A.n)
    ctx.true(peak < n * n, "solver.memory",
             f"{which} of dimension {n} needed {peak / 8:.0f} numbers")
    out()
    ctx.sig("solver", which, k, n // 500)


def s_trace(ctx, C, A, x):
    v = C.HutchinsonTraceEstimator(Fast(A.d, A.U[:, :0])).sample()
    return lambda: ctx.close(np.asarray(v), np.asarray(A.d.sum()), "solver.trace",
                             "trace of a diagonal", rtol=1e-10)


def s_diag(ctx, C, A, x):
    v = C.HutchinsonDiagonalEstimator(Fast(A.d, A.U[:, :0])).sample()
    return lambda: ctx.close(v, A.d, "solver.diag", "diagonal of a diagonal", rtol=1e-10)


def s_norm(ctx, C, A, x):
    v = C.HutchinsonSquaredFrobeniusNormEstimator(Fast(A.d, A.U[:, :0])).sample()
    return lambda: ctx.close(np.asarray(v), np.asarray((A.d**2).sum()), "solver.norm",
                             "squared norm of a diagonal", rtol=1e-10)


def s_hpp(ctx, C, A, x):
    U = A.U if A.U.shape[1] else ctx.np.randn(len(x), 2)
    L = Fast(np.zeros(len(x)), U)
    v = C.HutchPPTraceEstimator(L, basis_dim=U.shape[1] + ctx.pick(0, 2)).sample()
    v2 = C.HutchPPTraceEstimator(A).sample()
    return lambda: (ctx.close(np.asarray(v), np.asarray((U**2).sum()), "solver.hpp",
                              "trace of a captured range", rtol=1e-8),
                    ctx.true(bool(np.isfinite(v2)), "solver.hpp", "default basis"))


def s_cg(ctx, C, A, x):
    inv = C.CGInverseLinearOperator(A)
    inv.set_cg_hyperparameters(tol=1e-10)
    X = np.stack([x, ctx.np.randn(len(x))], 1)
    Y = inv @ X
    return lambda: ctx.close(np.stack([A @ y for y in Y.T], 1), X, "solver.cg", "A A^-1 x",
                             rtol=1e-8)


def s_lsmr(ctx, C, A, x):
    inv = C.LSMRInverseLinearOperator(A)
    inv.set_lsmr_hyperparameters(atol=1e-13, btol=1e-13)
    y = inv @ x
    return lambda: ctx.close(A @ y, x, "solver.lsmr", "A A^-1 x", rtol=1e-7)


def s_neumann(ctx, C, A, x):
    k = ctx.r.randint(0, 40)
    y = C.NeumannInverseLinearOperator(A, num_terms=k, scale=0.4) @ x

    def check():
        want, v = x.copy(), x.copy()
        for _ in range(k):
            v = v - 0.4 * (A @ v)
            want = want + v
        ctx.close(y, 0.4 * want, "solver.neumann", "truncated series", rtol=1e-10)
    return check


def _mass(ctx, grid, dens, what, log=False):
    def check():
        t = np.log(grid) if log else grid
        # the density lives on the matrix's (logarithmic) axis
        w = dens * grid if log else dens
        mass = float(np.sum((w[1:] + w[:-1]) / 2 * np.diff(t)))
        ctx.true(0.5 < mass < 1.01, f"solver.{what}", f"mass {mass}")
    return check


def s_spectrum(ctx, C, A, x):
    g, p = C.lanczos_approximate_spectrum(A, ctx.r.randint(10, 40), num_points=256)
    return _mass(ctx, g, p, "spectrum")


def s_logspectrum(ctx, C, A, x):
    g, p = C.lanczos_approximate_log_spectrum(A, ctx.r.randint(10, 40), num_points=2048,
                                              boundaries=(0.4, 3.0), kappa=3.0)
    return _mass(ctx, g, p, "logspectrum", True)


def s_cached(ctx, C, A, x):
    e = C.LanczosApproximateSpectrumCached(A, ctx.r.randint(10, 40))
    g, p = e.approximate_spectrum(num_repeats=2, num_points=256)
    return _mass(ctx, g, p, "cached")


def s_submatrix(ctx, C, A, x):
    n = len(x)
    rows = ctx.r.sample(range(n), ctx.r.randint(1, n))
    cols = ctx.r.sample(range(n), ctx.r.randint(1, n))
    S = C.SubmatrixLinearOperator(A, rows, cols)
    v = ctx.np.randn(len(cols))
    y, z = S @ v, S.T @ ctx.np.randn(len(rows))

    def check():
        full = np.zeros(n)
        full[cols] = v
        ctx.close(y, (A @ full)[rows], "solver.submatrix", "selected product", rtol=1e-10)
        ctx.equal(z.shape, (len(cols),), "solver.submatrix", "transposed product")
    return check


def s_outer(ctx, C, A, x):
    from curvlinops.outer import OuterProductLinearOperator as Op

    n, r = len(x), ctx.r.randint(1, 6)
    B, c = ctx.np.randn(n, r), ctx.np.randn(r)
    y = Op(c, B) @ x
    return lambda: ctx.close(y, B @ (c * (B.T @ x)), "solver.outer", "outer products",
                             rtol=1e-9)


def s_projector(ctx, C, A, x):
    from curvlinops.outer import Projector

    n, r = len(x), ctx.r.randint(1, 6)
    B = np.linalg.qr(ctx.np.randn(n, r))[0]
    y = Projector(B) @ x
    return lambda: ctx.close(y, B @ (B.T @ x), "solver.projector", "projection", rtol=1e-9)


SOLVE = {s: globals()[f"s_{s}"] for s in SOLVERS}


def activation(ctx):
    """Hessian with respect to a large intermediate feature."""
    from curvlinops.experimental.activation_hessian import ActivationHessianLinearOperator as A

    ctx.ev("large.act")
    N, h, C = ctx.r.randint(10, 40), ctx.r.randint(40, 80), ctx.r.randint(2, 6)
    model = nn.Sequential(nn.Linear(7, h), nn.Tanh(), nn.Linear(h, C)).double()
    gen._init_model(ctx, model)
    X, y = ctx.randn(N, 7), torch.randint(0, C, (N,), generator=ctx.g)
    loss = nn.CrossEntropyLoss(reduction=ctx.pick("mean", "sum"))
    D = N * h
    v = ctx.randn(D)
    watch = Watch()
    with watch:
        op = A(model, loss, ("0", "output", 0), [(X, y)])
        got = op @ v
    z = model[0](X).detach().requires_grad_(True)
    (g,) = torch.autograd.grad(loss(model[2](model[1](z)), y), z, create_graph=True)
    (want,) = torch.autograd.grad((g.reshape(-1) * v).sum(), z)
    ctx.describe(kind="act", D=D)
    ctx.close(got, want.reshape(-1), "large.act", "product", rtol=1e-8)
    ctx.ev("large.memory", watch.n)
    ctx.true(watch.big < D * D / 8, "large.memory",
             f"act: a tensor of {watch.big} entries ({watch.what}) for dimension {D}")
    ctx.sig("act", N // 5, h // 10)


def case(ctx):
    u = ctx.r.random()
    if u < 0.25:
        return solver(ctx)
    if u < 0.30:
        return activation(ctx)
    large(ctx)
