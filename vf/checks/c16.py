"""C16 Inverse KFAC against the inverse of the damped reference blocks."""
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from vf import gen, kfac, ops
from vf.common import check_psd, product_checks
from vf.monitor import DataLog

LEVEL = "exploration"
CASES = {"quick": 3200, "thorough": 48000}
MUST = ["inv.float", "inv.tuple", "inv.heuristic", "inv.exact", "op.products",
        "inv.cached", "inv.repeat", "oracle.rejections", "inv.singular", "inv.reference",
        "inv.min_damping", "inv.retry", "inv.no_retry", "inv.cached_once"]
RULE = (
    "Random KFAC configuration and selection (also zero inputs and dead units) x damping "
    "mode/value x caching; several products in all formats and on repeat, compared with "
    "the dense inverse of the damped blocks, from the independent reference (factors "
    "decoded from the KFAC operator for sampled Fisher types); non-trivial always."
)


def damped_inverse(ref, fac, separate, kw):
    """Dense inverse of the damped block-diagonal matrix."""
    damping = kw["damping"]
    pair = damping if isinstance(damping, tuple) else (damping, damping)
    blks = []
    for K, idx, (A, B, _, kind) in kfac.blocks(ref, fac, separate):
        eyeB = torch.eye(len(B), dtype=B.dtype)
        if kw.get("use_exact_damping"):
            inv = torch.linalg.inv(K + damping * torch.eye(len(K), dtype=K.dtype))
        else:
            dA, dB = pair
            full_A = fac[_][0]
            if kw.get("use_heuristic_damping") and full_A is not None:
                a = (full_A.trace() / len(full_A)).item()
                b = (B.trace() / len(B)).item()
                if a > 0 and b > 0:
                    pi = (a / b) ** 0.5
                    lo = kw["min_damping"]
                    dA = max(pi * damping**0.5, lo)
                    dB = max(damping**0.5 / pi, lo)
            Bi = torch.linalg.inv(B + dB * eyeB)
            if A is None:
                inv = Bi
            else:
                Ai = torch.linalg.inv(A + dA * torch.eye(len(A), dtype=A.dtype))
                inv = torch.kron(Bi, Ai)
        blks.append((inv, idx))
    return kfac.assemble(ref, blks)


def retry_setup(ctx):
    """Single precision, factors whose damped version is singular in that precision only."""
    p = kfac.kfac_problem(ctx, dtype=torch.float32, check_det=False)
    opts = kfac.kfac_options(ctx, ("empirical", "forward-only"))
    A = kfac.make(p, opts)
    A @ ctx.randn(p.D, dtype=p.dtype)
    sd = A.state_dict()
    kw = dict(damping=ctx.pick(1e-4, 5e-5), cache=ctx.coin())
    how = ctx.pick("float", "tuple", "tuple", "heuristic")
    big = 2.0**16 if how == "heuristic" else 1.0  # comparable traces: balanced damping
    for key in ("input_covariances", "gradient_covariances"):
        for name, F in sd[key].items():
            if F is None:
                continue
            n = len(F)
            if ctx.coin(0.7):  # rank one, exactly representable
                v = torch.tensor([ctx.pick(-512.0, -256.0, 256.0, 512.0) for _ in range(n)])
                sd[key][name] = torch.outer(v, v).to(F.dtype)
            else:
                sd[key][name] = torch.diag(torch.tensor([big * ctx.r.randint(1, 4)
                                                         for _ in range(n)])).to(F.dtype)
    A.load_state_dict(sd)
    if how == "tuple":
        kw["damping"] = tuple(ctx.r.sample([1e-4, 3e-5, 0.5, 40.0], 2))
    elif how == "heuristic":
        kw.update(damping=ctx.pick(1e-9, 1e-8), use_heuristic_damping=True, min_damping=1e-8)
    return p, opts, A, sd, kw, how


def retry_case(ctx):
    import warnings

    from curvlinops import KFACInverseLinearOperator

    p, opts, A, sd, kw, how = retry_setup(ctx)
    fac = {}
    ref = p.ref()
    for name, *_ in kfac.layout(ref.model, ref.params):
        a, b = sd["input_covariances"].get(name), sd["gradient_covariances"].get(name)
        fac[name] = (None if a is None else a.double(), b.double())
    want = damped_inverse(ref, fac, opts["separate_weight_and_bias"], kw)
    inv = KFACInverseLinearOperator(A, **kw)
    ctx.describe(problem=p.label(), **opts, **kw, retry=True)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        M = gen.dense(inv, p.dtype)
    ctx.ev("inv.retry", len(w))
    # one block at a time: their magnitudes differ by many orders
    for K, idx, (_, _, name, kind) in kfac.blocks(ref, fac, opts["separate_weight_and_bias"]):
        i = idx.unsqueeze(1), idx.unsqueeze(0)
        ctx.close(M[i], want[i], "inv.retry", f"{kind} block of {name} ({how}, {len(w)} retries)",
                  rtol=0.25)
        M[i] = 0
    ctx.close(M, torch.zeros_like(want), "inv.retry", "entries outside the blocks")
    strict = KFACInverseLinearOperator(A, **kw, retry_double_precision=False)
    x = ctx.randn(p.D, dtype=p.dtype)
    if w:
        ctx.ev("inv.no_retry")
        for _ in range(2):
            ctx.raises(RuntimeError, lambda: strict @ x, "inv.no_retry",
                       f"singular factors without retry ({how})")
    else:
        ctx.close(strict @ x, inv @ x, "inv.no_retry", "no retry needed", rtol=1e-4)
    ctx.sig("retry", p.arch, len(p.params), *opts.values(), how, kw["cache"])


def case(ctx):
    from curvlinops import KFACInverseLinearOperator

    if ctx.coin(0.06):
        return retry_case(ctx)
    dtype = ctx.pick(torch.float64, torch.float64, torch.float64, torch.float32)
    p = kfac.kfac_problem(ctx, dtype=dtype, check_det=False)
    ftypes = ("type-2", "empirical", "forward-only")
    opts = kfac.kfac_options(ctx, ftypes)
    if kfac.ambiguous(p, opts):
        opts["fisher_type"] = ctx.pick("empirical", "forward-only")
    degenerate(ctx, p)
    kw = ops.inverse_options(ctx, p.dtype)
    how = ops.inv_label(kw).split("+")[0]
    ctx.ev(f"inv.{how}")
    ctx.describe(problem=p.label(), **opts, **kw)
    ref = p.ref()
    fac = kfac.factors(ref, **opts)
    sep = opts["separate_weight_and_bias"]
    if how == "heuristic" and any(M is not None and 0 < M.trace() < 1e-20 * len(M)
                                  for pair in fac.values() for M in pair):
        return  # the ratio of traces is rounding noise (saturated loss or units)
    if any(A is not None and torch.linalg.matrix_rank(A) < len(A) for A, _ in fac.values()):
        ctx.ev("inv.singular")
    want = damped_inverse(ref, fac, sep, kw)
    if how == "heuristic":
        loose = damped_inverse(ref, fac, sep, {**kw, "min_damping": 0.0})
        if (loose - want).abs().max() > 1e-6 * want.abs().max():
            ctx.ev("inv.min_damping")
    ctx.ev("inv.reference")
    atol = 0.0
    if p.dtype != torch.float64:
        low = kfac.factors(p.ref(p.dtype), **opts)
        low = {k: (None if A is None else A.double(), B.double()) for k, (A, B) in low.items()}
        atol = 100 * (damped_inverse(ref, low, sep, kw) - want).abs().max().item()
        # singular values of the damped factors are at least 5e-2; entries may be large
        atol += 3e-3 * want.abs().max().item()
    A = kfac.make(p, opts)
    if ctx.coin(0.5):
        A @ ctx.randn(p.D, dtype=p.dtype)
    inv = KFACInverseLinearOperator(A, **kw)
    if ctx.coin(0.5):  # first use: a list operand
        X = gen.unflatten(ctx.randn(p.D, 2, dtype=p.dtype), [q.shape for q in p.params])
        keep = [x.clone() for x in X]
        inv @ X
        for x, k in zip(X, keep):
            ctx.same(x, k, "inv.operand", "operand of the inverse product")
    M = product_checks(ctx, inv, want, p, "inv", rtol=1e-6 if atol == 0 else 1e-3,
                       n_rand=3, atol=atol)
    check_psd(ctx, M, "inv", atol=atol)
    ctx.ev("inv.repeat")
    ctx.close(gen.dense(inv, p.dtype), M, "inv.repeat", "repeated product",
              rtol=1e-9 if atol == 0 else 1e-4)
    if kw["cache"]:
        ctx.ev("inv.cached")
        cached_once(ctx, KFACInverseLinearOperator(A, **kw), ctx.randn(p.D, dtype=p.dtype))
    # a second inverse of the same KFAC with other damping
    if ctx.coin(0.4):
        kw2 = ops.inverse_options(ctx, p.dtype)
        inv2 = KFACInverseLinearOperator(A, **kw2)
        w2 = damped_inverse(ref, fac, sep, kw2)
        at2 = 0.0 if atol == 0 else 100 * (
            damped_inverse(ref, low, sep, kw2) - w2).abs().max().item() + 3e-3 * w2.abs().max().item()
        ctx.close(gen.dense(inv2, p.dtype), w2, "inv.second", "another damping",
                  rtol=1e-6 if atol == 0 else 1e-3, atol=at2)
        ctx.close(gen.dense(inv, p.dtype), M, "inv.repeat", "first inverse afterwards",
                  rtol=1e-9 if atol == 0 else 1e-4)
    # the inverse undoes exactly damped KFAC
    if how == "exact" and p.dtype == torch.float64:
        x = ctx.randn(p.D)
        ctx.close(A @ (inv @ x) + kw["damping"] * (inv @ x), x, "inv.undo",
                  "(KFAC + damping I) inverse x", rtol=1e-6)
    if ctx.coin(0.15):
        reject(ctx, A, p)
    ctx.sig(p.arch, p.loss_name, p.red, len(p.params), *opts.values(), how, kw["cache"],
            p.dtype)


class Ops(TorchDispatchMode):
    """Counts tensor operations, and among them those that factorise or invert."""

    WORDS = ("cholesky", "eigh", "inv", "lu_factor", "svd", "qr", "eig")

    def __init__(self):
        super().__init__()
        self.n = self.factor = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        name = str(func)
        if any(w in name for w in self.WORDS) and "solve" not in name:
            self.factor += 1
        return func(*args, **(kwargs or {}))


def cached_once(ctx, inv, x):
    """With a cache, only the first product computes the inverses."""
    counts, got, factor = [], [], []
    for _ in range(3):
        with Ops() as c:
            got.append(inv @ x)
        counts.append(c.n)
        factor.append(c.factor)
    ctx.ev("inv.cached_once", factor[0])
    ctx.true(factor[1] == factor[2] == 0, "inv.cached_once",
             f"factorisations and inversions of three equal products: {factor}")
    ctx.true(counts[1] < counts[0] and counts[2] == counts[1], "inv.cached_once",
             f"tensor operations of three equal products: {counts}")
    ctx.same(got[1], got[0], "inv.cached_once", "second product")
    ctx.same(got[2], got[0], "inv.cached_once", "third product")


def degenerate(ctx, p):
    """Zero features, dead units, all-zero inputs."""
    if ctx.coin(0.25):
        with torch.no_grad():
            which = ctx.pick("zero_x", "feature", "dead", "few")
            if which == "zero_x":
                p.X.zero_()
            elif which == "feature":
                p.X[:, 0] = 0.0
            elif which == "dead":
                q = ctx.pick(*p.params)
                q.zero_()
            else:
                p.X.copy_(p.X[:1].expand_as(p.X))


def reject(ctx, A, p):
    from curvlinops import GGNLinearOperator, KFACInverseLinearOperator as I

    ctx.raises(ValueError, lambda: I(A, damping=(0.1, 0.2), use_heuristic_damping=True),
               "inv.reject", "tuple with heuristic damping")
    ctx.raises(ValueError, lambda: I(A, damping=(0.1, 0.2), use_exact_damping=True),
               "inv.reject", "tuple with exact damping")
    ctx.raises(ValueError, lambda: I(A, damping=0.1, use_exact_damping=True,
                                     use_heuristic_damping=True),
               "inv.reject", "exact and heuristic damping")
    G = GGNLinearOperator(p.model_func, p.loss, p.params, p.data,
                          **p.kw(check_deterministic=False))
    for bad in (G, torch.eye(3), A.to_scipy()):
        ctx.raises(ValueError, lambda: I(bad, damping=0.1), "inv.reject",
                   f"inverse of {type(bad).__name__}")
