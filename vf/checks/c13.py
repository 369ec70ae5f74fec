"""C13 KFAC (type-2, empirical, forward-only) against an independent definition."""
import torch
from vf import gen, kfac, oracle
from vf.common import check_psd, product_checks

LEVEL = "exploration"
CASES = {"quick": 3200, "thorough": 48000}
MUST = ["op.products", "kfac.type-2", "kfac.empirical", "kfac.forward-only",
        "kfac.exact", "oracle.rejections", "layer.conv", "layer.seq"]
RULE = (
    "Random Linear/Conv2d network (strides, paddings, padding modes, dilations, groups, "
    "sequence axes, mixing, residual, unsupported layers present) x loss x reduction x "
    "Fisher type x expand/reduce x joint/separate x parameter selection/order x batching "
    "x given/inferred counts; non-trivial when the matrix is non-zero."
)
ASSUMPTIONS = ["type-2 with several coupled loss terms per datum is not compared (the "
               "choice of Hessian square root is not part of the definition)"]


def uneven_same(ctx):
    """'same' padding that is not symmetric: either supported, or rejected."""
    from torch import nn

    def bld(ctx, loss_name):
        k = ctx.pick(2, 4, (2, 3), (3, 2), (1, 2), (2, 1))
        ci = ctx.pick(1, 2)
        conv = nn.Conv2d(ci, 1, k, padding="same", bias=ctx.coin(),
                         dilation=ctx.pick(1, 1, 2, 3, (1, 2), (3, 1), (1, 3), (2, 3)))
        C = 2 if loss_name == "ce" else 1
        return "same", nn.Sequential(conv, nn.Tanh(), nn.AdaptiveAvgPool2d((1, 2)),
                                     gen.Flatten(), nn.Linear(2, C)), (ci, 4, 5)

    p = gen.problem(ctx, builder=bld, allow_func=False, subset=False, freeze=False,
                    check_det=False, n_max=3)
    opts = kfac.kfac_options(ctx)
    want, atol = oracle.with_noise(p, lambda r: kfac.dense(r, opts))
    ctx.describe(problem=p.label(), **opts, D=p.D, same="uneven")
    op = kfac.make(p, opts)
    ctx.ev("layer.same")
    try:
        M = op @ torch.eye(p.D, dtype=p.dtype)
    except NotImplementedError:
        ctx.ev("layer.same_rejected")
        return
    ctx.close(M, want, "kfac.matrix", "KFAC with 'same' padding", scale=1e-6, atol=atol)


def case(ctx):
    if ctx.coin(0.03):
        return uneven_same(ctx)
    p = kfac.kfac_problem(ctx)
    opts = kfac.kfac_options(ctx)
    if kfac.ambiguous(p, opts):
        opts["fisher_type"] = ctx.pick("empirical", "forward-only")
    want, atol = oracle.with_noise(p, lambda r: kfac.dense(r, opts))
    ref = p.ref()
    T = oracle.terms(ref, ref.fwd(0), p.loss_name == "ce").shape[0]
    extra = {"num_per_example_loss_terms": T} if ctx.coin(0.3) else {}
    ctx.describe(problem=p.label(), **opts, D=p.D)
    op = kfac.make(p, opts, **extra)
    floor = 1e-6 * max(1e-3, max(q.abs().max().item() for q in ref.params))
    ft = opts["fisher_type"]
    ctx.ev(f"kfac.{ft}")
    if any(isinstance(m, torch.nn.Conv2d) for m in p.model.modules()):
        ctx.ev("layer.conv")
    if p.arch.startswith("seq"):
        ctx.ev("layer.seq")
    M = product_checks(ctx, op, want, p, f"kfac", scale=floor, atol=atol)
    check_psd(ctx, M, "kfac", floor, atol)

    # theory: exact per layer for one datum, or deep linear networks with square loss
    exact = p.arch in ("mlp", "linear", "single", "res") and T == 1 and (
        (p.N == 1 and ft in ("type-2", "empirical") and p.arch != "res")
        or (p.arch in ("linear", "single") and p.loss_name == "mse" and ft == "type-2")
    )
    if exact:
        ctx.ev("kfac.exact")
        full = oracle.ggn(ref) if ft == "type-2" else oracle.empirical_fisher(ref)
        keep = torch.zeros_like(full)
        fac = kfac.factors(ref, **opts)
        for K, idx, *_ in kfac.blocks(ref, fac, opts["separate_weight_and_bias"]):
            keep[idx.unsqueeze(1), idx.unsqueeze(0)] = 1
        ctx.close(M, full * keep, "kfac.exact", "exact curvature blocks", scale=floor,
                  atol=atol)
    if ctx.coin(0.1):
        reject(ctx, p)
    if want.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), p.dtype, ft,
                opts["kfac_approx"], opts["separate_weight_and_bias"], p.dict_in)


def reject(ctx, p):
    from curvlinops import KFACLinearOperator as K

    kw = p.kw(check_deterministic=False)
    a = (p.model_func, p.loss, p.params, p.data)
    bn = torch.nn.Sequential(p.model, torch.nn.BatchNorm1d(1)).to(p.dtype)
    which = ctx.pick("loss", "fisher", "mc", "approx", "layer")
    if which == "loss":
        ctx.raises(ValueError, lambda: K(a[0], torch.nn.L1Loss(), *a[2:], **kw),
                   "kfac.reject", "unsupported loss")
    elif which == "fisher":
        ctx.raises(ValueError, lambda: K(*a, **kw, fisher_type="type-3"),
                   "kfac.reject", "unknown Fisher type")
    elif which == "mc":
        ctx.raises(ValueError, lambda: K(*a, **kw, fisher_type="type-2", mc_samples=2),
                   "kfac.reject", "mc_samples without MC")
    elif which == "approx":
        ctx.raises(ValueError, lambda: K(*a, **kw, kfac_approx="contract"),
                   "kfac.reject", "unknown approximation")
    else:
        ctx.raises(NotImplementedError,
                   lambda: K(bn, p.loss, [*p.params, bn[1].weight], p.data, **kw),
                   "kfac.reject", "parameter in unsupported layer")
