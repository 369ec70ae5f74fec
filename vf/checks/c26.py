"""C26 dense functional-transform references."""
import torch
from vf import gen, oracle
from vf.monitor import Snapshot

LEVEL = "exploration"
CASES = {"quick": 2500, "thorough": 37500}
MUST = ["functorch.hessian", "functorch.ggn", "functorch.ef", "functorch.jacobian",
        "functorch.gradient", "oracle.rejections"]
RULE = (
    "Random model (parameters of rank >= 1) x loss x reduction x batching x container x "
    "selection; every reference function against per-datum autograd references; "
    "non-trivial when the reference is non-zero."
)

# torch.func.hessian of LayerNorm is wrong in the installed PyTorch (forward-over-reverse
# of its backward decomposition), independently of curvlinops: LayerNorm is left out.
ASSUMPTIONS = ["PyTorch's forward-mode derivative of LayerNorm is excluded"]


def case(ctx):
    from curvlinops.examples import functorch as F

    p = gen.problem(
        ctx, forbid=(torch.nn.LayerNorm,), losses=("mse", "ce", "bce"),
        archs=[a for a in gen.ARCHS if a != "custom"] + ["seq", "img"],
        allow_func=False, max_dim=35, n_max=5, dtype=torch.float64,
    )
    ref = p.ref()
    ctx.describe(problem=p.label(), D=p.D)
    kw = {"input_key": "x"} if p.dict_in else {}
    which = ctx.pick("hessian", "ggn", "ef", "jacobian", "gradient")
    snap = Snapshot(p.model, p.params, rng=False)
    args = (p.model, p.loss, p.params, p.data)
    ctx.ev(f"functorch.{which}")
    if which == "hessian":
        want = oracle.hessian(ref)
        ctx.close(F.functorch_hessian(*args, **kw), want, "functorch.hessian", "Hessian")
    elif which == "ggn":
        want = oracle.ggn(ref)
        ctx.close(F.functorch_ggn(*args, **kw), want, "functorch.ggn", "GGN")
    elif which == "ef":
        want = oracle.empirical_fisher(ref)
        ctx.close(F.functorch_empirical_fisher(*args, **kw), want, "functorch.ef", "EF")
    elif which == "jacobian":
        want = oracle.jacobian(ref)
        got = F.functorch_jacobian(p.model, p.params, p.data, **kw)
        ctx.close(got, want, "functorch.jacobian", "Jacobian")
    else:
        gs, L = oracle.gradient_and_loss(ref)
        got, loss = F.functorch_gradient_and_loss(*args, **kw)
        ctx.equal(len(got), len(gs), "functorch.gradient", "number of gradients")
        want = oracle.flat(gs)
        ctx.close(oracle.flat(list(got)), want, "functorch.gradient", "gradient")
        ctx.close(loss, L, "functorch.gradient", "loss")
    snap.check(ctx, "functorch.model")
    if p.dict_in and ctx.coin(0.5):
        fn = ctx.pick(F.functorch_hessian, F.functorch_ggn, F.functorch_empirical_fisher)
        ctx.raises(ValueError, lambda: fn(*args), "functorch.no_key", "dict without key")
    if want.abs().max() > 0:
        ctx.sig(which, p.arch, p.loss_name, p.red, p.sizes, len(p.params), p.dict_in)
