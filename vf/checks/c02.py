"""C02 GGN."""
import torch
from vf import gen, oracle
from vf.common import product_checks, check_psd

LEVEL = "exploration"
CASES = {"quick": 1600, "thorough": 24000}
MUST = ["data.interpolated", "op.products", "oracle.psd"]
RULE = (
    "Random model x loss (convex and not) x reduction x parameter selection/order x "
    "batching x dtype x container; labels random or (10%) "
    "the model's own predictions; non-trivial when the reference GGN is non-zero; "
    "distinct by (arch, loss, reduction, batch sizes, #params, dtype, container, count)."
)
LOSSES = ("mse", "mse", "ce", "ce", "bce", "bce", "huber", "cubic", "poisson",
          "ce_smooth", "ce_soft")


def case(ctx):
    from curvlinops import GGNLinearOperator

    p = gen.problem(ctx, losses=LOSSES, archs=gen.ARCHS + ["fold"], fitted=0.1)
    G, atol = oracle.with_noise(p, oracle.ggn)
    op = GGNLinearOperator(p.model_func, p.loss, p.params, p.data, **p.kw())
    ctx.describe(problem=p.label(), D=p.D)
    if ctx.coin(0.1):
        op.to_device(torch.device("cpu"))
    scale = oracle.floor_scale(p.ref())
    M = product_checks(ctx, op, G, p, "ggn", scale=scale, atol=atol)
    if p.loss_name != "cubic":
        check_psd(ctx, M, "ggn", scale, atol)
    if G.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), p.dtype,
                p.dict_in, p.num_data is not None)
