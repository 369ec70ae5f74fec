"""C01 Hessian."""
import torch
from vf import gen, oracle
from vf.common import product_checks

LEVEL = "exploration"
CASES = {"quick": 800, "thorough": 12000}
MUST = ["data.interpolated", "op.products", "oracle.comparisons", "op.blocks"]
RULE = (
    "Random model x loss x reduction x parameter selection/order x batching x block "
    "partition x dtype x input container; labels random or (10%) "
    "the model's own predictions; non-trivial when the reference Hessian is "
    "non-zero; distinct by (arch, loss, reduction, batch sizes, #params, blocks, dtype, "
    "container, num_data given)."
)
LOSSES = ("mse", "mse", "ce", "ce", "bce", "huber", "cubic", "cubic", "poisson",
          "ce_smooth", "ce_soft")


def case(ctx):
    from curvlinops import HessianLinearOperator

    p = gen.problem(ctx, losses=LOSSES, archs=gen.ARCHS + ["fold"], fitted=0.1)
    blocks = None
    if ctx.coin(0.5):
        blocks, left = [], len(p.params)
        while left:
            b = ctx.r.randint(1, left)
            blocks.append(b)
            left -= b
        ctx.ev("op.blocks")
    ref = p.ref()
    H, atol = oracle.with_noise(p, lambda r: oracle.hessian(r, blocks))
    op = HessianLinearOperator(
        p.model_func, p.loss, p.params, p.data, **p.kw(), block_sizes=blocks
    )
    ctx.describe(problem=p.label(), blocks=blocks, D=p.D)
    if ctx.coin(0.1):
        op.to_device(torch.device("cpu"))
    scale = oracle.floor_scale(ref)
    if blocks:
        scale += oracle.hessian(ref).abs().max().item()
    product_checks(ctx, op, H, p, "hessian", scale=scale, atol=atol)
    if H.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), blocks, p.dtype,
                p.dict_in, p.num_data is not None)
