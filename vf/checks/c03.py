"""C03 empirical Fisher."""
import torch
from vf import gen, oracle
from vf.common import product_checks, check_psd

LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 18000}
MUST = ["data.near_interpolated", "op.products", "oracle.psd", "oracle.rank", "oracle.rejections"]
RULE = (
    "Random model x {MSE, CE, BCE} x reduction x 2d/3d/4d predictions x parameter "
    "selection/order x batching x dtype x container; labels random or (10%) as close as "
    "1e-7 to the prediction; non-trivial when the reference is "
    "non-zero; distinct by (arch, loss, reduction, batches, #params, dtype, container)."
)


def case(ctx):
    from curvlinops import EFLinearOperator

    near = 10 ** -ctx.r.uniform(1, 7) if ctx.coin(0.1) else None
    kw = dict(losses=("mse", "bce"), dtype=torch.float64, near=near) if near else {}
    p = gen.problem(ctx, archs=gen.ARCHS + ["seq", "img"], **kw)
    if not near and p.loss_name == "bce" and ctx.coin(0.3):  # soft labels
        p.y = ctx.rand(*p.y.shape, dtype=p.dtype)
        p.data = gen.make_data(ctx, p.X, p.y, p.sizes, p.dict_in)
    ref = p.ref()
    E, atol = oracle.with_noise(p, oracle.empirical_fisher)
    op = EFLinearOperator(p.model_func, p.loss, p.params, p.data, **p.kw())
    ctx.describe(problem=p.label(), D=p.D)
    scale, rtol = oracle.floor_scale(ref), None
    if near:  # residuals, and hence gradients, are that small (but for their rounding)
        scale, rtol = scale * near**2, 1e-8 + 1e-13 / near
    M = product_checks(ctx, op, E, p, "ef", scale=scale, atol=atol, rtol=rtol)
    check_psd(ctx, M, "ef", scale, atol)
    f = ref.fwd(0)
    T = oracle.terms(ref, f, p.loss_name == "ce").shape[0] * p.N
    if p.dtype == torch.float64 and T < p.D and not near:
        ctx.ev("oracle.rank")
        s = torch.linalg.svdvals(M.double())
        ctx.true(s[T] <= 1e-8 * max(s[0].item(), 1e-300), "ef.rank",
                 f"rank exceeds {T} loss terms: {s[: T + 2]}")
    if ctx.coin(0.1):
        ctx.raises(
            NotImplementedError,
            lambda: EFLinearOperator(
                p.model_func, torch.nn.L1Loss(), p.params, p.data, **p.kw()
            ),
            "ef.unsupported", "unsupported loss",
        )
    if E.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), p.dtype,
                p.dict_in, p.num_data is not None)
