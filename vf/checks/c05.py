"""C05 Jacobian and transposed Jacobian."""
import torch
from vf import gen, oracle
from vf.common import jac_product_checks

LEVEL = "exploration"
CASES = {"quick": 1600, "thorough": 24000}
MUST = ["jac.products", "jact.products", "adjoint.chain"]
RULE = (
    "Random model x prediction rank x parameter selection/order x uneven batching x "
    "container x dtype; products of the Jacobian, the transpose, their adjoints and "
    "adjoint-of-adjoint chains; non-trivial when the Jacobian is non-zero."
)


def case(ctx):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    p = gen.problem(ctx, losses=("mse", "ce"), archs=gen.ARCHS + ["seq", "img"])
    ref = p.ref()
    J, atol = oracle.with_noise(p, oracle.jacobian)
    out_shape = (p.N,) + tuple(ref.fwd(0).shape[1:])
    P = [tuple(q.shape) for q in p.params]
    O = [out_shape]  # noqa: E741
    kw = p.kw()
    jac = JacobianLinearOperator(p.model_func, p.params, p.data, **kw)
    jact = TransposedJacobianLinearOperator(p.model_func, p.params, p.data, **kw)
    ctx.describe(problem=p.label(), out=out_shape, D=p.D)
    jac_product_checks(ctx, jac, J, P, O, p.dtype, "jac", atol=atol)
    jac_product_checks(ctx, jact, J.T, O, P, p.dtype, "jact", atol=atol)
    op, want, i, o = jac, J, P, O
    name = "jac"
    if ctx.coin():
        op, want, i, o, name = jact, J.T, O, P, "jact"
    for _ in range(ctx.r.randint(1, 3)):
        op, want, i, o = op.adjoint(), want.T, o, i
        name += ".adj"
        ctx.ev("adjoint.chain")
        jac_product_checks(ctx, op, want, i, o, p.dtype, name, n_rand=1, atol=atol)
    if J.abs().max() > 0:
        ctx.sig(p.arch, out_shape, p.sizes, len(p.params), p.dtype, p.dict_in,
                p.num_data is not None)
