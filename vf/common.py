"""Checks shared by several properties."""

import torch

from vf import gen


def check_format(ctx, Y, X, v, shapes, name):
    if not ctx.equal(isinstance(Y, list), isinstance(X, list), f"{name}.format",
                     "result format follows operand"):
        return False
    tail = tuple(v.shape[1:])
    if isinstance(Y, list):
        return ctx.equal([tuple(y.shape) for y in Y], [tuple(s) + tail for s in shapes],
                         f"{name}.format", "result list shapes")
    return True


def product_checks(ctx, op, want, p, name, scale=0.0, rtol=None, n_rand=2,
                   atol=0.0):
    """Dense matrix and random-format products against a square dense reference."""
    shapes = [tuple(q.shape) for q in p.params]
    return general_product_checks(
        ctx, op, want, shapes, shapes, p.dtype, name, scale, rtol, n_rand, atol
    )


def general_product_checks(
    ctx, op, want, in_shapes, out_shapes, dtype, name, scale=0.0, rtol=None, n_rand=2,
    atol=0.0,
):
    ctx.equal(tuple(op.shape), tuple(want.shape), f"{name}.shape", "operator shape")
    M = gen.dense(op, dtype)
    ctx.ev("op.products")
    ctx.true(M.dtype == dtype, f"{name}.dtype", f"{M.dtype} != {dtype}")
    ctx.close(M, want, f"{name}.matrix", f"dense {name}", scale=scale, rtol=rtol,
              atol=atol)
    for _ in range(n_rand):
        X, v = gen.random_operand(ctx, op.shape[1], in_shapes, dtype)
        Y = op @ X
        ctx.ev("op.products")
        if not check_format(ctx, Y, X, v, out_shapes, name):
            continue
        Y = gen.to_dense(Y, out_shapes)
        ctx.close(Y, want @ v.double(), f"{name}.product", f"{name} @ operand",
                  scale=scale + want.abs().max().item(), rtol=rtol,
                  atol=4 * atol * op.shape[1] ** 0.5)
    return M


def jac_product_checks(ctx, op, want, i, o, dtype, name, n_rand=2, atol=0.0):
    ctx.ev(name.split(".")[0] + ".products")
    return general_product_checks(ctx, op, want, i, o, dtype, name, n_rand=n_rand,
                                  atol=atol)


def check_psd(ctx, M, name, scale=0.0, atol=0.0):
    ctx.ev("oracle.psd")
    tol = 1e-8 if M.dtype == torch.float64 else 2e-3
    M = M.double()
    s = max(M.abs().max().item(), scale, 1e-300)
    asym = (M - M.T).abs().max().item()
    ctx.true(asym <= tol * s + atol, f"{name}.symmetric", f"asymmetry {asym:.2e} vs {s:.2e}")
    lo = torch.linalg.eigvalsh((M + M.T) / 2).min().item()
    ctx.true(lo >= -tol * s - atol * len(M), f"{name}.psd", f"negative eigenvalue {lo:.2e} vs {s:.2e}")
