"""C07 One linear map: formats, layouts, linearity, columns, adjoint, bad operands."""
import torch
from vf import gen, ops
from vf.common import check_format
from vf.monitor import DataLog

LEVEL = "exploration"
CASES = {"quick": 1440, "thorough": 21600}
MUST = ["op.products", "oracle.rejections", "oracle.linearity", "oracle.adjoint",
        "oracle.columns", "monitor.untouched", "op.empty"]
RULE = (
    "Random operator of every kind; 4-8 operands in random formats, layouts, and column "
    "counts compared with one identity product; linear combinations, adjoint pairing, "
    "and 2-4 malformed operands with logged data access; non-trivial when the matrix is "
    "non-zero."
)


def case(ctx):
    o = ops.random_op(ctx)
    p = o.p
    ctx.describe(op=o.label())
    # the data source is logged to see whether bad operands reach it
    p.data = DataLog(list(p.data))
    op = o.make()
    m, n = op.shape
    tot = lambda ss: sum(torch.Size(s).numel() for s in ss)  # noqa: E731
    ctx.equal((m, n), (tot(o.out_shapes), tot(o.in_shapes)), "map.shape", "shape")
    A = gen.dense(op, p.dtype)
    ctx.equal(tuple(A.shape), (m, n), "map.shape", "identity product shape")
    ctx.equal(A.dtype, p.dtype, "map.dtype", "dtype of the product")
    # floor: entries that vanish by cancellation carry the rounding errors of their terms
    floor = 1e-5 if p.dtype == torch.float64 else 1e-2
    big = max(A.abs().max().item(), floor) if A.numel() else 1.0
    rt = 1e-9 if p.dtype == torch.float64 else 3e-3
    Ad = A.double()

    outs = []
    for _ in range(ctx.r.randint(3, 5)):
        X, v = gen.random_operand(ctx, n, o.in_shapes, p.dtype)
        Y = op @ X
        ctx.ev("op.products")
        if not check_format(ctx, Y, X, v, o.out_shapes, "map"):
            continue
        if not isinstance(Y, list):
            ctx.equal(tuple(Y.shape), (m, *v.shape[1:]), "map.format", "tensor shape")
        Y = gen.to_dense(Y, o.out_shapes)
        ctx.equal(Y.dtype, p.dtype, "map.dtype", "dtype of the product")
        ctx.ev("oracle.columns")
        ctx.close(Y, Ad @ v.double(), "map.product", "product vs columns of the identity "
                  "product", rtol=rt, scale=big)
        outs.append((v, Y))
    # single columns
    K = ctx.r.randint(2, 4)
    V = ctx.randn(n, K, dtype=p.dtype)
    Y = op @ V
    for k in range(K):
        ctx.close(op @ V[:, k], Y[:, k], "map.column", f"column {k} of {K}", rtol=rt,
                  scale=big)
    ctx.ev("oracle.columns")
    # linearity
    a, b = ctx.r.uniform(-2, 2), ctx.r.uniform(-50, 50)
    ctx.ev("oracle.linearity")
    L = op @ (a * V[:, 0] + b * V[:, 1])
    ctx.close(L, a * Y[:, 0].double() + b * Y[:, 1].double(), "map.linear",
              "linear combination", rtol=rt, scale=50 * big)
    s = ctx.pick(1e-3, 1e3)
    ctx.close(op @ (s * V), s * Y.double(), "map.homogeneous", f"operand scaled by {s}",
              rtol=rt, scale=s * big)
    ctx.close(op @ torch.zeros(n, dtype=p.dtype), torch.zeros(m), "map.zero",
              "zero operand", atol=1e-12 * big)
    # zero columns
    if ctx.coin(0.5):
        ctx.ev("op.empty")
        E = op @ torch.zeros(n, 0, dtype=p.dtype)
        ctx.equal(tuple(E.shape), (m, 0), "map.empty", "zero-column tensor")
        E = op @ [torch.zeros((*s, 0), dtype=p.dtype) for s in o.in_shapes]
        ctx.equal([tuple(e.shape) for e in E], [(*s, 0) for s in o.out_shapes],
                  "map.empty", "zero-column list")
    # adjoint
    ad = op.adjoint()
    ctx.ev("oracle.adjoint")
    ctx.equal(tuple(ad.shape), (n, m), "map.adjoint_shape", "adjoint shape")
    X, u = gen.random_operand(ctx, m, o.out_shapes, p.dtype)
    Z = ad @ X
    if check_format(ctx, Z, X, u, o.in_shapes, "map.adjoint"):
        ctx.close(gen.to_dense(Z, o.in_shapes), Ad.T @ u.double(), "map.adjoint",
                  "adjoint product", rtol=rt, scale=big)
    bad_operands(ctx, o, op)
    bad_operands(ctx, o, o.make())
    if A.numel() and A.abs().max() > 0:
        ctx.sig(o.kind, o.extra, p.arch, p.loss_name, p.red, p.sizes, len(p.params),
                p.dtype, p.dict_in)


def bad_operands(ctx, o, op):
    m, n = op.shape
    dt = o.p.dtype
    S = o.in_shapes
    T = lambda *s: torch.zeros(s, dtype=dt)  # noqa: E731
    good = [T(*s) for s in S]
    mat = [T(*s, 2) for s in S]
    pool = [
        ("long vector", T(n + 1)), ("short vector", T(n - 1)), ("long matrix", T(n + 1, 2)),
        ("rank 3", T(n, 1, 1)), ("0-d", torch.tensor(1.0, dtype=dt)),
        ("row", T(1 if n != 1 else 3, n + 2)), ("row vector", T(1 if n != 1 else 2, n)),
        ("transposed", T(n + 1, n)), ("leading axis", T(1, n, 1)),
        ("row list", [T(1, *s) for s in S] if all((1, *s)[:-1] != tuple(s) for s in S)
         else T(n + 3)), ("short list", good[:-1]),
        ("long list", good + [T(1)]), ("empty list", []),
        ("ragged columns", mat[:-1] + [T(*S[-1], 3)] if len(S) > 1 else T(n + 2)),
        ("mixed vector/matrix", good[:-1] + mat[-1:] if len(S) > 1 else T(n + 2)),
        ("flat entries", [T(max(n, 2) + 1)] if len(S[0]) else [T(2, 2)]), ("tuple", tuple(good)), ("numpy", good[0].numpy()),
        ("list of arrays", [g.numpy() for g in good]), ("none", None), ("scalar", 1.0),
        ("extra axes", [T(*s, 1, 1) for s in S]),
        ("leading columns", [T(2, *s) for s in S] if all(
            (2, *s)[:-1] != tuple(s) for s in S) else T(n + 3)),
        ("list of lists", [[1.0]]),
        ("swapped", swapped(S, T) or T(n + 4)),
    ]
    for name, X in ctx.r.sample(pool, ctx.r.randint(2, 4)):
        before = len(o.p.data.log)
        ctx.raises(ValueError, lambda: op @ X, "map.reject", f"operand: {name}")
        ctx.ev("monitor.untouched")
        ctx.equal(len(o.p.data.log), before, "map.untouched",
                  f"traversals of the data for rejected operand ({name})")


def swapped(S, T):
    """Entries in another order, where that is distinguishable."""
    for i in range(len(S) - 1):
        if tuple(S[i]) != tuple(S[i + 1]):
            R = list(S)
            R[i], R[i + 1] = R[i + 1], R[i]
            return [T(*s) for s in R]
    return None
