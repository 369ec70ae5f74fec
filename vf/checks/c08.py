"""C08 SciPy export: every entry point, dtype and memory layout against the operator."""
import numpy as np
import torch
from scipy.sparse.linalg import ArpackNoConvergence, LinearOperator, eigsh
from vf import gen, ops

LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 18000}
MUST = ["scipy.products", "scipy.complex", "scipy.integer", "scipy.layout",
        "oracle.unmodified", "scipy.eigsh", "scipy.bf16", "scipy.exports"]
RULE = (
    "Random operator of every kind x requested dtype; 6-10 SciPy calls (matvec, matmat, "
    "rmatvec, rmatmat, @, .H, .T, sums, scalings, compositions) with operands of random "
    "dtype (bool, all integer widths, half to complex double) and memory layout "
    "(C/F order, strided, reversed, broadcast, read-only), each compared with the PyTorch "
    "operator; non-trivial when the matrix is non-zero."
)
INTS = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.bool_]
FLOATS = [np.float64, np.float64, np.float32, np.float16]
CPLX = [np.complex64, np.complex128]


def operand(ctx, shape):
    dt = ctx.pick(*FLOATS, *FLOATS, *INTS, *CPLX, *CPLX)
    v = ctx.np.randn(*shape) * 2
    if dt in CPLX:
        ctx.ev("scipy.complex")
        v = (v + 1j * ctx.np.randn(*shape)).astype(dt)
    elif dt in INTS:
        ctx.ev("scipy.integer")
        v = np.abs(np.rint(3 * v)) if dt is np.uint8 else np.rint(3 * v)
        v = (v > 0) if dt is np.bool_ else v.astype(dt)
    else:
        v = v.astype(dt)
    how = ctx.pick("C", "F", "step", "rev", "revall", "broadcast", "readonly", "sub", "C")
    if how != "C":
        ctx.ev("scipy.layout")
    if how == "F":
        v = np.asfortranarray(v)
    elif how == "step":
        big = np.ones((2 * shape[0], *shape[1:]), v.dtype)
        big[::2] = v
        v = big[::2]
    elif how == "rev":
        v = v[::-1]
    elif how == "revall":
        v = v[tuple(slice(None, None, -1) for _ in shape)]
    elif how == "broadcast":
        v = np.broadcast_to(v[:1], shape)
    elif how == "readonly":
        v.flags.writeable = False
    elif how == "sub" and len(shape) == 2:
        big = np.ones((shape[0] + 1, shape[1] + 2), v.dtype)
        big[1:, 1:-1] = v
        v = big[1:, 1:-1]
    return v, how


def reference(op, dtype, v):
    """The PyTorch operator applied to real and imaginary part."""
    f = lambda r: (op @ torch.as_tensor(np.array(r), dtype=dtype)).double().numpy()  # noqa: E731
    if np.iscomplexobj(v):
        return f(v.real.astype(np.float64)) + 1j * f(v.imag.astype(np.float64))
    return f(v.astype(np.float64))


def case(ctx):
    bf16 = ctx.coin(0.08)
    if bf16:
        ctx.ev("scipy.bf16")
        o = ops.random_op(ctx, kinds=("hessian", "ggn", "ef", "jac"), dtype=torch.float32)
        o.p.model.to(torch.bfloat16)
        o.p.dtype = torch.bfloat16
        o.p.data = [(_bf(X), _bf(y)) for X, y in o.p.data]
    else:
        o = ops.random_op(ctx)
    p = o.p
    op = o.make()
    m, n = op.shape
    req = ctx.pick(None, None, np.float32, np.float64, "float32", np.dtype("float64"))
    early = None
    if ctx.coin(0.5):  # an earlier export of the same operator, with its own data type
        ctx.ev("scipy.exports")
        edt = ctx.pick(None, np.float32, np.float64, np.float16)
        early = op.to_scipy(dtype=edt)
    S = op.to_scipy() if req is None and ctx.coin() else op.to_scipy(dtype=req)
    ctx.describe(op=o.label(), dtype=req, bf16=bf16)
    ctx.true(isinstance(S, LinearOperator), "scipy.type", f"{type(S)}")
    ctx.equal(tuple(S.shape), (m, n), "scipy.shape", "shape")
    ctx.equal(S.dtype, np.dtype(req), "scipy.dtype", "requested dtype")
    if early is not None:
        ctx.equal(early.dtype, np.dtype(edt), "scipy.dtype", "data type of the earlier export")
        if ctx.coin(0.3):
            S, req = early, edt
    adj = op.adjoint()
    big = 0.0
    amax = gen.dense(op, p.dtype).double().abs().max().item() if m * n else 0.0
    for _ in range(ctx.r.randint(6, 10)):
        K = ctx.r.randint(1, 3)
        call = ctx.pick("matvec", "matvec1", "matmat", "at", "rmatvec", "rmatmat", "H", "T",
                        "HH", "scale", "sum", "neg", "compose")
        fwd = call not in ("rmatvec", "rmatmat", "H", "T")
        N = n if fwd else m
        shape = (N,) if call in ("matvec", "rmatvec") else (N, K)
        if call == "matvec1":
            shape = (N, 1)
        if call in ("at", "H", "T", "HH", "scale", "sum", "neg", "compose") and ctx.coin():
            shape = (N,)
        v, how = operand(ctx, shape)
        keep = np.array(v)
        exact_type = True
        fac = 1.0
        want = reference(op if fwd else adj, p.dtype, v)
        if call in ("matvec", "matvec1"):
            got = S.matvec(v)
        elif call == "matmat":
            got = S.matmat(v)
        elif call == "rmatvec":
            got = S.rmatvec(v)
        elif call == "rmatmat":
            got = S.rmatmat(v)
        elif call == "H":
            got = S.H @ v
        elif call == "T":
            got = S.T @ v
        elif call == "at":
            got = S @ v
        elif call == "HH":
            got = S.H.H @ v
        else:
            exact_type = False
            if call == "scale":
                fac = 2.5
                got = (2.5 * S) @ v
            elif call == "neg":
                fac = -1.0
                got = (-S) @ v
            elif call == "sum":
                fac = 2.0
                got = (S + S) @ v
            else:  # S^H S v: the inner result is rounded to the operand's type
                w = S @ v
                want = reference(adj, p.dtype, w)
                got = (S.H @ S) @ v
        ctx.ev("scipy.products")
        what = f"{call} of {v.dtype}{shape} ({how})"
        ctx.true(type(got) is np.ndarray, "scipy.plain", f"{what}: {type(got)}")
        ctx.equal(got.shape, (m if fwd and call != "compose" else n, *shape[1:]),
                  "scipy.result_shape", what)
        if exact_type:
            if np.issubdtype(v.dtype, np.inexact):
                ctx.equal(got.dtype, v.dtype, "scipy.result_type", what)
            else:
                ctx.true(np.issubdtype(got.dtype, np.floating), "scipy.result_type",
                         f"{what}: {got.dtype}")
        low = v.dtype in (np.float16,)
        rt = 1e-9
        if p.dtype != torch.float64 or v.dtype in (np.float32, np.complex64):
            rt = 1e-4
        if low:
            rt = 5e-3
        if bf16:
            rt = max(rt, 2e-2)
        top = np.abs(want).max() * abs(fac) if want.size else 0.0
        if low and top > 3e4:
            continue  # out of half-precision range
        atol = 1e-6 if low else (1e-9 if rt > 1e-9 else 1e-14)  # half-precision underflow
        ctx.close(got, fac * want, "scipy.value", what, rtol=rt, atol=atol,
                  scale=abs(fac) * amax * float(np.abs(v.astype(complex)).max(initial=0.0)))
        big = max(big, top)
        ctx.ev("oracle.unmodified")
        ctx.same(np.array(v), keep, "scipy.operand", f"operand of {what}")
        if isinstance(got, np.ndarray):
            ctx.true(not np.shares_memory(got, v), "scipy.alias", f"{what} aliases operand")
    if o.kind in ops.SYMMETRIC and n >= 4 and not bf16 and ctx.coin(0.3) and big > 1e-6:
        ctx.ev("scipy.eigsh")
        A = gen.dense(op, p.dtype).double()
        lam = torch.linalg.eigvalsh((A + A.T) / 2)
        S64 = op.to_scipy(dtype=np.float64)
        top = lam.abs().max().item()
        try:
            got = eigsh(S64, k=1, which="LM", return_eigenvectors=False, tol=1e-5,
                        v0=ctx.np.randn(n))
        except ArpackNoConvergence:  # e.g. eigenvalues of equal magnitude: no verdict
            ctx.ev("scipy.no_convergence")
        else:
            ctx.close(abs(got[0]), top, "scipy.eigsh", "largest eigenvalue magnitude",
                      rtol=1e-3)
    if big > 0:
        ctx.sig(o.kind, o.extra, p.arch, p.loss_name, p.red, p.sizes, len(p.params),
                p.dtype, req)


def _bf(x):
    if isinstance(x, torch.Tensor):
        return x.to(torch.bfloat16) if x.is_floating_point() else x
    if not hasattr(x, "items"):
        return x
    return type(x)({k: _bf(v) for k, v in x.items()})
