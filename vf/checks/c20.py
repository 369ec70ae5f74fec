"""C20 Outer-product and projector operators against dense sums of outer products."""
import numpy as np
import torch
from scipy.sparse.linalg import aslinearoperator
from vf import ops
from vf.rec import Recorder, layout, matrix

LEVEL = "exploration"
CASES = {"quick": 10000, "thorough": 150000}
MUST = ["outer.products", "outer.adjoint", "outer.single_column", "outer.matrix",
        "outer.composed", "proj.identities", "outer.rank1", "outer.overcomplete",
        "oracle.unmodified", "outer.deflation", "outer.history",
        "outer.integer_vectors"]
RULE = (
    "Random vectors (rank 1 to beyond the dimension, orthonormal bases, ill-scaled, "
    "duplicated and zero columns, integer-valued, any memory layout, single/double precision) and "
    "coefficients of any sign; 5-9 products per operator in forward/adjoint/transposed form, "
    "vector/single-column/matrix operands, alone and in sums, differences, scalings and "
    "compositions; compared with the dense sum; non-trivial when the matrix is non-zero."
)


def case(ctx):
    from curvlinops.outer import OuterProductLinearOperator, Projector

    D, K = ctx.r.randint(1, 9), ctx.r.randint(1, 11)
    proj = ctx.coin(0.4)
    dt = ctx.pick(np.float64, np.float64, np.float64, np.float32)
    tol = 1e-11 if dt is np.float64 else 3e-5
    if proj:
        K = min(K, D)
        A = np.linalg.qr(ctx.np.randn(D, K))[0].astype(dt)
        if ctx.coin(0.2):  # unit vectors
            A = np.eye(D)[:, ctx.np.permutation(D)[:K]].astype(dt)
        how = "basis"
        c = np.ones(K)
    else:
        A, how = matrix(ctx, D, K, dt)
        if ctx.coin(0.2):
            A[:, 0] = A[:, -1]
        if ctx.coin(0.2):
            A[:, 0] = 0
        c = ctx.np.randn(K).astype(ctx.pick(dt, np.float64))
        if ctx.coin(0.2):
            c[0] = 0
        if ctx.coin(0.2):
            c = -np.abs(c)
        if ctx.coin(0.1):  # vectors with whole-number entries, e.g. an incidence matrix
            ctx.ev("outer.integer_vectors")
            A = np.round(2 * ctx.np.randn(D, K)).astype(
                ctx.pick(np.int64, np.int64, np.int32, np.float64))
            how = "integer"
    ctx.ev("outer.rank1", K == 1)
    ctx.ev("outer.overcomplete", K > D)
    A0, c0 = A.copy(), c.copy()
    A_in, c_in = layout(ctx, A), layout(ctx, c)
    keepA, keepc = A_in.copy(), c_in.copy()
    op = Projector(A_in) if proj else OuterProductLinearOperator(c_in, A_in)
    M = sum(float(c0[i]) * np.outer(A0[:, i].astype(float), A0[:, i].astype(float))
            for i in range(K))
    mag = sum(abs(float(c0[i])) * np.linalg.norm(A0[:, i].astype(float)) ** 2
              for i in range(K))
    ctx.describe(D=D, K=K, vectors=how, dtype=np.dtype(dt), projector=proj, c=c0)
    ctx.equal(tuple(op.shape), (D, D), "outer.shape", "shape")
    if proj and ctx.coin(0.7):
        ctx.ev("proj.identities")
        v = ctx.np.randn(D)
        ctx.close(op @ (op @ v), M @ v, "proj.idempotent", "P P v", rtol=10 * tol, scale=1.0)
        ctx.close(op @ A0, A0, "proj.keeps", "P A", rtol=10 * tol, scale=1.0)
        w = v - A0.astype(float) @ (A0.T.astype(float) @ v)
        ctx.close(op @ w, np.zeros(D), "proj.annihilates", "P w", rtol=10 * tol,
                  scale=np.linalg.norm(v))
    seen = []
    for _ in range(ctx.r.randint(5, 9)):
        form = ctx.pick("op", "op", "H", "T", "adj", "sum", "diff", "scale", "comp", "comp2",
                        "defl", "neg", "HH", "pow")
        E, L = M, op
        if form in ("H", "T", "adj", "HH"):
            ctx.ev("outer.adjoint")
            L = {"H": lambda: op.H, "T": lambda: op.T, "adj": op.adjoint,
                 "HH": lambda: op.H.H}[form]()
        elif form in ("sum", "diff", "comp", "comp2", "defl"):
            ctx.ev("outer.composed")
            B = ctx.np.randn(D, D)
            S = Recorder(B) if ctx.coin() else aslinearoperator(B)
            if form == "sum":
                L, E = op + S, M + B
            elif form == "diff":
                L, E = S - op, B - M
            elif form == "comp":
                L, E = op @ S, M @ B
            elif form == "comp2":
                L, E = S @ op, B @ M
            else:
                ctx.ev("outer.deflation")
                I = np.eye(D)  # noqa: E741
                P = aslinearoperator(I) - op
                L, E = P @ S @ P, (I - M) @ B @ (I - M)
            if ctx.coin(0.3):
                L, E = L.H, E.T
                ctx.ev("outer.adjoint")
        elif form == "scale":
            L, E = 2.5 * op, 2.5 * M
        elif form == "neg":
            L, E = -op, -M
        elif form == "pow":
            L, E = op**2, M @ M
        mode = ctx.pick("matvec", "matmat", "at1", "at2", "col", "rmatvec", "rmatmat")
        k = ctx.r.randint(1, 4)
        shape = (D,) if mode in ("matvec", "at1", "rmatvec") else (D, k)
        if mode == "col":
            shape = (D, 1)
        vd = ctx.pick(np.float64, np.float64, np.float32, np.int64)
        v = layout(ctx, (3 * ctx.np.randn(*shape)).astype(vd))
        keep = v.copy()
        if mode in ("matvec", "col"):
            got = L.matvec(v)
        elif mode == "matmat":
            got = L.matmat(v)
        elif mode == "rmatvec":
            got, E = L.rmatvec(v), E.T
        elif mode == "rmatmat":
            got, E = L.rmatmat(v), E.T
        else:
            got = L @ v
        ctx.ev("outer.single_column", len(shape) == 2 and shape[1] == 1)
        ctx.ev("outer.matrix", len(shape) == 2 and shape[1] > 1)
        ctx.ev("outer.products")
        what = f"{form}.{mode} of {v.dtype}{shape}, rank {K}, dim {D}"
        ctx.equal(tuple(got.shape), shape, "outer.result_shape", what)
        s = float(np.abs(keep).max() * max(np.abs(E).max(), mag, 1.0, mag * mag *
                  (form in ("defl", "pow"))))
        ctx.close(got, E @ keep.astype(float), "outer.value", what,
                  rtol=max(tol, 1e-4 if vd is np.float32 else 0), scale=s * D)
        ctx.true(np.isrealobj(got), "outer.type", f"{what}: {got.dtype}")
        ctx.ev("oracle.unmodified")
        ctx.same(v.copy(), keep, "outer.operand", f"operand of {what}")
        ctx.true(not np.shares_memory(got, A_in) and not np.shares_memory(got, v),
                 "outer.alias", f"{what}: result aliases operand or vectors")
        seen.append(form)
        if ctx.coin(0.3):  # writing into a result has no influence on later products
            got[...] = np.nan
            ctx.ev("outer.history")
    ctx.same(A_in.copy(), keepA, "outer.vectors", "stored vectors")
    ctx.same(c_in.copy(), keepc, "outer.coefficients", "stored coefficients")
    if ctx.coin(0.02):  # as used for deflating a curvature matrix
        o = ops.random_op(ctx, kinds=("hessian", "ggn"), dtype=torch.float64)
        G = o.make().to_scipy(dtype=np.float64)
        n = G.shape[0]
        Gd = G @ np.eye(n)
        Q = np.linalg.qr(ctx.np.randn(n, ctx.r.randint(1, n)))[0]
        P = aslinearoperator(np.eye(n)) - Projector(Q)
        I = np.eye(n) - Q @ Q.T  # noqa: E741
        X = ctx.np.randn(n, 2)
        ctx.close((P @ G @ P) @ X, I @ Gd @ I @ X, "outer.value", "deflated curvature",
                  rtol=1e-3 if "32" in str(o.p.dtype) else 1e-9,
                  scale=np.abs(Gd).max() * n)
        ctx.ev("outer.deflation")
    if np.abs(M).max() > 0:
        ctx.sig(D, K, how, np.dtype(dt), proj, tuple(seen))
