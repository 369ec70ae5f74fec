"""C19 Submatrix operators against dense fancy indexing over re-selection histories."""
import numpy as np
import torch
from scipy.sparse.linalg import LinearOperator, aslinearoperator
from vf import ops
from vf.rec import Recorder, layout, matrix

LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 135000}
MUST = ["sub.products", "sub.adjoint", "sub.reselect", "oracle.rejections",
        "sub.after_reject", "sub.single_column", "sub.empty", "sub.curvature",
        "sub.mutated_lists", "sub.nested", "oracle.unmodified"]
RULE = (
    "Random base operator (dense float/complex/integer matrices, rectangular, low-rank, "
    "ill-scaled; real curvature operators exported to SciPy; nested submatrices) and a "
    "random history of 3-9 steps: forward/adjoint products with vectors, single columns "
    "and matrices of random dtype and layout, valid re-selections (empty, permuted, full), "
    "invalid re-selections, caller-side mutation of the index lists; after every step the "
    "operator is compared with dense indexing; non-trivial when a product was compared."
)


def base(ctx):
    if ctx.coin(0.06):
        o = ops.random_op(ctx, dtype=torch.float64)
        op = o.make()
        S = op.to_scipy(dtype=np.float64)
        ctx.ev("sub.curvature")
        M = S @ np.eye(op.shape[1])
        tol = 1e-9 if "float64" in str(o.p.dtype) else 3e-4
        return S, M, tol, o.kind
    m, n = ctx.r.randint(1, 8), ctx.r.randint(1, 8)
    dt = ctx.pick(np.float64, np.float64, np.float64, np.float32, np.complex128, np.int64)
    M, how = matrix(ctx, m, n, dt)
    A = Recorder(M) if ctx.coin(0.7) else aslinearoperator(M)
    tol = 1e-4 if dt is np.float32 else 1e-11
    return A, M, tol, f"{how}/{np.dtype(dt)}"


def selection(ctx, n):
    how = ctx.pick("any", "any", "any", "full", "perm", "empty", "one", "sorted")
    k = ctx.r.randint(1, n)
    idx = ctx.r.sample(range(n), k)
    if how == "full":
        idx = list(range(n))
    elif how == "perm":
        idx = ctx.r.sample(range(n), n)
    elif how == "one":
        idx = idx[:1]
    elif how == "sorted":
        idx = sorted(idx)
    elif how == "empty":
        ctx.ev("sub.empty")
        idx = []
    return idx


def invalid(ctx, n):
    good = ctx.r.sample(range(n), ctx.r.randint(1, n))
    bad = ctx.pick("dup", "neg", "big", "float", "str", "none", "bool", "far")
    x = {"dup": good[0], "neg": -1, "big": n, "float": float(good[0]) if n > 1 else 0.0,
         "str": "0", "none": None, "bool": True, "far": n + 1000}[bad]
    if bad in ("float", "bool", "str", "none"):
        good = good[1:]
    good.insert(ctx.r.randint(0, len(good)), x)
    return good, bad


def product(ctx, S, M, rows, cols, tol, depth=0):
    """One random product of the operator (or a derived one) against dense indexing."""
    D = M[rows][:, cols]
    adj = ctx.coin(0.4)
    mode = ctx.pick("matvec", "matmat", "at1", "at2", "col", "T")
    if mode == "T" and np.iscomplexobj(D):
        mode = "at2"
    if D.shape[0] == 0 or D.shape[1] == 0:
        ctx.ev("sub.empty")
    E, op = D, S
    if mode == "T":
        ctx.ev("sub.adjoint")
        op, E = S.T, D.T
    elif adj:
        ctx.ev("sub.adjoint")
        op, E = ctx.pick(lambda: S.H, lambda: S.adjoint())(), D.conj().T
    if ctx.coin(0.2):
        op = op.H.H if ctx.coin() else op.adjoint().adjoint()
        ctx.ev("sub.adjoint")
    K = ctx.r.randint(1, 3)
    shape = {"matvec": (E.shape[1],), "at1": (E.shape[1],), "col": (E.shape[1], 1)}.get(
        mode, (E.shape[1], K))
    dt = ctx.pick(np.float64, np.float64, np.float32, np.int64, np.complex128)
    v = (3 * ctx.np.randn(*shape))
    v = (v + 1j * ctx.np.randn(*shape)).astype(dt) if dt is np.complex128 else v.astype(dt)
    v = layout(ctx, v)
    keep = v.copy()
    if mode in ("matvec", "col"):
        got = op.matvec(v)
    elif mode == "matmat":
        got = op.matmat(v)
    else:
        got = op @ v
    if mode == "col":
        ctx.ev("sub.single_column")
    ctx.ev("sub.products")
    what = f"{mode} adj={adj} rows={rows} cols={cols} operand {v.dtype}{v.shape}"
    ctx.equal(tuple(got.shape), (E.shape[0],) + shape[1:], "sub.result_shape", what)
    rt = max(tol, 1e-5 if dt is np.float32 else 0)
    ctx.close(np.asarray(got), E @ keep, "sub.value", what, rtol=rt,
              scale=float(np.abs(M).max() * np.abs(keep).max()) if keep.size else 0.0)
    if np.iscomplexobj(E) or np.iscomplexobj(keep):
        pass
    else:
        ctx.true(not np.iscomplexobj(got), "sub.type", f"{what}: complex result")
    ctx.ev("oracle.unmodified")
    ctx.same(v.copy(), keep, "sub.operand", f"operand of {what}")


def case(ctx):
    from curvlinops import SubmatrixLinearOperator

    A, M, tol, kind = base(ctx)
    M0 = M.copy()
    m, n = M.shape
    rows, cols = selection(ctx, m), selection(ctx, n)
    r_in, c_in = list(rows), list(cols)
    S = SubmatrixLinearOperator(A, r_in, c_in)
    ctx.describe(base=kind, shape=(m, n), rows=rows, cols=cols)
    steps = []
    derived = []  # (operator taken from S earlier, its dense matrix)
    for _ in range(ctx.r.randint(3, 9)):
        step = ctx.pick("product", "product", "product", "reselect", "reject", "mutate",
                        "adjoint", "nest")
        steps.append(step)
        if step == "reselect":
            ctx.ev("sub.reselect")
            rows, cols = selection(ctx, m), selection(ctx, n)
            r_in, c_in = list(rows), list(cols)
            S.set_submatrix(r_in, c_in)
        elif step == "reject":
            which = ctx.pick("row", "col", "both")
            br, bc = selection(ctx, m), selection(ctx, n)
            why = []
            if which != "col":
                br, w = invalid(ctx, m)
                why.append(w)
            if which != "row":
                bc, w = invalid(ctx, n)
                why.append(w)
            if ctx.coin(0.7):
                ctx.raises((ValueError,), lambda: S.set_submatrix(br, bc), "sub.reject",
                           f"selection {br}, {bc} ({why}) of {m}x{n}")
            else:
                ctx.raises((ValueError,), lambda: SubmatrixLinearOperator(A, br, bc),
                           "sub.reject", f"new operator with {br}, {bc} ({why}) of {m}x{n}")
            ctx.ev("sub.after_reject")
        elif step == "mutate":
            ctx.ev("sub.mutated_lists")
            for lst in (r_in, c_in):
                how = ctx.pick("append", "clear", "reverse", "set")
                if how == "append":
                    lst.append(0)
                elif how == "clear":
                    lst.clear()
                elif how == "reverse":
                    lst.reverse()
                elif lst:
                    lst[0] = 10**6
        elif step == "adjoint":
            D = M[rows][:, cols]
            derived.append((S.adjoint(), D.conj().T))
        elif step == "nest" and rows and cols:
            ctx.ev("sub.nested")
            r2, c2 = selection(ctx, len(rows)), selection(ctx, len(cols))
            N = SubmatrixLinearOperator(S, r2, c2)
            D = M[rows][:, cols]
            product(ctx, N, D, r2, c2, tol)
        ctx.equal(tuple(S.shape), (len(rows), len(cols)), "sub.shape",
                  f"shape after {step}")
        product(ctx, S, M, rows, cols, tol)
        for d, E in derived:  # adjoints taken earlier keep their selection
            if E.shape[1]:
                x = ctx.np.randn(E.shape[1])
                ctx.close(d @ x, E @ x, "sub.adjoint_kept",
                          "adjoint taken before the selection changed", rtol=max(tol, 1e-10),
                          scale=float(np.abs(M).max()) * 3)
    ctx.true(isinstance(S, LinearOperator), "sub.type", f"{type(S)}")
    ctx.same(M, M0, "sub.base", "base matrix")
    ctx.sig(kind, m, n, tuple(steps), len(rows), len(cols))
