"""Recording SciPy linear operators and random matrices for the NumPy-level parts."""

import numpy as np
from scipy.sparse.linalg import LinearOperator


class Recorder(LinearOperator):
    """Dense matrix as linear operator that logs every operand column it is applied to."""

    def __init__(self, M, log=None, fault=None, name="A"):
        super().__init__(np.dtype(M.dtype), M.shape)
        self.M, self.name, self.fault = M, name, fault
        self.log = [] if log is None else log

    def _col(self, x):
        if self.fault is not None:
            self.fault(len(self.log))
        self.log.append((self.name, np.array(x).reshape(-1)))

    def _matvec(self, x):
        self._col(x)
        return self.M @ x

    def _matmat(self, X):
        for c in X.T:
            self._col(c)
        return self.M @ X

    def _adjoint(self):
        return Recorder(self.M.conj().T.copy(), self.log, self.fault, self.name + "H")

    @property
    def cols(self):
        return [x for _, x in self.log]


class Wrapped(LinearOperator):
    """Logs every operand column applied to an existing SciPy operator."""

    def __init__(self, S, fault=None):
        super().__init__(S.dtype, S.shape)
        self.S, self.fault, self.cols = S, fault, []

    def _matvec(self, x):
        if self.fault is not None:
            self.fault(len(self.cols))
        self.cols.append(np.array(x).reshape(-1))
        return self.S.matvec(x)

    def _matmat(self, X):
        for c in X.T:
            if self.fault is not None:
                self.fault(len(self.cols))
            self.cols.append(np.array(c))
        return self.S.matmat(X)

    def _adjoint(self):
        return self.S.adjoint()


def layout(ctx, x):
    """Same values in a random memory layout."""
    how = ctx.pick("C", "C", "F", "step", "rev", "readonly")
    if how == "F":
        return np.asfortranarray(x)
    if how == "step" and x.shape[0]:
        big = np.full((2 * x.shape[0], *x.shape[1:]), 7, x.dtype)
        big[::2] = x
        return big[::2]
    if how == "rev":
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


def matrix(ctx, m, n, dtype=np.float64):
    """Random dense matrix: full, low rank, ill-scaled, sparse or integer-valued."""
    how = ctx.pick("full", "full", "low", "scaled", "sparse", "int", "diag")
    M = ctx.np.randn(m, n)
    if how == "low":
        k = ctx.r.randint(1, max(1, min(m, n) - 1)) if min(m, n) else 0
        M = ctx.np.randn(m, k) @ ctx.np.randn(k, n)
    elif how == "scaled":
        M = M * 10.0 ** ctx.np.randint(-3, 4, size=(1, n))
    elif how == "sparse":
        M = M * (ctx.np.rand(m, n) < 0.3)
    elif how == "int":
        M = np.rint(3 * M)
    elif how == "diag":
        M = np.eye(m, n) * M
    if np.issubdtype(dtype, np.complexfloating):
        M = M + 1j * ctx.np.randn(m, n)
    return M.astype(dtype), how
