"""C12 Fault recovery: an exception injected at every observable point of a request."""
import copy

import numpy as np
import torch
from torch import nn
from vf import gen, ops, oracle
from vf.checks import c22, c23
from vf.monitor import Injected, Snapshot
from vf.rec import Recorder

LEVEL = "fault_enumeration"
CASES = {"quick": 800, "thorough": 12000}
MUST = ["fault.data", "fault.pre", "fault.post", "fault.backward", "fault.loss",
        "fault.exhausted", "fault.iter", "fault.matvec", "fault.callback", "fault.construct",
        "fault.sequences", "fault.complete", "retry.ok", "retry.other", "kfac.partial",
        "monitor.snapshots"] + [
    f"request.{r}" for r in ("product", "gradient", "property", "inverse", "adjoint",
                             "scipy", "construct", "hutchpp", "lanczos", "hutchinson", "cg",
                             "lsmr", "neumann", "sub")]
RULE = (
    "For a random operator and request, a counting run numbers every point at which user "
    "code runs (data iteration, items, exhaustion, module pre/post hooks, backward passes, "
    "loss, batch-size function; for SciPy-level parts every operator product and callback); "
    "then an exception is raised at every one of these points (all when there are at most "
    "30, else a random 30; thorough: 300), of random type including interrupts, alone or "
    "in a sequence of faults; it must reach the caller, hooks and user state must be as "
    "before, and the retried and other requests must equal undisturbed results; non-trivial "
    "when a fault was injected."
)
EXCS = (Injected, KeyboardInterrupt, MemoryError, ValueError, KeyError, SystemExit, OSError,
        IndexError, NotImplementedError, AttributeError, TypeError, AssertionError,
        ZeroDivisionError, torch.linalg.LinAlgError, np.linalg.LinAlgError)
PROPS = ("trace", "det", "logdet", "frobenius_norm")


class Gate:
    """Numbers the points passed and raises at the armed one."""

    def __init__(self):
        self.disarm()

    def disarm(self):
        self.n, self.at, self.exc, self.kinds, self.fired = 0, None, None, [], False

    def arm(self, at, exc):
        self.disarm()
        self.at, self.exc = at, exc

    def point(self, kind):
        self.n += 1
        self.kinds.append(kind)
        if self.at is not None and self.n - 1 == self.at:
            self.fired = True
            raise self.exc


class GatedData:
    def __init__(self, items, gate):
        self.items, self.gate = items, gate

    def __iter__(self):
        self.gate.point("iter")
        return self._run()

    def _run(self):
        for it in self.items:
            self.gate.point("data")
            yield it
        self.gate.point("exhausted")


def gated_identity(gate):
    class Identity(torch.autograd.Function):
        @staticmethod
        def forward(ctx, x):
            return x.clone()

        @staticmethod
        def backward(ctx, g):
            gate.point("backward")
            return g.clone()

    return Identity.apply


def install(model, gate):
    ident = gated_identity(gate)

    def pre(m, i):
        gate.point("pre")

    def post(m, i, o):
        gate.point("post")
        return ident(o)

    for m in model.modules():
        m.register_forward_pre_hook(pre)
        m.register_forward_hook(post)


def gated_loss(loss, gate):
    class Gated(type(loss)):
        def forward(self, f, y):
            gate.point("loss")
            return super().forward(f, y)

    out = copy.copy(loss)
    out.__class__ = Gated
    return out


class Bench:
    """A gated problem with undisturbed expectations for every request."""

    def __init__(self, ctx, p, o):
        self.ctx, self.p, self.o = ctx, p, o
        self.gate = Gate()
        self.want = ops.snapshot_matrix(o)
        self.base = ops.snapshot_matrix(o, base=True) if o.kind == "kfacinv" else self.want
        ref = p.ref()
        if o.kind not in ("jac", "jact", "act"):
            self.L = oracle.risk(ref)
            g = torch.autograd.grad(self.L, ref.params, allow_unused=True)
            self.g = [torch.zeros_like(q) if x is None else x for q, x in zip(ref.params, g)]
        install(p.model, self.gate)
        self.loss, self.data = gated_loss(p.loss, self.gate), GatedData(p.data, self.gate)
        f = p.batch_size_fn or (lambda X: X.shape[0])

        def bs(X):
            self.gate.point("batch_size")
            return f(X)

        self.bs = bs if ctx.coin(0.5) or p.batch_size_fn else None

    def make(self, **over):
        keep = self.p.loss
        self.p.loss = self.loss
        try:
            return self.o.make(data=self.data, batch_size_fn=self.bs, **over)
        finally:
            self.p.loss = keep

    def requests(self):
        k = self.o.kind
        r = ["product", "product", "adjoint", "scipy", "construct"]
        if k not in ("jac", "jact", "act", "kfacinv"):
            r.append("gradient")
        if k.startswith("kfac"):
            r += ["property"] * 2
        return r

    def prepare(self, request):
        """(fn(op) -> result, check(result)) of one concrete request."""
        ctx, o, dt = self.ctx, self.o, self.p.dtype
        want = self.want
        s = want.abs().max().item()
        if request == "construct":
            chk = o.kind != "kfacinv" and ctx.coin(0.5)
            v = ctx.randn(want.shape[1], dtype=dt)
            return (lambda op: self.make(check_deterministic=chk)), (
                lambda got, what: ctx.close(got @ v, want @ v, "retry.construct", what,
                                            scale=s))
        if request == "gradient":
            def check(got, what):
                sc = max(x.abs().max().item() for x in self.g) + 1e-12
                ctx.close(got[1], self.L.detach(), "retry.loss", what)
                for a, b in zip(got[0], self.g):
                    ctx.close(a, b, "retry.gradient", what, scale=sc)
            return (lambda op: op.gradient_and_loss()), check
        if request == "property":
            name = ctx.pick(*PROPS)
            M = self.base

            def check(got, what):
                got = torch.as_tensor(float(got), dtype=torch.float64)
                if name in ("trace", "frobenius_norm"):
                    w = M.trace() if name == "trace" else M.norm()
                    ctx.close(got, w, f"retry.{name}", what, scale=M.norm().item())
            return (lambda op: getattr(getattr(op, "vf_base", op), name)), check
        if request == "adjoint":
            v = ctx.randn(want.shape[0], 2, dtype=dt)
            return (lambda op: op.adjoint() @ v), (
                lambda got, what: ctx.close(got, want.T @ v, "retry.adjoint", what, scale=s))
        if request == "scipy":
            v = ctx.randn(want.shape[1], dtype=dt)
            return (lambda op: op.to_scipy() @ v.numpy()), (
                lambda got, what: ctx.close(got, want @ v, "retry.scipy", what, scale=s))
        X, v = gen.random_operand(ctx, want.shape[1], o.in_shapes, dt)

        def check(got, what):
            ctx.close(gen.to_dense(got, o.out_shapes), want @ v, "retry.product", what,
                      scale=s)
        return (lambda op: op @ X), check


def attempt(ctx, gate, fn, at, exc, what):
    """Run ``fn`` with a fault at point ``at``; True if the fault was reached."""
    gate.arm(at, exc)
    try:
        fn()
    except BaseException as e:
        if e is not exc:
            if not gate.fired:
                raise
            ctx.fail("fault.replaced", f"{what}: caller saw {type(e).__name__}: {e}")
        fired = True
    else:
        fired = gate.fired
        if fired:
            ctx.fail("fault.swallowed", f"{what}: no exception reached the caller")
    gate.disarm()
    return fired


def case(ctx):
    mode = ctx.pick("curv", "curv", "curv", "curv", "hutchpp", "lanczos", "hutchinson",
                    "solver")
    if mode != "curv":
        return {"hutchpp": hutchpp, "lanczos": lanczos, "hutchinson": hutchinson,
                "solver": solver}[mode](ctx)
    p = ops.shared_problem(ctx, dtype=torch.float64, n_max=3, max_dim=30)
    kinds = ops.shared_kinds(p)
    o = ops.recipe(ctx, p, ctx.pick(*kinds))
    b = Bench(ctx, p, o)
    request = ctx.pick(*b.requests())
    fn, check = b.prepare(request)
    gate = b.gate
    # counting run
    op = None if request == "construct" else b.make()
    gate.disarm()
    got = fn(op)
    n, kinds = gate.n, list(gate.kinds)
    ctx.ev(f"request.{'inverse' if o.kind == 'kfacinv' and request == 'product' else request}")
    check(got, f"undisturbed {request}")
    cap = 30 if ctx.tier == "quick" else 300
    points = list(range(n)) if n <= cap else sorted(ctx.r.sample(range(n), cap))
    ctx.ev("fault.complete", n <= cap)
    ctx.describe(problem=p.label(), kind=o.kind, options=o.extra, request=request, points=n)
    tens = [t for X, y in p.data for t in ((X["x"] if p.dict_in else X), y)]
    keep = ctx.coin(0.3) and not o.kind.startswith("kfac")  # one operator takes all faults
    for at in points:
        gate.disarm()
        if request != "construct" and not (keep and op is not None):
            op = b.make()
        snap = Snapshot(p.model, p.params, tens, rng=request != "construct")
        exc = ctx.pick(*EXCS)("injected")
        what = f"{o.kind} {request}, {type(exc).__name__} at point {at}/{n} ({kinds[at]})"
        if not attempt(ctx, gate, lambda: fn(op), at, exc, what):
            ctx.fail("fault.lost", f"{what}: point not reached")
            continue
        ctx.ev(f"fault.{kinds[at]}")
        ctx.ev("fault.construct", request == "construct")
        ctx.ev("kfac.partial", o.kind.startswith("kfac") and kinds[at] != "iter")
        snap.check(ctx, "fault")
        # more faults in a row, possibly during other requests
        while ctx.coin(0.25):
            ctx.ev("fault.sequences")
            r2 = ctx.pick(*b.requests())
            fn2, _ = b.prepare(r2)
            if op is None and r2 != "construct":
                continue
            exc = ctx.pick(*EXCS)("injected again")
            attempt(ctx, gate, lambda: fn2(op), ctx.r.randrange(n), exc,
                    f"{what}, then {r2}")
            if r2 == "construct":
                snap = Snapshot(p.model, p.params, tens, rng=False) if not ctx.fails else snap
            snap.check(ctx, "fault")
        # retry and other requests
        todo = [(fn, check, "retry")]
        r3 = ctx.pick(*b.requests())
        if op is not None or r3 == "construct":
            todo.append((*b.prepare(r3), r3))
        if ctx.coin():
            todo.reverse()
        for f3, c3, name in todo:
            ctx.ev("retry.ok" if name == "retry" else "retry.other")
            c3(f3(op), f"{name} after {what}")
        snap = Snapshot(p.model, p.params, tens, rng=False)
        ctx.sig(o.kind, o.extra, request, kinds[at], type(exc).__name__, p.label())
        if ctx.fails:
            return


# ------------------------------------------------------------------- SciPy-level parts
def random_matrix(ctx, n):
    Q = np.linalg.qr(ctx.np.randn(n, n))[0]
    lam = np.sort(0.4 + np.cumsum(0.3 + ctx.np.rand(n)))
    lam = lam / lam[-1]
    M = Q @ np.diag(lam) @ Q.T
    return (M + M.T) / 2


def gated_recorder(M, gate):
    return Recorder(M, fault=lambda i: gate.point("matvec"))


def hutchpp(ctx):
    ctx.ev("request.hutchpp")
    n = ctx.r.randint(2, 6)
    M = random_matrix(ctx, n)
    b = ctx.r.randint(1, n - 1)
    bd = ctx.pick("rademacher", "normal")
    for at in range(2 * b + 1):
        gate = Gate()
        A = gated_recorder(M, gate)
        est = c22.make(A, b, bd, True)
        attempts = []
        pts = [at] + [ctx.r.randrange(2 * b + 1) for _ in range(ctx.pick(0, 0, 1, 2))]
        for k in pts:
            A.log.clear()
            exc = ctx.pick(*EXCS)("injected")
            hit = attempt(ctx, gate, lambda: est.sample("normal"), k, exc,
                          f"Hutch++ product {k}")
            attempts.append(list(A.cols) if hit else list(A.cols)[:-1])
            ctx.ev("fault.matvec")
        for t in range(2):
            A.log.clear()
            d = ctx.pick("rademacher", "normal")
            got = est.sample(d)
            attempts.append(list(A.cols))
            cols = [c for a in attempts for c in a]
            Q, w = np.array(cols[-1 - b:-1]).T, cols[-1]
            if t == 0:
                if len(attempts[-1]) == 2 * b + 1:
                    Q, _ = c22.check_basis(ctx, cols[-1 - 2 * b:-1], b, M, bd)
                Q0 = Q
            Q = Q0
            ctx.close(Q.T @ Q, np.eye(b), "retry.hutchpp_basis", f"basis after faults {pts}",
                      rtol=1e-9)
            tr = float(np.trace(Q.T @ M @ Q))
            ctx.ev("retry.ok")
            ctx.close(np.asarray(got), np.asarray(tr + w @ M @ w), "retry.hutchpp",
                      f"sample {t} after faults {pts} of {2 * b + 1}", rtol=1e-9,
                      scale=max(1.0, w @ w))
            ctx.close(Q.T @ w, np.zeros(b), "retry.hutchpp", "basis^T probe", rtol=1e-9,
                      scale=max(np.linalg.norm(w), 1.0))
        ctx.sig("hutchpp", n, b, tuple(pts), ctx.idx)
        if ctx.fails:
            return


def hutchinson(ctx):
    import curvlinops as C

    ctx.ev("request.hutchinson")
    n = ctx.r.randint(1, 6)
    M = ctx.np.randn(n, n)
    gate = Gate()
    A = gated_recorder(M, gate)
    name = ctx.pick("trace", "diag", "norm")
    est = {"trace": C.HutchinsonTraceEstimator, "diag": C.HutchinsonDiagonalEstimator,
           "norm": C.HutchinsonSquaredFrobeniusNormEstimator}[name](A)
    for t in range(ctx.r.randint(2, 5)):
        d = ctx.pick("rademacher", "normal")
        if ctx.coin(0.6):
            exc = ctx.pick(*EXCS)("injected")
            attempt(ctx, gate, lambda: est.sample(d), 0, exc, f"{name} sample")
            ctx.ev("fault.matvec")
        A.log.clear()
        seed = ctx.r.randint(0, 99)
        np.random.seed(seed)
        got = est.sample(d)
        ctx.equal(len(A.log), 1, "retry.products", f"products of a {name} sample")
        (v,) = A.cols
        want = {"trace": v @ M @ v, "diag": v * (M @ v), "norm": (M @ v) @ (M @ v)}[name]
        ctx.close(np.asarray(got), np.asarray(want), "retry.hutchinson", name, rtol=1e-9,
                  scale=max(1.0, v @ v) * np.abs(M).max() * n)
        ctx.ev("retry.ok")
        # an undisturbed estimator draws the same sample from the same random state
        np.random.seed(seed)
        fresh = type(est)(Recorder(M)).sample(d)
        ctx.close(np.asarray(got), np.asarray(fresh), "retry.hutchinson",
                  f"{name} sample against an undisturbed one", rtol=1e-12)
    ctx.sig("hutchinson", name, n, ctx.idx)


def lanczos(ctx):
    from curvlinops.papyan2020traces.spectrum import (
        LanczosApproximateLogSpectrumCached as Log,
    )
    from curvlinops.papyan2020traces.spectrum import (
        LanczosApproximateSpectrumCached as Lin,
    )

    ctx.ev("request.lanczos")
    n = ctx.r.randint(4, 8)
    M = random_matrix(ctx, n)
    ncv = ctx.r.randint(2, n - 2)
    log = ctx.coin()
    lam = np.linalg.eigvalsh(M)
    lo, hi = lam[0], lam[-1]
    gate = Gate()
    A = gated_recorder(M, gate)
    # faults while the boundaries are estimated: construction fails, a new one succeeds
    if ctx.coin(0.4):
        for k in range(ctx.r.randint(1, 3)):
            exc = ctx.pick(*EXCS)("injected")
            attempt(ctx, gate, lambda: (Log if log else Lin)(A, ncv), k, exc,
                    "estimation of boundaries")
            ctx.ev("fault.matvec")
    est = (Log if log else Lin)(A, ncv, boundaries=(lo, hi))
    A.log.clear()
    starts = []
    hist = []
    for _ in range(ctx.r.randint(2, 5)):
        r = ctx.r.randint(1, 4)
        P = ctx.r.randint(2, 9)
        f = (lambda: est.approximate_log_spectrum(r, num_points=P)) if log else (
            lambda: est.approximate_spectrum(r, num_points=P))
        gate.disarm()
        if ctx.coin(0.6):
            A.log.clear()
            k = ctx.r.randrange(max(1, (r + 1) * ncv))
            exc = ctx.pick(*EXCS)("injected")
            if attempt(ctx, gate, f, k, exc, f"Lanczos product {k}"):
                ctx.ev("fault.matvec")
                hist.append(f"fault@{k}")
            cols = A.cols
            starts += [cols[i] for i in range(0, len(cols), ncv) if i + ncv <= len(cols)]
        A.log.clear()
        grid, dens = f()
        cols = A.cols
        ctx.equal(len(cols) % ncv, 0, "retry.products", f"products, ncv={ncv}")
        starts += [cols[i] for i in range(0, len(cols), ncv)]
        hist.append(r)
        # whole runs only: the first ``r`` kept ones (nothing kept is also fine)
        new = len(cols) // ncv
        cands = [starts[:r]] if new == 0 or len(starts) - new < r else []
        cands.append(starts[-r:])
        ok = False
        for c in cands:
            if len(c) < r:
                continue
            runs = [c23.lanczos(M, s, ncv) for s in c]
            if min(x[2] for x in runs) < 1e-6:
                return  # invariant subspace: the quadrature is not determined
            g, w = c23.density([x[:2] for x in runs], lo, hi, P, 3.0, 0.05,
                               1e-5 if log else None)
            if np.abs(w - dens).max() <= 1e-6 * max(np.abs(w).max(), 1e-300):
                ok = True
        ctx.ev("retry.ok")
        ctx.true(ok, "retry.lanczos", f"density of {r} runs after {hist} (ncv={ncv}, log={log})")
        if ctx.fails:
            return
    ctx.sig("lanczos", n, ncv, log, tuple(hist))


def solver(ctx):
    import curvlinops as C

    n = ctx.r.randint(1, 6)
    M = random_matrix(ctx, n)
    gate = Gate()
    A = gated_recorder(M, gate)
    name = ctx.pick("cg", "lsmr", "neumann", "sub")
    ctx.ev(f"request.{name}")
    if name == "cg":
        op = C.CGInverseLinearOperator(A)
        cb = ctx.coin()
        op.set_cg_hyperparameters(tol=1e-10,
                                  callback=(lambda x: gate.point("callback")) if cb else None)
    elif name == "lsmr":
        op = C.LSMRInverseLinearOperator(A)
        op.set_lsmr_hyperparameters(atol=1e-12, btol=1e-12)
    elif name == "neumann":
        op = C.NeumannInverseLinearOperator(A, num_terms=ctx.r.randint(1, 6))
    else:
        rows = ctx.r.sample(range(n), ctx.r.randint(1, n))
        cols = ctx.r.sample(range(n), ctx.r.randint(1, n))
        op = C.SubmatrixLinearOperator(A, rows, cols)
    K = ctx.pick(None, 1, 2)
    x = ctx.np.randn(op.shape[1]) if K is None else ctx.np.randn(op.shape[1], K)
    gate.disarm()
    want = op @ x
    N, kinds = gate.n, list(gate.kinds)
    if name == "sub":
        ctx.close(want, M[np.ix_(rows, cols)] @ x, "retry.sub", "undisturbed submatrix product")
    elif name in ("cg", "lsmr"):
        ctx.close(want, np.linalg.solve(M, x), f"retry.{name}", "undisturbed solve", rtol=1e-4)
    xb = x.copy()
    for at in range(N):
        exc = ctx.pick(*EXCS)("injected")
        what = f"{name}, {type(exc).__name__} at point {at}/{N} ({kinds[at]})"
        attempt(ctx, gate, lambda: op @ x, at, exc, what)
        ctx.ev(f"fault.{kinds[at]}")
        ctx.same(x, xb, "fault.operand", f"operand after {what}")
        if ctx.coin(0.3):
            attempt(ctx, gate, lambda: op @ x, ctx.r.randrange(N), Injected("again"), what)
        ctx.ev("retry.ok")
        ctx.close(op @ x, want, f"retry.{name}", f"retry after {what}", rtol=1e-12)
        ctx.sig(name, n, K, kinds[at], at, type(exc).__name__)
        if ctx.fails:
            return
