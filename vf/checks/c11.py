"""C11 The determinism check flags exactly the non-deterministic: injected noise, controls."""
import copy

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
from vf import gen, ops, oracle
from vf.monitor import ForwardLog, Snapshot

LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 120000}
NOISES = ("loss", "grad", "curv_params", "curv_out", "pred", "dropout", "data", "label",
          "curv_sign", "unused", "entry", "keys", "order", "split", "drop", "grow", "loader")
MUST = ["det.control", "det.disabled", "det.flagged", "det.order_ok", "det.small"] + [
    f"noise.{n}" for n in NOISES]
RULE = (
    "Random operator and problem; either deterministic controls (including reordered or "
    "re-split data for operators independent of data order), which must construct, or one "
    "injected non-determinism, confined to one quantity (loss value, gradient, second "
    "derivative, prediction, one mini-batch's inputs or labels, order, split, number of "
    "mini-batches) and often to one mini-batch, at magnitudes down to 20 times the "
    "documented tolerance, which must raise RuntimeError; with the check disabled all must "
    "construct without evaluating loss or model; non-trivial when noise was injected."
)
FIXED = ("mc", "jac", "jact")
RTOL, ATOL = 5e-5, 1e-6


class State:
    """Shared by the noisy parts: where the next noise goes and how it grows."""

    def __init__(self, target):
        self.target = target  # batch index or None for all
        self.batch = 0
        self.k = 0

    def tick(self):
        """Noise multiplier for this evaluation: grows, so no two evaluations agree."""
        if self.target is not None and self.batch != self.target:
            return 0.0
        self.k += 1
        return float(self.k)


class Source:
    """Data source reporting the current item and passing items through ``fn(t, items)``."""

    def __init__(self, items, st, fn=None):
        self.items, self.st, self.fn, self.t = items, st, fn, -1

    def __iter__(self):
        self.t += 1
        items = self.items if self.fn is None else self.fn(self.t, self.items)
        for i, it in enumerate(items):
            self.st.batch = i
            yield it


class NoisyModel(nn.Module):
    def __init__(self, inner, st, how):
        super().__init__()
        self.inner, self.st, self.how = inner, st, how
        if how == "dropout":
            self.drop = nn.Dropout(0.5)
            self.register_buffer("z", (torch.rand(60, dtype=torch.float64) + 0.2) / 15)

    def forward(self, X):
        f = self.inner(X)
        n = torch.zeros_like(f)
        if self.how == "dropout":
            n[:, 0] = self.drop(self.z).sum().to(f.dtype)
        else:
            n[:, 0] = 0.4 * self.st.tick()
        return f + n


def noisy_loss(loss, st, how, params, size):
    """A loss of the same type whose value/gradient/curvature varies between calls."""

    class Noisy(type(loss)):
        def forward(self, f, y):
            L = super().forward(f, y)
            self.calls += 1
            n = size * st.tick()
            if how == "loss":
                return L + n
            s = sum(q.sum() for q in params)
            if how == "grad":
                return L + n * (s - s.detach())
            if how == "curv_params":
                return L + 0.5 * n * (s - s.detach()) ** 2
            if how == "curv_sign":  # no value, no gradient, curvature of constant size
                sign = 1.0 if self.calls % 2 else -1.0
                return 0.0 * L + sign * 0.5 * ((f - f.detach()) ** 2).sum()
            if how == "curv_out":
                return L + 0.5 * n * (f - f.detach()).sum() ** 2
            return L

    out = copy.copy(loss)
    out.__class__ = Noisy
    out.calls = 0
    return out


def make(o, p, model, loss, data, **over):
    """Build recipe ``o`` with another model/loss around the same parameters."""
    keep = p.loss
    p.loss = loss
    try:
        return o.make(model=model, model_func=model, data=data, **over)
    finally:
        p.loss = keep


def risk_of(p, items, N):
    """Total loss (float64) of given items, normalised as the library documents."""
    m = copy.deepcopy(p.model).double()
    tot = 0.0
    with torch.no_grad():
        for X, y in items:
            x = gen.cast(X["x"] if p.dict_in else X, torch.float64)
            y = y.double() if y.is_floating_point() else y
            f = m({"x": x} if p.dict_in else x)
            w = 1.0 if p.red == "sum" else len(x) / N
            tot += w * p.loss(f, y).item()
    return tot


def noticeable(p, fn):
    """Whether consecutive traversals change the total loss well beyond the tolerance."""
    vals = [risk_of(p, fn(t, p.data), p.N) for t in range(10)]
    return all(abs(a - b) > 20 * (ATOL + RTOL * max(abs(a), abs(b)))
               for a, b in zip(vals, vals[1:]))


def with_x(p, item, f):
    X, y = item
    return (type(X)({"x": f(X["x"])}) if p.dict_in else f(X)), y


def reorder(ctx, p, split):
    """Per traversal another order of the data and, optionally, another split."""
    X, y = p.X, p.y

    def fn(t, items):
        g = torch.Generator().manual_seed(t)
        n = len(X)
        perm = torch.randperm(n, generator=g)
        base = torch.arange(n)
        if (perm == base).all() or t % 2 == 0:
            perm = base if t % 2 == 0 else base.flip(0)
        sizes = [len(it[1]) for it in items]
        if split and t % 2:
            sizes = [n] if len(sizes) > 1 else [1, n - 1]
        out, i = [], 0
        for s in sizes:
            j = base[i:i + s] if split else perm[i:i + s]
            x = X[j]
            out.append((type(items[0][0])({"x": x}) if p.dict_in else x, y[j]))
            i += s
        return out

    return fn


def case(ctx):
    mode = ctx.pick("control", "control", "noise", "noise", "noise", "noise", "noise",
                    "disabled", "order_ok")
    f32 = mode in ("control", "disabled") and ctx.coin(0.3)
    p = ops.shared_problem(ctx, dtype=torch.float32 if f32 else torch.float64, max_dim=40,
                           ints=mode in ("control", "order_ok"))
    kinds = [k for k in ops.shared_kinds(p) if k != "kfacinv"]
    noise = ctx.pick(*NOISES)
    if mode in ("noise", "disabled"):
        ok = {"loss": lambda k: k not in ("jac", "jact"),
              "grad": lambda k: k not in ("jac", "jact"),
              "curv_params": lambda k: k == "hessian",
              "curv_out": lambda k: k in ("hessian", "ggn"),
              "curv_sign": lambda k: k in ("hessian", "ggn") and len(p.data) == 1,
              "entry": lambda k: k in FIXED and p.dict_in,
              "keys": lambda k: k in FIXED and p.dict_in,
              "unused": lambda k: k in ("jac", "jact"),
              "order": lambda k: k in FIXED, "split": lambda k: k in FIXED,
              "loader": lambda k: k in FIXED}.get(noise, lambda k: True)
        if not any(ok(k) for k in kinds):
            noise = "data"
            ok = lambda k: True  # noqa: E731
        kinds = [k for k in kinds if ok(k)]
    o = ops.recipe(ctx, p, ctx.pick(*kinds))
    kind = o.kind
    tens = [t for X, y in p.data for t in ((X["x"] if p.dict_in else X), y)]
    st = State(ctx.pick(None, ctx.r.randrange(len(p.data))))
    if mode == "control":
        loss = noisy_loss(p.loss, st, "none", p.params, 0.0)
        data = ctx.pick(p.data, tuple(p.data), gen.ReIterable(p.data))
        if not p.dict_in and ctx.coin(0.3):
            data = DataLoader(TensorDataset(p.X, p.y), batch_size=ctx.r.randint(1, p.N)
                              if kind != "act" else p.N)
        snap = Snapshot(p.model, p.params, tens, rng=False)
        op = make(o, p, p.model, loss, data, check_deterministic=True)
        snap.check(ctx, "determinism.side_effect")
        ctx.ev("det.control")
        ctx.describe(problem=p.label(), kind=kind, options=o.extra, control=True)
        ctx.true(tuple(op.shape)[0] > 0, "determinism.control", "constructed")
        return
    if mode == "order_ok":
        # presented differently every time, but the operator's meaning is the same
        if kind in FIXED or p.N == 1 or kind == "act":
            return
        fn = reorder(ctx, p, ctx.coin())
        op = make(o, p, p.model, p.loss, Source(p.data, st, fn), check_deterministic=True)
        ctx.ev("det.order_ok")
        ctx.describe(problem=p.label(), kind=kind, options=o.extra, control="reordered")
        ctx.sig("order_ok", kind, p.label())
        return
    model, loss, fn, size = p.model, p.loss, None, 1.0
    small = ctx.coin(0.5)
    has_loss = kind not in ("jac", "jact")
    data = None
    if noise in ("loss", "grad", "curv_params", "curv_out"):
        allowed = {"loss": has_loss, "grad": has_loss, "curv_params": kind == "hessian",
                   "curv_out": kind in ("hessian", "ggn")}[noise]
        if not allowed:
            return
        ref = p.ref()
        g, L = oracle.gradient_and_loss(ref)
        w = 1.0
        if p.red == "mean":  # a noisy mini-batch's share of the total
            b = min(p.sizes) if st.target is None else p.sizes[st.target]
            w = b / p.N
        if noise == "loss":
            size = 20 * (ATOL + RTOL * abs(float(L))) / w
        elif noise == "grad":
            size = 20 * (ATOL + RTOL * max(x.abs().max().item() for x in g)) / w
            if kind == "act":
                size = 1.0 / w
        elif noise == "curv_params":
            H = oracle.hessian(p.ref(), None)
            size = 200 * (ATOL + RTOL * H.abs().sum(1).max().item()) / w
        else:
            J = oracle.jacobian(p.ref())
            C = J.shape[0] // p.N
            lo = sum(p.sizes[:st.target or 0])
            rows = J if st.target is None else J[lo * C:(lo + p.sizes[st.target]) * C]
            if rows.sum(0).abs().max() < 1e-2:
                return
            size, small = 1e2, False
        if not small and noise != "curv_out":
            size = max(size, 1.0 / w)
        ctx.ev("det.small", small)
        params = p.params if kind != "act" else list(p.model.parameters())
        if noise in ("grad", "curv_params") and kind != "act" and ctx.coin():
            params = ctx.r.sample(params, 1)
        loss = noisy_loss(p.loss, st, noise, params, size)
    elif noise == "curv_sign":
        if kind not in ("hessian", "ggn") or len(p.data) != 1:
            return
        J = oracle.jacobian(p.ref())
        if (J**2).sum(0).max() < 1e-2:
            return
        loss = noisy_loss(p.loss, st, noise, p.params, 1.0)
    elif noise in ("entry", "keys"):
        if kind not in FIXED or not p.dict_in:
            return
        more = ctx.rand(3, dtype=p.dtype)
        front = ctx.coin()

        def fn(t, items, how=noise):
            out = []
            for i, (X, y) in enumerate(items):
                new = dict(X)
                if st.target is None or i == st.target:
                    if how == "entry":
                        extra = {"extra": more + 0.25 * t}
                    else:
                        extra = {"extra": more} if t % 2 else {}
                    new = {**extra, **new} if front else {**new, **extra}
                out.append((type(X)(new), y))
            return out
    elif noise in ("pred", "dropout"):
        if noise == "dropout":
            st.target = None
        model = NoisyModel(p.model, st, noise).to(p.dtype)
        if kind == "act":
            return
        if kind not in FIXED and p.loss_name == "ce" and p.ref().fwd(0).shape[1] == 1:
            return  # the loss of a single class is constant
        with torch.no_grad():
            model.train() if noise == "dropout" else None
            if noise == "dropout" and any(isinstance(m, nn.BatchNorm1d)
                                          for m in model.modules()):
                return
    elif noise in ("data", "label", "unused"):
        def shift(t, items, what=noise):
            out = []
            for i, (X, y) in enumerate(items):
                if st.target is None or i == st.target:
                    if what in ("data", "unused"):
                        X, y = with_x(p, (X, y), lambda x: x + 0.25 * t)
                    elif p.loss_name == "ce":
                        C = p.ref().fwd(0).shape[1]
                        y = (y + t) % C
                    elif p.loss_name == "bce":
                        y = y if t % 2 else 1 - y
                    else:
                        y = y + 0.25 * t
                out.append((X, y))
            return out

        fn = shift
        if noise == "unused":
            # differing inputs that the model ignores matter when order does
            if kind not in ("jac", "jact"):
                return
            inner = p.model

            class Frozen(nn.Module):
                def __init__(self):
                    super().__init__()
                    self.inner = inner

                def forward(self, X):
                    x = X["x"] if p.dict_in else X
                    z = torch.ones_like(x)
                    return self.inner(type(X)({"x": z}) if p.dict_in else z)

            model = Frozen()
        elif kind not in FIXED and not noticeable(p, fn):
            return
        elif p.loss_name == "ce" and noise == "label" and p.ref().fwd(0).shape[1] == 1:
            return
    elif noise in ("order", "split"):
        if kind not in FIXED or p.N == 1:
            return
        fn = reorder(ctx, p, noise == "split")
    elif noise == "loader":
        # a shuffling loader whose order is meaningful
        if kind not in FIXED or p.dict_in:
            return
        X = ctx.randn(40, *p.X.shape[1:], dtype=p.dtype)
        reps = (40 + p.N - 1) // p.N
        y = torch.cat([p.y] * reps)[:40]
        data = DataLoader(TensorDataset(X, y), batch_size=ctx.r.randint(1, 20), shuffle=True)
        p.num_data = None
    elif noise in ("drop", "grow"):
        if noise == "drop" and len(p.data) == 1:
            return

        def fn(t, items, how=noise):
            if how == "drop":
                return items[:-1] if t % 2 else items
            return list(items) + [items[0]] * t

        if kind not in FIXED and not noticeable(p, fn):
            return
        if kind == "act":
            return
    over = {}
    if kind.startswith("kfac") and noise in ("drop", "grow"):
        # otherwise the inconsistent counts are noticed before
        ref = p.ref()
        over["num_per_example_loss_terms"] = oracle.terms(
            ref, ref.fwd(0), p.loss_name == "ce").shape[0]
    if kind == "act" and fn is not None and noise in ("drop", "grow", "split", "order"):
        return
    ctx.describe(problem=p.label(), kind=kind, options=o.extra, noise=noise, batch=st.target,
                 small=small)
    data = Source(p.data, st, fn) if data is None else data
    what = f"{noise} noise (mini-batch {st.target}, small={small}) for {kind}"
    if mode == "disabled":
        ctx.ev("det.disabled")
        log = ForwardLog(model)
        counted = noisy_loss(p.loss, st, "none", p.params, 0.0) if loss is p.loss else loss
        make(o, p, model, counted, data, check_deterministic=False, **over)
        ctx.equal(counted.calls, 0, "determinism.disabled", "loss evaluations")
        ctx.true(log.n <= 1, "determinism.disabled", f"{log.n} model evaluations")
        log.remove()
        return
    ctx.ev(f"noise.{noise}")
    snap = Snapshot(model, p.params, tens, rng=False)
    ctx.ev("det.flagged")
    ctx.raises((RuntimeError,), lambda: make(o, p, model, loss, data,
                                             check_deterministic=True, **over),
               f"determinism.{noise}", what)
    snap.check(ctx, "determinism.side_effect")
    ctx.sig(noise, kind, st.target, small, p.label())
