"""C29 Repeated use and long data sets do not accumulate memory: lifetime monitor."""
import gc
import weakref

import numpy as np
import torch

from vf import gen, ops
from vf.monitor import Injected

LEVEL = "exploration"
CASES = {"quick": 500, "thorough": 7500}
MUST = ["life.batches", "life.predictions", "life.operands", "life.results", "life.peak",
        "life.growth", "life.after_error", "life.gradient", "life.property", "life.scipy",
        "life.estimator", "life.operator", "kind.kfac", "kind.kfacinv", "kind.jac",
        "kind.hessian", "kind.act", "life.construction"]
RULE = (
    "Random operator of every kind on streamed data (every traversal yields fresh tensors) x "
    "histories of products, gradients, properties, exports, estimators and failing products; "
    "weak references to every batch, prediction, operand and result tell when it is released, "
    "live-tensor counts compare early with late repetitions; non-trivial always."
)


class Stream:
    """Yields fresh copies of the batches and tracks how long they live."""

    def __init__(self, items):
        self.items, self.refs, self.peak, self.n = items, [], 0, 0
        self.fail_at = None

    def __iter__(self):
        for i, (X, y) in enumerate(self.items):
            self.peak = max(self.peak, self.live())
            if self.fail_at == i:
                raise Injected("loader")
            X = type(X)({k: _clone(v) for k, v in X.items()}) if hasattr(X, "items") \
                else X.clone()
            y = y.clone()
            self.n += 1
            self.refs.append(weakref.ref(X["x"] if hasattr(X, "items") else X))
            self.refs.append(weakref.ref(y))
            yield X, y
            del X, y

    def live(self):
        self.refs = [r for r in self.refs if r() is not None]
        if self.refs:
            gc.collect()
            self.refs = [r for r in self.refs if r() is not None]
        return len(self.refs)


def _clone(v):
    return v.clone() if isinstance(v, torch.Tensor) else v


def alive(refs):
    if any(r() is not None for r in refs):
        gc.collect()
    return sum(r() is not None for r in refs)


def tensors():
    gc.collect()
    return sum(issubclass(type(o), torch.Tensor) for o in gc.get_objects())


def held(op):
    """Number of items in the containers the operator holds."""
    out, todo, seen = 0, [op.__dict__], set()
    while todo:
        c = todo.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        for v in c.values() if isinstance(c, dict) else c:
            out += 1
            if type(v) in (dict, list, tuple, set):
                todo.append(v)
    return out


def case(ctx):
    gc.collect()
    gc.freeze()
    try:
        run(ctx)
    finally:
        gc.unfreeze()


def run(ctx):
    from curvlinops import HutchinsonTraceEstimator

    o = ops.random_op(ctx, n_max=7)
    p = o.p
    ctx.ev(f"kind.{o.kind}")
    X, y, sizes = p.X, p.y, p.sizes
    if o.kind != "act" and len(sizes) == 1 and p.N > 1 and ctx.coin(0.8):
        sizes = [1] * p.N
        p.data = gen.make_data(ctx, X, y, sizes, p.dict_in, "list", p.rows)
        p.sizes = sizes
    p.data = s = Stream(list(p.data))
    preds = []
    hook = p.model.register_forward_hook(lambda m, i, out: preds.append(weakref.ref(out)))
    det = ctx.coin(0.15)
    ctx.describe(op=o.label(), check=det)

    def settle(what, mine=(), n_before=0):
        """After a request is finished and its result dropped, nothing of it lives on."""
        ctx.ev("life.batches")
        n = s.live()
        ctx.equal(n, 0, "life.batch", f"{what}: batch tensors alive afterwards")
        ctx.ev("life.predictions")
        ctx.equal(alive(preds), 0, "life.prediction", f"{what}: predictions alive afterwards")
        preds.clear()
        s.refs.clear()
        ctx.equal(alive(mine), 0, "life.result", f"{what}: operands or results alive")

    op = o.make(check_deterministic=det)
    settle("construction")
    ctx.ev("life.construction")
    n_in = op.shape[1]
    P = o.in_shapes

    def product():
        Xo, _ = gen.random_operand(ctx, n_in, P, p.dtype)
        Y = op @ Xo
        mine = [weakref.ref(t) for t in (Xo if isinstance(Xo, list) else [Xo])]
        ctx.ev("life.operands", len(mine))
        more = [weakref.ref(t) for t in (Y if isinstance(Y, list) else [Y])]
        ctx.ev("life.results", len(more))
        return mine + more

    def gradient():
        if o.kind in ("jac", "jact", "act", "kfacinv"):
            return product()
        ctx.ev("life.gradient")
        g, loss = op.gradient_and_loss()
        return [weakref.ref(t) for t in [*g, loss]]

    def prop():
        if not o.kind.startswith("kfac") or o.kind == "kfacinv":
            return product()
        ctx.ev("life.property")
        name = ctx.pick("trace", "det", "logdet", "frobenius_norm")
        getattr(op, name)
        return []

    def scipy():
        ctx.ev("life.scipy")
        v = ctx.np.randn(n_in)
        w = op.to_scipy() @ v
        return [weakref.ref(v), weakref.ref(w)]

    def estimator():
        if not o.square:
            return product()
        ctx.ev("life.estimator")
        HutchinsonTraceEstimator(op.to_scipy(dtype=np.float64)).sample()
        return []

    todo = {"product": product, "gradient": gradient, "property": prop, "scipy": scipy,
            "estimator": estimator}
    for _ in range(ctx.r.randint(2, 4)):
        name = ctx.pick(*todo)
        refs = todo[name]()
        settle(f"{o.kind}: {name}", refs)

    if ctx.coin(0.3) and not o.kind.startswith("kfac") and o.kind != "act":
        s.fail_at = ctx.r.randrange(len(s.items))
        try:
            product()
        except Injected:
            pass
        s.fail_at = None
        ctx.ev("life.after_error")
        settle(f"{o.kind}: product failing in the loader")

    # every batch is released before the next but one is loaded
    if len(s.items) >= 3:
        fresh = o.make(check_deterministic=False)
        s.peak = 0
        fresh @ torch.ones(n_in, dtype=p.dtype)
        ctx.ev("life.peak")
        ctx.true(s.peak <= 4, "life.peak",
                 f"{o.kind}: {s.peak} earlier batch tensors alive while streaming "
                 f"{len(s.items)} batches")
        del fresh
        settle("streaming")

    # repetitions keep nothing
    name = ctx.pick(*todo)
    counts, items = [], []
    for k in range(5):
        todo[name]()
        preds.clear()
        s.refs.clear()
        counts.append(tensors())
        items.append(held(op))
    ctx.ev("life.growth")
    ctx.true(not counts[1] < counts[2] < counts[3] < counts[4], "life.growth",
             f"{o.kind}: live tensors after repetitions of {name}: {counts}")
    ctx.true(not items[1] < items[2] < items[3] < items[4], "life.growth",
             f"{o.kind}: entries held by the operator after repetitions of {name}: {items}")

    # the operator itself is released with its last reference
    r = weakref.ref(op)
    del op, product, gradient, prop, scipy, estimator, todo
    ctx.ev("life.operator")
    ctx.equal(alive([r]), 0, "life.operator", f"{o.kind} operator alive after its last use")
    hook.remove()
    ctx.sig(o.kind, o.extra, p.arch, p.loss_name, len(sizes), name, ctx.idx % 7)
