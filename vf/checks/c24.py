"""C24 Activation Hessian against a dense second derivative w.r.t. an added perturbation."""
import copy
from collections import namedtuple

import torch
from torch import nn
from vf import gen, ops
from vf.common import check_psd, general_product_checks  # noqa: F401
from vf.monitor import DataLog, Injected, Snapshot

LEVEL = "exploration"
CASES = {"quick": 2500, "thorough": 37500}
MUST = ["op.products", "act.multi", "act.input", "act.output", "oracle.rejections",
        "act.fault", "act.inplace", "act.x", "monitor.snapshots", "act.repeat",
        "reject.batches", "reject.layer", "reject.kind", "reject.position"]
RULE = (
    "Random model (chains, CNNs, residual, multi-input/multi-output layers with "
    "tuple/list/namedtuple outputs, in-place activations), random layer input/output tensor, "
    "loss, reduction, dtype and operands; products are compared with the dense second "
    "derivative of the loss w.r.t. an additive perturbation of exactly that tensor; invalid "
    "requests must raise; hooks, parameters and gradients are compared before/after, also "
    "when model or loss raise; non-trivial when the Hessian is non-zero."
)
Pair = namedtuple("Pair", ["u", "v"])


class Mix(nn.Module):
    """Two inputs, two outputs, a parameter."""

    def __init__(self, d, kind):
        super().__init__()
        self.lin = nn.Linear(d, d)
        self.kind = kind

    def forward(self, a, b):
        u = torch.tanh(self.lin(a) * b)
        v = a * torch.sigmoid(b) + 0.5 * b
        return {"tuple": lambda: (u, v), "list": lambda: [u, v],
                "named": lambda: Pair(u, v)}[self.kind]()


class Multi(nn.Module):
    def __init__(self, d, h, C, kind):
        super().__init__()
        self.left = nn.Sequential(nn.Linear(d, h), nn.Tanh())
        self.right = nn.Linear(d, h)
        self.mix = Mix(h, kind)
        self.gate = nn.Bilinear(h, h, h)
        self.head = nn.Linear(h, C)

    def forward(self, x):
        out = self.mix(self.left(x), self.right(x))
        u, v = out[0], out[1]
        return self.head(self.gate(u, v) + u * v + v)


def multi_problem(ctx):
    def build(c, ln):
        C = c.r.randint(2, 3) if ln == "ce" else c.r.randint(1, 2)
        m = Multi(c.r.randint(1, 2), c.r.randint(1, 2), C, c.pick("tuple", "list", "named"))
        return "multi", m, (m.right.in_features,)

    p = gen.problem(ctx, builder=build, n_max=3, sizes=lambda N: [N], allow_func=False,
                    subset=False, allow_dict=False, freeze=False, check_det=None,
                    max_dim=200, losses=("mse", "ce", "bce", "cubic"))
    h, N = p.model.right.out_features, p.N
    acts = [(("mix", "input", 0), h), (("mix", "input", 1), h), (("mix", "output", 0), h),
            (("mix", "output", 1), h), (("gate", "input", 0), h), (("gate", "input", 1), h),
            (("left.0", "output", 0), h), (("left.1", "input", 0), h),
            (("left", "output", 0), h), (("right", "output", 0), h),
            (("mix.lin", "output", 0), h), (("head", "input", 0), h),
            (("", "output", 0), p.model.head.out_features)]
    act, w = ctx.pick(*acts)
    return p, act, (N, w)


def inplace_problem(ctx):
    def build(c, ln):
        C = c.r.randint(2, 3)
        d, h = c.r.randint(1, 3), c.r.randint(1, 3)
        act = lambda: c.pick(nn.ReLU, nn.ELU, nn.SiLU)(inplace=True)  # noqa: E731
        m = nn.Sequential(nn.Linear(d, h), act(), nn.Sequential(nn.Linear(h, h), act()),
                          nn.Linear(h, C))
        return "inplace", m, (d,)

    p = gen.problem(ctx, builder=build, n_max=3, sizes=lambda N: [N], allow_func=False,
                    subset=False, allow_dict=False, freeze=False, check_det=None,
                    losses=("mse", "ce", "bce"))
    h = p.model[0].out_features
    act = ctx.pick(("0", "output", 0), ("1", "input", 0), ("1", "output", 0),
                   ("2.0", "output", 0), ("2.1", "input", 0), ("2", "output", 0),
                   ("2", "input", 0), ("2.0", "input", 0))
    ctx.ev("act.inplace")
    return p, act, (p.N, h)


def x_problem(ctx):
    """The feature is the model's input itself, which then requires gradients."""
    p, _, _ = ops.act_problem(ctx)
    p.X.requires_grad_(True)
    p.data = [(p.X, p.y)]
    ctx.ev("act.x")
    first = ctx.pick("", "0") if isinstance(p.model, nn.Sequential) else ""
    return p, (first, "input", 0), tuple(p.X.shape)


def reference(p, act, dtype=torch.float64):
    """Dense Hessian w.r.t. a perturbation added to the chosen tensor, in float64."""
    r = p.ref(dtype)
    for m in r.model.modules():
        if hasattr(m, "inplace"):
            m.inplace = False
    name, kind, idx = act
    if (name, kind) == ("gate", "input"):
        # this tensor is used elsewhere, too: the feature is what ``mix`` produced
        name, kind = "mix", "output"
    store = []

    def shift(t):
        d = torch.zeros_like(t, requires_grad=True)
        store.append(d)
        return t + d

    mod = r.model.get_submodule(name)
    if kind == "input":
        def pre(m, i):
            return tuple(shift(x) if j == idx else x for j, x in enumerate(i))
        mod.register_forward_pre_hook(pre)
    else:
        def post(m, i, o):
            if isinstance(o, torch.Tensor):
                return shift(o)
            vals = [shift(x) if j == idx else x for j, x in enumerate(o)]
            return type(o)(*vals) if hasattr(o, "_fields") else type(o)(vals)
        mod.register_forward_hook(post)
    L = r.loss(r.model({"x": r.X} if r.dict_in else r.X), r.y)
    (d,) = store
    (g,) = torch.autograd.grad(L, d, create_graph=True)
    rows = []
    for gi in g.reshape(-1):
        h = torch.autograd.grad(gi, d, retain_graph=True, allow_unused=True)[0] \
            if gi.requires_grad else None
        rows.append(torch.zeros(d.numel(), dtype=d.dtype) if h is None else h.reshape(-1))
    return torch.stack(rows).detach(), tuple(d.shape)


def case(ctx):
    from curvlinops.experimental.activation_hessian import (
        ActivationHessianLinearOperator as A,
    )

    mode = ctx.pick("any", "any", "any", "multi", "multi", "inplace", "x", "reject", "fault")
    if mode == "reject":
        return reject(ctx, A)
    p, act, shape = {"multi": multi_problem, "inplace": inplace_problem,
                     "x": x_problem}.get(mode, ops.act_problem)(ctx)
    if ctx.coin(0.7) or not isinstance(p.data, list):
        p.data = ctx.pick(list, tuple, gen.ReIterable)([(p.X, p.y)])
    ctx.ev("act.multi", mode == "multi")
    ctx.ev(f"act.{act[1]}")
    ctx.describe(problem=p.label(), activation=act, shape=shape)
    want, d_shape = reference(p, act)
    H = lambda **kw: A(p.model, p.loss, act, p.data, progressbar=p.progressbar,  # noqa: E731
                       check_deterministic=p.check_det, **kw)
    for q in p.model.parameters():
        if ctx.coin(0.2):
            q.grad = ctx.randn(*q.shape, dtype=q.dtype)
    user = p.model.register_forward_hook(lambda m, i, o: None)
    snap = Snapshot(p.model, list(p.model.parameters()), [p.X, p.y], rng=not p.check_det)
    try:
        op = H()
    except RuntimeError as e:
        if p.check_det and p.dtype == torch.float32:
            ctx.ev("act.float32_check")
            return
        raise e
    snap.check(ctx, "act.side_effect")
    D = d_shape.__class__(d_shape)
    n = torch.Size(D).numel()
    ctx.equal(tuple(op.shape), (n, n), "act.shape", f"shape for feature {D}")
    atol = 0.0
    if p.dtype != torch.float64:
        # rounding noise of single precision, which cancellation amplifies (softmax)
        noise = (reference(p, act, p.dtype)[0].double() - want).abs().max().item()
        atol = 1e-3 * want.abs().max().item() + 5e-6 + (100 * noise if noise < 1e9 else 0)
    M = general_product_checks(ctx, op, want, [D], [D], p.dtype, "act", n_rand=3, atol=atol,
                               scale=1e-12)
    s = max(M.abs().max().item(), 1e-12)
    ctx.close(M, M.T, "act.symmetric", "transpose", scale=s, atol=atol)
    Mt = gen.dense(op.adjoint(), p.dtype)
    ctx.close(Mt, want.T, "act.adjoint", "adjoint", scale=1e-12, atol=atol)
    snap.check(ctx, "act.side_effect")
    ctx.equal(p.X.grad, None, "act.side_effect.x_grad", "gradient of the data")
    if ctx.coin(0.3):
        ctx.ev("act.repeat")
        ctx.close(gen.dense(op, p.dtype), M, "act.repeat", "repeated product", atol=atol)
    if mode == "fault":
        faults(ctx, A, p, act, op, want, snap, atol)
    user.remove()
    if want.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, act, shape, p.dtype)


def faults(ctx, A, p, act, op, want, snap, atol):
    """Model, loss or data raise at a random point; afterwards everything is as before."""
    where = ctx.pick("model", "loss", "data", "operand")
    exc = ctx.pick(Injected, KeyboardInterrupt, MemoryError)
    armed = [False]
    count = [0]
    ctx.ev("act.fault")
    base = p.loss

    class Loss(nn.Module):
        reduction = base.reduction

        def forward(self, f, y):
            if where == "loss":
                boom()
            return base(f, y)

    def boom():
        if armed[0]:
            count[0] -= 1
            if count[0] < 0:
                raise exc("injected")

    def fault(t, i):
        if where == "data":
            boom()

    hs = []
    if where == "model":
        mods = [m for m in p.model.modules()]
        hs.append(ctx.pick(*mods).register_forward_hook(lambda m, i, o: boom()))
    op = A(p.model, Loss(), act, DataLog([(p.X, p.y)], fault), check_deterministic=False)
    snap = Snapshot(p.model, list(p.model.parameters()), [p.X, p.y])
    X = ctx.randn(op.shape[1], dtype=p.dtype)
    for _ in range(2):
        armed[0], count[0] = True, 0
        try:
            op @ (X if where != "operand" else X[:-1])
            if where != "operand" or op.shape[1] > 1:
                ctx.fail("act.fault", f"fault in {where} was swallowed")
        except (exc, ValueError) as e:
            ctx.true(isinstance(e, exc) or where == "operand", "act.fault", f"{e!r} reached us")
        armed[0] = False
        snap.check(ctx, "act.fault")
        ctx.close(op @ X, want @ X.double(), "act.retry", f"product after fault in {where}",
                  atol=4 * atol * len(X) ** 0.5, scale=want.abs().max().item())
    for h in hs:
        h.remove()


def reject(ctx, A):
    p, act, shape = ctx.pick(multi_problem, ops.act_problem)(ctx)
    p.data = [(p.X, p.y)]
    kind = ctx.pick("batches", "layer", "kind", "position", "position")
    data = p.data
    name, io, idx = act
    if kind == "batches":
        k = ctx.r.randint(2, 3)
        data = ctx.pick(lambda: [(p.X, p.y)] * k, lambda: gen.ReIterable([(p.X, p.y)] * k),
                        lambda: [(x[None], y[None]) for x, y in zip(p.X, p.y)]
                        + [(p.X, p.y)])()
    elif kind == "layer":
        name = ctx.pick("no", "0.0.0.0", name + ".weight", "weight", " ")
    elif kind == "kind":
        io = ctx.pick("Output", "outputs", "in", "", "grad")
    else:
        idx = ctx.pick(2, 3, 17)
        if p.arch != "multi":
            idx = ctx.pick(1, 2, 5)
        elif io == "output" and name not in ("mix",):
            idx = 1
    ctx.describe(problem=p.label(), reject=kind, activation=(name, io, idx))
    ctx.ev(f"reject.{kind}")
    user = p.model.register_forward_hook(lambda m, i, o: None)
    snap = Snapshot(p.model, list(p.model.parameters()), [p.X, p.y])

    def fn():
        op = A(p.model, p.loss, (name, io, idx), data, check_deterministic=False)
        op @ torch.zeros(op.shape[1], dtype=p.dtype)

    excs = (ValueError,) if kind != "position" else (ValueError, IndexError)
    ctx.raises(excs, fn, f"act.reject_{kind}", f"{kind}: {(name, io, idx)}")
    snap.check(ctx, "act.reject")
    # a valid request on the same model afterwards
    want, d = reference(p, act)
    op = A(p.model, p.loss, act, [(p.X, p.y)], check_deterministic=False)
    X = ctx.randn(op.shape[1], dtype=p.dtype)
    atol = 0.0 if p.dtype == torch.float64 else 1e-3 * want.abs().max().item() + 1e-5
    ctx.close(op @ X, want @ X.double(), "act.matrix", "product after a rejection", atol=atol,
              scale=want.abs().max().item())
    user.remove()
    ctx.sig("reject", kind, p.arch, name, io, idx)
