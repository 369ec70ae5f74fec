"""C27 Unsupported settings are rejected, supported ones accepted, nothing else changes."""
import warnings
from collections import OrderedDict, UserDict
from enum import Enum

import torch
from torch import nn

from vf import gen, kfac
from vf.monitor import Snapshot

LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 60000}
MUST = ["reject.loss", "reject.fisher_type", "reject.mc_samples", "reject.approx",
        "reject.layer", "reject.blocks", "reject.no_blocks", "reject.dict", "reject.soft",
        "reject.terms", "reject.export", "reject.inputs", "reject.padding",
        "reject.duplicate", "reject.foreign", "accept.loss", "accept.blocks", "accept.dict", "accept.dims",
        "accept.layer", "accept.fisher_type", "accept.product", "monitor.snapshots"]
RULE = (
    "Random problem and operator kind x one setting outside its support (losses, Fisher "
    "types, draws, approximations, block partitions, parameter selections, dict inputs, soft "
    "labels in one batch of several, loss-term counts, mixed data "
    "types, multi-input layers, one-sided paddings), which must raise the documented "
    "exception and leave model and parameters as they were, next to a supported relative of "
    "it, which must be accepted; non-trivial always."
)
NI, VE = NotImplementedError, ValueError


class MyMSE(nn.MSELoss):
    pass


class MyCE(nn.CrossEntropyLoss):
    pass


class MyLinear(nn.Linear):
    pass


class Two(nn.Module):
    """A layer that is called with two inputs."""

    def __init__(self, d, c):
        super().__init__()
        self.first = nn.Linear(d, d)
        self.layer = Added(d, c)

    def forward(self, x):
        return self.layer(self.first(x), x)


class Added(nn.Linear):
    def forward(self, a, b):
        return super().forward(a + b)


class AnyFisher(str, Enum):
    TYPE2 = "type-2"


def C():
    import curvlinops

    return curvlinops


def classes():
    c = C()
    return {"hessian": c.HessianLinearOperator, "ggn": c.GGNLinearOperator,
            "ef": c.EFLinearOperator, "mc": c.FisherMCLinearOperator,
            "kfac": c.KFACLinearOperator}


def plain(ctx, **kw):
    """A small problem on tensors without further restrictions."""
    kw.setdefault("losses", ("mse", "ce", "bce"))
    kw.setdefault("check_det", False)
    kw.setdefault("allow_dict", False)
    p = kfac.kfac_problem(ctx, archs=["mlp"], max_dim=40, n_max=5, **kw)
    p.data = list(p.data)  # data loaders draw from the global random state
    return p


def rejected(ctx, p, excs, fn, mech, what, rng=True):
    """``rng``: the random state counts too (the determinism check may advance it)."""
    rng = rng and not isinstance(p.data, torch.utils.data.DataLoader)
    s = Snapshot(p.model, p.params, rng=rng)
    ctx.raises(excs, fn, f"setting.{mech}", what)
    ctx.ev(f"reject.{mech}")
    s.check(ctx, "setting.side")


def works(ctx, op, p, mech, what):
    """The operator gives a finite product of the right shape."""
    y = op @ torch.ones(op.shape[1], dtype=p.dtype)
    ctx.ev("accept.product")
    ctx.true(tuple(y.shape) == (op.shape[0],) and bool(torch.isfinite(y).all()),
             f"setting.accept_{mech}", what)
    ctx.ev(f"accept.{mech}")


# ------------------------------------------------------------------------- settings
def loss_case(ctx):
    p = plain(ctx)
    kind = ctx.pick("ef", "mc", "kfac")
    red = p.red
    bad = ctx.pick(nn.L1Loss(reduction=red), nn.HuberLoss(reduction=red),
                   nn.SmoothL1Loss(reduction=red), nn.BCELoss(reduction=red),
                   nn.NLLLoss(reduction=red), nn.PoissonNLLLoss(reduction=red),
                   nn.KLDivLoss(reduction=red), nn.MultiLabelSoftMarginLoss(reduction=red),
                   gen.CubicLoss(red))
    cls = classes()[kind]
    det = ctx.coin(0.3)
    rejected(ctx, p, (VE if kind == "kfac" else NI,),
             lambda: cls(p.model, bad, p.params, p.data, **p.kw(check_deterministic=det)),
             "loss", f"{kind} with {type(bad).__name__}")
    # operators for any loss, and descendants of the supported losses
    kind = ctx.pick("hessian", "ggn", "kfac", "ef", "mc")
    if kind in ("hessian", "ggn"):
        q = gen.problem(ctx, archs=["mlp"], losses=("huber", "cubic", "poisson"),
                        check_det=False)
        if kind == "hessian" and "bias" in q.names[0]:
            return
        works(ctx, classes()["ggn"](q.model_func, q.loss, q.params, q.data, **q.kw()), q,
              "loss", f"ggn with {q.loss_name}")
    elif p.loss_name != "bce":
        loss = (MyMSE if p.loss_name == "mse" else MyCE)(reduction=red)
        works(ctx, classes()[kind](p.model, loss, p.params, p.data, **p.kw()), p, "loss",
              f"{kind} with {type(loss).__name__}")


def kfac_case(ctx):
    p = plain(ctx)
    K = C().KFACLinearOperator
    kw = p.kw(check_deterministic=ctx.coin(0.2))
    a = (p.model, p.loss, p.params, p.data)
    which = ctx.pick("fisher_type", "mc_samples", "approx")
    if which == "fisher_type":
        bad = ctx.pick("type-3", "type_2", "TYPE-2", "", "Type-2", "mc ", "type-2,mc", None,
                       "fisher", "type-1")
        rejected(ctx, p, (VE,), lambda: K(*a, **kw, fisher_type=bad), which, repr(bad))
        good = ctx.pick(*C().FisherType, "type-2", "mc", "empirical", "forward-only")
        works(ctx, K(*a, **kw, fisher_type=good), p, which, repr(good))
    elif which == "mc_samples":
        ft = ctx.pick("type-2", "empirical", "forward-only")
        bad = ctx.pick(2, 3, 10, 0, -1)
        rejected(ctx, p, (VE,), lambda: K(*a, **kw, fisher_type=ft, mc_samples=bad), which,
                 f"{bad} samples for {ft}")
        works(ctx, K(*a, **kw, fisher_type=ft, mc_samples=1), p, which, ft)
        works(ctx, K(*a, **kw, mc_samples=ctx.r.randint(1, 4)), p, which, "default type")
    else:
        bad = ctx.pick("contract", "EXPAND", "", "expand-reduce", None, "Reduce")
        rejected(ctx, p, (VE,), lambda: K(*a, **kw, kfac_approx=bad), which, repr(bad))
        good = ctx.pick(*C().KFACType, "expand", "reduce")
        works(ctx, K(*a, **kw, kfac_approx=good), p, which, repr(good))


def layer_case(ctx):
    """Parameters that KFAC has no rule for."""
    p = plain(ctx)
    K = C().KFACLinearOperator
    c = p.model(p.X).shape[1]
    extra = ctx.pick(
        lambda: nn.LayerNorm(c), lambda: nn.BatchNorm1d(c).eval(),
        lambda: nn.Bilinear(c, c, c), lambda: nn.PReLU(), lambda: nn.Embedding(3, c),
        lambda: nn.Conv1d(c, c, 1), lambda: nn.ConvTranspose2d(1, 1, 1),
        lambda: nn.GroupNorm(1, 2 * c), lambda: nn.Conv3d(1, 1, 1), lambda: gen.Custom(c, 2, c),
    )().to(p.dtype)
    used = isinstance(extra, (nn.LayerNorm, nn.BatchNorm1d, nn.PReLU,
                              gen.Custom))
    model = (nn.Sequential(p.model, extra) if used else
             nn.ModuleDict({"a": p.model, "b": extra}))
    func = model if used else _Only(p.model, extra)
    mine = [q for q in extra.parameters() if not isinstance(extra, gen.Custom) or q.ndim != 2]
    if isinstance(extra, gen.Custom):
        mine = [extra.scale, extra.w, extra.shift]
    params = list(p.params)
    keep = ctx.r.randint(0, len(params))
    params = ctx.r.sample(params, keep)
    params.insert(ctx.r.randint(0, len(params)), ctx.pick(*mine))
    det = ctx.coin(0.2)
    rejected(ctx, p, (NI,),
             lambda: K(func, p.loss, params, p.data, **p.kw(check_deterministic=det)),
             "layer", f"parameter of {type(extra).__name__}")
    # the same model without that parameter
    if p.params:
        works(ctx, K(func, p.loss, p.params, p.data, **p.kw()), p, "layer",
              f"model with an unlisted {type(extra).__name__}")
    if ctx.coin(0.4):
        d = p.X.shape[1]
        m = nn.Sequential(MyLinear(d, c)).to(p.dtype)
        works(ctx, K(m, p.loss, list(m.parameters()), p.data, **p.kw()), p, "layer",
              "descendant of a supported layer")
    if ctx.coin(0.4):
        q = ctx.pick(nn.Parameter(torch.ones(2, 2, dtype=p.dtype)),
                     nn.Linear(2, 2).to(p.dtype).weight, p.params[0].detach().clone())
        rejected(ctx, p, (NI,), lambda: K(p.model, p.loss, [*p.params, q], p.data, **p.kw()),
                 "foreign", "parameter that is not part of the model")
    if ctx.coin(0.4):
        params = [*p.params, ctx.pick(*p.params)]
        rejected(ctx, p, (NI,), lambda: K(p.model, p.loss, params, p.data, **p.kw()),
                 "duplicate", "parameter listed twice")


class _Only(nn.Module):
    """Uses the first of two sub-modules."""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return self.a(x)


def blocks_case(ctx):
    p = gen.problem(ctx, check_det=False)
    n = len(p.params)
    H = classes()["hessian"]
    a = (p.model_func, p.loss, p.params, p.data)
    bad = ctx.pick([n + 1], [n, 1], [1] * (n + 1), [0] * n, [n, 0], [0, n], [n + 1, -1],
                   [-1, n + 1], [], [n - 1] if n > 1 else [0], [n, 1, -1], [2 * n, -n])
    det = ctx.coin(0.2)
    rejected(ctx, p, (VE,), lambda: H(*a, **p.kw(check_deterministic=det), block_sizes=bad),
             "blocks", f"{bad} for {n} parameters")
    kind = ctx.pick("ggn")
    some = ctx.pick([n], [1] * n, [n + 1])
    rejected(ctx, p, (VE, TypeError),
             lambda: classes()[kind](*a, **p.kw(), block_sizes=some), "no_blocks",
             f"blocks for {kind}")
    good, left = [], n
    while left:
        good.append(ctx.r.randint(1, left))
        left -= good[-1]
    op = H(*a, **p.kw(), block_sizes=good)
    ctx.equal(tuple(op.shape), (p.D, p.D), "setting.accept_blocks", f"shape with {good}")
    ctx.ev("accept.blocks")


def dict_case(ctx):
    """Dict-like inputs need a function that gives their batch size."""
    p = plain(ctx)
    model = gen.DictIn(p.model)
    box = ctx.pick(dict, UserDict, OrderedDict)
    data = [(box({"x": X, "other": 1}), y) for X, y in p.data]
    kind = ctx.pick("hessian", "ggn", "ef", "mc", "kfac", "jac", "jact")
    c = C()
    kw = dict(progressbar=False, check_deterministic=ctx.coin(0.3),
              num_data=ctx.pick(None, p.N))
    cls = {"jac": c.JacobianLinearOperator,
           "jact": c.TransposedJacobianLinearOperator}.get(kind) or classes()[kind]
    a = (p.params, data) if kind.startswith("jac") else (p.loss, p.params, data)
    rejected(ctx, p, (VE,), lambda: cls(model, *a, **kw), "dict", f"{box.__name__} for {kind}")
    if kind == "hessian":
        kind, cls = "ggn", classes()["ggn"]
    kw["check_deterministic"] = False
    works(ctx, cls(model, *a, **kw, batch_size_fn=lambda X: X["x"].shape[0]), p, "dict",
          f"{box.__name__} for {kind} with a batch size function")


def soft_case(ctx):
    """Labels that are not binary, in one batch of possibly several."""
    p = plain(ctx, losses=("bce",), allow_dict=False)
    data = [(X, y.clone()) for X, y in p.data]
    i = ctx.r.randrange(len(data))
    v = data[i][1]
    j = tuple(ctx.r.randrange(n) for n in v.shape)
    v[j] = ctx.pick(0.5, 2.0, -1.0, 0.999, 1e-3, 1.0 + 1e-5)
    kind = ctx.pick("mc", "kfac")
    what = f"{kind}: label {v[j].item()} in batch {i + 1} of {len(data)}"
    more = dict(fisher_type="type-2") if kind == "kfac" else {}
    cls = classes()[kind]
    x = torch.ones(p.D, dtype=p.dtype)
    if ctx.coin(0.3):  # the construction-time check computes a product
        rejected(ctx, p, (NI,),
                 lambda: cls(p.model, p.loss, p.params, data,
                             **p.kw(check_deterministic=True), **more), "soft", what, False)
        return
    op = cls(p.model, p.loss, p.params, data, **p.kw(), **more)
    ask = [lambda: op @ x]
    if kind == "kfac":
        ask += [lambda: op.trace, lambda: op.det, lambda: op.logdet,
                lambda: op.frobenius_norm,
                lambda: C().KFACInverseLinearOperator(op, damping=1.0) @ x]
    for _ in range(ctx.pick(1, 2)):
        rejected(ctx, p, (NI,), ctx.pick(*ask), "soft", what)
    # kinds that do not use the labels, or any label
    kind = ctx.pick("ef", "ggn")
    works(ctx, classes()[kind](p.model, p.loss, p.params, data, **p.kw()), p, "loss",
          f"{kind} with soft labels")


def dims_case(ctx):
    """Predictions with more than two axes."""
    p = gen.problem(ctx, archs=["seq", "img"], allow_dict=False, check_det=False)
    kind = ctx.pick("mc", "ef")
    works(ctx, classes()[kind](p.model_func, p.loss, p.params, p.data, **p.kw()), p, "dims",
          f"{kind} with sequences")


def terms_case(ctx):
    """Loss terms that do not divide evenly over the data."""
    p = kfac.kfac_problem(ctx, check_det=False, n_max=6)
    T = (p.y.numel() if p.loss_name == "ce" else p.y.shape[:-1].numel())
    wrong = ctx.r.randint(1, 3 * T)
    K = C().KFACLinearOperator
    a = (p.model, p.loss, p.params, p.data)
    kw = p.kw(num_data=wrong)
    if T % wrong:
        rejected(ctx, p, (VE,), lambda: K(*a, **kw), "terms",
                 f"{T} loss terms for {wrong} data")
    op = K(*a, **p.kw())
    ctx.equal(tuple(op.shape), (p.D, p.D), "setting.accept_terms", "shape")


def export_case(ctx):
    """Parameters of different data types have no SciPy export."""
    p = plain(ctx, losses=("mse",), allow_dict=False)
    m = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
    m[1].to(ctx.pick(torch.float64, torch.bfloat16))
    data = [(torch.ones(2, 2), torch.ones(2, 2))]
    kind = ctx.pick("hessian", "ggn", "ef", "mc", "kfac")
    params = ctx.r.sample(list(m.parameters()), 4)
    op = classes()[kind](m, nn.MSELoss(), params, data, check_deterministic=False,
                         num_data=2)
    p.model, p.params = m, params
    rejected(ctx, p, (RuntimeError,), lambda: op.to_scipy(), "export", f"mixed types: {kind}")
    ctx.true(classes()[kind](m, nn.MSELoss(), list(m[0].parameters()), data,
                             check_deterministic=False, num_data=2).to_scipy() is not None,
             "setting.accept_export", "one type")


def inputs_case(ctx):
    """A listed layer that is called with two inputs."""
    p = plain(ctx, allow_dict=False)
    d, c = p.X.shape[1], p.model(p.X).shape[1]
    p.model = m = Two(d, c).to(p.dtype)
    more = dict(fisher_type=ctx.pick("type-2", "mc", "empirical", "forward-only"),
                separate_weight_and_bias=ctx.coin())
    p.params = ps = [m.layer.weight, m.layer.bias, *m.first.parameters()]
    op = C().KFACLinearOperator(m, p.loss, ps, p.data, **p.kw(num_data=None), **more)
    x = torch.ones(op.shape[1], dtype=p.dtype)
    for _ in range(2):
        rejected(ctx, p, (VE,), ctx.pick(lambda: op @ x, lambda: op.trace), "inputs",
                 f"layer with two inputs {more}")
    works(ctx, C().KFACLinearOperator(m, p.loss, list(m.first.parameters()), p.data,
                                      **p.kw(), **more), p, "layer", "its one-input neighbour")


def padding_case(ctx):
    """String paddings that would have to be one-sided."""
    even = ctx.coin(0.6)
    k = ctx.pick(2, (2, 3), (3, 4), (1, 2)) if even else ctx.pick(1, 3, (1, 3), (3, 1))
    dil = ctx.pick(1, 1, 3)
    p = plain(ctx, losses=("mse",), allow_dict=False)
    N = p.N
    p.model = m = nn.Sequential(nn.Conv2d(1, 2, k, padding="same", dilation=dil),
                                nn.Tanh(), nn.Flatten(),
                                nn.Linear(32, 2)).to(p.dtype)
    X, y = ctx.randn(N, 1, 4, 4, dtype=p.dtype), ctx.randn(N, 2, dtype=p.dtype)
    p.params = ps = list(m[0].parameters())
    more = dict(fisher_type=ctx.pick("type-2", "mc", "empirical", "forward-only"),
                kfac_approx=ctx.pick("expand", "reduce"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        op = C().KFACLinearOperator(m, p.loss, ps, [(X, y)], check_deterministic=False,
                                    **more)
        if even and more["kfac_approx"] == "expand":
            rejected(ctx, p, (NI,),
                     lambda: op @ torch.ones(op.shape[1], dtype=p.dtype), "padding",
                     f"kernel {k}, dilation {dil}")
        else:
            works(ctx, op, p, "layer", f"kernel {k}, dilation {dil}")


MODES = [loss_case, loss_case, kfac_case, kfac_case, layer_case, layer_case, blocks_case,
         blocks_case, dict_case, dict_case, soft_case, soft_case, dims_case, terms_case,
         export_case, inputs_case, padding_case]


def case(ctx):
    fn = ctx.pick(*MODES)
    ctx.describe(mode=fn.__name__)
    torch.manual_seed(ctx.r.randint(0, 10**6))
    fn(ctx)
    ctx.sig(fn.__name__, ctx.idx)
