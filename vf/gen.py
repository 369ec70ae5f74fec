"""Random workloads: models, losses, data sets, batchings, operands."""

import copy
from collections import UserDict
from dataclasses import dataclass, field
from typing import Any, Callable, List, Optional

import torch
from torch import Tensor, nn
from torch.utils.data import DataLoader, TensorDataset


# ------------------------------------------------------------------------ models
class DictIn(nn.Module):
    """Consumes dict-like inputs and forwards the tensor to the wrapped model."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, X):
        return self.inner(X["x"])


class Custom(nn.Module):
    """Direct parameters of unusual ranks: 0-d, 1-d, 2-d and 3-d."""

    def __init__(self, d_in, d_h, d_out):
        super().__init__()
        self.scale = nn.Parameter(torch.rand(()) + 0.5)
        self.w = nn.Parameter(torch.randn(2, d_in, d_h) * 0.4)
        self.shift = nn.Parameter(torch.randn(d_h) * 0.3)
        self.head = nn.Linear(d_h, d_out)

    def forward(self, x):
        h = torch.tanh(x @ self.w[0]) * torch.sigmoid(x @ self.w[1]) + self.shift
        return self.head(self.scale * h + self.scale**2)


class Tied(nn.Module):
    def __init__(self, d, d_out):
        super().__init__()
        self.lin = nn.Linear(d, d)
        self.out = nn.Linear(d, d_out)

    def forward(self, x):
        return self.out(torch.tanh(self.lin(torch.tanh(self.lin(x)))))


class AddP(nn.Module):
    """Entering only as a sum, two parameters receive the very same gradient tensor."""

    def __init__(self, d, d_out):
        super().__init__()
        self.lin = nn.Linear(d, d_out, bias=False)
        self.a = nn.Parameter(torch.randn(d_out))
        self.b = nn.Parameter(torch.randn(d_out))

    def forward(self, x):
        return torch.tanh(self.lin(x) + (self.a + self.b))


class Fold(nn.Module):
    """Merges the sequence axis into the batch axis: several rows per datum."""

    def forward(self, x):
        return x.flatten(0, 1)


class Permute(nn.Module):
    def __init__(self, *dims):
        super().__init__()
        self.dims = dims

    def forward(self, x):
        return x.permute(*self.dims)


class MeanAxis(nn.Module):
    """Averages all axes between the batch and feature axes."""

    def forward(self, x):
        return x.flatten(1, -2).mean(1) if x.ndim > 2 else x


class Flatten(nn.Module):
    def forward(self, x):
        return x.flatten(1)


class Plain(nn.Module):
    """Residual, nested modules, a buffer."""

    def __init__(self, d, d_out):
        super().__init__()
        self.body = nn.Sequential(nn.Linear(d, d), nn.Sequential(nn.Tanh()))
        self.head = nn.Linear(d, d_out)
        self.register_buffer("offset", torch.randn(d) * 0.1)

    def forward(self, x):
        return self.head(x + self.body(x) + self.offset)


class Embed(nn.Module):
    """Integer inputs (token identifiers) looked up in a table."""

    def __init__(self, n, d):
        super().__init__()
        self.table = nn.Embedding(n, d)

    def forward(self, x):
        if x.is_floating_point():
            raise TypeError("token identifiers must stay integers")
        return self.table(x)


class Attention(nn.Module):
    """Single-head self-attention over the sequence axis."""

    def __init__(self, d):
        super().__init__()
        self.q, self.k, self.v = (nn.Linear(d, d, bias=False) for _ in range(3))

    def forward(self, x):
        a = (self.q(x) @ self.k(x).transpose(-1, -2)).softmax(-1)
        return x + a @ self.v(x)


SMOOTH = [nn.Tanh, nn.Sigmoid, nn.Softplus, nn.GELU, nn.ELU]
ALLACT = SMOOTH + [nn.ReLU, lambda: nn.ReLU(inplace=True), lambda: nn.LeakyReLU(0.1)]


# ------------------------------------------------------------------------- losses
class CubicLoss(nn.Module):
    """Non-convex, asymmetric in (f, y); couples output entries of one datum."""

    def __init__(self, reduction):
        super().__init__()
        self.reduction = reduction

    def forward(self, f, y):
        r = (f - y).flatten(1)
        per = (r**2).sum(1) + 0.3 * (r**3).sum(1) + 0.5 * r.sum(1) ** 2
        per = per + 0.2 * torch.sin(f.flatten(1)).sum(1)
        return per.mean() if self.reduction == "mean" else per.sum()


def make_loss(name, red):
    return {
        "mse": lambda: nn.MSELoss(reduction=red),
        "ce": lambda: nn.CrossEntropyLoss(reduction=red),
        "bce": lambda: nn.BCEWithLogitsLoss(reduction=red),
        "huber": lambda: nn.HuberLoss(reduction=red, delta=0.7),
        "poisson": lambda: nn.PoissonNLLLoss(reduction=red),
        "cubic": lambda: CubicLoss(red),
        "ce_smooth": lambda: nn.CrossEntropyLoss(reduction=red, label_smoothing=0.2),
        "ce_soft": lambda: nn.CrossEntropyLoss(reduction=red),
    }[name]()


# ------------------------------------------------------------------------ problems
@dataclass
class Prob:
    model: nn.Module
    model_func: Callable
    loss: Any
    loss_name: str
    red: str
    params: List[Tensor]
    names: List[str]
    X: Tensor
    y: Tensor
    data: Any
    sizes: List[int]
    dict_in: bool
    batch_size_fn: Optional[Callable]
    num_data: Optional[int]
    progressbar: bool
    check_det: bool
    dtype: torch.dtype
    arch: str
    frozen: List[str] = field(default_factory=list)
    rows: int = 1  # labels (and prediction rows) per datum

    @property
    def N(self):
        return self.X.shape[0]

    @property
    def D(self):
        return sum(p.numel() for p in self.params)

    def kw(self, **over):
        k = dict(
            progressbar=self.progressbar,
            check_deterministic=self.check_det,
            num_data=self.num_data,
            batch_size_fn=self.batch_size_fn,
        )
        k.update(over)
        return k

    def ref(self, dtype=torch.float64):
        """A copy for the oracle; shares nothing with the user's model."""
        m = copy.deepcopy(self.model).to(dtype)
        by = dict(m.named_parameters())
        for p in by.values():
            p.requires_grad_(True)
            p.grad = None
        return Ref(
            m,
            [by[n] for n in self.names],
            cast(self.X.detach().clone(), dtype),
            self.y.detach().clone().to(dtype) if self.y.is_floating_point() else self.y,
            copy.deepcopy(self.loss),
            self.loss_name,
            self.red,
            self.dict_in,
            self.rows,
        )

    def label(self):
        return (
            f"{self.arch}/{self.loss_name}/{self.red}/b{'-'.join(map(str, self.sizes))}"
            f"/{'dict' if self.dict_in else 'ten'}/nd{int(self.num_data is not None)}"
            f"/{str(self.dtype)[6:]}/{','.join(self.names)}"
        )


@dataclass
class Ref:
    model: nn.Module
    params: List[Tensor]
    X: Tensor
    y: Tensor
    loss: Any
    loss_name: str
    red: str
    dict_in: bool
    rows: int = 1

    @property
    def N(self):
        return self.X.shape[0]

    def label(self, n):
        return self.y[n * self.rows : (n + 1) * self.rows]

    def fwd(self, n):
        x = self.X[n : n + 1]
        return self.model({"x": x} if self.dict_in else x)


def cast(X, dtype):
    """Inputs in another precision; identifiers stay integers."""
    return X.to(dtype) if X.is_floating_point() else X


def inputs(ctx, N, in_shape):
    """Random inputs; a negative leading size stands for integers below its magnitude."""
    if in_shape[0] < 0:
        return torch.randint(-in_shape[0], (N, *in_shape[1:]), generator=ctx.g)
    return ctx.randn(N, *in_shape)


def composition(ctx, N, max_batches=4):
    """Random (often uneven) batch sizes summing to N."""
    mode = ctx.pick("one", "rand", "rand", "rand", "ones", "loader")
    if mode == "one" or N == 1:
        return [N]
    if mode == "ones" and (N <= 5 or ctx.coin(0.3)):
        return [1] * N
    if mode == "loader":
        bs = ctx.r.randint(1, N)
        return [min(bs, N - i) for i in range(0, N, bs)]
    k = ctx.r.randint(2, min(max_batches, N))
    cuts = sorted(ctx.r.sample(range(1, N), k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [N])]


class ReIterable:
    """A custom re-iterable data source (neither list nor DataLoader)."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        yield from self.items


def make_data(ctx, X, y, sizes, dict_in, kind=None, rows=1):
    kind = kind or ctx.pick("list", "list", "loader", "iter", "tuple")
    if kind == "loader" and rows == 1 and not dict_in and len(set(sizes[:-1] or sizes)) == 1:
        if len(sizes) == 1 or sizes[-1] <= sizes[0]:
            return DataLoader(TensorDataset(X, y), batch_size=sizes[0])
    items, i = [], 0
    box = ctx.pick(dict, UserDict)
    more = dict_in and ctx.coin()  # further entries the model may ignore
    first = ctx.coin()
    for s in sizes:
        x = X[i : i + s]
        if dict_in:
            extra = dict(w=ctx.rand(3, dtype=X.dtype if X.is_floating_point() else
                                    torch.float32), mask=torch.ones(s, 2).bool(),
                         tag="batch", size=s) if more else {}
            x = box({"x": x, **extra} if first else {**extra, "x": x})
        items.append((x, y[i * rows : (i + s) * rows]))
        i += s
    return {"iter": ReIterable, "tuple": tuple}.get(kind, list)(items)


def _init_model(ctx, model):
    """Random parameter values that do not depend on the global random state."""
    with torch.no_grad():
        for p in model.parameters():
            fan = p.shape[-1] if p.ndim > 1 else 2
            p.copy_(ctx.randn(*p.shape) * (1.0 / max(fan, 1) ** 0.5) + 0.05)
        for n, b in model.named_buffers():
            if b.is_floating_point():
                v = ctx.randn(*b.shape) * 0.3
                b.copy_(v.abs() + 0.5 if "var" in n else v)
    return model


def _target(ctx, loss_name, out):
    """Labels for reference predictions ``out`` (whole data set)."""
    if loss_name in ("ce", "ce_smooth"):
        shape = (out.shape[0],) + tuple(out.shape[2:])
        return torch.randint(0, out.shape[1], shape, generator=ctx.g)
    if loss_name == "ce_soft":
        return ctx.rand(*out.shape).softmax(1)
    if loss_name == "bce":
        return torch.randint(0, 2, tuple(out.shape), generator=ctx.g).double()
    if loss_name == "poisson":
        return torch.randint(0, 4, tuple(out.shape), generator=ctx.g).double()
    return ctx.randn(*out.shape)


FITTABLE = {"mse": lambda z: z, "huber": lambda z: z, "cubic": lambda z: z,
            "bce": torch.sigmoid, "ce_soft": lambda z: z.softmax(1)}


def _fit(ctx, model, loss_name, X, y, sizes, rows, dict_in, eps=0.0):
    """Replace the labels of all or some batches by the model's own predictions.

    The gradient (and for regression also the loss) vanishes there while the curvature
    does not. With ``eps``, all labels are that far off.
    """
    m, y, i = copy.deepcopy(model), y.clone(), 0
    every = eps > 0 or ctx.coin(0.6)
    with torch.no_grad():
        for s in sizes:
            if every or ctx.coin():
                x = X[i : i + s]
                z = m({"x": x} if dict_in else x)
                z = FITTABLE[loss_name](z).to(y.dtype)
                if eps:
                    z = z + eps * ctx.rand(*z.shape, dtype=z.dtype).add(0.5)
                y[i * rows : (i + s) * rows] = z
            i += s
    ctx.ev("data.near_interpolated" if eps else "data.interpolated")
    return y


ARCHS = ["mlp", "mlp", "mlp", "cnn", "seq", "custom", "norm", "tied", "img", "plain",
         "addp", "embed", "attn"]


def build_model(ctx, arch, loss_name, smooth=False):
    r = ctx.r
    act = lambda: ctx.pick(*(SMOOTH if smooth else ALLACT))()  # noqa: E731
    C = r.randint(2, 3) if loss_name.startswith("ce") else r.randint(1, 3)
    if arch == "mlp":
        w = [r.randint(1, 4)] + [r.randint(1, 4) for _ in range(r.randint(0, 2))] + [C]
        if r.random() < 0.06:  # many layers
            ctx.ev("model.deep")
            w = [r.randint(1, 2) for _ in range(r.randint(5, 9))] + [C]
        layers = []
        for i, (a, b) in enumerate(zip(w, w[1:])):
            layers.append(nn.Linear(a, b, bias=ctx.coin(0.75)))
            if i < len(w) - 2:
                layers.append(act())
        return nn.Sequential(*layers), (w[0],)
    if arch == "cnn":
        ci, g = ctx.pick((1, 1), (2, 1), (2, 2))
        co = g * r.randint(1, 2)
        conv = nn.Conv2d(
            ci, co, ctx.pick(2, (1, 2), 3), stride=ctx.pick(1, 2),
            padding=ctx.pick(0, 1), groups=g, bias=ctx.coin(),
        )
        hw = (ctx.pick(3, 4), 4)
        m = nn.Sequential(conv, act(), nn.AdaptiveAvgPool2d((1, 2)), Flatten(),
                          nn.Linear(2 * co, C))
        return m, (ci, *hw)
    if arch == "seq":
        d, h = r.randint(1, 3), r.randint(1, 3)
        layers = [nn.Linear(d, h), act(), nn.Linear(h, C)]
        if ctx.coin(0.3):
            layers.append(MeanAxis())
        elif loss_name.startswith("ce"):
            layers.append(Permute(0, 2, 1))
        return nn.Sequential(*layers), (r.randint(1, 3), d)
    if arch == "custom":
        d = r.randint(1, 3)
        return Custom(d, r.randint(1, 3), C), (d,)
    if arch == "norm":
        d, h = r.randint(2, 3), r.randint(2, 3)
        norm = ctx.pick(nn.LayerNorm, nn.BatchNorm1d)(h)
        m = nn.Sequential(nn.Linear(d, h), norm, act(), nn.Dropout(0.5), nn.Linear(h, C))
        return m.eval(), (d,)
    if arch == "tied":
        d = r.randint(1, 3)
        return Tied(d, C), (d,)
    if arch == "img":
        layers = [nn.Conv2d(1, 2, 2), act(), nn.Conv2d(2, C, ctx.pick(1, 2))]
        if not loss_name.startswith("ce"):
            layers.append(Permute(0, 2, 3, 1))
        return nn.Sequential(*layers), (1, 3, 3)
    if arch == "addp":
        d = r.randint(1, 3)
        return AddP(d, C), (d,)
    if arch == "fold":
        d, h = r.randint(1, 3), r.randint(1, 3)
        return nn.Sequential(nn.Linear(d, h), act(), nn.Linear(h, C),
                             Fold()), (r.randint(2, 3), d)
    if arch == "embed":
        n, d = r.randint(2, 4), r.randint(1, 3)
        return nn.Sequential(Embed(n, d), act(), MeanAxis(), nn.Linear(d, C)), (
            -n, r.randint(1, 3))
    if arch == "attn":
        d = r.randint(1, 3)
        return nn.Sequential(Attention(d), MeanAxis(), nn.Linear(d, C)), (
            r.randint(2, 3), d)
    if arch == "plain":
        d = r.randint(1, 3)
        return Plain(d, C), (d,)
    raise ValueError(arch)


def problem(
    ctx,
    losses=("mse", "ce", "bce"),
    archs=None,
    dtype=None,
    allow_dict=True,
    allow_func=True,
    max_dim=60,
    n_max=7,
    smooth=False,
    subset=True,
    builder=None,
    sizes=None,
    kind=None,
    freeze=True,
    check_det=None,
    forbid=(),
    fitted=0.0,
    near=None,
    ints=True,
):
    """A random supervised problem with a float64 reference forward pass."""
    for _ in range(200):
        loss_name = ctx.pick(*losses)
        arch = ctx.pick(*(archs or ARCHS))
        if arch == "embed" and not ints:
            continue
        if builder is not None:
            arch, model, in_shape = builder(ctx, loss_name)
        else:
            model, in_shape = build_model(ctx, arch, loss_name, smooth)
        if any(isinstance(m, forbid) for m in model.modules()):
            continue
        if sum(p.numel() for p in model.parameters()) <= max_dim:
            break
    else:
        raise RuntimeError("no small model found")
    _init_model(ctx, model)
    red = ctx.pick("mean", "sum")
    dt = dtype or ctx.pick(torch.float64, torch.float64, torch.float64, torch.float32)
    N = ctx.r.randint(1, n_max)
    if n_max == 7 and ctx.r.random() < 0.03:
        N = ctx.r.randint(8, 16)
    X = inputs(ctx, N, in_shape)
    model = model.double()
    with torch.no_grad():
        was = model.training
        out = model(X)
        model.train(was)
    y = _target(ctx, loss_name, out)
    model = model.to(dt)
    X = cast(X, dt)
    y = y.to(dt) if y.is_floating_point() else y
    if ctx.coin(0.15):  # memory layouts other than the default
        ctx.ev("data.layouts")
        X, y = strided(ctx, X), strided(ctx, y)
        relayout(ctx, model)
    dict_in = allow_dict and ctx.coin(0.2)
    if dict_in:
        model = DictIn(model)
    loss = make_loss(loss_name, red)
    named = list(model.named_parameters())
    if subset and ctx.coin(0.5):
        k = ctx.r.randint(1, len(named))
        chosen = ctx.r.sample(named, k)
    else:
        chosen = list(named)
    frozen = []
    if freeze and ctx.coin(0.3):
        ids = {id(p) for _, p in chosen}
        for n, p in named:
            if id(p) not in ids:
                p.requires_grad_(False)
                frozen.append(n)
    sizes = sizes(N) if callable(sizes) else (sizes or composition(ctx, N))
    rows = out.shape[0] // N
    if fitted and loss_name in FITTABLE and ctx.coin(fitted):
        y = _fit(ctx, model, loss_name, X, y, sizes, rows, dict_in)
    elif near and loss_name in FITTABLE:
        y = _fit(ctx, model, loss_name, X, y, sizes, rows, dict_in, near)
    data = make_data(ctx, X, y, sizes, dict_in, kind, rows)
    func = model
    if allow_func and ctx.coin(0.2):
        func = lambda X_: model(X_)  # noqa: E731
    bs_fn = None
    if dict_in:
        bs_fn = lambda X_: X_["x"].shape[0]  # noqa: E731
    elif ctx.coin(0.15):
        bs_fn = lambda X_: len(X_)  # noqa: E731
    return Prob(
        model, func, loss, loss_name, red, [p for _, p in chosen],
        [n for n, _ in chosen], X, y, data, sizes, dict_in, bs_fn,
        N if ctx.coin(0.4) else None, ctx.coin(0.1),
        ctx.coin(0.3) if check_det is None else check_det, dt, arch, frozen, rows,
    )


# ------------------------------------------------------------------------ operands
def unflatten(v, shapes):
    """[D] or [D, K] tensor -> list of [*s] or [*s, K]."""
    out, i = [], 0
    for s in shapes:
        n = 1
        for k in s:
            n *= k
        out.append(v[i : i + n].reshape(tuple(s) + tuple(v.shape[1:])))
        i += n
    return out


def flat(x):
    """Inverse of unflatten given vector(list)/matrix(list); tensors pass through."""
    if isinstance(x, Tensor):
        return x
    raise TypeError


def flatten_list(xs, shapes):
    rows = []
    for x, s in zip(xs, shapes):
        extra = tuple(x.shape[len(s):])
        rows.append(x.reshape((-1,) + extra) if extra else x.reshape(-1))
    return torch.cat(rows)


def relayout(ctx, model):
    """Store parameters of more than one axis with permuted strides."""
    for q in model.parameters():
        if q.ndim >= 2 and ctx.coin(0.7):
            perm = list(range(q.ndim))[::-1]
            if q.ndim == 4 and ctx.coin():
                perm = [0, 2, 3, 1]
            back = [perm.index(i) for i in range(q.ndim)]
            q.data = q.data.permute(*perm).contiguous().permute(*back)


def strided(ctx, t):
    """Same values, random memory layout."""
    how = ctx.pick("plain", "plain", "T", "step", "expand_pad")
    if how == "T" and t.ndim >= 2:
        perm = list(range(t.ndim))[::-1]
        return t.permute(*perm).contiguous().permute(*perm)
    if how == "step" and t.ndim >= 1 and t.numel():
        big = torch.zeros(*t.shape[:-1], 2 * t.shape[-1], dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if how == "expand_pad" and t.ndim >= 1 and t.numel():
        big = torch.full((t.shape[0] + 2, *t.shape[1:]), 7.0, dtype=t.dtype)
        big[1:-1] = t
        return big[1:-1]
    return t


def random_operand(ctx, dim, shapes, dtype, K=None):
    """Returns (operand in a random format, dense [dim] / [dim, K] float64 values)."""
    vec = ctx.coin(0.4) if K is None else False
    K = ctx.pick(1, 1, 2, 3) if K is None else K
    v = ctx.randn(dim, dtype=dtype) if vec else ctx.randn(dim, K, dtype=dtype)
    if ctx.coin(0.5):
        return strided(ctx, v), v
    return [strided(ctx, x) for x in unflatten(v, shapes)], v


def to_dense(out, shapes):
    return flatten_list(out, shapes) if isinstance(out, list) else out


def dense(op, dtype):
    """The matrix an operator represents, through one identity product."""
    return op @ torch.eye(op.shape[1], dtype=dtype)
