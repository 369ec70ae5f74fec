"""C30 KFAC building blocks and random vectors against their definitions."""
import numpy as np
import torch
from torch import nn
from torch.nn import functional as F
from vf import mc

LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 120000}
MUST = ["sqrt.mse", "sqrt.ce", "sqrt.bce", "sqrt.saturated", "sqrt.rejected",
        "patch.all", "patch.mean", "patch.groups", "patch.same", "patch.unequal",
        "patch.int", "patch.tuple", "vector.values", "vector.law", "vector.rejected",
        "block.unmodified", "block.f32"]
RULE = (
    "Random outputs of one datum (1 to 12 classes, ordinary to saturated, single and double "
    "precision) x loss x reduction x admissible targets against a second derivative computed "
    "in closed form in double precision; random images x kernel/stride/padding (integer, "
    "tuple, strings)/dilation/groups against convolutions with random weights; random vectors "
    "of any size under random global seeds; inadmissible arguments; non-trivial always."
)


def hessian(f, loss, reduction):
    """Second derivative of one datum's loss in its prediction, closed form."""
    f = f.double()
    C = f.numel()
    c = 1.0 / C if reduction == "mean" else 1.0
    if loss is nn.MSELoss:
        return 2 * c * torch.eye(C, dtype=torch.float64)
    if loss is nn.BCEWithLogitsLoss:
        return c * torch.diag(torch.sigmoid(f) * torch.sigmoid(-f))
    p = torch.exp(f - torch.logsumexp(f, 0))
    return torch.diag(p) - p[:, None] * p[None, :]


def root(ctx):
    from curvlinops.kfac_utils import loss_hessian_matrix_sqrt as S

    C = ctx.r.randint(1, 12)
    dt = ctx.pick(torch.float64, torch.float64, torch.float32)
    if dt == torch.float32:
        ctx.ev("block.f32")
    scale = ctx.pick(0.0, 1.0, 1.0, 5.0, 12.0)
    if scale > 1:
        ctx.ev("sqrt.saturated")
    f = (ctx.randn(1, C) * scale).to(dt)
    if ctx.coin(0.2):
        f = f + ctx.pick(-100.0, 50.0) * (scale < 5)
    loss = ctx.pick(nn.MSELoss, nn.CrossEntropyLoss, nn.BCEWithLogitsLoss)
    red = ctx.pick("mean", "sum")
    fn = loss(reduction=red)
    if loss is nn.CrossEntropyLoss:
        y = torch.tensor([ctx.r.randrange(C)])
    elif loss is nn.MSELoss:
        y = ctx.randn(1, C, dtype=dt)
    else:
        y = (ctx.rand(1, C) < 0.5).to(dt)
    name = {nn.MSELoss: "mse", nn.CrossEntropyLoss: "ce", nn.BCEWithLogitsLoss: "bce"}[loss]
    what = f"{name} {red} C={C} {dt}"
    ctx.describe(what=what, scale=scale)
    if ctx.coin(0.2):
        ctx.ev("sqrt.rejected")
        how = ctx.pick("batch", "ndim", "target", "loss", "labels")
        if how == "batch":
            ctx.raises(ValueError, lambda: S(f.repeat(2, 1), y, fn), "sqrt.rejected", how)
        elif how == "ndim":
            g = ctx.pick(f[0], f[..., None])
            ctx.raises(ValueError, lambda: S(g, y, fn), "sqrt.rejected", how)
        elif how == "target":
            y2 = torch.cat([y, y])
            ctx.raises(ValueError, lambda: S(f, y2, fn), "sqrt.rejected", how)
        elif how == "loss":
            other = ctx.pick(nn.L1Loss(), nn.HuberLoss(), nn.SoftMarginLoss(), nn.NLLLoss())
            ctx.raises(NotImplementedError, lambda: S(f, y, other), "sqrt.rejected",
                       type(other).__name__)
        else:
            y2 = torch.zeros(1, C, dtype=dt)
            y2[0, ctx.r.randrange(C)] = ctx.pick(0.5, -1.0, 2.0, 1e-3)
            ctx.raises(NotImplementedError, lambda: S(f, y2, nn.BCEWithLogitsLoss()),
                       "sqrt.rejected", "labels that are not binary")
        ctx.sig("reject", how, name)
        return
    ctx.ev(f"sqrt.{name}")
    kf, ky = f.clone(), y.clone()
    R = S(f, y, fn)
    ctx.ev("block.unmodified")
    ctx.same(f, kf, "block.unmodified", "prediction")
    ctx.same(y, ky, "block.unmodified", "target")
    ctx.equal(R.dtype, dt, "sqrt.dtype", what)
    R = R.double()
    ctx.close(R @ R.T, hessian(f[0], loss, red), f"sqrt.{name}", f"S S^T, {what}",
              rtol=1e-10 if dt == torch.float64 else 1e-4, atol=1e-14 if
              dt == torch.float64 else 1e-6)
    ctx.sig("root", what, scale)


def patches(ctx):
    from curvlinops.kfac_utils import extract_averaged_patches, extract_patches

    dt = ctx.pick(torch.float64, torch.float64, torch.float32)
    if dt == torch.float32:
        ctx.ev("block.f32")
    rt = 1e-9 if dt == torch.float64 else 1e-4
    groups, cin = ctx.pick((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2))
    k = [ctx.r.randint(1, 4) for _ in range(2)]
    s = [ctx.r.randint(1, 3) for _ in range(2)]
    d = [ctx.r.randint(1, 3) for _ in range(2)]
    pad = [ctx.r.randint(0, 3) for _ in range(2)]
    mode = ctx.pick("ints", "ints", "same", "valid")
    if mode == "same":
        s = [1, 1]
        ctx.ev("patch.same")
    forms = []

    def form(v):
        """An integer when both entries agree, or a tuple."""
        if v[0] == v[1] and ctx.coin():
            forms.append("int")
            ctx.ev("patch.int")
            return v[0]
        forms.append("tuple")
        ctx.ev("patch.tuple")
        return tuple(v)

    if ctx.coin(0.5):
        for v in (k, s, d, pad):
            v[1] = v[0]
    size = [max(1, (k[i] - 1) * d[i] + 1 + ctx.r.randint(0, 5)) for i in range(2)]
    B = ctx.r.randint(1, 3)
    x = ctx.randn(B, groups * cin, *size, dtype=dt)
    kern, stride, dil = form(k), form(s), form(d)
    padding = mode if mode != "ints" else form(pad)
    args = (kern, stride, padding, dil, groups)
    what = f"kernel {kern} stride {stride} padding {padding} dilation {dil} groups {groups}"
    ctx.describe(what=what, size=size)
    kx = x.clone()
    W = ctx.randn(3, cin, *k)
    if groups > 1:
        ctx.ev("patch.groups")
    xbar = x.double().reshape(B, groups, cin, *size).mean(1)
    conv = F.conv2d(xbar, W, stride=stride, padding=padding, dilation=dil)
    out = conv.reshape(B, 3, -1).transpose(1, 2)
    odd = mode == "same" and any((kk - 1) * dd % 2 for kk, dd in zip(k, d))
    if odd:
        ctx.ev("patch.unequal")
        ctx.raises(NotImplementedError, lambda: extract_patches(x, *args), "patch.unequal",
                   what)
    else:
        ctx.ev("patch.all")
        P = extract_patches(x, *args)
        ctx.equal(tuple(P.shape), (B, out.shape[1], cin * k[0] * k[1]), "patch.all",
                  f"shape of patches, {what}")
        ctx.equal(P.dtype, dt, "patch.dtype", what)
        ctx.close(P.double() @ W.reshape(3, -1).T, out, "patch.all", f"patches, {what}",
                  rtol=rt, scale=1.0)
    ctx.ev("patch.mean")
    M = extract_averaged_patches(x, *args)
    ctx.equal(tuple(M.shape), (B, cin * k[0] * k[1]), "patch.mean", f"shape, {what}")
    ctx.equal(M.dtype, dt, "patch.dtype", what)
    ctx.close(M.double() @ W.reshape(3, -1).T, out.mean(1), "patch.mean",
              f"averaged patches, {what}", rtol=rt, scale=1.0)
    ctx.ev("block.unmodified")
    ctx.same(x, kx, "block.unmodified", "images")
    ctx.sig("patch", what, size, B)


def vectors(ctx):
    from curvlinops import sampling

    which = ctx.pick("rademacher", "normal")
    seed = ctx.r.randrange(2**31)
    state = np.random.get_state()
    try:
        np.random.seed(seed)
        if ctx.coin(0.15):
            bad = ctx.pick("gaussian", "", "Normal", "rademacher ", "uniform")
            ctx.ev("vector.rejected")
            ctx.raises(ValueError, lambda: sampling.random_vector(4, bad), "vector.rejected",
                       repr(bad))
            ctx.sig("reject", bad)
            return
        n = ctx.pick(0, 1, 2, 7, 50)
        fns = [lambda m: sampling.random_vector(m, which), getattr(sampling, which)]
        f = ctx.pick(*fns)
        what = f"{which} {n}"
        ctx.describe(what=what, seed=seed)
        v, w = f(n), f(n)
        for u in (v, w):
            ctx.ev("vector.values")
            ctx.equal((type(u), u.shape, u.dtype), (np.ndarray, (n,), np.dtype(float)),
                      "vector.values", f"kind of {what}")
            if which == "rademacher":
                ctx.true(bool((np.abs(u) == 1).all()), "vector.values", f"{what}: {u}")
        if n >= 50:
            ctx.true(bool((v != w).any()), "vector.fresh", f"two draws agree, {what}")
        if not ctx.coin(0.05):
            ctx.sig(what)
            return
        ctx.ev("vector.law")
        V = np.stack([f(6) for _ in range(3000)])
        for i in range(6):
            mc.mean_test(ctx, V[:, i], 0.0, "vector.law", f"{which}: mean of entry {i}")
            if which == "normal":
                mc.mean_test(ctx, V[:, i] ** 2, 1.0, "vector.law", f"variance of entry {i}")
                mc.mean_test(ctx, V[:, i] ** 4, 3.0, "vector.law", f"kurtosis of entry {i}")
            for j in range(i):
                mc.mean_test(ctx, V[:, i] * V[:, j], 0.0, "vector.law",
                             f"{which}: covariance of entries {i}, {j}")
            mc.mean_test(ctx, V[1:, i] * V[:-1, (i + 1) % 6], 0.0, "vector.law",
                         f"{which}: covariance with the draw before")
        ctx.sig("law", which)
    finally:
        np.random.set_state(state)


def case(ctx):
    ctx.pick(root, root, patches, patches, patches, vectors)(ctx)
