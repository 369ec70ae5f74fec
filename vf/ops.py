"""Random operators of every kind, for properties that quantify over all of them."""

from dataclasses import dataclass
from typing import Any, Callable, List

import torch

from vf import gen, kfac, oracle

KINDS = ["hessian", "hessian", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfac-mc",
         "kfacinv", "act"]
SYMMETRIC = {"hessian", "ggn", "ef", "mc", "kfac", "kfac-mc", "kfacinv", "act"}
CACHING = {"kfac", "kfac-mc", "kfacinv"}


@dataclass
class Op:
    kind: str
    p: Any
    make: Callable  # make(**overrides) -> fresh operator (same configuration)
    in_shapes: List
    out_shapes: List
    extra: str = ""
    act: Any = None

    @property
    def square(self):
        return self.kind not in ("jac", "jact")

    def label(self):
        return f"{self.kind}{self.extra}:{self.p.label()}"


def grown(p):
    """A deterministic problem usable by all kinds."""
    return p


def random_op(ctx, kinds=None, dtype=None, n_max=5, **kw):
    """An operator recipe; ``make`` builds instances from the problem's current fields."""
    import curvlinops as C
    from curvlinops.experimental.activation_hessian import (
        ActivationHessianLinearOperator as A,
    )

    kind = ctx.pick(*(kinds or KINDS))
    kw.setdefault("max_dim", 45)
    kw.setdefault("check_det", False)
    if kind in ("kfac", "kfac-mc", "kfacinv"):
        types = ("mc",) if kind == "kfac-mc" else ("type-2", "empirical", "forward-only",
                                                   "mc")
        p = kfac.kfac_problem(ctx, dtype=dtype, n_max=n_max, **kw)
        opts = kfac.kfac_options(ctx, types)
        over0 = {}
        if opts["fisher_type"] == "mc":
            over0 = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 3))
        P = [tuple(q.shape) for q in p.params]
        inv_kw = {}
        if kind == "kfacinv":
            inv_kw = inverse_options(ctx, p.dtype)

        def make(**over):
            k = {**p.kw(), **opts, **over0, **over}
            op = C.KFACLinearOperator(p.model_func, p.loss, p.params, p.data, **k)
            return C.KFACInverseLinearOperator(op, **inv_kw) if inv_kw else op

        o = Op(kind, p, make, P, P,
               f"({opts['fisher_type']},{opts['kfac_approx']},"
               f"{'sep' if opts['separate_weight_and_bias'] else 'joint'}"
               f"{',' + inv_label(inv_kw) if inv_kw else ''})")
        o.opts, o.mc, o.inv_kw = opts, over0, inv_kw
        return o
    if kind == "act":
        p, act, shape = act_problem(ctx, dtype, n_max)

        def make(**over):
            k = dict(progressbar=p.progressbar, check_deterministic=p.check_det)
            over.pop("num_data", None)
            over.pop("batch_size_fn", None)
            k.update(over)
            return A(p.model_func, p.loss, act, p.data, **k)

        return Op(kind, p, make, [shape], [shape], f"{act}", act)
    losses = ("mse", "ce", "bce")
    if kind in ("hessian", "ggn"):
        losses += ("cubic", "huber", "ce_smooth")
    p = gen.problem(ctx, losses=losses, dtype=dtype, n_max=n_max, **kw)
    P = [tuple(q.shape) for q in p.params]
    if kind in ("jac", "jact"):
        cls = C.JacobianLinearOperator if kind == "jac" else C.TransposedJacobianLinearOperator
        ref = p.ref()
        O = [(p.N,) + tuple(ref.fwd(0).shape[1:])]  # noqa: E741

        def make(**over):
            return cls(p.model_func, p.params, p.data, **p.kw(**over))

        return Op(kind, p, make, P if kind == "jac" else O, O if kind == "jac" else P)
    cls = {"hessian": C.HessianLinearOperator, "ggn": C.GGNLinearOperator,
           "ef": C.EFLinearOperator, "mc": C.FisherMCLinearOperator}[kind]
    more = {}
    if kind == "mc":
        more = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 3))
    if kind == "hessian" and ctx.coin(0.4):
        blocks, left = [], len(p.params)
        while left:
            blocks.append(ctx.r.randint(1, left))
            left -= blocks[-1]
        more = dict(block_sizes=blocks)

    def make(**over):
        return cls(p.model_func, p.loss, p.params, p.data, **{**p.kw(), **more, **over})

    return Op(kind, p, make, P, P)


def inverse_options(ctx, dtype, kinds=("float", "tuple", "heuristic", "exact")):
    lo = 1e-2 if dtype == torch.float64 else 5e-2
    d = lo * 10 ** (2 * ctx.r.random())
    how = ctx.pick(*kinds)
    kw = dict(damping=d, cache=ctx.coin(0.6))
    if how == "tuple":
        kw["damping"] = (d, lo * 10 ** (2 * ctx.r.random()))
    elif how == "heuristic":
        kw["use_heuristic_damping"] = True
        kw["min_damping"] = ctx.pick(1e-2, 1e-1) if ctx.coin() else lo
    elif how == "exact":
        kw["use_exact_damping"] = True
    return kw


def inv_label(kw):
    if kw.get("use_exact_damping"):
        how = "exact"
    elif kw.get("use_heuristic_damping"):
        how = "heuristic"
    else:
        how = type(kw["damping"]).__name__
    return f"{how}{'+cache' if kw['cache'] else ''}"


def act_problem(ctx, dtype=None, n_max=3):
    """A single-batch problem and a valid activation (name, kind, index)."""
    for _ in range(50):
        p = gen.problem(ctx, archs=["mlp", "plain", "cnn", "norm", "seq"], dtype=dtype,
                        n_max=n_max, sizes=lambda N: [N], allow_func=False, subset=False,
                        allow_dict=False, freeze=False, check_det=False, max_dim=40,
                        losses=("mse", "ce", "bce", "cubic"))
        shapes = {}
        p.X.requires_grad_(False)
        hs = []

        def hook(n):
            def h(m, i, o):
                shapes[(n, "output", 0)] = tuple(o.shape)
                if i[0].requires_grad:
                    shapes[(n, "input", 0)] = tuple(i[0].shape)
            return h

        for n, m in p.model.named_modules():
            hs.append(m.register_forward_hook(hook(n)))
        with torch.enable_grad():
            p.model(p.X)
        for h in hs:
            h.remove()
        ok = [(k, s) for k, s in shapes.items() if torch.Size(s).numel() <= 40]
        if ok:
            act, shape = ctx.pick(*ok)
            return p, act, shape
    raise RuntimeError("no activation found")


# ------------------------------------------------------------- operators sharing a model
def shared_problem(ctx, kfac_able=None, dtype=None, n_max=5, **kw):
    """A problem whose data is a plain list of (X, y); most admit every operator kind."""
    kw.setdefault("max_dim", 40)
    kw.setdefault("check_det", False)
    able = ctx.coin(0.75) if kfac_able is None else kfac_able
    if able:
        p = kfac.kfac_problem(ctx, dtype=dtype, n_max=n_max, **kw)
    else:
        p = gen.problem(ctx, dtype=dtype, n_max=n_max, **kw)
    p.kfac_able = able
    p.data = [(X, y) for X, y in p.data]
    return p


def shared_kinds(p):
    kinds = ["hessian", "ggn", "ef", "mc", "jac", "jact"]
    if p.kfac_able:
        kinds += ["kfac", "kfac", "kfac-mc", "kfacinv", "kfacinv"]
        if len(p.sizes) == 1 and not p.dict_in and not p.frozen:
            kinds += ["act"]
    return kinds


def recipe(ctx, p, kind):
    """An operator recipe on problem ``p``: make(model, model_func, params, data, **over)."""
    import curvlinops as C
    from curvlinops.experimental.activation_hessian import (
        ActivationHessianLinearOperator as A,
    )

    P = [tuple(q.shape) for q in p.params]
    if kind == "hessian" and any(
        g is None for g in torch.autograd.grad(
            p.loss(p.model(p.data[0][0]), p.data[0][1]), p.params, allow_unused=True)
    ):  # parameters the loss does not depend on are outside the Hessian's domain
        kind = "ggn"
    extra, opts, mc, inv_kw, blocks, act = "", {}, {}, {}, {}, None
    if kind in ("mc", "kfac-mc"):
        mc = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 3))
    if kind.startswith("kfac"):
        types = ("mc",) if kind == "kfac-mc" else ("type-2", "empirical", "forward-only")
        opts = kfac.kfac_options(ctx, types)
        extra = f"({','.join(map(str, opts.values()))})"
    if kind == "kfacinv":
        inv_kw = inverse_options(ctx, p.dtype)
        extra += inv_label(inv_kw)
    if kind == "hessian" and ctx.coin(0.4):
        b, left = [], len(p.params)
        while left:
            b.append(ctx.r.randint(1, left))
            left -= b[-1]
        blocks = dict(block_sizes=b)
    in_s, out_s = P, P
    if kind in ("jac", "jact"):
        O = [(p.N,) + tuple(p.ref().fwd(0).shape[1:])]  # noqa: E741
        in_s, out_s = (P, O) if kind == "jac" else (O, P)
    if kind == "act":
        names = [n for n, m in p.model.named_modules() if isinstance(m, (torch.nn.Linear, torch.nn.Conv2d))]
        act = (ctx.pick(*names), "output", 0)
        got = []
        h = p.model.get_submodule(act[0]).register_forward_hook(
            lambda m, i, o: got.append(tuple(o.shape)))
        p.model(p.X)
        h.remove()
        in_s = out_s = [got[0]]

    def make(model=None, model_func=None, params=None, data=None, base=False, **over):
        model_func = model_func or model or p.model_func
        params = p.params if params is None else params
        data = p.data if data is None else data
        k = {**p.kw(), **over}
        if kind == "act":
            k.pop("num_data", None)
            k.pop("batch_size_fn", None)
            return A(model or p.model, p.loss, act, data, **k)
        if kind in ("jac", "jact"):
            cls = {"jac": C.JacobianLinearOperator,
                   "jact": C.TransposedJacobianLinearOperator}[kind]
            return cls(model_func, params, data, **k)
        if kind.startswith("kfac"):
            op = C.KFACLinearOperator(model or p.model, p.loss, params, data, **opts, **mc, **k)
            if kind != "kfacinv":
                return op
            inv = C.KFACInverseLinearOperator(op, **inv_kw)
            inv.vf_base = op  # the operator it inverts, for the harness
            return op if base else inv
        cls = {"hessian": C.HessianLinearOperator, "ggn": C.GGNLinearOperator,
               "ef": C.EFLinearOperator, "mc": C.FisherMCLinearOperator}[kind]
        return cls(model_func, p.loss, params, data, **mc, **blocks, **k)

    o = Op(kind, p, make, in_s, out_s, extra, act)
    o.opts, o.mc, o.inv_kw, o.blocks = opts, mc, inv_kw, blocks
    return o


def clone(p):
    """(model copy, parameters of the copy in listed order), without gradients."""
    import copy

    m = copy.deepcopy(p.model)
    for x in m.modules():
        x._forward_hooks.clear()
        x._forward_pre_hooks.clear()
    by = dict(m.named_parameters())
    for q in by.values():
        q.grad = None
    return m, [by[n] for n in p.names]


def snapshot_matrix(o, **over):
    """The matrix a fresh operator of recipe ``o`` has now, from a copy of the model."""
    m, params = clone(o.p)
    data = [(X.copy() if isinstance(X, dict) else X, y) for X, y in o.p.data]
    op = o.make(model=m, model_func=m, params=params, data=data, num_data=None,
                progressbar=False, **over)
    return gen.dense(op, o.p.dtype).clone()
