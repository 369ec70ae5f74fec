"""C17 KFAC / inverse KFAC checkpoints: save anywhere, load anywhere, reject cleanly."""
import copy
import io
import pickle

import torch
from torch import nn
from vf import gen, kfac, ops
from vf.monitor import DataLog, Snapshot

LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 75000}
MUST = ["ckpt.saved", "ckpt.loaded", "ckpt.file", "ckpt.no_recompute", "ckpt.inverse",
        "ckpt.rejected", "ckpt.into_used", "ckpt.uncomputed", "ckpt.chain",
        "ckpt.state_kept", "ckpt.properties", "ckpt.subset", "ckpt.mc",
        "ckpt.strict", "reject.loss", "reject.reduction", "reject.layers", "reject.params"]
RULE = (
    "Random KFAC configuration, selection and (for half the cases) inverse; a random life "
    "(products, scalar properties, inverse products, parameter changes) before saving; the "
    "state goes through torch.save/pickle/deepcopy or stays in memory and is loaded into new "
    "or already used operators on perturbed models with other data and options; products, "
    "inverse products and scalars are compared with the saved operator's, data traversals "
    "are counted; mismatching states must raise and leave operator and model untouched; "
    "non-trivial always."
)
PROPS = ("trace", "det", "logdet", "frobenius_norm")


def kfac_of(p, opts, mc, data=None, model=None, params=None, loss=None, **over):
    from curvlinops import KFACLinearOperator

    kw = {**p.kw(check_deterministic=False), **opts, **mc, **over}
    return KFACLinearOperator(model or p.model, loss or p.loss, params or p.params,
                              p.data if data is None else data, **kw)


def transport(ctx, state):
    how = ctx.pick("file", "file", "pickle", "deepcopy", "memory")
    if how == "file":
        ctx.ev("ckpt.file")
        buf = io.BytesIO()
        torch.save(state, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False), how
    if how == "pickle":
        return pickle.loads(pickle.dumps(state)), how
    if how == "deepcopy":
        return copy.deepcopy(state), how
    return state, how


def clone_model(ctx, p, perturb):
    m = copy.deepcopy(p.model)
    by = dict(m.named_parameters())
    for q in by.values():
        q.grad = None
    if perturb:
        with torch.no_grad():
            for q in m.parameters():
                q += ctx.randn(*q.shape, dtype=q.dtype)
            for b in m.buffers():
                if b.is_floating_point():
                    b += ctx.rand(*b.shape, dtype=b.dtype)
    return m, [by[n] for n in p.names]


def items_of(p):
    return [(X, y) for X, y in p.data]


def other_data(ctx, p):
    """Same shapes, other values (only usable when factors are saved)."""
    out = []
    for X, y in p.data:
        f = lambda t: t[torch.randperm(len(t), generator=ctx.g)] * (  # noqa: E731
            1.7 if t.is_floating_point() else 1)
        X2 = type(X)({"x": f(X["x"])}) if p.dict_in else f(X.detach())
        out.append((X2, y.roll(1, 0)))
    return out


def tensors_in(s):
    if isinstance(s, torch.Tensor):
        return [s.detach().clone()]
    if isinstance(s, dict):
        return [t for k in sorted(s, key=str) for t in tensors_in(s[k])]
    return []


def layout(s, pre=""):
    if isinstance(s, dict):
        return [x for k in sorted(s, key=str) for x in layout(s[k], f"{pre}/{k}")]
    return [(pre, "tensor" if isinstance(s, torch.Tensor) else repr(s))]


def live(ctx, p, op, inv, opts):
    """A random stretch of an operator's life; returns what was computed."""
    done = []
    for _ in range(ctx.r.randint(0, 3)):
        act = ctx.pick("mat", "vec", "prop", "prop", "inv", "inv")
        if act == "mat":
            op @ ctx.randn(p.D, 2, dtype=p.dtype)
        elif act == "vec":
            op @ gen.unflatten(ctx.randn(p.D, dtype=p.dtype), [q.shape for q in p.params])
        elif act == "prop":
            act = ctx.pick(*PROPS)
            getattr(op, act)
        elif inv is not None:
            inv @ ctx.randn(p.D, dtype=p.dtype)
        else:
            continue
        done.append(act)
    return done


def same_values(ctx, got, want, what, rt):
    ctx.ev("ckpt.loaded")
    ctx.close(got, want, "ckpt.product", what, rtol=rt)


def strict_case(ctx):
    """Whether singular factors are retried in double precision is part of the state."""
    import warnings

    from curvlinops import KFACInverseLinearOperator as Inv
    from curvlinops import KFACLinearOperator as K
    from vf.checks.c16 import retry_setup

    p, opts, A, _, kw, how = retry_setup(ctx)
    p.data = items_of(p)
    x = ctx.randn(p.D, dtype=p.dtype)
    retry = ctx.coin(0.3)
    inv = Inv(A, **kw, retry_double_precision=retry)
    state, _ = transport(ctx, inv.state_dict())
    base = K.from_state_dict(state["A"], p.model, p.params, p.data,
                             check_deterministic=False, batch_size_fn=p.batch_size_fn)
    if ctx.coin():
        new = Inv.from_state_dict(state, base)
    else:
        new = Inv(base, damping=0.3, cache=ctx.coin(), retry_double_precision=ctx.coin())
        new.load_state_dict(state)

    def outcome(op):
        try:
            return op @ x
        except RuntimeError as e:
            return type(e)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, want = outcome(new), outcome(inv)
    ctx.ev("ckpt.strict", isinstance(want, type))
    if isinstance(want, type) or isinstance(got, type):
        ctx.equal(got, want, "ckpt.strict", f"failure without retry ({how}, {retry})")
    else:
        ctx.close(got, want, "ckpt.strict", "inverse product", rtol=1e-4)
    ctx.sig("strict", p.arch, how, retry)


def case(ctx):
    if ctx.coin(0.03):
        return strict_case(ctx)
    if ctx.coin(0.3):
        return rejected(ctx)
    from curvlinops import KFACInverseLinearOperator as Inv
    from curvlinops import KFACLinearOperator as K

    dtype = ctx.pick(torch.float64, torch.float64, torch.float32)
    p = kfac.kfac_problem(ctx, dtype=dtype, check_det=False, n_max=4, max_dim=45)
    p.data = items_of(p)
    opts = kfac.kfac_options(ctx, ("type-2", "empirical", "forward-only", "mc"))
    mc = {}
    if opts["fisher_type"] == "mc":
        ctx.ev("ckpt.mc")
        mc = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 3))
    ctx.ev("ckpt.subset", len(p.params) < len(kfac.supported_names(p.model)))
    rt = 1e-11 if dtype == torch.float64 else 1e-4
    with_inv = ctx.coin(0.5)
    op = kfac_of(p, opts, mc)
    inv_kw = ops.inverse_options(ctx, dtype) if with_inv else {}
    inv = Inv(op, **inv_kw) if with_inv else None
    done = live(ctx, p, op, inv, opts)
    state = (inv or op).state_dict()
    ctx.ev("ckpt.saved")
    shape_before = layout(state)
    vals_before = tensors_in(state)
    sub = state["A"] if with_inv else state
    factors_saved = len(sub["gradient_covariances"]) > 0
    ctx.ev("ckpt.uncomputed", not factors_saved)
    ctx.equal(factors_saved, bool(done), "ckpt.complete",
              f"factors are part of the state after {done}")
    loaded_state, how = transport(ctx, state)
    ctx.describe(problem=p.label(), **opts, life=done, transport=how, inverse=inv_kw)
    if how == "memory" or ctx.coin(0.5):
        want = reference(ctx, p, op, inv)  # the source lives on before the load
    else:
        want = None
    # ------------------------------------------------------------------ load
    perturb = how != "memory" and ctx.coin(0.7)
    model, params = clone_model(ctx, p, perturb)
    data = other_data(ctx, p) if factors_saved and ctx.coin(0.6) else p.data
    log = DataLog(data)
    into = ctx.pick("new", "new", "existing", "used")
    kw = dict(batch_size_fn=p.batch_size_fn)
    if into == "new":
        chk = data is p.data and ctx.coin(0.3)
        base_state = loaded_state["A"] if with_inv else loaded_state
        new = K.from_state_dict(base_state, model, params, log,
                                check_deterministic=chk, **kw)
        new_inv = Inv.from_state_dict(loaded_state, new) if with_inv else None
    else:
        o2 = kfac.kfac_options(ctx, ("empirical", "forward-only", "mc"))
        new = kfac_of(p, o2, {}, data=log, model=model, params=params,
                      loss=copy.deepcopy(p.loss))
        new_inv = None
        if with_inv:
            new_inv = Inv(new, **ops.inverse_options(ctx, dtype))
        if into == "used":
            ctx.ev("ckpt.into_used")
            (new_inv or new) @ ctx.randn(p.D, dtype=dtype)
            for a in ctx.r.sample(PROPS, 2):
                getattr(new, a)
        if with_inv and ctx.coin(0.7):
            new_inv.load_state_dict(loaded_state)
        elif with_inv:
            new.load_state_dict(loaded_state["A"])
            new_inv = Inv.from_state_dict(loaded_state, new)
        else:
            new.load_state_dict(loaded_state)
    ctx.equal(layout(loaded_state), shape_before, "ckpt.state", "state after the load")
    # the model carries the saved weights
    for (n, a), (_, b) in zip(model.state_dict().items(), p.model.state_dict().items()):
        ctx.same(a, b, "ckpt.model", f"model state {n}")
    log.reset()
    if want is None:
        want = reference(ctx, p, op, inv)
    order = ["product", "props", "inv"]
    ctx.r.shuffle(order)
    for o in order:
        if o == "product":
            same_values(ctx, gen.dense(new, dtype), want["M"], f"loaded ({into}, {how})", rt)
        elif o == "inv" and with_inv:
            ctx.ev("ckpt.inverse")
            same_values(ctx, gen.dense(new_inv, dtype), want["inv"],
                        f"loaded inverse ({into}, {how})", max(rt, 1e-9))
        elif o == "props":
            ctx.ev("ckpt.properties")
            for a in PROPS:
                g, w = getattr(new, a), want[a]
                if torch.isfinite(torch.as_tensor(float(w))):
                    ctx.close(torch.as_tensor(float(g), dtype=torch.float64),
                              torch.as_tensor(float(w), dtype=torch.float64),
                              f"ckpt.{a}", f"{a} of the loaded operator",
                              rtol=max(rt, 1e-9) * (1 if a != "det" else 1e2), atol=1e-9)
    if factors_saved:
        ctx.ev("ckpt.no_recompute")
        ctx.equal(len(log.log), 0, "ckpt.recompute", "data traversals after the load")
    else:
        ctx.true(len(log.log) <= 1, "ckpt.recompute",
                 f"{len(log.log)} data traversals to compute the factors once")
    # the saved state is a value: neither operator's later life changes it
    ctx.ev("ckpt.state_kept")
    ctx.equal(layout(state), shape_before, "ckpt.state", "saved state after later use")
    for a, b in zip(tensors_in(state), vals_before):
        ctx.same(a, b, "ckpt.state", "tensors of the saved state after later use")
    # chain: save the loaded operator again
    if ctx.coin(0.4):
        ctx.ev("ckpt.chain")
        s2, how2 = transport(ctx, (new_inv or new).state_dict())
        model3, params3 = clone_model(ctx, p, how2 != "memory")
        log3 = DataLog(p.data)
        third = K.from_state_dict(s2["A"] if with_inv else s2, model3, params3, log3,
                                  check_deterministic=False, **kw)
        log3.reset()
        same_values(ctx, gen.dense(third, dtype), want["M"], f"re-saved ({how2})", rt)
        ctx.equal(len(log3.log), 0, "ckpt.recompute", "traversals of the re-loaded operator")
        if with_inv:
            inv3 = Inv.from_state_dict(s2, third)
            same_values(ctx, gen.dense(inv3, dtype), want["inv"], "re-saved inverse",
                        max(rt, 1e-9))
    ctx.sig(p.arch, p.loss_name, p.red, len(p.params), *opts.values(), how, into, len(done),
            ops.inv_label(inv_kw) if with_inv else "")


def reference(ctx, p, op, inv):
    want = {"M": gen.dense(op, p.dtype).clone()}
    for a in PROPS:
        want[a] = torch.as_tensor(getattr(op, a)).clone()
    if inv is not None:
        want["inv"] = gen.dense(inv, p.dtype).clone()
    return want


# --------------------------------------------------------------------------- rejection
def rejected(ctx):
    from curvlinops import KFACInverseLinearOperator as Inv
    from curvlinops import KFACLinearOperator as K

    dtype = torch.float64
    p = kfac.kfac_problem(ctx, dtype=dtype, check_det=False, n_max=4, max_dim=45)
    p.data = items_of(p)
    opts = kfac.kfac_options(ctx, ("type-2", "empirical", "forward-only"))
    model, params = clone_model(ctx, p, True)
    names = list(p.names)
    kind = ctx.pick("loss", "reduction", "layers", "layers", "params", "params")
    loss, data, full = copy.deepcopy(p.loss), p.data, kfac.supported_names(p.model)
    src_loss, src_model, src_params, src_data = p.loss, p.model, p.params, p.data
    if kind == "loss":
        # targets valid for both losses
        if p.loss_name == "ce":
            return rejected_ce(ctx)
        other = nn.BCEWithLogitsLoss if p.loss_name == "mse" else nn.MSELoss
        src_loss = other(reduction=p.red)
        if p.loss_name == "mse":
            src_data = [(X, (y > 0).to(y.dtype)) for X, y in p.data]
    elif kind == "reduction":
        src_loss = type(p.loss)(reduction="sum" if p.red == "mean" else "mean")
    elif kind == "params":
        # another selection of the same model's parameters, touching other layers
        by = dict(p.model.named_parameters())
        lay = lambda ns: {n.rsplit(".", 1)[0] for n in ns}  # noqa: E731
        for _ in range(30):
            other = ctx.r.sample(full, ctx.r.randint(1, len(full)))
            if lay(other) != lay(names) or sum(by[n].numel() for n in other) != p.D:
                break
        else:
            return
        src_params = [by[n].requires_grad_(True) for n in other]
    else:
        # a model with another layer structure, its state saved with matching loss
        m2 = nn.Sequential(nn.Sequential(copy.deepcopy(p.model)), nn.Tanh())
        how = ctx.pick("nested", "extra", "wider")
        by2 = dict(m2.named_parameters())
        src_model = m2
        src_params = [by2[f"0.0.{n}"] for n in names]
        if how == "extra":
            src_model.add_module("3", nn.Identity())
            src_model[-1].register_buffer("more", torch.zeros(2, dtype=dtype))
        elif how == "wider":
            src_model = copy.deepcopy(p.model)
            lin = ([None] + [m for m in src_model.modules() if isinstance(m, nn.Linear)])[-1]
            if lin is None or p.loss_name == "ce" or p.arch in ("img",) or lin.out_features != last(p):
                src_model = m2
            else:
                lin.weight = nn.Parameter(torch.cat([lin.weight] * 2).detach().clone())
                if lin.bias is not None:
                    lin.bias = nn.Parameter(torch.cat([lin.bias] * 2).detach().clone())
                lin.out_features *= 2
                by2 = dict(src_model.named_parameters())
                src_params = [by2[n] for n in names]
                try:
                    with torch.no_grad():
                        out = src_model(p.data[0][0])
                    want = torch.cat([p.data[0][1]] * 2, -1).shape
                    if out.shape != want:
                        raise RuntimeError
                    src_data = [(X, torch.cat([y] * 2, -1)) for X, y in p.data]
                except RuntimeError:
                    src_model, src_params = m2, [dict(m2.named_parameters())[f"0.0.{n}"]
                                                 for n in names]
    ctx.describe(problem=p.label(), mismatch=kind, **opts)
    src = K(src_model, src_loss, src_params, src_data,
            **p.kw(check_deterministic=False), **opts)
    with_inv = ctx.coin(0.4)
    computed = ctx.coin(0.7)
    if with_inv:
        src_top = Inv(src, damping=0.1)
    else:
        src_top = src
    n_src = sum(q.numel() for q in src_params)
    if computed:
        src_top @ ctx.randn(n_src, dtype=dtype)
    elif kind == "params" and n_src == p.D:
        return  # nothing in the state tells the layers apart
    state, how = transport(ctx, src_top.state_dict())
    if how == "memory":
        state = copy.deepcopy(state)
    # target operator, possibly used
    tgt = K(model, loss, params, data, **p.kw(check_deterministic=False), **opts)
    tinv = Inv(tgt, damping=0.3) if with_inv else None
    used = ctx.coin(0.6)
    M0 = inv0 = None
    if used:
        M0 = gen.dense(tgt, dtype).clone()
        tr0 = torch.as_tensor(tgt.trace).clone()
        if with_inv:
            inv0 = gen.dense(tinv, dtype).clone()
    snap = Snapshot(model, params, [t for X, y in data for t in
                                    ((X["x"] if p.dict_in else X), y)])
    ctx.ev(f"reject.{kind}")
    what = f"state with other {kind} (computed={computed}, transport={how})"
    attempts = ["load"]
    if ctx.coin(0.4):
        attempts.append("from" if kind not in ("loss", "reduction") else "load")
    for a in attempts:
        ctx.ev("ckpt.rejected")
        if a == "load":
            fn = (lambda: tinv.load_state_dict(state)) if with_inv else (
                lambda: tgt.load_state_dict(state))
        else:
            base = state["A"] if with_inv else state
            fn = lambda: K.from_state_dict(base, model, params, data,  # noqa: E731
                                           check_deterministic=False,
                                           batch_size_fn=p.batch_size_fn)
        try:
            fn()
        except Exception as e:
            if kind in ("loss", "reduction"):
                ctx.true(isinstance(e, ValueError), "reject.type", f"{what}: {e!r}")
        else:
            ctx.fail(f"reject.{kind}", f"{what} was accepted by {a}", stop=True)
        snap.check(ctx, "reject.model")
    # the target operator works as before
    if not used:
        m2, ps2 = clone_same(model, names)
        fresh = K(m2, copy.deepcopy(loss), ps2, data,
                  **p.kw(check_deterministic=False), **opts)
        M0 = gen.dense(fresh, dtype)
        tr0 = torch.as_tensor(fresh.trace)
        if with_inv:
            inv0 = gen.dense(Inv(fresh, damping=0.3), dtype)
    ctx.close(gen.dense(tgt, dtype), M0, "reject.operator", f"target after {what}", rtol=1e-11)
    ctx.close(torch.as_tensor(tgt.trace), tr0, "reject.operator", f"trace after {what}",
              rtol=1e-10, atol=1e-14)
    if with_inv:
        ctx.close(gen.dense(tinv, dtype), inv0, "reject.operator", f"inverse after {what}",
                  rtol=1e-9)
    snap.check(ctx, "reject.model")
    ctx.sig("reject", kind, p.arch, p.loss_name, computed, used, with_inv, how)


def last(p):
    with torch.no_grad():
        return p.model(p.data[0][0]).shape[-1]


def clone_same(model, names):
    m = copy.deepcopy(model)
    by = dict(m.named_parameters())
    return m, [by[n] for n in names]


def rejected_ce(ctx):
    """A cross-entropy state must not load into a squared-error operator and vice versa."""
    from curvlinops import KFACLinearOperator as K

    ctx.ev("reject.loss")
    C = ctx.r.randint(2, 3)
    m = nn.Sequential(nn.Linear(2, C)).double()
    m2 = copy.deepcopy(m)
    X = ctx.randn(3, 2)
    ce = K(m, nn.CrossEntropyLoss(), list(m.parameters()),
           [(X, torch.randint(0, C, (3,), generator=ctx.g))])
    reg = K(m2, ctx.pick(nn.MSELoss(), nn.BCEWithLogitsLoss()), list(m2.parameters()),
            [(X, ctx.rand(3, C).round())])
    a, b = (ce, reg) if ctx.coin() else (reg, ce)
    if ctx.coin():
        a.trace
    M0 = gen.dense(b, torch.float64)
    state = copy.deepcopy(a.state_dict())
    snap = Snapshot(m2 if b is reg else m, list((m2 if b is reg else m).parameters()))
    ctx.ev("ckpt.rejected")
    ctx.raises(ValueError, lambda: b.load_state_dict(state), "reject.loss",
               "state of another loss")
    snap.check(ctx, "reject.model")
    ctx.close(gen.dense(b, torch.float64), M0, "reject.operator", "target afterwards")
    ctx.sig("reject-ce", a is ce, C)
