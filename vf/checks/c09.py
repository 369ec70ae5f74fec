"""C09 No side effects and no aliasing: state snapshots around every public request."""
import numpy as np
import torch
from torch import nn
from vf import gen, ops
from vf.monitor import Snapshot
from vf.rec import Recorder

LEVEL = "exploration"
CASES = {"quick": 5000, "thorough": 75000}
MUST = ["side.construct", "side.check", "side.product", "side.gradient", "side.property",
        "side.inverse", "side.scipy", "side.adjoint", "side.reject", "side.device",
        "alias.mutated", "alias.repeat", "alias.pairs", "side.hooks", "side.grads",
        "side.frozen", "side.buffers", "side.training", "side.state", "side.numpy_op",
        "monitor.snapshots"]
RULE = (
    "Random operator of any kind on a model with random training flags, hooks, existing "
    "gradients, buffers and frozen parameters; model, parameters, data, operands, option "
    "lists, hooks and global states are snapshotted around construction and every request; "
    "results must carry no graph and share no memory with operands, parameters, gradients, "
    "buffers, data or other results; results and operands are overwritten and the product "
    "repeated; non-trivial when at least one product was made."
)
PROPS = ("trace", "det", "logdet", "frobenius_norm")


def span(t):
    """Byte ranges are too coarse for strided views; use the set of element addresses."""
    idx = torch.zeros((), dtype=torch.long)
    for n, s in zip(t.shape, t.stride()):
        idx = idx.unsqueeze(-1) + torch.arange(n) * s
    return set((t.data_ptr() + t.element_size() * idx).flatten().tolist())


def globals_():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(), np.geterr()["all"]
            if "all" in np.geterr() else tuple(sorted(np.geterr().items())))


def data_state(p):
    out = []
    for item in p.data:
        X = item[0]
        out.append((id(item), id(X), id(item[1]), tuple(X.keys()) if p.dict_in else (),
                    id(X["x"]) if p.dict_in else 0, type(X).__name__))
    return len(p.data), out


class World:
    """Everything the user owns, with its monitors."""

    def __init__(self, ctx, p, lists):
        self.ctx, self.p, self.lists = ctx, p, lists
        self.tensors = []
        for X, y in p.data:
            self.tensors += [X["x"] if p.dict_in else X, y]
        self.watch()

    def watch(self, rng=True):
        self.snap = Snapshot(self.p.model, self.p.params, self.tensors, rng=rng)
        self.glob = globals_()
        self.data = data_state(self.p)
        self.copy = [list(x) for x in self.lists]
        self.flags = [(t.requires_grad, None if t.grad is None else t.grad.clone(),
                       t._version) for t in self.tensors]

    def check(self, what):
        ctx = self.ctx
        n = len(ctx.fails)
        self.snap.check(ctx, "side")
        ctx.equal(globals_(), self.glob, "side.global", "global settings")
        ctx.equal(data_state(self.p), self.data, "side.data", "data containers")
        ctx.true([list(x) for x in self.lists] == self.copy, "side.arguments",
                 "a list argument changed")
        for t, (rg, g, _) in zip(self.tensors, self.flags):
            ctx.true(t.requires_grad == rg, "side.data", "requires_grad of data changed")
            ctx.true((t.grad is None) == (g is None), "side.data", "gradient of data changed")
        for f in ctx.fails[n:]:
            f["msg"] = f"{what}: {f['msg']}"

    def owned(self):
        m = self.p.model
        out = {f"parameter {n}": q for n, q in m.named_parameters()}
        out.update({f"gradient {n}": q.grad for n, q in m.named_parameters()
                    if q.grad is not None})
        out.update({f"buffer {n}": b for n, b in m.named_buffers()})
        out.update({f"data {i}": t for i, t in enumerate(self.tensors)})
        return out


def decorate(ctx, p):
    """Give the model the kinds of state users have."""
    m = p.model
    stateful = any(isinstance(x, (nn.BatchNorm1d, nn.Dropout)) for x in m.modules())
    if not stateful:
        for x in m.modules():
            x.training = ctx.coin()
        ctx.ev("side.training")
    for q in m.parameters():
        if ctx.coin(0.4):
            q.grad = ctx.randn(*q.shape, dtype=q.dtype)
            ctx.ev("side.grads")
    mods = list(m.modules())
    for _ in range(ctx.r.randint(0, 2)):
        mod = ctx.pick(*mods)
        ctx.ev("side.hooks")
        if ctx.coin():
            mod.register_forward_hook(lambda m_, i, o: None)
        else:
            mod.register_forward_pre_hook(lambda m_, i: None)
    ctx.ev("side.frozen", len(p.frozen) > 0)
    ctx.ev("side.buffers", len(list(m.buffers())) > 0)


def tensors_of(out):
    if isinstance(out, torch.Tensor):
        return [out]
    return [t for o in out for t in tensors_of(o)]


def case(ctx):
    if ctx.coin(0.15):
        return numpy_ops(ctx)
    p = ops.shared_problem(ctx, n_max=4)
    decorate(ctx, p)
    kind = ctx.pick(*ops.shared_kinds(p))
    o = ops.recipe(ctx, p, kind)
    kind, dtype = o.kind, p.dtype
    lists = [p.params] + ([o.blocks["block_sizes"]] if o.blocks else [])
    if ctx.coin(0.1) and not p.dict_in and not p.frozen:
        for X, _ in p.data:
            X.requires_grad_(X.is_floating_point())
    w = World(ctx, p, lists)
    # ------------------------------------------------------------- construction
    check = kind != "kfacinv" and dtype == torch.float64 and ctx.coin(0.4)
    w.watch(rng=not check)
    op = o.make(check_deterministic=check)
    ctx.ev("side.construct")
    ctx.ev("side.check", check)
    w.check(f"construction of {kind} (check={check})")
    base = op.vf_base if kind == "kfacinv" else op
    held, first = [], []  # (name, tensor) results the user keeps; products to repeat
    history = []
    for _ in range(ctx.r.randint(2, 6)):
        acts = ["product"] * 3 + ["scipy", "adjoint", "reject", "repeat", "device"]
        if kind in ("hessian", "ggn", "ef", "mc") or kind.startswith("kfac"):
            acts += ["gradient"] * 2
        if kind.startswith("kfac"):
            acts += ["property", "state"]
        act = ctx.pick(*acts)
        history.append(act)
        w.watch()
        out, operand = [], []
        if act == "product":
            X, v = gen.random_operand(ctx, op.shape[1], o.in_shapes, dtype)
            operand = tensors_of(X)
            before = [x.clone() for x in operand]
            ids = [id(x) for x in X] if isinstance(X, list) else None
            geo = [(x.shape, x.stride(), x.requires_grad) for x in operand]
            Y = op @ X
            out = tensors_of(Y)
            for x, b in zip(operand, before):
                ctx.same(x, b, "side.operand", f"operand of {kind}")
            ctx.equal([(x.shape, x.stride(), x.requires_grad) for x in operand], geo,
                      "side.operand", "operand geometry")
            if ids is not None:
                ctx.equal([id(x) for x in X], ids, "side.operand", "operand list entries")
            first.append((X, before, [t.clone() for t in out], isinstance(Y, list)))
            ctx.ev("side.product")
            ctx.ev("side.inverse", kind == "kfacinv")
        elif act == "gradient":
            g, loss = base.gradient_and_loss()
            out = [*g, loss]
            ctx.ev("side.gradient")
        elif act == "property":
            getattr(base, ctx.pick(*PROPS))
            ctx.ev("side.property")
        elif act == "state":
            op.state_dict()
            ctx.ev("side.state")
        elif act == "device":
            if kind != "kfacinv":
                op.to_device(torch.device("cpu"))
            ctx.ev("side.device")
        elif act == "adjoint":
            v = ctx.randn(op.shape[0], 2, dtype=dtype)
            b = v.clone()
            out, operand = [op.adjoint() @ v], [v]
            ctx.same(v, b, "side.operand", "operand of the adjoint")
            ctx.ev("side.adjoint")
        elif act == "scipy":
            scipy_product(ctx, op, dtype, kind)
        elif act == "reject":
            bad = ctx.randn(op.shape[1] + 1, dtype=dtype)
            ctx.raises((ValueError,), lambda: op @ bad, "side.reject", "operand too long")
            ctx.ev("side.reject")
        elif act == "repeat" and first:
            X, before, want, is_list = ctx.pick(*first)
            for x, b in zip(tensors_of(X), before):
                x.copy_(b)
            got = tensors_of(op @ X)
            tol = 1e-12 if dtype == torch.float64 else 1e-5
            for a, b in zip(got, want):
                ctx.close(a, b, "alias.repeat", f"{kind} product after {history}", rtol=tol,
                          atol=tol * max(x.abs().max().item() if x.numel() else 0
                                         for x in want))
            ctx.ev("alias.repeat")
        w.check(f"{kind} {act}")
        # --------------------------------------------------- graphs and memory
        for t in out:
            ctx.true(not t.requires_grad and t.grad_fn is None, "alias.graph",
                     f"result of {kind} {act} is part of a graph")
        spans = [span(t) for t in out]
        if spans:
            others = {**w.owned(), **{f"operand {i}": t for i, t in enumerate(operand)},
                      **dict(held)}
            for i, s in enumerate(spans):
                ctx.true(len(s) == out[i].numel(), "alias.self",
                         f"entries of a {kind} {act} result share memory")
                for j in range(i):
                    ctx.true(not s & spans[j], "alias.results",
                             f"results {i} and {j} of {kind} {act} share memory")
                for n, t in others.items():
                    ctx.ev("alias.pairs")
                    ctx.true(not s & span(t), f"alias.{n.split()[0]}",
                             f"result {i} of {kind} {act} shares memory with {n}")
        for i, t in enumerate(out):
            held.append((f"held {len(held)} ({act})", t))
        # ------------------------------------------ the user overwrites things
        if out and ctx.coin(0.5):
            ctx.ev("alias.mutated")
            for t in out:
                t.fill_(float("nan"))
            for x in operand:
                x.fill_(float("inf"))
            w.check(f"overwriting the result of {kind} {act}")
        if ctx.fails:
            break
    ctx.describe(problem=p.label(), kind=kind, options=o.extra, history=history)
    ctx.sig(kind, o.extra, p.label(), tuple(history))


def scipy_product(ctx, op, dtype, kind):
    S = op.to_scipy()
    n = op.shape[1]
    x = ctx.np.standard_normal((n, 2) if ctx.coin() else n)
    x = x.astype({torch.float32: np.float32}.get(dtype, np.float64))
    if ctx.coin(0.3):
        x = x[::-1]
    if ctx.coin(0.3):
        x.flags.writeable = False
    b = x.copy()
    y = S @ x
    ctx.ev("side.scipy")
    ctx.same(x.copy(), b, "side.operand", f"array operand of {kind}")
    ctx.true(not np.shares_memory(x, y), "alias.operand", "array result shares memory")
    y1 = y.copy()
    y2 = S @ x
    ctx.true(not np.shares_memory(y, y2), "alias.results", "array results share memory")
    y2[...] = 7
    ctx.same(y, y1, "alias.results", "array result after overwriting a later one")


def numpy_ops(ctx):
    """Operators over SciPy operators: inverses, submatrix, outer product, projector."""
    import curvlinops as C
    from curvlinops.outer import OuterProductLinearOperator, Projector

    n = ctx.r.randint(1, 6)
    Q = ctx.np.standard_normal((n, n))
    A = Q @ Q.T + np.eye(n)
    A /= np.linalg.norm(A, 2)
    rec = Recorder(A)
    args = []
    kind = ctx.pick("cg", "lsmr", "neumann", "sub", "outer", "proj")
    if kind == "cg":
        op = C.CGInverseLinearOperator(rec)
        x0 = ctx.np.standard_normal(n)
        if ctx.coin():
            op.set_cg_hyperparameters(x0=x0, tol=1e-10)
            args.append(x0)
    elif kind == "lsmr":
        op = C.LSMRInverseLinearOperator(rec)
    elif kind == "neumann":
        op = C.NeumannInverseLinearOperator(rec, num_terms=ctx.r.randint(1, 8),
                                            scale=ctx.pick(1.0, 0.5))
    elif kind == "sub":
        rows = [ctx.r.randrange(n) for _ in range(ctx.r.randint(1, n))]
        cols = ctx.r.sample(range(n), ctx.r.randint(1, n))
        rows = list(dict.fromkeys(rows))
        op = C.SubmatrixLinearOperator(rec, rows, cols)
        args += [np.array(rows), np.array(cols)]
    else:
        k = ctx.r.randint(1, n)
        B = np.linalg.qr(ctx.np.standard_normal((n, k)))[0]
        B = np.asfortranarray(B) if ctx.coin() else np.ascontiguousarray(B)
        c = ctx.np.standard_normal(k)
        op = OuterProductLinearOperator(c, B) if kind == "outer" else Projector(B)
        args += [B, c]
    copies = [a.copy() for a in args]
    M0 = A.copy()
    snap = torch.get_rng_state().clone(), np.random.get_state()[1].copy()
    hist = []
    for _ in range(ctx.r.randint(1, 3)):
        K = ctx.pick(None, 1, 2, 3)
        x = ctx.np.standard_normal(op.shape[1] if K is None else (op.shape[1], K))
        lay = ctx.pick("C", "F", "neg", "ro", "zero")
        if lay == "F":
            x = np.asfortranarray(x)
        elif lay == "neg":
            x = x[::-1]
        elif lay == "zero":
            x[...] = 0
        if lay == "ro":
            x.flags.writeable = False
        b = x.copy()
        y = op @ x
        hist.append((K, lay))
        ctx.ev("side.numpy_op")
        ctx.same(x.copy(), b, "side.operand", f"array operand ({lay}) of {kind}")
        for z in [x, A, rec.M, *args]:
            ctx.true(not np.shares_memory(z, y), "alias.operand",
                     f"result of {kind} shares memory with user data")
        y1 = y.copy()
        y2 = op @ x
        ctx.true(not np.shares_memory(y, y2), "alias.results", f"{kind} results share memory")
        ctx.close(y2, y1, "alias.repeat", f"repeated {kind} product", rtol=1e-9)
        if y2.flags.writeable:
            y2[...] = np.nan
            ctx.same(y, y1, "alias.results", f"{kind} result after overwriting another")
        for a, c in zip(args, copies):
            ctx.same(a, c, "side.arguments", f"array argument of {kind}")
        ctx.same(rec.M, M0, "side.arguments", "the base operator's matrix")
        ctx.true(torch.equal(torch.get_rng_state(), snap[0])
                 and (np.random.get_state()[1] == snap[1]).all(), "side.rng",
                 f"{kind} advanced a global random state")
    ctx.describe(kind=kind, n=n, products=hist)
    ctx.sig("numpy", kind, n, tuple(hist))
