"""C10 Repeatability and independence of call history, on operators sharing a model."""
import numpy as np
import torch
from vf import gen, ops, oracle

LEVEL = "exploration"
CASES = {"quick": 1600, "thorough": 24000}
MUST = ["hist.products", "hist.gradients", "hist.updates", "hist.reseed", "hist.repeat",
        "hist.after_update", "hist.kfac_frozen", "hist.adjoint", "hist.scipy",
        "hist.property", "hist.inverse", "hist.several", "hist.mc",
        "hist.state", "hist.estimator"]
RULE = (
    "One to four operators of random kinds share a model and a data set; a random history "
    "interleaves products in random formats, adjoint, SciPy, gradient, property, checkpoint "
    "and estimator requests, in-place parameter updates, optimizer steps and global "
    "reseeding; each result is compared with the matrix of a fresh operator on a copy of the "
    "model in its current state (for Kronecker-factored ones: in the state at first "
    "computation); an exact repeat must give the same result; non-trivial when a product "
    "follows another request."
)
PROPS = ("trace", "det", "logdet", "frobenius_norm")


class Tracked:
    def __init__(self, o, op):
        self.o, self.op = o, op
        self.M = None  # expected matrix, valid for ``version``
        self.version = None
        self.last = None

    @property
    def caching(self):
        return self.o.kind.startswith("kfac")

    def expected(self, version):
        if self.M is None or (not self.caching and self.version != version):
            self.M = ops.snapshot_matrix(self.o)
            if self.o.kind == "kfacinv":
                self.base = ops.snapshot_matrix(self.o, base=True)
            self.version = version
        return self.M


def update(ctx, p):
    """Change the parameters in place, the ways users do."""
    how = ctx.pick("add_", "copy_", "data", "optimizer", "buffers", "load_state_dict")
    with torch.no_grad():
        for q in p.model.parameters():
            d = 0.3 * ctx.randn(*q.shape, dtype=q.dtype)
            if how == "add_":
                q.add_(d)
            elif how == "copy_":
                q.copy_(d)
            elif how == "data":
                q.data = q.data + d
            elif how == "optimizer":
                q.grad = d
        if how == "buffers":
            for b in p.model.buffers():
                if b.is_floating_point():
                    b += 0.2 * ctx.rand(*b.shape, dtype=b.dtype)
            list(p.model.parameters())[0].add_(0.1)
    if how == "optimizer":
        opt = torch.optim.SGD(p.model.parameters(), lr=0.1, momentum=0.9)
        opt.step()
        if ctx.coin():
            opt.zero_grad()
    if how == "load_state_dict":
        p.model.load_state_dict({k: v + 0.1 * ctx.randn(*v.shape, dtype=v.dtype)
                                 if v.is_floating_point() else v
                                 for k, v in p.model.state_dict().items()})
    return how


def case(ctx):
    f32 = ctx.coin(0.15)
    p = ops.shared_problem(ctx, dtype=torch.float32 if f32 else torch.float64, max_dim=30,
                           n_max=4)
    rt = 1e-9 if not f32 else 2e-4
    k = ctx.r.randint(1, 4)
    ctx.ev("hist.several", k > 1)
    kinds = [ctx.pick(*ops.shared_kinds(p)) for _ in range(k)]
    recipes = [ops.recipe(ctx, p, kd) for kd in kinds]
    if ctx.coin(0.2):
        recipes.append(recipes[0])  # two operators of one configuration
    alive = [Tracked(o, None) for o in recipes]
    for t in alive:
        if ctx.coin(0.7):
            t.op = t.o.make(check_deterministic=not f32 and ctx.coin(0.25)
                            and t.o.kind not in ("kfacinv", "kfac", "kfac-mc"))
    version, log = 0, []
    for step in range(ctx.r.randint(3, 9)):
        act = ctx.pick("product", "product", "product", "repeat", "gradient", "update",
                       "reseed", "adjoint", "scipy", "property", "state", "estimator",
                       "device")
        if act == "update":
            how = update(ctx, p)
            version += 1
            log.append(f"update:{how}")
            ctx.ev("hist.updates")
            continue
        if act == "reseed":
            ctx.ev("hist.reseed")
            s = ctx.r.randint(0, 99)
            torch.manual_seed(s)
            np.random.seed(s)
            log.append("reseed")
            continue
        i = ctx.r.randrange(len(alive))
        t = alive[i]
        if t.op is None:
            t.op = t.o.make()
        if act == "repeat" and t.last is None:
            act = "product"
        o, op, dtype = t.o, t.op, p.dtype
        log.append(f"{i}:{o.kind}.{act}")
        what = f"{o.kind} after {log}"
        base = op.vf_base if o.kind == "kfacinv" else op
        if act in ("product", "repeat", "adjoint", "scipy"):
            want = t.expected(version)
            scale = want.abs().max().item()
            if t.caching and version:
                ctx.ev("hist.kfac_frozen")
            if version and not t.caching:
                ctx.ev("hist.after_update")
            atol = 1e-5 * scale if f32 else 0.0
        if act == "product":
            X, v = gen.random_operand(ctx, op.shape[1], o.in_shapes, dtype)
            Y = gen.to_dense(op @ X, o.out_shapes)
            ctx.close(Y, want.double() @ v.double(), "history.product", what, rtol=rt,
                      scale=scale, atol=atol * op.shape[1])
            t.last = (X, v, Y.clone(), version)
            ctx.ev("hist.products")
            ctx.ev("hist.inverse", o.kind == "kfacinv")
            ctx.ev("hist.mc", o.kind in ("mc", "kfac-mc"))
        elif act == "repeat":
            X, v, Y0, ver = t.last
            if ver == version or t.caching:
                Y = gen.to_dense(op @ X, o.out_shapes)
                ctx.ev("hist.repeat")
                ctx.close(Y, Y0, "history.repeat", what, rtol=1e-13 if not f32 else 1e-5,
                          atol=1e-15)
        elif act == "adjoint":
            ctx.ev("hist.adjoint")
            v = ctx.randn(op.shape[0], 2, dtype=dtype)
            ctx.close(op.adjoint() @ v, want.double().T @ v.double(), "history.adjoint", what,
                      rtol=rt, scale=scale, atol=atol * op.shape[1])
        elif act == "scipy":
            ctx.ev("hist.scipy")
            v = ctx.randn(op.shape[1], dtype=dtype)
            if not hasattr(t, "S"):
                t.S = op.to_scipy()
            ctx.close(torch.as_tensor(t.S @ v.numpy()), want.double() @ v.double(),
                      "history.scipy", what, rtol=rt, scale=scale, atol=atol * op.shape[1])
        elif act == "gradient" and o.kind not in ("jac", "jact", "kfacinv", "act"):
            ctx.ev("hist.gradients")
            g, loss = op.gradient_and_loss()
            ref = p.ref()
            L = oracle.risk(ref)
            G = torch.autograd.grad(L, ref.params, allow_unused=True)
            ctx.close(loss, L, "history.loss", what, atol=1e-5 if f32 else 1e-12)
            s = max([x.abs().max().item() for x in G if x is not None] + [1e-12])
            for a, b in zip(g, G):
                b = torch.zeros_like(a) if b is None else b
                ctx.close(a, b, "history.gradient", what, scale=s, atol=1e-5 if f32 else 0.0)
        elif act == "property" and t.caching:
            t.expected(version)
            M = (t.base if o.kind == "kfacinv" else t.M).double()
            name = ctx.pick(*PROPS)
            got = torch.as_tensor(float(getattr(base, name)), dtype=torch.float64)
            ctx.ev("hist.property")
            if name in ("trace", "frobenius_norm"):
                w = M.trace() if name == "trace" else M.norm()
                ctx.close(got, w, f"history.{name}", what, rtol=rt * 10,
                          scale=M.norm().item(), atol=1e-5 if f32 else 0.0)
        elif act == "device":  # loading it to where it is changes nothing
            ctx.ev("hist.device")
            base.to_device(torch.device("cpu"))
        elif act == "state" and t.caching:
            ctx.ev("hist.state")
            op.state_dict()
        elif act == "estimator" and op.shape[0] == op.shape[1] and op.shape[0] >= 2:
            from curvlinops import HutchinsonTraceEstimator, HutchPPTraceEstimator

            ctx.ev("hist.estimator")
            t.expected(version)
            est = ctx.pick(HutchinsonTraceEstimator, HutchPPTraceEstimator)
            st = np.random.get_state()
            np.random.seed(3)
            est(op.to_scipy()).sample() if est is HutchinsonTraceEstimator \
                else est(op.to_scipy(), basis_dim=1).sample()
            np.random.set_state(st)
        if ctx.fails:
            break
    ctx.describe(problem=p.label(), operators=[o.kind + o.extra for o in recipes],
                 history=log)
    if len(log) > 1:
        ctx.sig(p.label(), tuple(log))
