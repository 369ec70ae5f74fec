"""C06 gradient_and_loss."""
import torch
from vf import gen, oracle

LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 45000}
MUST = ["gradient.requests", "oracle.rejections", "op.interleaved",
        "stream.used", "stream.noloss"]
RULE = (
    "Random operator class x model x loss x reduction x batching x parameter selection "
    "x dtype; 1-3 requests interleaved with products; non-trivial when the gradient is "
    "non-zero; distinct by (class, arch, loss, reduction, batches, #params, dtype)."
)


def stream(ctx, p, op, g, L, scale, atol):
    """Batch-wise quantities: each batch once, in order, with its share of the total."""
    ctx.ev("stream.used")
    total, ys, shares = [torch.zeros_like(x, dtype=torch.float64) for x in g], [], []
    outs = list(op.data_prediction_loss_gradient())
    ctx.equal(len(outs), len(p.sizes), "stream.count", "number of batches")
    for k, ((X, y), pred, loss, gs) in enumerate(outs):
        ys.append(y)
        size = p.sizes[k] if k < len(p.sizes) else 0
        f = p.model_func(X)
        ctx.close(pred, f, "stream.prediction", f"prediction of batch {k}")
        want = p.loss(f, y) * (size / p.N if p.red == "mean" else 1.0)
        want_g = torch.autograd.grad(want, p.params, allow_unused=True)
        ctx.close(loss, want, "stream.loss", f"loss of batch {k}", scale=1e-3, atol=atol)
        ctx.true(not loss.requires_grad and not any(x.requires_grad for x in gs),
                 "stream.graph", "batch gradient or loss carries a graph")
        for a, b, t in zip(gs, want_g, total):
            b = torch.zeros_like(a) if b is None else b
            ctx.close(a, b, "stream.gradient", f"gradient of batch {k}", scale=scale,
                      atol=atol)
            t += a.double()
        shares.append(loss.double())
    if outs:
        ctx.close(torch.cat([y.double() for y in ys]), p.y.double(), "stream.order",
                  "labels in order")
        ctx.close(sum(shares), L, "stream.loss", "sum over batches", scale=1e-3,
                  atol=atol * len(outs))
    for i, (a, b) in enumerate(zip(total, g)):
        ctx.close(a, b, "stream.gradient", f"sum over batches, entry {i}", scale=scale,
                  rtol=1e-8 if p.dtype == torch.float64 else 5e-4, atol=atol * len(outs))


def case(ctx):
    import curvlinops as C

    cls = ctx.pick("Hessian", "GGN", "EF", "FisherMC", "KFAC")
    losses = ("mse", "ce", "bce")
    if cls in ("Hessian", "GGN"):
        losses += ("cubic", "huber", "poisson", "ce_smooth")
    kw = dict(archs=gen.ARCHS + ["fold"]) if cls in ("Hessian", "GGN") else {}
    if cls == "KFAC":
        kw = dict(archs=["mlp", "cnn"], allow_dict=False, allow_func=False)
    p = gen.problem(ctx, losses=losses, **kw)
    if cls == "KFAC":  # avoid unrelated layers being frozen out of the graph
        for q in p.model.parameters():
            q.requires_grad_(True)
    g, L = oracle.gradient_and_loss(p.ref())
    _, atol = oracle.with_noise(
        p, lambda r: oracle.flat([*oracle.gradient_and_loss(r)[0], oracle.risk(r).detach()])
    )
    floor = oracle.grad_floor(p.ref())
    ctx.describe(cls=cls, problem=p.label(), D=p.D)
    op = getattr(C, f"{cls}LinearOperator")(
        p.model_func, p.loss, p.params, p.data, **p.kw()
    )
    if ctx.coin(0.5):  # pre-existing .grad must not leak in
        for q in p.params:
            q.grad = torch.full_like(q, 3.0)
    first = None
    for rep in range(ctx.r.randint(1, 3)):
        gs, loss = op.gradient_and_loss()
        ctx.ev("gradient.requests")
        ctx.equal([tuple(x.shape) for x in gs], [tuple(q.shape) for q in p.params],
                  "gradient.shapes", "gradient shapes")
        ctx.equal([x.dtype for x in gs] + [loss.dtype], [p.dtype] * (len(gs) + 1),
                  "gradient.dtype", "gradient/loss dtype")
        ctx.equal(tuple(loss.shape), (), "gradient.loss_shape", "loss shape")
        ctx.true(not loss.requires_grad and not any(x.requires_grad for x in gs),
                 "gradient.graph", "gradient or loss carries a graph")
        ptrs = {x.data_ptr() for x in gs}
        own = {q.data_ptr() for q in p.params} | {
            q.grad.data_ptr() for q in p.params if q.grad is not None
        }
        ctx.true(not (ptrs & own) and len(ptrs) == len(gs), "gradient.alias",
                 "gradient aliases parameters, .grad or itself")
        scale = max(x.abs().max().item() for x in g) + floor
        for i, (a, b) in enumerate(zip(gs, g)):
            ctx.close(a, b, "gradient.value", f"gradient entry {i} (request {rep})",
                      scale=scale, atol=atol)
        ctx.close(loss, L, "gradient.loss", "loss value", scale=1e-3, atol=atol)
        if first is None:
            first = [x.clone() for x in gs]
        for x in gs:  # results belong to the caller
            x.fill_(99.0)
        loss.fill_(99.0)
        if ctx.coin(0.5):
            op @ ctx.randn(op.shape[1], dtype=p.dtype)
            ctx.ev("op.interleaved")
    if ctx.coin(0.4):
        stream(ctx, p, op, g, L, scale, atol)
    if ctx.coin(0.2) and p.rows == 1:
        J = ctx.pick(C.JacobianLinearOperator, C.TransposedJacobianLinearOperator)(
            p.model_func, p.params, p.data, **p.kw()
        )
        ctx.raises(ValueError, J.gradient_and_loss, "gradient.noloss", "no loss")
        ctx.ev("stream.noloss")
        for (X, y), pred, loss, gs in J.data_prediction_loss_gradient():
            ctx.true(loss is None and gs is None, "stream.noloss", "loss without loss function")
            ctx.close(pred, p.model_func(X), "stream.prediction", "prediction, no loss")
    if any(x.abs().max() > 0 for x in g):
        ctx.sig(cls, p.arch, p.loss_name, p.red, p.sizes, len(p.params), p.dtype,
                p.dict_in, p.num_data is not None)
