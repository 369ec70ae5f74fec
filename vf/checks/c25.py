"""C25 Data traversal: trace specification over data, model and operator events."""
import numpy as np
import torch
from vf import gen, ops, oracle
from vf.monitor import Trace

LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 60000}
MUST = ["trace.product", "trace.gradient", "trace.construct", "trace.kfac_first",
        "trace.kfac_cached", "trace.varying", "trace.no_counts", "trace.counts",
        "trace.inverse", "trace.property", "trace.multicol", "trace.manycol", "trace.scipy", "trace.forwards"]
RULE = (
    "Random operator (all kinds) over a data source and a model that log every traversal, "
    "item and forward pass; after construction and after each of a random sequence of "
    "requests the logged trace must satisfy the specification (exactly one exhausted "
    "traversal and one forward pass per item in order, none for cached Kronecker factors); "
    "with a source whose items change between traversals, each product must be that of the "
    "items of its own traversal; non-trivial when there are several mini-batches."
)
PROPS = ("trace", "det", "logdet", "frobenius_norm")


def one_pass(ctx, tr, what, mech):
    full, part, fwd = tr.summary()
    ctx.equal((len(full), len(part)), (1, 0), f"{mech}.traversals",
              f"exhausted and partial traversals for {what}")
    if len(full) != 1:
        return
    order = [e[2] for e in tr.events if e[0] == "yield"]
    ctx.equal(order, list(range(len(tr.items))), f"{mech}.items", f"items drawn for {what}")
    want = [tr._tensor(X) for X, _ in tr.given[full[0]]]
    ctx.ev("trace.forwards", len(fwd))
    if not ctx.equal(len(fwd), len(want), f"{mech}.forwards", f"forward passes for {what}"):
        return
    for i, (a, b) in enumerate(zip(fwd, want)):
        ctx.true(a.shape == b.shape and bool((a == b).all()), f"{mech}.order",
                 f"forward pass {i} of {what} did not see mini-batch {i}")


def nothing(ctx, tr, what, mech):
    full, part, fwd = tr.summary()
    ctx.equal((len(full), len(part), len(fwd)), (0, 0, 0), mech,
              f"exhausted and partial traversals and forward passes for {what}")


def derived(ctx, tr, kind, what):
    """Operators derived from one that knows the counts need no traversal."""
    full, part, fwd = tr.summary()
    if kind not in ("jac", "jact"):
        return nothing(ctx, tr, f"{kind} {what}", "derived.traversals")
    looks = [e[2] for e in tr.events if e[0] == "yield"]
    ctx.true(not full and set(looks) <= {0} and len(fwd) <= 1, "derived.traversals",
             f"{kind} {what} drew items {looks} with {len(fwd)} forward passes")


def case(ctx):
    p = ops.shared_problem(ctx)
    kind = ctx.pick(*ops.shared_kinds(p))
    o = ops.recipe(ctx, p, kind)
    kind = o.kind
    is_kfac = kind.startswith("kfac")
    vary = None
    if not is_kfac and ctx.coin(0.35):
        ctx.ev("trace.varying")

        def vary(t, i, item):
            X, y = item
            g = torch.Generator().manual_seed(1000 * t + i)
            f = lambda x: (x.double() + torch.randn(x.shape, generator=g).double()).to(  # noqa: E731
                x.dtype) if x.is_floating_point() else (x + t) % 2
            return (type(X)({"x": f(X["x"])}) if p.dict_in else f(X)), y

    tr = Trace(p.data, p.model, p.dict_in, vary)
    over = {}
    terms_given = False
    if is_kfac and ctx.coin(0.5):
        terms_given = True
        ref = p.ref()
        T = oracle.terms(ref, ref.fwd(0), p.loss_name == "ce").shape[0]
        over["num_per_example_loss_terms"] = T
    n_given = p.num_data is not None and kind != "act"
    op = o.make(data=tr, **over)
    ctx.describe(problem=p.label(), kind=kind, options=o.extra, vary=vary is not None,
                 terms=terms_given)
    # ------------------------------------------------------------- construction
    ctx.ev("trace.construct")
    full, part, fwd = tr.summary()
    missing = int(not n_given) + int(is_kfac and not terms_given)
    if kind == "act":  # has to establish that there is a single mini-batch
        missing += 1
    ctx.ev("trace.no_counts" if missing else "trace.counts")
    ctx.true(len(full) <= missing, "construct.traversals",
             f"{len(full)} traversals at construction, {missing} counts were missing")
    looks = [e for e in tr.events if e[0] == "yield" and e[1] in part]
    ctx.true(all(e[2] == 0 for e in looks) or kind == "act", "construct.look",
             f"construction drew items {[e[2] for e in looks]} without counting")
    ctx.true(len(fwd) <= 1, "construct.forwards", f"{len(fwd)} forward passes")
    for x in fwd:
        firsts = [tr._tensor(g[0][0]) for g in tr.given.values() if g]
        ctx.true(any(x.shape == f.shape and bool((x == f).all()) for f in firsts),
                 "construct.forwards", "construction evaluated another item than the first")
    base = op.vf_base if kind == "kfacinv" else op
    tr.clear()
    computed = False
    atol = 0.0 if p.dtype == torch.float64 else 1e-5
    for _ in range(ctx.r.randint(2, 5)):
        acts = ["product", "product", "gradient", "scipy", "adjoint"]
        if is_kfac:
            acts += ["property"] * 2 + ["state"]
        if kind in ("jac", "jact"):
            acts.remove("gradient")
        if kind == "kfacinv":
            acts.remove("gradient")
        act = ctx.pick(*acts)
        dim = op.shape[1]
        what = f"{kind} {act}"
        got = want_in = None
        if act == "product":
            many = ctx.pick(9, 33, 65, 130, 257) if ctx.coin(0.05) else None
            X, v = gen.random_operand(ctx, dim, o.in_shapes, p.dtype, K=many)
            ctx.ev("trace.manycol", many is not None)
            ctx.ev("trace.multicol", v.ndim == 2 and v.shape[1] > 1)
            got, want_in = gen.to_dense(op @ X, o.out_shapes), v
        elif act == "adjoint":
            adj = op.adjoint()
            derived(ctx, tr, kind, "adjoint()")
            tr.clear()
            v = ctx.randn(op.shape[0], ctx.pick(1, 2), dtype=p.dtype)
            adj @ v
        elif act == "scipy":
            S = op.to_scipy()
            derived(ctx, tr, kind, "to_scipy()")
            tr.clear()
            v = ctx.randn(dim, dtype=p.dtype)
            got = torch.as_tensor(np.asarray(S @ v.numpy()))
            want_in = v
            ctx.ev("trace.scipy")
        elif act == "gradient":
            base.gradient_and_loss()
        elif act == "property":
            getattr(base, ctx.pick(*PROPS))
        elif act == "state":
            op.state_dict()
        if act == "gradient":
            ctx.ev("trace.gradient")
            one_pass(ctx, tr, what, "gradient")
        elif not is_kfac:
            ctx.ev("trace.product")
            one_pass(ctx, tr, what, "product")
            if vary is not None and got is not None and not ctx.fails:
                full, _, _ = tr.summary()
                m, params = ops.clone(p)
                fresh = o.make(model=m, model_func=m, params=params, num_data=None,
                               data=tr.given[full[0]], progressbar=False)
                M = gen.dense(fresh, p.dtype)
                ctx.close(got, M.double() @ want_in.double(), "product.stale",
                          f"{what} against the items of its own traversal", atol=atol * 10,
                          scale=M.abs().max().item())
        elif act == "state":
            nothing(ctx, tr, what, "state.traversals")
        elif not computed:
            ctx.ev("trace.kfac_first")
            one_pass(ctx, tr, what, "factors")
            computed = True
        else:
            ctx.ev("trace.kfac_cached")
            nothing(ctx, tr, what, "cached.traversals")
        ctx.ev("trace.property", act == "property")
        ctx.ev("trace.inverse", kind == "kfacinv")
        tr.clear()
    tr.remove()
    if len(p.data) > 1:
        ctx.sig(kind, o.extra, p.label(), vary is not None)
