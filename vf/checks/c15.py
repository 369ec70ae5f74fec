"""C15 KFAC trace, determinant, log-determinant, Frobenius norm."""
import torch
from vf import gen, kfac

LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 45000}
MUST = ["prop.trace", "prop.det", "prop.logdet", "prop.frobenius_norm", "prop.repeat",
        "prop.before_product", "prop.mutated", "prop.after_load", "prop.singular", "prop.reference", "prop.lowprec", "prop.unsupported",
        "prop.extreme", "prop.det_out_of_range"]
RULE = (
    "Random KFAC configuration (all Fisher types) and parameter selection; the four "
    "properties requested in random order, repeatedly, interleaved with products and "
    "checkpoint loads, compared with the observed dense matrix (and, for non-sampled "
    "types, with the independent reference); non-trivial when the matrix is non-zero."
)
PROPS = ["trace", "det", "logdet", "frobenius_norm"]


def dense_of(op, dtype):
    return gen.dense(op, dtype).double()


def lowprec(ctx):
    """Types without determinants: requests fail each time or give the right value."""
    p = kfac.kfac_problem(ctx, dtype=torch.float64, check_det=False, archs=("mlp", "seq"))
    dt = ctx.pick(torch.bfloat16, torch.bfloat16, torch.float16)
    p.model.to(dt)
    p.data = [(X.to(dt) if torch.is_tensor(X) else {"x": X["x"].to(dt)}, y.to(dt) if y.is_floating_point() else y) for X, y in p.data]
    opts = kfac.kfac_options(ctx, ("type-2", "empirical", "forward-only"))
    ctx.describe(problem=p.label(), dtype=dt, **opts)
    op = kfac.make(p, opts)
    M = gen.dense(op, dt).double()
    big = max(M.norm().item(), 1e-3)
    for name in [ctx.pick(*PROPS) for _ in range(6)]:
        try:
            v = torch.as_tensor(getattr(op, name)).double().item()
        except (RuntimeError, NotImplementedError):
            ctx.ev("prop.unsupported")
            continue
        ctx.ev("prop.lowprec")
        if name == "trace":
            ctx.close(v, M.trace(), "prop.lowprec", name, rtol=0.1, scale=big)
        elif name == "frobenius_norm" and big > 0.1 and dt == torch.bfloat16:
            ctx.close(v, M.norm(), "prop.lowprec", name, rtol=0.1, scale=big)
        elif name == "det":
            want = torch.linalg.det(M).item()
            ctx.true(v != v or abs(v - want) <= 0.3 * abs(want) + 0.5 * max(1, big) ** p.D,
                     "prop.lowprec", f"det {v}, want {want}")
        elif name == "logdet" and torch.linalg.eigvalsh((M + M.T) / 2).min() > 0.05:
            ctx.close(v, torch.logdet(M), "prop.lowprec", name, rtol=0.3, atol=p.D)
    ctx.sig("lowprec", p.label(), dt, *opts.values())


def case(ctx):
    if ctx.coin(0.06):
        return lowprec(ctx)
    p = kfac.kfac_problem(ctx, dtype=ctx.pick(torch.float64, torch.float64, torch.float32)
                          if ctx.coin(0.3) else torch.float64, check_det=False)
    opts = kfac.kfac_options(ctx, ("type-2", "mc", "empirical", "forward-only"))
    over = {}
    if opts["fisher_type"] == "mc":
        over = dict(seed=ctx.r.randint(0, 2**31), mc_samples=ctx.r.randint(1, 4))
    ctx.describe(problem=p.label(), **opts, D=p.D)
    op = kfac.make(p, opts, **over)
    order = [ctx.pick(*PROPS) for _ in range(ctx.r.randint(4, 7))]
    got, seen = {}, {}
    M = None
    if ctx.coin(0.5):
        M = dense_of(op, p.dtype)
    else:
        ctx.ev("prop.before_product")
    for name in order:
        if ctx.coin(0.2):
            op @ ctx.randn(p.D, dtype=p.dtype)
        v = getattr(op, name)
        v = torch.as_tensor(v)
        ctx.ev(f"prop.{name}")
        ctx.equal(v.numel(), 1, "prop.shape", f"{name} is a scalar")
        if name in seen:
            ctx.ev("prop.repeat")
            ctx.same(v, seen[name], "prop.repeat", f"repeated {name}")
        seen[name] = got[name] = v.clone()
        if ctx.coin(0.4):  # the value belongs to the caller
            ctx.ev("prop.mutated")
            v.add_(1.0)
    if M is None:
        M = dense_of(op, p.dtype)
    compare(ctx, p, M, got, op, opts)
    if opts["fisher_type"] != "mc" and not kfac.ambiguous(p, opts):
        ctx.ev("prop.reference")
        R = kfac.dense(p.ref(), opts)
        if "trace" in got:
            ctx.close(got["trace"], R.trace(), "prop.reference", "trace of the reference",
                      rtol=1e-7 if p.dtype == torch.float64 else 2e-2,
                      scale=R.abs().max().item(), atol=1e-26)
    if ctx.coin(0.3):
        after_load(ctx, p, opts, over, op)
    if ctx.coin(0.3):
        extreme(ctx, p, opts, over, op)
    if M.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, len(p.params), p.names, *opts.values())


def compare(ctx, p, M, got, op, opts):
    D = len(M)
    f64 = p.dtype == torch.float64
    rt = 1e-7 if f64 else 5e-3
    e = torch.linalg.eigvalsh((M + M.T) / 2)
    big = max(e.abs().max().item(), 1e-300)
    if "trace" in got:
        ctx.close(got["trace"], M.trace(), "prop.trace", "trace", rtol=rt, scale=big)
    if "frobenius_norm" in got:
        ctx.close(got["frobenius_norm"], M.norm(), "prop.frobenius", "Frobenius norm",
                  rtol=rt, scale=big)
    # determinants: conditioning decides how well the reference itself is known
    regular = e.min().item() > (1e-6 if f64 else 1e-2) * big and big > 1e-6
    sign, logabs = torch.linalg.slogdet(M)
    for name in ("det", "logdet"):
        if name not in got:
            continue
        v = got[name].double().item()
        if regular:
            ctx.ev("prop.regular")
            if name == "logdet":
                ctx.close(v, logabs, "prop.logdet", "log-determinant", rtol=rt,
                          scale=D * 10.0 * (1 if f64 else 5))
            elif (abs(logabs.item()) < 300 if f64 else abs(logabs.item()) < 40):
                ctx.close(v, logabs.exp(), "prop.det", "determinant",
                          rtol=rt * 10 * D)
        else:
            ctx.ev("prop.singular")
            # Hadamard-type bound: |det| <= prod of eigenvalue magnitudes (+ rounding)
            up = torch.log(e.abs() + (1e-13 if f64 else 1e-5) * big).sum().item()
            slack = D * (8.0 if f64 else 12.0) + 5
            if name == "det" and not f64:
                continue  # intermediate powers may overflow in single precision
            elif name == "det":
                ctx.true(v == v and abs(v) <= _exp(up + slack), "prop.det",
                         f"det {v} of a near-singular matrix, bound {_exp(up + slack)}")
            else:
                ctx.true(v != v or v <= up + slack, "prop.logdet",
                         f"logdet {v} of a near-singular matrix, bound {up + slack}")


def _exp(x):
    return float("inf") if x > 700 else float(torch.tensor(x).double().exp())


def extreme(ctx, p, opts, over, op):
    """Factors whose determinants leave the range of floating point numbers."""
    op.trace
    state = op.state_dict()
    e = ctx.pick(-1, 1) * ctx.r.randint(*((20, 100) if p.dtype == torch.float64 else (6, 12)))
    gs = {}
    for side in ("input_covariances", "gradient_covariances"):
        new = {}
        for k, v in state[side].items():
            n = len(v)
            Q = torch.linalg.qr(ctx.randn(n, n))[0]
            B = (Q * (1 + ctx.rand(n))) @ Q.T
            f = 10.0 ** (e if side[0] == "g" else ctx.r.randint(-2, 2))
            new[k] = (((B + B.T) / 2) * f).to(v.dtype)
        gs[side] = state[side] = new
    for name in PROPS:
        state[name] = None
    new = kfac.make(p, opts, **over)
    new.load_state_dict(state)
    aa, gg = gs["input_covariances"], gs["gradient_covariances"]
    want, tr, size = 0.0, 0.0, 0.0
    ld = lambda M: torch.linalg.slogdet(M.double())[1].item()
    for mod, pos in type(new).compute_parameter_mapping(p.params, p.model).items():
        G, m = gg[mod], len(gg[mod])
        joint = not opts["separate_weight_and_bias"] and len(pos) == 2
        for q in (["weight"] if joint else pos):
            n = len(aa[mod]) if q == "weight" else 1
            want += n * ld(G) + (m * ld(aa[mod]) if q == "weight" else 0)
            tr += G.double().trace().item() * (aa[mod].double().trace().item() if q == "weight" else 1)
            size += abs(n * ld(G)) + m * n * 5
    ctx.ev("prop.extreme")
    ctx.ev("prop.det_out_of_range", abs(want) > 750)
    rt = 1e-9 if p.dtype == torch.float64 else 1e-3
    ctx.close(float(new.logdet), want, "prop.logdet", f"log-determinant, factors of order 1e{e}",
              rtol=rt, scale=size)
    ctx.close(float(new.trace), tr, "prop.trace", f"trace, factors of order 1e{e}", rtol=rt * 10)


def after_load(ctx, p, opts, over, op):
    """Loading another state replaces every cached property."""
    ctx.ev("prop.after_load")
    other = {**over, "seed": over["seed"] + 1} if over else over
    p2 = p
    q = [x.detach().clone() for x in p.params]
    with torch.no_grad():
        for x in p.params:
            x.mul_(1.5).add_(0.1)
    donor = kfac.make(p2, opts, **other)
    if ctx.coin():
        donor.trace
    donor @ torch.zeros(p.D, dtype=p.dtype)
    state = donor.state_dict()
    Md = dense_of(donor, p.dtype)
    with torch.no_grad():
        for x, y in zip(p.params, q):
            x.copy_(y)
    op.load_state_dict(state)
    got = {n: torch.as_tensor(getattr(op, n)) for n in ctx.r.sample(PROPS, 3)}
    M = dense_of(op, p.dtype)
    ctx.close(M, Md, "prop.loaded", "matrix after loading", rtol=1e-6,
              scale=max(Md.abs().max().item(), 1e-12))
    compare(ctx, p, M, got, op, opts)
