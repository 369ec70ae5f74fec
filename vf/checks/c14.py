"""C14 MC-KFAC: factors are extracted from products and their labels decoded and tested."""
import itertools

import numpy as np
import torch
from torch import nn
from vf import gen, kfac, mc, oracle

LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 15000}
MUST = ["mckfac.structure", "mckfac.decoded", "mckfac.full", "mckfac.seed", "mckfac.expand",
        "mckfac.reduce", "mckfac.rank", "oracle.frequency", "oracle.mean", "mckfac.multi",
        "mckfac.gauss", "mckfac.batches", "mckfac.tokens", "mckfac.global_rng"]
RULE = (
    "Random KFAC operators with Monte-Carlo Fisher type; input factors must equal the "
    "seed-free reference and blocks be Kronecker products of them with a PSD factor; labels "
    "are decoded from the last layer's factor (one per datum, loss term and draw) and must "
    "explain all layers' factors; for CE/BCE label frequencies and pair frequencies over "
    "seeds, for square loss moments and ranks; expectation over seeds against the exact "
    "factor; seeds vs global random state; non-trivial when labels were drawn."
)


def build(ctx, p, opts, seed, M, **over):
    from curvlinops import KFACLinearOperator

    kw = {**p.kw(check_deterministic=False), **opts, **over}
    return KFACLinearOperator(p.model, p.loss, p.params, p.data, seed=seed, mc_samples=M,
                              **kw)


def split(ctx, ref, opts, K, dtype, check=True):
    """{layer: B} from the represented matrix ``K``, checking its structure."""
    fo = kfac.factors(ref, "forward-only", opts["kfac_approx"],
                      opts["separate_weight_and_bias"])
    rt = 1e-9 if dtype == torch.float64 else 2e-3
    s = K.abs().max().item()
    at = 1e-6 if dtype != torch.float64 else 1e-14
    K = K.double()
    rest, out = K.clone(), {}
    for _, idx, (A, B1, name, kind) in kfac.blocks(ref, fo, opts["separate_weight_and_bias"]):
        ii = (idx.unsqueeze(1), idx.unsqueeze(0))
        blk = K[ii]
        rest[ii] = 0
        o = B1.shape[0]
        if kind == "bias":
            B = blk
        else:
            a = A.shape[0]
            trA = A.trace().item()
            if trA < 1e-6:
                continue
            B = torch.einsum("iaja->ij", blk.reshape(o, a, o, a)) / trA
            if check:
                ctx.close(blk, torch.kron(B, A), "mckfac.kron",
                          f"{kind} block of {name or 'model'} with the reference input factor",
                          rtol=rt, scale=s, atol=at)
        if name in out and check:
            ctx.close(B, out[name], "mckfac.shared", f"{kind} and weight factor of {name}",
                      rtol=rt, scale=s, atol=at)
        out[name] = B if kind == "bias" or name not in out else out[name]
        if check:
            ctx.close(B, B.T, "mckfac.symmetric", f"factor of {name}", rtol=rt, scale=s,
                      atol=at)
            lo = torch.linalg.eigvalsh((B + B.T) / 2).min().item()
            ctx.true(lo >= -rt * s - at * 10, "mckfac.psd", f"factor of {name}: {lo}")
    if check:
        ctx.ev("mckfac.structure")
        ctx.true(rest.abs().max().item() == 0, "mckfac.offblock", "entries outside blocks")
    return out


def units(ref):
    """[(n, indices of the term's entries, logits)] for every loss term."""
    out = []
    for n in range(ref.N):
        f = ref.fwd(n).detach()
        for t in oracle.terms(ref, f, ref.loss_name == "ce"):
            out.append((n, t, f.reshape(-1)[t], f.shape))
    return out


def scale_of(ref, T, C):
    if ref.red == "sum":
        return 1.0
    return 1.0 / (ref.N * T) if ref.loss_name == "ce" else 1.0 / (ref.N * T * C)


def small_net(ctx, ln, tokens=False, single=False):
    C = ctx.r.randint(2, 3) if ln == "ce" else ctx.r.randint(1, 2) if ln == "bce" \
        else ctx.r.randint(1, 4)
    d, h = ctx.r.randint(1, 3), ctx.r.randint(1, 3)
    layers = []
    if not single:
        layers += [nn.Linear(d, h, bias=ctx.coin()), nn.Tanh()]
    layers.append(nn.Linear(d if single else h, C, bias=ctx.coin(0.8)))
    shape = (d,)
    if tokens:
        shape = (ctx.r.randint(2, 3), d)
        if ln == "ce":
            layers.append(gen.Permute(0, 2, 1))
    return ("tok" if tokens else "net"), nn.Sequential(*layers), shape


def net_problem(ctx, losses, tokens=False, single=False, n_max=3, dtype=torch.float64):
    p = gen.problem(ctx, losses=losses, dtype=dtype, n_max=n_max, check_det=False,
                    builder=lambda c, ln: small_net(c, ln, tokens, single),
                    allow_func=False, subset=False, freeze=False, max_dim=40)
    p.last = [n for n, m in p.model.named_modules() if isinstance(m, nn.Linear)][-1]
    return p


def decode(ctx, p, ref, B, M, approx):
    """Labels of every (datum, term): list of multisets per unit, or None if undecidable."""
    us = units(ref)
    T, C = len(us) // ref.N, len(us[0][2])
    tgt = B * M / scale_of(ref, T, C)
    opts = [mc.option_grads(p.loss_name, f) for _, _, f, _ in us]
    per = [mc.multisets(len(o), M) for o in opts]
    total = np.prod([len(x) for x in per])
    if total > 3000:
        return None
    hits = []
    if approx == "reduce" and T > 1:
        if M > 1:
            return None
        for combo in itertools.product(*per):
            S = torch.zeros_like(tgt)
            for n in range(ref.N):
                g = sum(opts[n * T + t][combo[n * T + t][0]][1] for t in range(T))
                S = S + torch.outer(g, g)
            if (S - tgt).abs().max() < 1e-7:
                hits.append(combo)
    else:
        outs = [[sum(torch.outer(o[k][1], o[k][1]) for k in ms) for ms in mss]
                for o, mss in zip(opts, per)]
        for combo in itertools.product(*[range(len(x)) for x in per]):
            S = sum(outs[u][i] for u, i in enumerate(combo))
            if (S - tgt).abs().max() < 1e-7:
                hits.append(tuple(per[u][i] for u, i in enumerate(combo)))
    ctx.ev("mckfac.decoded")
    ctx.true(len(hits) > 0, "mckfac.labels",
             f"no labels explain the last layer's factor ({p.label()}, M={M}, {approx})")
    return hits, us, opts


def case(ctx):
    mode = ctx.pick("structure", "structure", "structure", "full", "full", "full", "gauss",
                    "gauss", "frequency", "expectation", "seed")
    {"structure": structure, "full": full, "gauss": gauss, "frequency": frequency,
     "expectation": expectation, "seed": seeds}[mode](ctx)


def options(ctx):
    o = kfac.kfac_options(ctx, ("mc",))
    ctx.ev(f"mckfac.{o['kfac_approx']}")
    return o


def structure(ctx):
    """Any supported model: Kronecker structure, reference input factors, rank."""
    p = kfac.kfac_problem(ctx, check_det=False, n_max=4, max_dim=50)
    opts, M, seed = options(ctx), ctx.r.randint(1, 3), ctx.r.randint(0, 2**31)
    ref = p.ref()
    ctx.describe(problem=p.label(), mode="structure", mc=M, **opts)
    K = gen.dense(build(ctx, p, opts, seed, M), p.dtype)
    Bs = split(ctx, ref, opts, K, p.dtype)
    ctx.ev("mckfac.batches", len(p.sizes) > 1)
    # a factor is a sum of one outer product per datum, draw and (expand) position
    if p.arch in ("mlp", "linear", "single") and p.dtype == torch.float64:
        for name, B in Bs.items():
            r = torch.linalg.matrix_rank(B, atol=1e-10 * max(B.abs().max().item(), 1e-30))
            ctx.ev("mckfac.rank")
            ctx.true(int(r) <= p.N * M, "mckfac.rank",
                     f"rank {int(r)} of {name} with {p.N} data and {M} draws")
    if K.abs().max() > 0:
        ctx.sig("structure", p.label(), M, *opts.values())


def full(ctx):
    """Decoded labels explain the factors of all layers."""
    tokens = ctx.coin(0.35)
    p = net_problem(ctx, ("ce", "ce", "bce"), tokens=tokens, n_max=2 if tokens else 3)
    opts, seed = options(ctx), ctx.r.randint(0, 2**31)
    M = 1 if tokens else ctx.r.randint(1, 2)
    ref = p.ref()
    K = gen.dense(build(ctx, p, opts, seed, M), p.dtype)
    ctx.describe(problem=p.label(), mode="full", mc=M, **opts)
    Bs = split(ctx, ref, opts, K, p.dtype)
    if p.last not in Bs:
        return
    ctx.ev("mckfac.tokens", tokens)
    ctx.ev("mckfac.multi", M > 1)
    ctx.ev("mckfac.batches", len(p.sizes) > 1)
    got = decode(ctx, p, ref, Bs[p.last], M, opts["kfac_approx"])
    if got is None or not got[0]:
        return
    hits, us, og = got
    if len(hits) > 12:
        return
    best = float("inf")
    T = len(us) // ref.N
    for combo in hits:
        def backs(n, f, terms):
            vecs = []
            for m in range(M):
                v = torch.zeros(f.numel(), dtype=f.dtype)
                for t, idx in enumerate(terms):
                    u = n * T + t
                    v[idx] = og[u][combo[u][m]][1]
                vecs.append(v.reshape(f.shape) / M**0.5)
            return vecs
        D = kfac.dense(ref, opts, backs)
        best = min(best, ((K - D).abs().max() / K.abs().max().clamp_min(1e-30)).item())
    ctx.ev("mckfac.full")
    ctx.true(best < 1e-7, "mckfac.layers",
             f"labels decoded from the last layer do not explain all layers ({best:.1e})")
    ctx.sig("full", p.label(), M, *opts.values())


def gauss(ctx):
    """Square loss: one Gaussian direction per datum, term and draw; exact propagation."""
    p = net_problem(ctx, ("mse",), n_max=3, single=ctx.coin())
    opts, seed, M = options(ctx), ctx.r.randint(0, 2**31), ctx.r.randint(1, 3)
    ref = p.ref()
    C = p.y.shape[-1]
    ctx.ev("mckfac.gauss")
    ctx.ev("mckfac.batches", len(p.sizes) > 1)
    ctx.describe(problem=p.label(), mode="gauss", mc=M, **opts)
    K = gen.dense(build(ctx, p, opts, seed, M), p.dtype)
    Bs = split(ctx, ref, opts, K, p.dtype)
    if p.last not in Bs:
        return
    B = Bs[p.last]
    r = torch.linalg.matrix_rank(B, atol=1e-10 * B.abs().max().item())
    ctx.ev("mckfac.rank")
    ctx.equal(int(r), min(C, p.N * M), "mckfac.rank",
              f"rank for {p.N} data ({p.sizes}), {M} draws, {C} outputs")
    lin = len(p.model if isinstance(p.model, nn.Sequential) else p.model.inner) == 1
    if p.N == 1 and not lin:
        G = B / scale_of(ref, 1, C)
        lam, Q = torch.linalg.eigh(G)
        root = Q * lam.clamp_min(0).sqrt()
        D = kfac.dense(ref, opts, lambda n, f, t: [c.reshape(f.shape) for c in root.T])
        ctx.ev("mckfac.full")
        ctx.close(K, D, "mckfac.layers", "first layer from the last layer's draws", rtol=1e-7)
    ctx.sig("gauss", p.label(), M, *opts.values())


def frequency(ctx):
    """Label frequencies, pair frequencies over data/terms and moments over seeds."""
    gaussian = ctx.coin(0.35)
    tokens = not gaussian and ctx.coin(0.4)
    p = net_problem(ctx, ("mse",) if gaussian else ("ce", "ce", "bce"), single=True,
                    tokens=tokens, n_max=1 if tokens else 3)
    opts = options(ctx)
    M = 1 if tokens else ctx.pick(1, 1, 2)
    ref = p.ref()
    S = 250 if ctx.tier == "quick" else 1000
    base = ctx.r.randint(0, 2**30)
    step = ctx.pick(1, 1, 7919)
    ctx.describe(problem=p.label(), mode="frequency", mc=M, seeds=S, **opts)
    Bs = []
    for i in range(S):
        K = gen.dense(build(ctx, p, opts, base + i * step, M), p.dtype)
        Bs.append(split(ctx, ref, opts, K, p.dtype, check=i < 3).get(p.last))
    if Bs[0] is None:
        return
    us = units(ref)
    T, C = len(us) // ref.N, len(us[0][2])
    sc = scale_of(ref, T, C)
    ctx.ev("mckfac.batches", len(p.sizes) > 1)
    if gaussian:
        ctx.ev("mckfac.gauss")
        G = torch.stack(Bs) * M / sc / 2  # sum of N * M standard normal outer products
        k = ref.N * M
        for i in range(C):
            mc.mean_test(ctx, G[:, i, i].tolist(), k, "mckfac.law", f"mean square, output {i}")
            mc.mean_test(ctx, ((G[:, i, i] - k) ** 2).tolist(), 2 * k, "mckfac.law",
                         f"variance of squares, output {i} ({p.sizes}, M={M})", z=12)
            for j in range(i):
                mc.mean_test(ctx, G[:, i, j].tolist(), 0.0, "mckfac.law", f"pair {i}, {j}")
                mc.mean_test(ctx, (G[:, i, j] ** 2).tolist(), k, "mckfac.law",
                             f"squared pair {i}, {j}", z=12)
        for lag in (1, 2):
            a, b = G[lag:, 0, 0] - k, G[:-lag, 0, 0] - k
            mc.mean_test(ctx, (a * b).tolist(), 0.0, "mckfac.seeds_independent",
                         f"seeds {lag * step} apart", z=12)
        ctx.sig("frequency", p.label(), M, *opts.values(), ctx.idx)
        return
    # a tally over seeds of what was drawn, when decodable
    seqs = []
    for B in Bs:
        got = decode(ctx, p, ref, B, M, opts["kfac_approx"])
        if got is None or len(got[0]) != 1:
            return  # symmetric logits: labels are not identifiable
        seqs.append(got[0][0])
    og = got[2]
    probs = [[pr for _, _, pr in o] for o in og]
    import math

    def ms_prob(u, ms):
        c = math.factorial(M)
        for k in set(ms):
            c /= math.factorial(ms.count(k))
        return c * math.prod(probs[u][k] for k in ms)

    for u in range(len(us)):
        for ms in mc.multisets(len(og[u]), M):
            mc.frequency(ctx, sum(s[u] == ms for s in seqs), S, ms_prob(u, ms),
                         "mckfac.law", f"labels {ms} of unit {u} (M={M})")
    for u, v in itertools.combinations(range(len(us)), 2):
        for a in mc.multisets(len(og[u]), M):
            for b in mc.multisets(len(og[v]), M):
                mc.frequency(ctx, sum(s[u] == a and s[v] == b for s in seqs), S,
                             ms_prob(u, a) * ms_prob(v, b), "mckfac.independent",
                             f"labels {a}, {b} of units {u}, {v} ({p.sizes})")
    ctx.sig("frequency", p.label(), M, *opts.values(), ctx.idx)


def expectation(ctx):
    """Mean over seeds of any model's factors is the exact Fisher factor."""
    p = kfac.kfac_problem(ctx, dtype=torch.float64, check_det=False, n_max=3, max_dim=30,
                          archs=("mlp", "cnn", "img", "seq", "seqmix", "seqpool", "single"))
    opts, M = options(ctx), ctx.r.randint(1, 3)
    ref = p.ref()
    S = 150 if ctx.tier == "quick" else 600
    base = ctx.r.randint(0, 2**30)
    ctx.describe(problem=p.label(), mode="expectation", mc=M, seeds=S, **opts)
    tot = [gen.dense(build(ctx, p, opts, base + i, M), p.dtype) for i in range(S)]

    def backs(n, f, terms):
        vecs = []
        for t in terms:
            R = kfac.hess_sqrt(p.loss_name, f.reshape(-1)[t])
            for c in range(R.shape[1]):
                v = torch.zeros(f.numel(), dtype=f.dtype)
                v[t] = R[:, c]
                vecs.append(v.reshape(f.shape))
        return vecs

    want = kfac.dense(ref, opts, backs)
    X = torch.stack(tot)
    for _ in range(6):
        a, b = ctx.randn(p.D), ctx.randn(p.D)
        b = a if ctx.coin() else b
        q = torch.einsum("sij,i,j->s", X, a, b)
        if q.std() > 1e-12:
            mc.mean_test(ctx, q.tolist(), float(a @ want @ b), "mckfac.unbiased",
                         f"a^T K b over seeds ({p.label()}, {opts}, M={M})", z=12)
    if want.abs().max() > 0:
        ctx.sig("expectation", p.label(), M, *opts.values())


def seeds(ctx):
    """A function of the seed only."""
    p = kfac.kfac_problem(ctx, check_det=False, n_max=4, max_dim=40)
    # iterating a PyTorch DataLoader advances the global state by itself
    p.data = [tuple(b) for b in p.data]
    opts, M, seed = options(ctx), ctx.r.randint(1, 3), ctx.r.randint(0, 2**31)
    ctx.describe(problem=p.label(), mode="seed", mc=M, seed=seed, **opts)
    torch.manual_seed(ctx.r.randint(0, 9))
    K = gen.dense(build(ctx, p, opts, seed, M), p.dtype)
    torch.manual_seed(ctx.r.randint(10, 99))
    np.random.seed(ctx.r.randint(0, 99))
    st = torch.get_rng_state().clone()
    op = build(ctx, p, opts, seed, M)
    how = ctx.pick("product", "trace", "logdet")
    if how != "product":
        getattr(op, how)
    K2 = gen.dense(op, p.dtype)
    ctx.ev("mckfac.global_rng")
    ctx.true(torch.equal(st, torch.get_rng_state()), "mckfac.rng", "global state advanced")
    tol = 1e-12 if p.dtype == torch.float64 else 1e-5
    ctx.close(K2, K, "mckfac.seed", "operators of one seed, other global state", rtol=tol,
              scale=K.abs().max().item())
    # several operators of one seed in one process, interleaved with others
    build(ctx, p, opts, seed + 1, M) @ ctx.randn(p.D, dtype=p.dtype)
    K3 = gen.dense(build(ctx, p, opts, seed, M), p.dtype)
    ctx.close(K3, K, "mckfac.seed", "operator of one seed after another's use", rtol=tol,
              scale=K.abs().max().item())
    ctx.ev("mckfac.seed")
    if p.loss_name == "mse" and K.abs().max() > 0 and p.dtype == torch.float64:
        K4 = gen.dense(build(ctx, p, opts, (seed + ctx.pick(1, 1000)) % 2**31, M), p.dtype)
        ctx.true((K4 - K).abs().max().item() > 1e-9 * K.abs().max().item(), "mckfac.seed",
                 "another seed gives the same matrix")
        K5 = gen.dense(build(ctx, p, opts, seed, M + 1), p.dtype)
        ctx.true((K5 - K).abs().max().item() > 1e-9 * K.abs().max().item(), "mckfac.draws",
                 "another number of draws gives the same matrix")
    # the default seed is a seed like any other
    if ctx.coin(0.3):
        a, b = (gen.dense(build_default(p, opts, M), p.dtype) for _ in range(2))
        ctx.close(a, b, "mckfac.seed", "operators with the default seed", rtol=tol)
    ctx.sig("seed", p.label(), M, *opts.values())


def build_default(p, opts, M):
    from curvlinops import KFACLinearOperator

    return KFACLinearOperator(p.model, p.loss, p.params, p.data, mc_samples=M,
                              **p.kw(check_deterministic=False), **opts)
