"""C04 Monte-Carlo Fisher: decode the draws from the observed matrix, test their law."""
import itertools

import numpy as np
import torch
from vf import gen, mc, oracle
from vf.common import check_psd, product_checks
from vf.monitor import Snapshot

LEVEL = "exploration"
CASES = {"quick": 160, "thorough": 3000}
MUST = ["mc.decoded_terms", "mc.gaussian_terms", "mc.law", "mc.general",
        "oracle.frequency", "oracle.mean", "monitor.snapshots", "mc.seeds_differ"]
RULE = (
    "Random model x loss x reduction x seed x draws x batching x parameter order; the "
    "matrix is decoded into label multisets per loss term (full-row-rank Jacobians) or "
    "checked for range/rank; law cases observe 300-1500 seeds of one small problem; "
    "non-trivial when the matrix is non-zero."
)


def fisher(p, seed, M, **over):
    from curvlinops import FisherMCLinearOperator

    return FisherMCLinearOperator(
        p.model_func, p.loss, p.params, p.data, **p.kw(**over), seed=seed, mc_samples=M
    )


def builder(ctx, loss_name):
    """Models whose Jacobian over few data usually has full row rank."""
    C = ctx.r.randint(2, 3) if loss_name == "ce" else ctx.r.randint(1, 2)
    kind = ctx.pick("lin", "mlp", "seq")
    nn = torch.nn
    d = ctx.r.randint(4, 6)
    if kind == "lin":
        return "lin", nn.Sequential(nn.Linear(d, C)), (d,)
    if kind == "mlp":
        return "mlp", nn.Sequential(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, C)), (3,)
    layers = [nn.Linear(d, C)]
    if loss_name == "ce":
        layers.append(gen.Permute(0, 2, 1))
    return "seq", nn.Sequential(*layers), (2, d)


class Decoder:
    """Maps an observed matrix to the mean would-be-gradient outer product per term."""

    def __init__(self, p):
        ref = p.ref()
        Js, self.f = [], []
        self.keys = []
        for n in range(p.N):
            f = ref.fwd(n)
            J = oracle.jac(f, ref.params)
            for t, idx in enumerate(oracle.terms(ref, f, p.loss_name == "ce")):
                Js.append(J[idx])
                self.f.append(f.detach().reshape(-1)[idx])
                self.keys.append((n, t))
        self.J = torch.cat(Js)
        self.C = Js[0].shape[0]
        self.scale = oracle.term_scale(ref)
        s = torch.linalg.svdvals(self.J)
        self.ok = self.J.shape[0] <= self.J.shape[1] and s[-1] > 1e-3 * s[0]
        if self.ok:
            self.pinv = torch.linalg.pinv(self.J)

    def quick(self, op):
        """The per-term blocks from one product with only as many columns as needed."""
        k, C = len(self.keys), self.C
        P = (self.pinv.T @ (op @ self.pinv) / self.scale).reshape(k, C, k, C)
        return [P[i, :, i, :] for i in range(k)]

    def __call__(self, ctx, F):
        P = self.pinv.T @ F @ self.pinv / self.scale
        k, C = len(self.keys), self.C
        P4 = P.reshape(k, C, k, C)
        blocks = [P4[i, :, i, :] for i in range(k)]
        off = P.clone()
        for i in range(k):
            off[i * C : (i + 1) * C, i * C : (i + 1) * C] = 0
        ctx.close(off, 0 * off, "mc.independent_terms",
                  "cross-term part of the represented matrix", atol=1e-6)
        rec = self.scale * self.J.T @ torch.block_diag(*blocks) @ self.J
        ctx.close(rec, F, "mc.range", "matrix lies in the span of the Jacobians",
                  rtol=1e-6)
        return blocks


def case(ctx):
    mode = ctx.pick("general", "decode", "decode", "decode", "law")
    if mode == "general":
        return general(ctx)
    if mode == "law":
        return law(ctx)
    for _ in range(20):
        p = gen.problem(ctx, builder=builder, dtype=torch.float64, n_max=3)
        dec = Decoder(p)
        if dec.ok:
            break
    else:
        return
    M = ctx.r.randint(1, 4)
    seed = ctx.r.randint(0, 2**31)
    ctx.describe(problem=p.label(), M=M, seed=seed, mode=mode)
    # iterating a DataLoader draws from the global generator by itself
    snap = Snapshot(p.model, p.params, [p.X, p.y],
                    rng=not isinstance(p.data, torch.utils.data.DataLoader))
    det = p.check_det
    p.check_det = False
    op = fisher(p, seed, M)
    F = gen.dense(op, p.dtype)
    snap.check(ctx, "mc.state")
    for key, f, B in zip(dec.keys, dec.f, dec(ctx, F)):
        term(ctx, p, f, B, M, key)
    if p.loss_name == "mse":
        blocks = dec(ctx, F)
        for (a, A), (b, B) in itertools.combinations(zip(dec.keys, blocks), 2):
            ctx.true((A - B).abs().max() > 1e-9 * A.abs().max(), "mc.repeated",
                     f"loss terms {a} and {b} use the same draws")
    repeat(ctx, p, op, F, seed, M, det)
    ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), M, mode)


def term(ctx, p, f, B, M, key):
    if p.loss_name == "mse":
        ctx.ev("mc.gaussian_terms")
        s = torch.linalg.eigvalsh(B)
        ctx.true(s[0] > -1e-7 * s[-1], "mc.psd", f"term {key}: eigenvalues {s}")
        r = int((s > 1e-9 * s[-1]).sum())
        ctx.equal(r, min(M, len(f)), "mc.rank", f"rank of term {key} with {M} draws")
        return None
    hits, best = mc.decode(B, mc.option_grads(p.loss_name, f), M, 1e-6)
    ctx.ev("mc.decoded_terms")
    ctx.true(hits, "mc.not_labels",
             f"term {key}: no {M} labels explain the matrix (closest {best:.2e})")
    return hits


def repeat(ctx, p, op, F, seed, M, det):
    """One fixed matrix, whatever the column, product, global seed or operator copy."""
    product_checks(ctx, op, F, p, "mc", rtol=1e-9, n_rand=3)
    torch.manual_seed(ctx.r.randint(0, 10**6))
    np.random.seed(ctx.r.randint(0, 10**6))
    ctx.close(gen.dense(op, p.dtype), F, "mc.repeat", "matrix on a repeated product",
              rtol=1e-9)
    p.check_det = det
    op2 = fisher(p, seed, M)
    ctx.close(gen.dense(op2, p.dtype), F, "mc.seed", "matrix of an equal operator",
              rtol=1e-9)
    if p.loss_name == "mse" and F.abs().max() > 0:
        ctx.ev("mc.seeds_differ")
        F3 = gen.dense(fisher(p, seed + 1, M, check_deterministic=False), p.dtype)
        ctx.true((F3 - F).abs().max() > 1e-7 * F.abs().max(), "mc.seed_ignored",
                 "another seed gives the same matrix")
    check_psd(ctx, F, "mc")


def general(ctx):
    """Any model: symmetric PSD, in the span of the Jacobians, rank <= terms * M."""
    p = gen.problem(ctx, archs=gen.ARCHS + ["seq", "img"], dtype=torch.float64)
    M, seed = ctx.r.randint(1, 3), ctx.r.randint(0, 2**40)
    ctx.describe(problem=p.label(), M=M, seed=seed, mode="general")
    ctx.ev("mc.general")
    det, p.check_det = p.check_det, False
    op = fisher(p, seed, M)
    F = gen.dense(op, p.dtype)
    repeat(ctx, p, op, F, seed, M, det)
    ref = p.ref()
    J = oracle.jacobian(ref)
    n_terms = sum(
        len(oracle.terms(ref, ref.fwd(n), p.loss_name == "ce")) for n in range(p.N)
    )
    U, s, V = torch.linalg.svd(J, full_matrices=False)
    V = V[s > 1e-9 * max(s[0].item(), 1e-300)]
    ctx.close(V.T @ (V @ F), F, "mc.range", "range of the Jacobians", rtol=1e-6,
              atol=1e-12)
    e = torch.linalg.eigvalsh((F + F.T) / 2).flip(0)
    if n_terms * M < len(e):
        ctx.ev("oracle.rank")
        ctx.true(e[n_terms * M] <= 1e-8 * max(e[0].item(), 1e-300), "mc.rank",
                 f"rank exceeds {n_terms} x {M} draws")
    # no draw can exceed the largest possible would-be gradient
    if p.loss_name != "mse":
        cap = oracle.term_scale(ref) * 2 * (s**2).sum().item() * J.shape[0]
        ctx.true(e[0] <= cap * (1 + 1e-6) + 1e-12, "mc.scale", f"{e[0]} > {cap}")
    if F.abs().max() > 0:
        ctx.sig(p.arch, p.loss_name, p.red, p.sizes, len(p.params), M, "general")


def law(ctx):
    """Observe many seeds of one problem: marginals, joints, moments of the draws."""
    loss = ctx.pick("ce", "ce", "bce", "mse")
    C = {"ce": ctx.r.randint(2, 3), "bce": 1, "mse": ctx.r.randint(1, 2)}[loss]
    N, M = ctx.pick((2, 1), (2, 1), (1, 2), (3, 1), (2, 2))
    nn = torch.nn

    def bld(c, _):
        return "law", nn.Sequential(nn.Linear(4, C)), (4,)

    for _ in range(20):
        p = gen.problem(ctx, losses=(loss,), builder=bld, dtype=torch.float64, n_max=N,
                        subset=False, check_det=False)
        if p.N == N:
            dec = Decoder(p)
            if dec.ok:
                break
    else:
        return
    p.progressbar = False
    S = 300 if ctx.tier == "quick" else 1500
    ctx.describe(problem=p.label(), M=M, seeds=S, mode="law")
    ctx.ev("mc.law")
    base = ctx.r.randint(0, 2**31)
    step = ctx.pick(1, 1, 7919)
    draws, gauss = [], []
    grads = None if loss == "mse" else [mc.option_grads(loss, f) for f in dec.f]
    for i in range(S):
        blocks = dec.quick(fisher(p, base + step * i, M, num_data=N))
        if loss == "mse":
            gauss.append(torch.stack(blocks) / 4)
            continue
        row = []
        for B, gr in zip(blocks, grads):
            hits, best = mc.decode(B, gr, M, 1e-6)
            if not hits:
                ctx.fail("mc.not_labels", f"no labels explain the draw ({best})", stop=True)
            row.append(hits[0] if len(hits) == 1 else None)
        draws.append(row)
        ctx.ev("mc.seeds")
    if loss == "mse":
        g = torch.stack(gauss)  # [S, N, C, C] mean of eps eps^T, E = I / 2
        for n in range(N):
            for i in range(C):
                mc.mean_test(ctx, g[:, n, i, i].tolist(), 0.5, "mc.variance",
                             f"variance of the draw for datum {n}")
                for j in range(i):
                    mc.mean_test(ctx, g[:, n, i, j].tolist(), 0.0, "mc.correlated",
                                 "entries of one draw")
        x = (g.diagonal(dim1=2, dim2=3) - 0.5).reshape(S, -1)
        for i, j in itertools.combinations(range(x.shape[1]), 2):
            mc.mean_test(ctx, (x[:, i] * x[:, j]).tolist(), 0.0, "mc.dependent",
                         "energies of two draws")
        # fourth moment of a mean of M Gaussians' squares: 1/4 + 1/(2M)
        for n in range(N):
            mc.mean_test(ctx, (g[:, n, 0, 0] ** 2).tolist(), 0.25 + 0.5 / M,
                         "mc.draws_dependent", f"second moment over {M} draws")
    else:
        K = len(grads[0])
        pr = [[q for _, _, q in gr] for gr in grads]
        ident = [all(r[n] is not None for r in draws) for n in range(N)]
        for n in range(N):
            if not ident[n]:
                continue
            for k in range(K):
                c = sum(r[n].count(k) for r in draws)
                mc.frequency(ctx, c, S * M, pr[n][k], "mc.frequency",
                             f"label {k} of datum {n}")
            if M == 2:
                same = sum(r[n][0] == r[n][1] for r in draws)
                mc.frequency(ctx, same, S, sum(q * q for q in pr[n]),
                             "mc.draws_dependent", "two draws of one datum agree")
        for a, b in itertools.combinations(range(N), 2):
            if ident[a] and ident[b] and M == 1:
                for k, l in itertools.product(range(K), repeat=2):  # noqa: E741
                    c = sum(r[a][0] == k and r[b][0] == l for r in draws)
                    mc.frequency(ctx, c, S, pr[a][k] * pr[b][l], "mc.dependent",
                                 f"labels ({k}, {l}) of data ({a}, {b})")
    ctx.sig("law", loss, C, N, M, p.red, p.sizes)
