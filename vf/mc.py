"""Decoding and testing Monte-Carlo label draws from observed matrices."""

import itertools
import math

import torch

# total chance, per statistical test, of an alarm on code that samples correctly
LOGINV = math.log(2e13)


def multisets(options, M):
    return list(itertools.combinations_with_replacement(range(options), M))


def option_grads(loss_name, f):
    """[(label, would-be gradient)] for one loss term with discrete labels, f: [C]."""
    if loss_name == "ce":
        q = torch.softmax(f, 0)
        eye = torch.eye(len(f), dtype=f.dtype)
        return [(k, q - eye[k], q[k].item()) for k in range(len(f))]
    q = torch.sigmoid(f)
    out = []
    for bits in itertools.product((0.0, 1.0), repeat=len(f)):
        b = torch.tensor(bits, dtype=f.dtype)
        pr = torch.where(b == 1, q, 1 - q).prod().item()
        out.append((bits, q - b, pr))
    return out


def decode(block, grads, M, tol):
    """The multiset(s) of M labels whose mean outer product is ``block``."""
    outs = [torch.outer(g, g) for _, g, _ in grads]
    best, hits = float("inf"), []
    for ms in multisets(len(grads), M):
        err = (sum(outs[k] for k in ms) / M - block).abs().max().item()
        best = min(best, err)
        if err < tol:
            hits.append(ms)
    return hits, best


def frequency(ctx, hits, n, prob, mech, what):
    """Observed frequency of a Bernoulli event against its probability (Bernstein)."""
    ctx.ev("oracle.frequency")
    t = math.sqrt(2 * n * prob * (1 - prob) * LOGINV) + LOGINV / 3
    ctx.true(abs(hits - n * prob) <= t, mech,
             f"{what}: {hits} of {n}, expected {n * prob:.1f} +- {t:.1f}")


def mean_test(ctx, xs, want, mech, what, z=9.0):
    ctx.ev("oracle.mean")
    x = torch.tensor(xs, dtype=torch.float64)
    se = x.std().item() / len(x) ** 0.5 + 1e-12
    ctx.true(abs(x.mean().item() - want) <= z * se, mech,
             f"{what}: mean {x.mean():.4f} of {len(x)}, expected {want:.4f} +- {z * se:.4f}")
