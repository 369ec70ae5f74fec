"""Distribution monitors for recorded random probe vectors."""

import itertools

import numpy as np

from vf import mc


def entries(ctx, v, dist, mech):
    """Pointwise support of one probe."""
    ctx.ev("oracle.probes")
    v = np.asarray(v)
    ctx.true(np.isrealobj(v) and np.isfinite(v).all(), f"{mech}.entries", f"probe {v[:5]}")
    if dist == "rademacher":
        ctx.true(bool((np.abs(v) == 1).all()), f"{mech}.entries",
                 f"Rademacher probe has entries {np.unique(v)[:6]}")


def law(ctx, V, dist, mech):
    """Entries of the rows of V [T, d]: independent, zero mean, unit variance, right law."""
    V = np.asarray(V, dtype=float)
    T, d = V.shape
    ctx.ev("oracle.law")
    cols = range(d) if d <= 6 else sorted(ctx.r.sample(range(d), 6))
    if T < 200:  # only pooled statistics
        cols = []
    if dist == "rademacher":
        for j in cols:
            mc.frequency(ctx, int((V[:, j] > 0).sum()), T, 0.5, f"{mech}.law",
                         f"+1 in entry {j}")
        mc.frequency(ctx, int((V > 0).sum()), V.size, 0.5, f"{mech}.law", "+1 overall")
        pairs = list(itertools.combinations(cols, 2))
        for i, j in pairs[:8]:
            mc.frequency(ctx, int((V[:, i] == V[:, j]).sum()), T, 0.5,
                         f"{mech}.independent", f"equal entries {i}, {j}")
        for i, j, k in list(itertools.combinations(cols, 3))[:8]:
            mc.frequency(ctx, int((V[:, i] * V[:, j] * V[:, k] > 0).sum()), T, 0.5,
                         f"{mech}.independent", f"product of entries {i}, {j}, {k}")
        if d > 1:
            mc.frequency(ctx, int((V[:, 1:] == V[:, :-1]).sum()), T * (d - 1), 0.5,
                         f"{mech}.independent", "equal neighbours")
        for lag in (1, 2, 3):
            if T > lag:
                same = V[lag:] == V[:-lag]
                mc.frequency(ctx, int(same.sum()), same.size, 0.5, f"{mech}.fresh",
                             f"entries equal to the probe {lag} calls ago")
    else:
        for j in cols:
            mc.mean_test(ctx, V[:, j], 0.0, f"{mech}.law", f"entry {j}")
            mc.mean_test(ctx, V[:, j] ** 2, 1.0, f"{mech}.law", f"squared entry {j}")
        mc.mean_test(ctx, V.ravel(), 0.0, f"{mech}.law", "entries")
        mc.mean_test(ctx, V.ravel() ** 2, 1.0, f"{mech}.law", "squared entries")
        mc.mean_test(ctx, V.ravel() ** 4, 3.0, f"{mech}.law", "fourth powers")
        from math import erf

        for q in (0.1, 0.5, 1.0, 2.0):
            mc.frequency(ctx, int((np.abs(V) < q).sum()), V.size, erf(q / 2**0.5),
                         f"{mech}.law", f"|entry| < {q}")
        mc.frequency(ctx, int((V > 0).sum()), V.size, 0.5, f"{mech}.law", "positive entries")
        for i, j in list(itertools.combinations(cols, 2))[:8]:
            mc.mean_test(ctx, V[:, i] * V[:, j], 0.0, f"{mech}.independent",
                         f"entries {i} * {j}")
            mc.mean_test(ctx, (V[:, i] ** 2 - 1) * (V[:, j] ** 2 - 1), 0.0,
                         f"{mech}.independent", f"squares {i} * {j}")
        for lag in (1, 2, 3):
            if T > lag:
                mc.mean_test(ctx, (V[lag:] * V[:-lag]).ravel(), 0.0, f"{mech}.fresh",
                             f"product with the probe {lag} calls ago")


def distinct(ctx, V, mech):
    """No probe is a repetition (or the negative) of an earlier one."""
    ctx.ev("oracle.fresh")
    seen = {}
    for t, v in enumerate(V):
        v = np.asarray(v)
        a, b = v.tobytes(), (-v + 0.0).tobytes()
        if a in seen or b in seen:
            ctx.fail(f"{mech}.fresh", f"probe {t} repeats probe {seen.get(a, seen.get(b))}")
            return
        seen[a] = t
