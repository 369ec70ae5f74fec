"""C28 Comparison and splitting helpers against entry-by-entry definitions."""
import contextlib
import io
import re

import numpy as np
import torch

LEVEL = "exploration"
CASES = {"quick": 6000, "thorough": 90000}
MUST = ["tensor.close", "tensor.differs", "tensor.shape", "tensor.nan", "tensor.inf",
        "array.close", "array.differs", "array.shape", "array.nan_equal", "split.ok",
        "split.rejected", "helper.edge", "helper.one_entry", "helper.unmodified",
        "helper.empty", "helper.count"]
RULE = (
    "Random tensors/arrays (0 to 4 axes, empty, integer, single, double; NaN, infinities, "
    "zeros, broadcastable shapes, any layout) x perturbations of all, one or no entries just "
    "below and above the tolerance: verdict and reported counts against an entry-by-entry "
    "loop over the definition; random lists x random partitions; non-trivial always."
)


def close(a, b, rtol, atol, nan):
    """|a - b| <= atol + rtol |b| for one entry."""
    if a != a or b != b:
        return nan and a != a and b != b
    if a == b:
        return True
    if np.isinf(a) or np.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * abs(b)


def pair(ctx, lib):
    """Two arrays of the same shape, tolerances."""
    shape = tuple(ctx.r.randint(0 if ctx.coin(0.1) else 1, 4)
                  for _ in range(ctx.r.randint(0, 4)))
    dt = ctx.pick("f8", "f8", "f4", "i8")
    rtol, atol = ctx.pick((1e-5, 1e-8), (1e-3, 0.0), (0.0, 1e-2), (0.1, 0.5), (0.0, 0.0),
                          (1e-7, 1e-12))
    n = int(np.prod(shape))
    b = ctx.np.randn(n) * 10.0 ** ctx.np.randint(-6, 4, n)
    if ctx.coin(0.3):
        b[ctx.np.rand(n) < 0.4] = 0.0
    if dt == "i8":
        b = np.rint(b * 10)
    b = b.astype(dt)
    a = b.astype(float)
    tol = atol + rtol * np.abs(a)
    how = ctx.pick("same", "inside", "outside", "one", "one", "edge", "sign", "mixed")
    s = np.where(ctx.np.rand(n) < 0.5, -1.0, 1.0)
    if how in ("inside", "mixed"):
        a = a + s * 0.5 * tol
    if how == "outside":
        a = a + s * (2 * tol + 1e-3)
    if how in ("one", "mixed") and n:
        ctx.ev("helper.one_entry")
        i = ctx.pick(0, n - 1, ctx.r.randrange(n))
        a[i] += s[i] * max(3 * tol[i], 1e-4 * abs(a[i]), 1e-6)
    if how == "edge":  # tolerances are relative to the second argument
        ctx.ev("helper.edge")
        a = a + s * tol * ctx.pick(0.9, 1.1)
    if how == "sign":
        a = -a
    if dt == "i8":
        a = np.rint(a)
    a = a.astype(dt)
    if dt != "i8" and n:
        for x, y in ((a, b), (b, a)):
            if ctx.coin(0.1):
                i = ctx.r.randrange(n)
                x[i] = ctx.pick(np.nan, np.inf, -np.inf)
                if ctx.coin():
                    y[i] = x[i]
    if not n:
        ctx.ev("helper.empty")
    a, b = a.reshape(shape), b.reshape(shape)
    if ctx.coin(0.2) and a.ndim > 1:
        a = np.asfortranarray(a)
    return a, b, rtol, atol


def verdict(a, b, rtol, atol, nan):
    """(number of entries that are not close, whether rounding decides)"""
    bad, edge = 0, False
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        bad += not close(x, y, rtol, atol, nan)
        t, d = atol + rtol * abs(y), abs(x - y)
        eps = 1e-5 if a.dtype == np.float32 else 1e-12
        if t != 0 and np.isfinite(d) and abs(d - t) <= eps * (abs(x) + abs(y) + t):
            edge = True
    return bad, edge


def case(ctx):
    from curvlinops.examples.utils import report_nonclose
    from curvlinops.utils import allclose_report, split_list

    which = ctx.pick("tensor", "tensor", "array", "array", "split")
    if which == "split":
        return split(ctx, split_list)
    a, b, rtol, atol = pair(ctx, which)
    nan = which == "array" and ctx.coin()
    ctx.describe(which=which, shape=a.shape, dtype=a.dtype, rtol=rtol, atol=atol, nan=nan)
    what = f"{which} {a.shape} {a.dtype} rtol={rtol} atol={atol} equal_nan={nan}"
    other = ctx.coin(0.15)
    if other:  # shapes that could be broadcast or have as many entries
        c = ctx.pick(lambda: b[None], lambda: b.reshape(-1, 1), lambda: b.reshape(1, -1),
                     lambda: b.reshape(-1)[:1], lambda: b[..., None])()
        if c.shape == a.shape:
            return
        b = c
    ka, kb = a.copy(), b.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        if which == "tensor":
            ta, tb = torch.from_numpy(a), torch.from_numpy(b)
            kw = {} if (rtol, atol) == (1e-5, 1e-8) and ctx.coin() else dict(rtol=rtol,
                                                                              atol=atol)
            got = allclose_report(ta, tb, **kw)
            ctx.true(isinstance(got, bool), "helper.type", f"{what}: {type(got)}")
        else:
            kw = {} if (rtol, atol) == (1e-5, 1e-8) and ctx.coin() else dict(rtol=rtol,
                                                                              atol=atol)
            if nan or ctx.coin():
                kw["equal_nan"] = nan
            try:
                report_nonclose(a, b, **kw)
                got = True
            except ValueError:
                got = False
    ctx.ev("helper.unmodified")
    ctx.same(a, ka, "helper.operand", f"{what}: first operand")
    ctx.same(b, kb, "helper.operand", f"{what}: second operand")
    if other:
        ctx.ev(f"{which}.shape")
        ctx.equal(got, False, "helper.shape", f"{what} vs {b.shape}")
    else:
        bad, edge = verdict(a, b, rtol, atol, nan)
        ctx.ev("tensor.nan" if which == "tensor" else "array.nan",
               int(np.isnan(a.astype(float)).any()))
        ctx.ev(f"{which}.inf", int(np.isinf(a.astype(float)).any()))
        if nan and np.isnan(a.astype(float)).any():
            ctx.ev("array.nan_equal")
        if not edge:
            ctx.ev(f"{which}.{'differs' if bad else 'close'}")
            ctx.equal(got, bad == 0, "helper.verdict", f"{what}: {bad} entries differ")
            m = re.search(r"close entries: (\d+)", out.getvalue())
            if bad and m:
                ctx.ev("helper.count")
                ctx.equal(int(m.group(1)), bad, "helper.count", f"{what}: reported count")
    ctx.sig(which, ctx.idx)


def split(ctx, split_list):
    n = ctx.r.randint(0, 8)
    x = [object() for _ in range(n)]
    sizes, left = [], n
    while left or ctx.coin(0.2):
        sizes.append(ctx.r.randint(0 if ctx.coin(0.2) else min(1, left), left))
        left -= sizes[-1]
    kx, ks = list(x), list(sizes)
    arg = tuple(x) if ctx.coin(0.3) else x
    if ctx.coin(0.3):
        bad = ctx.pick(sizes + [ctx.r.randint(1, 3)], [n + 1], [s + 1 for s in sizes] or [1],
                       [s for s in sizes if s][1:], [s for s in sizes if s][:-1], [n - 1])
        if sum(bad) == n or min(bad, default=0) < 0:
            bad = [n + 1]
        ctx.ev("split.rejected")
        ctx.raises(ValueError, lambda: split_list(arg, bad), "helper.split_reject",
                   f"{bad} for {n} entries")
    out = split_list(arg, sizes)
    ctx.ev("split.ok")
    want, i = [], 0
    for s in sizes:
        want.append(kx[i:i + s])
        i += s
    ctx.true([list(o) for o in out] == want, "helper.split", f"{sizes} of {n} entries")
    ctx.true(all(isinstance(o, list) for o in out), "helper.split", "sub-lists are lists")
    ctx.true(x == kx and sizes == ks, "helper.split", "arguments changed")
    ctx.sig("split", n, tuple(sizes))
