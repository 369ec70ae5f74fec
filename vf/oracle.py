"""Independent dense references in float64, one datum at a time, plain autograd.

Nothing here imports curvlinops, BackPACK, einops or functorch: predictions, losses and
derivatives are evaluated per datum, so batching, flattening and normalisation errors of
the code under test cannot be shared with the reference.
"""

import torch
from torch import Tensor


def _grads(out, params, retain=True, create=False):
    gs = torch.autograd.grad(
        out, params, retain_graph=retain, create_graph=create, allow_unused=True
    )
    return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, params)]


def flat(ts):
    return torch.cat([t.reshape(-1) for t in ts])


def c_factor(ref):
    return 1.0 / ref.N if ref.red == "mean" else 1.0


def datum_loss(ref, n):
    return ref.loss(ref.fwd(n), ref.label(n))


def risk(ref):
    return c_factor(ref) * sum(datum_loss(ref, n) for n in range(ref.N))


def gradient_and_loss(ref):
    L = risk(ref)
    return [g.detach() for g in _grads(L, ref.params)], L.detach()


def hessian(ref, block_sizes=None) -> Tensor:
    L = risk(ref)
    g = flat(_grads(L, ref.params, create=True))
    rows = []
    for i in range(g.numel()):
        if g[i].requires_grad:
            rows.append(flat(_grads(g[i], ref.params)))
        else:
            rows.append(torch.zeros(g.numel(), dtype=g.dtype))
    H = torch.stack(rows).detach()
    if block_sizes is not None:
        mask = torch.zeros_like(H)
        sizes = [p.numel() for p in ref.params]
        i = start = 0
        for b in block_sizes:
            w = sum(sizes[i : i + b])
            mask[start : start + w, start : start + w] = 1
            i, start = i + b, start + w
        H = H * mask
    return H


def jac(out, params) -> Tensor:
    """Dense Jacobian of a tensor: [out.numel(), D]."""
    return torch.stack([flat(_grads(o, params)) for o in out.reshape(-1)]).detach()


def jacobian(ref) -> Tensor:
    return torch.cat([jac(ref.fwd(n), ref.params) for n in range(ref.N)])


def loss_hessian_out(ref, n):
    """Hessian of one datum's loss w.r.t. its (flattened) prediction."""
    f = ref.fwd(n).detach().requires_grad_(True)
    L = ref.loss(f, ref.label(n))
    (g,) = torch.autograd.grad(L, f, create_graph=True)
    g = g.reshape(-1)
    rows = []
    for gi in g:
        if gi.requires_grad:
            rows.append(torch.autograd.grad(gi, f, retain_graph=True)[0].reshape(-1))
        else:
            rows.append(torch.zeros(f.numel(), dtype=f.dtype))
    return torch.stack(rows)


def ggn(ref) -> Tensor:
    G = 0
    for n in range(ref.N):
        J = jac(ref.fwd(n), ref.params)
        G = G + J.T @ loss_hessian_out(ref, n) @ J
    return c_factor(ref) * G


# ---------------------------------------------------------------- per loss term views
def terms(ref, f: Tensor, is_ce: bool) -> Tensor:
    """Indices into f.reshape(-1) of each loss term's class entries: [T, C].

    f has shape [1, ...]; for cross-entropy axis 1 holds the classes, otherwise the last.
    """
    idx = torch.arange(f.numel()).reshape(f.shape)
    if is_ce:
        idx = idx.movedim(1, -1)
    return idx.reshape(-1, idx.shape[-1])


def term_scale(ref):
    """Factor the reduction applies to one un-reduced loss term over the data set."""
    f = ref.fwd(0)
    t = terms(ref, f, ref.loss_name == "ce")
    T, C = t.shape
    if ref.red == "sum":
        return 1.0
    return 1.0 / (ref.N * T) if ref.loss_name == "ce" else 1.0 / (ref.N * T * C)


def unreduced_term_grad(loss_name, f: Tensor, y) -> Tensor:
    """Gradient of sum-reduced loss w.r.t. f; entries of different terms decouple."""
    f = f.detach()
    if loss_name == "mse":
        return 2 * (f - y)
    if loss_name == "bce":
        return torch.sigmoid(f) - y
    p = torch.softmax(f, dim=1)
    onehot = torch.zeros_like(p).scatter_(1, y.unsqueeze(1), 1.0)
    return p - onehot


def empirical_fisher(ref) -> Tensor:
    E, s = 0, term_scale(ref)
    for n in range(ref.N):
        f = ref.fwd(n)
        J = jac(f, ref.params)
        g = unreduced_term_grad(ref.loss_name, f, ref.y[n : n + 1]).reshape(-1)
        for t in terms(ref, f, ref.loss_name == "ce"):
            v = J[t].T @ g[t]
            E = E + torch.outer(v, v)
    return s * E


def with_noise(p, fn):
    """Reference value, and the rounding noise the problem's own precision induces.

    For single-precision problems the reference is also evaluated in single precision;
    its deviation, amplified, is the absolute error the code under test is granted on top
    of the relative tolerance.  Zero in double precision.
    """
    want = fn(p.ref())
    if p.dtype == torch.float64:
        return want, 0.0
    low = fn(p.ref(p.dtype)).double()
    noise = (low - want).abs().max().item()
    if not noise < float("inf"):
        noise = 0.0
    return want, 100 * noise


def floor_scale(ref) -> float:
    """Magnitude below which a curvature entry is rounding noise of larger terms."""
    G = 0
    for n in range(ref.N):
        J = jac(ref.fwd(n), ref.params)
        G = G + J.T @ J
    return 1e-3 * c_factor(ref) * max(G.abs().max().item(), 1e-4)


def grad_floor(ref) -> float:
    G = max(jac(ref.fwd(n), ref.params).abs().sum(0).max().item() for n in range(ref.N))
    return 1e-3 * max(G, 1e-3) * (1.0 if ref.red == "mean" else ref.N)
