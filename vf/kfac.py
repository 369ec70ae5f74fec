"""KFAC workloads and an independent dense reference, one datum at a time."""

import torch
import torch.nn.functional as F
from torch import nn

from vf import gen, oracle


# ------------------------------------------------------------------------- workloads
class Mix(nn.Module):
    """Mixes sequence positions, so tokens do not decouple."""

    def forward(self, x):
        return x + 0.5 * x.mean(dim=-2, keepdim=True)


class Residual(nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return x + self.inner(x)


def acts(ctx, linear=False):
    if linear:
        return nn.Identity()
    return ctx.pick(nn.Tanh, nn.Sigmoid, nn.ReLU, lambda: nn.ReLU(inplace=True),
                    lambda: nn.SiLU(inplace=True), nn.ELU)()


def conv(ctx, ci, co, groups=1, size=4):
    k = ctx.pick(1, 2, 3, (1, 2), (3, 2), (2, 3))
    kw = dict(bias=ctx.coin(0.7), groups=groups)
    kind = ctx.pick("int", "int", "int", "same", "valid", "mode")
    if kind == "same":
        k = ctx.pick(1, 3, (1, 3), (3, 1))
        kw.update(padding="same", dilation=ctx.pick(1, 1, 2, (1, 2), (2, 1)))
    elif kind == "valid":
        kw.update(padding="valid", stride=ctx.pick(1, 2))
    elif kind == "mode":
        kw.update(padding=1, padding_mode=ctx.pick("circular", "reflect", "replicate"),
                  stride=ctx.pick(1, 2))
    else:
        kw.update(padding=ctx.pick(0, 1, (1, 0), (0, 1)),
                  stride=ctx.pick(1, 1, 2, (1, 2), (2, 1)),
                  dilation=ctx.pick(1, 1, 1, 2, (1, 2), (2, 1)))
    return nn.Conv2d(ci, co, k, **kw)


def builder(ctx, loss_name, archs=("mlp", "mlp", "cnn", "cnn", "img", "seq", "seqmix",
                                   "seqpool", "res", "norm", "single", "linear", "seq4",
                                   "embed", "attn"), ints=True):
    r = ctx.r
    for _ in range(100):
        arch = ctx.pick(*archs)
        C = r.randint(2, 3) if loss_name == "ce" else r.randint(1, 3)
        if loss_name == "ce" and ctx.coin(0.05):
            C = 1
        b = lambda: ctx.coin(0.75)  # noqa: E731
        if arch in ("mlp", "linear"):
            w = [r.randint(1, 4)] + [r.randint(1, 4) for _ in range(r.randint(1, 2))] + [C]
            if r.random() < 0.15:  # many layers
                ctx.ev("model.deep")
                w = [r.randint(1, 2) for _ in range(r.randint(5, 9))] + [C]
            layers = []
            for i, (m, n) in enumerate(zip(w, w[1:])):
                layers.append(nn.Linear(m, n, bias=b()))
                if i < len(w) - 2:
                    layers.append(acts(ctx, arch == "linear"))
            model, shape = nn.Sequential(*layers), (w[0],)
        elif arch == "single":
            d = r.randint(1, 4)
            model, shape = nn.Linear(d, C, bias=b()), (d,)
        elif arch == "cnn":
            ci, g = ctx.pick((1, 1), (2, 1), (2, 2), (3, 1), (4, 2))
            co = g * r.randint(1, 2)
            hw = (ctx.pick(4, 5), ctx.pick(4, 5))
            model = nn.Sequential(conv(ctx, ci, co, g), acts(ctx),
                                  nn.AdaptiveAvgPool2d((1, 2)), gen.Flatten(),
                                  nn.Linear(2 * co, C, bias=b()))
            shape = (ci, *hw)
        elif arch == "img":
            model = [conv(ctx, 1, 2), acts(ctx), conv(ctx, 2, C, ctx.pick(1, 1))]
            if loss_name != "ce":
                model.append(gen.Permute(0, 2, 3, 1))
            model, shape = nn.Sequential(*model), (1, 5, 4)
        elif arch in ("seq", "seqmix", "seqpool", "seq4"):
            d, h = r.randint(1, 3), r.randint(1, 3)
            layers = [nn.Linear(d, h, bias=b()), acts(ctx)]
            if arch == "seqmix":
                layers.append(Mix())
            layers.append(nn.Linear(h, C, bias=b()))
            if arch == "seqpool":
                layers.append(gen.MeanAxis())
            elif loss_name == "ce":
                layers.append(gen.Permute(0, 2, 1) if arch != "seq4"
                              else gen.Permute(0, 3, 1, 2))
            seq = (r.randint(1, 3),) if arch != "seq4" else (2, r.randint(1, 2))
            model, shape = nn.Sequential(*layers), (*seq, d)
        elif arch == "res":
            d = r.randint(1, 3)
            model = nn.Sequential(Residual(nn.Sequential(nn.Linear(d, d, bias=b()),
                                                         nn.Tanh())),
                                  nn.Linear(d, C, bias=b()))
            shape = (d,)
        elif arch == "embed":  # parameters outside supported layers, integer inputs
            if not ints:
                continue
            n, d = r.randint(2, 4), r.randint(1, 3)
            layers = [gen.Embed(n, d), acts(ctx)]
            if ctx.coin():
                layers.append(gen.MeanAxis())
            elif loss_name == "ce":
                continue
            layers.append(nn.Linear(d, C, bias=b()))
            model, shape = nn.Sequential(*layers), (-n, r.randint(1, 3))
        elif arch == "attn":
            d = r.randint(1, 3)
            model = nn.Sequential(gen.Attention(d), gen.MeanAxis(), nn.Linear(d, C, bias=b()))
            shape = (r.randint(2, 3), d)
        else:  # norm: parameters in layers KFAC does not support
            d, h = r.randint(2, 3), r.randint(2, 3)
            model = nn.Sequential(nn.Linear(d, h, bias=b()), nn.BatchNorm1d(h),
                                  acts(ctx), nn.Linear(h, C, bias=b())).eval()
            shape = (d,)
        try:
            with torch.no_grad():
                model(gen.inputs(ctx, 2, shape).to(
                    torch.float32 if shape[0] > 0 else torch.int64))
        except RuntimeError:  # spatial size exhausted
            continue
        return arch, model, shape
    raise RuntimeError("no model")


SUPPORTED = (nn.Linear, nn.Conv2d)


def supported_names(model):
    return [
        (f"{mn}.{pn}" if mn else pn)
        for mn, m in model.named_modules()
        if isinstance(m, SUPPORTED)
        for pn, _ in m.named_parameters(recurse=False)
    ]


def kfac_problem(ctx, losses=("mse", "ce", "bce"), archs=None, full=False, ints=True,
                 **kw):
    """A random problem whose listed parameters all lie in supported layers."""
    kw.setdefault("max_dim", 60)
    more = dict(ints=ints, **(dict(archs=archs) if archs else {}))
    bld = lambda c, ln: builder(c, ln, **more)  # noqa: E731
    p = gen.problem(ctx, losses=losses, builder=bld, allow_func=False, subset=False,
                    freeze=False, **kw)
    by = dict(p.model.named_parameters())
    names = supported_names(p.model)
    if not full and ctx.coin(0.6):
        names = ctx.r.sample(names, ctx.r.randint(1, len(names)))
    p.names, p.params = list(names), [by[n] for n in names]
    if ctx.coin(0.3):
        ids = {id(q) for q in p.params}
        for n, q in by.items():
            if id(q) not in ids:
                q.requires_grad_(False)
                p.frozen.append(n)
    return p


def kfac_options(ctx, fisher=("type-2", "empirical", "forward-only"), sep=None):
    return dict(
        fisher_type=ctx.pick(*fisher),
        kfac_approx=ctx.pick("expand", "reduce"),
        separate_weight_and_bias=ctx.coin() if sep is None else sep,
    )


# ------------------------------------------------------------------------- reference
def patches(x, m):
    """[1, C_in, H, W] -> [O1 * O2, C_in/groups * K1 * K2], channel groups averaged."""
    k, s, d = m.kernel_size, m.stride, m.dilation
    if m.padding == "same":
        tot = [d[i] * (k[i] - 1) for i in range(2)]
        # as documented for torch convolutions: the surplus goes to the end
        p = [(t // 2, t - t // 2) for t in tot]
    elif m.padding == "valid":
        p = [(0, 0), (0, 0)]
    else:
        p = [(q, q) for q in m.padding]
    mode = "constant" if m.padding_mode == "zeros" else m.padding_mode
    x = F.pad(x, (*p[1], *p[0]), mode=mode)
    x = torch.stack(x.chunk(m.groups, dim=1)).mean(0)
    O = [(x.shape[2 + i] - d[i] * (k[i] - 1) - 1) // s[i] + 1 for i in range(2)]  # noqa: E741
    rows = []
    for o1 in range(O[0]):
        for o2 in range(O[1]):
            h = [o1 * s[0] + d[0] * i for i in range(k[0])]
            w = [o2 * s[1] + d[1] * j for j in range(k[1])]
            rows.append(x[0][:, h][:, :, w].reshape(-1))
    return torch.stack(rows)


def hess_sqrt(loss_name, f):
    """Square root of the Hessian of one un-reduced loss term, f: [C]."""
    if loss_name == "mse":
        return 2**0.5 * torch.eye(len(f), dtype=f.dtype)
    if loss_name == "bce":
        q = torch.sigmoid(f)
        return torch.diag((q * (1 - q)).sqrt())
    q = torch.softmax(f, 0)
    return torch.diag(q.sqrt()) - torch.outer(q, q.sqrt())


def layout(ref_model, params):
    """[(module name, module, {'weight': pos, 'bias': pos})] of the listed parameters."""
    pos = {id(q): i for i, q in enumerate(params)}
    out = []
    for mn, m in ref_model.named_modules():
        if isinstance(m, SUPPORTED):
            d = {pn: pos[id(q)] for pn, q in m.named_parameters(recurse=False)
                 if id(q) in pos}
            if d:
                out.append((mn, m, d))
    return out


def factors(ref, fisher_type, kfac_approx, separate_weight_and_bias, backs=None):
    """Reference Kronecker factors {module name: (A or None, B)}.

    ``backs(n, f)`` may supply, for datum n, the vectors (shaped like f) whose pull-backs
    form the output-gradient covariance, and replaces the Fisher type's own.
    """
    lay = layout(ref.model, ref.params)
    store = {}

    def hook(name):
        def h(mod, args, out):
            store[name] = (args[0].detach().clone(), out)
            return out.clone()
        return h

    pre = {}

    def prehook(name):
        def h(mod, args):
            pre[name] = args[0].detach().clone()
        return h

    hs = []
    for name, m, _ in lay:
        hs.append(m.register_forward_hook(hook(name)))
        hs.append(m.register_forward_pre_hook(prehook(name)))
    A, B = {}, {}
    N = ref.N
    is_ce = ref.loss_name == "ce"
    for n in range(N):
        f = ref.fwd(n)
        terms = oracle.terms(ref, f, is_ce)
        T, C = terms.shape
        ff = f.detach()
        if backs is not None:
            vecs = backs(n, ff, terms)
        elif fisher_type == "empirical":
            vecs = [oracle.unreduced_term_grad(ref.loss_name, ff, ref.y[n : n + 1])]
        elif fisher_type == "type-2":
            S = [hess_sqrt(ref.loss_name, ff.reshape(-1)[t]) for t in terms]
            vecs = []
            for c in range(C):
                v = torch.zeros(ff.numel(), dtype=ff.dtype)
                for t, s in zip(terms, S):
                    v[t] = s[:, c]
                vecs.append(v.reshape(ff.shape))
        else:
            vecs = []
        if ref.red == "sum":
            scale = 1.0
        else:
            scale = 1.0 / (N * T) if is_ce else 1.0 / (N * T * C)
        for name, m, d in lay:
            x = pre[name]
            out = store[name][1]
            if isinstance(m, nn.Conv2d):
                x = patches(x, m)
            else:
                x = x.reshape(-1, x.shape[-1])
            if kfac_approx == "reduce":
                x = x.mean(0, keepdim=True)
            if "weight" in d and "bias" in d and not separate_weight_and_bias:
                x = torch.cat([x, torch.ones(len(x), 1, dtype=x.dtype)], 1)
            if "weight" in d:
                A[name] = A.get(name, 0) + x.T @ x / (N * len(x))
            d_out = m.weight.shape[0]
            if fisher_type == "forward-only":
                B[name] = torch.eye(d_out, dtype=x.dtype)
                continue
            for v in vecs:
                (g,) = torch.autograd.grad(f, out, v, retain_graph=True,
                                           allow_unused=True)
                g = torch.zeros_like(out) if g is None else g
                if isinstance(m, nn.Conv2d):
                    g = g.movedim(1, -1)
                g = g.reshape(-1, d_out)
                if kfac_approx == "reduce":
                    g = g.sum(0, keepdim=True)
                B[name] = B.get(name, 0) + scale * g.T @ g
    for h in hs:
        h.remove()
    return {name: (A.get(name), B[name].detach()) for name, _, _ in lay}


def blocks(ref, facs, separate):
    """[(block matrix, flat indices into the parameter vector)] covering everything."""
    sizes = [q.numel() for q in ref.params]
    offs = [sum(sizes[:i]) for i in range(len(sizes))]
    out = []
    for name, m, d in layout(ref.model, ref.params):
        A, B = facs[name]
        o = B.shape[0]
        if "weight" in d and "bias" in d and not separate:
            w, b = d["weight"], d["bias"]
            cols = sizes[w] // o
            iw = torch.arange(offs[w], offs[w] + sizes[w]).reshape(o, cols)
            ib = torch.arange(offs[b], offs[b] + sizes[b]).reshape(o, 1)
            out.append((torch.kron(B, A), torch.cat([iw, ib], 1).reshape(-1),
                        (A, B, name, "joint")))
        else:
            for pn, i in d.items():
                idx = torch.arange(offs[i], offs[i] + sizes[i])
                if pn == "weight":
                    out.append((torch.kron(B, A), idx, (A, B, name, "weight")))
                else:
                    out.append((B, idx, (None, B, name, "bias")))
    return out


def assemble(ref, blks):
    D = sum(q.numel() for q in ref.params)
    M = torch.zeros(D, D, dtype=blks[0][0].dtype)
    for K, idx, *_ in blks:
        M[idx.unsqueeze(1), idx.unsqueeze(0)] = K
    return M


def dense(ref, opts, backs=None):
    fac = factors(ref, **opts, backs=backs)
    return assemble(ref, blocks(ref, fac, opts["separate_weight_and_bias"]))


def ambiguous(p, opts):
    """Type-2 KFAC of several coupled loss terms per datum depends on the root chosen."""
    ref = p.ref()
    T = oracle.terms(ref, ref.fwd(0), p.loss_name == "ce").shape[0]
    if opts["fisher_type"] != "type-2" or T == 1:
        return False
    return opts["kfac_approx"] == "reduce" or p.arch not in ("seq", "seq4")


def make(p, opts, cls=None, **over):
    from curvlinops import KFACLinearOperator

    return (cls or KFACLinearOperator)(
        p.model_func, p.loss, p.params, p.data, **p.kw(), **opts, **over
    )
