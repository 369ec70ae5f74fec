"""Monitors: state snapshots, data/forward/product event logs, fault injection."""

import random

import numpy as np
import torch
from torch import nn


def _hooks(model):
    names = [
        "_forward_hooks", "_forward_pre_hooks", "_backward_hooks",
        "_backward_pre_hooks", "_state_dict_hooks", "_load_state_dict_pre_hooks",
    ]
    out = {}
    for n, m in model.named_modules():
        for h in names:
            d = getattr(m, h, None)
            if d:
                out[(n, h)] = tuple(d.keys())
    for n, p in model.named_parameters():
        if p._backward_hooks:
            out[(n, "tensor")] = tuple(p._backward_hooks.keys())
    return out


class Snapshot:
    """Everything of the user's that an operator must not alter."""

    def __init__(self, model, params, tensors=(), rng=True):
        self.model, self.params, self.tensors = model, list(params), list(tensors)
        self.param_list = params if isinstance(params, list) else None
        self.rng = rng
        self.s = self._take()

    def _take(self):
        m = self.model
        s = {
            "param ids": [(n, id(p)) for n, p in m.named_parameters()],
            "requires_grad": [(n, p.requires_grad) for n, p in m.named_parameters()],
            "training": [(n, x.training) for n, x in m.named_modules()],
            "hooks": _hooks(m),
            "grad ids": [id(p.grad) for p in self.params],
            "list": [id(p) for p in (self.param_list or [])],
        }
        t = {}
        for n, p in m.named_parameters():
            t[f"parameter {n}"] = p.detach().clone()
            if p.grad is not None:
                t[f"grad {n}"] = p.grad.detach().clone()
        for n, b in m.named_buffers():
            t[f"buffer {n}"] = b.detach().clone()
        for i, x in enumerate(self.tensors):
            t[f"tensor {i}"] = x.detach().clone()
        if self.rng:
            t["torch rng"] = torch.get_rng_state().clone()
            st = np.random.get_state()
            t["numpy rng"] = torch.as_tensor(
                np.concatenate([st[1].astype(np.int64), [st[2], st[3]]])
            )
            s["python rng"] = hash(random.getstate())
        return s, t

    def check(self, ctx, mech):
        s0, t0 = self.s
        s1, t1 = self._take()
        ctx.ev("monitor.snapshots")
        for k in s0:
            if s0[k] != s1[k]:
                ctx.fail(f"{mech}.{k.replace(' ', '_')}", f"{k} changed: {s0[k]} -> {s1[k]}")
        if set(t0) != set(t1):
            ctx.fail(f"{mech}.grad", f"changed: {set(t0) ^ set(t1)}")
        for k in t0:
            if k in t1:
                a, b = t0[k], t1[k]
                same = a.shape == b.shape and a.dtype == b.dtype and bool(
                    ((a == b) | ((a != a) & (b != b))).all()
                )
                if not same:
                    ctx.fail(f"{mech}.{k.split()[0]}", f"{k} changed value")


class Injected(RuntimeError):
    """An injected fault."""


class DataLog:
    """Re-iterable data source that logs every traversal and can fault."""

    def __init__(self, items, fault=None):
        self.items = list(items)
        self.log = []  # list of traversals; each is the list of item indices yielded
        self.fault = fault  # (traversal or None, item index, exception)

    def __iter__(self):
        mine = []
        self.log.append(mine)
        for i, it in enumerate(self.items):
            if self.fault is not None and self.fault(len(self.log) - 1, i):
                pass
            mine.append(i)
            yield it

    def reset(self):
        self.log = []


class ForwardLog:
    """Counts forward calls of a module through a user hook."""

    def __init__(self, model: nn.Module):
        self.n = 0
        self.rows = []
        self.h = model.register_forward_pre_hook(self._hook)

    def _hook(self, mod, args):
        self.n += 1
        x = args[0]
        x = x if isinstance(x, torch.Tensor) else x["x"]
        self.rows.append(x.shape[0])

    def reset(self):
        self.n, self.rows = 0, []

    def remove(self):
        self.h.remove()


class Trace:
    """Event log over a data source and a model: iter / yield / end / fwd, in order."""

    def __init__(self, items, model, dict_in, vary=None, fault=None):
        self.items, self.dict_in, self.vary, self.fault = list(items), dict_in, vary, fault
        self.events = []
        self.t = -1
        self.given = {}  # traversal -> items yielded in it
        self.h = model.register_forward_pre_hook(self._fwd)

    def __iter__(self):
        self.t += 1
        t = self.t
        self.events.append(("iter", t))
        self.given[t] = []
        for i, item in enumerate(self.items):
            if self.vary is not None:
                item = self.vary(t, i, item)
            self.given[t].append(item)
            self.events.append(("yield", t, i))
            yield item
        self.events.append(("end", t))

    def _tensor(self, X):
        return X["x"] if self.dict_in else X

    def _fwd(self, mod, args):
        self.events.append(("fwd", self._tensor(args[0]).detach().clone()))

    def clear(self):
        self.events.clear()

    def summary(self):
        """(exhausted traversals, partial traversals, forward inputs)."""
        full = [e[1] for e in self.events if e[0] == "end"]
        part = [e[1] for e in self.events if e[0] == "iter" and e[1] not in full]
        return full, part, [e[1] for e in self.events if e[0] == "fwd"]

    def remove(self):
        self.h.remove()
