"""C31 Operators used concurrently or nested do not interfere: controlled schedules."""
import random
import sys
import threading

import numpy as np
import torch
from vf import gen, ops

LEVEL = "exploration"
CASES = {"quick": 1800, "thorough": 20000}
MUST = ["sched.separate", "sched.shared", "sched.nested", "sched.lines", "sched.points",
        "sched.free", "sched.switches", "job.product", "job.gradient", "job.adjoint",
        "job.scipy", "job.property", "job.inverse", "job.make", "job.state",
        "kind.kfac", "kind.kfacinv", "kind.mc", "kind.kfac-mc", "kind.hessian", "kind.ggn",
        "kind.ef", "kind.jac", "kind.jact", "kind.act", "sched.same_class"]
RULE = (
    "Two to four operators (with own models and data, or, for kinds that attach nothing to "
    "the model, sharing both) x random request sequences, executed under a seeded scheduler "
    "that switches threads at mini-batches, model evaluations and lines of the library, "
    "freely preempted threads, and requests nested inside another operator's data loading; "
    "every result must equal that of the same requests made one after the other; non-trivial "
    "when at least one switch happened inside a request."
)
PROPS = ["trace", "logdet", "frobenius_norm", "det"]


class Sched:
    """Runs registered threads one at a time; control moves only at recorded points."""

    def __init__(self, seed, n, p_line, p_point):
        self.r, self.n = random.Random(seed), n
        self.p_line, self.p_point = p_line, p_point
        self.cond = threading.Condition()
        self.alive, self.current, self.ids = set(range(n)), None, {}
        self.log, self.switches, self.dead = [], 0, False

    def point(self, p=None):
        me = self.ids.get(threading.get_ident())
        if me is None or self.dead or len(self.alive) < 2:
            return
        if self.r.random() >= (self.p_point if p is None else p):
            return
        self.hand(me)

    def hand(self, me):
        with self.cond:
            others = sorted(self.alive - {me})
            if not others:
                return
            self.current = self.r.choice(others)
            self.switches += 1
            if len(self.log) < 200:
                self.log.append(self.current)
            self.cond.notify_all()
            self.wait(me)

    def wait(self, me):
        while self.current != me and not self.dead:
            if not self.cond.wait(timeout=20):
                self.dead = True

    def run(self, bodies, trace):
        def outer(i):
            self.ids[threading.get_ident()] = i
            with self.cond:
                self.wait(i)
            if trace:
                sys.settrace(self.tracer)
            try:
                bodies[i]()
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.discard(i)
                    if self.alive:
                        self.current = self.r.choice(sorted(self.alive))
                    self.cond.notify_all()

        ts = [threading.Thread(target=outer, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        while len(self.ids) < self.n:
            pass
        with self.cond:
            self.current = self.r.randrange(self.n)
            self.cond.notify_all()
        for t in ts:
            t.join(timeout=120)
        return not any(t.is_alive() for t in ts)

    def tracer(self, frame, event, arg):
        if "/curvlinops/" not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point(self.p_line)
        return self.local


class Points:
    """Data that announces every mini-batch."""

    def __init__(self, items):
        self.items, self.at = items, None

    def __iter__(self):
        for item in self.items:
            if self.at is not None:
                self.at()
            yield item


class Worker:
    """One operator and its request sequence."""

    def __init__(self, ctx, o, make):
        self.o, self.make = o, make
        self.jobs = ["make"]
        kinds = ["product", "product", "adjoint", "scipy", "make"]
        if o.kind not in ("jac", "jact", "kfacinv", "act"):
            kinds.append("gradient")
        if o.kind in ("kfac", "kfac-mc"):
            kinds += ["property", "property", "state"]
        if o.kind in ("ggn", "ef", "mc", "hessian"):
            kinds.append("inverse")
        for _ in range(ctx.r.randint(1, 4)):
            self.jobs.append(ctx.pick(*kinds))
        n_in = sum(torch.Size(s).numel() for s in o.in_shapes)
        n_out = sum(torch.Size(s).numel() for s in o.out_shapes)
        self.x = ctx.randn(n_in, ctx.pick(1, 2), dtype=o.p.dtype)
        self.u = ctx.randn(n_out, dtype=o.p.dtype)
        self.prop = ctx.pick(*PROPS)
        self.cg = dict(maxiter=ctx.r.randint(1, 3), tol=0.0, atol=0.0)
        self.check = ctx.coin(0.2)
        for j in self.jobs:
            ctx.ev(f"job.{j}")
        ctx.ev(f"kind.{o.kind}")
        self.reset()

    def reset(self):
        self.op, self.out, self.next, self.error, self.busy = None, [], 0, None, False

    def step(self):
        """Perform the next request; results are kept."""
        j = self.jobs[self.next]
        self.next += 1
        self.busy = True
        try:
            with torch.enable_grad():
                self.out.append(self.request(j))
        except Exception as e:
            self.error = f"{j}: {type(e).__name__}: {e}"
            self.next = len(self.jobs)
        self.busy = False

    def request(self, j):
        from curvlinops import NeumannInverseLinearOperator

        if j == "make":
            self.op = self.make(check_deterministic=self.check)
            return []
        if j == "product":
            return [self.op @ self.x]
        if j == "adjoint":
            return [self.op.adjoint() @ self.u]
        if j == "scipy":
            return [torch.as_tensor(self.op.to_scipy() @ self.x.numpy()[:, 0])]
        if j == "gradient":
            g, loss = self.op.gradient_and_loss()
            return [*g, loss]
        if j == "property":
            return [torch.as_tensor(float(getattr(self.op, self.prop)))]
        if j == "state":
            st = self.op.state_dict()
            return [M for k in sorted(st) if "covariances" in k
                    for M in st[k].values()]
        inv = NeumannInverseLinearOperator(self.op, num_terms=self.cg["maxiter"], scale=0.1)
        return [inv @ self.x[:, 0]]

    def body(self):
        while self.next < len(self.jobs):
            self.step()

    def sequential(self):
        self.reset()
        self.body()
        return self.out, self.error


def build(ctx):
    """Operators that may be used at the same time."""
    n = ctx.pick(2, 2, 3, 4)
    dtype = torch.float64
    ws, datas, models = [], [], []
    shared = ctx.coin(0.35)
    if shared:
        ctx.ev("sched.shared")
        p = ops.shared_problem(ctx, kfac_able=ctx.coin(), dtype=dtype, n_max=4, max_dim=30)
        data = Points(list(p.data))
        kinds = [ctx.pick("hessian", "ggn", "ef", "mc", "mc", "jac", "jact")
                 for _ in range(n)]
        if ctx.coin(0.3):
            kinds = [kinds[0]] * n
        for k in kinds:
            o = ops.recipe(ctx, p, k)
            ws.append(Worker(ctx, o, lambda o=o, **kw: o.make(data=data, **kw)))
        datas, models = [data] * n, [p.model]
    else:
        ctx.ev("sched.separate")
        same = ctx.pick(None, None, None, ["kfac"], ["kfac-mc"], ["kfacinv"], ["mc"], ["act"],
                        ["act"])
        for _ in range(n):
            o = ops.random_op(ctx, kinds=same, dtype=dtype, n_max=4, max_dim=30)
            o.p.data = Points(list(o.p.data))
            ws.append(Worker(ctx, o, o.make))
            datas.append(o.p.data)
            models.append(o.p.model)
    if len({w.o.kind for w in ws}) < n:
        ctx.ev("sched.same_class")
    return ws, datas, models


def case(ctx):
    ws, datas, models = build(ctx)
    mode = ctx.pick("points", "lines", "lines", "nested", "nested", "free")
    ctx.describe(mode=mode, ops=[w.o.label() for w in ws], jobs=[w.jobs for w in ws])
    first = ctx.coin()
    if first:
        want = [w.sequential() for w in ws]
    for w in ws:
        w.reset()
    hooks, key = [], None
    rng = random.Random(ctx.r.random())
    ctx.ev(f"sched.{mode}")
    if mode == "nested":
        depth = [0]
        trail = []

        def at():
            idle = [i for i, w in enumerate(ws) if not w.busy and w.next < len(w.jobs)]
            if depth[0] < 2 and idle and rng.random() < 0.6:
                depth[0] += 1
                i = rng.choice(idle)
                trail.append(i)
                ws[i].step()
                depth[0] -= 1

        for d in set(datas):
            d.at = at
        for w in ws:
            w.body()
        switches, key = len(trail), tuple(trail[:40])
    elif mode == "free":
        bar = threading.Barrier(len(ws))

        def body(w):
            bar.wait()
            w.body()

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=body, args=(w,), daemon=True) for w in ws]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(timeout=120)
        finally:
            sys.setswitchinterval(old)
        if not ctx.true(not any(t.is_alive() for t in ts), "conc.stuck", "threads hang"):
            return
        switches = len(ws)
    else:
        s = Sched(ctx.r.randrange(2**31), len(ws),
                  ctx.pick(0.02, 0.1, 0.3) if mode == "lines" else 0.0, ctx.pick(0.3, 0.8))
        for d in set(datas):
            d.at = s.point
        for m in models:
            hooks.append(m.register_forward_pre_hook(lambda *a: s.point()))
            hooks.append(m.register_forward_hook(lambda *a: s.point()))
        ok = s.run([w.body for w in ws], mode == "lines")
        if not ctx.true(ok, "conc.stuck", "threads hang"):
            return
        switches, key = s.switches, tuple(s.log)
    ctx.ev("sched.switches", switches)
    for d in datas:
        d.at = None
    for h in hooks:
        h.remove()
    got = [(w.out, w.error) for w in ws]
    if not first:
        want = [w.sequential() for w in ws]
    for w, (a, ea), (b, eb) in zip(ws, got, want):
        what = f"{w.o.label()} with {[v.o.kind for v in ws if v is not w]}, {mode}"
        if eb is not None:
            ctx.equal(ea, eb, "conc.error", what)
            continue
        if not ctx.equal(ea, None, "conc.error", what):
            continue
        for j, x, y in zip(w.jobs, a, b):
            ctx.equal(len(x), len(y), "conc.result", f"number of results of {j}, {what}")
            for s, t in zip(x, y):
                if not torch.isfinite(t.double()).all():
                    continue
                ctx.close(s, t, "conc.result", f"{j} of {what}", rtol=1e-9, atol=1e-12)
    if switches:
        ctx.sig(mode, key, tuple(w.o.kind for w in ws), ctx.idx if key is None else "")
