"""Case context, verdicts, evidence and the parallel case runner."""

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from multiprocessing import get_context

import numpy as np
import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def stable_seed(*parts) -> int:
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Stop(Exception):
    """Ends a case after a violation that makes its remainder meaningless."""


class HarnessError(Exception):
    """The harness could not set the case up; never a verdict on the code."""


class CaseTimeout(BaseException):
    pass


# Normwise relative tolerances by the dtype of the observed value.
RTOL = {torch.float64: 1e-8, torch.float32: 5e-4, torch.bfloat16: 5e-2}


class Ctx:
    """One case: random choices, monitor events, verdicts."""

    def __init__(self, prop: str, tier: str, seed: int, idx: int):
        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        s = stable_seed(prop, seed, idx)
        self.r = random.Random(s)
        self.g = torch.Generator().manual_seed(s % (2**31))
        self.np = np.random.RandomState(s % (2**31))
        self.events: Counter = Counter()
        self.sigs = set()
        self.sample = None
        self.fails = []

    # ---------------------------------------------------------------- choices
    def pick(self, *xs):
        return self.r.choice(xs)

    def coin(self, p=0.5):
        return self.r.random() < p

    def randn(self, *shape, dtype=torch.float64):
        return torch.randn(tuple(shape), generator=self.g, dtype=torch.float64).to(dtype)

    def rand(self, *shape, dtype=torch.float64):
        return torch.rand(tuple(shape), generator=self.g, dtype=torch.float64).to(dtype)

    # ----------------------------------------------------------------- events
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        self.sigs.add("|".join(map(str, parts)))

    def describe(self, **kw):
        self.sample = {k: str(v) for k, v in kw.items()}

    # --------------------------------------------------------------- verdicts
    def fail(self, mech, msg, stop=False):
        self.fails.append({"mech": mech, "msg": str(msg)[:2000]})
        if stop:
            raise Stop()

    def true(self, cond, mech, msg):
        self.ev("oracle.assertions")
        if not cond:
            self.fail(mech, msg)
        return bool(cond)

    def equal(self, got, want, mech, what):
        self.ev("oracle.assertions")
        if got != want:
            self.fail(mech, f"{what}: got {got!r}, want {want!r}")
            return False
        return True

    def close(self, got, want, mech, what, rtol=None, scale=0.0, atol=0.0):
        """Normwise comparison: max|got-want| <= rtol * max(max|want|, scale) + atol."""
        self.ev("oracle.comparisons")
        got, want = _t(got), _t(want)
        if rtol is None:
            rtol = RTOL.get(got.dtype, 1e-8)
        if tuple(got.shape) != tuple(want.shape):
            self.fail(
                mech, f"{what}: shape {tuple(got.shape)} != {tuple(want.shape)}"
            )
            return False
        if got.numel() == 0:
            return True
        if got.dtype.is_complex or want.dtype.is_complex:
            g, w = got.to(torch.complex128), want.to(torch.complex128)
        else:
            g, w = got.double(), want.double()
        if not torch.isfinite(w.abs()).all():
            raise HarnessError(f"{what}: reference is not finite")
        if not torch.isfinite(g.abs()).all():
            self.fail(mech, f"{what}: result is not finite: {_short(g)}")
            return False
        err = (g - w).abs().max().item()
        ref = max(w.abs().max().item(), scale, 1e-300)
        if err > rtol * ref + atol:
            self.fail(
                mech,
                f"{what}: max error {err:.3e} > {rtol:.1e} * {ref:.3e} + {atol:.1e}; "
                f"got {_short(g)} want {_short(w)}",
            )
            return False
        return True

    def same(self, got, want, mech, what):
        """Bitwise equality of tensors/arrays."""
        self.ev("oracle.comparisons")
        got, want = _t(got), _t(want)
        ok = (
            got.shape == want.shape
            and got.dtype == want.dtype
            and bool(((got == want) | ((got != got) & (want != want))).all())
        )
        if not ok:
            self.fail(mech, f"{what}: {_short(got)} is not bitwise {_short(want)}")
        return ok

    def raises(self, excs, fn, mech, what):
        """``fn`` must raise one of ``excs``; returns whether it did."""
        self.ev("oracle.rejections")
        try:
            out = fn()
        except excs:
            return True
        except Exception as e:  # wrong type
            self.fail(mech, f"{what}: raised {type(e).__name__}: {e} instead")
            return False
        self.fail(mech, f"{what}: accepted (returned {type(out).__name__})")
        return False


def _t(x):
    if isinstance(x, torch.Tensor):
        return x.detach()
    if isinstance(x, np.ndarray):
        return torch.as_tensor(np.ascontiguousarray(x))
    if isinstance(x, float):
        return torch.tensor(x, dtype=torch.float64)
    return torch.as_tensor(x)


def _short(t, n=6):
    f = t.flatten()
    return f"{tuple(t.shape)}{[complex(v) if t.dtype.is_complex else float(v) for v in f[:n]]}"


# --------------------------------------------------------------------------- runner
CASE_CPU_LIMIT = 150  # CPU seconds; cases normally take 0.05 - 3


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, prop, tier, seed, idx):
    """Execute one case in this process and return a plain-data verdict."""
    ctx = Ctx(prop, tier, seed, idx)
    torch.manual_seed(stable_seed("global", prop, seed, idx) % 2**31)
    np.random.seed(stable_seed("global", prop, seed, idx) % 2**31)
    status, tb = "ok", None
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    t0 = time.process_time()
    try:
        module.case(ctx)
    except Stop:
        pass
    except (MemoryError, HarnessError) as e:
        status, tb = "harness", "".join(traceback.format_exception(e))
    except CaseTimeout:
        ctx.fail("no-progress", f"case did not end within {CASE_CPU_LIMIT} CPU s")
    except Exception as e:
        tb = "".join(traceback.format_exception(e))
        ctx.fail("unexpected-exception", f"{type(e).__name__}: {e}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return {
        "idx": idx,
        "status": status,
        "fails": ctx.fails,
        "tb": tb,
        "events": dict(ctx.events),
        "sigs": sorted(ctx.sigs),
        "sample": ctx.sample,
        "cpu": time.process_time() - t0,
    }


_MOD = None


def _init():
    torch.set_num_threads(1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def _work(args):
    return run_case(_MOD, *args)


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop and k.get("status") == "known":
                    known[k["mech"]] = k
    return known


def main(module, prop, tier, seed, replay=None):
    """Run all cases of a check; returns the exit code."""
    global _MOD
    _MOD = module
    t0 = time.time()
    known = load_known(prop)
    if replay is not None:
        rep = json.load(open(replay))
        torch.set_num_threads(1)
        res = run_case(module, prop, rep["tier"], rep["seed"], rep["idx"])
        print(json.dumps(res, indent=1))
        bad = [f for f in res["fails"] if f["mech"] not in known]
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else 0

    n = module.CASES[tier]
    soft = {"quick": 420, "thorough": 3300}[tier]
    workers = min(8, os.cpu_count() or 1)
    events, sigs, samples = Counter(), set(), []
    viols, harness, known_hit = [], [], {}
    done = 0
    slow = (0.0, None)
    pool = ProcessPoolExecutor(
        workers, mp_context=get_context("fork"), initializer=_init
    )
    pending, nxt = set(), 0
    try:
        while True:
            while (
                nxt < n
                and len(pending) < 2 * workers
                and time.time() - t0 < soft
                and len(viols) < 8
            ):
                pending.add(pool.submit(_work, (prop, tier, seed, nxt)))
                nxt += 1
            if not pending:
                break
            fin, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in fin:
                try:
                    res = f.result()
                except Exception as e:  # a worker process died: no verdict
                    print(f"HARNESS ERROR: lost a worker process: {e!r}")
                    return 1 if _report(viols, prop, tier, seed) else 2
                done += 1
                events.update(res["events"])
                sigs.update(res["sigs"])
                if res["cpu"] > slow[0]:
                    slow = (res["cpu"], res["idx"])
                if res["sample"] and len(samples) < 6:
                    samples.append({"case": res["idx"], **res["sample"]})
                if res["status"] == "harness":
                    harness.append(res)
                for x in res["fails"]:
                    if x["mech"] in known:
                        known_hit[x["mech"]] = x
                    else:
                        viols.append((res["idx"], x, res["tb"]))
            if len(viols) >= 8 and nxt < n:
                n = nxt  # enough evidence: drain and stop
    finally:
        pool.shutdown(wait=True, cancel_futures=True)

    missing = [m for m in getattr(module, "MUST", ()) if events[m] == 0]
    code = 0
    for mech in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {mech}: {known[mech]['what']}")
    if _report(viols, prop, tier, seed):
        code = 1
    elif harness:
        code = 2
        print(f"HARNESS ERROR in {len(harness)} case(s):\n{harness[0]['tb']}")
    elif missing:
        code = 2
        print(f"INCONCLUSIVE: monitors saw no events of: {missing}")

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples,
            "monitor_events": dict(sorted(events.items())),
            "cases_planned": module.CASES[tier],
            "truncated": done < module.CASES[tier],
            "slowest_case_cpu_s": round(slow[0], 2),
            "known_findings_seen": sorted(known_hit),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len({v[0] for v in viols}),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {done} cases, {len(sigs)} distinct, "
        f"{sum(events.values())} monitor events, {len(viols)} violations, "
        f"{ev['wall_s']} s (slowest case {slow[0]:.1f} s: {slow[1]})"
    )
    return code


def _report(viols, prop, tier, seed):
    """Write one replay file and print one line per distinct violation."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    for idx, x, tb in viols:
        if x["mech"] in seen:
            continue
        seen.add(x["mech"])
        path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{idx}.json")
        rep = {"property": prop, "tier": tier, "seed": seed, "idx": idx, **x,
               "traceback": tb, "replay_cmd": f"./run.sh {prop} --replay {path}"}
        with open(path, "w") as fh:
            json.dump(rep, fh, indent=1)
        print(f"  [{x['mech']}] case {idx}: {x['msg']}")
        if tb and x["mech"] == "unexpected-exception":
            print("    " + tb.strip().replace("\n", "\n    ")[-1500:])
        print(f"VIOLATION property={prop} replay={path}")
    return bool(viols)
