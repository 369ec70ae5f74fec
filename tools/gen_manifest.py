"""Writes MANIFEST.json."""
import json
import os

TECH = {
 "C01": "runtime monitoring: online oracle (double-backward reference Hessian) over randomised workloads",
 "C02": "runtime monitoring: online oracle (reference GGN from per-datum Jacobians) over randomised workloads",
 "C03": "runtime monitoring: online oracle (reference per-term gradients) over randomised workloads",
 "C04": "runtime monitoring: label decoding and statistical oracles over observed samples",
 "C05": "runtime monitoring: online oracle (reference Jacobian) over randomised workloads",
 "C06": "runtime monitoring: online oracle (reference risk and gradient) over randomised histories",
 "C07": "runtime monitoring: algebraic monitors over operand formats; rejection monitors on malformed operands",
 "C08": "runtime monitoring: array-level monitors of exported operators over dtypes and layouts",
 "C09": "runtime monitoring: snapshot and aliasing monitors over random call histories",
 "C10": "runtime monitoring: history-independence monitors over random interleavings",
 "C11": "runtime monitoring: injected non-determinism at every site against a specification oracle",
 "C12": "runtime monitoring: exhaustive fault injection at every observed user-code call with state monitors",
 "C13": "runtime monitoring: online oracle (independently computed Kronecker factors) over randomised workloads",
 "C14": "runtime monitoring: factor extraction, label decoding and statistical oracles over observed samples",
 "C15": "runtime monitoring: spectral oracle on the represented matrix over request histories",
 "C16": "runtime monitoring: dense inverse oracle over damping modes and request histories",
 "C17": "runtime monitoring: checkpoint histories with equivalence, atomicity and trace monitors",
 "C18": "runtime monitoring: residual and series oracles, iteration event logs of iterative solvers",
 "C19": "runtime monitoring: dense indexing oracle over selection histories",
 "C20": "runtime monitoring: dense oracle and algebraic monitors over operator expressions",
 "C21": "runtime monitoring: recorded operator probes checked offline (formula, law, independence)",
 "C22": "runtime monitoring: recorded operator probes checked offline (formula, law, caching)",
 "C23": "runtime monitoring: recorded Lanczos runs replayed against an independent quadrature oracle",
 "C24": "runtime monitoring: online oracle (explicit second derivative) and hook monitors",
 "C25": "runtime monitoring: trace specification checked over recorded data/model/loss event logs",
 "C26": "runtime monitoring: online oracle (double-backward references) over randomised workloads",
 "C27": "runtime monitoring: rejection/acceptance oracle with state snapshots over randomised settings",
 "C28": "runtime monitoring: entry-by-entry definition oracle over randomised inputs",
 "C30": "runtime monitoring: definition oracle over randomised arguments, statistical oracle for vectors",
 "C31": "runtime monitoring: controlled thread scheduling and nesting with a sequential-equivalence oracle",
 "C32": "runtime monitoring: recorded outcomes of calls, with a metamorphic oracle (explicit documented defaults)",
 "C33": "runtime monitoring: every tensor of an execution watched for size; online oracles at realistic dimensions",
 "C29": "runtime monitoring: object-lifetime (leak) monitor over streamed data and call histories",
}
NOTE = ("Every explored execution of the real code is decided by an oracle computed without the "
        "library; assurance is bounded by the sampled workloads (seeded by VERIF_SEED). Trusts "
        "PyTorch autograd, NumPy/SciPy, and CPU execution in the tested dtypes.")
EXTRA = {
 "C04": " Statistical verdicts use thresholds with a false-alarm probability below 1e-9 per test.",
 "C14": " Statistical verdicts use thresholds with a false-alarm probability below 1e-9 per test.",
 "C21": " Statistical verdicts use thresholds with a false-alarm probability below 1e-9 per test.",
 "C22": " Statistical verdicts use thresholds with a false-alarm probability below 1e-9 per test.",
 "C12": " All observed fault points of a request are injected when there are at most 30 (thorough: 300).",
}
checks = []
for i in range(1, 34):
    c = f"C{i:02d}"
    checks.append({
        "property": c, "quick_cmd": f"./run.sh {c} --tier quick",
        "thorough_cmd": f"./run.sh {c} --tier thorough",
        "evidence_file": f"evidence/{c}.json", "technique": TECH[c],
        "level": "fault_enumeration" if c == "C12" else "exploration",
        "level_note": NOTE + EXTRA.get(c, "")})
m = {"version": 1, "setup_cmd": "./run.sh --selftest", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: all instrumentation attaches from outside (Python), so the "
              "working tree is imported as it is. Compiler sanitizers and race detectors have "
              "no subject here (pure Python that starts no threads itself; C31 drives it from several); see DESIGN.md."}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
