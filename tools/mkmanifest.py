#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B sim/main.py "
TECH = {
    "C01": "seeded simulation of call histories with injected faults; differential against a new solver",
    "C02": "seeded simulation of step histories; refinement against an independent one-step map",
    "C03": "seeded fault injection at interrupt points and calls; differential retry against an undisturbed twin",
    "C04": "seeded simulation with fault injection; refinement against an independent step-size controller",
    "C05": "seeded simulation with fault injection; progress within a bounded number of steps once faults stop",
    "C06": "seeded simulation of integrations; history checked against a twin driven step by step",
    "C07": "seeded simulation of integrations; history checked against exact rational step counts",
    "C08": "seeded simulation with crashes; stored history checked against the undisturbed run",
    "C09": "seeded crash-and-restart simulation; recovered trajectory checked against the uninterrupted one",
    "C10": "seeded line-level thread schedules and interleaved/nested calls; differential against solo runs",
    "C11": "seeded lockstep simulation of the operator forms; differential with drift control",
    "C12": "seeded simulation with failing log sinks, clock jumps and thread schedules; exactly-once record accounting",
    "C13": "seeded simulation of set/transform histories with injected faults; differential against a new transform",
    "C14": "seeded simulation of call histories with faults; snapshots of all data handed over or out",
    "C15": "seeded line-level thread schedules; results checked against calls made alone",
    "C16": "seeded simulation of assignment histories against a reference model of the settings objects",
    "C17": "seeded fault injection at interrupt points and calls; the exception seen by the caller is compared by identity",
    "C18": "seeded snapshot-and-restore simulation with faults; both continuations checked against solvers never copied",
    "C19": "seeded simulation of long histories with faults; allocator accounting read at several moments of each run",
    "C21": "seeded simulation of calls in programs with their own process-wide settings, with faults at any point and under thread schedules; all settings compared around every call and inside the nonlinear function",
    "C22": "seeded simulation of the same calls in an ordinary and in a hostile process (jumping clocks, other random state, handling, memory management, thread, environment); results compared call by call",
    "C20": "seeded simulation of user schemes whose answers and failures are scripted; every attempt and result checked against an executable model of the drivers",
}
NA = "A function of its arguments alone: no schedule, fault, clock, I/O or history enters it, so simulating the environment decides nothing about it; it needs numerical analysis or input-space testing. "
NAX = {
    "N01": "Convergence order is a limit over step sizes of a pure computation. The scheme actually used is pinned by C02 and C04 against independent tableaux.",
    "N02": "Accuracy of the psi functions over the complex plane is a numerical-analysis statement; C02 notices coefficient errors at the step sizes it simulates.",
    "N03": "Spectral exactness is a statement about pure functions of arrays; C15 covers only their statelessness.",
    "N04": "Point counts depend on the arguments alone. (Reading the code for it found a defect all the same; repaired, see DESIGN.md.)",
    "N05": "Transform accuracy depends on the arguments alone; C13 covers the state of the transform object.",
    "N06": "Consistency of the discretisation is a statement about pure functions; C15 covers only their statelessness.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for p in props:
        if p["id"] not in TECH:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": PY + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough " + PY + p["id"],
            "technique": "deterministic simulation with fault injection: " + TECH[p["id"]],
            "level": "exploration",
            "level_note": "Seeded random search over scenarios: a quiet run is evidence over the runs listed in the evidence file, not proof. "
                          "All package code, NumPy and SciPy run for real; the caller side (nonlinear function, interrupts, allocation failures, "
                          "log stream, clock, thread scheduler) is simulated. Trusts the reference computations in sim/ref.py and sim/*.py, "
                          "and that asynchronous exceptions arrive where CPython 3.12 delivers them: function entry, return of a call, loop back-edge, and for failed allocations also array arithmetic.",
        })
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -B sim/main.py --setup",
         "checks": checks,
         "not_applicable": [{"property": k, "reason": NA + NAX[k]} for k in sorted(NAX)],
         "notes": "No hooks in /repo: the code's own seams (the nonlinear function argument, logging, interpreter trace events) carry every fault. "
                  "VERIF_SEED selects the seed; run i of n is generated from (seed, property, i) alone, whatever the number of workers. "
                  "Replay: python -B sim/main.py <ID> --replay <file>."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
