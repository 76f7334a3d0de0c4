#!/usr/bin/env python
"""main.py PID [--replay FILE] [--runs N] [--workers W] [--tier T] [--digests 1] [--no-evidence 1]
   main.py --setup | --selftest [RUNS]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402
import driver  # noqa: E402
from registry import PROPS  # noqa: E402


def selftest(argv):
    """Every property: the same runs on 8 workers and on 3 must have the same digests."""
    n = int(argv[1]) if len(argv) > 1 else 24
    seed = os.environ.get("VERIF_SEED", "1")
    bad = 0
    for pid in sorted(PROPS):
        got = [[(o["i"], o.get("dig"), o["viol"], bool(o["err"])) for o in driver.search(PROPS[pid], seed, "quick", n, w, stop_first=False)]
               for w in (8, 3)]
        same = got[0] == got[1] and len(got[0]) == n
        bad += not same
        print("%s: %d runs twice, %s" % (pid, n, "identical" if same else "DIFFERENT"), flush=True)
    return 1 if bad else 0


def main(argv):
    if argv[0] == "--setup":
        print("ready: %d properties, package %s" % (len(PROPS), boot.PKG))
        return 0
    if argv[0] == "--selftest":
        return selftest(argv)
    prop = PROPS[argv[0]]
    opt = dict(zip(argv[1::2], argv[2::2]))
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in opt:
        tier = opt["--tier"]
    if "--replay" in opt:
        rec, out = driver.replay_file(prop, opt["--replay"])
        if out["err"]:
            print("ERROR: " + out["err"])
            return 2
        if out["viol"]:
            print("class=%s same_class=%s same_message=%s same_digest=%s" % (
                out["viol"][0], out["viol"][0] == rec["class"], out["viol"][1] == rec["message"], out["dig"] == rec["digest"]))
            print("message: " + out["viol"][1])
            print("VIOLATION property=%s replay=%s" % (prop.id, opt["--replay"]))
            return 1
        print("no violation on replay")
        return 0
    w = int(opt["--workers"]) if "--workers" in opt else None
    n = int(opt["--runs"]) if "--runs" in opt else None
    if "--digests" in opt:       # determinism self-test: one line per run
        for o in driver.search(prop, seed, tier, n, w or 8, stop_first=False):
            print(o["i"], o.get("dig"), o["viol"] and o["viol"][0], (o["err"] or "")[-80:].replace("\n", " "))
        return 0
    return driver.check(prop, seed, tier, workers=w, n=n, evidence="--no-evidence" not in opt)


if __name__ == "__main__":
    # solvers log to stderr; nobody reads it
    if os.environ.get("VERIF_STDERR") != "1":
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 2)
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        print("ERROR: " + traceback.format_exc())
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
