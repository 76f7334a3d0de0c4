"""Seeded search over scenarios: one forked process per run, minimisation, replay, evidence."""
import collections
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback

import boot
from env import SimBudget
from problems import Gen
from simlib import Run, Violation, cp

HERE = os.path.dirname(os.path.realpath(__file__)) + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINE_LIMIT = 6_000_000          # package lines per run: beyond it, the run hangs
RUN_WALL = 300                  # s; only guards the harness itself


# --------------------------------------------------------------------------
# the deterministic work limit
# --------------------------------------------------------------------------
class LineLimit:
    """Counts package lines with sys.monitoring; past the limit every further line raises."""

    def __init__(self, limit):
        self.n, self.limit, self.hung = 0, limit, False

    def start(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "verif")
        m.register_callback(m.PROFILER_ID, m.events.LINE, self._line)
        m.set_events(m.PROFILER_ID, m.events.LINE)

    def _line(self, code, line):
        if not code.co_filename.startswith(boot.PKG):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.hung = True
            self.limit += 2000
            raise SimBudget("line limit")


def raised_in_package(tb):
    """True if the innermost code that is either ours or the package's is the package's."""
    for f in reversed(tb):
        name = os.path.realpath(f.filename)
        if name.startswith(boot.PKG):
            return True
        if name.startswith(HERE):
            return False
    return False


def execute(prop, scen):
    """Run one scenario in this process.  Returns a picklable result."""
    run = Run(scen)
    lim = LineLimit(LINE_LIMIT)
    lim.start()
    viol = None
    err = None
    try:
        prop.execute(run)
    except Violation as v:
        viol = (v.cls, str(v.msg)[:600])
    except SimBudget as e:
        if not lim.hung:
            run.probe["inconclusive: " + str(e)] += 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
        if scen is None or isinstance(e, (MemoryError, OSError)):
            err = traceback.format_exc()
        elif raised_in_package(tb):
            # a call the property says succeeds
            viol = ("crash", at[:600])
        elif isinstance(e, (AttributeError, ImportError, NameError, RuntimeError)):
            err = traceback.format_exc()
        else:
            # what the package returned or left behind could not even be looked at as the property requires
            viol = ("malformed", at[:600])
    if lim.hung:
        viol = ("hang", "no end after %d lines of package code" % LINE_LIMIT)
        err = None
    return {"viol": viol, "err": err, "dig": run.dig.hex(), "fired": dict(run.env.fired), "probe": dict(run.probe),
            "simtime": run.simtime, "evals": run.evals, "key": run.key, "nontrivial": run.nontrivial,
            "real": dict(run.real), "calls": sum(v for v in run.env.calls.values()), "lines": lim.n,
            "extra": getattr(run, "extra", None)}


def forked(fn, timeout=RUN_WALL):
    """Run fn() in a fresh child and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = fn()
            except BaseException:  # noqa: BLE001
                out = {"viol": None, "err": "child: " + traceback.format_exc()}
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    dead = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            dead = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    if dead:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if dead:
        return {"viol": None, "err": "run exceeded %d s" % timeout}
    if not buf:
        return {"viol": None, "err": "run ended without a result"}
    return pickle.loads(bytes(buf))


def scenario(prop, seed, i, tier):
    g = Gen(random.Random("%s/%s/%d" % (seed, prop.id, i)))
    s = prop.gen(g, tier)
    return json.loads(json.dumps(s))       # what is executed is what a replay file holds


def one(prop, s, i):
    """Execute scenario s in a process of its own (generation ran elsewhere: nothing leaks in)."""
    def f():
        out = execute(prop, s)
        out["i"] = i
        if out["viol"] or out["err"] or i < 6:
            out["scen"] = s
        return out
    out = forked(f)
    if out.get("err"):
        out.setdefault("scen", s)
        for k, v in (("fired", {}), ("probe", {}), ("real", {}), ("dig", None), ("nontrivial", False)):
            out.setdefault(k, v)
    out.setdefault("i", i)
    return out


def scenarios(prop, seed, tier, idx, chunk=64):
    for a in range(0, len(idx), chunk):
        part = idx[a:a + chunk]
        got = forked(lambda: {"s": [scenario(prop, seed, i, tier) for i in part]})
        if "s" not in got:
            for i in part:
                yield i, None, got["err"]
            continue
        for i, s in zip(part, got["s"]):
            yield i, s, None


# --------------------------------------------------------------------------
# pool
# --------------------------------------------------------------------------
def search(prop, seed, tier, n, workers, stop_first=True):
    """Runs 0..n-1 on `workers` processes; the outcome does not depend on `workers`."""
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                f = os.fdopen(wr, "wb")
                for i, s, e in scenarios(prop, seed, tier, list(range(w, n, workers))):
                    if e is None:
                        out = one(prop, s, i)
                    else:
                        out = {"i": i, "viol": None, "err": "generation: " + e, "fired": {}, "dig": None, "nontrivial": False}
                    pickle.dump(out, f)
                    f.flush()
                    if stop_first and (out["viol"] or out["err"]):
                        break
                f.close()
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    res = []
    buf = {r: bytearray() for _, r in pipes}
    open_ = set(buf)
    while open_:
        for r in select.select(list(open_), [], [])[0]:
            b = os.read(r, 1 << 18)
            if b:
                buf[r] += b
            else:
                open_.discard(r)
    for pid, r in pipes:
        os.close(r)
        os.waitpid(pid, 0)
        import io
        f = io.BytesIO(bytes(buf[r]))
        while True:
            try:
                res.append(pickle.load(f))
            except EOFError:
                break
            except Exception:
                break
    res.sort(key=lambda o: o["i"])
    return res


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
LISTS = ("ops", "faults", "switches", "order", "clients", "assign", "watch")


def _paths(x, path=()):
    """All lists in the scenario that may be shortened, outermost first."""
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            if k in LISTS and isinstance(x[k], list) and x[k]:
                out.append(path + (k,))
            out += _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                out += _paths(v, path + (i,))
    return out


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _set(x, path, v):
    y = cp(x)
    _get(y, path[:-1])[path[-1]] = v
    return y


def shrinks(prop, s):
    """Candidate simplifications of a scenario, boldest first."""
    for p in _paths(s):
        lst = _get(s, p)
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if prop.keep(p, lst, a, size):
                    continue
                yield _set(s, p, lst[:a] + lst[a + size:])
            size //= 2
    yield from prop.simplify(s)


def minimise(prop, scen, cls, cap_s=75, cap_n=600):
    t0, tried, best = time.monotonic(), 0, scen
    seen = set()

    def fails(s):
        o = forked(lambda: execute(prop, s), timeout=60)
        return bool(o.get("viol")) and o["viol"][0] == cls
    progress = True
    while progress:
        progress = False
        for c in shrinks(prop, best):
            if time.monotonic() - t0 > cap_s or tried >= cap_n:
                return best, tried
            k = json.dumps(c, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            if fails(c):
                best = c
                progress = True
                break
    return best, tried


# --------------------------------------------------------------------------
# the check
# --------------------------------------------------------------------------
def known_findings(prop_id):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == prop_id and k["status"] == "known"]


def replay_file(prop, path):
    with open(path) as fh:
        rec = json.load(fh)
    out = forked(lambda: execute(prop, rec["scenario"]))
    return rec, out


def check(prop, seed, tier, workers=None, n=None, replay_dir=None, evidence=True):
    t0 = time.monotonic()
    workers = workers or min(8, os.cpu_count() or 1)
    n = n or (prop.quick if tier == "quick" else prop.thorough)
    print("seed=%s property=%s tier=%s runs=%d workers=%d" % (seed, prop.id, tier, n, workers), flush=True)
    res = search(prop, seed, tier, n, workers)
    code, viols = 0, 0
    known = known_findings(prop.id)
    hit = {}
    first = None
    for o in res:
        if o["viol"]:
            k = next((k for k in known if k["class"] == o["viol"][0] and re.search(k["match"], o["viol"][1])), None)
            if k:
                hit[k["what"]] = hit.get(k["what"], 0) + 1
            elif first is None:
                first = o
                viols += 1
        if o["err"] and first is None:
            first = o
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    if first is not None and first["viol"]:
        cls, msg = first["viol"]
        print("run %d: [%s] %s" % (first["i"], cls, msg), flush=True)
        orig = first["scen"]
        c = prop.concretise(orig, first.get("extra"))
        if c is not orig:
            o = forked(lambda: execute(prop, c))
            if o.get("viol") and o["viol"][0] == cls:
                orig = c
        small, tried = minimise(prop, orig, cls)
        d = replay_dir or os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%s-run%d.json" % (prop.id, seed, first["i"]))
        for cand, note in ((small, "minimised in %d trials" % tried), (orig, "not minimised")):
            a = forked(lambda: execute(prop, cand))
            rec = {"property": prop.id, "seed": seed, "run": first["i"], "note": note, "class": cls,
                   "message": (a["viol"] or ["", ""])[1], "digest": a.get("dig"), "fired": a.get("fired"), "scenario": cand}
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1, sort_keys=True)
            # replay in a fresh interpreter, with another hash seed
            import subprocess
            env = dict(os.environ, PYTHONHASHSEED="7")
            r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "sim", "main.py"), prop.id, "--replay", path],
                               env=env, capture_output=True, text=True, timeout=400)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                break
        print("message: %s" % rec["message"])
        print("replay verified in a fresh interpreter: %s (%s)" % (r.returncode == 1, note))
        print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
        code = 1
    elif first is not None:
        print("ERROR in run %d:\n%s" % (first["i"], first["err"]))
        if first.get("scen"):
            print(json.dumps(first["scen"]))
        code = 2
    elif len(res) != n:
        print("ERROR: %d of %d runs reported" % (len(res), n))
        code = 2
    wall = time.monotonic() - t0
    if evidence and code in (0, 1):
        write_evidence(prop, seed, tier, res, wall, viols, n, workers)
    done = [o for o in res if not o["err"]]
    print("runs=%d distinct=%d nontrivial=%d faults=%d wall=%.1fs" % (
        len(done), len({o["dig"] for o in done}), len({o["dig"] for o in done if o["nontrivial"]}),
        sum(sum(o["fired"].values()) for o in done), wall))
    return code


def write_evidence(prop, seed, tier, res, wall, viols, n, workers):
    fired, probe, real = collections.Counter(), collections.Counter(), collections.Counter()
    for o in res:
        if o["err"]:
            continue
        fired.update(o["fired"])
        probe.update(o["probe"])
        real.update(o["real"])
    ok = [o for o in res if not o["err"]]
    cov = {"evaluations": len(ok),
           "distinct_nontrivial": len({o["dig"] for o in ok if o["nontrivial"]}),
           "rule": prop.rule,
           "samples": [{"run": o["i"], "scenario": trim(o["scen"]), "digest": o["dig"]} for o in ok if "scen" in o][:3],
           "simulated_runs": len(ok), "runs_per_hour": round(len(ok) * 3600 / max(wall, 1e-9)),
           "seeds": "run i of n uses random.Random('%s/%s/i')" % (seed, prop.id),
           "simulated_time": {"units": "problem time scales integrated", "total": round(sum(o["simtime"] for o in ok), 3)},
           "fault_kinds_injected": dict(sorted(fired.items())),
           "distinct_executions": len({o["dig"] for o in ok}),
           "distinct_interleavings": len({o["key"] for o in ok if o["key"]}),
           "rare_conditions_reached": dict(sorted(probe.items())),
           "oracle_comparisons": sum(o["evals"] for o in ok),
           "nonlinear_function_calls": sum(o["calls"] for o in ok),
           "package_lines_executed": sum(o["lines"] for o in ok),
           "components": {"real": prop.real, "driven": dict(sorted(real.items())), "stub": prop.stub},
           "workers": workers}
    ev = {"property": prop.id, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "exploration", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 3), "violations": viols}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop.id)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop.id + ".json"))


def trim(s):
    t = json.dumps(s)
    return s if len(t) < 4000 else {"text": t[:4000]}
