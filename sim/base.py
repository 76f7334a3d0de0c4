"""What a property module provides to the driver."""
import copy


class Prop:
    id = None
    quick, thorough = 400, 8000
    rule = ""
    real = "all package code (solvers, coefficient computation, settings, logging helper), NumPy and SciPy"
    stub = ("caller side only: nonlinear function (simulated, fault-injecting), interrupts and failed allocations (raised at "
            "chosen lines), log stream, thread scheduler")
    assumptions = ["the nonlinear function is deterministic apart from injected faults",
                   "seeded sampling: a quiet run is evidence, not proof"]

    def gen(self, g, tier):
        raise NotImplementedError

    def execute(self, run):
        raise NotImplementedError

    def keep(self, path, lst, a, size):
        """True if this slice of a list must not be dropped while minimising."""
        return False

    def concretise(self, s, extra):
        return s

    def simplify(self, s):
        """Generic simplifications of problem specs and numbers."""
        for path, p in _problems(s):
            if p.get("lay"):
                yield _with(s, path, {k: v for k, v in p.items() if k != "lay"})
            if p.get("model"):
                continue
            n = len(p["u0"])
            for m in sorted({1, 2, n // 2, n - 1}):
                if 1 <= m < n:
                    yield _with(s, path, dict(p, n=m, u0=p["u0"][:m], lam=p["lam"][:m]))
            if p["tau"] != 1.0:
                yield _with(s, path, dict(p, tau=1.0))
            if p.get("mat") and p["form"] != "diag":
                yield _with(s, path, dict(p, mat=None))
            for k, v in (("a", 1.0), ("b", 1.0)):
                if p["nl"].get(k) not in (None, v):
                    yield _with(s, path, dict(p, nl=dict(p["nl"], **{k: v})))
            if p.get("config") and p["cls"] in ("ETD34", "ETD35", "IF34", "IF45DP"):
                for k in sorted(p["config"]):
                    c = {a: b for a, b in p["config"].items() if a != k}
                    if c:
                        yield _with(s, path, dict(p, config=c))
            if any(abs(r) + abs(i) for r, i in p["lam"]) and p["form"] != "eig":
                yield _with(s, path, dict(p, lam=[[-0.5, 0.0]] * n))
            for key in ("lam", "u0"):
                q = [[_round(r), _round(i)] for r, i in p[key]]
                if q != p[key]:
                    yield _with(s, path, dict(p, **{key: q}))


def _round(x):
    return float("%.2g" % x)


def _problems(x, path=()):
    out = []
    if isinstance(x, dict):
        if "cls" in x and "u0" in x:
            out.append((path, x))
        for k in sorted(x):
            out += _problems(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += _problems(v, path + (i,))
    return out


def _with(s, path, v):
    if not path:
        return v
    y = copy.deepcopy(s)
    z = y
    for k in path[:-1]:
        z = z[k]
    z[path[-1]] = v
    return y
