"""Problems and solvers built from JSON specs, and the generator of such specs."""
import hashlib
import math
import random

import numpy as np

from boot import (CLASSES, ADAPTIVE, FORMS, IS_ETD, SolverConfig, ETDConfig, models, grids)


# --------------------------------------------------------------------------
# building from specs
# --------------------------------------------------------------------------
def carr(pairs, dtype):
    a = np.array([complex(r, i) for r, i in pairs], dtype=np.complex128)
    if dtype == "complex":
        return a
    if dtype == "int":
        return np.array([int(r) for r, _ in pairs])
    return a.real.copy()


def basis(mat, n):
    r = random.Random("mat/%s" % mat["seed"])
    A = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    if mat["kind"] in ("orth", "sym"):
        q, _ = np.linalg.qr(A)
        return q
    return np.eye(n) + 0.25 * np.triu(A, 1)


def laid(a, how):
    """The same array laid out in memory in another way."""
    if how == "strided":
        b = np.full(tuple(3 * x for x in a.shape), 7, dtype=a.dtype)
        c = b[tuple(slice(1, None, 3) for _ in a.shape)]
        c[...] = a
        return c
    if how == "reversed":
        b = np.array(a[(slice(None, None, -1),) * a.ndim])
        return b[(slice(None, None, -1),) * a.ndim]
    if how == "F":
        return np.array(a, order="F")
    if how == "swapped":        # of the other byte order
        return a.astype(a.dtype.newbyteorder())
    if how == "unaligned":
        b = np.zeros(a.nbytes + 3, dtype=np.uint8)
        c = b[3:].view(a.dtype).reshape(a.shape)
        c[...] = a
        return c
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


LAYOUTS = ("strided", "reversed", "F", "unaligned", "readonly")


def lin_op(p):
    return laid(lin_op_(p), p["lay"][0]) if p.get("lay") else lin_op_(p)


def lin_op_(p):
    if p.get("model"):
        return model_parts(p)[0]
    lam = carr(p["lam"], p.get("ldtype", "complex")) / (p["tau"] if p.get("ldtype") != "int" else 1)
    if p["form"] == "diag":
        return lam
    if not p.get("mat"):
        return np.diag(lam)
    S = basis(p["mat"], len(lam))
    D = np.diag(lam)
    for i, b in p["mat"].get("rot", []):      # a complex pair in a real operator
        b = b / p["tau"]
        D[i + 1, i + 1], D[i, i + 1], D[i + 1, i] = D[i, i], b, -b
    for i, b in p["mat"].get("jordan", []):   # not diagonalisable
        D[i + 1, i + 1], D[i, i + 1] = D[i, i], b / p["tau"]
    if D.any() and (p["mat"].get("rot") or p["mat"].get("jordan")):
        A = S @ D @ np.linalg.inv(S)
        return A.T.copy() if p["mat"].get("T") else A
    if p["mat"]["kind"] == "sym":      # (complex) symmetric to the last bit
        A = S @ np.diag(lam) @ S.T
        return (A + A.T) / 2
    A = S @ D @ np.linalg.inv(S)
    return A.T.copy() if p["mat"].get("T") else A


def spectrum(p):
    """(eigenvalues, matrix of eigenvectors, its inverse) the operator was built from; None if it has none."""
    lam = carr(p["lam"], "complex") / (p["tau"] if p.get("ldtype") != "int" else 1)
    n = len(lam)
    if not p.get("mat"):
        return lam, np.eye(n), np.eye(n)
    if p["mat"].get("jordan"):
        return None
    S = basis(p["mat"], n)
    B = np.eye(n, dtype=np.complex128)
    for i, b in p["mat"].get("rot", []):
        b = b / p["tau"]
        lam[i], lam[i + 1] = lam[i] + 1j * b, lam[i] - 1j * b
        B[i:i + 2, i:i + 2] = np.array([[1, 1], [1j, -1j]]) / math.sqrt(2)
    if p["mat"].get("rot"):
        S = S @ B
    Sinv = np.linalg.inv(S)
    if p["mat"].get("T"):
        return lam, Sinv.T.copy(), S.T.copy()
    return lam, S, Sinv


def u_init(p):
    if p.get("model"):
        u = model_parts(p)[2]
    else:
        u = carr(p["u0"], p.get("udtype", "complex"))
    return laid(u, p["lay"][1]) if p.get("lay") else u


def model_parts(p):
    n = p["n"]
    if p["model"] in ("burgers", "kdv"):
        x, kx = grids.construct_x_kx_rfft(n, -np.pi, np.pi)
        u = p["amp"] * np.exp(-4 * x[:n] ** 2) * np.cos(p["k"] * x[:n])
        if p["model"] == "burgers":
            L, nl = models.burgers_ops(kx, p["mu"])
        else:
            L, nl = models.kdv_ops(kx)
        return L, nl, np.fft.rfft(u)
    x, D = grids.construct_x_dx_cheb(n, -1, 1)
    L, nl = models.allen_cahn_ops(x, D, p["mu"])
    xs = x[1:-1].ravel()
    u = (p["amp"] * np.sin(np.pi * p["k"] * xs)) * (1 - xs ** 2)
    return L, nl, u.astype(np.complex128)


def pure_nl(p):
    """The problem's nonlinear function as a pure function of its argument."""
    if p.get("model"):
        return model_parts(p)[1]
    s = p["nl"]
    k, a, b, tau = s["kind"], s.get("a", 1.0), s.get("b", 1.0), p["tau"]

    if k == "zero":
        return lambda u: np.zeros_like(u, dtype=np.result_type(u, float))
    if k == "const":
        n = len(p["u0"])
        c = np.resize(carr(s["c"], p.get("udtype", "complex")), n) / tau
        return lambda u: c  # the very same array every time
    if k == "equil":
        L = lin_op(p)
        if L.ndim == 1:
            return lambda u: -(L * u)
        return lambda u: -(L.dot(u))

    def f(u):
        u = np.asarray(u)
        m2 = np.abs(u) ** 2
        if k == "lin":
            v = a * u
        elif k == "poly":
            v = a * u - b * u * m2
        elif k == "sat":
            v = a * u / (1 + m2) + b * np.roll(u, 1) / (1 + m2)
        elif k == "rot":
            v = a * np.roll(u, 1) * np.conj(u) / (1 + m2) - b * u
        elif k == "spiky":
            v = a * np.exp(-np.abs(u - s["c"]) ** 2 / s["w"]) * np.ones_like(u)
        elif k == "trig":
            v = a * np.sin(b * u.real)
            if np.iscomplexobj(u):
                v = v + 1j * a * np.sin(b * u.imag)
        elif k == "domain":
            v = a * np.sqrt(b - m2) * np.ones_like(u) - 0.5 * u
        elif k == "wall":
            v = np.where(m2 > b, s.get("big", 1e30) * np.ones_like(u), a * u)
        elif k == "switch":
            v = np.where(u.real > s["c"], a, -a) * np.ones_like(u) - b * u
        else:
            raise ValueError(k)
        return v / tau

    def quiet(u):
        with np.errstate(all="ignore"):
            return f(u)
    return quiet if not s.get("loud") else f


def mkconfig(c):
    return None if c is None else SolverConfig(**c)


def mketd(c):
    return None if c is None else ETDConfig(**c)


def make_solver(p, nl, config=None, etd=None, lin=None, loglevel=None):
    """Construct the solver of spec p.  config/etd may be ready-made objects."""
    cls = p["cls"]
    kw = {}
    config = config if config is not None else mkconfig(p.get("config"))
    etd = etd if etd is not None else mketd(p.get("etd"))
    if config is not None and cls in ADAPTIVE:
        kw["config"] = config
    if etd is not None and IS_ETD[cls]:
        kw["etd_config"] = etd
    if p["form"] == "eig":
        kw["diagonalize"] = True
    if loglevel is not None:
        kw["loglevel"] = loglevel
    return CLASSES[cls](lin_op(p) if lin is None else lin, nl, **kw)


def with_form(p, form):
    q = dict(p)
    q["form"] = form
    return q


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------
class Gen:
    """Draws specs; every draw comes from the one seeded generator."""

    def __init__(self, rng):
        self.r = rng

    def logu(self, lo, hi):
        return 10 ** self.r.uniform(lo, hi)

    def pick(self, *xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def lam(self, n, kind, real, nz=False, cap=None):
        r = self.r
        out = []
        for i in range(n):
            k = kind if kind != "mixed" else r.choice(["mild", "stiff", "osc", "tiny", "zero"])
            if k == "mild":
                z = complex(r.uniform(-1.5, 1), 0 if real else r.uniform(-1, 1))
            elif k == "stiff":
                z = complex(-self.logu(0, 3.3), 0 if real else r.uniform(-1, 1))
            elif k == "osc":
                z = complex(r.uniform(-.5, 0), 0 if real else r.uniform(-30, 30))
            elif k == "tiny":
                z = complex(-self.logu(-12, -3), 0)
            elif k == "near":   # |h*lam| near the small-mode cutoff
                z = complex(-self.logu(-2, 1), 0)
            else:
                z = 0j
            if nz and abs(z) < 1e-2:
                z = complex(-0.1 - 0.3 * r.random(), 0)
            if cap and abs(z) > cap:
                z = z * (cap * (0.2 + 0.8 * r.random()) / abs(z))
            out.append([z.real, z.imag if not real else 0.0])
        if nz:  # keep the eigenvalues apart: the eigenvector basis must be usable
            for i in range(n):
                out[i][0] -= 0.037 * i * (1 if cap is None else min(1, cap))
        return out

    def state(self, n, real, kind=None):
        r = self.r
        kind = kind or r.choice(["unit", "unit", "unit", "unit", "ranges", "small", "sparse", "imag"])
        out = []
        for _ in range(n):
            if kind == "zero":
                a = 0j
            elif kind == "ranges":
                a = self.logu(-6, 0.3) * (1 if r.random() < .5 else -1) + 0j
            elif kind == "small":
                a = complex(r.uniform(-1, 1), r.uniform(-1, 1)) * 1e-3
            elif kind == "imag":
                a = 1j * r.uniform(-1.2, 1.2) if not real else r.uniform(-1.2, 1.2) + 0j
            elif kind == "sparse" and r.random() < .5:
                a = 0j
            else:
                a = complex(r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2))
            out.append([a.real, 0.0 if real else a.imag])
        if kind == "sparse" and not any(abs(x) + abs(y) for x, y in out):
            out[0] = [0.5, 0.0]
        return out

    def nl(self, kinds=None):
        r = self.r
        k = r.choice(kinds or ["poly", "poly", "sat", "rot", "spiky", "trig", "trig", "lin", "switch"])
        s = {"kind": k, "a": r.choice([-1, 1]) * self.logu(-1, 1), "b": self.logu(-1, .7)}
        if k == "spiky":
            s["c"] = r.uniform(-1, 1)
            s["w"] = self.logu(-3, 0)
            s["a"] *= 2
        elif k == "switch":
            s["c"] = r.uniform(-.6, .6)
        elif k == "domain":
            s["b"] = r.uniform(1.5, 4)
            s["a"] = self.logu(-.3, 1)
        elif k == "wall":
            s["b"] = r.uniform(1.5, 4)
            s["big"] = r.choice([1e30, 1e155, 1e300, float("inf"), float("nan")])
            s["a"] = self.logu(-.5, .6)
        elif k == "const":
            s["c"] = [[r.uniform(-1, 1), r.uniform(-1, 1)] for _ in range(64)]
        elif k == "poly":
            s["a"] = r.uniform(-2, 2)
        return s

    def config(self, tau=1.0, wide=False):
        r = self.r
        return {"epsilon": self.logu(-7.5, -2), "incr_f": r.choice([1.05, 1.25, 1.25, 1.5, r.uniform(1.01, 3.9), r.uniform(1.01, 3.9) if r.random() < .7 else r.choice([4.0, 4.5, 10.0])]),
                "decr_f": r.choice([.85, .85, .5, r.uniform(.27, .97)]),
                "safety_f": r.choice([.8, .8, .9, 1.0, r.uniform(.4, 1)]),
                "adapt_cutoff": r.choice([.01, .01, 0.0, self.logu(-6, -.5)]),
                "minh": r.choice([1e-16, 1e-16, 1e-10, 1e-30]) * tau}

    def etd(self, full):
        r = self.r
        if full:
            return {"modecutoff": r.choice([.01, .1, .3]), "contour_points": r.choice([32, 32, 40, 64]),
                    "contour_radius": r.choice([1.7, 2.0, 2.5])}
        return {"modecutoff": r.choice([.05, .1, .2, .5, r.uniform(.05, .6)]),
                "contour_points": r.choice([32, 32, 24, 64]),
                "contour_radius": r.choice([1.0, 1.0, 1.5, 2.0])}

    def tau(self):
        return self.r.choice([1.0, 1.0, 1.0, 1e-3, 1e-9, 1e4])

    def problem(self, cls=None, form=None, nls=None, defaults_ok=True, model_p=0.0, nmax=6, tame=False, tau=None):
        r = self.r
        cls = cls or r.choice(sorted(CLASSES))
        form = form or r.choice(FORMS[cls])
        if model_p and r.random() < model_p:
            q = self.model(cls, form)
            if q:
                return q
        n = r.randint(1, nmax)
        if nmax >= 6 and r.random() < .03:
            n = r.choice([9, 17, 24, 33, 40])
            if form == "diag" and not model_p == 0 and r.random() < .4:
                n = r.choice([64, 65, 100, 128, 129, 200, 256, 300])
        real = r.random() < .45
        ldt = "float" if real else "complex"
        tau = self.tau() if tau is None else tau
        kind = r.choice(["mild", "stiff", "osc", "mixed", "mixed", "tiny", "zero", "near", "near"])
        cap = None
        if form == "full":
            cap = 0.3 if IS_ETD[cls] else 3.0
        elif form == "eig":
            cap = 20.0
        if tame:
            cap = min(cap or 1.0, 1.0)
        p = {"cls": cls, "form": form, "n": n, "tau": tau, "ldtype": ldt,
             "lam": self.lam(n, kind, real, nz=(form == "eig"), cap=cap),
             "nl": self.nl(nls), "u0": self.state(n, real), "udtype": ldt,
             "config": self.config(tau), "etd": self.etd(form == "full")}
        if not real and r.random() < .25:
            p["udtype"] = "float"
            p["u0"] = [[x, 0.0] for x, _ in p["u0"]]
        elif real and r.random() < .08:          # integer data
            p["udtype"] = "int"
            p["u0"] = [[float(r.choice([-1, 0, 1, 1, 2])), 0.0] for _ in p["u0"]]
        if real and form == "diag" and tau == 1.0 and r.random() < .06:
            p["ldtype"] = "int"
            p["lam"] = [[float(r.choice([-3, -2, -1, -1, 0, 1, -20])), 0.0] for _ in p["lam"]]
        if form != "diag" and r.random() < .8:
            p["mat"] = {"seed": r.randint(0, 10 ** 6), "kind": r.choice(["orth", "shear", "sym"])}
            if r.random() < .25 and n > 1:      # a repeated eigenvalue
                p["lam"] = p["lam"][:n - 1] + [list(p["lam"][0])]
        elif form != "diag":
            p["mat"] = None
        if p.get("mat"):
            self.shape(p, cap)
        if defaults_ok and r.random() < .1:
            p["config"] = None
        if defaults_ok and r.random() < .1 and form != "full":
            p["etd"] = None
        return p

    def relay(self, p, prob=.1):
        """Now and then, arrays laid out in memory in other ways."""
        if self.r.random() < prob:
            p["lay"] = [self.r.choice(LAYOUTS), self.r.choice(LAYOUTS)]
        return p

    def shape(self, p, cap):
        """Complex pairs in real operators, operators that cannot be diagonalised, transposes."""
        r, n, m = self.r, p["n"], p["mat"]
        if n < 2 or m["kind"] == "sym":
            return
        if r.random() < .3:
            m["T"] = True
        cap = min(cap or 3.0, 3.0)
        x = r.random()
        if x < .45 and p["ldtype"] == "float":
            i = r.randint(0, n - 2)
            m["rot"] = [[i, r.choice([-1, 1]) * cap * r.uniform(.1, .7)]]
            if n > i + 3 and r.random() < .4:
                m["rot"].append([i + 2, cap * r.uniform(.1, .7)])
        elif x < .65 and p["form"] == "full":
            i = r.randint(0, n - 2)
            m["jordan"] = [[i, cap * r.uniform(.1, .7)]]

    def model(self, cls, form):
        r = self.r
        if form == "diag":
            m = r.choice(["burgers", "kdv"])
            return {"cls": cls, "form": form, "model": m, "n": r.choice([8, 16, 32]), "amp": r.uniform(.3, 2),
                    "k": r.randint(0, 2), "mu": self.logu(-2, 0), "tau": 1.0 if m == "burgers" else 1e-2,
                    "config": self.config(), "etd": self.etd(False)}
        if form == "eig" or not IS_ETD[cls]:
            return {"cls": cls, "form": form, "model": "allen_cahn", "n": r.choice([6, 8, 10]),
                    "amp": r.uniform(.1, .6), "k": r.randint(1, 3), "mu": 10 ** r.uniform(-3, -2), "tau": 1.0,
                    "config": self.config(), "etd": self.etd(False)}
        return None

    def h(self, p, lo=-2.3, hi=-0.3):
        return p["tau"] * self.logu(lo, hi)


class Digest:
    def __init__(self):
        self.h = hashlib.sha256()

    def add(self, *xs):
        for x in xs:
            if isinstance(x, np.ndarray):
                self.h.update(str(x.dtype).encode())
                self.h.update(np.ascontiguousarray(x).tobytes())
            elif isinstance(x, float):
                self.h.update(x.hex().encode())
            else:
                self.h.update(repr(x).encode())
            self.h.update(b"|")

    def hex(self):
        return self.h.hexdigest()[:16]


def finite(u):
    return bool(np.all(np.isfinite(u)))


def relerr(a, b, floor=0.0):
    """max|a-b| relative to the larger of the two (inf if shapes or non-finite patterns differ)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return math.inf
    if a.size == 0:
        return 0.0
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return math.inf
    if not fa.any():
        return 0.0
    a, b = a[fa], b[fb]
    s = max(float(np.max(np.abs(a))), float(np.max(np.abs(b))), floor)
    d = float(np.max(np.abs(a - b)))
    if d == 0:
        return 0.0
    return d / s if s > 0 else math.inf
