"""Independent reference model: the one-step maps as tableaux, and the step-size controller.

Exponential functions are evaluated in the eigenbasis the problem was built from (or by
augmented matrix exponentials), never by contour sums; nothing is cached between steps.
"""
import copy
import math

import numpy as np
import scipy.linalg

from problems import lin_op, spectrum

# psi_k = k! phi_k.  Entry (w, k, c): w * psi_k(c z); all multiplied by h.
_K = {2: {1: [(.5, 1, .5)]},
      3: {1: [(.5, 1, .5), (-.5, 2, .5)], 2: [(.5, 2, .5)]},
      4: {1: [(1, 1, 1), (-1, 2, 1)], 3: [(1, 2, 1)]}}
_KB = {1: [(1, 1, 1), (-1.5, 2, 1), (2 / 3, 3, 1)], 2: [(1, 2, 1), (-2 / 3, 3, 1)],
       3: [(1, 2, 1), (-2 / 3, 3, 1)], 4: [(-.5, 2, 1), (2 / 3, 3, 1)]}
_W = {2: {1: [(1 / 4, 1, .25)]},
      3: {1: [(1 / 4, 1, .25), (-1 / 8, 2, .25)], 2: [(1 / 8, 2, .25)]},
      4: {1: [(.5, 1, .5), (-.5, 2, .5)], 3: [(.5, 2, .5)]},
      5: {1: [(3 / 4, 1, .75), (-9 / 16, 2, .75)], 2: [(-3 / 8, 1, .75)], 3: [(3 / 8, 1, .75)],
          4: [(9 / 16, 2, .75)]},
      6: {1: [(-77 / 42, 1, 1), (59 / 42, 2, 1)], 2: [(8 / 7, 1, 1)], 3: [(111 / 28, 1, 1), (-87 / 28, 2, 1)],
          4: [(-12 / 7, 1, 1)], 5: [(-47 / 84, 1, 1), (143 / 84, 2, 1)]}}
_W5 = [(-313 / 1350, 1, 1), (883 / 1350, 2, 1), (-90 / 1350, 3, 1)]
_WB = {1: [(7 * 257 / 2700, 1, 1), (-7 * 497 / 2700, 2, 1), (7 * 270 / 2700, 3, 1)],
       3: [(1097 / 1350, 1, 1), (-467 / 1350, 2, 1), (-150 / 1350, 3, 1)],
       4: [(-98 / 225, 1, 1), (398 / 225, 2, 1), (-270 / 225, 3, 1)],
       5: _W5, 6: [(509 / 2700, 1, 1), (-2129 / 2700, 2, 1), (1830 / 2700, 3, 1)]}
ETD = {"ETD4": (_K, _KB, [0, .5, .5, 1], None, 4), "ETD34": (_K, _KB, [0, .5, .5, 1], ("last", _KB[4]), 4),
       "ETD5": (_W, _WB, [0, .25, .25, .5, .75, 1], None, 5),
       "ETD35": (_W, _WB, [0, .25, .25, .5, .75, 1], ("combo", _W5), 4)}
_RK4 = ({2: {1: .5}, 3: {2: .5}, 4: {3: 1.0}}, {1: 1 / 6, 2: 1 / 3, 3: 1 / 3, 4: 1 / 6}, [0, .5, .5, 1])
_DP = ({2: {1: 1 / 5}, 3: {1: 3 / 40, 2: 9 / 40}, 4: {1: 44 / 45, 2: -56 / 15, 3: 32 / 9},
        5: {1: 19372 / 6561, 2: -25360 / 2187, 3: 64448 / 6561, 4: -212 / 729},
        6: {1: 9017 / 3168, 2: -355 / 33, 3: 46732 / 5247, 4: 49 / 176, 5: -5103 / 18656}},
       {1: 35 / 384, 3: 500 / 1113, 4: 125 / 192, 5: -2187 / 6784, 6: 11 / 84}, [0, .2, .3, .8, 8 / 9, 1])
_DPE = {1: 71 / 57600, 3: -71 / 16695, 4: 71 / 1920, 5: -17253 / 339200, 6: 22 / 525, 7: -1 / 40}
Q = {"ETD34": 4, "ETD35": 4, "IF34": 4, "IF45DP": 5}


def psi_scalar(k, z):
    z = np.asarray(z, dtype=np.complex128)
    out = np.empty_like(z)
    small = np.abs(z) < 1.0
    zs = z[small]
    t = np.full_like(zs, 1.0 / math.factorial(k))
    acc = t.copy()
    for j in range(1, 24):
        t = t * zs / (k + j)
        acc = acc + t
    out[small] = acc
    zb = z[~small]
    phi = np.exp(zb)
    for j in range(k):
        phi = (phi - 1.0 / math.factorial(j)) / zb
    out[~small] = phi
    return out * math.factorial(k)


class RefSolver:
    """One-step map and controller of the solver described by problem spec p."""

    def __init__(self, p, pure, L=None):
        self.p, self.nl = p, pure
        self.cls = p["cls"]
        L = lin_op(p) if L is None else L
        self.L = L
        if L.ndim == 1:
            self.mode, self.lam = "diag", L.astype(np.complex128)
        elif "lam" in p and spectrum(p) is not None:
            self.mode = "basis"
            self.lam, self.S, self.Sinv = spectrum(p)
        else:
            self.mode = "matrix"
        self.normL = float(np.max(np.abs(L))) if L.ndim == 1 else float(np.linalg.norm(L, 2))

    # matrix functions -----------------------------------------------------------
    def _fun(self, k, c, h, memo):
        key = (k, c)
        if key not in memo:
            if self.mode in ("diag", "basis"):
                z = c * h * self.lam
                memo[key] = np.exp(z) if k == 0 else psi_scalar(k, z)
            else:
                z = c * h * self.L
                if k == 0:
                    memo[key] = scipy.linalg.expm(z)
                else:
                    n = z.shape[0]
                    A = np.zeros(((k + 1) * n, (k + 1) * n), dtype=np.complex128)
                    A[:n, :n] = z
                    for j in range(k):
                        A[j * n:(j + 1) * n, (j + 1) * n:(j + 2) * n] = np.eye(n)
                    memo[key] = scipy.linalg.expm(A)[:n, k * n:] * math.factorial(k)
        return memo[key]

    def _ap(self, k, c, h, memo, v):
        F = self._fun(k, c, h, memo)
        if self.mode == "diag":
            return F * v
        if self.mode == "basis":
            return self.S @ (F * (self.Sinv @ v))
        return F @ v

    # one step -------------------------------------------------------------------
    def attempt(self, u, h):
        """(unew, err or None, weight): weight is the size of the terms entering err."""
        with np.errstate(all="ignore"):
            return self._attempt(np.asarray(u), float(h))

    jit = 0.0

    def _jitter(self, v, w):
        """(v with the rounding this variant of the reference plays, size of the terms in v)"""
        m = np.max(w, initial=0.0)
        if self.jit:
            k = np.arange(v.size)
            v = v + self.jit * (w if self.mode == "diag" else m) * np.where(k % 2 == 0, 1.0, 1.0 if abs(self.jit) > 5e-15 else -1.0)
        return v, m

    def _attempt(self, u, h):
        memo = {}
        N = {1: self.nl(u)}
        if self.cls in ETD:
            A, B, C, E, _ = ETD[self.cls]

            def comb(row, cu):
                v = self._ap(0, cu, h, memo, u)
                w = np.abs(v)
                for j in sorted(row):
                    for wt, k, c in row[j]:
                        t = h * wt * self._ap(k, c, h, memo, N[j])
                        v = v + t
                        w = w + np.abs(t)
                return self._jitter(v, w)
            for i in sorted(A):
                N[i] = self.nl(comb(A[i], C[i - 1])[0])
            un, wu = comb(B, 1)
            if E is None:
                return un, None, 0.0, wu
            if E[0] == "last":
                parts = {4: 1.0, 5: -1.0}
                N[5] = self.nl(un)
            else:
                parts = {1: -1.0, 3: 4.0, 4: -6.0, 5: 4.0, 6: -1.0}
            err, wt = 0, 0.0
            for w, k, c in E[1]:
                for j in sorted(parts):
                    t = h * w * parts[j] * self._ap(k, c, h, memo, N[j])
                    err = err + t
                    wt = wt + float(np.linalg.norm(t))
            return un, err, wt, wu
        A, B, C = _DP if self.cls == "IF45DP" else _RK4

        def comb(row, ci):
            v = self._ap(0, ci, h, memo, u)
            w = np.abs(v)
            for j in sorted(row):
                t = h * row[j] * self._ap(0, ci - C[j - 1], h, memo, N[j])
                v = v + t
                w = w + np.abs(t)
            return self._jitter(v, w)
        for i in sorted(A):
            N[i] = self.nl(comb(A[i], C[i - 1])[0])
        un, wu = comb(B, 1)
        if self.cls == "IF4":
            return un, None, 0.0, wu
        s = len(C) + 1
        N[s] = self.nl(un)
        if self.cls == "IF34":
            parts = {4: 1 / 6, 5: -1 / 6}
        else:
            parts = _DPE
        err, wt = 0, 0.0
        cc = list(C) + [1]
        for j in sorted(parts):
            t = h * parts[j] * self._ap(0, 1 - cc[j - 1], h, memo, N[j])
            err = err + t
            wt = wt + float(np.linalg.norm(t))
        return un, err, wt, wu

    def wobble(self, u):
        """The same attempt with a few different roundings, of the state or of every stage, as
        (reference, state) pairs: where they lead to different results, so may honest code."""
        u = np.asarray(u)
        size = np.abs(u) if self.mode == "diag" else np.abs(u) + np.max(np.abs(u), initial=0.0)
        for j, x in enumerate((3e-16, -3e-16, 1e-15, -1e-15, 4e-15, -4e-15, 2e-14, -2e-14)):
            yield self, u + x * size * np.where((np.arange(u.size) + j // 2) % 2 == 0, 1.0, -1.0 if j % 4 > 1 else 1.0)
        for x in (1e-15, -1e-15, 4e-15, -4e-15, 2e-14, -2e-14):
            r = copy.copy(self)
            r.jit = x
            yield r, u

    def trusted(self, h):
        """Is the step inside the range in which the full-matrix ETD contour is accurate?"""
        if self.p["form"] != "full" or self.cls not in ETD:
            return True
        R = (self.p.get("etd") or {}).get("contour_radius", 1.0)
        return abs(h) * self.normL <= 0.45 * R

    # controller -----------------------------------------------------------------
    def s_range(self, u, h, cfg):
        """Interval containing the control factor of an attempt (nan: not a number)."""
        un, err, wt, wu = self.attempt(u, h)
        q = Q[self.cls]
        if not np.all(np.isfinite(un)):
            return un, wu, (math.nan, math.nan)
        mag = np.abs(un)
        mx = mag.max()
        if 0 < mx < 1e-130:      # norms underflow
            return un, wu, (0.0, math.inf)
        if mx == 0:
            sure, maybe = np.ones(un.shape, bool), np.zeros(un.shape, bool)
        else:
            r = mag / mx
            slack = 1e-7 * abs(cfg["adapt_cutoff"]) + 1e-12 * min(1.0, wu / mx if wu else 1.0) + 1e-13
            sure = r > cfg["adapt_cutoff"] + slack
            maybe = (r > cfg["adapt_cutoff"] - slack) & ~sure
            maybe &= mag > 0 if cfg["adapt_cutoff"] >= 0 else True
        lo, hi = math.inf, -math.inf
        for sel in ([sure] if not maybe.any() else [sure, sure | maybe]):
            e = err[sel]
            if np.isnan(e).any():
                lo = hi = math.nan
                break
            with np.errstate(all="ignore"):
                tol = cfg["epsilon"] * np.linalg.norm(un[sel])
                en = np.linalg.norm(e)
            noise = 1e-10 * wt
            for x in (en + noise, max(en - noise, 0.0)):
                if x == 0:
                    s = math.inf if tol > 0 or en == 0 else 0.0
                elif not math.isfinite(x):
                    s = 0.0
                else:
                    s = cfg["safety_f"] * (tol / x) ** (1.0 / q)
                lo, hi = min(lo, s), max(hi, s)
        return un, wu, (lo * (1 - 1e-6), hi * (1 + 1e-6))

    def control(self, u, h, cfg, max_loops=50):
        """Predict the adaptive step: dict(kind=ok|err|ambiguous, h, hrel, n)."""
        rel, n, exact = 1e-12, 0, True
        while True:
            if not self.trusted(h):
                return {"kind": "ambiguous", "n": n}
            un, wu, (lo, hi) = self.s_range(u, h, cfg)
            if np.all(np.isfinite(un)) and not wu < 1e140:
                return {"kind": "ambiguous", "n": n}      # norms may overflow
            if math.isnan(lo):
                f = 0.25
            else:
                lo, hi = lo * (1 - 4 * rel), hi * (1 + 4 * rel)
                if lo >= 1:
                    return {"kind": "ok", "h": h, "hrel": rel, "n": n, "exact": exact}
                if hi >= 1:
                    return {"kind": "ambiguous", "n": n}
                dec = cfg["decr_f"]
                flo, fhi = min(max(lo, .25), dec), min(max(hi, .25), dec)
                f = flo if flo == fhi else 0.5 * (flo + fhi)
                exact = exact and flo == fhi      # limited: the very same number
                rel += (fhi - flo) / f + 1e-15
            h = f * h
            n += 1
            if n > max_loops:
                return {"kind": "err", "n": n}
            if h * (1 - rel) < cfg["minh"] and not (exact and h == cfg["minh"]):
                return {"kind": "err" if h * (1 + rel) < cfg["minh"] else "ambiguous", "n": n}
            if rel > 1e-2:
                return {"kind": "ambiguous", "n": n}

    def next_range(self, u, h, cfg):
        """(accept_possible, lowest, highest next/used ratio) for an accepted step of size h."""
        un, wu, (lo, hi) = self.s_range(u, h, cfg)
        if math.isnan(lo):
            return un, wu, False, 0, 0

        def f(s):
            s = min(s, 4.0)
            return s if s > cfg["incr_f"] else 1.0
        a, b = f(max(lo, 1.0)), f(hi)
        if lo <= cfg["incr_f"] <= hi:
            a = 1.0
        return un, wu, hi >= 1, min(a, b), max(a, b)


def shaky(ref, u, h, cfg, used=None):
    """Does rounding of the state alone change what the controller does?"""
    a = ref.control(u, h, cfg)
    r = ref.next_range(u, used, cfg) if used else None
    for ref2, v in ref.wobble(u):
        b = ref2.control(v, h, cfg)
        if a["kind"] != b["kind"] or a["n"] != b["n"]:
            return True
        if a["kind"] == "ok" and abs(a["h"] - b["h"]) > max(1e-9, 2 * a["hrel"]) * a["h"]:
            return True
        if r is not None:
            q = ref2.next_range(v, used, cfg)
            if q[2] != r[2] or (r[2] and (abs(q[3] - r[3]) > 1e-7 * r[3] or abs(q[4] - r[4]) > 1e-7 * r[4])):
                return True
    return False


DEFAULT_CFG = {"epsilon": 1e-4, "incr_f": 1.25, "decr_f": .85, "safety_f": .8, "adapt_cutoff": .01, "minh": 1e-16}
