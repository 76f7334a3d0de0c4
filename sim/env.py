"""The simulated environment of a solver: nonlinear function, interrupts, allocator,
floating-point traps - all scheduled by the scenario."""
import asyncio
import collections
import concurrent.futures
import dis
import sys
import threading

import numpy as np
import scipy.linalg

import boot
from boot import PKG, LOCK_STATE


class SimBudget(BaseException):
    """The run used up its (deterministic) work budget."""


class SimFault(Exception):
    """An error raised by the simulated nonlinear function."""


class SimStop(BaseException):
    """The caller's own way of stopping a run."""


EXC = {"fault": SimFault, "mem": MemoryError, "kbd": KeyboardInterrupt, "fpe": FloatingPointError,
       "os": OSError, "linalg": np.linalg.LinAlgError, "val": ValueError, "exit": SystemExit, "arith": ZeroDivisionError,
       # what else a caller's function may raise, among it the errors of another solver used inside it
       "minstep": boot.BaseSolverAS.MinimumStepReached, "loops": boot.BaseSolverAS.MaxLoopsExceeded, "solver": boot.SolverError,
       "assert": AssertionError, "type": TypeError, "warn": RuntimeWarning, "stop": SimStop, "index": IndexError,
       "over": OverflowError, "timeout": TimeoutError, "attr": AttributeError, "recur": RecursionError,
       "iter": StopIteration, "key": KeyError, "eof": EOFError, "todo": NotImplementedError, "gen": GeneratorExit, "conn": ConnectionError,
       "runtime": RuntimeError, "system": SystemError, "buffer": BufferError, "uni": lambda m: UnicodeDecodeError("ascii", b"x", 0, 1, m),
       "user": UserWarning, "group": lambda m: ExceptionGroup(m, [ValueError(m)]), "name": NameError, "perm": PermissionError,
       "cancel": concurrent.futures.CancelledError, "acancel": asyncio.CancelledError}


NOTHING = object()


class Env:
    """Owns every fault.  One Env per scenario execution."""

    def __init__(self, budget=60000):
        self.fired = collections.Counter()
        self.calls = collections.Counter()     # nonlinear calls per client
        self.budget = budget
        self.plans = {}                        # client -> list of nl faults, armed for the current op
        self.base = {}
        self.sched = None
        self.observers = []
        self.raised = None                     # the exception injected last

    def throw(self, what, msg):
        self.raised = EXC[what](msg)
        raise self.raised

    # -- nonlinear function seam ------------------------------------------------
    def wrap(self, pure, cid="s", hook=None):
        def nl(u):
            k = self.calls[cid]
            self.calls[cid] = k + 1
            lim = self.base.get((cid, "lim"))
            if lim is not None and k >= lim:
                raise SimBudget("nonlinear calls")
            if sum(self.calls.values()) > self.budget:
                raise SimBudget("run budget")
            if self.sched is not None:
                self.sched.point("nl")
            if hook is not None:
                hook(k, u)
            rel = k - self.base.get(cid, 0)
            v = None
            for f in self.plans.get(cid, ()):
                if f["at"] <= rel < f["at"] + f.get("len", 1):
                    v = self._apply(f, pure, u, v)
            return pure(u) if v is None else (None if v is NOTHING else v)
        return nl

    def _apply(self, f, pure, u, v):
        w = f["what"]
        self.fired["nl-" + w] += 1
        if w in EXC:
            self.throw(w, "injected into the nonlinear function")
        v = np.array(pure(u)) if v is None else np.array(v)
        v = v.astype(np.result_type(v, float))
        if w == "nan":
            v[...] = np.nan
        elif w == "inf":
            v[...] = np.inf
        elif w == "nan1":
            v[f.get("i", 0) % v.size] = np.nan
        elif w == "inf1":
            v[f.get("i", 0) % v.size] = -np.inf
        elif w == "huge":
            v = v + 1e200
        elif w == "none":       # a forgotten return statement
            return NOTHING
        elif w == "shape":      # one component too many
            return np.concatenate([v, v[:1]]) if v.size > 1 else NOTHING
        elif w == "big":
            v = v * 1e6 + 1e3
        else:
            raise RuntimeError("unknown nl fault " + w)
        return v

    def op(self, faults, cid="s", limit=None):
        return _Armed(self, faults or [], cid, limit)


class _Armed:
    """Arms the faults of one operation and disarms them afterwards."""

    def __init__(self, env, faults, cid, limit):
        self.env, self.faults, self.cid, self.limit = env, faults, cid, limit
        self.undo = []

    def __enter__(self):
        env = self.env
        env.base[self.cid] = env.calls[self.cid]
        env.base[(self.cid, "lim")] = None if self.limit is None else env.calls[self.cid] + self.limit
        env.plans[self.cid] = [f for f in self.faults if f["kind"] == "nl"]
        self.es = None
        for f in self.faults:
            if f["kind"] == "fp":
                self.es = np.errstate(**{k: "raise" for k in f["traps"]})
                self.es.__enter__()
                env.fired["fp-armed"] += 1
            elif f["kind"] == "kernel":
                self._kernel(f)
            elif f["kind"] == "line":
                self.tr = LineTrace(env, f["n"], EXC[f["what"]], f["what"])
                self.undo.append(self.tr.stop)
                self.tr.start()
        return self

    def _kernel(self, f):
        env, name, n = self.env, f["name"], [0]

        def guard(orig):
            def g(*a, **k):
                if sys._getframe(1).f_code.co_filename.startswith(PKG):
                    n[0] += 1
                    if n[0] == f["at"]:
                        env.fired["kernel-%s-%s" % (name, f["what"])] += 1
                        env.throw(f["what"], "injected into " + name)
                return orig(*a, **k)
            return g
        spots = []
        if name == "expm":
            o = scipy.linalg.expm
            spots = [(scipy.linalg, "expm", o)] + [(m, k, o) for m in boot.pkg_modules()
                                                   for k, v in sorted(vars(m).items()) if v is o]
        elif name == "inv":
            spots = [(np.linalg, "inv", np.linalg.inv)]
        elif name == "exp":
            spots = [(np, "exp", np.exp)]
        elif name == "norm":
            spots = [(np.linalg, "norm", np.linalg.norm)]
        for owner, attr, orig in spots:
            setattr(owner, attr, guard(orig))
            self.undo.append(lambda owner=owner, attr=attr, orig=orig: setattr(owner, attr, orig))

    def __exit__(self, *a):
        for u in reversed(self.undo):
            u()
        if self.es is not None:
            self.es.__exit__(None, None, None)
        self.env.plans[self.cid] = []
        self.env.base[(self.cid, "lim")] = None
        return False


# CPython 3.12 only delivers opcode events if some frame asked for them before sys.settrace
sys._getframe().f_trace_opcodes = True

_AFTER = {}


def after_calls(code):
    """Offsets right after a call within `code`: with line starts, the places where CPython can
    switch threads or deliver an interrupt inside a line."""
    s = _AFTER.get(code)
    if s is None:
        s, prev = set(), None
        for i in dis.get_instructions(code):
            if prev is not None and prev.startswith("CALL"):
                s.add(i.offset)
            prev = i.opname
        _AFTER[code] = s = frozenset(s)
    return s


_POINTS = {}


def points(code, alloc=False):
    """Offsets in `code` where CPython can raise an asynchronous exception: on the return from a
    call (inside the try block the call is in) and at a loop's backward jump; for a failed
    allocation also before an arithmetic operation.  Function entry is the trace's call event.
    Between two plain attribute assignments there is no such point, nor on a bare return."""
    s = _POINTS.get((code, alloc))
    if s is None:
        table = dis._parse_exception_table(code)

        def handler(off):
            return [e.target for e in table if e.start <= off < e.end]
        s, prev = set(), None
        for i in dis.get_instructions(code):
            if prev is not None and prev.opname.startswith("CALL") and handler(prev.offset) == handler(i.offset):
                s.add(i.offset)
            if i.opname == "JUMP_BACKWARD" or alloc and i.opname in ("BINARY_OP", "BINARY_SUBSCR"):
                s.add(i.offset)
            prev = i
        _POINTS[code, alloc] = s = frozenset(s)
    return s


class LineTrace:
    """Raises `exc` at the n-th point of package code where CPython could deliver it (see points).
    Never while an earlier exception is being handled: faults are single."""

    def __init__(self, env, n, exc, what):
        self.env, self.n, self.exc, self.what = env, n, exc, what
        self.count = 0
        self.done = False
        self.where = None

    def start(self):
        self.prev = sys.gettrace()
        sys.settrace(self._glob)

    def stop(self):
        sys.settrace(self.prev)

    def _glob(self, frame, event, arg):
        if self.done:
            return None
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if event == "call":
            self._hit(frame)
        return self._loc

    def _loc(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti in points(frame.f_code, self.what == "mem"):
            self._hit(frame)
        return self._loc

    def _hit(self, frame):
        if self.done:
            return
        self.count += 1
        if self.count >= self.n and sys.exception() is None:
            self.done = True
            self.where = "%s:%s" % (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
            e = self.exc("injected at interrupt point %d" % self.count)
            if self.env is not None:
                self.env.fired["line-" + self.what] += 1
                self.env.raised = e
            raise e


def count_points(fn, alloc=False, limit=200000):
    """Number of interrupt points fn() passes (deterministic; used to aim faults)."""
    c = [0]

    def loc(frame, event, arg):
        if event == "opcode" and frame.f_lasti in points(frame.f_code, alloc):
            c[0] += 1
            if c[0] > limit:
                raise SimBudget("line budget")
        return loc

    def glob(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        c[0] += 1
        return loc
    prev = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (SystemError,)):
            raise
    finally:
        sys.settrace(prev)
    return c[0]


# --------------------------------------------------------------------------
# scheduler: real threads, exactly one of which runs at any moment
# --------------------------------------------------------------------------
class _Kill(BaseException):
    pass


class Sched:
    """Cooperative scheduler.  Threads yield at package lines and nonlinear calls; at every
    yield point the policy (seeded, or an explicit list for replay) picks who runs next."""

    def __init__(self, policy, env, lines=True, calls=False, max_points=400000):
        self.calls = calls       # also between the calls within a line
        self.policy, self.env, self.lines, self.max_points = policy, env, lines, max_points
        self.sems, self.alive, self.blocked = [], [], {}
        self.k = 0
        self.current = None
        self.switches = []       # (point, to) actually taken
        self.local = threading.local()
        self.main = threading.Semaphore(0)
        self.errors = {}
        self.results = {}
        self.dead = None
        self.points = 0
        self.trace = []

    # policy -----------------------------------------------------------------
    def _choose(self, me, force=False):
        ready = [i for i in range(len(self.sems)) if self.alive[i] and i not in self.blocked]
        if not ready:
            return None
        pol = self.policy
        if pol["kind"] == "list":
            to = pol["map"].get(self.k)
            if to is not None and to in ready:
                return to
            if me in ready and not force:
                return me
            return ready[0]
        r = pol["rng"]
        if force or me not in ready:
            return ready[r.randrange(len(ready))]
        if len(ready) > 1 and r.random() < pol["p"]:
            others = [i for i in ready if i != me]
            return others[r.randrange(len(others))]
        return me

    # called from client threads ------------------------------------------------
    def point(self, kind):
        me = getattr(self.local, "cid", None)
        if me is None or self.dead:
            if self.dead and me is not None:
                raise _Kill()
            return
        self.k += 1
        if self.k > self.max_points:
            self.dead = "point budget"
            raise SimBudget("schedule points")
        to = self._choose(me)
        if to != me:
            self._switch(me, to)

    def _switch(self, me, to):
        self.switches.append([self.k, to])
        self.current = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.dead:
            raise _Kill()

    def block_on(self, lock):
        me = getattr(self.local, "cid", None)
        if me is None:
            return False
        self.env.fired["lock-wait"] += 1
        while lock.owner is not None:
            self.blocked[me] = lock
            for i in list(self.blocked):
                if self.blocked[i].owner is None:
                    del self.blocked[i]
            to = self._choose(me, force=True)
            if to is None:
                self.dead = "deadlock"
                raise SimBudget("deadlock")
            self.k += 1
            if self.k > self.max_points:
                self.dead = "point budget"
                raise SimBudget("schedule points")
            if to != me:
                self._switch(me, to)
            self.blocked.pop(me, None)
        return True

    # tracing ------------------------------------------------------------------
    def _glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = self.calls
        return self._loc

    def _loc(self, frame, event, arg):
        if event == "line" or event == "opcode" and frame.f_lasti in after_calls(frame.f_code):
            for i in list(self.blocked):
                if self.blocked[i].owner is None:
                    del self.blocked[i]
            self.point("line")
        return self._loc

    def _body(self, cid, fn):
        self.local.cid = cid
        self.sems[cid].acquire()
        try:
            if not self.dead:
                if self.lines:
                    sys.settrace(self._glob)
                self.results[cid] = fn()
        except _Kill:
            pass
        except BaseException as e:  # noqa: BLE001
            self.errors[cid] = e
        finally:
            sys.settrace(None)
            self.alive[cid] = False
            for i in list(self.blocked):
                if self.blocked[i].owner is None:
                    del self.blocked[i]
            if self.dead:
                nxt = [i for i in range(len(self.sems)) if self.alive[i]]
                nxt = nxt[0] if nxt else None
            else:
                nxt = self._choose(cid, force=True)
                if nxt is None and any(self.alive):
                    self.dead = "deadlock"
                    nxt = [i for i in range(len(self.sems)) if self.alive[i]][0]
            if nxt is None:
                self.main.release()
            else:
                self.k += 1
                self.switches.append([self.k, nxt])
                self.current = nxt
                self.sems[nxt].release()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        LOCK_STATE["sched"] = self
        self.env.sched = self
        try:
            for t in ths:
                t.start()
            first = self._choose(0, force=True)
            self.switches.append([self.k, first])
            self.current = first
            self.sems[first].release()
            self.main.acquire()
            for t in ths:
                t.join()
        finally:
            LOCK_STATE["sched"] = None
            self.env.sched = None
        return self
