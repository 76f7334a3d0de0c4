"""C12: logging."""
import logging
import re
import sys
import time

import numpy as np

import boot
from boot import ADAPTIVE, CLASSES, CONSTANT, FORMS
from core import HARD
from misc import Threaded, gen_sched, run_sched
from problems import finite
from simlib import Client, Run, brief, d, gen_evolve, gen_fault, gen_step, same_evolve, same_step

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "Info", 10, 20, 30, 15, 5, 50, 60, "WARN", "FATAL"]
BADLEVELS = ["LOUD", "", "10", "BASIC_FORMAT", "logger", 3.5, None, [10], "Level 10", {"a": 1}]
TOKEN = re.compile(r"#(\d+)#")


class Sink:
    """A log stream that fails on the writes the scenario names."""

    def __init__(self, run, plan=()):
        self.run, self.plan = run, plan
        self.n = 0
        self.attempts = {}      # token -> write attempts
        self.texts = {}

    def _fail(self, where):
        for f in self.plan:
            if f["on"] == where and f["at"] <= self.n < f["at"] + f["len"]:
                self.run.env.fired["sink-%s-%s" % (where, f["what"])] += 1
                raise {"full": OSError(28, "No space left on device"), "io": OSError(5, "Input/output error"),
                       "pipe": BrokenPipeError(32, "Broken pipe"), "closed": ValueError("I/O operation on closed file."),
                       "enc": UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range")}[f["what"]]

    def write(self, text):
        fr = sys._getframe(1)
        for _ in range(12):
            if fr is None:
                break
            if fr.f_code.co_name == "handleError":
                return len(text)      # the logging module's own complaint about a failed write
            fr = fr.f_back
        self.n += 1
        for t in TOKEN.findall(text):
            self.attempts[int(t)] = self.attempts.get(int(t), 0) + 1
        self._fail("write")
        return len(text)

    def flush(self):
        self._fail("flush")


class World:
    """Installs sink, clock and record numbering for one run; restores them afterwards."""

    def __init__(self, run, sink_plan=(), clock=(), none=False, root=False):
        self.run = run
        self.sink = None if none else Sink(run, sink_plan)
        self.records = []
        self.want = []
        self.clock, self.root = clock, root
        self.hlev = {}          # logger name -> level the user gave the library's handler
        self.own = {}           # logger name -> (sink of a handler of the user's, first record it may see)

    def __enter__(self):
        self.old = (sys.stderr, logging.getLogRecordFactory(), logging.raiseExceptions, time.time, time.time_ns)
        sys.stderr = self.sink
        logging.raiseExceptions = True
        base = logging.LogRecord

        def factory(*a, **k):
            r = base(*a, **k)
            if r.name.startswith("rkstiff"):
                lg = logging.getLogger(r.name)
                self.records.append((r.levelno, r.getMessage(), r.name, lg.getEffectiveLevel()))
                self.want.append(0 if r.levelno < self.hlev.get(r.name, 0) else 1)
                r.msg = "%s #%d#" % (r.msg, len(self.records) - 1)
            return r
        logging.setLogRecordFactory(factory)
        if self.clock:
            n = [0]

            def now():
                n[0] += 1
                v = self.clock[n[0] % len(self.clock)]
                if v != self.clock[0]:
                    self.run.env.fired["clock-jump"] += 1
                return v
            time.time = now
            time.time_ns = lambda: int(now() * 10 ** 9)
        if self.root:
            self.rh = logging.StreamHandler(Sink(self.run))
            logging.getLogger().addHandler(self.rh)
        return self

    def __exit__(self, *a):
        sys.stderr, f, logging.raiseExceptions, time.time, time.time_ns = self.old
        logging.setLogRecordFactory(f)
        if self.root:
            logging.getLogger().removeHandler(self.rh)
        return False

    def once(self, run, what):
        """Every record was offered to the library's stream exactly once, and only if enabled."""
        for k, (lev, msg, name, eff) in enumerate(self.records):
            run.check(lev >= eff, "enabled", lambda: "%s: record of level %d logged at level %d: %s" % (what, lev, eff, msg))
            if self.sink is not None:
                c = self.sink.attempts.get(k, 0)
                if name in self.own and self.own[name][1] is None:
                    run.check(c <= 1, "once", lambda: "%s: event '%s' of %s written %d times" % (what, msg, name, c))
                else:
                    run.check(c == self.want[k], "once", lambda: "%s: event '%s' of %s written %d times" % (what, msg, name, c))
            if name in self.own:
                sink, first = self.own[name]
                c = sink.attempts.get(k, 0)
                run.check(c == (1 if first is None or k >= first else 0), "once",
                          lambda: "%s: event '%s' of %s passed %d times to a handler of the program" % (what, msg, name, c))

    def own_handler(self, name, late):
        """The program adds a handler of its own to the logger `name`."""
        h = logging.StreamHandler(Sink(self.run))
        logging.getLogger(name).addHandler(h)
        self.own[name] = (h.stream, len(self.records) if late else None)

    def handler_level(self, name, level):
        """The program sets the level of the library's handler."""
        hs = [h for h in logging.getLogger(name).handlers if getattr(h, "stream", None) is self.sink]
        for h in hs:
            h.setLevel(level)
        if hs:
            self.hlev[name] = level


class C12(Threaded):
    id = "C12"
    quick, thorough = 3900, 30000 * 4
    rule = ("one run = a solver driven at some log level with a failing sink, jumping clock and level changes, compared with the same "
            "run in a clean process with logging off and at DEBUG; or several solvers created and used, in sequence or under a "
            "line-level thread schedule, counting how often each record reaches the stream; non-trivial when a record was written "
            "or a sink failed")
    stub = Threaded.stub + ", wall clock"

    def gen(self, g, tier):
        kind = g.pick("levels", "levels", "levels", "many", "threads", "threads")
        if kind == "levels":
            p = g.problem(nls=HARD + ["zero", "lin"], model_p=.08)
            ops = []
            for _ in range(g.r.randint(1, 4)):
                k = g.r.random()
                if k < .4:
                    o = gen_step(g, p)
                elif k < .55:
                    o = gen_evolve(g, p)
                elif k < .75:
                    # long: passes the progress report, on any interval
                    span = p["tau"] * g.logu(-1, .5)
                    n = g.r.randint(100, 215)
                    t0 = g.pick(-span, -span, 0.0, -.5 * span, 3 * span, -2 * span, -100 * span)
                    o = {"op": "evolve", "t0": t0, "tf": 0.0 if t0 == -span else t0 + span, "h": span / n, "store": g.chance(.5), "freq": 1}
                    if p["cls"] in ADAPTIVE and not p.get("model"):
                        p["config"] = dict(p["config"] or g.config(p["tau"]), incr_f=4.5, epsilon=1e-2)
                        p["nl"] = {"kind": "lin", "a": .3}
                        p["lam"] = g.lam(len(p["lam"]), "mild", p["ldtype"] != "complex", nz=(p["form"] == "eig"), cap=.3)
                elif k < .9:
                    o = {"op": "loglevel", "level": g.pick(*LEVELS)}
                else:
                    o = {"op": "loglevel", "level": g.pick(*BADLEVELS), "bad": True}
                if o["op"] in ("step", "evolve") and g.chance(.25):
                    f = gen_fault(g, p, o)
                    if f["kind"] == "nl":
                        o["faults"] = [f]
                ops.append(o)
            s = {"kind": kind, "p": p, "level": g.pick(*LEVELS), "ops": ops, "again": g.chance(.5)}
        else:
            n = g.pick(2, 2, 3, 4)
            cls = g.pick(*sorted(CLASSES))
            cl = []
            for _ in range(n):
                q = g.problem(cls=cls if g.chance(.8) else None, nls=["poly", "lin", "zero"], tau=1.0, nmax=2)
                c = {"p": q, "level": g.pick("DEBUG", "DEBUG", "INFO", "WARNING", 10), "ops": [{"op": "step", "h": .01} for _ in range(g.r.randint(0, 2))]}
                if g.chance(.3):
                    c["ops"].append({"op": "loglevel", "level": g.pick("DEBUG", "INFO", "ERROR")})
                    c["ops"].append({"op": "step", "h": .01})
                if g.chance(.25):
                    c["badctor"] = g.pick(*BADLEVELS)
                if g.chance(.2):
                    c["hlevel"] = g.pick("INFO", 30, 0, "CRITICAL", 15)
                if g.chance(.15):
                    c["own"] = g.pick("first", "late", "late")
                cl.append(c)
            s = {"kind": kind, "clients": cl}
            if kind == "threads":
                s["sched"] = gen_sched(g)
        s["root"] = g.chance(.2)
        s["faults"] = []
        if g.chance(.5):
            s["faults"] = [{"on": g.pick("write", "write", "flush"), "at": g.pick(0, 1, 1, 3, 10, 40), "len": g.pick(1, 2, 20, 10 ** 6),
                            "what": g.pick("full", "io", "pipe", "closed", "enc")}]
        s["none"] = g.chance(.04)
        s["clock"] = []
        if g.chance(.3):
            s["clock"] = [1.7e9, 1.7e9, g.pick(0.0, 1.7e9 - 86400 * 400, 4e9, -1e9, 1.7e9 - .5, 1.7e9 + 3600)]
        return s

    def simplify(self, s):
        for k, v in (("clock", []), ("root", False), ("none", False), ("again", False)):
            if s.get(k, v) != v:
                yield dict(s, **{k: v})
        if s.get("level") not in (None, "DEBUG"):
            yield dict(s, level="DEBUG")
        yield from super().simplify(s)

    def quietly(self, s, level):
        """The same operations in a clean process at `level`, with a good sink."""
        import driver

        def f():
            r = Run(s)
            with World(r) as w:
                c = Client(r, s["p"], "a", loglevel=level)
                outs, marks = [], [len(w.records)]
                for o in s["ops"]:
                    if o["op"] != "loglevel":
                        outs.append(c.do(o))
                        marks.append(len(w.records))
            return {"outs": outs, "records": [(a, b) for a, b, _, _ in w.records], "marks": marks}
        o = driver.forked(f)
        if "outs" not in o:
            raise RuntimeError(o.get("err"))
        return o

    def execute(self, run):
        if run.scen["kind"] == "levels":
            self.levels(run)
        else:
            self.many(run)

    def levels(self, run):
        s, p = run.scen, run.scen["p"]
        off = self.quietly(s, 60)
        run.check(not off["records"], "enabled", "records above every level with logging off")
        dbg = self.quietly(s, "DEBUG")
        outs, spans = [], []
        with World(run, s["faults"], s["clock"], s["none"], s["root"]) as w:
            A = Client(run, p, "a", loglevel=s["level"])
            lg = A.solver.logger
            spans.append((0, len(w.records), lg.level))
            for i, o in enumerate(s["ops"]):
                before, at = lg.level, len(w.records)
                out = A.do(o)
                if o["op"] == "loglevel":
                    if o.get("bad"):
                        run.check(out["kind"] == "err", "refuse", lambda: "log level %r was accepted" % (o["level"],))
                        run.check(lg.level == before, "refuse", lambda: "refused log level %r changed the level from %s to %s" % (o["level"], before, lg.level))
                    else:
                        run.check(out["kind"] == "ok", "raise", lambda: "log level %r: %s" % (o["level"], brief(out)))
                        want = o["level"] if isinstance(o["level"], int) else getattr(logging, o["level"].upper())
                        run.check(lg.level == want, "refuse", lambda: "log level %r set %s" % (o["level"], lg.level))
                    continue
                outs.append(out)
                spans.append((at, len(w.records), before))
                run.check(out["kind"] == "ok" or out.get("own") or any(q.get("faults") for q in s["ops"]) or out["exc"] == "SimBudget", "raise",
                          lambda: "op %d (%s) raised %s at level %r" % (i, o["op"], brief(out), s["level"]))
            n, again = len(w.records), []
            if s.get("again"):
                # a second solver with the same life: what was reported before must not matter
                B = Client(run, p, "b", loglevel="DEBUG")
                again = [B.do(o) for o in s["ops"] if o["op"] != "loglevel"]
        for k, (a, b) in enumerate(zip(outs, off["outs"])):
            what = "call %d at level %r against logging off" % (k, s["level"])
            (same_evolve if a["op"] == "evolve" else same_step)(run, a, b, "result", what, rtol=1e-12)
        w.once(run, "single solver")
        run.nontrivial = bool(w.records) or bool(run.env.fired)
        if s.get("again"):
            ref = dbg
            for k, (a, b) in enumerate(zip(again, ref["outs"])):
                (same_evolve if a["op"] == "evolve" else same_step)(run, a, b, "result", "call %d of a second solver" % k, rtol=1e-12)
            got, want = [(a, b) for a, b, _, _ in w.records[n:]], [tuple(r) for r in ref["records"]]
            run.probe["second solver: events"] += len(got)
            run.check(len(got) == len(want), "events", lambda: "%d events from a second solver, %d when it is the only one; missing %s" % (
                len(got), len(want), [r for r in want if r not in got][:2]))
            for a, b in zip(got, want):
                run.check(a == b, "events", lambda: "event %s of a second solver, %s when it is the only one" % (a, b))
            del w.records[n:]
        for k, (a, b) in enumerate(zip(outs, dbg["outs"])):
            what = "call %d at level %r against DEBUG" % (k, s["level"])
            (same_evolve if a["op"] == "evolve" else same_step)(run, a, b, "result", what, rtol=1e-12)
        marks = [0] + dbg["marks"]
        for k, (i, j, lev) in enumerate(spans):
            if lev < 10:        # below DEBUG's own number there is nothing more to see
                continue
            what = "construction" if k == 0 else "call %d" % (k - 1)
            want = [tuple(r) for r in dbg["records"][marks[k]:marks[k + 1]] if r[0] >= lev]
            got = [(a, b) for a, b, _, _ in w.records[i:j]]
            run.check(len(got) == len(want), "events", lambda: "%s: %d events at level %s, %d of that level at DEBUG" % (what, len(got), lev, len(want)))
            for a, b in zip(got, want):
                run.check(a == b, "events", lambda: "%s: event %s at level %s, %s at DEBUG" % (what, a, lev, b))

    def many(self, run):
        s = run.scen
        cs = {}
        with World(run, s["faults"], s["clock"], s["none"], s["root"]) as w:
            def body(i):
                def f():
                    c = s["clients"][i]
                    if "badctor" in c and s["kind"] == "many":
                        lg = logging.getLogger("rkstiff." + c["p"]["cls"])
                        before = lg.level
                        try:
                            Client(run, c["p"], "bad%d" % i, loglevel=c["badctor"] if c["badctor"] is not None else 3.5)
                            ok = True
                        except Exception:
                            ok = False
                        run.check(not ok, "refuse", lambda: "a solver with log level %r was built" % (c["badctor"],))
                        run.check(lg.level == before, "refuse", lambda: "refused log level %r changed the level from %s to %s" % (c["badctor"], before, lg.level))
                    name = "rkstiff." + c["p"]["cls"]
                    extra = s["kind"] == "many" and name not in w.own
                    if extra and c.get("own") == "first":
                        w.own_handler(name, late=bool(logging.getLogger(name).handlers))
                    cs[i] = Client(run, c["p"], "c%d" % i, loglevel=c["level"])
                    if extra and c.get("own") == "late":
                        w.own_handler(name, late=True)
                    if s["kind"] == "many" and "hlevel" in c and not s["none"]:
                        w.handler_level(name, c["hlevel"] if isinstance(c["hlevel"], int) else getattr(logging, c["hlevel"]))
                    for o in c["ops"]:
                        out = cs[i].do(o)
                        run.check(out["kind"] == "ok" or out.get("own"), "raise", lambda: "solver %d: %s" % (i, brief(out)))
                return f
            n = len(s["clients"])
            if s["kind"] == "threads":
                sc = run_sched(run, s, [body(i) for i in range(n)])
                for i, e in sorted(sc.errors.items()):
                    raise e
            else:
                for i in range(n):
                    body(i)()
            # everybody is set up: one more event from each
            for i in sorted(cs):
                cs[i].do({"op": "loglevel", "level": "DEBUG"})
                k = len(w.records)
                cs[i].do({"op": "reset"})
                run.probe["events after set-up"] += len(w.records) - k
        w.once(run, "%d solvers" % n)
        run.nontrivial = bool(w.records) or bool(run.env.fired)
