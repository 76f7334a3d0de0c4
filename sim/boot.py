"""Process set-up: single-threaded BLAS, no bytecode writes, repository import, seams.

Import this first.  REPO is /repo unless VERIF_REPO names a scratch copy.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "rkstiff") + os.sep
sys.path.insert(0, REPO)

import datetime  # noqa: E402
import gc  # noqa: E402
import random  # noqa: E402
import signal  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import types  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore")

# ---- lock seam -------------------------------------------------------------
# threading.Lock()/RLock() called from a file of the package or of the logging module
# returns a lock the simulator schedules; everybody else gets the real thing.
_real_lock, _real_rlock = threading.Lock, threading.RLock
LOCK_STATE = {"sched": None, "created": 0}


class SimLock:
    """A (re-entrant or plain) lock whose waiters are parked by the simulator."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        LOCK_STATE["created"] += 1

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            sched = LOCK_STATE["sched"]
            if sched is None or not sched.block_on(self):
                raise RuntimeError("simulator: lock held with no one to release it (self-deadlock)")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


def _from_pkg():
    f = sys._getframe(2).f_code.co_filename
    return f.startswith(PKG) or f.startswith(LOGGING_DIR)


def _lock_factory(*a, **k):
    return SimLock(False) if _from_pkg() else _real_lock(*a, **k)


def _rlock_factory(*a, **k):
    return SimLock(True) if _from_pkg() else _real_rlock(*a, **k)


import logging  # noqa: E402
import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402
import scipy.special  # noqa: E402

LOGGING_DIR = os.path.dirname(logging.__file__)
logging._lock = SimLock(True)
threading.Lock = _lock_factory
threading.RLock = _rlock_factory

# ---- clock seam --------------------------------------------------------------
# every clock the package can read answers through CLOCK["f"] when a simulated program sets it
CLOCK = {"f": None, "read": 0}
_CLOCKS = ("time", "monotonic", "perf_counter", "process_time", "thread_time")


def _clock(name, ns):
    real = getattr(time, name + "_ns" if ns else name)

    def read():
        f = CLOCK["f"]
        if f is None:
            return real()
        CLOCK["read"] += 1
        return int(f(name) * 10 ** 9) if ns else f(name)
    read.__name__ = real.__name__
    return read


for _n in _CLOCKS:
    for _ns in (False, True):
        setattr(time, _n + "_ns" * _ns, _clock(_n, _ns))


class _DateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return super().now(tz) if CLOCK["f"] is None else cls.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return super().utcnow() if CLOCK["f"] is None else cls.fromtimestamp(time.time())


_DateTime.__name__ = "datetime"
datetime.datetime = _DateTime

# ---- what reaches outside the process ------------------------------------------
# recorded by the interpreter's audit events while AUDIT["on"]
AUDIT = {"on": False, "seen": []}
_AUDITED = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
            "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.kill", "os.putenv", "os.unsetenv", "os.chdir", "os.fchdir",
            "os.setxattr", "subprocess.Popen", "socket.connect", "socket.bind", "socket.sendto", "socket.getaddrinfo", "tempfile.mkstemp",
            "tempfile.mkdtemp", "signal.pthread_kill", "shutil.rmtree", "shutil.move", "shutil.copyfile", "webbrowser.open",
            "sqlite3.connect", "syslog.syslog", "syslog.openlog", "pty.spawn", "mmap.__new__", "resource.setrlimit", "fcntl.flock")


def _audit(event, args):
    if not AUDIT["on"]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(flags, int) and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return
        AUDIT["seen"].append("open %s for writing" % (path,))
    elif event in _AUDITED:
        AUDIT["seen"].append("%s %s" % (event, str(args)[:80]))


sys.addaudithook(_audit)

if not os.path.exists(os.path.join(PKG, "__version__.py")):
    _m = types.ModuleType("rkstiff.__version__")
    _m.version = _m.__version__ = "0.0.0"
    sys.modules["rkstiff.__version__"] = _m


def _outside():
    r = np.random.get_state()
    return {"NumPy error handling": np.geterr(), "NumPy error callback": np.geterrcall(), "NumPy random state": (r[1].tolist(), r[2:]),
            "NumPy print options": repr(sorted(np.get_printoptions().items(), key=str)), "random state": random.getstate(),
            "SciPy special function errors": scipy.special.geterr(), "warning filters": list(warnings.filters),
            "logging of the root": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions),
            "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)],
            "recursion limit": sys.getrecursionlimit(), "exception hook": sys.excepthook, "standard output": sys.stdout,
            "environment": dict(os.environ), "working directory": os.getcwd(), "garbage collection": (gc.isenabled(), gc.get_threshold()),
            "import path": list(sys.path), "threads": threading.active_count()}


_before = _outside()
AUDIT["on"] = True
import rkstiff  # noqa: E402

if not os.path.realpath(rkstiff.__file__).startswith(PKG):
    raise RuntimeError("wrong rkstiff: " + rkstiff.__file__)

from rkstiff.etd34 import ETD34  # noqa: E402
from rkstiff.etd35 import ETD35  # noqa: E402
from rkstiff.etd4 import ETD4  # noqa: E402
from rkstiff.etd5 import ETD5  # noqa: E402
from rkstiff.if34 import IF34  # noqa: E402
from rkstiff.if4 import IF4  # noqa: E402
from rkstiff.if45dp import IF45DP  # noqa: E402
from rkstiff.solveras import SolverConfig, BaseSolverAS  # noqa: E402
from rkstiff.solvercs import BaseSolverCS  # noqa: E402
from rkstiff.etd import ETDConfig  # noqa: E402
import rkstiff.models as models  # noqa: E402
import rkstiff.grids as grids  # noqa: E402
import rkstiff.derivatives as derivatives  # noqa: E402
import rkstiff.transforms as transforms  # noqa: E402

AUDIT["on"] = False
_after = _outside()
IMPORT_CHANGED = [k for k in _before if _before[k] != _after[k]] + AUDIT["seen"]
AUDIT["seen"] = []

CLASSES = {"ETD34": ETD34, "ETD35": ETD35, "IF34": IF34, "IF45DP": IF45DP,
           "ETD4": ETD4, "ETD5": ETD5, "IF4": IF4}
ADAPTIVE = ("ETD34", "ETD35", "IF34", "IF45DP")
CONSTANT = ("ETD4", "ETD5", "IF4")
FORMS = {"ETD34": ("diag", "full", "eig"), "ETD35": ("diag", "full", "eig"),
         "IF34": ("diag", "full", "eig"), "IF45DP": ("diag",),
         "ETD4": ("diag", "full"), "ETD5": ("diag", "full"), "IF4": ("diag", "full")}
IS_ETD = {"ETD34": True, "ETD35": True, "IF34": False, "IF45DP": False,
          "ETD4": True, "ETD5": True, "IF4": False}
STAGES = {"ETD34": 5, "ETD35": 7, "IF34": 5, "IF45DP": 8, "ETD4": 5, "ETD5": 7, "IF4": 5}

SolverError = BaseSolverAS.SolverError

# what solvers log goes to a simulated stream, never to the real stderr
logging.raiseExceptions = False


def pkg_modules():
    return [m for n, m in sorted(sys.modules.items())
            if n.startswith("rkstiff") and getattr(m, "__file__", None)
            and os.path.realpath(m.__file__).startswith(PKG)]
