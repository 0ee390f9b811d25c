"""The simulator: one object that owns time, signals, crashes, disk faults and
the outcome of every solver call of one simulated process.

A run is a pure function of (plan, code): every choice is read from the plan
(explicit faults, schedules) or drawn from a PRNG keyed by the plan's seed and
the index of the choice, never from a real clock, pid, address or hash.
"""
import builtins
import datetime
import errno
import hashlib
import io
import os
import platform
import random
import shutil
import signal
import socket
import sys
import tempfile
import time

REPO = os.environ.get("DST_REPO", "/repo")

# ----------------------------------------------------------------- endings
class SimStop(BaseException):
    """Base of the endings the simulator imposes on the simulated process."""


class SimCrash(SimStop):
    """The simulated process was killed (SIGKILL, power, unhandled signal)."""


class SimBudget(SimStop):
    """The step budget is exhausted: no progress (liveness)."""


class Inconclusive(BaseException):
    """A real solver call is too hard to be worth simulating."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


# ------------------------------------------------------------------- real
REAL = {
    "time": time.time, "monotonic": time.monotonic,
    "perf_counter": time.perf_counter, "process_time": time.process_time,
    "sleep": time.sleep, "time_ns": time.time_ns,
    "monotonic_ns": time.monotonic_ns, "perf_counter_ns": time.perf_counter_ns,
    "open": builtins.open, "signal": signal.signal,
    "getsignal": signal.getsignal, "alarm": signal.alarm,
    "raise_signal": signal.raise_signal, "setitimer": signal.setitimer,
    "kill": os.kill, "replace": os.replace, "rename": os.rename,
    "unlink": os.unlink, "remove": os.remove, "makedirs": os.makedirs,
    "mkdir": os.mkdir, "fsync": os.fsync, "link": os.link,
    "strftime": time.strftime,
    "os_open": os.open, "os_write": os.write, "os_close": os.close,
}

ACTIVE = None          # the Sim of the process being simulated, or None
WALL_EPOCH = 1_700_000_000.0


def state_of(v):
    """Changes when an attribute is set anew or its array is overwritten."""
    if hasattr(v, "tobytes") and getattr(v, "size", 99) < 64:
        return id(v), v.tobytes()
    return id(v)


class Sim:
    """State of one simulated process."""

    MAX_LOG = 400

    def __init__(self, plan, root=None):
        self.plan = plan
        self.seed = str(plan.get("seed", 0))
        self.root = os.path.realpath(root) if root else None
        clock = plan.get("clock", {})
        self.mono = 1000.0 + float(clock.get("t0", 0.0))
        self.wall_off = WALL_EPOCH
        self.idle = 0.0          # time without a processor
        self.tick = float(clock.get("tick", 1e-3))
        self.pytick = float(clock.get("pytick", 1e-5))
        self.jumps = sorted((float(a), float(d))
                            for a, d in clock.get("jumps", []))
        h = dict(plan.get("host", {}))
        self.host = dict(cpus=int(h.get("cpus", 8)), pid=int(h.get("pid", 77)),
                         load=float(h.get("load", 0.5)),
                         entropy=random.Random("entropy|%s|%s" % (
                             plan.get("seed"), h.get("pid", 77))))
        self.opt_mean = float(clock.get("opt_mean", 0.5))
        self.opt_spread = float(clock.get("opt_spread", 0.5))
        self.budget = int(plan.get("budget", 400_000))
        self.opt_budget = int(plan.get("opt_budget", 20_000))
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults.setdefault((f["on"], int(f["n"])), []).append(f)
        self.fine = bool(plan.get("fine"))
        self.seen = {}            # code objects watched call by call
        self.n = {"jump": 0, "call": 0, "opt": 0, "io": 0, "time": 0, "rng": 0}
        self.fired = {}           # fault kind -> how often it really fired
        self.probes = {}          # rare condition -> count
        self.log = []
        self.digest = hashlib.sha256()
        self.handlers = {}
        self.alarm_at = None
        self.alarm_every = 0.0
        self.alarm_fired_at = None
        self.masked = 0
        self.loading = False      # the harness is importing modules
        self.in_callback = False  # of the solver
        self.effects = None       # list: what happens to files, recorded
        self.between = None       # called before every disk operation
        self.fds = {}             # descriptor -> file, opened for writing
        self.unsynced = set()     # files with data not yet on the disk
        self.dead = False         # after a crash nothing reaches the disk
        self.finished = False
        self.observers = []       # called with (kind, payload)
        self.trace = []           # what was solved and answered (C10)
        self.callmap = {} if plan.get("map") else None
        self.hot = []             # first points after a change of state
        self.subject = None       # gives the object whose state is watched
        self.sig = None
        self.path = hashlib.sha256()   # decisions, without times
        self.violations = []
        self.looking = False      # the harness itself looks at files
        self.iolog = []           # (index, operation, file)
        self.failed_ops = []      # operations that were made to fail
        self.tail_lost = False    # the last of them was interrupted
        self.trajectory = None    # bounds announced to the MIP callback

    # ------------------------------------------------------------- logging
    def ev(self, kind, *detail):
        rec = (kind,) + detail
        self.digest.update(repr(rec).encode())
        self.path.update(repr((kind,) + tuple(
            d for d in detail if not isinstance(d, float))).encode())
        if len(self.log) < self.MAX_LOG:
            self.log.append(rec)

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.ev("fault", kind)

    def rng(self, *key):
        return random.Random("|".join([self.seed] + [str(k) for k in key]))

    def violate(self, prop, what, **info):
        self.violations.append(dict(property=prop, what=what, **info))

    # --------------------------------------------------------------- clock
    def advance(self, dt):
        self.mono += dt
        while self.jumps and self.mono - 1000.0 >= self.jumps[0][0]:
            _, d = self.jumps.pop(0)
            self.wall_off += d
            self.fire("clock_jump_fwd" if d > 0 else "clock_jump_back")

    def now(self, wall=False):
        self.n["time"] += 1
        self.advance(self.tick)
        self.poll()
        return self.wall_off + self.mono if wall else self.mono

    # ------------------------------------------------------------- signals
    def deliver(self, sig):
        h = self.handlers.get(sig)
        self.ev("signal", int(sig))
        if sig == signal.SIGALRM:
            self.alarm_fired_at = self.mono
        if h is None or h == signal.SIG_DFL:
            if sig == signal.SIGINT:
                raise KeyboardInterrupt
            self.kill("default_action_%d" % int(sig))
        elif h == signal.SIG_IGN:
            return
        elif h is signal.default_int_handler:
            raise KeyboardInterrupt
        else:
            h(sig, sys._getframe(1))

    def poll(self):
        """An evaluation point where CPython would run signal handlers."""
        if self.masked or self.dead:
            return
        if self.alarm_at is not None and self.mono >= self.alarm_at:
            self.alarm_at = self.mono + self.alarm_every \
                if self.alarm_every else None
            self.fire("alarm")
            self.deliver(signal.SIGALRM)

    def kill(self, why):
        self.dead = True
        self.ev("killed", why)
        raise SimCrash(why)

    # -------------------------------------------------------------- faults
    def take(self, on, n):
        fs = self.faults.get((on, n))
        if not fs:
            return None
        return fs

    def step_call(self, code):
        """A Python function of the repository is entered."""
        if self.dead or self.finished or self.loading:
            return
        self.n["call"] += 1
        k = self.n["call"]
        self.advance(self.pytick)
        self.point(k, code)

    def step_fine(self, code):
        """Another point where CPython looks for signals: a builtin has
        returned, or a loop goes round."""
        if self.dead or self.finished or self.loading:
            return
        self.n["call"] += 1
        self.point(self.n["call"], code)

    def step_jump(self, code):
        self.n["jump"] += 1
        if self.n["jump"] > 60 * self.budget and not (
                self.dead or self.finished or self.loading):
            self.dead = True
            raise SimBudget("loop budget %d exhausted" % (60 * self.budget))
        if self.fine:
            self.step_fine(code)

    def point(self, k, code):
        if self.callmap is not None:
            if self.subject is not None:
                m = self.subject()
                if m is not None:
                    sig = tuple(map(state_of, m.__dict__.values()))
                    if sig != self.sig:
                        self.sig = sig
                        self.hot.append(k)
            lst = self.callmap.setdefault(code.co_qualname, [])
            if len(lst) < 40:
                lst.append(k)
            elif self.fine:        # keep a sample of the later ones
                j = (k * 2654435761) % (4 * len(lst))
                if j < len(lst):
                    lst[j] = k
        if k > self.budget:
            self.dead = True
            raise SimBudget("function-call budget %d exhausted" % self.budget)
        if not self.masked:
            fs = self.faults.get(("call", k))
            if fs:
                for f in fs:
                    self.async_fault(f)
            if self.alarm_at is not None:
                self.poll()

    def async_fault(self, f):
        do = f["do"]
        if do == "sigint":
            self.fire("sigint")
            self.deliver(signal.SIGINT)
        elif do == "kill":
            self.fire("kill")
            self.kill("sigkill")
        elif do == "memerr":          # an allocation fails
            if not self.in_callback:
                self.fire("memory_error")
                raise MemoryError("injected")
        elif do == "pause":           # the process is descheduled
            self.fire("pause")
            self.idle += float(f["dt"])
            self.advance(float(f["dt"]))
        elif do == "jump":            # the wall clock is stepped
            d = float(f["dt"])
            self.wall_off += d
            self.fire("clock_jump_fwd" if d > 0 else "clock_jump_back")
        else:
            raise HarnessError("unknown call fault %r" % (f,))


# --------------------------------------------------------------- clock seam
def _clock(name, wall, ns=False, cpu=False):
    real = getattr(time, name)

    def f():
        s = ACTIVE
        if s is None or s.finished:
            return real()
        v = s.now(wall)
        if cpu:
            v -= s.idle
        return int(v * 1e9) if ns else v
    f.__name__ = name
    return f


def _calendar(name):
    real = getattr(time, name)

    def f(secs=None):
        return real(time.time() if secs is None else secs)
    f.__name__ = name
    return f


def _strftime(fmt, t=None):
    return REAL["strftime"](fmt, time.localtime() if t is None else t)


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(
            tzinfo=None)


class SimDate(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())


# ---------------------------------------------------------------- host seam
def _install_host():
    """What machine and process the code finds itself on."""
    def of_host(real, give):
        def f(*a, **k):
            s = ACTIVE
            if s is None or s.finished:
                return real(*a, **k)
            s.n["host"] = s.n.get("host", 0) + 1
            return give(s.host, *a)
        return f

    os.cpu_count = of_host(os.cpu_count, lambda h: h["cpus"])
    os.sched_getaffinity = of_host(os.sched_getaffinity,
                                   lambda h, p=0: set(range(h["cpus"])))
    os.getpid = of_host(os.getpid, lambda h: h["pid"])
    os.getloadavg = of_host(os.getloadavg, lambda h: (h["load"],) * 3)
    platform.node = socket.gethostname = of_host(
        platform.node, lambda h: "host%d" % h["pid"])
    os.urandom = random._urandom = of_host(
        os.urandom, lambda h, n: h["entropy"].randbytes(n))
    seed = random.Random.seed

    def seeded(self, a=None, version=2):
        s = ACTIVE
        if a is None and s is not None and not s.finished:
            a = s.host["entropy"].getrandbits(128)
        seed(self, a, version)
    random.Random.seed = seeded
    random.seed = random._inst.seed


def _sleep(dt):
    s = ACTIVE
    if s is None or s.finished:
        return REAL["sleep"](dt)
    s.idle += float(dt)
    s.advance(float(dt))
    s.poll()


# -------------------------------------------------------------- signal seam
def _signal(sig, h):
    s = ACTIVE
    if s is None:
        return REAL["signal"](sig, h)
    old = s.handlers.get(sig, signal.SIG_DFL)
    if sig == signal.SIGINT and sig not in s.handlers:
        old = signal.default_int_handler
    s.handlers[sig] = h
    s.ev("sethandler", int(sig))
    return old


def _getsignal(sig):
    s = ACTIVE
    if s is None:
        return REAL["getsignal"](sig)
    if sig == signal.SIGINT and sig not in s.handlers:
        return signal.default_int_handler
    return s.handlers.get(sig, signal.SIG_DFL)


def _alarm(sec):
    s = ACTIVE
    if s is None:
        return REAL["alarm"](sec)
    if not isinstance(sec, int):
        raise TypeError("'%s' object cannot be interpreted as an integer"
                        % type(sec).__name__)
    left = 0
    s.poll()            # a signal already pending is not taken back
    if s.alarm_at is not None:
        left = max(1, int(s.alarm_at - s.mono))
    s.alarm_at = s.mono + sec if sec > 0 else None
    s.alarm_every = 0.0
    s.ev("alarm", sec)
    return left


def _setitimer(which, sec, interval=0.0):
    s = ACTIVE
    if s is None:
        return REAL["setitimer"](which, sec, interval)
    s.poll()
    left = 0.0 if s.alarm_at is None else max(0.0, s.alarm_at - s.mono)
    s.alarm_at = s.mono + sec if sec > 0 else None
    s.alarm_every = float(interval)
    s.ev("alarm", sec)
    return (left, 0.0)


def _raise_signal(sig):
    s = ACTIVE
    if s is None:
        return REAL["raise_signal"](sig)
    s.deliver(sig)


def _kill(pid, sig):
    s = ACTIVE
    if s is None:
        return REAL["kill"](pid, sig)
    if pid != os.getpid():
        raise HarnessError("simulated process tried to signal pid %r" % pid)
    s.deliver(sig)


# ---------------------------------------------------------------- disk seam
class SimRaw(io.FileIO):
    """Raw file: the place where write errors and tears happen."""

    def __init__(self, path, mode, sim, **kw):
        self._sim = sim
        super().__init__(path, mode, **kw)
        self._path = sim.fds[path] if isinstance(path, int) else path

    def close(self):
        if isinstance(self.name, int) and self.closefd and not self.closed:
            self._sim.fds.pop(self.name, None)
        super().close()

    def write(self, b):
        s = self._sim
        data = bytes(b)
        if s.dead or s.finished:
            return len(data)
        s.unsynced.add(os.path.realpath(self._path))
        if s.effects is not None:
            s.effects.append(("write", os.path.realpath(self._path), data))
        f = io_step(s, "write", self._path)
        if f:
            do = f["do"]
            keep = int(len(data) * float(f.get("frac", 0.5)))
            if do == "kill":
                if keep:
                    super().write(data[:keep])
                s.fire("kill_torn_write")
                s.kill("sigkill in write")
            if do in ("enospc", "eio"):
                if keep and do == "enospc":
                    super().write(data[:keep])
                s.fire(do)
                s.failed_ops.append("write")
                code = errno.ENOSPC if do == "enospc" else errno.EIO
                # the disk stays full for the rest of this file
                raise OSError(code, os.strerror(code), self.name)
            if do == "short":
                keep = max(1, keep)
                s.fire("short_write")
                return super().write(data[:keep])
        return super().write(data)


class SimReader(io.FileIO):
    """Raw file being read: the disk may fail half-way or answer in bits."""

    def __init__(self, path, sim):
        self._sim = sim
        super().__init__(path, "r")

    def readinto(self, b):
        s = self._sim
        f = None if s.dead or s.finished else io_step(s, "read", self.name)
        if f and f["do"] == "eio":
            s.fire("read_error")
            raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
        if f and f["do"] == "kill":
            simple_fault(s, f, "read")
        if f and f["do"] == "short" and len(b) > 1:
            s.fire("short_read")
            part = bytearray(max(1, int(len(b) * float(f.get("frac", .5)))))
            n = super().readinto(part)
            b[:n] = part[:n]
            return n
        return super().readinto(b)


def io_step(s, op, path):
    s.n["io"] += 1
    k = s.n["io"]
    s.advance(s.tick)
    base = os.path.basename(str(path))
    if s.root is not None and base == os.path.basename(s.root):
        base = "."          # the scratch folder itself, whose name differs
    s.ev("io", op, base)
    if len(s.iolog) < 2000:
        s.iolog.append((k, op, base))
    if s.between is not None:
        was, s.looking = s.looking, True
        try:
            s.between(k, op, path)
        finally:
            s.looking = was
    for f in s.faults.get(("io", k), ()):
        if f["do"] == "pause":      # the disk keeps the process waiting
            s.async_fault(f)
            s.poll()
            continue
        return f
    return None


def simple_fault(s, f, op):
    """Fault on an operation without partial effects (open, rename...)."""
    do = f["do"]
    if do == "kill":
        s.fire("kill_before_" + op)
        s.kill("sigkill before " + op)
    if do in ("enospc", "eio"):
        s.fire(do)
        s.failed_ops.append(op)
        code = errno.ENOSPC if do == "enospc" else errno.EIO
        raise OSError(code, os.strerror(code))
    # 'short' means nothing here


def _inside(s, path):
    if s is None or s.root is None or s.finished:
        return False
    if isinstance(path, int):
        return False
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == s.root or p.startswith(s.root + os.sep)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    s = ACTIVE
    if s is not None and not s.finished and opener is not None and \
            any(c in mode for c in "wax+"):
        # tempfile opens its files this way
        file = opener(file, os.O_RDWR | os.O_CREAT | os.O_CLOEXEC)
        opener, closefd = None, True
    if s is not None and not s.finished and file.__class__ is int and \
            file in s.fds:
        raw = SimRaw(file, mode.replace("t", "").replace("b", ""), s,
                     closefd=closefd)
        return wrap_raw(raw, mode, buffering, encoding, errors, newline)
    if (s is None or opener is not None or not _inside(s, file)):
        if s is not None and not s.finished and not isinstance(file, int) \
                and any(c in mode for c in "wax+") and s.root is not None:
            p = os.path.realpath(os.fspath(file))
            if not p.startswith(("/dev/", "/tmp/dst-")):
                raise HarnessError("write outside the scratch dir: %s" % p)
        return REAL["open"](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    if not any(c in mode for c in "wax+"):
        f = io_step(s, "ropen", file)
        if f and f["do"] == "kill":
            simple_fault(s, f, "read")
        if not s.plan.get("readfaults"):
            return REAL["open"](file, mode, buffering, encoding, errors,
                                newline)
        if f and f["do"] == "eio":
            simple_fault(s, f, "read")
        buf = io.BufferedReader(SimReader(file, s), 512)
        return buf if "b" in mode else io.TextIOWrapper(
            buf, encoding or "utf-8", errors, newline)
    if s.dead:
        return REAL["open"]("/dev/null", mode, buffering, encoding, errors,
                            newline)
    f = io_step(s, "open", file)
    if f:
        simple_fault(s, f, "open")
    raw = SimRaw(file, mode.replace("t", "").replace("b", ""), s)
    if s.effects is not None:
        s.effects.append(("open" if "w" in mode or "x" in mode else "touch",
                          os.path.realpath(file), b""))
    return wrap_raw(raw, mode, buffering, encoding, errors, newline)


def wrap_raw(raw, mode, buffering, encoding, errors, newline):
    if "b" in mode:
        if buffering == 0:
            return raw
        return (io.BufferedRandom if "+" in mode
                else io.BufferedWriter)(raw)
    buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw)
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                            line_buffering=(buffering == 1))


def _path_op(name):
    real = REAL[name]

    def f(*a, **k):
        s = ACTIVE
        if s is None or not a or not _inside(s, a[-1] if len(a) > 1 and
                                             name in ("replace", "rename",
                                                      "link") else a[0]):
            return real(*a, **k)
        if s.dead:
            return None
        fl = io_step(s, name, a[0])
        old = os.path.realpath(a[0])
        new = os.path.realpath(a[1]) if name in (
            "replace", "rename", "link") and len(a) > 1 else old
        if fl:
            if fl["do"] == "kill" and float(fl.get("frac", 0)) >= 0.5:
                r = real(*a, **k)      # killed just after the operation
                moved(s, name, old, new)
                s.fire("kill_after_" + name)
                s.kill("sigkill after " + name)
            simple_fault(s, fl, name)
        r = real(*a, **k)
        moved(s, name, old, new)
        if s.effects is not None:
            s.effects.append((name, old, new))
        return r
    f.__name__ = name
    return f


def _look(name):
    """Looking at names: others may act just before; no error, no change."""
    real = getattr(os, name)

    def f(*a, **k):
        s = ACTIVE
        if s is None or s.finished or s.dead or s.loading or s.looking \
                or not a or not isinstance(a[0], (str, os.PathLike)):
            return real(*a, **k)
        s.looking = True
        try:
            if _inside(s, a[0]):
                fl = io_step(s, name, a[0])
                if fl and fl["do"] == "kill":
                    simple_fault(s, fl, name)
        finally:
            s.looking = False
        r = real(*a, **k)
        if name == "listdir":        # in no particular order
            r = sorted(r)
            s.rng("ls", s.n["io"]).shuffle(r)
        return r
    f.__name__ = name
    return f


def moved(s, name, old, new):
    """Names change hands; whether the data are on the disk goes along."""
    if name in ("replace", "rename"):
        s.unsynced.discard(new)
        if old in s.unsynced:
            s.unsynced.discard(old)
            s.unsynced.add(new)
    elif name == "link":
        if old in s.unsynced:
            s.unsynced.add(new)
    elif name in ("unlink", "remove"):
        s.unsynced.discard(old)


def effect(op, a, b):
    """What another process did to the files, done again."""
    try:
        if op in ("makedirs", "mkdir"):
            part = ""
            for nm in a.split(os.sep):      # os.makedirs would use the seam
                part += nm + os.sep
                if not os.path.isdir(part):
                    REAL["mkdir"](part)
        elif op in ("open", "touch", "write"):
            with REAL["open"](a, "wb" if op == "open" else "ab") as f:
                f.write(b)
        elif op in ("replace", "rename"):
            REAL[op](a, b)
        elif op == "link":
            REAL["link"](a, b)
        elif op in ("unlink", "remove"):
            REAL["unlink"](a)
    except OSError as e:
        return "%s %s: %s" % (op, os.path.basename(a), e.strerror)


def power_loss(s, frac):
    """Data that were never forced to the disk are lost, names are not."""
    n = 0
    for p in sorted(s.unsynced):
        if os.path.isfile(p):
            size = os.path.getsize(p)
            os.truncate(p, int(size * frac))
            n += 1
    s.fire("power_loss")
    if n:
        s.fire("unsynced_data_lost")


def _fsync(fd):
    s = ACTIVE
    if s is None or s.finished:
        return REAL["fsync"](fd)
    if s.dead:
        return None
    fd = fd if isinstance(fd, int) else fd.fileno()
    fl = io_step(s, "fsync", "fd")
    if fl:
        simple_fault(s, fl, "fsync_dir" if os.path.isdir(
            "/proc/self/fd/%d" % fd) else "fsync")
    try:
        s.unsynced.discard(os.path.realpath("/proc/self/fd/%d" % fd))
    except OSError:
        pass
    return None                        # durability is the simulator's business


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    """Low-level files (tempfile, os.open) take part as well."""
    s = ACTIVE
    if s is None or dir_fd is not None or not _inside(s, path) or \
            not flags & (os.O_WRONLY | os.O_RDWR):
        return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
    if s.dead:
        return REAL["os_open"]("/dev/null", os.O_RDWR)
    f = io_step(s, "open", path)
    if f:
        simple_fault(s, f, "open")
    fd = REAL["os_open"](path, flags, mode)
    s.fds[fd] = os.fspath(path)
    if s.effects is not None:
        s.effects.append(("open" if flags & os.O_TRUNC or flags & os.O_EXCL
                          else "touch", os.path.realpath(path), b""))
    return fd


def _os_write(fd, data):
    s = ACTIVE
    if s is None or s.finished or fd not in s.fds:
        return REAL["os_write"](fd, data)
    with SimRaw(fd, "w", s, closefd=False) as raw:
        return raw.write(data)


def _os_close(fd):
    s = ACTIVE
    if s is not None:
        s.fds.pop(fd, None)
    return REAL["os_close"](fd)


class _Names:
    """Names of temporary files, the same in every run of a plan."""

    def __iter__(self):
        return self

    def __next__(self):
        s = ACTIVE
        if s is None or s.finished:
            return "%08x" % random.SystemRandom().getrandbits(32)
        s.n["tmp"] = s.n.get("tmp", 0) + 1
        return "%08x" % s.rng("tmp", s.n["tmp"]).getrandbits(32)


_installed = False


def install():
    """Put the seams in place, once per worker, before the code is loaded."""
    global _installed
    if _installed:
        return
    _installed = True
    for nm, wall, ns in (("time", True, False), ("time_ns", True, True),
                         ("monotonic", False, False),
                         ("monotonic_ns", False, True),
                         ("perf_counter", False, False),
                         ("perf_counter_ns", False, True)):
        setattr(time, nm, _clock(nm, wall, ns))
    for nm in ("process_time", "thread_time"):
        setattr(time, nm, _clock(nm, False, cpu=True))
        setattr(time, nm + "_ns", _clock(nm + "_ns", False, True, True))
    for nm in ("localtime", "gmtime", "ctime"):
        setattr(time, nm, _calendar(nm))
    time.strftime = _strftime
    datetime.datetime, datetime.date = SimDatetime, SimDate
    _install_host()
    time.sleep = _sleep
    signal.signal = _signal
    signal.getsignal = _getsignal
    signal.alarm = _alarm
    signal.setitimer = _setitimer
    signal.raise_signal = _raise_signal
    os.kill = _kill
    builtins.open = _open
    io.open = _open
    for nm in ("replace", "rename", "unlink", "remove", "makedirs", "mkdir",
               "link"):
        setattr(os, nm, _path_op(nm))
    for nm in ("stat", "listdir", "scandir"):
        setattr(os, nm, _look(nm))
    os.fsync = os.fdatasync = _fsync
    os.open, os.write, os.close = _os_open, _os_write, _os_close
    tempfile._io.open = _open
    tempfile._name_sequence = _Names()
    shutil._USE_CP_SENDFILE = False
    _install_monitor()


# ---------------------------------------------------------- evaluation seam
def _install_monitor():
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "dst")
    prefix = REPO.rstrip("/") + "/"

    def on_start(code, offset):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        s = ACTIVE
        if s is not None:
            if s.fine and id(code) not in s.seen:
                s.seen[id(code)] = code
                mon.set_local_events(tool, code, mon.events.CALL)
            s.step_call(code)

    def on_jump(code, src, dst):
        if dst >= src or not code.co_filename.startswith(prefix):
            return mon.DISABLE
        s = ACTIVE
        if s is not None:
            s.step_jump(code)

    def on_return(code, offset, fn, arg0):
        if any(fn is u for u in unchecked):  # CPython does not look after these
            return
        s = ACTIVE
        if s is not None and s.fine:
            s.step_fine(code)

    unchecked = (len, isinstance, type, str, tuple)
    ev = mon.events
    mon.register_callback(tool, ev.PY_START, on_start)
    mon.register_callback(tool, ev.JUMP, on_jump)
    mon.register_callback(tool, ev.C_RETURN, on_return)
    mon.set_events(tool, ev.PY_START | ev.JUMP)


class activate:
    """with activate(sim): ...   runs the body as the simulated process."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global ACTIVE
        assert ACTIVE is None
        ACTIVE = self.sim
        return self.sim

    def __exit__(self, *exc):
        global ACTIVE
        self.sim.finished = True
        ACTIVE = None
        return False
