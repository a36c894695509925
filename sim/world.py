"""The simulated environment: disk, clock, random source, default text encoding.

install() puts the seams in place; it must run before pyembroidery is imported.
Everything nondeterministic the library can reach then goes through the current
World object:

  * open()/io.open() of a path inside the world's scratch directory gives the
    real io stack (BufferedReader/BufferedWriter/TextIOWrapper) on top of SimRaw,
    a raw file whose every call asks the world for a fault first.  The bytes live
    in real files on a scratch directory (tmpfs), so code that renames, stats or
    uses temporary files keeps working.
  * datetime/time read the world's clock.
  * the random module's functions and os.urandom draw from the world's source.
  * text files opened without an encoding get the world's default encoding.

Paths outside the scratch directory are passed to the real functions.
"""
import builtins, datetime as _dt_mod, errno, io, os, random as _random_mod, sys, time as _time_mod
import random
import zlib

real_open = builtins.open
real_time = _time_mod.time
real_perf = _time_mod.perf_counter
RealDateTime = _dt_mod.datetime
RealDate = _dt_mod.date
RealRandom = _random_mod.Random
_real = {}

WORLD = None  # the active world, or None


class SimCrash(BaseException):
    """The simulated process dies here; nothing it does afterwards reaches the disk."""


ERRNOS = {"eio": errno.EIO, "enospc": errno.ENOSPC, "edquot": errno.EDQUOT, "eacces": errno.EACCES,
          "emfile": errno.EMFILE, "erofs": errno.EROFS, "eisdir": errno.EISDIR, "estale": errno.ESTALE,
          "eintr": errno.EINTR, "enoent": errno.ENOENT, "eperm": errno.EPERM, "ebusy": errno.EBUSY, "enotdir": errno.ENOTDIR,
          "etimedout": errno.ETIMEDOUT, "efbig": errno.EFBIG, "enametoolong": errno.ENAMETOOLONG, "einval": errno.EINVAL, "eloop": errno.ELOOP,
          "econnreset": errno.ECONNRESET, "epipe": errno.EPIPE, "enomem": errno.ENOMEM}


def _mix(*parts):
    """Stable pseudo-random 32-bit value from the parts (independent of PYTHONHASHSEED)."""
    h = zlib.crc32(repr(parts).encode())
    h = (h ^ (h >> 15)) * 0x2C1B3C6D & 0xFFFFFFFF
    h = (h ^ (h >> 12)) * 0x297A2D39 & 0xFFFFFFFF
    return h ^ (h >> 15)


class World:
    def __init__(self, root, faults=(), knobs=None):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.faults = list(faults)
        k = dict(knobs or {})
        self.bufsize = max(1, int(k.get("bufsize", 8192) or 1))
        self.encoding = k.get("encoding", "utf-8") or "utf-8"
        self.clock = float(k.get("clock", 1.7e9))
        self.clock_step = float(k.get("clock_step", 0.0))
        self.clock_script = list(k.get("clock_script", ()))
        self.rand_script = list(k.get("rand", ()))
        self.rand_const = k.get("rand_const")
        self.rng = RealRandom(k.get("rand_seed", 0))
        self.crashed = False
        self.handles = []      # every SimRaw ever opened
        self.leaks = []        # handles closed only by the garbage collector
        self.fired = {}        # fault kind -> count
        self.fired_list = []   # explicit record of the faults that fired
        self.trace = []        # event log (for the determinism digest)
        self.open_counts = {}
        self.io_ops = 0
        self.clock_reads = 0
        self.clock_values = []
        self.clock_min = self.clock_max = self.clock
        self.rand_draws = 0
        self.task_of = None    # callable giving the running task id (for the trace)
        self.enabled = True    # faults are injected only while enabled
        self.on_io = None      # scheduler hook: called at every I/O event

    # ---- paths
    def path(self, name):
        return os.path.join(self.root, name)

    def inside(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p.startswith(self.prefix):
            return p
        return None

    def name(self, p):
        return p[len(self.prefix):]

    # ---- faults
    def log(self, *ev):
        self.trace.append(ev)

    def fire(self, kind, ev):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.fired_list.append(ev)

    def decide(self, op, fname, opn, nth, size):
        """Which fault, if any, hits the nth `op` on the opn-th open of fname."""
        if not self.enabled:
            return None
        for fl in self.faults:
            if fl["op"] != op:
                continue
            f = fl.get("file", "*")
            if f != "*" and f != fname:
                continue
            if "p" in fl:  # a profile: every matching call with probability p
                if _mix(fl.get("seed", 0), op, fname, opn, nth) % 10000 >= fl["p"] * 10000:
                    continue
                r = dict(kind=fl["kind"])
                r["n"] = 1 + _mix(fl.get("seed", 0), "n", fname, opn, nth) % max(1, min(size, fl.get("max", 8192)))
                return r
            if fl.get("open", opn) != opn:
                continue
            n = fl.get("nth", 0)
            if nth == n or (fl.get("sticky") and nth > n):
                return fl
        return None

    # ---- clock
    def now(self):
        t = self.clock
        if self.clock_script:
            self.clock = float(self.clock_script.pop(0))
        else:
            self.clock += self.clock_step
        self.clock_reads += 1
        self.clock_values.append(t)
        self.clock_min = min(self.clock_min, t)
        self.clock_max = max(self.clock_max, t)
        return t

    # ---- random
    def draw(self, lo, hi):
        self.rand_draws += 1
        while self.rand_script:
            v = self.rand_script.pop(0)
            if v in ("lo", "hi"):  # the ends of whatever range is asked for
                return lo if v == "lo" else hi
            if lo <= v <= hi:
                return v
        if self.rand_const is not None:  # every draw gives the same, so the order of draws does not matter
            return lo + self.rand_const % (hi - lo + 1)
        return self.rng.randint(lo, hi)


class SimRaw(io.FileIO):
    """A raw file on the simulated disk."""

    def __init__(self, world, path, mode, opener=None):
        self.w = world
        self.fname = world.name(path)
        self.opn = world.open_counts.get(self.fname, 0)
        world.open_counts[self.fname] = self.opn + 1
        self.n = {"read": 0, "write": 0, "seek": 0, "close": 0, "truncate": 0}
        self.closing_done = False
        self.explicit = True
        self.leaked = False
        self.opened_ok = False
        self.mode_asked = mode
        act = self._ask("open", 0)
        if act is not None and act["kind"] in ERRNOS and act["kind"] != "eintr":
            raise OSError(ERRNOS[act["kind"]], "simulated: " + act["kind"], path)
        if world.crashed:
            raise SimCrash()
        if opener is not None:
            io.FileIO.__init__(self, path, mode, opener=opener)
        else:
            io.FileIO.__init__(self, path, mode)
        self.opened_ok = True
        world.handles.append(self)
        world.log("open", self.fname, self.opn, mode)

    def _ask(self, op, size):
        w = self.w
        w.io_ops += 1
        if w.on_io is not None:
            w.on_io(op)
        nth = 0
        if op != "open":
            nth = self.n[op]
            self.n[op] = nth + 1
        act = w.decide(op, self.fname, self.opn, nth, size)
        if act is not None:
            w.fire(op + ":" + act["kind"], {"file": self.fname, "open": self.opn, "op": op, "nth": nth,
                                            "kind": act["kind"], "n": act.get("n", 0)})
            w.log("fault", op, self.fname, self.opn, nth, act["kind"])
        return act

    def _fail(self, act):
        raise OSError(ERRNOS[act["kind"]], "simulated: " + act["kind"], self.w.path(self.fname))

    # reads
    def readinto(self, b):
        m = memoryview(b).cast("B")
        act = self._ask("read", len(m))
        if act is None:
            return io.FileIO.readinto(self, m)
        k = act["kind"]
        if k == "eintr":
            raise InterruptedError(errno.EINTR, "simulated")
        if k == "short":
            n = max(1, min(len(m), act.get("n", 1)))
            return io.FileIO.readinto(self, m[:n])
        self._fail(act)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(65536)
            try:
                n = self.readinto(b)
            except InterruptedError:
                continue
            if not n:
                return bytes(out)
            out += b[:n]

    # writes
    def write(self, b):
        m = memoryview(b).cast("B")
        if self.w.crashed:
            self.n["write"] += 1
            return len(m)  # the process is gone: lost
        act = self._ask("write", len(m))
        if act is None:
            return io.FileIO.write(self, m)
        k = act["kind"]
        if k == "eintr":
            raise InterruptedError(errno.EINTR, "simulated")
        if k == "short":
            n = max(1, min(len(m), act.get("n", 1)))
            return io.FileIO.write(self, m[:n])
        if k == "crash":
            n = min(len(m), act.get("n", 0))
            if n:
                io.FileIO.write(self, m[:n])
            self.w.crashed = True
            raise SimCrash()
        n = min(len(m), act.get("n", 0))
        if n:  # part of the block gets out before the error
            io.FileIO.write(self, m[:n])
        self._fail(act)

    def seek(self, pos, whence=0):
        if self.w.crashed:
            return io.FileIO.seek(self, pos, whence)
        act = self._ask("seek", 0)
        if act is not None and act["kind"] in ERRNOS:
            self._fail(act)
        return io.FileIO.seek(self, pos, whence)

    def truncate(self, size=None):
        if self.w.crashed:
            return size or 0
        act = self._ask("truncate", 0)
        if act is not None and act["kind"] in ERRNOS:
            self._fail(act)
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed or not self.opened_ok:
            return
        act = None
        if not self.closing_done:
            self.closing_done = True
            if not self.w.crashed:
                act = self._ask("close", 0)
            self.w.log("close", self.fname, self.opn)
        io.FileIO.close(self)
        if act is not None and act["kind"] in ERRNOS:
            self._fail(act)

    def _dealloc_warn(self, source):
        if not self.closed and not self.leaked:
            self.leaked = True
            self.w.leaks.append(self)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = WORLD
    p = None
    if w is not None and not isinstance(file, int):
        p = w.inside(file)
    if p is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    flags = set(mode) - set("bt")
    if not binary and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take text arguments")
    rawmode = "".join(c for c in mode if c not in "bt")
    raw = SimRaw(w, p, rawmode, opener)
    line = False
    if buffering == 1 and not binary:
        line = True
        buffering = -1
    if buffering < 0 or buffering == 1:
        buffering = w.bufsize
    try:
        if buffering == 0:
            return raw
        if "+" in flags:
            buf = io.BufferedRandom(raw, buffering)
        elif flags & set("wax"):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        if encoding is None or encoding == "locale":
            encoding = w.encoding
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t
    except BaseException:
        io.FileIO.close(raw)
        raise


class SimDateTime(RealDateTime):
    @classmethod
    def now(cls, tz=None):
        w = WORLD
        t = w.now() if w is not None else real_time()
        return RealDateTime.fromtimestamp(t, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        w = WORLD
        t = w.now() if w is not None else real_time()
        return RealDateTime.fromtimestamp(t, _dt_mod.timezone.utc).replace(tzinfo=None)


class SimDate(RealDate):
    @classmethod
    def today(cls):
        return SimDateTime.now().date()


def _sim_time():
    return WORLD.now() if WORLD is not None else real_time()


def install():
    """Put the seams in place (idempotent)."""
    if _real:
        return
    _real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    _dt_mod.datetime = SimDateTime
    _dt_mod.date = SimDate
    for nm in ("localtime", "gmtime", "strftime", "ctime", "asctime", "time_ns"):
        _real[nm] = getattr(_time_mod, nm)
    _time_mod.time = _sim_time
    _time_mod.time_ns = lambda: int(_sim_time() * 1e9)
    _time_mod.localtime = lambda s=None: _real["localtime"](_sim_time() if s is None else s)
    _time_mod.gmtime = lambda s=None: _real["gmtime"](_sim_time() if s is None else s)
    _time_mod.ctime = lambda s=None: _real["ctime"](_sim_time() if s is None else s)
    _time_mod.strftime = lambda fmt, t=None: _real["strftime"](fmt, _real["localtime"](_sim_time()) if t is None else t)

    for nm in ("monotonic", "perf_counter", "process_time", "thread_time"):
        _real[nm] = getattr(_time_mod, nm)
        _real[nm + "_ns"] = getattr(_time_mod, nm + "_ns")
        setattr(_time_mod, nm, lambda nm=nm: WORLD.now() if WORLD is not None else _real[nm]())
        setattr(_time_mod, nm + "_ns", lambda nm=nm: int(WORLD.now() * 1e9) if WORLD is not None else _real[nm + "_ns"]())

    R = _random_mod
    for nm in ("randint", "randrange", "getrandbits", "random", "choice", "uniform", "shuffle", "sample"):
        _real["r_" + nm] = getattr(R, nm)

    def wrap(nm, fn):
        real = _real["r_" + nm]

        def f(*a, **k):
            if WORLD is None:
                return real(*a, **k)
            return fn(*a, **k)
        setattr(R, nm, f)

    def rr(start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = (stop - start + step - 1) // step
        return start + step * WORLD.draw(0, n - 1)
    wrap("randint", lambda a, b: WORLD.draw(a, b))
    wrap("randrange", rr)
    wrap("getrandbits", lambda k: WORLD.draw(0, (1 << k) - 1))
    wrap("random", lambda: WORLD.draw(0, (1 << 53) - 1) / float(1 << 53))
    wrap("choice", lambda s: s[WORLD.draw(0, len(s) - 1)])
    wrap("uniform", lambda a, b: a + (b - a) * WORLD.draw(0, (1 << 53) - 1) / float(1 << 53))

    class SimRandom(RealRandom):
        def __init__(self, x=None):
            if x is None and WORLD is not None:
                x = WORLD.draw(0, (1 << 64) - 1)
            RealRandom.__init__(self, x)
    R.Random = SimRandom
    _real["urandom"] = os.urandom
    os.urandom = lambda n: (bytes(WORLD.draw(0, 255) for _ in range(n)) if WORLD is not None else _real["urandom"](n))

    # after a simulated crash nothing the dead process does may reach the disk
    for nm in ("replace", "rename", "remove", "unlink", "truncate", "rmdir"):
        _real["os_" + nm] = getattr(os, nm)

        def guard(*a, _nm=nm, **k):
            w = WORLD
            if w is not None and a and w.inside(a[0]) is not None:
                if w.crashed:
                    return None
                w.log("os." + _nm, w.name(w.inside(a[0])))
            return _real["os_" + _nm](*a, **k)
        setattr(os, nm, guard)


def activate(world):
    global WORLD
    WORLD = world


# ------------------------------------------------------------------ caller streams
class CallerStream:
    """A stream a caller could pass in: only the methods file objects promise,
    optionally failing at the n-th call of a kind, with byte-granular history."""

    def __init__(self, data=b"", fail=None, minimal=False):
        self._b = io.BytesIO(data)
        self.calls = {"read": 0, "write": 0, "seek": 0, "tell": 0}
        self.fail = fail  # {"op":..., "nth":..., "kind":...}
        self.fired = 0
        self.was_closed = False

    def _hit(self, op):
        n = self.calls[op]
        self.calls[op] = n + 1
        if self.was_closed:
            raise ValueError("I/O operation on closed file.")
        fl = self.fail
        if fl is not None and fl["op"] == op and (n == fl["nth"] or (fl.get("sticky") and n > fl["nth"])):
            self.fired += 1
            if WORLD is not None:
                WORLD.fire("stream-%s:%s" % (op, fl["kind"]), dict(fl))
            raise OSError(ERRNOS[fl["kind"]], "simulated: " + fl["kind"])

    def read(self, size=-1):
        self._hit("read")
        return self._b.read(size)

    def write(self, data):
        self._hit("write")
        return self._b.write(data)

    def seek(self, pos, whence=0):
        self._hit("seek")
        return self._b.seek(pos, whence)

    def tell(self):
        self._hit("tell")
        return self._b.tell()

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return True

    def flush(self):
        pass

    @property
    def closed(self):
        return self.was_closed

    def close(self):
        self.was_closed = True

    def getvalue(self):
        return self._b.getvalue()
