"""Deterministic scheduler for the caller's threads.

Each task is a real thread; exactly one holds the baton.  Every source line the
library executes (and every I/O call on the simulated disk) is a scheduling
point.  Where the baton moves is decided only by the explicit switch list of the
case: [[gap, task], ...] = after `gap` further points hand over to `task` (modulo
the runnable tasks), or at every line a case's [m, c] selects.  A task can also be hit by an asynchronous exception
(cancellation, failed allocation) at an explicit point.  A budget of points
bounds every run: exceeding it ends the task with BudgetExceeded.
"""
import _thread, sys, threading, zlib
from . import world as W

REAL_LOCK = _thread.allocate_lock
_lib_dir = None
SCHED = None


def set_lib(d):
    global _lib_dir
    _lib_dir = d


class BudgetExceeded(BaseException):
    pass


class Injected(BaseException):
    pass


class Scheduler:
    def __init__(self, switches=(), inject=(), budget=20_000_000, lines=None):
        self.switches = [list(s) for s in switches]
        self.sw_i = 0
        self.lines = lines    # [m, c]: hand over at every library line whose number hashes to c modulo m
        self.chosen = {}
        self.plan = []        # the hand-overs made by lines, as an explicit switch list
        self.plan_at = 0
        self.gap = self.switches[0][0] if self.switches else None
        self.inject = {}      # task -> sorted list of (point, exc name)
        for t, pt, exc in inject:
            self.inject.setdefault(t, []).append((pt, exc))
        for v in self.inject.values():
            v.sort()
        self.budget = budget
        self.points = 0
        self.task_points = {}
        self.cur = None
        self.gates = []
        self.done = []
        self.results = []
        self.order = []       # actual hand-overs (step, from, to, where)
        self.where = set()    # distinct (file, line) pairs at which a hand-over happened
        self.injected = []
        self.blocked = {}
        self.budget_hit = False
        self.in_lib = {}

    # ---- scheduling points
    def point(self, frame):
        me = self.cur
        self.points += 1
        tp = self.task_points[me] + 1
        self.task_points[me] = tp
        if self.points > self.budget:
            self.budget_hit = True
            raise BudgetExceeded()
        inj = self.inject.get(me)
        if inj and tp >= inj[0][0]:
            exc = inj.pop(0)[1]
            self.injected.append((me, tp, exc, frame.f_code.co_name if frame else "io"))
            if exc == "KeyboardInterrupt":
                raise KeyboardInterrupt("simulated cancellation")
            if exc == "MemoryError":
                raise MemoryError("simulated allocation failure")
            raise Injected(exc)
        if self.gap is not None:
            self.gap -= 1
            if self.gap <= 0:
                tgt = self.switches[self.sw_i][1]
                self.sw_i += 1
                self.gap = self.switches[self.sw_i][0] if self.sw_i < len(self.switches) else None
                self.switch(tgt, frame)
        elif self.lines and frame is not None:
            key = (frame.f_code.co_filename, frame.f_lineno)
            c = self.chosen.get(key)
            if c is None:
                c = zlib.crc32(("%s:%d" % (key[0].rsplit("/", 1)[1], key[1])).encode()) // 7 % self.lines[0] == self.lines[1]
                self.chosen[key] = c
            if c:
                r = self.runnable()
                tgt = r.index(me) + 1 if me in r else 0
                self.plan.append([self.points - self.plan_at, tgt % len(r)])
                self.plan_at = self.points
                self.switch(tgt, frame)

    def runnable(self):
        return [i for i in range(len(self.gates)) if not self.done[i] and not self.is_blocked(i)]

    def is_blocked(self, i):
        b = self.blocked.get(i)
        return b is not None and b()

    def switch(self, tgt, frame=None):
        me = self.cur
        r = self.runnable()
        if not r:
            return
        t = r[tgt % len(r)]
        if t == me:
            return
        if frame is not None:
            self.where.add((frame.f_code.co_filename, frame.f_lineno))
            self.order.append((self.points, me, t))
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(_lib_dir):
            self.point(frame)
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._local

    # ---- tasks
    def _body(self, i, fn):
        self.gates[i].acquire()
        sys.settrace(self._tracer)
        try:
            try:
                v = fn()
                self.results[i] = ("ok", v)
            finally:
                sys.settrace(None)
        except BaseException as e:  # the task function handles what it expects
            self.results[i] = ("exc", e)
        finally:
            self.done[i] = True
            r = self.runnable()
            if not r:
                r = [j for j in range(len(self.gates)) if not self.done[j]]
            if r:
                # the next switch entry, if any, picks the successor deterministically
                t = r[i % len(r)]
                self.cur = t
                self.gates[t].release()
            else:
                self.finish.release()

    def run(self, fns):
        """Run the task functions to completion; returns [("ok", value)|("exc", e)]."""
        global SCHED
        n = len(fns)
        self.gates = []
        for _ in range(n):
            g = REAL_LOCK()
            g.acquire()
            self.gates.append(g)
        self.done = [False] * n
        self.results = [None] * n
        self.task_points = {i: 0 for i in range(n)}
        self.finish = REAL_LOCK()
        self.finish.acquire()
        prev, SCHED = SCHED, self
        w = W.WORLD
        try:
            if n == 0:
                return []
            for i, fn in enumerate(fns):
                _thread.start_new_thread(self._body, (i, fn))
            self.cur = 0
            self.gates[0].release()
            self.finish.acquire()
        finally:
            SCHED = prev
            if w is not None:
                w.on_io = None
        return self.results


class SimLock:
    """Lock given to library code that asks for one: waiting hands the baton on."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        me = s.cur if s is not None else -1
        if self.re and self.count and self.owner == me:
            self.count += 1
            return True
        while self.count:
            if not blocking:
                return False
            if s is None:
                raise RuntimeError("deadlock outside the scheduler")
            s.blocked[me] = lambda: self.count > 0
            r = s.runnable()
            if not r:
                raise RuntimeError("simulated deadlock")
            s.switch(r.index(r[0]), None)
            s.blocked.pop(me, None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_lib():
        f = sys._getframe(2)
        return _lib_dir is not None and f.f_code.co_filename.startswith(_lib_dir)

    threading.Lock = lambda: SimLock() if from_lib() else real_lock()
    threading.RLock = lambda: SimLock(True) if from_lib() else real_rlock()
