"""Seams the simulator owns: clock, progress stream, randomness, line-level
instrumentation of /repo code (preemption and fault points), locks."""
import copy
import io
import os
import random
import sys
import threading
import time as _time

from core import REPO, SimBug

_real = {
    k: getattr(_time, k)
    for k in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns")
}


class SimClock:
    """The only clock simulated code reads.  Advances a little per read and by
    planned jumps; never by real time."""

    def __init__(self):
        self.t = 1_700_000_000.0
        self.mono = 1000.0
        self.step = 0.0  # seconds per read
        self.jumps = {}  # read number -> delta (wall clock only)
        self.reads = 0
        self.rec = None

    def reset(self, step=0.0, jumps=None, rec=None):
        self.__init__()
        self.step = step
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}
        self.rec = rec

    def advance(self, d):
        self.t += d
        self.mono += d
        if self.rec:
            self.rec.count("sim_time_ms", int(d * 1000))

    def _tick(self):
        self.reads += 1
        self.t += self.step
        self.mono += self.step
        if self.rec and self.step:
            self.rec.count("sim_time_ms", int(self.step * 1000))
        j = self.jumps.get(self.reads)
        if j is not None:
            self.t += j
            if self.rec:
                self.rec.count("fault:clock_jump")

    def time(self):
        self._tick()
        return self.t

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic(self):
        self._tick()
        return self.mono

    def monotonic_ns(self):
        return int(self.monotonic() * 1e9)

    perf_counter = monotonic

    def sleep(self, d):
        self.advance(max(0, d))


CLOCK = SimClock()


def install_clock():
    """Replace the clock.  Call after third-party imports, before /repo ones."""
    for k in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "sleep"):
        setattr(_time, k, getattr(CLOCK, k))
    try:
        import tqdm
        import tqdm.std

        tqdm.tqdm.monitor_interval = 0  # no real-time monitor thread
        tqdm.std.time = CLOCK.time
        # tqdm's default lock is a semaphore shared by all forked processes
        tqdm.tqdm.set_lock(SimLock(True))
    except ImportError:
        pass


class SimStream(io.TextIOBase):
    """The progress stream (stderr).  Fails at planned writes."""

    def __init__(self, rec=None, fail=None):
        self.n = 0
        self.fail = fail or {}
        self.rec = rec
        self.fired = 0

    encoding = "utf-8"

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        self.n += 1
        e = self.fail.get(self.n)
        if e is None and self.fail.get("from") and self.n >= self.fail["from"][0]:
            e = self.fail["from"][1]
        if e is not None:
            self.fired += 1
            if self.rec:
                self.rec.count(f"fault:stream_{e}")
            if e == "closed":
                raise ValueError("I/O operation on closed file")
            raise OSError({"EPIPE": 32, "ENOSPC": 28, "EIO": 5}[e], e)
        return len(s)

    def flush(self):
        pass


# --------------------------------------------------------------------------
# line events of code under test

_mine = {}


def is_repo_file(fn):
    r = _mine.get(fn)
    if r is None:
        r = fn.startswith(REPO + "/") and "/migrations/" not in fn
        _mine[fn] = r
    return r


class Tracer:
    """Counts line events of /repo code in this thread.  At event number `at`
    calls `hit()`, which may raise (fault) or switch threads."""

    def __init__(self, hit=None, at=None, only=None, func=None, hist=None):
        self.n = 0
        self.func = func  # count only the events of this function
        self.hist = hist  # dict: events per function
        self.at = at if at is not None else float("inf")
        self.hit = hit
        self.only = only  # predicate on file name, narrower than /repo
        self.where = None

    def _glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if is_repo_file(fn) and (self.only is None or self.only(fn)):
            return self._loc
        return None

    def _loc(self, frame, event, arg):
        if event == "line":
            if self.hist is not None:
                k = frame.f_code.co_name
                self.hist[k] = self.hist.get(k, 0) + 1
            elif self.func is not None and frame.f_code.co_name != self.func:
                return self._loc
            self.n += 1
            if self.n >= self.at:
                self.where = frame
                self.hit(self)
        return self._loc

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


def loc_of(frame):
    return f"{os.path.relpath(frame.f_code.co_filename, REPO)}:{frame.f_code.co_name}"


# --------------------------------------------------------------------------
# a deterministic scheduler over real threads


class Killed(BaseException):
    """delivered to a parked thread whose process was crashed"""


class Sched:
    """Real threads, exactly one runs at any instant.  `switches` is the
    planned list of [point number, thread index]; a point is one line event or
    one explicit `point()` call of the running thread."""

    def __init__(self, switches, rec, limit=60_000_000):
        self.rec = rec
        self.switches = sorted([int(a), int(b)] for a, b in switches)
        self.si = 0
        self.points = 0
        self.threads = []
        self.cur = None
        self.limit = limit
        self.done_evt = threading.Event()
        self.trace = []
        self.error = None
        self.next_at = self.switches[0][0] if self.switches else float("inf")
        self.actions = {}  # point -> callable, run in the current thread

    def spawn(self, name, fn):
        t = _SimThread(self, len(self.threads), name, fn)
        self.threads.append(t)

    def run(self):
        if not self.threads:
            return
        for t in self.threads:
            t.thread.start()
        self.cur = self.threads[0]
        self.cur.go.release()
        self.done_evt.wait()
        for t in self.threads:
            t.thread.join()
        if self.error:
            raise self.error

    # -- called by the running thread
    def point(self, frame=None):
        self.points += 1
        if self.points >= self.next_at:
            self._planned(frame)
        if self.points > self.limit:
            raise SimBug("step limit")

    def _planned(self, frame):
        me = self.cur
        a = self.switches[self.si]
        self.si += 1
        self.next_at = (
            self.switches[self.si][0] if self.si < len(self.switches) else float("inf")
        )
        self._switch(a[1], frame)

    def _switch(self, want, frame):
        me = self.cur
        alive = [t for t in self.threads if not t.finished]
        if len(alive) < 2 and not me.finished:
            return
        cand = [t for t in alive if t is not me]
        tgt = cand[want % len(cand)]
        self.rec.count("context_switches")
        here = loc_of(frame) if frame is not None else "-"
        self.rec.ev("switch", me.name, "->", tgt.name, "at", here)
        if frame is not None:
            self.rec.mark("preempted_in:" + here.split(":")[-1])
        self.cur = tgt
        tgt.go.release()
        me.go.acquire()

    def blocked(self):
        """current thread cannot proceed: let another run (deterministic)"""
        alive = [t for t in self.threads if not t.finished and t is not self.cur]
        if not alive:
            raise SimBug("deadlock: only thread is blocked")
        # the next one round, so that every thread gets its turn
        me = self.cur.index
        nxt = min(alive, key=lambda t: (t.index - me) % len(self.threads))
        self._switch(alive.index(nxt), None)

    def _finish(self, me):
        me.finished = True
        for t in self.threads:
            if not t.finished:
                self.cur = t
                t.go.release()
                return
        self.done_evt.set()


class _SimThread:
    def __init__(self, sched, index, name, fn):
        self.sched, self.index, self.name, self.fn = sched, index, name, fn
        self.go = threading.Semaphore(0)
        self.finished = False
        self.thread = threading.Thread(target=self._main, name=name, daemon=True)

    def _main(self):
        self.go.acquire()
        try:
            self.fn()
        except BaseException as e:  # report the first
            if self.sched.error is None:
                self.sched.error = e
        finally:
            sys.settrace(None)
            self.sched._finish(self)


# --------------------------------------------------------------------------
# locks created by code under test become simulated ones


SCHED = [None]  # the active scheduler, if any


class SimLock:
    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _me(self):
        s = SCHED[0]
        return s.cur if s is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.reentrant and self.owner is me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            if SCHED[0] is None:
                raise SimBug("deadlock on a lock")
            SCHED[0].blocked()

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def caller_is_repo():
        return is_repo_file(sys._getframe(2).f_code.co_filename)

    def Lock():
        return SimLock() if caller_is_repo() else real_lock()

    def RLock():
        return SimLock(True) if caller_is_repo() else real_rlock()

    threading.Lock, threading.RLock = Lock, RLock


def seed_everything(n):
    random.seed(n)
    try:
        import numpy

        numpy.random.seed(n % (2**32))
    except ImportError:
        pass


# --------------------------------------------------------------------------
# plotly re-validates and deep-copies every shape of a figure for each shape
# added.  The same append without that: a speed-up of the drawing stub's host
# library, checked against the original by selftest.py


def install_fast_figures():
    from plotly.basedatatypes import BaseFigure

    if hasattr(BaseFigure, "_slow_add_annotation_like"):
        return
    slow = BaseFigure._add_annotation_like

    def fast(self, prop_singular, prop_plural, new_obj, row=None, *a, **kw):
        if row is None:
            layout = self.layout
            cur = layout._compound_array_props.get(prop_plural)
            dicts = (layout._props or {}).get(prop_plural)
            if (
                isinstance(cur, list) and isinstance(dicts, list)
                and cur and len(cur) == len(dicts) and not self._in_batch_mode
            ):
                dicts.append(copy.deepcopy(new_obj._props))
                new_obj._orphan_props.clear()
                new_obj._parent = layout
                cur.append(new_obj)
                return self
        return slow(self, prop_singular, prop_plural, new_obj, row, *a, **kw)

    BaseFigure._slow_add_annotation_like = slow
    BaseFigure._add_annotation_like = fast
