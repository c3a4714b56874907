"""Cooperative scheduler: real threads, parked and released one at a time by the plan.

A run is a sequence of numbered points (calls to `point`, blocking operations, optionally every
executed source line of the code under test).  Which task continues at point n is decided by
`switches` {n: k}: hand over to the k-th other runnable task; everywhere else the current task
continues.  Virtual time only moves when no task is runnable.
"""
import _thread
import heapq
import queue as _queue
import sys
import threading as _threading

from .core import SimAbort, Violation

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_RealThread = _threading.Thread
_settrace = sys.settrace


def _alloc_forever():
    lk = _alloc()
    lk.acquire()
    lk.acquire()


class Task:
    def __init__(self, tid, fn, name):
        self.tid, self.fn, self.name = tid, fn, name
        self.lock = _alloc()
        self.lock.acquire()
        self.state = "new"  # new, ready, blocked, done
        self.cond = None
        self.wake = None
        self.result = None
        self.exc = None
        self.uncaught = None
        self.timed_out = False
        self.killed = False

    @property
    def alive(self):
        return self.state != "done"


class Sched:
    current_sched = None

    def __init__(self, switches=(), max_steps=200000, st=None, start_time=1.0e9, trace_filter=None):
        self.switches = {int(a): int(b) for a, b in switches}
        self.points = sorted(self.switches)
        self.pi = 0
        self.next_switch = self.points[0] if self.points else -1
        self.max_steps = max_steps
        self.step = 0
        self.st = st
        self.now = start_time
        self.start_time = start_time
        self.tasks = []
        self.current = None
        self.main_lock = _alloc()
        self.main_lock.acquire()
        self.aborting = False
        self.failure = None
        self.trace_filter = trace_filter
        self.forced = []  # times at which a task was made to wait though it could go on
        self.schedule = []  # (step, from, to): what actually happened
        self.seq = 0
        self.sleepers = []
        self.on_switch = None  # called with the task that stops and the one that goes on

    # ---- tasks
    def spawn(self, fn, name=None):
        t = Task(len(self.tasks), fn, name or "t%d" % len(self.tasks))
        self.tasks.append(t)
        t.state = "ready"

        def body():
            t.lock.acquire()
            if self.trace_filter is not None:
                _settrace(self._tracer)
            try:
                if not self.aborting:
                    t.result = fn()
            except SimAbort:
                pass
            except BaseException as e:  # noqa: kept for the property to judge
                t.exc = e
            finally:
                _settrace(None)
                t.state = "done"
                self._leave(t)

        _start(body, ())
        return t

    def _tracer(self, frame, event, arg):
        f = self.trace_filter(frame.f_code.co_filename)
        if not f:
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.point(None)
        return self._line

    # ---- choosing
    def _runnable(self, but=None):
        out = []
        for t in self.tasks:
            if t is but:
                continue
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and t.cond is not None and t.cond():
                out.append(t)
        return out

    def _pick_any(self):
        """Next task when the current one cannot go on; advances virtual time if needed."""
        while True:
            r = self._runnable()
            if r:
                k = 0
                if self.step == self.next_switch:
                    k = self.switches[self.step]
                    self._advance_switch()
                return r[k % len(r)]
            while self.sleepers and not (self.sleepers[0][2].state == "blocked" and self.sleepers[0][2].wake == self.sleepers[0][:2]):
                heapq.heappop(self.sleepers)
            if not self.sleepers:
                return None
            when, seq, t = heapq.heappop(self.sleepers)
            self.now = max(self.now, when)
            t.timed_out = True
            t.state = "ready"
            t.cond = None
            t.wake = None

    def _advance_switch(self):
        while self.pi < len(self.points) and self.points[self.pi] <= self.step:
            self.pi += 1
        self.next_switch = self.points[self.pi] if self.pi < len(self.points) else -1

    def _give(self, t):
        if t.state == "blocked":
            t.state, t.cond, t.wake = "ready", None, None
        if self.on_switch is not None and t is not self.current:
            self.on_switch(self.current, t)
        self.current = t
        t.lock.release()

    def _leave(self, t):
        """The current task stops (done or blocked): hand over."""
        if self.aborting:
            self.main_lock.release()
            return
        nxt = self._pick_any()
        if nxt is None:
            self.main_lock.release()
        else:
            self.schedule.append((self.step, t.tid, nxt.tid))
            self._give(nxt)

    # ---- called by running tasks
    def point(self, label=None):
        self.step += 1
        if self.step > self.max_steps:
            self.failure = self.failure or Violation("no-progress", "no end after %d scheduling points" % self.max_steps)
            self._abort_here()
        if self.aborting:
            raise SimAbort()
        if label is not None and self.st is not None:
            self.st.log("pt", self.current.tid if self.current else -1, label)
        if self.step != self.next_switch:
            return
        k = self.switches[self.step]
        self._advance_switch()
        self._switch(k)

    def switch(self, k):
        """Hand over now to the k-th other task that can go on."""
        self.step += 1
        if self.aborting:
            raise SimAbort()
        self._switch(k)

    def _switch(self, k):
        me = self.current
        r = self._runnable(but=me)
        # a sleeping task may also be chosen: time passes while this one is stalled
        while self.sleepers and not (self.sleepers[0][2].state == "blocked" and self.sleepers[0][2].wake == self.sleepers[0][:2]):
            heapq.heappop(self.sleepers)
        if self.sleepers and (not r or k % (len(r) + 1) == len(r)):
            when, seq, t = heapq.heappop(self.sleepers)
            self.now = max(self.now, when)
            t.timed_out, t.state, t.cond, t.wake = True, "ready", None, None
            target = t
        elif r:
            target = r[k % len(r)]
        else:
            return
        self.schedule.append((self.step, me.tid, target.tid))
        self.forced.append(self.now)
        self._give(target)
        me.lock.acquire()
        if self.aborting:
            raise SimAbort()

    def _abort_here(self):
        self.aborting = True
        raise SimAbort()

    def wait(self, cond, timeout=None, label="wait"):
        """Block the current task until cond() (True) or timeout (False)."""
        self.point(label)
        if cond():
            return True
        me = self.current
        me.timed_out = False
        me.cond = cond
        if timeout is not None:
            self.seq += 1
            me.wake = (self.now + max(0.0, timeout), self.seq)
            heapq.heappush(self.sleepers, me.wake + (me,))
        me.state = "blocked"
        nxt = self._pick_any()
        if nxt is me:
            me.state, me.cond, me.wake = "ready", None, None
            self.current = me
        else:
            if nxt is None:
                self.main_lock.release()
            else:
                self.schedule.append((self.step, me.tid, nxt.tid))
                self._give(nxt)
            me.lock.acquire()
        if self.aborting:
            raise SimAbort()
        return bool(cond())

    def sleep(self, dt):
        self.wait(lambda: False, timeout=float(dt), label="sleep")

    def kill_current(self):
        """The current task's process dies: it never runs again, not even its clean-up code."""
        me = self.current
        me.state = "done"
        me.killed = True
        self._leave(me)
        me.lock.acquire()
        _alloc_forever()

    def kill_all(self):
        for t in self.tasks:
            if t.state != "done":
                t.state, t.killed = "done", True
        me = self.current
        self.main_lock.release()
        me.lock.acquire()
        _alloc_forever()

    # ---- driving
    def run(self):
        """Run every task to the end.  Raises Violation on deadlock or lack of progress."""
        Sched.current_sched = self
        first = self._pick_any()
        stuck = []
        if first is not None:
            self._give(first)
            self.main_lock.acquire()
            stuck = [t for t in self.tasks if t.state != "done"]
            if stuck:
                self.aborting = True
                for t in stuck:
                    if t.state != "done":
                        self._unwind(t)
        Sched.current_sched = None
        if self.st is not None:
            self.st.sim_time += self.now - self.start_time
            self.st.log("sched", self.step, tuple(self.schedule[:2000]))
        if self.failure:
            raise self.failure
        if stuck:
            raise Violation("deadlock", "no task can continue: " + ", ".join(t.name for t in stuck))

    def _unwind(self, t):
        # each unwound task ends with _leave, which returns the baton to the main thread
        t.lock.release()
        self.main_lock.acquire()


def cur():
    return Sched.current_sched


# ------------------------------------------------------------------ stand-ins for threading, queue, time
class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "SimThread-%d" % SimThread._n
        self.daemon = bool(daemon)
        self._task = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        s = cur()

        def body():
            try:
                self.run()
            except SimAbort:
                raise
            except BaseException as e:
                self._task.uncaught = e

        self._task = s.spawn(body, self.name)
        s.point("thread-start")

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        cur().wait(lambda: not self._task.alive, timeout, "join")

    def is_alive(self):
        return self._task is not None and self._task.alive

    isAlive = is_alive
    getName = lambda self: self.name  # noqa: E731

    def setDaemon(self, v):
        self.daemon = v

    @property
    def ident(self):
        return None if self._task is None else self._task.tid + 1000

    native_id = ident


class SimLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        s = cur()
        if s is None or s.current is None:
            return True
        me = s.current
        if self.reentrant and self._owner is me:
            self._count += 1
            return True
        free = lambda: self._owner is None  # noqa: E731
        if not blocking:
            s.point("lock")
            if not free():
                return False
        elif not s.wait(free, None if timeout is None or timeout < 0 else timeout, "lock"):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        s = cur()
        if s is None or s.current is None:
            return
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        s.point("unlock")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        s = cur()
        if s:
            s.point("event-is-set")
        return self._f

    isSet = is_set

    def set(self):
        self._f = True
        if cur():
            cur().point("event-set")

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        return cur().wait(lambda: self._f, timeout, "event-wait")


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock or SimRLock()
        self._gen = 0
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        g = self._gen
        self._lock.release()
        r = cur().wait(lambda: self._gen > g, timeout, "cond")
        self._lock.acquire()
        return r

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        self._gen += 1

    notify_all = notifyAll = notify


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        s = cur()
        if not blocking:
            s.point("sem")
            if self._v <= 0:
                return False
        elif not s.wait(lambda: self._v > 0, timeout, "sem"):
            return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=function, args=args or (), kwargs=kwargs or {})
        self.interval = interval
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished._f:
            self._target(*self._args, **self._kwargs)
        self.finished.set()


class SimQueue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._q = []
        self._unfinished = 0

    def _pop(self):
        return self._q.pop(0)

    def empty(self):
        cur().point("queue-empty")
        return not self._q

    def full(self):
        return 0 < self.maxsize <= len(self._q)

    def qsize(self):
        cur().point("queue-size")
        return len(self._q)

    def put(self, item, block=True, timeout=None):
        s = cur()
        s.point("queue-put")
        if self.full():
            if not block or not s.wait(lambda: not self.full(), timeout, "queue-put"):
                raise _queue.Full
        self._q.append(item)
        self._unfinished += 1

    def get(self, block=True, timeout=None):
        s = cur()
        s.point("queue-get")
        if not self._q:
            if not block or not s.wait(lambda: bool(self._q), timeout, "queue-get"):
                raise _queue.Empty
        return self._pop()

    def put_nowait(self, item):
        return self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        self._unfinished -= 1

    def join(self):
        cur().wait(lambda: self._unfinished == 0, None, "queue-join")


class SimLifoQueue(SimQueue):
    def _pop(self):
        return self._q.pop()


def patch_threading(patcher):
    """Replace threading/queue/time with scheduler-controlled stand-ins."""
    import time as _time

    for name, obj in dict(Thread=SimThread, Lock=SimLock, RLock=SimRLock, Event=SimEvent, Condition=SimCondition,
                          Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore, Timer=SimTimer).items():
        patcher.set(_threading, name, obj)
    patcher.set(_queue, "Queue", SimQueue)
    patcher.set(_queue, "SimpleQueue", SimQueue)
    patcher.set(_queue, "LifoQueue", SimLifoQueue)
    s = lambda: cur()  # noqa: E731
    patcher.set(_time, "sleep", lambda dt: s().sleep(dt))
    patcher.set(_time, "time", lambda: s().now if s() else 1.0e9)
    patcher.set(_time, "monotonic", lambda: s().now - s().start_time if s() else 0.0)
    patcher.set(_time, "perf_counter", lambda: s().now - s().start_time if s() else 0.0)


class Patcher:
    """setattr with undo."""

    def __init__(self):
        self._undo = []

    def set(self, obj, name, value):
        self._undo.append((obj, name, getattr(obj, name), name in getattr(obj, "__dict__", {})))
        setattr(obj, name, value)

    def undo(self):
        while self._undo:
            obj, name, old, own = self._undo.pop()
            if own:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    setattr(obj, name, old)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.undo()
