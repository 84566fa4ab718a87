"""Deterministic thread scheduler: real threads, of which exactly one runs at a time.

Each task runs in its own thread under sys.settrace; before every line of library code it executes it
parks and the scheduler decides, from its seeded generator, who runs next.  Threads the library starts
itself (threading.Thread) become tasks too; joining one, or waiting for a simulated lock, makes a task
unrunnable until it is over."""
import os
import sys
import threading
import time
import _thread

from . import env

_real_start, _real_join = threading.Thread.start, threading.Thread.join


STALL = 20


class Stuck(Exception):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.result = None
        self.waits = None          # callable: may it run?
        self.lines = 0
        self.prio = 0
        self.p = None              # switch probability of its own
        self.started = False
        self.stalled = False       # waits for something the scheduler does not see
        self.extra = False         # a thread the library started
        self.meet = None           # (code object, lines still to run in it)
        self.held = None           # code object another task should go through first


class Sched:
    """policy: 'random' (switch at every line with probability p), 'pct' (priorities with a few change points),
    'meet' (random, and now and then a task is held at a random line inside a function until another task has
    gone through that same function)"""

    def __init__(self, rng, p=0.2, policy="random", changes=3, horizon=2000, on_switch=None):
        self.rng, self.p, self.policy = rng, p, policy
        self.tasks = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.points = 0
        self.blocked = 0
        self.met = 0
        self.stalls = 0
        self.trace_log = []
        self.root = os.path.realpath(env.REPO) + os.sep + "hydraxmpm" + os.sep
        self.change_at = sorted(rng.randrange(1, horizon) for _ in range(changes)) if policy == "pct" else []
        self.local = threading.local()
        self.files = {}
        self.on_switch = on_switch

    def add(self, name, fn):
        t = Task(name, fn)
        t.prio = self.rng.random()
        self.tasks.append(t)
        return t

    # -- inside tasks ------------------------------------------------------
    def _ours(self, f):
        r = self.files.get(f)
        if r is None:
            r = self.files[f] = os.path.realpath(f).startswith(self.root)
        return r

    def _trace(self, frame, event, arg):
        if event == "call" and self._ours(frame.f_code.co_filename):
            if self.policy == "meet":
                t = getattr(self.local, "task", None)
                if t is not None and t is self.cur and t.meet is None and self.rng.random() < 0.15:
                    c = frame.f_code
                    t.meet = [c, self.rng.randrange(max(1, len({l for _, _, l in c.co_lines() if l}) - 1))]
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        elif event == "return" and self.policy == "meet":
            t = getattr(self.local, "task", None)
            if t is not None and t is self.cur:
                c = frame.f_code
                if t.meet is not None and t.meet[0] is c:
                    t.meet = None
                for o in self.tasks:
                    if o is not t and o.held is c:
                        o.held = None
                        self.met += 1
        return self._line

    def point(self, frame=None, p=None):
        """A switch point: before a library line, or (with its own probability) between two events of a task."""
        t = getattr(self.local, "task", None)
        if t is None:
            return
        if t.stalled:              # came back by itself: line up again
            t.stalled = False
            t.go.acquire()
            return
        if t is not self.cur:
            return
        self.points += 1
        t.lines += 1
        if self.policy == "meet" and frame is not None and t.meet is not None and t.meet[0] is frame.f_code:
            t.meet[1] -= 1
            if t.meet[1] < 0:
                t.held, t.meet = t.meet[0], None
                self._park(t)
                return
        if self.policy != "pct":
            if self.rng.random() >= ((self.p if t.p is None else t.p) if p is None else p):
                return
        else:
            if not (self.change_at and self.points >= self.change_at[0]):
                return
            while self.change_at and self.points >= self.change_at[0]:
                self.change_at.pop(0)
            t.prio = -self.rng.random()
        self._park(t)

    def local_p(self, p):
        t = getattr(self.local, "task", None)
        if t is not None:
            t.p = p

    def _park(self, t):
        self.main.release()
        t.go.acquire()

    def wait(self, ready):
        """Current task cannot go on before ready()."""
        t = getattr(self.local, "task", None)
        if t is None or ready():
            return
        t.waits = ready
        self._park(t)
        t.waits = None

    def _body(self, t):
        t.go.acquire()
        self.local.task = t
        sys.settrace(self._trace)
        try:
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            self.local.task = None
            t.done = True
            if t.stalled:
                t.stalled = False
            else:
                self.main.release()

    # -- scheduler ---------------------------------------------------------
    def run(self, limit=None):
        """Runs until all tasks are over (or limit picks were made)."""
        prev = getattr(Sched, "active", None)
        Sched.active = self
        try:
            n = idle = 0
            while True:
                ready = [t for t in self.tasks if not t.done and not t.stalled and (t.waits is None or t.waits())]
                if not ready:
                    if any(t.stalled for t in self.tasks):
                        if idle > 100 or not any(not t.done and not t.extra for t in self.tasks):
                            if any(not t.done and not t.extra for t in self.tasks):
                                raise Stuck("tasks never come back: " + ", ".join(t.name for t in self.tasks if not t.done))
                            return
                        idle += 1
                        time.sleep(0.1)
                        continue
                    if any(not t.done for t in self.tasks):
                        raise Stuck("tasks wait for each other: " + ", ".join(t.name for t in self.tasks if not t.done))
                    return
                if limit is not None and n >= limit:
                    return
                n += 1
                free = [t for t in ready if t.held is None]
                if not free:
                    t = ready[self.rng.randrange(len(ready))]
                    t.held = None
                    free = [t]
                ready = free
                if self.policy != "pct":
                    t = ready[self.rng.randrange(len(ready))]
                else:
                    t = max(ready, key=lambda q: q.prio)
                if t is not self.cur:
                    self.switches += 1
                    self.trace_log.append((t.name, t.lines))
                self.cur = t
                if not t.started:
                    t.started = True
                    _thread.start_new_thread(self._body, (t,))
                t.go.release()
                if not self.main.acquire(timeout=STALL):
                    t.stalled = True
                    self.stalls += 1
                    self.cur = None
                    continue
                self.cur = None if t.done else t
        finally:
            Sched.active = prev


Sched.active = None


class SimLock:
    """Lock of the library, as the scheduler sees it."""

    def __init__(self, reentrant=False):
        self.owner, self.n, self.re = None, 0, reentrant

    def _me(self):
        s = Sched.active
        t = getattr(s.local, "task", None) if s else None
        return t if t is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.re and self.owner is me:
            self.n += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            s = Sched.active
            if s is not None:
                s.blocked += 1
                s.wait(lambda: self.owner is None)
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class _Threading:
    """What a library module sees as `threading`: threads become tasks, locks become simulated locks."""

    def __init__(self):
        self._m = threading

    def __getattr__(self, k):
        return getattr(self._m, k)

    Lock = staticmethod(lambda: SimLock())
    RLock = staticmethod(lambda: SimLock(True))


def patch():
    """Threads started while a scheduler is active become its tasks."""
    def start(self):
        s = Sched.active
        if s is None or getattr(s.local, "task", None) is None:
            return _real_start(self)
        self._hx = s.add(self.name, self.run)
        self._hx.extra = True
        self._started.set()

    def join(self, timeout=None):
        t = getattr(self, "_hx", None)
        if t is None:
            return _real_join(self, timeout)
        if Sched.active is not None:
            Sched.active.wait(lambda: t.done)

    threading.Thread.start, threading.Thread.join = start, join


def patch_library():
    """Give every library module that uses threading the simulated locks."""
    for n, m in list(sys.modules.items()):
        if (n == "hydraxmpm" or n.startswith("hydraxmpm.")) and getattr(m, "threading", None) is threading:
            m.threading = _Threading()
