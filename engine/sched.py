"""Threads under a scheduler whose every choice is a symbolic input.

One thread runs at a time; at every scheduling point of the instrumented modules
the running thread may be preempted (at most `bound` times per run).  Locks are
known to the scheduler.  The same code drives symbolic runs and replays."""
import sys
import threading
import types

from . import core

Thread = threading.Thread


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = threading.Semaphore(0)
        self.result = self.error = self.signal = None
        self.done = False
        self.waiting = None


class Scheduler:
    def __init__(self, ctx, bound):
        self.ctx, self.bound = ctx, bound
        self.tasks, self.current = [], None
        self.tick = 0
        self.points = 0
        self.aborting = False
        self.main = threading.Semaphore(0)
        self.deadlock = False

    # -- running ------------------------------------------------------------
    def run(self, fns):
        """-> tasks with .result or .error; ends when all have ended"""
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        prof = sys.getprofile()
        for t in self.tasks:
            t.thread = Thread(target=self.body, args=(t, prof), daemon=True)
            t.thread.start()
        sys.setprofile(None)
        try:
            self.switch_to(self.pick(list(self.tasks), "first"))
            self.main.acquire()
        finally:
            sys.setprofile(prof)
            self.current = None
            if not all(t.done for t in self.tasks):
                self.aborting = True
                for t in self.tasks:
                    t.go.release()
            for t in self.tasks:
                t.thread.join(5)
        for t in self.tasks:
            if t.signal is not None:
                raise t.signal
        if self.deadlock:
            self.ctx.check_that(False, "no deadlock")
        return self.tasks

    def body(self, t, prof):
        try:
            t.go.acquire()
            if self.aborting:
                return
            if prof is not None:
                sys.setprofile(prof)
            try:
                t.result = t.fn()
            finally:
                sys.setprofile(None)
        except Abort:
            return
        except Exception as e:
            t.error = e
        except BaseException as e:
            t.signal = e
        finally:
            t.done = True
            if not self.aborting:
                try:
                    self.leave(t)
                except BaseException as e:
                    t.signal = e
                    self.main.release()

    def leave(self, t):
        if t.signal is not None or all(x.done for x in self.tasks):
            self.main.release()
            return
        r = self.runnable()
        if not r:
            self.deadlock = True
            self.main.release()
            return
        self.switch_to(self.pick(r, "next%d" % self.tick))

    def pick(self, ts, name):
        if len(ts) == 1:
            return ts[0]
        return ts[int(self.ctx.int("run " + name, 0, len(ts) - 1))]

    def runnable(self):
        return [t for t in self.tasks if not t.done and not (t.waiting is not None and t.waiting.owner not in (None, t))]

    def switch_to(self, t):
        self.current = t
        t.go.release()

    def hand_over(self, t):
        """the current thread stops and t continues"""
        me = self.current
        if t is me:
            return
        prof = sys.getprofile()
        sys.setprofile(None)
        self.switch_to(t)
        me.go.acquire()
        if self.aborting:
            raise Abort()
        sys.setprofile(prof)

    def inside(self):
        return self.current is not None and threading.current_thread() is self.current.thread and not self.aborting

    def point(self):
        if self.aborting and threading.current_thread() in [t.thread for t in self.tasks]:
            raise Abort()
        if not self.inside():
            return
        self.tick += 1
        if self.bound <= 0:
            return
        others = [t for t in self.runnable() if t is not self.current]
        if not others:
            return
        self.points += 1
        if self.ctx.flip("preempt%d" % self.tick):
            self.bound -= 1
            self.hand_over(self.pick(others, "after%d" % self.tick))


class Lock:
    """scheduler-aware lock"""
    reentrant = False

    def __init__(self):
        self.owner, self.n = None, 0

    @property
    def sched(self):
        return getattr(core.cur(), "sched", None)

    def who(self):
        s = self.sched
        return s.current if s is not None and s.inside() else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self.who()
        while self.n and not (self.reentrant and self.owner is me):
            if not blocking or timeout == 0:
                return False
            s = self.sched
            if me == "main":
                raise Deadlock("lock is never released")
            me.waiting = self
            r = [t for t in s.runnable() if t is not me]
            if self.owner is me:
                r = []
            if not r:
                s.deadlock = True
                s.main.release()
                me.go.acquire()
                raise Abort()
            s.hand_over(s.pick(r, "blocked%d" % s.tick))
            me.waiting = None
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner is not self.who():
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self): return self.n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        if self.sched is not None and self.sched.aborting:
            return
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")


class RLock(Lock):
    reentrant = True


def module():
    th = types.ModuleType("threading")
    for n in dir(threading):
        if not n.startswith("__"):
            setattr(th, n, getattr(threading, n))
    th.Lock, th.RLock = Lock, RLock
    return th


def install(ctx):
    """scenario option yields: instrumented threads"""
    ctx.sched = None

    def threads(fns, bound):
        ctx.sched = Scheduler(ctx, bound)
        return ctx.sched.run(fns)
    ctx.threads = threads
    ctx.stub("threading", module())


def point():
    s = getattr(core.cur(), "sched", None)
    if s is not None:
        s.point()
