"""A deterministic scheduler for real threads: one runs at a time, and hands over at source lines of histbook.

Which thread runs, and for how many lines, is decided by a seeded generator.  A thread can be killed at a chosen line.
Locks that histbook takes from the threading module are simulated, so that a thread waiting for one is not scheduled.
(Other ways to block natively are noticed by a real-time watchdog, and another thread goes on meanwhile.)"""
import _thread
import os
import random
import sys
import threading as _threading
import types

# so that they do not see the simulated locks and threads
import numpy
import concurrent.futures.thread
import multiprocessing.pool
import queue

REPO = os.environ.get("HISTBOOK_REPO", "/repo")
PREFIX = os.path.join(os.path.abspath(REPO), "histbook") + os.sep

_current = {}       # thread ident -> Thread

class Thread(object):
    def __init__(self, sim, index, fn, kill=None, killexc=None):
        self.sim, self.index, self.fn = sim, index, fn
        self.kill, self.killexc = kill, killexc
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.lines = 0
        self.left = 0
        self.done = self.killed = self.lost = self.started = False
        self.waiting = None
        self.result = self.error = None

    def run(self):
        self.go.acquire()
        _current[_thread.get_ident()] = self
        try:
            sys.settrace(self.calltrace)
            try:
                self.result = self.fn()
            finally:
                sys.settrace(None)
        except BaseException as err:
            self.error = err
        finally:
            _current.pop(_thread.get_ident(), None)
            self.done = True
            self.sim.back.release()

    def calltrace(self, frame, event, arg):
        return self.linetrace if frame.f_code.co_filename.startswith(PREFIX) else None

    def linetrace(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.linetrace

    def point(self):
        self.lines += 1
        if self.lines == self.kill:
            self.killed = True
            raise self.killexc("killed at line event {0}".format(self.lines))
        self.left -= 1
        if self.left <= 0 or self.lost:
            self.yield_()

    def yield_(self):
        if self.lost:
            self.lost = False       # it was taken for blocked; wait to be chosen again
        else:
            self.sim.back.release()
        self.go.acquire()

class Deadlock(Exception):
    pass

class Sim(object):
    def __init__(self, seed, mean, maxswitch=None, watchdog=10.0):
        self.rng = random.Random(seed)
        self.mean = mean
        self.maxswitch = maxswitch
        self.watchdog = watchdog
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.threads = []
        self.schedule = []
        self.switches = 0
        self.native = 0
        self.last = None
        self.early = 0.0
        self.driver = _thread.allocate_lock()   # held by who gives turns
        self.watching = False

    def watch(self):
        """If the program waits in some way that is not simulated, go on after a while of real time."""
        if self.watching:
            return
        self.watching = True
        def pump():
            import time
            seen = -1
            while self.watching:
                for i in range(20):
                    time.sleep(0.1)
                    if not self.watching:
                        return
                if len(self.schedule) == seen and self.driver.acquire(False):
                    try:
                        while self.watching and any(t.started and not t.done for t in self.threads):
                            self.native += 1
                            self.turn()
                    except Deadlock:
                        return
                    finally:
                        self.driver.release()
                seen = len(self.schedule)
        _thread.start_new_thread(pump, ())

    def finish(self):
        """Let the threads that are left come to their end."""
        with self.driver:
            try:
                self.until(lambda: all(t.done for t in self.threads if t.started))
            finally:
                self.watching = False

    def add(self, fn, kill=None, killexc=None):
        t = Thread(self, len(self.threads), fn, kill, killexc)
        self.threads.append(t)
        return t

    def start(self, t):
        t.started = True
        _thread.start_new_thread(t.run, ())

    def run(self, maxsteps=1000000):
        for t in self.threads:
            self.start(t)
        self.until(lambda: all(t.done for t in self.threads), maxsteps)

    def until(self, condition, maxsteps=1000000):
        """Give turns to the started threads until the condition holds."""
        while not condition():
            if len(self.schedule) > maxsteps:
                raise Deadlock("no end after {0} turns".format(maxsteps))
            self.turn()

    def turn(self):
        started = [t for t in self.threads if t.started]
        ready = [t for t in started if not t.done and not t.lost and (t.waiting is None or not t.waiting.held)]
        if not ready:
            if any(t.lost and not t.done for t in started):
                if not self.back.acquire(timeout=self.watchdog * 6):
                    import time
                    time.sleep(0.05)
                    if all(t.lost or t.done for t in started) and not any(t.done and not t.lost for t in started):
                        raise Deadlock("all threads are blocked")
                return
            raise Deadlock("all threads wait for locks")
        if self.maxswitch is not None and self.switches >= self.maxswitch:
            t = ready[0]
            t.left = 10**9
        else:
            t = self.rng.choice(ready)
            t.left = 1 + int(self.rng.expovariate(1.0 / self.mean)) if self.mean > 1 else 1
        if len(self.schedule) > 150000:
            t.left = max(t.left, 5000)      # enough of fine interleaving: bring a long program to its end
        before = t.lines
        if t is not self.last and self.last is not None:
            self.switches += 1
        self.last = t
        t.go.release()
        if not self.back.acquire(timeout=self.watchdog):
            t.lost = True
            self.native += 1
        self.schedule.append((t.index, t.lines - before))

def pause():
    """The calling simulated thread ends its turn."""
    t = _current.get(_thread.get_ident())
    if t is not None:
        t.yield_()

class SimThread(object):
    """Takes the place of threading.Thread in the code under test: runs under the current simulation."""
    sim = None          # set for each run
    can_start = None    # function called when a thread is started, may raise
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "simulated"
        self.daemon = bool(daemon)
        self._t = None
    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)
    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        if SimThread.can_start is not None:
            SimThread.can_start()
        sim = SimThread.sim
        t = sim.add(self.run)
        self._t = t
        sim.start(t)
        sim.watch()
        if _current.get(_thread.get_ident()) is None and sim.early and sim.rng.random() < sim.early:
            with sim.driver:
                if not all(t.done for t in sim.threads):
                    sim.turn()      # it may get ahead of the thread that starts it
    def join(self, timeout=None):
        t = self._t
        if t is None:
            raise RuntimeError("cannot join thread before it is started")
        me = _current.get(_thread.get_ident())
        if me is not None:
            while not t.done:
                me.waiting = _Joining(t)
                me.yield_()
                me.waiting = None
            return
        sim = SimThread.sim
        with sim.driver:
            if timeout is not None:
                for i in range(sim.rng.randint(0, 50)):
                    if not t.done:
                        sim.turn()
            else:
                sim.until(lambda: t.done)
    def is_alive(self):
        return self._t is not None and not self._t.done
    isAlive = is_alive
    def setDaemon(self, daemon):
        self.daemon = daemon
    @property
    def ident(self):
        return None if self._t is None else self._t.index + 1

class _Joining(object):
    def __init__(self, t):
        self.t = t
    @property
    def held(self):
        return not self.t.done

class Lock(object):
    """A lock whose waiting threads are not scheduled."""
    reentrant = False
    def __init__(self):
        self.held = False
        self.owner = None
        self.count = 0
        self.real = _thread.allocate_lock()
    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.held and self.owner == me:
            self.count += 1
            return True
        t = _current.get(me)
        if t is None:
            if not (self.real.acquire(blocking, timeout) if blocking else self.real.acquire(False)):
                return False
        else:
            while self.held:
                if not blocking:
                    return False
                t.waiting = self
                t.yield_()
                t.waiting = None
            self.real.acquire(False)
        self.held, self.owner, self.count = True, me, 1
        return True
    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.held, self.owner = False, None
            self.real.release()
    def locked(self):
        return self.held
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *exc):
        self.release()

class RLock(Lock):
    reentrant = True

class _Proxy(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_threading, name)

def import_histbook(threads=False):
    """Import histbook with simulated locks."""
    if "histbook" in sys.modules:
        raise ImportError("histbook is already imported")
    proxy = _Proxy("threading")
    proxy.Lock, proxy.RLock = Lock, RLock
    if threads:
        proxy.Thread = SimThread
    sys.modules["threading"] = proxy
    try:
        from sim import env
    finally:
        sys.modules["threading"] = _threading
