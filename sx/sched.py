"""Controlled schedules of the threads under test.

Threads of the code under test run one at a time (on a thread of their own, with a strict hand-over) and may be
interrupted where they touch something shared: when started, and after each operation of a queue.  The same
scheduler drives the symbolic run (every decision is a choice of the engine) and the replay on the real code
(the decisions are those recorded).
"""
from __future__ import annotations

import _thread
import queue as _queue
import threading as _threading

from .core import Hang, Steer


class Kill(Steer):
    """ends a thread whose path is over"""


class Coro:
    """a function on a thread of its own that runs only between resume() and the next suspend()"""

    def __init__(self, fn):
        self.fn = fn
        self.done = False
        self.started = False
        self.exc = None
        self.killed = False
        self.mine = _thread.allocate_lock()
        self.theirs = _thread.allocate_lock()
        self.mine.acquire()
        self.theirs.acquire()

    def _body(self):
        self.mine.acquire()
        try:
            if not self.killed:
                self.fn()
        except Kill:
            pass
        except BaseException as e:  # noqa: BLE001
            self.exc = e
        self.done = True
        self.theirs.release()

    def resume(self):
        if self.done:
            return
        if not self.started:
            self.started = True
            old = _threading.stack_size(64 << 20)
            try:
                _thread.start_new_thread(self._body, ())
            finally:
                _threading.stack_size(old)
        self.mine.release()
        self.theirs.acquire()
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e

    def suspend(self):
        self.theirs.release()
        self.mine.acquire()
        if self.killed:
            raise Kill

    def kill(self):
        if self.done or not self.started:
            self.done = True
            return
        self.killed = True
        try:
            self.resume()
        except BaseException:  # noqa: BLE001
            pass


class Sched:
    def __init__(self, choose, switches=0):
        self.choose = choose  # n -> 0..n-1
        self.left = switches
        self.coros: list[Coro] = []
        self.cur: Coro | None = None
        self.eager: dict = {}
        self.steps = 0  # progress made: queue operations and ends of threads
        self.errors: list = []

    # -------------------------------------------------------------- running
    def spawn(self, fn):
        c = Coro(fn)
        self.coros.append(c)
        if self.cur is not None:
            self.eager[c] = True
            return c
        self.eager[c] = self.choose(2) == 0
        if self.eager[c]:
            self.run(c)
        return c

    def run(self, c):
        prev, self.cur = self.cur, c
        try:
            c.resume()
        finally:
            self.cur = prev
            if c.done:
                self.steps += 1

    def live(self):
        return [c for c in self.coros if not c.done]

    def pause(self):
        """give way to the others"""
        if self.cur.killed:
            return
        c = self.cur
        c.suspend()
        self.cur = c

    def progress(self):
        """let the other threads run; False if none of them gets anywhere"""
        if self.cur is not None:
            self.pause()
            return True
        n = self.steps
        for c in self.live():
            self.run(c)
            if self.steps != n:
                return True
        return self.steps != n

    def point(self):
        """after an operation on something shared"""
        self.steps += 1
        c = self.cur
        if c is None or c.killed:
            return
        if not self.eager[c]:
            self.pause()
        elif self.left > 0 and self.choose(2):
            self.left -= 1
            self.pause()

    def ask(self):
        """before the reader looks at something shared"""
        if self.cur is None and self.left > 0 and self.live() and self.choose(2):
            self.left -= 1
            for c in self.live():
                self.eager[c] = True
                self.run(c)

    def expires(self):
        """whether a wait with a time limit is over before the others get anywhere"""
        if self.left > 0 and (self.cur is not None or self.live()) and self.choose(2):
            self.left -= 1
            return True
        return False

    def wait(self, ready, what):
        """until ready(); in a thread of the code under test or in the reader"""
        while not ready():
            if self.cur is not None:
                if self.cur.killed:
                    raise Kill
                self.pause()
            elif not self.progress():
                raise Hang(what)

    def finish(self):
        """let everything run to its end; True if it does"""
        while self.live():
            n = self.steps
            for c in self.live():
                self.run(c)
            if self.steps == n:
                return False
        return True

    def kill(self):
        for c in self.coros:
            self.cur = c
            c.kill()
        self.cur = None


def classes(sched):
    """stand-ins for the classes of threading and queue; sched() is the scheduler of this run"""

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self._target, self._args, self._kw = target, args, kwargs or {}
            self._c = None
            self.daemon = daemon
            self.name = name or "T"
            self.ident = None

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kw)

        def _go(self):
            from .model_pa import MemoryUnsafe

            try:
                self.run()
            except Steer:
                raise
            except (KeyboardInterrupt, MemoryError, MemoryUnsafe):
                raise
            except (GeneratorExit, SystemExit):
                pass
            except BaseException as e:  # a dying thread prints its traceback and is gone  # noqa: BLE001
                sched().errors.append(e)

        def start(self):
            if self._c is not None:
                raise RuntimeError("threads can only be started once")
            self.ident = 1
            self._c = object()
            # the thread may run to its end before start() returns
            self._c = sched().spawn(self._go)

        def join(self, timeout=None):
            if not isinstance(self._c, Coro):
                raise RuntimeError("cannot join thread before it is started")
            if timeout is not None:
                if not sched().expires():
                    sched().progress()
                return
            sched().wait(lambda: self._c.done, "join of a thread that never ends")

        def is_alive(self):
            sched().ask()
            return isinstance(self._c, Coro) and not self._c.done

    class Queue:
        _lifo = False

        def __init__(self, maxsize=0):
            self._q = []
            self.maxsize = maxsize
            self._open = 0

        def full(self):
            # a sheet may always have more cells than fit: a small capacity stands for any
            return 0 < min(self.maxsize, 2) <= len(self._q)

        def put(self, x, block=True, timeout=None):
            if self.full():
                if not block or timeout is not None:
                    if timeout is not None:
                        sched().progress()
                    if self.full():
                        raise _queue.Full
                else:
                    sched().wait(lambda: not self.full(), "queue.put on a full queue which nobody reads")
            self._q.append(x)
            self._open += 1
            sched().point()

        def put_nowait(self, x):
            self.put(x, False)

        def get(self, block=True, timeout=None):
            if not self._q:
                if not block:
                    if not sched().expires():
                        sched().progress()
                    raise _queue.Empty
                if timeout is not None:
                    while not self._q and not sched().expires() and sched().progress():
                        pass
                    if not self._q:
                        raise _queue.Empty
                sched().wait(lambda: self._q, "queue.get on an empty queue with no producer left")
            x = self._q.pop(-1 if self._lifo else 0)
            sched().point()
            return x

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            sched().ask()
            r = not self._q
            if r and sched().cur is None:
                sched().progress()
            return r

        def qsize(self):
            sched().ask()
            r = len(self._q)
            if not r and sched().cur is None:
                sched().progress()
            return r

        def task_done(self):
            if self._open <= 0:
                raise ValueError("task_done() called too many times")
            self._open -= 1
            sched().point()

        def join(self):
            sched().wait(lambda: self._open == 0, "queue.join with tasks never done")

    class LifoQueue(Queue):
        _lifo = True

    class Event:
        def __init__(self):
            self._f = False

        def is_set(self):
            sched().ask()
            r = self._f
            if not r and sched().cur is None:
                sched().progress()
            return r

        def set(self):
            self._f = True
            sched().point()

        def clear(self):
            self._f = False

        def wait(self, timeout=None):
            if timeout is not None:
                while not self._f and sched().cur is None and not sched().expires() and sched().progress():
                    pass
                return self._f
            sched().wait(lambda: self._f, "wait for an event that never comes")
            return True

    class Lock:
        _re = False

        def __init__(self):
            self._n = 0
            self._by = None

        def acquire(self, blocking=True, timeout=-1):
            me = sched().cur
            free = lambda: not self._n or (self._re and self._by is me)
            if not free():
                if not blocking:
                    return False
                sched().wait(free, "a lock that is never released")
            self._n += 1
            self._by = me
            return True

        def release(self):
            if not self._n:
                raise RuntimeError("release unlocked lock")
            self._n -= 1

        def locked(self):
            return bool(self._n)

        __enter__ = acquire

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        _re = True

    class Future:
        def __init__(self):
            self._done = False
            self._v = self._e = None

        def done(self):
            sched().ask()
            if not self._done and sched().cur is None:
                sched().progress()
            return self._done

        def result(self, timeout=None):
            sched().wait(lambda: self._done, "result of a call that never ends")
            if self._e is not None:
                raise self._e
            return self._v

        def exception(self, timeout=None):
            sched().wait(lambda: self._done, "result of a call that never ends")
            return self._e

    class Executor:
        def __init__(self, max_workers=None, *a, **k):
            self._c = []

        def submit(self, fn, /, *a, **k):
            f = Future()

            def go():
                try:
                    f._v = fn(*a, **k)
                except Steer:
                    raise
                except BaseException as e:  # noqa: BLE001
                    f._e = e
                f._done = True

            self._c.append(sched().spawn(go))
            return f

        def map(self, fn, *its, **k):
            fs = [self.submit(fn, *a) for a in zip(*its)]
            return (f.result() for f in fs)

        def shutdown(self, wait=True, **k):
            if wait:
                sched().wait(lambda: all(c.done for c in self._c), "a call that never ends")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
            return False

    return {
        "threading": dict(Thread=Thread, Event=Event, Lock=Lock, RLock=RLock),
        "queue": dict(Queue=Queue, SimpleQueue=Queue, LifoQueue=LifoQueue),
        "concurrent.futures": dict(ThreadPoolExecutor=Executor, Future=Future),
    }


# ------------------------------------------------------------------------------ the replay on the real code
def install(sched, modules):
    """Replaces what the modules took from threading and queue by the stand-ins."""
    import concurrent.futures
    import queue
    import threading
    import types

    cls = classes(lambda: sched)
    real = {"threading": threading, "queue": queue, "concurrent.futures": concurrent.futures}
    subst, shims = {}, {}
    for name, over in cls.items():
        m = real[name]
        shim = types.SimpleNamespace(**{**vars(m), **over})
        shims[id(m)] = shim
        for k, c in over.items():
            subst[id(getattr(m, k))] = c
    for m in modules:
        if getattr(m, "__sched__", None) is sched:
            continue
        for k, v in list(vars(m).items()):
            if id(v) in subst:
                setattr(m, k, subst[id(v)])
            elif id(v) in shims:
                setattr(m, k, shims[id(v)])
        m.__sched__ = sched
