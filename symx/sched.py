"""A scheduler for real Python threads: exactly one runs at a time, and who runs next is an input of the scenario.

Threads may be preempted before every line of the code under test (up to a number of preemptions) and switch when they
block.  Locks, conditions, events and threads are replaced by versions the scheduler knows about.
"""
from __future__ import annotations

import _thread
import contextlib
import sys
import threading
from typing import Any, Callable, Iterator

from symx import repo

REAL = {n: getattr(threading, n) for n in ("Thread", "Lock", "RLock", "Condition", "Event", "Semaphore")}


class Abort(BaseException):
    """ends a thread whose scenario is over"""


class Task:
    def __init__(self, name: str):
        self.name = name
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.ready: Callable = lambda: True  # may it run?
        self.timed = False  # would it continue after some time anyway?
        self.done = False
        self.real: Any = None
        self.exc: Any = None


class Sched:
    def __init__(self, env: Any, preemptions: int, files: tuple = ("/mixtera/",)):
        self.env, self.left, self.files = env, preemptions, files
        self.main = Task("main")
        self.tasks = [self.main]
        self.cur = self.main
        self.n = 0
        self.aborting = False
        self.failure: Any = None
        self.deadlock = False

    # -- switching
    def runnable(self) -> list:
        return [t for t in self.tasks if not t.done and t.ready()]

    def _go(self, t: Task) -> None:
        """hand over to t and wait for our next turn"""
        me = self.cur
        if t is me:
            return
        self.cur = t
        t.gate.release()
        if me.done:
            return
        me.gate.acquire()
        self._resumed(me)

    def _resumed(self, me: Task) -> None:
        if self.aborting and me is not self.main:
            raise Abort()
        if me is self.main and self.failure is not None and not self.aborting:
            f, self.failure = self.failure, None
            raise f

    def pick(self, cands: list) -> Task:
        self.n += 1
        return cands[self.env.choice(f"next{self.n}", len(cands))] if len(cands) > 1 else cands[0]

    def point(self) -> None:
        """a place where the running thread may be preempted"""
        if self.aborting or self.left <= 0:
            return
        others = [t for t in self.runnable() if t is not self.cur]
        if not others:
            return
        self.n += 1
        if self.env.bool(f"preempt{self.n}"):
            self.left -= 1
            self._go(self.pick(others))

    def block(self, ready: Callable, timed: bool = False) -> None:
        """wait until ready()"""
        me = self.cur
        while not ready():
            if self.aborting:
                raise Abort()
            me.ready, me.timed = ready, timed
            cands = self.runnable()
            if not cands:
                late = [t for t in self.tasks if not t.done and t.timed]
                if late:
                    if late[0] is me:
                        break
                    late[0].ready = lambda: True
                    cands = late[:1]
            if not cands:
                self.deadlock = True
                if me is self.main:
                    me.ready = lambda: True
                    self.env.check(False, "no thread waits forever")
                    raise Abort()
                self.main.ready = lambda: True
                self.failure = self.failure or DeadlockSeen()
                cands = [self.main]
            self._go(self.pick(cands))
            if me.timed and me.ready() and not ready():
                break
        me.ready, me.timed = (lambda: True), False

    def finish(self, t: Task) -> None:
        t.done = True
        if self.aborting:
            self.cur = self.main
            self.main.gate.release()
            return
        if self.failure is not None:
            self.main.ready = lambda: True
            self.cur = self.main
            self.main.gate.release()
            return
        cands = self.runnable()
        if not cands:
            late = [x for x in self.tasks if not x.done and x.timed]
            cands = late[:1]
        if not cands:
            self.failure = DeadlockSeen()
            cands = [self.main]
        try:
            nxt = self.pick(cands)
        except BaseException as e:  # pylint: disable=broad-except
            self.failure = e
            nxt = self.main
        nxt.ready = lambda: True
        self.cur = nxt
        nxt.gate.release()

    # -- tracing
    def trace(self, frame: Any, event: str, _arg: Any) -> Any:
        if not any(f in frame.f_code.co_filename for f in self.files):
            return None
        return self.local

    def local(self, _frame: Any, event: str, _arg: Any) -> Any:
        if event == "line":
            self.point()
        return self.local

    def close(self) -> None:
        sys.settrace(None)
        self.aborting = True
        for t in self.tasks:
            if t is not self.main and not t.done and t.real is not None:
                self.cur = t
                t.gate.release()
                self.main.gate.acquire()


class DeadlockSeen(Exception):
    pass


def make_classes(s: Sched) -> dict:
    class Thread:
        def __init__(self, group: Any = None, target: Any = None, name: Any = None, args: tuple = (), kwargs: Any = None, *, daemon: Any = None):
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self.name, self.daemon = name or f"thread{len(s.tasks)}", daemon
            self.task: Any = None

        def run(self) -> None:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def start(self) -> None:
            t = self.task = Task(self.name)

            def body() -> None:
                t.gate.acquire()
                try:
                    if not s.aborting:
                        sys.settrace(s.trace)
                        self.run()
                except Abort:
                    pass
                except Exception as e:  # a thread that ends with an error only reports it
                    if getattr(e, "engine", False) or type(e).__module__.startswith("symx"):
                        s.failure = e
                    t.exc = e
                except BaseException as e:  # pylint: disable=broad-except
                    s.failure = e
                finally:
                    sys.settrace(None)
                    s.finish(t)

            t.real = _thread.start_new_thread(body, ())
            s.tasks.append(t)

        def join(self, timeout: Any = None) -> None:
            s.block(lambda: self.task.done, timeout is not None)

        def is_alive(self) -> bool:
            return self.task is not None and not self.task.done

    class Lock:
        re = False

        def __init__(self) -> None:
            self.owner: Any = None
            self.depth = 0

        def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
            s.point()
            if self.re and self.owner is s.cur:
                self.depth += 1
                return True
            if self.owner is not None and not blocking:
                return False
            s.block(lambda: self.owner is None, timeout >= 0)
            if self.owner is not None:
                return False
            self.owner, self.depth = s.cur, 1
            return True

        def release(self) -> None:
            self.depth -= 1
            if self.depth <= 0:
                self.owner = None
            if not s.aborting:
                s.point()

        def locked(self) -> bool:
            return self.owner is not None

        def __enter__(self) -> Any:
            self.acquire()
            return self

        def __exit__(self, *_: Any) -> None:
            self.release()

    class RLock(Lock):
        re = True

    class Condition:
        def __init__(self, lock: Any = None) -> None:
            self.lock = lock or RLock()
            self.acquire, self.release = self.lock.acquire, self.lock.release
            self.waiting: list = []

        def __enter__(self) -> Any:
            self.lock.acquire()
            return self

        def __exit__(self, *_: Any) -> None:
            self.lock.release()

        def wait(self, timeout: Any = None) -> bool:
            if self.lock.owner is not s.cur:
                raise RuntimeError("cannot wait on un-acquired lock")
            ticket = [False]
            self.waiting.append(ticket)
            depth, self.lock.depth, self.lock.owner = self.lock.depth, 0, None
            try:
                s.block(lambda: ticket[0], timeout is not None)
            finally:
                if ticket in self.waiting:
                    self.waiting = [x for x in self.waiting if x is not ticket]
                if not s.aborting:
                    s.block(lambda: self.lock.owner is None)
                self.lock.owner, self.lock.depth = s.cur, depth
            return ticket[0]

        def wait_for(self, predicate: Any, timeout: Any = None) -> Any:
            r = predicate()
            while not r:
                if not self.wait(timeout) and timeout is not None:
                    return predicate()
                r = predicate()
            return r

        def notify(self, n: int = 1) -> None:
            if self.lock.owner is not s.cur:
                raise RuntimeError("cannot notify on un-acquired lock")
            for _ in range(min(n, len(self.waiting))):
                self.waiting.pop(0)[0] = True

        def notify_all(self) -> None:
            self.notify(len(self.waiting))

    class Event:
        def __init__(self) -> None:
            self.flag = False

        def is_set(self) -> bool:
            return self.flag

        def set(self) -> None:
            self.flag = True
            s.point()

        def clear(self) -> None:
            self.flag = False

        def wait(self, timeout: Any = None) -> bool:
            s.point()
            s.block(lambda: self.flag, timeout is not None)
            return self.flag

    class Semaphore:
        def __init__(self, value: int = 1) -> None:
            self.v = value

        def acquire(self, blocking: bool = True, timeout: Any = None) -> bool:
            s.point()
            if not blocking and self.v <= 0:
                return False
            s.block(lambda: self.v > 0, timeout is not None)
            if self.v <= 0:
                return False
            self.v -= 1
            return True

        def release(self, n: int = 1) -> None:
            self.v += n
            s.point()

        __enter__ = acquire

        def __exit__(self, *_: Any) -> None:
            self.release()

    return dict(Thread=Thread, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore)


@contextlib.contextmanager
def scheduled(env: Any, preemptions: int, p: repo.Patcher) -> Iterator[Sched]:
    """Everything in the body that uses threads is scheduled by the inputs of the scenario."""
    s = Sched(env, preemptions)
    new = make_classes(s)
    for n, cls in new.items():
        p.everywhere(REAL[n], cls)
        p.attr(threading, n, cls)
    sys.settrace(s.trace)
    try:
        yield s
    except DeadlockSeen:
        sys.settrace(None)
        env.check(False, "no thread waits forever")
    finally:
        sys.settrace(None)
        s.close()
