"""
A controlled scheduler for threads that run GroCo code.

Exactly one thread runs at a time. Before every line of the files under test (and, optionally, every
bytecode) the running thread stops and the scheduler decides who goes on. Locks that are created by
the code under test are replaced by cooperative ones, so that waiting for them is visible.
"""

import os
import sys
import threading

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
TIMEOUT = 60

CURRENT = threading.local()


class Deadlock(Exception):
    pass


class CooperativeLock:
    """A (reentrant or plain) lock that tells the scheduler when it has to wait."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.guard = REAL_LOCK()
        self.owner, self.depth = None, 0

    def _try(self):
        me = threading.get_ident()
        with self.guard:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.depth = me, self.depth + 1
                return True
            return False

    def acquire(self, blocking=True, timeout=-1):
        task = getattr(CURRENT, "task", None)
        import time

        while not self._try():
            if not blocking:
                return False
            if task is None:
                time.sleep(0.001)
            else:
                task.wait_for(self)
        return True

    def release(self):
        with self.guard:
            self.depth -= 1
            if self.depth == 0:
                self.owner = None

    def locked(self):
        return self.owner is not None

    def available_to(self, ident):
        return self.owner is None or (self.reentrant and self.owner == ident)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def __deepcopy__(self, memo):
        return CooperativeLock(self.reentrant)


def install_locks(repo):
    """Give cooperative locks to the code in this directory, and real ones to everyone else."""

    def factory(reentrant, real):
        def make():
            caller = sys._getframe(1).f_code.co_filename
            if caller.startswith(repo + os.sep):
                return CooperativeLock(reentrant)
            return real()

        return make

    threading.Lock = factory(False, REAL_LOCK)
    threading.RLock = factory(True, REAL_RLOCK)


class Task:
    def __init__(self, scheduler, index, function):
        self.scheduler, self.index, self.function = scheduler, index, function
        self.go = threading.Semaphore(0)
        self.done, self.result, self.error = False, None, None
        self.waiting_for = None
        self.where = "start"
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        CURRENT.task = self
        self.ident = threading.get_ident()
        self.pause("start")
        sys.settrace(self.trace)
        try:
            self.result = self.function()
        except Exception as error:
            self.error = error
        finally:
            sys.settrace(None)
            self.done = True
            self.scheduler.back.release()

    def pause(self, where):
        self.where = where
        self.scheduler.back.release()
        if not self.go.acquire(timeout=10 * TIMEOUT):
            raise RuntimeError("the scheduler is gone")

    def wait_for(self, lock):
        self.waiting_for = lock
        self.pause("lock")
        self.waiting_for = None

    def trace(self, frame, event, argument):
        if event != "call" or not self.scheduler.interesting(frame.f_code.co_filename):
            return None
        frame.f_trace_opcodes = self.scheduler.opcodes
        if self.scheduler.functions_only:
            self.pause((frame.f_code.co_name, frame.f_lineno, "call"))
        return self.local_trace

    def local_trace(self, frame, event, argument):
        if event == self.scheduler.event:
            self.pause((frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
        return self.local_trace

    @property
    def enabled(self):
        if self.done:
            return False
        return self.waiting_for is None or self.waiting_for.available_to(self.ident)


class Scheduler:
    """
    Runs the functions in threads of their own, once, by the given choices and then without
    preemptions. Records at every point which threads were enabled, the running one first.
    """

    def __init__(self, functions, files, opcodes=False, between=None, functions_only=False):
        self.files, self.opcodes, self.between = files, opcodes, between
        self.functions_only = functions_only
        self.event = "return" if functions_only else "opcode" if opcodes else "line"
        self.known = {}
        self.back = threading.Semaphore(0)
        self.tasks = [Task(self, i, f) for i, f in enumerate(functions)]
        self.points, self.choices = [], []

    def interesting(self, filename):
        if filename not in self.known:
            self.known[filename] = any(part in filename for part in self.files)
        return self.known[filename]

    def resume(self, task):
        task.go.release()
        if not self.back.acquire(timeout=TIMEOUT):
            raise Deadlock(f"no progress after {task.where}")

    def run(self, prefix=(), expected=None):
        for task in self.tasks:
            task.thread.start()
            self.back.acquire(timeout=TIMEOUT)
        running = None
        while True:
            enabled = [t for t in self.tasks if t.enabled]
            if not enabled:
                if all(t.done for t in self.tasks):
                    break
                raise Deadlock("all threads wait for locks")
            enabled.sort(key=lambda t: (t is not running, t.index))
            step = len(self.choices)
            point = tuple((t.index, t.where) for t in enabled)
            if expected is not None and step < len(prefix) and point != expected[step]:
                raise RuntimeError(
                    f"replaying diverged at step {step}: {point} instead of {expected[step]}"
                )
            choice = prefix[step] if step < len(prefix) else 0
            self.points.append((point, running is not None and running in enabled))
            self.choices.append(choice)
            if self.between is not None:
                self.between()
            running = enabled[choice]
            self.resume(running)
        for task in self.tasks:
            task.thread.join(TIMEOUT)
        return self


def explore(run, bound, visit, start=(), part=(0, 1)):
    """
    Every schedule with at most `bound` preemptions, after the choices `start`. run(prefix, expected)
    gives a finished Scheduler; part=(i, n) is the share of the schedules, by the place of the first
    deviation.
    """

    def cost_of(points, choices, upto):
        return sum(
            1 for (_, still), choice in zip(points[:upto], choices[:upto]) if choice and still
        )

    def recurse(prefix, expected, top):
        done = run(prefix, expected)
        if not top or part[0] == 0:
            visit(done)
        points = [p for p, _ in done.points]
        for i in range(len(prefix), len(done.points)):
            if top and i % part[1] != part[0]:
                continue
            point, still = done.points[i]
            cost = cost_of(done.points, done.choices, i) + (1 if still else 0)
            if cost > bound:
                continue
            for alternative in range(1, len(point)):
                recurse(done.choices[:i] + [alternative], points[: i + 1], False)

    recurse(list(start), None, True)
