"""A controlled scheduler for code that runs tasks on a thread pool.

The pool is replaced by one of the same interface whose threads run one at a time. They
may be switched at every traced line, or start and end of a function, of the code under
test (a preemption), and have to
be when one ends or blocks (a free choice). A schedule is a dictionary from the number
of such a point to the alternative taken there, the default being to go on with the
current thread, or with the first one that can run. Executions are deterministic given
their schedule, so all schedules up to a number of preemptions can be explored by
deviating from the executions seen so far.
"""

import concurrent.futures
import contextlib
import multiprocessing
import sys
import threading
from concurrent.futures import CancelledError, Future
from unittest import mock

MAIN = -1


class Stuck(Exception):
    """Nothing can run, although the main thread waits for something."""


class Task:
    def __init__(self, number, future, call):
        self.number, self.future, self.call = number, future, call
        self.go = threading.Semaphore(0)
        self.thread = None
        self.over = False


class Scheduler:
    """One execution of the code under test, with a given schedule."""

    def __init__(self, schedule, source, fail=None, lines=True):
        self.schedule, self.source, self.fail = schedule, source, fail
        self.lines = lines
        self.points = []  # (number of alternatives, whether taking them is preemptive)
        self.tasks = []
        self.limit = {}
        self.current = MAIN
        self.main_go = threading.Semaphore(0)
        self.order = []  # in which the tasks completed
        self.switches = 0
        self.active_most = 0

    # -- decisions -------------------------------------------------------------
    def enabled(self):
        """The tasks that a worker of their pool runs or can start."""
        found, used = [], {}
        for task in self.tasks:
            if not task.over and used.get(task.pool, 0) < self.limit[task.pool]:
                used[task.pool] = used.get(task.pool, 0) + 1
                found.append(task.number)
        self.active_most = max(self.active_most, len(found))
        return found

    def decide(self, options, preemptive):
        """Choose among the options, the first of which is the default."""
        if len(options) < 2:
            return options[0]
        self.points.append((len(options), preemptive))
        choice = self.schedule.get(len(self.points) - 1, 0)
        return options[choice]

    def point(self, me):
        """A point of the running thread at which it may be preempted."""
        others = [t for t in self.enabled() if t != me]
        if me != MAIN and self.main_ready():
            others.append(MAIN)
        chosen = self.decide([me, *others], True)
        if chosen != me:
            self.switch(me, chosen)

    main_wants = None

    def main_ready(self):
        return self.main_wants is None or self.main_wants()

    def switch(self, me, other):
        self.switches += 1
        self.current = other
        mine = self.main_go if me == MAIN else self.tasks[me].go
        self.start(other)
        mine.acquire()

    def start(self, other):
        if other == MAIN:
            self.main_go.release()
            return
        task = self.tasks[other]
        if task.thread is None:
            task.thread = threading.Thread(target=self.work, args=(task,), daemon=True)
            task.thread.start()
        task.go.release()

    # -- the main thread -------------------------------------------------------
    def block(self, ready):
        """Let the tasks run until the condition holds and the main thread is chosen."""
        self.main_wants = ready
        while True:
            options = self.enabled()
            if ready():
                options = [MAIN, *options]
            if not options:
                raise Stuck
            chosen = self.decide(options, False)
            if chosen == MAIN:
                break
            self.switch(MAIN, chosen)
            if ready():
                break  # chosen by the thread that ended or was preempted
        self.main_wants = None

    # -- the tasks -------------------------------------------------------------
    def work(self, task):
        task.go.acquire()
        if task.future.set_running_or_notify_cancel():
            sys.settrace(self.tracer(task.number))
            try:
                if self.fail == task.number:
                    raise InjectedError(task.number)
                result = task.call()
            except BaseException as error:  # noqa: BLE001
                sys.settrace(None)
                task.error = error
                self.end(task)
                task.future.set_exception(error)
            else:
                sys.settrace(None)
                self.end(task)
                task.future.set_result(result)
        else:
            self.end(task)
        options = self.enabled()
        if self.main_ready():
            options = [MAIN, *options]
        elif not options:
            options = [MAIN]
        chosen = self.decide(options, False)
        self.current = chosen
        self.start(chosen)

    def end(self, task):
        task.over = True
        self.order.append(task.number)

    def tracer(self, number):
        source = self.source

        def local(frame, event, arg):  # noqa: ARG001
            if event == "line" if self.lines else event == "return":
                self.point(number)
            return local

        def watch(frame, event, arg):  # noqa: ARG001
            if not frame.f_code.co_filename.startswith(source):
                return None
            if not self.lines:
                frame.f_trace_lines = False
                self.point(number)
            return local

        return watch if source else None


class InjectedError(Exception):
    """Raised by a task instead of doing its work."""


def replacement(scheduler):
    """A thread pool whose tasks are run by the scheduler."""

    class ControlledFuture(Future):
        def result(self, timeout=None):  # noqa: ARG002
            if not self.done():
                scheduler.block(self.done)
            return super().result(0)

        def exception(self, timeout=None):  # noqa: ARG002
            if not self.done():
                scheduler.block(self.done)
            return super().exception(0)

    class Pool(concurrent.futures.Executor):
        def __init__(self, max_workers=None, *_args, **_kwargs):
            if max_workers is None:
                max_workers = 4
            if max_workers <= 0:
                raise ValueError("max_workers must be greater than 0")
            self._key = len(scheduler.limit)
            scheduler.limit[self._key] = max_workers
            self._closed = False

        def submit(self, fn, /, *args, **kwargs):
            if self._closed:
                raise RuntimeError("cannot schedule new futures after shutdown")
            future = ControlledFuture()
            task = Task(len(scheduler.tasks), future, lambda: fn(*args, **kwargs))
            task.pool = self._key
            scheduler.tasks.append(task)
            scheduler.point(MAIN)
            return future

        def shutdown(self, wait=True, *, cancel_futures=False):
            self._closed = True
            mine = [t for t in scheduler.tasks if t.pool == self._key]
            if cancel_futures:
                for t in mine:
                    if t.thread is None and t.future.cancel():
                        t.over = True
            if wait:
                if not all(t.over for t in mine):
                    scheduler.block(lambda: all(t.over for t in mine))

    def as_completed(fs, timeout=None):  # noqa: ARG001
        waiting = list(dict.fromkeys(fs))
        numbers = {t.future: t.number for t in scheduler.tasks}
        while waiting:
            ready = lambda: any(f.done() for f in waiting)  # noqa: E731
            scheduler.block(ready)
            done = sorted((f for f in waiting if f.done()),
                          key=lambda f: scheduler.order.index(numbers[f])
                          if numbers[f] in scheduler.order else -1)
            waiting.remove(done[0])
            yield done[0]

    def wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):  # noqa: ARG001
        fs = set(fs)
        every = return_when == concurrent.futures.ALL_COMPLETED

        def ready():
            done = [f.done() for f in fs]
            failed = return_when == concurrent.futures.FIRST_EXCEPTION and any(
                f.done() and not f.cancelled() and Future.exception(f, 0) for f in fs)
            return all(done) or failed or (
                not every and return_when == concurrent.futures.FIRST_COMPLETED
                and any(done))

        if not ready():
            scheduler.block(ready)
        done = {f for f in fs if f.done()}
        return concurrent.futures._base.DoneAndNotDoneFutures(done, fs - done)  # noqa: SLF001

    return Pool, as_completed, wait


@contextlib.contextmanager
def controlled(scheduler, *modules):
    """Replace thread pools, in the library and in the given modules."""
    pool, completed, wait = replacement(scheduler)
    names = {"ThreadPoolExecutor": pool, "as_completed": completed, "wait": wait}
    with contextlib.ExitStack() as stack:
        for module in (concurrent.futures, *modules):
            for name, value in names.items():
                if hasattr(module, name):
                    stack.enter_context(mock.patch.object(module, name, value))
        stack.enter_context(mock.patch.object(
            concurrent.futures.thread, "ThreadPoolExecutor", pool))
        stack.enter_context(mock.patch.object(multiprocessing, "cpu_count", lambda: 4))
        yield


def explore(execute, bound, shard=(0, 1), free=True):
    """Execute all schedules with at most `bound` preemptions.

    If not free, the other deviations from the default schedule count as preemptions
    too. `execute(schedule)` runs one and returns its points. The schedules are divided
    by their first deviation.
    """
    number, of = shard
    stack = [({}, -1, 0)]
    count = 0
    while stack:
        schedule, last, used = stack.pop()
        root = last < 0
        points = execute(schedule, root and number > 0)
        count += not (root and number > 0)
        for i in range(last + 1, len(points)):
            if root and i % of != number:
                continue
            options, preemptive = points[i]
            cost = preemptive or not free
            if used + cost > bound:
                continue
            for k in range(1, options):
                stack.append(({**schedule, i: k}, i, used + cost))
    return count


__all__ = ["CancelledError", "InjectedError", "Scheduler", "Stuck", "controlled",
           "explore"]
