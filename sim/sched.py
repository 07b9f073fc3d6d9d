"""Deterministic thread scheduler.

The library's callers are real threads, but exactly one of them runs at any
instant and which one is the scheduler's decision, taken at every source line
(or every bytecode) the library executes.  The decisions come from a seeded
generator or from an explicit list recorded by an earlier run.
"""
import random
import sys
import threading
import _thread

from . import boot
from .core import Violation, HarnessError

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
       "OSError": OSError, "RuntimeError": RuntimeError}


class _Task:
    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.blocked = None
        self.error = None
        self.points = 0


class Stop(BaseException):
    """Unwinds parked tasks after the run has already failed."""


class Sched:
    WATCHDOG = 60.0

    def __init__(self, ctx, spec, max_steps=400000):
        self.ctx = ctx
        idx = getattr(ctx, "sched_count", 0)
        ctx.sched_count = idx + 1
        pinned = ctx.plan.get("pinned")
        if pinned is not None and idx < len(pinned):
            spec = dict(spec, mode="explicit", switches=pinned[idx])
        self.spec = spec
        self.mode = spec.get("mode", "rand")
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 0.1)
        self.opcodes = bool(spec.get("opcodes"))
        self.explicit = {int(s): t for s, t in spec.get("switches", [])}
        self.pct = set(spec.get("points", []))
        self.interrupts = {}
        for tid, nth, exc in spec.get("interrupts", []):
            self.interrupts[(tid, nth)] = exc
        self.fired = []
        self.tasks = []
        self.cur = None
        self.step = 0
        self.switches = []
        self.max_steps = max_steps
        self.dead = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.locals = {}
        self.sigs = 0

    # ------------------------------------------------------------ tasks
    def spawn(self, name, fn):
        self.tasks.append(_Task(len(self.tasks), name, fn))

    def current_tid(self):
        return self.locals.get(_thread.get_ident())

    def _body(self, task):
        task.lock.acquire()
        self.locals[_thread.get_ident()] = task.tid
        try:
            if self.dead is None:
                self.trace_on()
                task.fn(self)
        except Stop:
            pass
        except BaseException as e:
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            self._forced()

    def trace_on(self):
        sys.settrace(self._global_trace)

    def trace_off(self):
        sys.settrace(None)

    def _global_trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(boot.PEAK_ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self._local_trace

    # ------------------------------------------------------------ decisions
    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def point(self, frame=None):
        tid = self.current_tid()
        if tid is None:
            return
        task = self.tasks[tid]
        if self.dead is not None:
            raise Stop()
        self.step += 1
        task.points += 1
        if self.step > self.max_steps:
            self._die(Violation("no-progress", f"no completion within {self.max_steps} scheduler steps"))
            raise Stop()
        exc = self.interrupts.pop((tid, task.points), None)
        if exc is not None:
            where = f"{frame.f_code.co_name}:{frame.f_lineno}" if frame is not None else "?"
            self.fired.append((tid, task.points, exc))
            self.ctx.fault("interrupt:" + exc)
            self.ctx.probe("interrupted_in:" + (frame.f_code.co_name if frame is not None else "?"))
            raise EXC[exc]("simulated")
        to = self._choose(task)
        if to is not None and to is not task:
            self._note(task, to, frame)
            self._switch(task, to)

    def _choose(self, task):
        if self.mode == "explicit":
            t = self.explicit.get(self.step)
            if t is None or t >= len(self.tasks):
                return None
            t = self.tasks[t]
            return t if (not t.done and t.blocked is None) else None
        others = [t for t in self._runnable() if t is not task]
        if not others:
            return None
        if self.mode == "pct":
            if self.step in self.pct:
                return self.rng.choice(others)
            return None
        if self.rng.random() < self.p:
            return self.rng.choice(others)
        return None

    def _note(self, task, to, frame):
        self.switches.append([self.step, to.tid])
        self.sigs = hash_mix(self.sigs, task.tid, to.tid,
                             frame.f_code.co_name if frame is not None else "-",
                             frame.f_lineno if frame is not None else 0)

    def _switch(self, task, to):
        self.cur = to
        to.lock.release()
        if not task.lock.acquire(True, self.WATCHDOG):
            raise HarnessError("parked task was never resumed")
        if self.dead is not None:
            raise Stop()

    def _forced(self):
        """The running task ended or blocked: someone else must run."""
        self.step += 1
        run = self._runnable()
        if not run:
            if all(t.done for t in self.tasks):
                self.main.release()
                return
            if self.dead is None:
                self.dead = Violation("deadlock", "every unfinished thread is blocked")
            # unwind the blocked ones, one at a time
            for t in self.tasks:
                if not t.done and t.blocked is not None:
                    t.blocked = None
                    t.lock.release()
                    return
            self.main.release()
            return
        to = None
        if self.mode == "explicit":
            t = self.explicit.get(self.step)
            if t is not None and t < len(self.tasks) and self.tasks[t] in run:
                to = self.tasks[t]
        elif len(run) > 1:
            to = self.rng.choice(run)
        if to is None:
            to = run[0]
        self.switches.append([self.step, to.tid])
        self.cur = to
        to.lock.release()

    def _die(self, exc):
        if self.dead is None:
            self.dead = exc

    # ------------------------------------------------------------ locks
    def lock_point(self):
        self.point(None)

    def block_on(self, lock):
        task = self.tasks[self.current_tid()]
        task.blocked = lock
        self._forced()
        if not task.lock.acquire(True, self.WATCHDOG):
            raise HarnessError("blocked task was never resumed")
        if self.dead is not None:
            raise Stop()

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None

    # ------------------------------------------------------------ run
    def run(self):
        boot.current_sched = self
        try:
            threads = []
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                th.start()
                threads.append(th)
            first = self._first()
            self.switches.append([0, first.tid])
            self.cur = first
            first.lock.release()
            if not self.main.acquire(True, self.WATCHDOG * 3):
                raise HarnessError("simulated threads did not finish")
            for th in threads:
                th.join(10)
        finally:
            boot.current_sched = None
        self.ctx.steps += self.step
        self.ctx.recorded.setdefault("switches", []).append(self.switches)
        self.ctx.probe("thread_switches", len(self.switches))
        if self.dead is not None:
            raise self.dead
        return self.tasks

    def _first(self):
        if self.mode == "explicit":
            t = self.explicit.get(0, 0)
            return self.tasks[t if t < len(self.tasks) else 0]
        return self.rng.choice(self.tasks)


def hash_mix(h, *parts):
    import zlib
    return zlib.crc32(repr((h,) + parts).encode())


def gen_spec(rng, nthreads, est_points=400):
    """A random scheduling policy (swarm style: the policy itself varies)."""
    mode = rng.choice(["rand", "rand", "pct", "pct"])
    spec = dict(mode=mode, seed=rng.randrange(1 << 30), opcodes=rng.random() < 0.15)
    if mode == "rand":
        spec["p"] = rng.choice([0.02, 0.05, 0.15, 0.4])
    else:
        n = est_points * (8 if spec["opcodes"] else 1)
        spec["points"] = sorted(rng.randrange(1, n) for _ in range(rng.choice([1, 2, 3, 5, 8])))
    return spec


class Interrupter:
    """Raise an exception at the n-th library line executed by the current thread.

    With nth=None it only counts (and, with record=True, lists) the lines.
    Single-threaded companion of Sched.  `also`: further source files whose
    lines count (the user's own design files)."""

    def __init__(self, ctx, nth=None, exc="KeyboardInterrupt", record=False, also=()):
        self.ctx, self.nth, self.exc = ctx, nth, exc
        self.count = 0
        self.fired = False
        self.where = None
        self.lines = [] if record else None
        self.also = tuple(also)
        self.raised = None

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(boot.PEAK_ROOT) and fn not in self.also:
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.lines is not None:
                self.lines.append((frame.f_code.co_filename, frame.f_lineno))
            if self.nth is not None and self.count == self.nth and not self.fired:
                self.fired = True
                fn = frame.f_code.co_filename
                fn = fn[len(boot.PEAK_ROOT):] if fn.startswith(boot.PEAK_ROOT) else "design"
                self.where = f"{fn}:{frame.f_code.co_name}"
                self.ctx.fault("interrupt:" + self.exc)
                self.ctx.probe("interrupted_in:" + frame.f_code.co_name)
                self.raised = EXC[self.exc]("simulated")
                raise self.raised
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        self.ctx.steps += self.count
        return False


def pick_point(lines, u, v):
    """Choose one of the executed line points so that every distinct source
    line is equally likely, whatever its number of executions (u, v in [0,1))."""
    by = {}
    for n, l in enumerate(lines, 1):
        by.setdefault(l, []).append(n)
    if not by:
        return None
    occ = by[sorted(by)[int(u * len(by))]]
    return occ[int(v * len(occ))]
