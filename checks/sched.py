"""A controlled scheduler for Python threads and a preemption-bounded explorer.

Only one virtual thread runs at a time; at every point() the scheduler decides who goes on.  Queue, Lock, Condition,
Event and Semaphore here are drop-in replacements whose operations are scheduling points and whose waits are visible.
"""
import collections
import queue as real_queue
import sys
import threading as real_threading


class Abort(BaseException):
    pass


class VT:
    def __init__(self, sid, fn):
        self.id, self.fn = sid, fn
        self.sem = real_threading.Semaphore(0)
        self.pred = None
        self.can_timeout = False
        self.timed_out = False
        self.done = False
        self.exc = None


class Scheduler:
    def __init__(self, choices=(), horizon=20000):
        self.choices = list(choices)
        self.log = []          # (number of alternatives, chosen, running thread still enabled)
        self.vts = []
        self.cur = None
        self.aborting = False
        self.deadlock = None
        self.timeouts = 0
        self.horizon = horizon
        self.main_done = real_threading.Semaphore(0)

    # ------------------------------------------------------------ running
    def run(self, fn):
        main = self.spawn(fn)
        self.cur = main
        main.sem.release()
        self.main_done.acquire()
        self.aborting = True
        for v in self.vts:
            if not v.done:
                v.sem.release()
        for v in self.vts:
            v.thread.join()
        return main

    def spawn(self, fn):
        v = VT(len(self.vts), fn)
        self.vts.append(v)

        def body():
            v.sem.acquire()
            try:
                if not self.aborting:
                    v.result = fn()
            except Abort:
                pass
            except BaseException as e:
                v.exc = e
            v.done = True
            if v.id == 0 or self.aborting:
                if v.id == 0:
                    self.main_done.release()
                return
            try:
                self.switch()
            except Abort:
                pass
        v.thread = real_threading.Thread(target=body, daemon=True)
        v.thread.start()
        return v

    def enabled(self):
        out = []
        for v in [self.cur] + [v for v in self.vts if v is not self.cur]:
            if not v.done and (v.pred is None or v.pred()):
                out.append(v)
        return out

    def switch(self):
        """Decides who runs next; returns when the caller is chosen again."""
        me = self.cur
        if self.aborting:
            raise Abort
        en = self.enabled()
        if not en:
            late = [v for v in self.vts if not v.done and v.can_timeout]
            if not late:
                self.deadlock = [v.id for v in self.vts if not v.done]
                self.finish(me)
                return
            late[0].timed_out = True
            self.timeouts += 1
            en = [late[0]]
        n = len(self.log)
        if n > self.horizon:
            self.deadlock = "horizon"
            self.finish(me)
            return
        if len(en) > 1:
            c = self.choices[n] if n < len(self.choices) else 0
            if c >= len(en):
                raise AssertionError("replay diverged")
            self.log.append((len(en), c, en[0] is me))
            nxt = en[c]
        else:
            nxt = en[0]
        if nxt is not me:
            self.cur = nxt
            nxt.sem.release()
            if not me.done:
                me.sem.acquire()
                if self.aborting:
                    raise Abort

    def finish(self, me):
        self.aborting = True
        self.main_done.release()
        if not me.done:
            raise Abort

    def point(self):
        me = self.cur
        if self.aborting:
            raise Abort
        me.pred = None
        self.switch()

    def wait(self, pred, can_timeout=False):
        """Blocks until pred() holds; False if it timed out instead."""
        me = self.cur
        me.pred, me.can_timeout, me.timed_out = pred, can_timeout, False
        self.switch()
        me.pred, me.can_timeout = None, False
        return not me.timed_out


S = None  # the scheduler of the running execution


def inside():
    return S is not None and any(v.thread is real_threading.current_thread() for v in S.vts)


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.q = collections.deque()
        self.peak = 0

    __class_getitem__ = classmethod(lambda cls, x: cls)

    def qsize(self):
        return len(self.q)

    def empty(self):
        S.point()
        return not self.q

    def full(self):
        S.point()
        return 0 < self.maxsize <= len(self.q)

    def put(self, x, block=True, timeout=None):
        S.point()
        free = lambda: not (0 < self.maxsize <= len(self.q))  # noqa: E731
        if not free():
            if not block:
                raise real_queue.Full
            if not S.wait(free, timeout is not None):
                raise real_queue.Full
        self.q.append(x)
        self.peak = max(self.peak, len(self.q))

    def get(self, block=True, timeout=None):
        S.point()
        if not self.q:
            if not block:
                raise real_queue.Empty
            if not S.wait(lambda: bool(self.q), timeout is not None):
                raise real_queue.Empty
        return self.q.popleft()

    def put_nowait(self, x):
        self.put(x, False)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass


class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        S.point()
        if self.owner is not None:
            if not blocking:
                return False
            if not S.wait(lambda: self.owner is None, timeout >= 0):
                return False
        self.owner = S.cur
        return True

    def release(self):
        self.owner = None
        S.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.owner = None
        if not S.aborting:
            S.point()


class RLock(Lock):
    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is S.cur:
            self.n += 1
            return True
        ok = Lock.acquire(self, blocking, timeout)
        self.n = 1
        return ok

    def release(self):
        self.n -= 1
        if self.n == 0:
            Lock.release(self)

    def __exit__(self, *a):
        self.n -= 1
        if self.n == 0:
            Lock.__exit__(self)


class Semaphore:
    def __init__(self, value=1):
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        S.point()
        if self.v <= 0:
            if not blocking or not S.wait(lambda: self.v > 0, timeout is not None):
                return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n
        S.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.v += 1


class Event:
    def __init__(self):
        self.f = False

    def set(self):
        self.f = True
        S.point()

    def clear(self):
        self.f = False

    def is_set(self):
        S.point()
        return self.f

    def wait(self, timeout=None):
        S.point()
        return self.f or S.wait(lambda: self.f, timeout is not None)


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.__exit__()

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        self.lock.release()
        ok = S.wait(lambda: tok[0], timeout is not None)
        self.lock.acquire()
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class threading_shim:
    Lock, RLock, Semaphore, BoundedSemaphore, Event, Condition = Lock, RLock, Semaphore, Semaphore, Event, Condition
    current_thread = real_threading.current_thread
    get_ident = real_threading.get_ident
    Thread = real_threading.Thread
    local = real_threading.local


class queue_shim:
    Queue = SimpleQueue = Queue
    Full, Empty = real_queue.Full, real_queue.Empty


def parallel_map(func, args, num_proc, max_batch_size=1):
    """The contract of context.parallel_map under the scheduler: at most num_proc workers take the tasks in order;
    results in order; the first exception surfaces."""
    args = list(args)
    num_proc = min(num_proc, len(args))
    if num_proc <= 1:
        return list(map(func, args))
    res, err, nxt, left = [None] * len(args), [], [0], [num_proc]

    def worker():
        try:
            while nxt[0] < len(args) and not err:
                i = nxt[0]
                nxt[0] += 1
                res[i] = func(args[i])
        except Abort:
            raise
        except Exception as e:
            err.append(e)
        finally:
            left[0] -= 1
    for _ in range(num_proc):
        S.spawn(worker)
    S.wait(lambda: bool(err) or left[0] == 0)
    if err:
        raise err[0]
    return res


def explore(run, bound, visit, prefix=(), stats=None, cap=None, free_blocking=True):
    """run(choices) -> (log, observation). Visits every execution with at most `bound` preemptions; with
    free_blocking=False, at most `bound` departures from the default choice of any kind (delay bounding)."""
    stats = stats if stats is not None else {"executions": 0, "points": 0, "capped": False}
    stack = [list(prefix)]
    while stack:
        if cap and stats["executions"] >= cap:
            stats["capped"] = True
            break
        pre = stack.pop()
        log, obs = run(pre)
        stats["executions"] += 1
        stats["points"] += len(log)
        visit([c for _, c, _ in log], obs)
        cost = 0
        costs = []
        for n, c, running in log:
            costs.append(cost)
            if c and (running or not free_blocking):
                cost += 1
        for i in range(len(log) - 1, len(pre) - 1, -1):
            n, c, running = log[i]
            if costs[i] + (1 if running or not free_blocking else 0) > bound:
                continue
            base = [x[1] for x in log[:i]]
            for alt in range(1, n):
                stack.append(base + [alt])
    return stats
