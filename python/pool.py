"""A process pool whose schedule is drawn by the test: which of the tasks that the workers hold ends next, and whether
tasks end before anyone waits for them. Arguments and results are pickled, and the initialiser runs once per worker that
starts, as in a real pool; everything runs in this process."""
import concurrent.futures
import pickle

REAL = (concurrent.futures.ProcessPoolExecutor, concurrent.futures.as_completed, concurrent.futures.wait)
_Future = concurrent.futures.Future


class Schedule:
    """Which of the running tasks ends next: drawn choices, and whether some end before anyone waits"""

    def __init__(self, choices, eager, real=False):
        self.choices, self.eager, self.real = choices, eager, real
        self.i = 0
        self.pools, self.outstanding, self.most, self.branching = [], 0, 0, 0
        self.order = []

    def draw(self, n):
        if n > 1:
            self.branching += 1
        c = self.choices[self.i % len(self.choices)] if self.choices else 0
        self.i += 1
        return c % n


current = Schedule([], 0)


class DrawnFuture(_Future):
    def __init__(self, pool):
        super().__init__()
        self.pool = pool

    def result(self, timeout=None):
        while not self.done():
            self.pool.step()
        return super().result(0)

    def exception(self, timeout=None):
        while not self.done():
            self.pool.step()
        return super().exception(0)


class DrawnPool(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **_):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.workers = max_workers or 8
        self.given = max_workers
        self.init = initializer, pickle.loads(pickle.dumps(initargs))
        self.pending, self.started, self.closed = [], 0, False
        self.schedule = current
        current.pools.append(self)

    def submit(self, fn, *args, **kw):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = DrawnFuture(self)
        self.pending.append((f, pickle.dumps((fn, args, kw))))
        s = self.schedule
        s.outstanding += 1
        s.most = max(s.most, s.outstanding)
        for _ in range(s.eager and s.draw(s.eager + 1)):
            if self.pending:
                self.step()
        return f

    def step(self):
        """One of the tasks the workers hold ends"""
        if not self.pending:
            raise RuntimeError("deadlock: waiting for a task that does not exist")
        s = self.schedule
        i = s.draw(min(len(self.pending), self.workers))
        f, job = self.pending.pop(i)
        if self.started < self.workers:  # a worker process starts
            self.started += 1
            if self.init[0]:
                self.init[0](*self.init[1])
        f.set_running_or_notify_cancel()
        fn, args, kw = pickle.loads(job)
        s.outstanding -= 1
        s.order.append(f)
        try:
            r = pickle.loads(pickle.dumps(fn(*args, **kw)))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            f.set_exception(e)
        else:
            f.set_result(r)

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, _ in self.pending:
                f.cancel()
                self.schedule.outstanding -= 1
            self.pending = []
        while wait and self.pending:
            self.step()
        self.closed = True


class Pool:
    def __new__(cls, *a, **k):
        return REAL[0](*a, **k) if current.real else DrawnPool(*a, **k)


def as_completed(fs, timeout=None):
    if current.real:
        yield from REAL[1](fs, timeout)
        return
    left = list(dict.fromkeys(fs))
    s = current
    while left:
        ended = [f for f in left if f.done()]
        if not ended:
            left[0].pool.step()
            continue
        # those that have ended already come in any order
        f = ended[s.draw(len(ended))]
        left.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    if current.real:
        return REAL[2](fs, timeout, return_when)
    fs = set(fs)
    while True:
        done = {f for f in fs if f.done()}
        bad = any(f.done() and f._exception for f in done)
        if done == fs or (done and return_when == "FIRST_COMPLETED") or (bad and return_when == "FIRST_EXCEPTION"):
            return concurrent.futures._base.DoneAndNotDoneFutures(done, fs - done)
        next(f for f in fs if not f.done()).pool.step()


def install():
    """To be called before copclib.mp is imported"""
    concurrent.futures.ProcessPoolExecutor = Pool
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait
