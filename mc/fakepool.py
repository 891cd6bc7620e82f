"""A process pool whose scheduling is decided by the explorer.

``install()`` reroutes ``multiprocessing.Pool``; while ``active(policy)`` is set, pools are simulated
in this process: every simulated worker owns a copy of the parent's random generator state (what
fork() would give it), runs the initializer, and evaluates the tasks assigned to it in their order.
The policy decides which idle worker takes the next task and which busy worker finishes next.
Outside of ``active`` the real pool is used.
"""
import concurrent.futures
import multiprocessing
import multiprocessing.context
import multiprocessing.pool

from mc import rng

POLICY = None
OPEN = []  # simulated pools that were not closed


class RoundRobin:
    def take(self, idle, task):
        return idle[0]

    def finish(self, busy):
        return busy[0]


class Explored:
    """every assignment and completion order; non default decisions are deviations"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def take(self, idle, task):
        self.n += 1
        return self.ctx.choose("worker-for-task#%d" % self.n, idle, dev=True)

    def finish(self, busy):
        self.n += 1
        return self.ctx.choose("finishes#%d" % self.n, busy, dev=True)


class Result:
    """of one task"""

    def __init__(self, pool, callback=None, error_callback=None):
        self.pool, self.outcome = pool, None
        self.callback, self.error_callback = callback, error_callback

    def _set(self, outcome):
        self.outcome = outcome
        f = self.callback if outcome[0] else self.error_callback
        if f:
            f(outcome[1])

    def _wait(self):
        while self.outcome is None:
            if not self.pool._step():
                raise RuntimeError("waiting for a task of a terminated pool")

    def get(self, timeout=None):
        self._wait()
        if not self.outcome[0]:
            raise self.outcome[1]
        return self.outcome[1]

    def wait(self, timeout=None):
        if timeout is None:
            self._wait()
        elif self.outcome is None:
            self.pool._step()

    def ready(self):
        """time passes whenever somebody looks: at most one task is finished in between"""
        if self.outcome is None:
            self.pool._step()
        return self.outcome is not None

    def successful(self):
        if self.outcome is None:
            raise ValueError("not ready")
        return self.outcome[0]


class MapResult(Result):
    """of several tasks"""

    def __init__(self, pool, n, callback=None, error_callback=None):
        Result.__init__(self, pool, callback, error_callback)
        self.left, self.values, self.failed = n, [None] * n, None
        if not n:
            self._set((True, []))

    def part(self, i):
        def done(outcome):
            self.left -= 1
            if outcome[0]:
                self.values[i] = outcome[1]
            elif self.failed is None:
                self.failed = outcome
            if not self.left:
                self._set(self.failed or (True, self.values))

        return done


class _Iterator:
    def __init__(self, pool, n, ordered):
        self.pool, self.n, self.ordered, self.given, self.done = pool, n, ordered, 0, []

    def part(self, i):
        return lambda outcome: self.done.append((i, outcome))

    def __iter__(self):
        return self

    def _ready(self):
        for k, (i, outcome) in enumerate(self.done):
            if not self.ordered or i == self.given:
                return k
        return None

    def __next__(self, timeout=None):
        if self.given == self.n:
            raise StopIteration
        while self._ready() is None:
            if not self.pool._step():
                raise RuntimeError("waiting for a task of a terminated pool")
        ok, v = self.done.pop(self._ready())[1]
        self.given += 1
        if not ok:
            raise v
        return v

    next = __next__


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or 2
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.policy = POLICY
        self.streams = []
        self.todo, self.busy, self.count = [], {}, 0
        live = rng.S.mode == "light"
        parent = rng.S.light
        for _ in range(self.n):
            if live:
                rng.S.light = list(parent)
            try:
                if initializer is not None:
                    initializer(*initargs)
                if live:
                    self.streams.append(rng.S.light)
            finally:
                rng.S.light = parent
        self.closed = False
        OPEN.append(self)

    def _submit(self, call, done):
        if self.closed:
            raise ValueError("Pool not running")
        self.todo.append((self.count, call, done))
        self.count += 1

    def _evaluate(self, w, call):
        parent = rng.S.light
        if self.streams:
            rng.S.light = self.streams[w]
        try:
            try:
                out = True, call()
            except Exception as e:
                out = False, e
            if self.streams:
                self.streams[w] = rng.S.light
            return out
        finally:
            rng.S.light = parent

    def _step(self):
        """idle workers take tasks, one worker finishes -> whether anything happened"""
        idle = [w for w in range(self.n) if w not in self.busy]
        while self.todo and idle:
            i, call, done = self.todo.pop(0)
            w = self.policy.take(idle, i)
            idle.remove(w)
            self.busy[w] = i, done, self._evaluate(w, call)
        if not self.busy:
            return False
        # workers in the order in which they took their task
        w = self.policy.finish(sorted(self.busy, key=lambda v: self.busy[v][0]))
        _, done, outcome = self.busy.pop(w)
        done(outcome)
        return True

    @staticmethod
    def _call(func, args, kwds={}):
        return lambda: func(*args, **kwds)

    def _iterate(self, func, iterable, ordered):
        tasks = list(iterable)
        it = _Iterator(self, len(tasks), ordered)
        for i, t in enumerate(tasks):
            self._submit(self._call(func, (t,)), it.part(i))
        return it

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._iterate(func, iterable, False)

    def imap(self, func, iterable, chunksize=1):
        return self._iterate(func, iterable, True)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        tasks = [tuple(t) for t in iterable]
        r = MapResult(self, len(tasks), callback, error_callback)
        for i, t in enumerate(tasks):
            self._submit(self._call(func, t), r.part(i))
        return r

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(func, [(t,) for t in iterable], chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = Result(self, callback, error_callback)
        self._submit(self._call(func, args, kwds), r._set)
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True
        if self in OPEN:
            OPEN.remove(self)

    def terminate(self):
        self.close()
        self.todo, self.busy = [], {}

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self._step():
            pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class Future(concurrent.futures.Future):
    def _pump(self):
        while not self.done():
            if not self.pool._step():
                raise RuntimeError("waiting for a task that was never started")

    def result(self, timeout=None):
        self._pump()
        return concurrent.futures.Future.result(self, timeout)

    def exception(self, timeout=None):
        self._pump()
        return concurrent.futures.Future.exception(self, timeout)


class Executor(concurrent.futures.Executor):
    """stands for ProcessPoolExecutor"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=()):
        self.pool = Pool(max_workers, initializer, initargs)

    def submit(self, fn, *args, **kwargs):
        f = Future()
        f.pool = self.pool

        def done(outcome):
            (f.set_result if outcome[0] else f.set_exception)(outcome[1])

        self.pool._submit(lambda: fn(*args, **kwargs), done)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, **kw):
        self.pool.close()
        if wait:
            self.pool.join()


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, Future) for f in fs):
        for f in _as_completed(fs, timeout):
            yield f
        return
    order = []
    for f in fs:
        f.add_done_callback(order.append)
    for k in range(len(set(fs))):
        while len(order) <= k:
            if not fs[0].pool._step():
                raise RuntimeError("waiting for a task that was never started")
        yield order[k]


class active:
    def __init__(self, policy=None):
        self.policy = policy or RoundRobin()

    def __enter__(self):
        global POLICY
        POLICY = self.policy
        del OPEN[:]
        return OPEN

    def __exit__(self, *exc):
        global POLICY
        POLICY = None


_real = multiprocessing.context.BaseContext.Pool
_executor = concurrent.futures.ProcessPoolExecutor
_as_completed = concurrent.futures.as_completed


def _pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    if POLICY is None:
        return _real(self, processes, initializer, initargs, maxtasksperchild)
    return Pool(processes, initializer, initargs, maxtasksperchild)


def _make_executor(*args, **kwargs):
    return (_executor if POLICY is None else Executor)(*args, **kwargs)


def install():
    multiprocessing.context.BaseContext.Pool = _pool
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    concurrent.futures.ProcessPoolExecutor = _make_executor
    concurrent.futures.as_completed = as_completed
