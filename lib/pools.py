"""A controlled stand-in for process pools: the harness, not the operating system, decides which worker runs
which chunk and in which order the chunks finish.  Workers are isolated the way processes are: the task function
and its arguments are pickled for every chunk, results are pickled back, and the plain-data module globals and
class attributes of the library live once per worker."""
import concurrent.futures, contextlib, copy, itertools, multiprocessing, multiprocessing.pool, pickle, sys, types
import numpy as np

DATA = (np.ndarray, list, dict, set, int, float, complex, str, bytes, bool, type(None))


def lib_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] in ("RMutils", "RMtools_1D", "RMtools_3D")]


def _globals():
    """every plain-data module global and class attribute of the library"""
    for m in lib_modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, DATA):
                yield m, k, v
            elif isinstance(v, type) and getattr(v, "__module__", "") == m.__name__:
                for kk, vv in list(vars(v).items()):
                    if not kk.startswith("_") and isinstance(vv, (np.ndarray, list, dict, set, int, float)):
                        yield v, kk, vv
            elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                for kk, vv in list(vars(v).items()):
                    yield v, kk, vv


def snapshot():
    return [(o, k, copy.deepcopy(v)) for o, k, v in _globals()]


def restore(snap):
    for o, k, v in snap:
        try:
            setattr(o, k, v)
        except (AttributeError, TypeError):
            pass


class Schedule:
    """order: sequence of (chunk index, worker) executed; given for `n` chunks"""

    def __init__(self, order=None, workers=1, force_chunk=None, kind="perm"):
        self.order, self.workers, self.force_chunk = order, workers, force_chunk
        self.trace = []  # (chunk, worker, items)
        self.nchunks = []

    def plan(self, nchunks):
        self.nchunks.append(nchunks)
        if self.order is None:
            return [(i, 0) for i in range(nchunks)]
        seq = [(c, w) for c, w in self.order if c < nchunks]
        seen = {c for c, w in seq}
        return seq + [(c, 0) for c in range(nchunks) if c not in seen]


def orders(nchunks, workers):
    """every completion order x every assignment of chunks to workers, up to renaming of workers"""
    for perm in itertools.permutations(range(nchunks)):
        for asg in itertools.product(range(workers), repeat=nchunks):
            # canonical: workers appear in increasing order of first use along perm
            first = []
            for c in perm:
                if asg[c] not in first:
                    first.append(asg[c])
            if first == sorted(first) and first == list(range(len(first))):
                yield [[c, asg[c]] for c in perm]


class ControlledPool:
    def __init__(self, schedule, processes=None, initializer=None, initargs=(), **kw):
        self.s = schedule
        self.closed = False
        self.base = snapshot()
        self.state = {}
        self.init = (initializer, initargs)

    # -- execution -----------------------------------------------------------
    def _execute(self, func, items, chunksize, star=False):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        cs = self.s.force_chunk or chunksize or max(1, -(-len(items) // 4))
        cs = max(1, int(cs))
        chunks = [items[i: i + cs] for i in range(0, len(items), cs)]
        results = [None] * len(chunks)
        done = []
        parent = snapshot()
        for c, w in self.s.plan(len(chunks)):
            if w in self.state:
                restore(self.state[w])
            else:
                restore([(o, k, copy.deepcopy(v)) for o, k, v in self.base])
                if self.init[0] is not None:
                    self.init[0](*self.init[1])
            f, args = pickle.loads(pickle.dumps((func, chunks[c]), protocol=4))
            res = [f(*a) if star else f(a) for a in args]
            results[c] = pickle.loads(pickle.dumps(res, protocol=4))
            self.state[w] = snapshot()
            done.append(c)
            self.s.trace.append((c, w, len(args)))
        restore(parent)
        return results, done

    def map(self, func, iterable, chunksize=None, callback=None):
        r, _ = self._execute(func, iterable, chunksize)
        return [x for c in r for x in c]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        r, done = self._execute(func, iterable, chunksize)
        return iter([x for c in done for x in r[c]])

    def starmap(self, func, iterable, chunksize=None):
        r, _ = self._execute(func, iterable, chunksize, star=True)
        return [x for c in r for x in c]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        v = self.map(func, iterable, chunksize)
        if callback:
            callback(v)
        return _Done(v)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Done(self.starmap(func, iterable, chunksize))

    def apply(self, func, args=(), kwds={}):
        r, _ = self._execute(_Apply(func, kwds), [args], 1)
        return r[0][0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        v = self.apply(func, args, kwds)
        if callback:
            callback(v)
        return _Done(v)

    # concurrent.futures flavour
    def submit(self, func, *args, **kw):
        fut = concurrent.futures.Future()
        fut.set_result(self.apply(func, args, kw))
        return fut

    def shutdown(self, *a, **k):
        self.closed = True

    def close(self):
        self.closed = True

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class _FuturesPool(ControlledPool):
    def map(self, func, *iterables, timeout=None, chunksize=1):
        r, _ = self._execute(func, list(zip(*iterables)), chunksize, star=True)
        return iter([x for c in r for x in c])


class _Apply:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, args):
        return self.f(*args, **self.kw)


class _Done:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    successful = ready


@contextlib.contextmanager
def controlled(schedule):
    """route every way the library can obtain a pool of workers to the controlled pool"""
    import tqdm.contrib.concurrent as tc

    mk = lambda processes=None, *a, **k: ControlledPool(schedule, processes)
    mkf = lambda *a, **k: _FuturesPool(schedule)

    def process_map(fn, *iterables, **kw):
        p = _FuturesPool(schedule)
        return list(p.map(fn, *iterables, chunksize=kw.get("chunksize", 1)))

    class Ctx:
        Pool = staticmethod(mk)

        def __getattr__(self, n):
            return getattr(multiprocessing, n)

    repl = [(multiprocessing, "Pool", mk), (multiprocessing.pool, "Pool", mk), (multiprocessing.pool, "ThreadPool", mk),
            (multiprocessing, "get_context", lambda *a, **k: Ctx()), (multiprocessing, "set_start_method", lambda *a, **k: None),
            (concurrent.futures, "ProcessPoolExecutor", mkf), (concurrent.futures, "ThreadPoolExecutor", mkf),
            (tc, "process_map", process_map), (tc, "thread_map", process_map)]
    try:
        import schwimmbad

        repl += [(schwimmbad, "choose_pool", lambda mpi=False, processes=1, **k: ControlledPool(schedule, processes)),
                 (schwimmbad, "MultiPool", mk)]
    except ImportError:
        pass
    undo = []
    orig = {}
    for o, n, new in repl:
        old = getattr(o, n)
        orig.setdefault(id(old), new)
        undo.append((o, n, old))
    for m in lib_modules():
        for k, v in list(vars(m).items()):
            if id(v) in orig and any(v is u[2] for u in undo):
                undo.append((m, k, v))
                setattr(m, k, orig[id(v)])
    for o, n, new in repl:
        setattr(o, n, new)
    try:
        yield schedule
    finally:
        for o, n, old in reversed(undo):
            setattr(o, n, old)
