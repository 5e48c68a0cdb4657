"""Shared by C29 and C30: random starts, stand-in optimiser, controlled threads."""
import os
import sys
import threading

from . import core
from .lib import *
from .shims import Stub


class Starts:
    """np.random.uniform: a fresh arbitrary number for every draw."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        Stub.handlers["np.random.uniform"] = self.uniform
        Stub.handlers["np.random.dirichlet"] = self.dirichlet

    def _next(self):
        self.n += 1
        return self.ctx.real(f"d{self.n}", lo=0.125, hi=1.0)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        import numpy as np
        m = 1 if size is None else int(np.prod(size))
        xs = [lo + self._next() * (hi - lo) if lo == 0 else hi - self._next() * (hi - lo) for _i in range(m)]
        return xs[0] if size is None else np.array(xs, dtype=object if self.ctx.symbolic else float).reshape(size)

    def dirichlet(self, alpha, size=None):
        import numpy as np
        rows = []
        for _r in range(1 if size is None else int(np.prod(size))):
            xs = [self._next() for _a in alpha]
            rows.append([x / total(xs) for x in xs])
        k = object if self.ctx.symbolic else float
        return np.array(rows[0] if size is None else rows, dtype=k)


class Optimum:
    """scipy.optimize.minimize: an arbitrary distribution, the same one whenever it starts from the same point."""

    def __init__(self, ctx):
        self.ctx, self.keys, self.calls = ctx, {}, []
        Stub.handlers["scipy.optimize.minimize"] = self

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        from scipy.optimize import OptimizeResult
        import numpy as np
        k = repr([(str(x.n), str(x.d)) if hasattr(x, "term") else float(x) for x in x0])
        i = self.keys.setdefault(k, len(self.keys))
        self.calls.append(dict(tol=tol, options=dict(options or {}), x0=list(x0)))
        x = np.array(self.ctx.dist(f"opt{i}", len(x0)), dtype=object if self.ctx.symbolic else float)
        return OptimizeResult(x=x, success=True, message="", fun=0.0, nit=1, status=0)


class Stop(BaseException):
    pass


class Threads:
    """Runs tasks in threads one at a time; before every line of the learning code the running thread may be
    preempted (up to `limit` times), each choice being one of the harness."""

    def __init__(self, ctx, limit, deep):
        self.ctx, self.limit, self.deep = ctx, limit, deep
        self.used = self.n = 0
        self.here = os.path.join(core.REPO, "bcause", "learning") + os.sep
        self.agg = os.path.join(self.here, "aggregator") + os.sep

    def run(self, tasks):
        self.out = [None] * len(tasks)
        self.live = list(range(len(tasks)))
        self.sem = [threading.Semaphore(0) for _t in tasks]
        self.main = threading.Semaphore(0)
        self.error, self.dead = None, False
        ts = [threading.Thread(target=self.work, args=(i, t), daemon=True) for i, t in enumerate(tasks)]
        for t in ts:
            t.start()
        try:
            self.hand()
            self.main.acquire()
        finally:
            self.dead = True
            for s in self.sem:
                s.release()
            for t in ts:
                t.join()
        if self.error is not None:
            raise self.error
        return list(self.out)

    def pick(self, among):
        if len(among) == 1:
            return among[0]
        self.n += 1
        return among[self.ctx.choose(f"s{self.n}", len(among))]

    def hand(self):
        """The running thread ended (or none ran yet): give way to any other."""
        if not self.live:
            self.main.release()
        else:
            self.cur = self.pick(self.live)
            self.sem[self.cur].release()

    def wait(self, i):
        self.sem[i].acquire()
        if self.dead:
            raise Stop()

    def point(self):
        i = self.cur
        if self.used >= self.limit or len(self.live) < 2:
            return
        j = self.pick([i] + [x for x in self.live if x != i])
        if j != i:
            self.used += 1
            self.cur = j
            self.sem[j].release()
            self.wait(i)

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(self.here):
            return None
        if event == "call":
            self.point()
            if not (self.deep or f.startswith(self.agg)):
                return None
        elif event == "line":
            self.point()
        return self.trace

    def work(self, i, task):
        try:
            self.wait(i)
            sys.settrace(self.trace)
            try:
                self.out[i] = task()
            finally:
                sys.settrace(None)
            self.live.remove(i)
            self.hand()
        except Stop:
            pass
        except BaseException as e:
            self.error = e
            self.main.release()

    # ---- stand-ins for the ways of starting threads
    def install(self):
        import joblib
        import concurrent.futures as cf
        sch = self

        class Parallel:
            def __init__(self, *a, **k):
                self.gen = k.get("return_as", "list") != "list"

            def __call__(self, tasks):
                ts = [lambda t=t: t[0](*t[1], **t[2]) for t in list(tasks)]
                r = sch.run(ts)
                return iter(r) if self.gen else r

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        class Future:
            def __init__(self, pool, i):
                self.pool, self.i = pool, i

            def result(self, timeout=None):
                self.pool.go()
                return self.pool.res[self.i]

        class Pool:
            def __init__(self, *a, **k):
                self.tasks, self.res = [], None

            def submit(self, fn, *a, **k):
                self.tasks.append(lambda: fn(*a, **k))
                return Future(self, len(self.tasks) - 1)

            def map(self, fn, *its, **k):
                fs = [self.submit(fn, *a) for a in zip(*its)]
                return (f.result() for f in fs)

            def go(self):
                if self.res is None:
                    self.res = sch.run(self.tasks)

            def shutdown(self, *a, **k):
                self.go()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.go()
                return False
        self.old = joblib.Parallel, cf.ThreadPoolExecutor
        joblib.Parallel, cf.ThreadPoolExecutor = Parallel, Pool
        import bcause.learning.aggregator.aggregator as mod
        self.patched = []
        for k, v in (("Parallel", Parallel), ("ThreadPoolExecutor", Pool)):
            if k in mod.__dict__:
                self.patched.append((mod, k, mod.__dict__[k]))
                mod.__dict__[k] = v

    def uninstall(self):
        import joblib
        import concurrent.futures as cf
        joblib.Parallel, cf.ThreadPoolExecutor = self.old
        for mod, k, v in self.patched:
            mod.__dict__[k] = v


def model_values(ctx, got, want, dom, msg):
    """Both models hold the same tables."""
    ctx.same(sorted(got.factors), sorted(want.factors), msg + " variables")
    for v in want.factors:
        f, g = got.factors[v], want.factors[v]
        ctx.same(sorted(f.domain), sorted(g.domain), f"{msg} scope of {v}")
        for a in space(OrderedDict((x, dom[x]) for x in g.domain)):
            ctx.eq(f.get_value(**a), g.get_value(**a), f"{msg} {v} at {a}")
