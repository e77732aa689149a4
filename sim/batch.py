"""The starting script, run in the simulator: its pool of processes is made of simulated ones."""
import ast
import concurrent.futures
import copy
import multiprocessing
import os
import pickle
import random
import sys
import types

from . import kernel as K

SCRIPT = 'start_with_pycharm.py'


class RemoteError(Exception):
    """what a worker reports if its exception cannot be sent"""


def load(repo, names):
    """the code of the script with these names of floats put in; None if there is no such place"""
    path = os.path.join(repo, SCRIPT)
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    found = 0
    for node in ast.walk(tree):
        if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) == 1 \
                and isinstance(node.elts[0], ast.Constant) and node.elts[0].value == '3901960':
            node.elts = [ast.copy_location(ast.Constant(n), node.elts[0]) for n in names]
            found += 1
    return compile(tree, path, 'exec') if found == 1 else None


class Done:
    """the result of something that was asked for asynchronously"""

    def __init__(self, work=None, ok=True, value=None):
        self.work, self.ok, self.value = work, ok, value

    def finish(self):
        """the workers get on with it"""
        work, self.work = self.work, None
        if work is not None:
            self.ok, self.value = work()

    def get(self, timeout=None):  # pylint: disable=unused-argument
        self.finish()
        if self.ok:
            return self.value
        raise self.value

    result = get

    def exception(self, timeout=None):  # pylint: disable=unused-argument
        self.finish()
        return None if self.ok else self.value

    def wait(self, timeout=None):  # pylint: disable=unused-argument
        self.finish()

    def ready(self):
        self.finish()
        return True

    done = ready

    def successful(self):
        return self.ok


class Machine:
    """processors and a scheduler, for all pools of a script"""

    def __init__(self, kernel, cpus, seed, rate, preempt=None):
        self.kernel, self.cpus, self.seed, self.rate, self.preempt = kernel, cpus, seed, rate, preempt
        self.taken, self.points, self.pools, self.workers = [], 0, 0, []

    def module(self):
        """what `import multiprocessing` finds"""
        mod = types.ModuleType('multiprocessing')
        mod.__dict__.update({k: v for k, v in vars(multiprocessing).items() if not k.startswith('__')})
        mod.cpu_count = lambda: self.cpus
        mod.Pool = lambda processes=None, *a, **kw: Pool(self, processes, *a, **kw)
        mod.get_context = lambda *a: mod
        mod.pool = types.ModuleType('multiprocessing.pool')
        mod.pool.Pool = mod.Pool
        return mod

    def executor(self, max_workers=None, *args, **kwargs):
        """concurrent.futures.ProcessPoolExecutor"""
        return Executor(Pool(self, self.cpus if max_workers is None else max_workers))

    def run(self, names_code, cfg):
        """the function which the process of the script executes"""
        def func():
            mod = self.module()
            before = {k: sys.modules.get(k) for k in ('multiprocessing', 'multiprocessing.pool')}
            count, executor = os.cpu_count, concurrent.futures.ProcessPoolExecutor
            concurrent.futures.ProcessPoolExecutor = self.executor
            sys.modules['multiprocessing'], sys.modules['multiprocessing.pool'] = mod, mod.pool
            os.cpu_count = lambda: self.cpus
            import pyowc  # noqa  pylint: disable=import-outside-toplevel,import-error,unused-import
            settings = copy.deepcopy(cfg)
            sys.modules['pyowc.configuration'].load = lambda: settings       # the user has changed the configuration
            try:
                exec(names_code, {'__name__': '__main__', '__builtins__': __builtins__})  # pylint: disable=exec-used
            finally:
                sys.modules.update({k: v for k, v in before.items() if v is not None})
                os.cpu_count = count
                concurrent.futures.ProcessPoolExecutor = executor
        return func


class Pool:
    """multiprocessing.Pool: the items are handed out in chunks; a failure ends its chunk, not the others"""

    def __init__(self, machine, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        n = machine.cpus if processes is None else processes
        if n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.machine, self.n, self.open = machine, n, True
        self.asked = []
        self.each = maxtasksperchild
        self.init = (initializer, initargs)
        machine.pools += 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.terminate()

    def close(self):
        self.open = False

    def terminate(self):
        """what is not done by now never will be"""
        self.open = False
        for done in self.asked:
            done.work = None

    def join(self):
        if self.open:
            raise ValueError('Pool is still running')
        for done in self.asked:
            done.finish()

    @staticmethod
    def _blob(func):
        try:
            return pickle.dumps(func)
        except (pickle.PicklingError, AttributeError):
            return None                      # a function of the script itself: the workers are forked

    def _work(self, func, items, star, chunksize, later=False, one=False):
        """hands out work; the workers may be slow: if nobody waits for them, nothing may be done when the script goes on"""
        if not self.open:
            raise ValueError('Pool not running')
        items = list(items)

        def work():
            ok, value = self._run(func, items, star, chunksize)
            return ok, value[0] if ok and one else value
        done = Done(work)
        self.asked.append(done)
        if not later or random.Random(self.machine.seed * 7 + len(self.asked)).random() < 0.4:
            done.finish()
        return done

    def _run(self, func, items, star, chunksize):
        k, m = self.machine.kernel, self.machine
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        blob = self._blob(func)
        tasks = [(i, [pickle.dumps(x) for x in items[i:i + chunksize]]) for i in range(0, len(items), max(1, chunksize))]
        results, failures = [None] * len(items), []
        if not tasks:
            return True, []
        parent, running = k.current, k.running
        parent.leave()
        k.current = None
        procs = [k.spawn() for _ in range(min(self.n, len(tasks)))]
        m.workers.append(len(procs))

        def body():
            call = func if blob is None else pickle.loads(blob)
            if self.init[0] is not None:
                self.init[0](*self.init[1])
            while tasks:
                start, chunk = tasks.pop(0)
                try:
                    for j, x in enumerate(chunk):
                        x = pickle.loads(x)
                        results[start + j] = pickle.loads(pickle.dumps(call(*x) if star else call(x)))
                except (K.SimCrash, K.Budget):
                    raise
                except Exception as e:  # pylint: disable=broad-except
                    e.__traceback__ = e.__context__ = None
                    try:
                        failures.append(pickle.loads(pickle.dumps(e)))
                    except Exception:  # pylint: disable=broad-except
                        failures.append(RemoteError(repr(e)))
        sched = K.Scheduler(k, m.seed + m.pools, m.rate, m.preempt)
        try:
            ends = sched.run([(p, body) for p in procs])
        finally:
            for p in procs:
                p.dead = True
            m.taken += [list(t) for t in sched.taken]
            m.points += sched.points
            k.current = parent
            parent.enter()
            k.running = running
        for status, value in ends:
            if status == 'crash':            # the pool would wait forever; the operator ends the script
                parent.dead = True
                raise K.SimCrash()
            if status == 'error':            # (an interrupt goes to all processes of the terminal)
                raise value
        return (False, failures[0]) if failures else (True, results)

    def map(self, func, iterable, chunksize=None):
        return self._work(func, iterable, False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._work(func, iterable, False, chunksize, True)

    def starmap(self, func, iterable, chunksize=None):
        return self._work(func, iterable, True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._work(func, iterable, True, chunksize, True)

    def imap(self, func, iterable, chunksize=1):
        done = self._work(func, iterable, False, chunksize, True)

        def results():
            yield from done.get()
        return results()

    imap_unordered = imap

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._work(Call(func, kwds or {}), [tuple(args)], False, 1, True, True)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()


class Call:
    """a function and some of its arguments"""

    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


class Executor:
    """what concurrent.futures offers, on the same workers"""

    def __init__(self, pool):
        self.pool = pool

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.shutdown()

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            self.pool.terminate()
        self.pool.close()
        if wait:
            self.pool.join()

    def submit(self, func, *args, **kwds):
        return self.pool.apply_async(func, args, kwds)

    def map(self, func, *iterables, timeout=None, chunksize=1):  # pylint: disable=unused-argument
        return iter(self.pool.starmap_async(func, list(zip(*iterables)), chunksize).get())
