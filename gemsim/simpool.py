"""Simulated process pool: replaces concurrent.futures.ProcessPoolExecutor.

Tasks are executed by forked worker processes that the supervisor (host.py)
schedules one system call at a time.  Outside a supervised host run tasks are
executed one after the other in this process.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import os
import pickle

from . import host


class SimProcessPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._n = max_workers or 4
        self._pending = []
        self._init = (initializer, initargs)
        self._down = False
        self._broken = False

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise cfp.BrokenProcessPool('A child process terminated abruptly')
        if self._down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = _SimFuture(self)
        self._pending.append((f, fn, args, kwargs))
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables, timeout=timeout)

    def _drive(self):
        todo, self._pending = self._pending, []
        todo = [x for x in todo if x[0].set_running_or_notify_cancel()]
        if not todo:
            return
        good, blobs = [], []
        for f, fn, args, kw in todo:
            try:
                blobs.append(pickle.dumps((fn, args, kw)))
                good.append(f)
            except Exception as e:
                f.set_exception(e)
        if not good:
            return
        if not host.supervised():
            for f, b in zip(good, blobs):
                fn, args, kw = pickle.loads(b)
                try:
                    f.set_result(fn(*args, **kw))
                except BaseException as e:
                    f.set_exception(e)
            return
        results, flags = host.run_tasks(blobs, max(1, min(self._n, len(blobs), host.MAXSLOT - 1)))
        for i, f in enumerate(good):
            if i in results:
                ok, val = results[i]
                if ok:
                    f.set_result(val)
                else:
                    f.set_exception(val)
            else:
                f.set_exception(cfp.BrokenProcessPool(
                    'A process in the process pool was terminated abruptly while the future was '
                    'running or pending.'))
        if flags['broken'] or flags['interrupted']:
            self._broken = True
        if flags['interrupted']:
            raise KeyboardInterrupt

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, *_ in self._pending:
                f.cancel()
        self._drive()
        self._down = True


class _SimFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self._pool = pool

    def _need(self):
        if not self.done() and self._pool._pending:
            self._pool._drive()

    def result(self, timeout=None):
        self._need()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._need()
        return super().exception(timeout)


_as_completed, _wait = cf.as_completed, cf.wait


def _drive_all(fs):
    for f in fs:
        if isinstance(f, _SimFuture):
            f._need()


def as_completed(fs, timeout=None):
    fs = list(fs)
    _drive_all(fs)
    return _as_completed(fs, timeout)


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    _drive_all(fs)
    return _wait(fs, timeout, return_when)


def install():
    cf.ProcessPoolExecutor = SimProcessPoolExecutor
    cfp.ProcessPoolExecutor = SimProcessPoolExecutor
    cf.as_completed = as_completed
    cf.wait = wait
    import concurrent.futures._base as b
    b.as_completed = as_completed
    b.wait = wait
