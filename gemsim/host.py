"""Supervisor of the simulated host: process scheduling, system-call faults, crashes, clock.

A *host run* executes a function of the real program in a child process whose
file-system calls below the simulated root are parked one by one (shim.c).  The
supervisor grants steps, so interleaving, faults and crash points are its seeded
choices and nothing else's.
"""
import ctypes
import errno as _errno
import fcntl
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import traceback

REQ = struct.Struct('<iiq400s')
REP = struct.Struct('<iiq')
(C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_SYNC, C_RENAME, C_UNLINK, C_MKDIR, C_RMDIR,
 C_STAT, C_OPENDIR, C_TRUNC, C_COPY, C_CHDIR, C_LINK, C_MSG) = range(1, 18)
CLS = {C_OPEN_R: 'openr', C_OPEN_W: 'openw', C_READ: 'read', C_WRITE: 'write', C_CLOSE: 'close',
       C_SYNC: 'fsync', C_RENAME: 'rename', C_UNLINK: 'unlink', C_MKDIR: 'mkdir', C_RMDIR: 'rmdir',
       C_STAT: 'stat', C_OPENDIR: 'opendir', C_TRUNC: 'trunc', C_COPY: 'copy', C_CHDIR: 'chdir',
       C_LINK: 'link', C_MSG: 'msg'}
MUTATING = {C_OPEN_W, C_WRITE, C_RENAME, C_UNLINK, C_MKDIR, C_RMDIR, C_TRUNC, C_COPY, C_LINK}
A_GO, A_ERR, A_SHORT, A_DIE, A_DIE_AFTER = range(5)
M_DRIVE, M_READY, M_DONE, M_RESULT = 1, 2, 3, 4
MAXSLOT = 9
MAX_OPS = 400000

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['GEMSIM_SHIM'])
        _lib.gemsim_attach.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        _lib.gemsim_clock.argtypes = [ctypes.c_void_p]
        _lib.gemsim_msg.argtypes = [ctypes.c_int64, ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p]
        _lib.gemsim_recv.argtypes = [ctypes.c_char_p, ctypes.c_int64]
    return _lib


# ------------------------------------------------------------------- simulated clock
class SimClock:
    """Realtime clock of the simulated host (shared by all its processes)."""

    def __init__(self):
        self.mm = mmap.mmap(-1, 4096)
        self.buf = (ctypes.c_int64 * 8).from_buffer(self.mm)

    def install(self, now=1.75e9, step_ns=1000):
        self.buf[1] = int(now * 1e9)
        self.buf[2] = int(step_ns)
        lib().gemsim_clock(ctypes.addressof(self.buf))
        self.buf[0] = 1

    def off(self):
        self.buf[0] = 0
        lib().gemsim_clock(None)

    def jump(self, sec):
        self.buf[1] += int(sec * 1e9)


# ------------------------------------------------------------ listing order (unordered on disk)
_real_listdir, _real_scandir = os.listdir, os.scandir
_listing = {'seed': None, 'root': None}


def _under(path):
    r = _listing['root']
    if r is None:
        return False
    try:
        p = os.path.abspath(os.fspath(path)) if not isinstance(path, int) else ''
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p.startswith(r)


class _Scan:
    def __init__(self, it):
        self._l = it

    def __iter__(self):
        return self

    def __next__(self):
        if not self._l:
            raise StopIteration
        return self._l.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._l = []

    def close(self):
        self._l = []


def _shuffled(names, key):
    rng = random.Random('ls:%s' % (_listing['seed'],))
    items = sorted(names, key=key)
    rng.shuffle(items)
    return items


def _listdir(path='.'):
    out = _real_listdir(path)
    if _listing['seed'] is None or not _under(path):
        return out
    return _shuffled(out, lambda x: x)


def _scandir(path='.'):
    if _listing['seed'] is None or not _under(path):
        return _real_scandir(path)
    with _real_scandir(path) as it:
        ents = list(it)
    return _Scan(_shuffled(ents, lambda e: e.name))


def install_listing(root, seed):
    """From now on directory listings below root come in a seeded order (None: real order)."""
    _listing['root'], _listing['seed'] = root, seed
    os.listdir, os.scandir = _listdir, _scandir


# ------------------------------------------------------------------------ child side
_slot = None          # (fds list, my index) in a simulated process


def _send(arg, payload=b''):
    rep = ctypes.create_string_buffer(REP.size)
    lib().gemsim_msg(arg, payload, len(payload), rep)
    a, e, n = REP.unpack(rep.raw)
    return a, e, n


def _recv(n):
    b = ctypes.create_string_buffer(max(1, n))
    lib().gemsim_recv(b, n)
    return b.raw[:n]


def supervised():
    return _slot is not None


def _enter(root, fds, idx):
    """Become simulated process number idx."""
    global _slot
    _slot = (root, fds, idx)
    keep = set(fds[idx][1:3])
    for j, (sr, cw, cr, sw) in enumerate(fds):
        if idx == 0:
            _close(sr)
            _close(sw)
        elif j != idx:
            for fd in (cw, cr):
                if fd not in keep:
                    _close(fd)
    lib().gemsim_attach(root.encode(), fds[idx][1], fds[idx][2])


def _close(fd):
    try:
        os.close(fd)
    except OSError:
        pass


def run_tasks(tasks, workers):
    """Called by the simulated process pool in the main process: fork the worker processes and let
    the supervisor schedule them.  Returns ({index: (ok, value)}, flags)."""
    root, fds, idx = _slot
    assert idx == 0
    pids = []
    lib().gemsim_detach()
    sys.stdout.flush()
    for w in range(1, workers + 1):
        pid = os.fork()
        if pid == 0:
            _worker(root, fds, w, tasks)
            os._exit(0)
        pids.append(pid)
    lib().gemsim_attach(root.encode(), fds[0][1], fds[0][2])
    a, e, n = _send(M_DRIVE, pickle.dumps((len(tasks), workers)))
    out = pickle.loads(_recv(n))
    lib().gemsim_detach()
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    lib().gemsim_attach(root.encode(), fds[0][1], fds[0][2])
    return out


def _worker(root, fds, w, tasks):
    _enter(root, fds, w)
    try:
        import multiprocessing.process as mpp     # what a real pool worker looks like to the program
        mpp._parent_process = mpp._ParentProcess('MainProcess', os.getppid(), None)
    except Exception:
        pass
    try:
        while True:
            a, e, n = _send(M_READY, pickle.dumps(os.getpid()))
            if n < 0:
                break
            fn, args, kwargs = pickle.loads(tasks[n])
            try:
                res = (True, fn(*args, **kwargs))
                payload = pickle.dumps((n, res))
            except BaseException as exc:
                try:
                    payload = pickle.dumps((n, (False, exc)))
                except Exception:
                    payload = pickle.dumps((n, (False, RuntimeError(repr(exc)))))
            _send(M_DONE, payload)
    except KeyboardInterrupt:
        pass           # idle worker interrupted: it dies, as a real one does
    finally:
        try:
            sys.stdout.flush()
        except Exception:
            pass
        lib().gemsim_detach()
        os._exit(1)


# ------------------------------------------------------------------- supervisor side
class Plan:
    """Faults and schedule of one host run (JSON-able dict).

    faults: list of {'act': eio|enospc|eacces|emfile|eintr|short|kill|power|sigint|torn|jump,
                     'cls': [names] or None, 'path': substring or None, 'nth': k (0-based among the
                     matching operations) or 'frac' of 'total', 'count': repetitions (-1 for ever),
                     'proc': slot or None, 'arg': number}
    sched: {'seed': n, 'mode': 'random'|'rr'|'seq', 'switch': p} or {'choices': [...]}
    """

    def __init__(self, d=None):
        d = d or {}
        self.faults = [dict(f) for f in d.get('faults', [])]
        self.sched = dict(d.get('sched', {}))


class HostRun:
    def __init__(self, root, plan=None, clock=None, stdout=None):
        self.root = root
        self.plan = Plan(plan)
        self.clock = clock
        self.stdout = stdout
        self.trace = []            # (proc, cls, path, arg, action)
        self.fired = {}            # fault kind -> count
        self.choices = []
        self.dirty = {}            # path -> size known durable before this run
        self.created = set()
        self.nops = 0
        self.nmut = 0
        self.concurrent = 0        # steps at which a real choice existed

    # -- scheduling
    def _pick(self, cand, last):
        s = self.plan.sched
        if len(cand) == 1:
            return cand[0]
        self.concurrent += 1
        k = len(self.choices)
        if 'choices' in s:
            c = s['choices'][k] if k < len(s['choices']) else 0
        else:
            mode = s.get('mode', 'seq')
            if mode == 'seq':
                c = cand.index(last) if last in cand else 0
            elif mode == 'rr':
                c = next((i for i, x in enumerate(cand) if last is not None and x > last), 0)
            elif mode == 'sticky':
                if last in cand and self.rng.random() > s.get('switch', 0.1):
                    c = cand.index(last)
                else:
                    c = self.rng.randrange(len(cand))
            else:
                c = self.rng.randrange(len(cand))
        c = min(c, len(cand) - 1)
        self.choices.append(c)
        return cand[c]

    # -- faults
    def _decide(self, proc, cls, arg, path):
        """-> (action, err, n, extra)"""
        if cls in MUTATING:
            self.nmut += 1
        for f in self.plan.faults:
            if f.get('done'):
                continue
            if f.get('cls') and CLS[cls] not in f['cls']:
                continue
            if f.get('path') and f['path'] not in path:
                continue
            if f.get('paths') and not any(x in path for x in f['paths']):
                continue
            if f.get('notpath') and f['notpath'] in path:
                continue
            if f.get('worker') and proc == 0:
                continue
            if f.get('proc') is not None and f['proc'] != proc:
                continue
            seen = f['seen'] = f.get('seen', -1) + 1
            if seen < f.get('nth', 0):
                continue
            hits = f['hits'] = f.get('hits', 0) + 1
            cnt = f.get('count', 1)
            if cnt >= 0 and hits >= cnt:
                f['done'] = True
            act = f['act']
            self.fired[act] = self.fired.get(act, 0) + 1
            if act in ('eio', 'enospc', 'eacces', 'emfile', 'enoent', 'estale'):
                return A_ERR, getattr(_errno, act.upper()), 0, None
            if act == 'eintr':
                return A_ERR, _errno.EINTR, 0, None
            if act == 'short':
                return A_SHORT, 0, max(1, int(arg * f.get('arg', 0.5))), None
            if act == 'kill':
                return A_DIE, 0, 0, 'kill'
            if act == 'torn':
                return A_DIE_AFTER, 0, max(0, int(arg * f.get('arg', 0.5))), 'kill'
            if act == 'power':
                return A_DIE, 0, 0, 'power'
            if act == 'powertorn':
                return A_DIE_AFTER, 0, max(0, int(arg * f.get('arg', 0.5))), 'power'
            if act == 'sigint':
                return A_GO, 0, 0, 'sigint'
            if act == 'jump':
                if self.clock:
                    self.clock.jump(f.get('arg', 3600))
                return A_GO, 0, 0, None
            raise ValueError(act)
        return A_GO, 0, 0, None

    def _note(self, cls, path, arg):
        if cls in (C_OPEN_W, C_WRITE, C_TRUNC, C_COPY, C_RENAME):
            if path not in self.dirty:
                try:
                    self.dirty[path] = os.path.getsize(self.root + path)
                except OSError:
                    self.dirty[path] = 0
                    self.created.add(path)
            if cls == C_OPEN_W and (arg & os.O_TRUNC):
                self.dirty[path] = 0
        elif cls == C_SYNC:
            self.dirty.pop(path, None)
            self.created.discard(path)

    # -- the run
    def run(self, fn, *args):
        self.rng = random.Random('sched:%s' % self.plan.sched.get('seed', 0))
        fds = []
        for _ in range(MAXSLOT):
            a, b = os.pipe()       # child -> supervisor
            c, d = os.pipe()       # supervisor -> child
            hi = []
            for fd in (a, b, c, d):        # out of the way of the program's own descriptors
                hi.append(fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 700))
                os.close(fd)
            fds.append(tuple(hi))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                self._child(fds, fn, args)
                code = 0
            finally:
                os._exit(code)
        self.fds = fds
        try:
            return self._supervise(pid)
        finally:
            for p in [pid] + list(self.pids.values()):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            for t in fds:
                for fd in t:
                    _close(fd)
            while True:
                try:
                    q, _ = os.waitpid(-1, 0)
                except OSError:
                    break

    def _child(self, fds, fn, args):
        try:
            out = self.stdout or '/dev/null'
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            _enter(self.root, fds, 0)
            try:
                val = ('ok', fn(*args))
            except SystemExit as e:
                val = ('exit', e.code if isinstance(e.code, int) else (0 if e.code is None else 1))
            except KeyboardInterrupt:
                val = ('interrupt', None)
            except BaseException as e:
                val = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
            try:
                payload = pickle.dumps(val)
            except Exception:
                payload = pickle.dumps((val[0], repr(val[1])))
            import logging
            try:
                logging.shutdown()
            except BaseException:
                pass
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                pass
            _send(M_RESULT, payload)
        except BaseException:
            traceback.print_exc()

    def _read(self, slot, pid):
        """Next message of a process, or None if it died."""
        fd = self.fds[slot][0]
        buf = b''
        need = REQ.size
        pfd = None
        try:
            try:
                pfd = os.pidfd_open(pid)
            except OSError:
                pfd = None
            while len(buf) < need:
                po = select.poll()
                po.register(fd, select.POLLIN)
                if pfd is not None:
                    po.register(pfd, select.POLLIN)
                ev = dict(po.poll(90000))
                if fd in ev:
                    b = os.read(fd, need - len(buf))
                    if not b:
                        return None
                    buf += b
                    if len(buf) == REQ.size and need == REQ.size:
                        need += REQ.unpack(buf)[1]
                elif pfd is not None and pfd in ev:
                    return None
                else:
                    self.hung = True
                    return None
        finally:
            if pfd is not None:
                os.close(pfd)
        cls, ln, arg, path = REQ.unpack(buf[:REQ.size])
        path = path.split(b'\0', 1)[0].decode('utf-8', 'replace')
        if path:
            path = os.path.normpath(path)
        return cls, arg, path, buf[REQ.size:]

    def _reply(self, slot, action=0, err=0, n=0, payload=b''):
        try:
            os.write(self.fds[slot][3], REP.pack(action, err, n) + payload)
        except OSError:
            pass

    hung = False
    pids = {}

    def _supervise(self, mainpid):
        self.pids = {}
        self.mainpid = mainpid
        msg = self._read(0, mainpid)
        while True:
            if self.hung:
                return {'end': 'hang'}
            if msg is None:
                return {'end': 'died'}
            cls, arg, path, payload = msg
            if cls == C_MSG:
                if arg == M_RESULT:
                    val = pickle.loads(payload)
                    self._reply(0)
                    return {'end': val[0], 'value': val[1], 'tb': val[2] if len(val) > 2 else None}
                if arg == M_DRIVE:
                    out = self._drive(*pickle.loads(payload))
                    if out is None:
                        return {'end': 'power'}
                    if self.hung:
                        return {'end': 'hang'}
                    data = pickle.dumps(out)
                    self._reply(0, A_GO, 0, len(data), data)
                else:
                    self._reply(0)
            else:
                extra = self._op(0, cls, arg, path)
                if extra == 'power' or extra == 'kill':
                    self._killall()
                    return {'end': extra}
                if extra == 'sigint':
                    os.kill(mainpid, signal.SIGINT)
                    self._grant(0)
            msg = self._read(0, mainpid)

    def _op(self, proc, cls, arg, path):
        self.nops += 1
        if self.nops > MAX_OPS:
            raise RuntimeError('operation bound exceeded')
        action, err, n, extra = self._decide(proc, cls, arg, path)
        self.trace.append((proc, cls, path, arg, action))
        self._note(cls, path, arg)
        if extra == 'sigint':
            self._pend = (action, err, n)
            return extra
        self._reply(proc, action, err, n)
        return extra

    def _grant(self, proc):
        self._reply(proc, *self._pend)

    def _killall(self):
        for p in [self.mainpid] + list(self.pids.values()):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        # wait until they are gone, so that nothing changes the disk any more
        for p in [self.mainpid] + list(self.pids.values()):
            self._gone(p)

    @staticmethod
    def _gone(pid):
        try:
            fd = os.pidfd_open(pid)
        except OSError:
            return
        po = select.poll()
        po.register(fd, select.POLLIN)
        po.poll(20000)
        os.close(fd)

    def _drive(self, ntasks, nworkers):
        """Schedule worker processes until all tasks are done or the pool breaks."""
        results = {}
        queue = list(range(ntasks))
        parked = {}
        self.pids = {}
        flags = {'broken': False, 'interrupted': False}
        for w in range(1, nworkers + 1):
            m = self._read(w, self.mainpid)     # READY carries the pid
            if m is None:
                flags['broken'] = True
                continue
            self.pids[w] = pickle.loads(m[3])
            parked[w] = ('ready',)
        running = {}           # worker -> task
        last = None
        grace = None
        while True:
            if grace is not None and grace <= 0:
                break
            cand = [w for w in sorted(parked) if parked[w][0] != 'ready' or
                    (queue and not flags['broken'] and not flags['interrupted'])]
            if not cand:
                break
            w = self._pick(cand, last)
            last = w
            st = parked.pop(w)
            if grace is not None:
                grace -= 1
            if st[0] == 'ready':
                t = queue.pop(0)
                running[w] = t
                self.trace.append((w, 0, 'task%d' % t, 0, 0))
                self._reply(w, A_GO, 0, t)
            elif st[0] == 'done':
                self._reply(w)
            else:
                _, cls, arg, path = st
                extra = self._op(w, cls, arg, path)
                if extra == 'power':
                    self._killall()
                    return None
                if extra == 'kill':
                    self._gone(self.pids[w])
                    flags['broken'] = True
                    running.pop(w, None)
                    grace = self.rng.randint(0, 30)
                    continue
                if extra == 'sigint':
                    flags['interrupted'] = True
                    for x, p in self.pids.items():
                        if x == w or parked.get(x, ('ready',))[0] != 'ready':
                            os.kill(p, signal.SIGINT)
                    self._grant(w)
            m = self._read(w, self.pids[w])
            if m is None:
                if self.hung:
                    self._killall()
                    return {}, flags
                flags['broken'] = True
                running.pop(w, None)
                if grace is None:
                    grace = self.rng.randint(0, 30)
                continue
            cls, arg, path, payload = m
            if cls == C_MSG and arg == M_DONE:
                n, res = pickle.loads(payload)
                results[n] = res
                running.pop(w, None)
                parked[w] = ('done',)
            elif cls == C_MSG:
                parked[w] = ('ready',)
            else:
                parked[w] = ('op', cls, arg, path)
        # orderly end: idle workers leave; a broken pool terminates the rest
        for w in list(parked):
            if parked[w][0] == 'ready' and not flags['broken']:
                self._reply(w, A_GO, 0, -1)
            else:
                try:
                    os.kill(self.pids[w], signal.SIGKILL)
                except OSError:
                    pass
            self._gone(self.pids[w])
        return results, flags

    # -- crash consistency: what a power loss leaves of unsynced data
    def lose_unsynced(self, rng, mode='mixed'):
        lost = 0
        for path in sorted(self.dirty):
            full = self.root + path
            if not os.path.isfile(full):
                continue
            size = os.path.getsize(full)
            base = min(self.dirty[path], size)
            r = rng.random()
            if r < 0.35:
                continue
            if r < 0.6:
                new = rng.randint(base, size)
                if new < size:
                    with open(full, 'r+b') as fh:
                        fh.truncate(new)
                    lost += 1
            elif r < 0.75 and size > base:
                a = rng.randint(base, size - 1)     # allocated but never written: zeros
                with open(full, 'r+b') as fh:
                    fh.seek(a)
                    fh.write(b'\0' * (size - a))
                lost += 1
            elif path in self.created:
                if rng.random() < 0.5:
                    os.unlink(full)
                else:
                    with open(full, 'r+b') as fh:
                        fh.truncate(0)
                lost += 1
            elif size > base:
                with open(full, 'r+b') as fh:
                    fh.truncate(base)
                lost += 1
        if lost:
            self.fired['unsynced_loss'] = self.fired.get('unsynced_loss', 0) + lost
        return lost
