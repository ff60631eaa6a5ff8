#!/opt/venv/bin/python
"""check.py PROP [quick|thorough] [--seed N] [--budget S] [--replay FILE] [--explore N [--start I]] [--dump I]

Copies gemlog from /repo's working tree to a scratch folder, builds its parser there, compiles the
system-call shim, and runs the simulation of one property against that build.
Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.  Other: no verdict.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GEMSIM_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUDGET = {'quick': 50, 'thorough': 780}


def prepare(scratch):
    pkg = os.path.join(scratch, 'pkg')
    os.makedirs(pkg)
    shutil.copytree(os.path.join(REPO, 'gemlog'), os.path.join(pkg, 'gemlog'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.c', '*.pyc'))
    for f in os.listdir(REPO):
        if os.path.isfile(os.path.join(REPO, f)) and not f.startswith('.git'):
            shutil.copy(os.path.join(REPO, f), pkg)
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=pkg)
    env.pop('CFLAGS', None)
    env.pop('LDFLAGS', None)
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=pkg, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print('the gemlog extension does not build')
        return None
    shutil.rmtree(os.path.join(pkg, 'build'), ignore_errors=True)
    shim = os.path.join(scratch, 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-o', shim,
                        os.path.join(VERIF, 'gemsim', 'shim.c'), '-ldl', '-lpthread'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        return None
    return pkg, shim


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--explore', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--dump', type=int)
    ap.add_argument('--digests')
    a = ap.parse_args()
    if not a.prop and not a.setup:
        ap.error('which property?')
    base = '/dev/shm' if os.path.isdir('/dev/shm') and shutil.disk_usage('/dev/shm').free > 2e9 else '/tmp'
    scratch = tempfile.mkdtemp(prefix='gemsim_', dir=base)
    child = None

    def stop(*_):
        if child is not None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(4)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        got = prepare(scratch)
        if got is None:
            return 2
        if a.setup:
            print('gemlog and the shim build')
            return 0
        pkg, shim = got
        opts = {'pkg': pkg, 'base': os.path.join(scratch, 'runs'), 'tier': a.tier, 'seed': a.seed,
                'budget': a.budget or float(os.environ.get('GEMSIM_BUDGET', BUDGET[a.tier])),
                'replay': os.path.abspath(a.replay) if a.replay else None, 'dump': a.dump,
                'digests': os.path.abspath(a.digests) if a.digests else None}
        if a.explore:
            opts.update(explore=True, n=a.explore, start=a.start)
            opts['budget'] = a.budget or 1e6
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_', 'LC_', 'LANG', 'TZ'))}
        env.update(LD_PRELOAD=shim, GEMSIM_SHIM=shim, PYTHONPATH=pkg + ':' + VERIF,
                   PYTHONHASHSEED=os.environ.get('GEMSIM_HASHSEED', '0'),
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
                   MPLCONFIGDIR=os.path.join(scratch, 'mpl'), PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
                   LANG='C.UTF-8', HOME=os.path.join(scratch, 'home'), PYTHONWARNINGS='ignore')
        os.makedirs(os.path.join(scratch, 'mpl'))
        os.makedirs(os.path.join(scratch, 'home'))
        child = subprocess.Popen([PY, '-m', 'gemsim.engine', a.prop, json.dumps(opts)], env=env, cwd=scratch,
                                 start_new_session=True)
        return child.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
