"""C07: no failure is silent: the conversion log records every logger that did not finish."""
import json
import os
import random
import re
import shutil

import numpy as np

from .. import world, hostconv, oracle, damage
from .C05 import argv, setup, records, HEAD

LEVEL = 'exploration'
RULE = ('distinct (fault kind, operation, volume, workers, loggers, outcome: unaffected / reported) tuples; non-trivial: the '
        'fault really fired')
REAL = ['gemlog.gemconvert.main, convert_single_SN and everything below, in forked worker processes', 'python logging']
STUB = ['concurrent.futures.ProcessPoolExecutor (gemsim/simpool.py)', 'errors, short reads, kills at seeded file-system calls '
        '(gemsim/shim.c)', 'loggers and cards (gemsim/device.py)']
ASSUMPTIONS = ['the volume that holds the log itself does not fail', 'a broken process pool terminates all its workers, as '
               'concurrent.futures does']
NMIN = 6

KINDS = ['eio', 'eio', 'eio', 'kill', 'kill', 'enospc', 'eacces', 'emfile', 'short', 'exit']


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    gems = hostconv.stable_card(rng, n)
    for g in gems:
        if rng.random() < 0.15:
            damage.damage(rng, g, 0.5)
    sns = [g['sn'] for g in gems]
    if not any(g['fmt'] == '0.8' or g.get('txt') for g in gems) and rng.random() < 0.3:
        sns = None
    f = {'act': rng.choice(KINDS), 'at': rng.random(), 'count': 1}
    r = rng.random()
    vol = rng.choice(['raw', 'raw', 'raw', 'out', 'out', 'gps', 'metadata', 'any'])
    if f['act'] in ('enospc',):
        vol = rng.choice(['out', 'gps', 'metadata'])
    if f['act'] == 'exit':
        f['act'] = rng.choice(['eacces', 'enospc', 'eio'])
        f['cls'] = ['mkdir']
        vol = rng.choice(['out', 'gps', 'metadata'])
    if f['act'] == 'short':
        f['count'] = rng.choice([1, 5, -1])
        f['arg'] = rng.choice([0.01, 0.3, 0.9])
        f['cls'] = ['read'] if rng.random() < 0.7 else ['write']
        if f['cls'] == ['write']:
            vol = rng.choice(['out', 'gps', 'metadata'])
    elif f['act'] != 'kill' and rng.random() < 0.4:
        f['count'] = rng.choice([2, 5, -1])
    f['vol'] = vol
    faults = [f]
    if rng.random() < 0.2:
        faults.append({'act': 'eio', 'at': rng.random(), 'count': 1, 'vol': 'raw'})
    scn = {'field': world.random_field(rng, scale=300), 'gems': gems, 'sns': sns, 'out': 'out', 'workers': rng.choice([1, 1, 2, 3]),
           'sched': {'seed': rng.randrange(1 << 30), 'mode': rng.choice(['random', 'seq', 'sticky']), 'switch': 0.1},
           'faults': faults, 'codes': rng.random() < (0.5 if any(g['fmt'] == '0.8' or g.get('txt') for g in gems) else 0.12), 'fmt': rng.choice([None, None, 'sac']),
           'prior': rng.choice([[], ['gps', 'metadata']]),
           'config': rng.choice([None] * 14 + ['nocodes', 'badcodes', 'noraw', 'fmt'])}
    return scn


VOL = {'raw': '/raw', 'out': '/work/out', 'gps': '/work/gps', 'metadata': '/work/metadata', 'any': None}
# operations whose failure the program can see and must not hide (close errors of read-only files are harmless)
SEEN = ['openr', 'openw', 'read', 'write', 'mkdir', 'opendir', 'stat']


def plan_from(scn, trace):
    """Turns each fault's relative position into an operation of the undisturbed run."""
    out = []
    for f in scn['faults']:
        g = {k: f[k] for k in ('act', 'count', 'arg', 'cls') if k in f}
        v = VOL[f['vol']]
        if f['vol'] == 'any':
            g['paths'] = [x for x in VOL.values() if x]
        else:
            g['path'] = v
        if 'cls' not in g and f['act'] != 'kill':
            g['cls'] = SEEN
        if f['act'] == 'kill':
            g['worker'] = True
        n = sum(1 for p, c, path, arg, a in trace if c and match(g, p, c, path))
        g['nth'] = int(f['at'] * n) if n else 0
        out.append(g)
    return out


def match(g, proc, cls, path):
    from ..host import CLS
    if g.get('cls') and CLS[cls] not in g['cls']:
        return False
    if g.get('path') and g['path'] not in path:
        return False
    if g.get('paths') and not any(x in path for x in g['paths']):
        return False
    if g.get('notpath') and g['notpath'] in path:
        return False
    if g.get('worker') and proc == 0:
        return False
    return True


def logger_files(work, sn, station):
    out = {}
    for d in ('out', 'gps', 'metadata'):
        p = os.path.join(work, d)
        if os.path.isdir(p):
            for n in sorted(os.listdir(p)):
                if d == 'out':
                    c = n.split('.')
                    mine = len(c) > 2 and c[2] == station
                else:
                    mine = n.startswith(sn)
                if mine:
                    with open(os.path.join(p, n), 'rb') as fh:
                        out[d + '/' + n] = fh.read()
    return out


def execute(scn, ctx):
    card = world.Card(scn, ctx.root + '/raw')
    setup(scn, ctx, 'work')
    setup(scn, ctx, 'ref')
    os.chdir(ctx.root)
    raw0 = hostconv.snapshot('raw')
    a = argv(scn, scn['workers'])
    ref = hostconv.run(ctx, ctx.root + '/ref', 'gemconvert', a)
    cfg = scn.get('config')
    if cfg == 'nocodes':
        a += ['-c', '../missing.txt']
    elif cfg == 'badcodes':
        with open('bad.txt', 'w') as f:
            f.write('SN,network\n1,2\n')
        a += ['-c', '../bad.txt']
    elif cfg == 'noraw':
        a[1] = '../nowhere'
    elif cfg == 'fmt':
        a += ['-f', 'nosuchformat']
    trace = [(p, c, path.replace('/ref', '/work'), arg, act) for p, c, path, arg, act in ref.hr.trace]
    plan = {'sched': scn['sched'], 'faults': plan_from(scn, trace)}
    d = hostconv.run(ctx, ctx.root + '/work', 'gemconvert', a, plan=plan)
    recs = hostconv.logged('work/gemconvert_logfile.txt')
    errs = [m for l, m in recs if l in ('ERROR', 'CRITICAL') or 'atal error' in m]
    nonfatal = ' '.join(m for l, m in recs if 'Non-fatal' in m)
    everything = [m for l, m in recs if l in ('ERROR', 'CRITICAL') and ('input data folder' in m or 'codes file' in m)]
    fired = sum(d.hr.fired.values())
    for k, g in enumerate(scn['gems']):
        sn = g['sn']
        if scn['sns'] is not None and sn not in scn['sns']:
            continue
        station = 'ST%02d' % k if scn.get('codes') else sn
        want = logger_files('ref', sn, station)
        got = logger_files('work', sn, station)
        mine = [m for m in errs if re.search(r'(?<!\d)%s(?!\d)' % sn, m)]
        if got == want:
            continue
        if mine or everything:
            ctx.token(outcome_token(scn, d), 'reported', scn['workers'], len(scn['gems']))
            continue
        # nothing says this logger failed as a whole: then only files named as problems may be missing
        lg = card.by_sn(sn)
        os.makedirs('judge', exist_ok=True)
        shutil.rmtree('judge')
        os.makedirs('judge')
        for n in got:
            if n.startswith('out/'):
                shutil.copy('work/' + n, 'judge/')
        tr, unread = world.read_out('judge')
        named = [f.name for f in lg.files if f.name in nonfatal]
        new = [f for f in named if f not in ref_named(ref, ctx)]
        detail = '%s under %s; log: %s' % (sn, [dict(x, seen=0) for x in plan['faults']], (errs or [m for l, m in recs][-4:])[:5])
        if unread:
            ctx.bad('silent', 'unreadable output %s of %s' % (unread[:2], detail), sig=sig_of(d))
            return
        if not new:
            miss = sorted(set(want) - set(got)), sorted(set(got) - set(want)), sorted(x for x in got if x in want and got[x] != want[x])
            ctx.bad('silent', 'files differ from an undisturbed run (missing, extra, changed: %s) and no error is logged for %s' % (
                miss, detail), sig=sig_of(d))
            return
        ctx.token(outcome_token(scn, d), 'named', scn['workers'], len(scn['gems']))
        J = oracle.Judge(ctx, lg, tr, prefix='named_', scale=1.0)
        if scn.get('fmt') == 'sac':
            pass
        for ft in J.fts:
            if ft.f.name in named and ft.status == 'must':
                ft.status = 'may'
        # the named files must be withheld as a whole, the others complete
        J.check_unique()
        J.check_invented()
        wild = any(ft.wave == 'unknown' for ft in J.fts)
        first = min((ft.f.t[0] for ft in J.fts if ft.status == 'must'), default=0)
        J.check_complete(t1=np.ceil(first) + 0.01)
        J.check_wave()
    if d.kind != 'ok' and not everything and cfg is None and not (d.kind in ('died', 'kill', 'exit')):
        if not errs:
            ctx.bad('silent_main', 'the command ended with %r and logged no error' % d, sig=sig_of(d))
    for f in hostconv.snapshot('raw').items():
        if raw0.get(f[0]) != f[1]:
            ctx.bad('raw_changed', f[0])
    if fired:
        ctx.token(outcome_token(scn, d), 'unaffected' if not ctx.tokens else 'affected', scn['workers'], len(scn['gems']))
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(d.kind, sorted(hostconv.snapshot('work/out').items()) if os.path.isdir('work/out') else None,
             [m for l, m in recs if not m.startswith(HEAD)], [(x[0], x[1], x[2], x[4]) for x in d.hr.trace])


def ref_named(ref, ctx):
    return ' '.join(m for l, m in hostconv.logged(ctx.root + '/ref/gemconvert_logfile.txt') if 'Non-fatal' in m)


def hit(d):
    from ..host import CLS
    for p, c, path, arg, act in d.hr.trace:
        if act and c:
            return CLS[c], path, p
    return None


def outcome_token(scn, d):
    h = hit(d)
    if not h:
        return 'none/' + str(scn.get('config'))
    vol = h[1].split('/')[1:3]
    return '%s/%s/%s/%s' % ('+'.join(sorted(d.hr.fired)), h[0], '/'.join(vol[:1] if vol[0] == 'raw' else vol), scn.get('config'))


def sig_of(d):
    h = hit(d)
    return '' if not h else '%s %s' % (h[0], re.sub(r'\d+', 'N', h[1]))
