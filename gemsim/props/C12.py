"""C12: results depend only on the raw data and options, not on the host."""
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from .. import world, hostconv, host, damage

LEVEL = 'exploration'
RULE = ('distinct (clock class, clock jumps, time zone, listing order seeded, hash seed, extra-file kinds, repetition, working folder, '
        'raw folder spelling, formats) tuples; non-trivial: the second host differs from the first in at least one respect')
REAL = ['gemlog.gemconvert.main and everything below, in forked processes and (hash-seed runs) in fresh interpreters']
STUB = ['realtime clock, directory listing order, environment (gemsim/shim.c, gemsim/host.py)', 'process pool (gemsim/simpool.py)',
        'loggers and cards (gemsim/device.py)']
ASSUMPTIONS = ['the log\'s own time stamps and platform line are not results']
NMIN = 6

CLOCKS = [1.75e9, 1.75e9, 0.0, 1000.0, 1.2e9, 1.4e9, 1.5e9, 1.6e9, 1.9e9, 2.1e9, 4.0e9]
ZONES = [None, 'UTC', 'America/Boise', 'Asia/Kathmandu', 'EST5EDT', 'Pacific/Auckland', 'XXX-14:30', 'Europe/London']
EXTRA = ['README.txt', '.Trashes', 'FILE0000.BAK~', '._FILE0001.055', 'FILE12.055', 'FILE00010.055', 'notes', 'FILE0001', 'file0001.055',
         'System Volume Information', 'GEMCONFIG.TXT', 'FILE0005.OLD', 'other.mseed', 'FILE0001.055.gz', 'FILE9999.200']


def hostspec(rng, plain=False):
    if plain:
        return {'clock': 1.95e9, 'step': 1000, 'jumps': [], 'tz': None, 'listing': 0, 'extra': [], 'repeat': 1, 'cwd': 'plain', 'rawname': 'raw',
                'hash': None, 'short': 0, 'order': None}
    return {'clock': rng.choice(CLOCKS), 'step': rng.choice([0, 1, 1000, 10 ** 9, -1000]),
            'jumps': [{'at': rng.random(), 'by': rng.choice([-1e9, -3600, -1, 1, 3600, 1e8])} for _ in range(rng.choice([0, 0, 1, 2]))],
            'tz': rng.choice(ZONES), 'listing': rng.choice([None, rng.randrange(1 << 20)]),
            'extra': rng.sample(EXTRA, rng.choice([0, 0, 2, 5])), 'repeat': rng.choice([1, 1, 2, 3]),
            'cwd': rng.choice(['plain', 'plain', 'with space', 'deep/er/fold', 'x[1]']), 'rawname': rng.choice(['raw', 'raw', 'raw data', 'raw[0]', 'r*w', 'raw.d']),
            'hash': rng.randrange(1, 1000) if rng.random() < 0.12 else None, 'short': rng.random() < 0.2,
            'order': rng.randrange(1 << 20) if rng.random() < 0.3 else None}


def generate(rng, i, tier):
    gems = hostconv.stable_card(rng, rng.choice([1, 1, 2, 2, 3]))
    for g in gems:
        world.add_gaps(rng, g, 0.3)
        if rng.random() < 0.3:
            damage.damage(rng, g, 0.5)
    return {'field': world.random_field(rng, scale=300), 'gems': gems,
            'sns': [g['sn'] for g in gems] if rng.random() < 0.5 or any(g['fmt'] == '0.8' or g.get('txt') for g in gems) else None,
            'host': hostspec(rng), 'workers': rng.choice([1, 1, 2]), 'len': rng.choice([None, '1', '0.01']), 'fmt': rng.choice([None, None, 'sac']),
            'codes': rng.random() < 0.2}


def run_host(scn, ctx, h, name):
    """One conversion on host h; -> (files, report, outcome)."""
    base = ctx.root + '/' + name
    os.makedirs(base)
    raw = base + '/' + h['rawname']
    shutil.copytree(ctx.root + '/raw', raw)
    for x in h['extra']:
        if not os.path.exists(raw + '/' + x):
            with open(raw + '/' + x, 'wb') as f:
                f.write(b'whatever,1\n2\n')
    work = base + '/' + h['cwd']
    os.makedirs(work)
    rel = os.path.relpath(raw, work)
    sns = scn['sns']
    if sns is None:
        sns = [g['sn'] for g in scn['gems']]
    sns = list(sns)
    if h['order'] is not None:
        import random
        random.Random(h['order']).shuffle(sns)
    if scn['sns'] is None and not h['extra']:
        sns = None
    a = ['-i', rel, '-p', str(scn['workers']), '-o', 'out']
    if sns:
        a += ['-s', ','.join(sns)]
    if scn.get('len'):
        a += ['-l', scn['len']]
    if scn.get('fmt'):
        a += ['-f', scn['fmt']]
    if scn.get('codes'):
        with open(base + '/codes.txt', 'w') as f:
            f.write('SN,network,station,location\n' + ''.join('%s,XP,ST%02d,00\n' % (g['sn'], k) for k, g in enumerate(scn['gems'])))
        a += ['-c', os.path.relpath(base + '/codes.txt', work)]
    kinds = []
    for r in range(h['repeat']):
        if h['hash'] is not None:
            env = dict(os.environ, PYTHONHASHSEED=str(h['hash']), **({'TZ': h['tz']} if h['tz'] else {}))
            p = subprocess.run([sys.executable, '-c', 'import sys;from gemlog import gemconvert;gemconvert.main(sys.argv[1:])'] + a,
                               cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            kinds.append('ok' if p.returncode == 0 else 'exit')
            ctx.fault('hash_seed')
            continue
        clock = host.SimClock()
        clock.install(h['clock'], h['step'])
        faults = [{'act': 'jump', 'arg': j['by'], 'nth': int(j['at'] * 200), 'count': 1} for j in h['jumps']]
        if h['short']:
            faults.append({'act': 'short', 'cls': ['read'], 'arg': 0.37, 'count': -1, 'path': '/' + h['rawname'] + '/'})
        try:
            d = hostconv.run(ctx, work, 'gemconvert', a, plan={'sched': {'seed': 1, 'mode': 'seq'}, 'faults': faults}, clock=clock,
                             listing=h['listing'], tz=h['tz'])
        finally:
            clock.off()
        kinds.append(d.kind)
    files = {}
    for k, v in hostconv.snapshot(work + '/out').items():
        files['out/' + k] = v
    for kind in ('gps', 'metadata'):
        last = {}
        p = work + '/' + kind
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            sn, num = n.split(kind + '_')
            with open(p + '/' + n, 'rb') as fh:
                last[sn] = max(last.get(sn, (-1, b'')), (int(num[:-4]), fh.read()))
        for sn, (num, text) in last.items():
            files['%s/%s' % (kind, sn)] = text
            if num != h['repeat'] - 1:
                files['%s/%s' % (kind, sn)] = 'number %d after %d runs' % (num, h['repeat'])
    recs = []
    for l, m in hostconv.logged(work + '/gemconvert_logfile.txt'):
        if 'Non-fatal' in m or 'rror' in m or 'ompleted' in m:
            m = re.sub(r'File "[^"]*", line', 'File X, line', m).replace(rel, 'RAW').replace(ctx.root, '')
            recs.append((l, m))
    return files, sorted(set(recs)), sorted(set(kinds))


def execute(scn, ctx):
    world.Card(scn, ctx.root + '/raw')
    os.chdir(ctx.root)
    import random
    A = run_host(scn, ctx, hostspec(None, plain=True), 'A')
    h = scn['host']
    B = run_host(scn, ctx, h, 'B')
    if A[0] != B[0]:
        ctx.bad('host_files', 'files differ between hosts: only reference %s, only this host %s, different %s; log %s' % (
            sorted(set(A[0]) - set(B[0]))[:5], sorted(set(B[0]) - set(A[0]))[:5],
            sorted(k for k in A[0] if k in B[0] and A[0][k] != B[0][k])[:5], B[1][:4]), sig='files')
    elif A[1] != B[1]:
        ctx.bad('host_report', 'reports differ: %s / %s' % ([x for x in A[1] if x not in B[1]][:4], [x for x in B[1] if x not in A[1]][:4]), sig='report')
    elif A[2] != B[2]:
        ctx.bad('host_outcome', '%s / %s' % (A[2], B[2]))
    ctx.token(h['clock'], h['step'], len(h['jumps']), h['tz'], h['listing'] is not None, h['hash'] is not None, len(h['extra']), h['repeat'],
              h['cwd'], h['rawname'])
    for k, used in (('wrong_clock', abs(h['clock'] - 1.75e9) > 1e8), ('timezone', h['tz']), ('listing_order', h['listing'] is not None),
                    ('unrelated_files', h['extra']), ('repetition', h['repeat'] > 1)):
        if used:
            ctx.fault(k)
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(sorted(B[0].items()), B[1], B[2])
