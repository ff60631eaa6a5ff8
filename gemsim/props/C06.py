"""C06: after any crash or disk failure, rerunning completes the conversion."""
import os
import random

from .. import world, hostconv, damage
from .C05 import argv, setup

LEVEL = 'exploration'
RULE = ('distinct (failure kind, operation it hit, volume, earlier logs, workers, number of failed attempts) tuples; non-trivial: a '
        'failure really struck before the run would have ended')
REAL = ['gemlog.gemconvert.main, convert_single_SN and everything below, in forked processes', 'python logging']
STUB = ['concurrent.futures.ProcessPoolExecutor (gemsim/simpool.py)', 'kills, power losses with loss of unsynced data, torn writes, '
        'interrupts, disk errors at seeded file-system calls (gemsim/shim.c)', 'loggers and cards (gemsim/device.py)']
ASSUMPTIONS = ['directory entries of created files survive a power loss or vanish with the file; data that were durable stay durable']
NMIN = 6

KINDS = ['kill', 'torn', 'power', 'power', 'powertorn', 'sigint', 'enospc', 'eio', 'erofs']


def fault(rng):
    f = {'act': rng.choice(KINDS), 'at': rng.random(), 'count': 1, 'seed': rng.randrange(1 << 30)}
    if rng.random() < 0.6:
        f['cls'] = rng.choice([['write'], ['openw'], ['write', 'openw', 'mkdir'], ['close'], ['mkdir']])
    if rng.random() < 0.6:
        f['path'] = rng.choice(['/work/out', '/work/out', '/work/gps', '/work/metadata', '/work', '/raw'])
    if f['act'] in ('torn', 'powertorn'):
        f['cls'] = ['write']
        f['arg'] = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
        f['path'] = rng.choice(['/work/out', '/work/gps', '/work/metadata', '/work'])
    if f['act'] in ('enospc', 'eio', 'erofs'):
        if f['act'] == 'erofs':
            f['act'] = 'eacces'
        if f['act'] != 'eio':
            f['cls'] = ['write', 'openw', 'mkdir'] if f['act'] == 'enospc' else ['openw', 'mkdir']
            if f.get('path') == '/raw':
                f['path'] = '/work'
        f['count'] = rng.choice([1, 3, -1])
    return f


def generate(rng, i, tier):
    gems = hostconv.stable_card(rng, rng.choice([1, 1, 2, 2, 3]))
    for g in gems:
        world.add_gaps(rng, g, 0.4)
        if rng.random() < 0.2:
            damage.damage(rng, g, 0.5)
    sns = [g['sn'] for g in gems]
    return {'field': world.random_field(rng, scale=300), 'gems': gems, 'sns': sns, 'out': 'out', 'workers': rng.choice([1, 1, 2, 3]),
            'sched': {'seed': rng.randrange(1 << 30), 'mode': rng.choice(['random', 'seq', 'sticky']), 'switch': 0.1},
            'events': [fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
            'len': rng.choice([None, None, '1', '0.005', '0.01']), 'fmt': rng.choice([None, None, 'sac', 'tspair'] if tier == 'thorough' else [None, None, 'sac']),
            'prior': rng.choice([[], [], ['gps', 'metadata'], ['gps']]), 'codes': rng.random() < 0.15,
            'prior_out': rng.random() < 0.15}


def matches(f, cls, path):
    from ..host import CLS
    return (not f.get('cls') or CLS[cls] in f['cls']) and (not f.get('path') or f['path'] in path)


def newest(folder, kind, sn):
    best = None
    p = os.path.join(folder, kind)
    for n in os.listdir(p) if os.path.isdir(p) else []:
        if n.startswith(sn + kind + '_') and n.endswith('.txt'):
            k = int(n[len(sn + kind + '_'):-4])
            if best is None or k > best[0]:
                best = (k, n)
    if best is None:
        return None, None
    with open(os.path.join(p, best[1]), 'rb') as fh:
        return best[1], fh.read()


def execute(scn, ctx):
    world.Card(scn, ctx.root + '/raw')
    setup(scn, ctx, 'work')
    setup(scn, ctx, 'ref')
    os.chdir(ctx.root)
    raw0 = hostconv.snapshot('raw')
    prior = {k: v for k, v in hostconv.snapshot('work').items()}
    a = argv(scn, scn['workers'])
    ref = hostconv.run(ctx, ctx.root + '/ref', 'gemconvert', a)
    want = hostconv.snapshot('ref/out')
    if scn.get('prior_out'):           # an earlier complete conversion is already there
        hostconv.run(ctx, ctx.root + '/work', 'gemconvert', a)
        prior = {k: v for k, v in hostconv.snapshot('work').items() if not k.startswith('out') and 'logfile' not in k}
    ran, skipped = [], False
    for k, f in enumerate(scn['events']):
        n = sum(1 for p, c, path, arg, act in ref.hr.trace if c and matches(f, c, path.replace('/ref', '/work')))
        g = {x: f[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in f}
        g['nth'] = int(f['at'] * n)
        d = hostconv.run(ctx, ctx.root + '/work', 'gemconvert', a, plan={'sched': scn['sched'], 'faults': [g]})
        if d.kind == 'power':
            d.hr.lose_unsynced(random.Random(f['seed']))
            for x, c in d.hr.fired.items():
                if x == 'unsynced_loss':
                    ctx.fault(x, c)
        skipped = skipped or any(act == 1 and p.startswith('/raw') for q, c, p, arg, act in d.hr.trace)
        if d.hr.fired:
            op = next(((c, p) for q, c, p, arg, act in d.hr.trace if act and c), None) or (d.hr.trace[-1][1], d.hr.trace[-1][2])
            from ..host import CLS
            ran.append((f['act'], CLS.get(op[0]), op[1]))
            ctx.token(f['act'], CLS.get(op[0]), '/'.join(op[1].split('/')[1:3]) if op[1].startswith('/work') else 'raw', d.kind,
                      '+'.join(scn['prior']), scn['workers'], k)
    final = hostconv.run(ctx, ctx.root + '/work', 'gemconvert', a, plan={'sched': dict(scn['sched'], seed=scn['sched']['seed'] + 1)})
    got = hostconv.snapshot('work/out')
    how = 'after %s' % (ran,)
    if final.kind != ref.kind:
        ctx.bad('rerun_failed', 'the rerun ended with %r (undisturbed: %r) %s' % (final, ref, how))
    if {k: v for k, v in got.items() if k in want or not skipped} != want:
        ctx.bad('rerun_differs', '%s the rerun left: missing %s, extra %s, different %s' % (
            how, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5],
            sorted(x for x in got if x in want and got[x] != want[x])[:5]))
    if hostconv.snapshot('raw') != raw0:
        ctx.bad('raw_changed', 'a raw file was changed %s' % how)
    now = hostconv.snapshot('work')
    for k, v in prior.items():
        if now.get(k) != v:
            ctx.bad('prior_log', 'the log %s of an earlier run was changed or lost %s' % (k, how))
    for sn in scn['sns']:
        for kind in ('gps', 'metadata'):
            rn, rb = newest('ref', kind, sn)
            wn, wb = newest('work', kind, sn)
            if rb is not None and wb != rb:
                ctx.bad('newest_log', '%s: newest %s log %s differs from that of an undisturbed run (%s bytes, should be %d) %s' % (
                    sn, kind, wn, None if wb is None else len(wb), len(rb), how))
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(ran, final.kind, sorted(got.items()))
