"""C05: parallel conversion gives the sequential result under any schedule."""
import os
import re
import shutil

from .. import world, hostconv, damage

LEVEL = 'exploration'
RULE = ('distinct (number of loggers, workers, scheduling policy, output folder depth, earlier run present, kinds of '
        'loggers, first contended operation pair) tuples; a run is non-trivial if at least two workers were runnable at once')
REAL = ['gemlog.gemconvert.main, convert_single_SN and everything below, in forked worker processes',
        'the operating system\'s file system below the scheduled calls']
STUB = ['concurrent.futures.ProcessPoolExecutor (gemsim/simpool.py): forked workers whose every file-system call is granted by a '
        'seeded scheduler', 'loggers and cards (gemsim/device.py)', 'realtime clock']
ASSUMPTIONS = ['workers share nothing but the file system, so file-system calls are the only scheduling points']
NMIN = 6


def generate(rng, i, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    gems = hostconv.stable_card(rng, n)
    for g in gems:
        if rng.random() < 0.25:
            damage.damage(rng, g, 0.6)
    sns = [g['sn'] for g in gems]
    argv_sn = None
    if any(g['fmt'] == '0.8' or g.get('txt') for g in gems) or rng.random() < 0.3:
        argv_sn = sns + rng.choice([[], [], ['999'], ['abc']])
        rng.shuffle(argv_sn)
    sched = {'seed': rng.randrange(1 << 30), 'mode': rng.choice(['random', 'random', 'rr', 'sticky', 'sticky']),
             'switch': rng.choice([0.05, 0.2, 0.5])}
    return {'field': world.random_field(rng), 'gems': gems, 'sns': argv_sn,
            'out': rng.choice(['out', 'out', 'a/b/c', 'mseed', None]),
            'workers': rng.choice([2, 2, 3, 4, 8]), 'sched': sched,
            'len': rng.choice([None, None, '1', '0.01']), 'fmt': rng.choice([None, None, 'sac', 'mseed']),
            'prior': rng.choice([[], [], [], ['gps'], ['metadata'], ['gps', 'metadata'], ['all']]),
            'codes': rng.random() < 0.25, 'listing': rng.choice([None, None, rng.randrange(1000)])}


def argv(scn, workers, sn=None):
    a = ['-i', '../raw', '-p', str(workers)]
    if scn['out']:
        a += ['-o', scn['out']]
    if sn is not None:
        a += ['-s', sn]
    elif scn['sns']:
        a += ['-s', ','.join(scn['sns'])]
    if scn.get('len'):
        a += ['-l', scn['len']]
    if scn.get('fmt'):
        a += ['-f', scn['fmt']]
    if scn.get('codes'):
        a += ['-c', '../codes.txt']
    return a


def setup(scn, ctx, work):
    os.makedirs(ctx.root + '/' + work)
    for p in scn.get('prior', ()):
        if p == 'all':
            for d in ('gps', 'metadata', scn['out'] or (scn.get('fmt') or 'mseed')):
                os.makedirs(ctx.root + '/' + work + '/' + d, exist_ok=True)
        else:
            os.makedirs(ctx.root + '/' + work + '/' + p)
            with open('%s/%s/%s/%s%s_000.txt' % (ctx.root, work, p, scn['gems'][0]['sn'], p), 'w') as f:
                f.write('of an earlier run\n')
    if scn.get('codes'):
        with open(ctx.root + '/codes.txt', 'w') as f:
            f.write('SN,network,station,location\n')
            for k, g in enumerate(scn['gems']):
                f.write('%s,XP,ST%02d,00\n' % (g['sn'], k))


HEAD = ('***Starting', 'Dependencies', 'platform', 'Call:', 'inputdir', 'outputdir', 'serial number list', 'SN-[',
        'format=', 'Skipping SNs')


def records(path, root):
    return sorted((l, re.sub(r'0x[0-9a-f]+', '0x', m.replace(root, ''))) for l, m in hostconv.logged(path)
                  if not m.startswith(HEAD))


def execute(scn, ctx):
    world.Card(scn, ctx.root + '/raw')
    setup(scn, ctx, 'work')
    setup(scn, ctx, 'ref')
    os.chdir(ctx.root)
    raw0 = hostconv.snapshot('raw')
    d = hostconv.run(ctx, ctx.root + '/work', 'gemconvert', argv(scn, scn['workers']), plan={'sched': scn['sched']},
                     listing=scn['listing'])
    from gemlog import gemconvert
    sns = sorted(set(scn['sns'])) if scn['sns'] else sorted({n[9:12 + 1] for n in os.listdir('raw')})
    refs = []
    for sn in sns:
        refs.append(hostconv.run(ctx, ctx.root + '/ref', 'gemconvert', argv(scn, 1, sn), listing=scn['listing']))
    a, b = hostconv.snapshot('work'), hostconv.snapshot('ref')
    ra, rb = [records(x + '/gemconvert_logfile.txt', ctx.root) for x in ('work', 'ref')]
    for s in (a, b):
        s.pop('gemconvert_logfile.txt', None)
    kinds = {x.kind for x in refs}
    if d.kind == 'exit' and 'exit' in kinds:
        pass
    elif d.kind != 'ok' and kinds == {'ok'}:
        ctx.bad('parallel_failed', 'parallel run ended with %r, sequential runs did not' % d, sig=str(d.end.get('value')))
    if a != b:
        miss, extra, diff = sorted(set(b) - set(a)), sorted(set(a) - set(b)), sorted(k for k in a if k in b and a[k] != b[k])
        ctx.bad('parallel_files', 'files differ from one-at-a-time conversion: missing %s, extra %s, different %s; log %s' % (
            miss[:6], extra[:6], diff[:6], [x for x in ra if x not in rb][:6]))
    elif ra != rb:
        ctx.bad('parallel_log', 'log records differ: only parallel %s; only sequential %s' % (
            [x for x in ra if x not in rb][:4], [x for x in rb if x not in ra][:4]))
    if hostconv.snapshot('raw') != raw0:
        ctx.bad('raw_changed', 'the raw folder was changed')
    if d.hr.concurrent:
        ops = [(x[1], x[2].rsplit('/', 1)[0]) for x in d.hr.trace if x[0] > 0]
        sw = sum(1 for x, y in zip(d.hr.trace, d.hr.trace[1:]) if x[0] != y[0])
        ctx.token(len(scn['gems']), scn['workers'], scn['sched']['mode'], scn['out'], '+'.join(scn['prior']),
                  '+'.join(sorted({g['fmt'] for g in scn['gems']})), min(sw // 20, 10))
        ctx.extra['context_switches'] = ctx.extra.get('context_switches', 0) + sw
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(d.kind, sorted(a.items()), ra, [(x[0], x[1], x[2], x[4]) for x in d.hr.trace])


def explicit(scn, res):
    return scn
