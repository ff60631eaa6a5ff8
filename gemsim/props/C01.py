"""C01: converted samples carry true GPS time, or the data are withheld."""
import math

import numpy as np

from .. import world, oracle
from ..device import ROLL

LEVEL = 'exploration'
RULE = ('distinct (format, file condition class, GPS fault, reboot, drift class, outcome class) tuples reached by '
        'simulated recordings; a run is non-trivial if at least one raw file was judged')
REAL = ['gemlog.convert and everything below it (Cython parser, regression, interpolation, MiniSEED writing)']
STUB = ['logger firmware, oscillator, GPS receiver, ADC and card (gemsim/device.py)']
ASSUMPTIONS = ['oscillator drift is a cubic polynomial within 60 ppm, interrupted at most once per start by a standstill', 'GPS lines carry PPS counts within 0.6 count',
               'the majority of the fixes of a file are true']


def gps_faults(rng, gem, p, stall=()):
    for f in gem['files']:
        if rng.random() >= p:
            continue
        fl = f.setdefault('faults', [])
        d = f['dur']
        k = rng.choice(['nogps', 'gpsgap', 'gpsgap2', 'gpsfew', 'gpsstep', 'gpsoutlier', 'gpswild', 'gpsdup', 'head', 'tail', *stall])
        if k == 'nogps':
            fl.append({'kind': 'nogps'})
        elif k == 'gpsgap':
            a = rng.uniform(0, d)
            fl.append({'kind': 'gpsgap', 'a': round(a, 1), 'b': round(min(d, a + rng.uniform(0.05, 0.6) * d), 1)})
        elif k == 'gpsgap2':
            fl.append({'kind': 'gpsgap', 'a': round(0.3 * d, 1), 'b': round(rng.uniform(0.4, 0.97) * d, 1)})
        elif k == 'gpsfew':
            fl.append({'kind': 'gpsfew', 'n': rng.choice([1, 2, 5, 8, 9, 10, 11, 12, 20])})
        elif k == 'gpsstep':
            by = rng.choice([1, -1, 1, -1, 2, 18, 3600, -86400, 7 * 1024 * 86400 // 512])
            fl.append({'kind': 'gpsstep', 'frac': round(rng.choice([rng.uniform(0.25, 0.75), rng.uniform(0.9, 0.99)]), 3), 'by': by})
        elif k == 'stall':
            f['dur'] = rng.choice([d, 150, 300])
            fl.append({'kind': 'stall', 'frac': round(rng.choice([rng.random(), rng.uniform(0.03, 0.1), rng.uniform(0.9, 0.97)]), 3),
                       'by': rng.choice([0.3, 0.5, 1, 2, 5, 30])})
        elif k == 'gpsoutlier':
            fl.append({'kind': 'gpsoutlier', 'pts': [[round(rng.random(), 3), rng.choice([1, -1, 2, -3600, 86400, 40])]
                                                    for _ in range(rng.choice([1, 1, 2]))]})
        elif k == 'gpswild':
            fl.append({'kind': 'gpswild', 'pts': [[round(rng.random(), 3), rng.choice([0.5, -30, 170]), rng.choice([1.0, 300, -12])]]})
        elif k == 'gpsdup':
            fl.append({'kind': 'gpsdup', 'frac': round(rng.random(), 2)})
        elif k == 'head':
            fl.append({'kind': 'gpsgap', 'a': 0, 'b': round(rng.uniform(0.2, 0.7) * d, 1)})
        else:
            fl.append({'kind': 'gpsgap', 'a': round(rng.uniform(0.2, 0.9) * d, 1), 'b': d})


def generate(rng, i, tier):
    gem = world.pick_gem(rng)
    big = tier == 'thorough' and rng.random() < 0.05
    if big:
        gem['files'] = [{'dur': rng.choice([1800, 3600, 7200]), 'gap': 0.0} for _ in range(rng.choice([1, 2]))]
        gem['gps'] = world.pick_gps(rng, 1800)
    world.add_gaps(rng, gem, 0.35)
    gps_faults(rng, gem, rng.choice([0, 0.3, 0.6]), ['stall', 'stall'])
    field = world.random_field(rng, scale=rng.choice([300, 1000, 4000]))
    scn = {'field': field, 'gems': [gem], 'opts': {'file_length_hour': rng.choice([24, 24, 1, 0.02])}}
    if rng.random() < 0.3:
        scn['opts']['blockdays'] = rng.choice([1 / 12, 1 / 6, 0.25])
    if rng.random() < 0.08:
        scn['shift'] = rng.choice([86400, -86400] if 'blockdays' in scn['opts'] else [1, -1, 18, 3600, -86400, 2])
    return scn


def check_shift(ctx, scn, sn, tr):
    """A documented time_adjustment moves every sample time by exactly that amount, and nothing else."""
    import gemlog
    o = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='out2', gpspath='gps2', metadatapath='metadata2',
                   time_adjustment=scn['shift'], **scn['opts'])
    if o.kind != 'ok':
        return ctx.bad('shift', 'conversion with time_adjustment=%r ended with %r' % (scn['shift'], o))
    tr2, _ = world.read_out('out2')

    def samples(ts, by):
        return sorted((round((t.stats.starttime.ns - by * 10**9) / 10**7), t.stats.npts, t.data.astype('int64').tolist()) for _, t in ts)
    a, b = samples(tr, 0), samples(tr2, scn['shift'])

    def flat(x):
        return {s + k: v for s, n, d in x for k, v in enumerate(d)}
    if flat(a) != flat(b):
        ctx.bad('shift', 'time_adjustment=%r does not give the same samples %r s later: %s and %s' % (
            scn['shift'], scn['shift'], [x[:2] for x in a][:4], [x[:2] for x in b][:4]))
    import os
    g = [open(d + '/' + sorted(os.listdir(d))[-1]).read() if os.path.isdir(d) and os.listdir(d) else '' for d in ('gps', 'gps2')]
    if g[0] != g[1]:
        ctx.bad('shift', 'time_adjustment=%r changes the GPS log' % scn['shift'])
    ctx.fault('time_adjustment')


def execute(scn, ctx):
    import gemlog
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    edge, why = None, 'near_end'
    for f in lg.files:
        if any(x['kind'] == 'stall' for x in f.faults) and len(f.t) > 1:
            at = f.t[int(np.argmax(np.diff(f.t)))]
            after = sum(x['sec'] > at for x in f.fixes)
            few = min(after, len(f.fixes) - after)
            if few < 6:
                return ctx.note('too few fixes on one side of the discontinuity to reveal it')
            before = [x['sec'] for x in f.fixes if x['sec'] <= at]
            off = min([x['sec'] for x in f.fixes if x['sec'] > at]) - max(before)
            if few < 0.2 * len(f.fixes):
                edge = f
            elif off > 5 and max(x['by'] for x in f.faults if x['kind'] == 'stall') <= 1:
                edge, why = f, 'in_pause'          # while the receiver was off
    o = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='out', **scn['opts'])
    tr, unread = world.read_out('out')
    J = oracle.Judge(ctx, lg, tr)
    if edge is not None and any(J.contributed(ft) for ft in J.fts if ft.f is edge):
        ctx.fault('stall')
        return ctx.bad('discontinuity', '%s was converted although its fixes disagree by %s s after the counter stood still (%d samples)' % (
            edge.name, [x['by'] for x in edge.faults if x['kind'] == 'stall'], len(edge.t)), why)
    for name, e in unread:
        ctx.bad('unreadable', '%s %s' % (name, e))
    J.check_unique()
    J.check_invented()
    J.check_wave()
    musts = [ft for ft in J.fts if ft.status == 'must']
    first = min((ft.f.t[0] for ft in musts), default=0)
    report = repr(o.value) + ' ' + repr(o.error)
    if o.kind != 'ok' and musts:
        ctx.bad('no_output', 'conversion ended with %r although %s have adequate GPS' % (o, [m.f.name for m in musts]))
    else:
        J.check_complete(t1=math.ceil(first) + 0.01)
    if scn.get('shift') and o.kind == 'ok':
        check_shift(ctx, scn, sn, tr)
    for ft in J.fts:
        if ft.status == 'mustnot' and ft.data_bearing and not J.contributed(ft) and ft.f.name not in report and o.kind == 'ok':
            ctx.bad('withheld_unreported', '%s was withheld (%s) but the report is %s' % (ft.f.name, sorted(ft.kinds), report[:500]))
        dr = lg.spec['drift']
        ctx.token(lg.spec['fmt'], ft.status, '+'.join(sorted(ft.kinds)), 'reboot' if lg.spec['files'][ft.f.index].get('reboot') else '',
                  'lin' if not any(dr[1:]) else 'poly', 'in' if J.contributed(ft) else 'out')
        for k in ft.kinds:
            ctx.fault(k)
    if any(f.get('reboot') for f in lg.spec['files']):
        ctx.fault('reboot', sum(bool(f.get('reboot')) for f in lg.spec['files']))
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.extra['windows_judged'] = len(tr)
    ctx.note(o.kind, o.value, o.error, [(n, t.stats.starttime, t.stats.npts, int(t.data.astype('int64').sum())) for n, t in tr])
