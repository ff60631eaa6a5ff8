"""C03: one bad raw file never costs another; every loss is reported."""
import math
import os

import numpy as np

from .. import world, oracle, damage

LEVEL = 'exploration'
RULE = ('distinct (format, fault kind, position class on the card, block split, outcome: converted / withheld+named / '
        'error) tuples; non-trivial: at least one raw file was damaged')
REAL = ['gemlog.convert, gemlog.read_gem and everything below (all three raw readers)']
STUB = ['logger, SD card and power-loss damage (gemsim/device.py)']
ASSUMPTIONS = ['values in files with garbled bytes are not judged, only their neighbours and the report']


def generate(rng, i, tier):
    gem = world.pick_gem(rng, nfiles=rng.choice([2, 3, 4, 5, 6, 8] + ([14, 26] if tier == 'thorough' else [14])))
    if len(gem['files']) > 6:
        for f in gem['files']:
            f['dur'] = 40 + (f['dur'] % 10)
        gem['gps'] = {'cycle': 0, 'quota': 0, 'noise': 0.1, 'lat': 40.0, 'lon': -110.0, 'delay': 0}
    world.add_gaps(rng, gem, rng.choice([0, 0.4]))
    damage.damage(rng, gem, rng.choice([0.3, 0.5, 0.8]), kinds=('byte', 'byte', 'byte', 'gps', 'overrun'))
    if rng.random() < 0.2:
        num = gem['num0']
        for f in gem['files']:
            f['num'] = num
            num += rng.choice([1, 1, 1, 2, 13, 40])
        if gem['files'][-1]['num'] > 9999:
            for f in gem['files']:
                f['num'] -= 9000
    gems = [gem]
    if rng.random() < 0.25:
        other = world.pick_gem(rng, used=(gem['sn'],), nfiles=1, dur=40)
        other['num0'] = rng.choice([0, 3, 100])
        if not (other['fmt'] == '0.8' or other.get('txt')) or not (gem['fmt'] == '0.8' or gem.get('txt')):
            gems.append(other)
    pick = sorted(rng.sample(range(len(gem['files'])), rng.randint(1, len(gem['files'])))) if rng.random() < 0.12 else None
    return {'field': world.random_field(rng, scale=rng.choice([60, 300, 2000])), 'gems': gems, 'pick': pick,
            'extra_files': rng.choice([[], [], ['README', 'FILE00A1.055', '._FILE0000.055', 'FILE0007.XYZ', 'FILE9999.TXT']]),
            'opts': {'file_length_hour': rng.choice([24, 1]), 'blockdays': rng.choice([1, 1, 1 / 12, 2 / 12, 0.25])}}


def execute(scn, ctx):
    import gemlog
    card = world.Card(scn, ctx.root + '/raw')
    for n in scn['extra_files']:
        if not os.path.exists('raw/' + n):
            with open('raw/' + n, 'wb') as f:
                f.write(b'\0\1not a raw file\n\n')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    pick, kw = scn.get('pick'), {}
    if pick is not None:
        kw['nums'] = np.array([lg.files[j].num for j in pick if j < len(lg.files)])
        if not len(kw['nums']):
            return
    o = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='out', **scn['opts'], **kw)
    tr, unread = world.read_out('out')
    J = oracle.Judge(ctx, lg, tr)
    if pick is not None:
        J.fts = [ft for ft in J.fts if ft.f.index in pick]
    for name, e in unread:
        ctx.bad('unreadable', '%s %s' % (name, e))
    musts = [ft for ft in J.fts if ft.status == 'must']
    wild = any(ft.wave == 'unknown' for ft in J.fts)
    if not wild:
        J.check_unique()
        J.check_invented()
    J.check_wave()
    first = min((ft.f.t[0] for ft in musts), default=0)
    if o.kind != 'ok' and musts:
        ctx.bad('no_output', 'conversion ended with %r although %s are undamaged; others %s' % (
            o, [m.f.name for m in musts], [(ft.f.name, sorted(ft.kinds)) for ft in J.fts if ft.kinds]),
            sig=(o.error or '').split(':')[0])
    elif o.kind == 'ok':
        J.check_complete(t1=math.ceil(first) + 0.01)
        J.check_reported(repr(o.value))
    elif o.kind == 'exc':
        J.check_reported(str(o.error))
    n = len(J.fts)
    for ft in J.fts:
        if ft.kinds:
            pos = 'first' if ft.f.index == 0 else 'last' if ft.f.index == n - 1 else 'mid'
            ctx.token(lg.spec['fmt'], '+'.join(sorted(ft.kinds)), pos, scn['opts']['blockdays'] < 1, o.kind,
                      'in' if J.contributed(ft) else 'out')
            for k in ft.kinds:
                ctx.fault(k)
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(o.kind, o.value, o.error, [(n, t.stats.starttime, t.stats.npts, int(t.data.astype('int64').sum())) for n, t in tr])
