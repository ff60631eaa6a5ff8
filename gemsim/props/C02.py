"""C02: waveforms equal the recorded pressure; gaps stay gaps."""
import math

import numpy as np

from .. import world, oracle, damage
from ..device import FORMATS

LEVEL = 'exploration'
RULE = ('distinct (format, line encoding, output format, waveform size class, gap class, gain, block split) tuples; '
        'non-trivial: at least one output trace compared with the recorded pressure')
REAL = ['gemlog.convert, gemlog.read_gem, parsers, interpolation, gap merging, MiniSEED/SAC/TSPAIR/WAV writing']
STUB = ['logger firmware, oscillator, GPS receiver, ADC and card (gemsim/device.py)']
ASSUMPTIONS = ['pressure below 18 Hz, where cubic interpolation is within 0.6 % of the amplitude']

BASE = {'old': (7.362893523160217e-08, 0.003385827946929972), 'mid': (7.362893523160217e-08, 0.0036839992467725146),
        'new': (7.275361600951059e-08, 0.003640202941084709)}


def sensitivity(sn):
    n = int(sn)
    return BASE['old' if n <= 37 else 'mid' if n <= 46 else 'new']


def generate(rng, i, tier):
    gem = world.pick_gem(rng)
    world.add_gaps(rng, gem, 0.5)
    damage.damage(rng, gem, rng.choice([0, 0.5]), kinds=('overrun',))
    if rng.random() < 0.3:
        damage.damage(rng, gem, 0.3, kinds=('gps',))
    if rng.random() < 0.25 and len(gem['files']) > 2:
        gem['files'][rng.randrange(1, len(gem['files']) - 1)].setdefault('faults', []).append({'kind': 'missing'})
    if rng.random() < 0.2:
        gem['files'][-1].setdefault('faults', []).append({'kind': 'torn', 'frac': round(rng.uniform(0.75, 1), 6)})
    fld = world.pick_field(rng)
    if rng.random() < 0.05 and len(gem['files']) > 1 and gem['fmt'] not in ('0.8', '0.85', '0.85C'):
        k = rng.randrange(1, len(gem['files']))          # someone changed the gain setting and restarted the logger
        gem['files'][k].update(reboot=True, gap=round(rng.uniform(2, 30), 2))
        for f in gem['files'][k:]:
            f['gain'] = 1 - gem['gain']
    fmt = rng.choice(['MSEED'] * 5 + ['mseed', 'SAC', 'SAC', 'TSPAIR', 'WAV'])
    return {'field': fld, 'gems': [gem],
            'opts': {'file_length_hour': rng.choice([24, 24, 1, 0.02, 0.01]), 'output_format': fmt,
                     'blockdays': rng.choice([1, 1, 1 / 12, 2 / 12, 0.25]), 'units': rng.choice(['Pa', 'Pa', 'V', 'counts'])}}


def read_wav(folder):
    """WAV keeps only the shape: returns (file name, start, normalised samples)."""
    import os
    from scipy.io import wavfile
    out = []
    for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
        rate, y = wavfile.read(os.path.join(folder, name))
        out.append((name, rate, y))
    return out


def execute(scn, ctx):
    import gemlog
    import datetime
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    fmt = scn['opts']['output_format']
    o = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='out', **scn['opts'])
    J0 = oracle.Judge(ctx, lg, [])
    musts = [ft for ft in J0.fts if ft.status == 'must']
    if fmt == 'WAV':
        wavs = read_wav('out')
        for name, rate, y in wavs:
            if rate != 100:
                ctx.bad('rate', '%s has rate %r' % (name, rate))
            t0 = datetime.datetime.strptime(name[:19], '%Y-%m-%dT%H_%M_%S').replace(tzinfo=datetime.timezone.utc).timestamp()
            if len(y) < 400 or max(abs(y)) == 0:
                continue
            best = None
            for sub in range(0, 100, 1):           # the name only gives the whole second
                tt = t0 + sub * 0.01 + np.arange(len(y)) * 0.01
                x = lg.field.value(tt, lg.spec.get('delay', 0.0))
                A = np.stack([y, np.ones(len(y))], 1)
                c, *_ = np.linalg.lstsq(A, x, rcond=None)
                e = x - A @ c
                r = float(np.max(np.abs(e)))
                if best is None or r < best:
                    best = r
                if best < 3:
                    break
            lim = 3 + lg.field.slope_bound() * 0.02 + 1e-3 * lg.field.amp_bound()
            if best > lim and all(f.f.t[0] > t0 + 1 or f.f.t[-1] < t0 or f.status == 'must' for f in J0.fts):
                ctx.bad('wav', '%s does not have the recorded shape (residual %.1f counts, allowed %.1f)' % (name, best, lim))
        if o.kind == 'exc' and musts:
            ctx.bad('no_output', 'conversion ended with %r' % o)
        ctx.token(lg.spec['fmt'], lg.spec.get('style'), fmt)
        ctx.sim_seconds = world.sec(scn['gems'])
        ctx.note(o.kind, o.value, o.error, [(n, len(y), float(y.sum())) for n, r, y in wavs])
        return
    tr, unread = world.read_out('out')
    J = oracle.Judge(ctx, lg, tr)
    for name, e in unread:
        ctx.bad('unreadable', '%s %s' % (name, e))
    J.check_grid()
    J.check_unique()
    J.check_invented()
    J.check_wave()
    J.check_fidelity()
    first = min((ft.f.t[0] for ft in J.fts if ft.status == 'must'), default=0)
    if o.kind != 'ok' and musts:
        ctx.bad('no_output', 'conversion ended with %r although %s are good' % (o, [m.f.name for m in musts]))
    else:
        J.check_complete(t1=math.ceil(first) + 0.01)
    # scale factors
    bv, bp = sensitivity(sn)
    changed = any('gain' in f for f in lg.spec['files'])
    if changed:
        ctx.fault('gain changed')

    def gain_at(t):
        f = max((f for f in lg.files if f.t[0] <= t + 1), key=lambda f: f.t[0], default=lg.files[0])
        return lg.spec['files'][f.index].get('gain', lg.spec.get('gain'))
    mult = 2 if lg.spec.get('gain') == 1 else 1
    if fmt == 'SAC':
        for name, t in tr:
            gain = gain_at(float(t.stats.starttime))
            want = {'Pa': bp, 'V': bv, 'counts': 1}[scn['opts']['units']] * (2 if gain == 1 and scn['opts']['units'] != 'counts' else 1)
            got = t.stats.sac.get('scale')
            if got is None or not abs(got / want - 1) <= 1e-4:
                ctx.bad('scale', '%s carries scale %r, the logger setting (gain %s, %s) means %r' % (
                    name, got, gain, scn['opts']['units'], want), sig='gain_changed' if changed else '')
    if musts and not changed and not any(ft.kinds for ft in J.fts):
        r = world.call(gemlog.read_gem, 'raw', SN=sn, nums=np.array([f.num for f in lg.files]))
        if r.kind == 'ok':
            h = r.value['header']
            for key, v in (('bitweight_Pa', bp * mult), ('bitweight_V', bv * mult)):
                if not all(abs(h[key] / v - 1) <= 1e-9):
                    ctx.bad('scale', 'read_gem header %s is %r, expected %r (gain %s)' % (key, list(h[key]), v, lg.spec.get('gain')))
        else:
            ctx.bad('read_gem', repr(r))
    amp = lg.field.amp_bound()
    for f, ft in zip(lg.spec['files'], J.fts):
        g = f.get('gap', 0)
        ov = [x['n'] for x in f.get('faults', []) if x['kind'] == 'overrun']
        ctx.token(lg.spec['fmt'], lg.spec.get('style'), fmt, int(math.log10(amp)), 'reboot' if f.get('reboot') else '',
                  0 if not g else len('%d' % (g * 100)), ov[:1], lg.spec.get('gain'), changed, scn['opts']['blockdays'] < 1)
        for k in ft.kinds:
            ctx.fault(k)
        if f.get('reboot'):
            ctx.fault('reboot')
        elif g:
            ctx.fault('pause')
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(o.kind, o.value, o.error, [(n, t.stats.starttime, t.stats.npts, float(t.data.astype('float64').sum())) for n, t in tr])
