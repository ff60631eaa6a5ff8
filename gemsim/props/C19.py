"""C19: removing the instrument response from converted data gives the pressure that was at the microphone."""
import os

import numpy as np

from .. import world, hostconv

LEVEL = 'exploration'
RULE = ('distinct (raw format, gain setting, number of loggers and of gains, way of removing the response, custom microphone, letters of the gain argument, kind of the failure, '
        'outcome) tuples; non-trivial: at least one stretch of pressure was restored and judged')
REAL = ['gemlog.gemconvert.main and everything below', 'gemlog.deconvolve_gem_response, get_gem_response, make_gem_inventory', 'obspy (remove_response, StationXML)']
STUB = ['logger firmware, oscillator, GPS receiver, microphone (nominal sensitivity of its serial number and gain setting, 0.039 Hz high pass), ADC and card (gemsim/device.py)',
        'kills, interrupts and disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['0.5 to 8 Hz; amplitudes within 8 % (nominal sensitivities of the models differ by 4 % from the default response) and delays within 6 ms (the ADC filter delays 3.4 ms)',
               'the tapered ends of each stretch are not judged']
NMIN = 8

RESP = 'RESP.XX.IS025..BDF.GEMV1.26.0_0022'


def sensitivity(sn):
    """Counts per pascal at the normal gain, from the published figures of each model."""
    n = int(sn)
    volts = (3.1 if n >= 38 else 3.373) / 7.0 * 45.13e-6
    return volts * (1 + (50 if n >= 47 else 49.4) / 0.47) * 2 ** 15 / 0.256


def generate(rng, i, tier):
    gems = hostconv.stable_card(rng, rng.choice([1, 1, 2]))
    t0 = world.pick_t0(rng)
    for g in gems:
        g['t0'] = round(t0 + rng.uniform(0, 40), 4)
        g.pop('delay', None)
        dur = rng.choice([70, 120, 200])
        g['files'] = [dict(f, dur=round(dur * rng.uniform(0.9, 1.1), 2)) for f in g['files'][:2]]
        if g['fmt'] not in ('0.8', '0.85', '0.85C'):
            g['gain'] = rng.choice([0, 1])
        world.add_gaps(rng, g, 0.4)
    f, comp = 0.5, []
    for _ in range(rng.randint(2, 4)):
        f += rng.uniform(0.3, 2)
        if f < 8:
            comp.append([round(rng.choice([0.3, 2, 20]) * rng.uniform(0.5, 1), 3), round(f, 4), round(rng.uniform(0, 6.28), 4)])
    scn = {'pressure': comp, 'gems': gems, 'how': rng.choice(['stream', 'stream', 'trace', 'attach', 'inventory']), 'len': rng.choice(['1', '24', '0.05']),
           'spell': rng.choice(['lower', 'lower', 'upper', 'cap']), 'listing': rng.randrange(1 << 20), 'events': []}
    for g in gems:
        g['mic'] = rng.choice([None, None, 0.5, 3])
    if rng.random() < 0.35:
        f = {'step': rng.choice(['convert', 'restore', 'restore']), 'at': rng.random(), 'count': 1}
        if f['step'] == 'convert':
            f.update(act=rng.choice(['kill', 'sigint', 'eio', 'enospc']), path='/work')
            if f['act'] in ('eio', 'enospc'):
                f.update(cls=['write'], arg=rng.choice([0, 0.4]))
        else:
            f.update(act=rng.choice(['eio', 'eacces', 'emfile', 'kill']), path=rng.choice(['/conv', '/resp', '/']))
            if f['act'] == 'eio':
                f['cls'] = ['openr', 'read']
            elif f['act'] != 'kill':
                f['cls'] = ['openr']
        scn['events'].append(f)
    return scn


def microphone(ctx, factor):
    """Response file of a microphone of another sensitivity."""
    import gemlog
    src = os.path.join(os.path.dirname(gemlog.__file__), 'data', 'response', 'sensor', RESP)
    mic = ctx.root + '/resp/microphone%g' % factor
    os.makedirs(ctx.root + '/resp', exist_ok=True)
    with open(src) as fh, open(mic, 'w') as to:
        first = True
        for line in fh:
            if line.startswith('B058F04') and 'ain:' in line and first:
                head, value = line.rsplit(None, 1)
                line, first = '%s %.6E\n' % (head, float(value) * factor), False
            to.write(line)
    return mic


def restore(groups, how, out):
    """The documented ways from converted counts to pascals. groups: [(SN, gain, files, response file of the microphone)]"""
    import gemlog
    import obspy
    import pandas as pd
    arrays, heads = [], []
    for sn, gain, files, mic in groups:
        kw = {'sensor_file': mic} if mic else {}
        st = obspy.Stream()
        for f in files:
            st += obspy.read(f)
        if how == 'stream':
            back = gemlog.deconvolve_gem_response(st, gain=gain, **kw)
            st = back
        elif how == 'trace':
            st = obspy.Stream([gemlog.deconvolve_gem_response(tr, gain=gain, **kw) for tr in st])
        elif how == 'attach':
            for tr in st:
                tr.stats.response = gemlog.get_gem_response(gain=gain, **kw)
                tr.remove_response()
        else:
            table = pd.DataFrame([[sn, '', sn, '']], columns=['SN', 'network', 'station', 'location'])
            coords = pd.DataFrame([[sn, '', sn, '', 43.5, -116.0, 800.0, min(t.stats.starttime for t in st) - 10, max(t.stats.endtime for t in st) + 10]],
                                  columns=['SN', 'network', 'station', 'location', 'lat', 'lon', 'elevation', 'starttime', 'endtime'])
            gemlog.make_gem_inventory(table, coords, gemlog.get_gem_response(gain=gain, **kw)).write('inv.xml', format='STATIONXML')
            st.remove_response(inventory=obspy.read_inventory('inv.xml'))
        for tr in st:
            heads.append([sn, tr.stats.starttime.ns, tr.stats.npts])
            arrays.append(np.asarray(tr.data, float))
    np.savez(out, *arrays)
    return heads


def execute(scn, ctx):
    work = ctx.root + '/work'
    os.makedirs(work)
    os.chdir(work)
    groups, cards, ran = [], [], []
    for k, g in enumerate(scn['gems']):
        mic = microphone(ctx, g['mic']) if g.get('mic') else None
        s = sensitivity(g['sn']) * (0.5 if g.get('gain') else 1) * (g.get('mic') or 1)
        comp = []
        for a, f, ph in scn['pressure']:
            h = 1 - 1 / (1 + 1j * f / 0.039)
            comp.append([a * s * abs(h), f, ph + np.angle(h)])
        card = world.Card({'gems': [g], 'field': {'comp': comp}}, '%s/raw%d' % (ctx.root, k))
        cards.append(card)
        argv = ['-i', '../raw%d' % k, '-o', 'conv', '-l', scn['len'], '-s', g['sn']]
        for f in scn['events'] + [None]:
            if f is not None and f['step'] != 'convert':
                continue
            plan = {}
            if f is not None:
                p = {x: f[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in f}
                p['nth'] = int(f['at'] * (15 if f.get('cls') else 60))
                plan = {'faults': [p]}
            d = hostconv.run(ctx, work, 'gemconvert', argv, plan=plan, listing=scn['listing'])
            if d.hr.fired:
                ran.append(('convert', f['act'], d.kind))
        if d.kind not in ('ok', 'exit'):
            ctx.bad('convert', 'gemconvert ended with %r %s' % (d, str(d.end.get('tb'))[-300:]))
            return
        gain = 'low' if g.get('gain') else 'high'
        gain = {'lower': gain, 'upper': gain.upper(), 'cap': gain.capitalize()}[scn['spell']]
        mine = sorted('conv/' + x for x in (os.listdir('conv') if os.path.isdir('conv') else []) if '.%s.' % g['sn'] in x)
        if mine:
            groups.append((g['sn'], gain, mine, mic))
    if not groups:
        ctx.bad('convert', 'nothing was converted')
        return
    kinds = []
    out = ctx.root + '/restored.npz'
    for f in [x for x in scn['events'] if x['step'] == 'restore'] + [None]:
        plan = {}
        if f is not None:
            p = {x: f[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in f}
            p['nth'] = int(f['at'] * 12)
            plan = {'faults': [p]}
        d = hostconv.call(ctx, work, restore, groups, scn['how'], out, plan=plan, listing=scn['listing'] ^ 3, stdout=ctx.root + '/o')
        if d.hr.fired:
            ran.append(('restore', f['act'], d.kind))
        elif d.kind != 'ok':
            ctx.bad('failed', '%s with %s: %r %s' % (scn['how'], [x[:2] for x in groups], d, str(d.end.get('tb'))[-400:]), sig=scn['how'])
            return
        kinds.append(d.kind)
        if d.kind == 'ok':
            judge(scn, ctx, d.end['value'], np.load(out), ran)
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.token('+'.join(sorted({g['fmt'] for g in scn['gems']})), tuple(sorted(g.get('gain', 0) for g in scn['gems'])), scn['how'], tuple(sorted(g.get('mic') or 1 for g in scn['gems'])), scn['spell'], tuple(ran), tuple(kinds))


def judge(scn, ctx, heads, data, ran):
    arrays = [data[k] for k in data.files]
    if len(heads) != len(arrays):
        ctx.bad('lost', '%d traces, %d restored' % (len(heads), len(arrays)))
        return
    for (sn, ns, n), y in zip(heads, arrays):
        if len(y) != n:
            ctx.bad('lost', 'SN %s: %d of %d samples were restored' % (sn, len(y), n))
            continue
        if n < 3500:
            continue
        t = ns / 1e9 - 1.6e9 + np.arange(n) * 0.01
        w = slice(int(0.12 * n), int(0.88 * n))
        u = np.linspace(-1, 1, n)[w]
        cols = [u ** k for k in range(5)]
        for a, f, ph in scn['pressure']:
            cols += [np.sin(2 * np.pi * f * t[w] + ph), np.cos(2 * np.pi * f * t[w] + ph)]
        c = np.linalg.lstsq(np.stack(cols, 1), y[w], rcond=None)[0]
        g = [x for x in scn['gems'] if x['sn'] == sn][0]
        noise = 3 / sensitivity(sn) * (2 if g.get('gain') else 1) / (g.get('mic') or 1)
        for k, (a, f, ph) in enumerate(scn['pressure']):
            z = complex(c[5 + 2 * k], c[6 + 2 * k]) / a
            tol = 0.08 + noise / a
            if not np.isfinite(z) or abs(abs(z) - 1) > tol:
                ctx.bad('pressure', 'SN %s (gain setting %s, removed by %s%s): the restored pressure at %.2f Hz is %.3f times the true one%s' % (
                    sn, g.get('gain', 0), scn['how'], ', other microphone' if g.get('mic') else '', f, abs(z), ' after %s' % ran if ran else ''), sig='low' if g.get('gain') else 'high')
                return
            lag = -np.angle(z) / (2 * np.pi * f)
            if abs(lag) > 0.006 + noise / a / (2 * np.pi * f) + 0.02 / (2 * np.pi * f):
                ctx.bad('delay', 'SN %s: the restored pressure at %.2f Hz is %.1f ms late' % (sn, f, 1000 * lag))
                return
