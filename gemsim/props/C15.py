"""C15: the huddle check flags injected malfunctions and only those."""
import contextlib
import io
import math
import os
import random
import re
import struct
import zlib

import numpy as np

from .. import world, hostconv
from ..device import Field, random_field
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (loggers, reporting intervals, malfunction kind, cell of the result it must show in, options, outcome class, disk fault and operation it hit) tuples; '
        'non-trivial: the check ran on at least one logger')
REAL = ['gemlog.huddle_test.verify_huddle_test and main, gemlog_aux.check_lags, make_db, _interpolate_stream', 'fpdf report, matplotlib (drawing in one run of eight)']
STUB = ['the huddle: loggers, their sensors and malfunctions, GPS duty cycle, common sound field, and the converted folder (this module)',
        'figures are saved undrawn, or drawn at 20 dots per inch instead of 300', 'disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['readings closer to a limit than the resolution of the sensor may be judged either way',
               'temperature disagreement has to be reported if it lasts four minutes and lies within the time all loggers ran, the last 12 minutes excepted']
TIMEOUT = 200.0

TESTS = ['Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'A2 flat', 'A2 range', 'A3 flat', 'A3 range', 'Unusual FIFO use',
         'Excessive FIFO use', 'Max overruns', 'Unused stack', 'GPS run time']
STATS = ['Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'Temperature average', 'A2 flat', 'A3 flat', 'fifo over limit', 'Max overruns',
         'Mean GPS run time', 'GPS on-time ratio']
KINDS = ['batt_high', 'batt_low', 'batt_lowish', 'batt_highish', 'temp_cold', 'temp_hot', 'temp_off', 'temp_drift', 'a2_short', 'a3_short', 'a2_sticky', 'a3_sticky',
         'a2_out', 'a3_out', 'fifo_busy', 'fifo_spike', 'overrun', 'stack1', 'stackidle', 'gps_long', 'late', 'early', 'gap', 'mic_dead', 'mic_clipped', 'gps_away', 'gps_jump']
UNCHECKED = ('mic_dead', 'mic_clipped', 'gps_away', 'gps_jump')         # promised by the documentation, not implemented: known findings
COLS = ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle', 'index', 't']


def generate(rng, i, tier):
    n = rng.choice([1, 2, 3, 3, 3, 4, 4, 5, 8])
    sns = rng.sample(['009', '014', '025', '046', '058', '061', '065', '077', '107', '138', '161', '210'], n)
    dur = rng.choice([1500, 1800, 2400, 3600, 4200])
    interval = rng.choice([1, 1, 10])
    gems = []
    p = rng.choice([0, 0.3, 0.3, 0.7])
    for k in range(n):
        g = {'sn': sns[k], 'interval': interval if rng.random() < 0.8 else rng.choice([1, 10]), 'a': round(rng.uniform(0, 60), 2), 'b': round(rng.uniform(0, 60), 2),
             'batt': round(rng.uniform(2.6, 13.5), 2), 'toff': round(rng.uniform(-0.4, 0.4), 2), 'ppm': round(rng.uniform(-30, 30), 2), 'seed': rng.randrange(1 << 30),
             'gpson': rng.choice([0, 1, 3, 9, 10]), 'first': rng.randint(540, 840), 'run': rng.randint(28, 60), 'faults': []}
        while rng.random() < p and len(g['faults']) < 4:
            f = {'kind': rng.choice(KINDS), 'from': round(rng.uniform(0.1, 0.7), 3), 'to': round(rng.uniform(0.75, 1), 3), 'by': round(rng.random(), 3), 'up': rng.random() < 0.5}
            if f['kind'] not in [x['kind'] for x in g['faults']]:
                g['faults'].append(f)
        gems.append(g)
    special = rng.choice(['stray', 'again', 'one', 'interval', 'slow', 'uneven', 'short']) if rng.random() < 0.14 else ''
    if special == 'short':
        dur = rng.choice([300, 700, 1100])
    if special != 'interval':
        for g in gems:
            g['interval'] = 10 if special == 'slow' else 1
            g['ppm'] = abs(g['ppm'])
    if rng.random() < 0.2:                            # the same happens to several loggers
        k = rng.choice(KINDS + ['early', 'late', 'early', 'late', 'temp_off', 'temp_drift', 'overrun', 'gps_long'])
        for g in gems:
            if rng.random() < 0.6 and k not in [x['kind'] for x in g['faults']]:
                g['faults'].append({'kind': k, 'from': round(rng.uniform(0.1, 0.7), 3), 'to': round(rng.uniform(0.75, 1), 3), 'by': round(rng.random(), 3), 'up': rng.random() < 0.5})
    for g in gems:                                    # nobody records for less than nothing
        if {'late', 'early'} <= {f['kind'] for f in g['faults']}:
            g['faults'] = [f for f in g['faults'] if f['kind'] != 'early']
    if special != 'uneven':                           # see known_findings.txt
        for g in gems:
            g['faults'] = [f for f in g['faults'] if f['kind'] not in ('late', 'early', 'gap')]
    if special != 'short' and dur < 2400 and any(f['kind'] in ('early', 'late') for g in gems for f in g['faults']) and rng.random() < 0.7:
        dur = rng.choice([2400, 3600, 4200])
    scn = {'t0': round(world.pick_t0(rng)), 'dur': dur, 'gems': gems, 'field': random_field(rng, scale=300), 'temp': round(rng.uniform(-10, 48), 1), 'slope': round(rng.uniform(-3, 3), 2),
           'one': special == 'one', 'report': True, 'how': rng.choice(['fn', 'fn', 'cmd']), 'only': rng.choice([None, None, None, 'list', 'exclude']),
           'xc': rng.random() < 0.1, 'late_lag': rng.choice([0, 0, 3, 25]), 'again': special == 'again', 'stray': special == 'stray', 'draw': rng.random() < 0.12, 'events': []}
    if rng.random() < 0.12:
        scn['events'].append({'act': rng.choice(['enospc', 'eio', 'eacces', 'eior']), 'at': round(rng.random(), 4), 'count': rng.choice([1, -1]), 'arg': rng.choice([0, 0.5])})
    return scn


def readings(scn, g):
    """The state-of-health record of one logger, as a dict of columns, and its times."""
    r = np.random.Generator(np.random.PCG64(g['seed']))
    F = {f['kind']: f for f in g['faults']}
    a, b = g['a'], scn['dur'] + g['b']
    if 'late' in F:
        a += 1300 + 500 * F['late']['by'] if scn['dur'] > 2000 else 0
    if 'early' in F:
        b -= 1300 + 500 * F['early']['by'] if scn['dur'] > 2000 else 0
    n = int((b - a) / g['interval'])
    t = scn['t0'] + a + g['interval'] * (1 + 1e-6 * g['ppm']) * np.arange(n)
    x = (t - scn['t0']) / scn['dur']

    def span(k):
        f = F[k]
        return (x >= f['from']) & (x <= f['to'])
    m = {'millis': np.arange(n) * 1000.0 * g['interval'] % 8192, 'index': np.round((t - t[0]) * 100)}
    batt = g['batt'] - 0.05 * x + r.normal(0, 0.01, n)
    if 'batt_high' in F:
        batt = batt + (15.3 + 3 * F['batt_high']['by'] - batt) * span('batt_high')
    if 'batt_highish' in F:
        batt = batt + (14.6 + 0.3 * F['batt_highish']['by'] - batt) * span('batt_highish')
    if 'batt_low' in F:
        batt = batt + (1.6 - 1.2 * F['batt_low']['by'] - batt) * span('batt_low')
    if 'batt_lowish' in F:
        batt = batt + (1.8 + 0.3 * F['batt_lowish']['by'] - batt) * span('batt_lowish')
    m['batt'] = np.round(batt, 2)
    temp = scn['temp'] + scn['slope'] * np.sin(2 * x) + g['toff'] + 0.0 * x
    if 'temp_cold' in F:
        temp = temp + (-17 - 12 * F['temp_cold']['by'] - temp) * span('temp_cold')
    if 'temp_hot' in F:
        temp = temp + (56.5 + 9 * F['temp_hot']['by'] - temp) * span('temp_hot')
    if 'temp_off' in F:
        temp = temp + (1 if F['temp_off']['up'] else -1) * (2.5 + 4 * F['temp_off']['by']) * span('temp_off')
    if 'temp_drift' in F:
        temp = temp + (1 if F['temp_drift']['up'] else -1) * 6 * x
    m['temp'] = np.round(temp, 1)
    for c in ('A2', 'A3'):
        k = c.lower()
        v = r.uniform(0.3, 2.8) + r.integers(-4, 5, n) * 0.003
        if k + '_short' in F:
            v = np.zeros(n) if F[k + '_short']['up'] else np.full(n, 3.1)
        elif k + '_sticky' in F:                      # changes in 2.5 % of the readings
            step = np.zeros(n)
            j = np.arange(20, n, 40)
            step[j] = 0.003
            v = v[0] * 0 + 1.5 + np.cumsum(step) % 1.0
        if k + '_out' in F:
            v = v.copy()
            w = r.integers(0, n, 3)
            v[w] = 3.2 + F[k + '_out']['by'] if F[k + '_out']['up'] else -0.1 - F[k + '_out']['by']
        m[c] = np.round(v, 3)
    used = r.integers(1, 5, n).astype(float)
    used[r.integers(0, n, max(1, n // 700))] = r.integers(10, 40)
    if 'fifo_busy' in F:
        w = r.random(n) < 0.03 + 0.5 * F['fifo_busy']['by']
        w[:: 40] = True
        used[w] = 12
    if 'fifo_spike' in F:
        used[r.integers(0, n, 1 + int(3 * F['fifo_spike']['by']))] = 51 + int(20 * F['fifo_spike']['by'])
    m['maxFifoUsed'], m['minFifoFree'] = used, 75 - used
    m['maxWriteTime'] = r.integers(8, 200, n).astype(float)
    m['maxOverruns'] = np.zeros(n)
    if 'overrun' in F:
        m['maxOverruns'][int(F['overrun']['from'] * n):] = 1 + int(5 * F['overrun']['by'])
    m['unusedStack1'], m['unusedStackIdle'] = np.full(n, 56.0), np.full(n, float(r.integers(39, 60)))
    for k, c in (('stack1', 'unusedStack1'), ('stackidle', 'unusedStackIdle')):
        if k in F:
            m[c][int(F[k]['from'] * n):] = int(30 * F[k]['by'])
    on = np.zeros(n)
    runs = []
    s = g['gpson'] if g['interval'] == 1 else min(1, g['gpson'])
    s = t[0] + (s - 0.5) * g['interval']
    first = True
    while s < t[-1]:
        run = g['first'] if first else g['run']
        if not first and 'gps_long' in F:
            run = 205 + 300 * F['gps_long']['by']
        on[(t >= s) & (t < s + run)] = 1
        if not first and s + run < t[-1] - 2 * g['interval']:
            runs.append(run)
        first = False
        s += 900 if run < 850 or not runs else run + 100
    m['gpsOnFlag'] = on
    m['t'] = np.round(t, 2)
    return m, t, runs


def folder(scn, root, field):
    """Writes the converted folder of the huddle. -> {sn: (columns, times, runs)}"""
    import obspy
    import pandas as pd
    for d in ('gps', 'metadata', 'mseed'):
        os.makedirs(root + '/' + d)
    truth = {}
    for k, g in enumerate(scn['gems']):
        m, t, runs = readings(scn, g)
        truth[g['sn']] = (m, t, runs)
        num = 0
        df = pd.DataFrame(m, columns=COLS)
        on = np.flatnonzero(m['gpsOnFlag'] == 1)
        on = on[on > min(30, on[0] + 30)] if len(on) else np.array([0])
        if not len(on):
            on = np.array([len(t) - 1])
        r = np.random.Generator(np.random.PCG64(g['seed'] + 1))
        ut = [obspy.UTCDateTime(round(t[j])) for j in on]
        F = {f['kind']: f for f in g['faults']}
        dlat = np.zeros(len(on))
        if 'gps_away' in F:
            dlat += 0.005 + 0.5 * F['gps_away']['by']
        if 'gps_jump' in F:
            dlat[len(on) // 2:] += 0.005 + 0.5 * F['gps_jump']['by']
        gps = pd.DataFrame({'year': [u.year for u in ut], 'date': [round(u.julday + (u - obspy.UTCDateTime(u.year, u.month, u.day)) / 86400, 9) for u in ut],
                            'lat': np.round(43.6 + dlat + r.normal(0, 1e-5, len(on)), 5), 'lon': np.round(-116.2 + r.normal(0, 1e-5, len(on)), 5), 't': ut})
        if scn['again']:                              # an earlier conversion that saw only the beginning of the test
            h = max(2, len(df) // 5)
            df.iloc[:h].to_csv('%s/metadata/%smetadata_000.txt' % (root, g['sn']), index=False)
            gps.iloc[:max(1, len(gps) // 5)].to_csv('%s/gps/%sgps_000.txt' % (root, g['sn']), index=False)
            num = 1
        df.to_csv('%s/metadata/%smetadata_%03d.txt' % (root, g['sn'], num), index=False)
        gps.to_csv('%s/gps/%sgps_%03d.txt' % (root, g['sn'], num), index=False)
        # waveform on the common 100-Hz grid, one file per hour
        i0, i1 = math.ceil(t[0] * 100), int(t[-1] * 100)
        tt = np.arange(i0, i1)
        lag = scn['late_lag'] if scn['xc'] and k == 0 and len(scn['gems']) > 2 else 0
        f = field if scn['xc'] else Field({'base': field.base, 'comp': field.comp[:1]})
        y = f.value((tt - lag - scn['t0'] * 100) / 100.0, 0) + r.normal(0, 2, len(tt)) + 400 * k
        y = np.round(y).astype('int32')
        if 'mic_dead' in F:
            y[:] = -7
        if 'mic_clipped' in F:
            w = np.quantile(y, 0.8)
            y = np.minimum(y, int(w)).astype('int32')
        cuts = [i0] + [c for c in range((i0 // 360000 + 1) * 360000, i1, 360000)] + [i1]
        hole = None
        if 'gap' in F:
            h0 = int(i0 + F['gap']['from'] * (i1 - i0))
            hole = (h0, h0 + (3 if F['gap']['up'] else 30000))
        for u, v in zip(cuts[:-1], cuts[1:]):
            parts = [(u, v)] if hole is None or hole[1] <= u or hole[0] >= v else [(u, min(hole[0], v)), (max(hole[1], u), v)]
            for p, q in parts:
                if q > p + 1:
                    st = obspy.UTCDateTime(ns=p * 10 ** 7)
                    nm = '%s/mseed/%s..%s..HDF.mseed' % (root, st.strftime('%Y-%m-%dT%H_%M_%S'), g['sn'])
                    if os.path.exists(nm):
                        nm = nm.replace('..' + g['sn'], '_%02d..%s' % (p % 100, g['sn']))
                    obspy.Trace(y[p - i0:q - i0], {'station': g['sn'], 'channel': 'HDF', 'sampling_rate': 100, 'starttime': st}).write(nm, format='MSEED')
    if scn['stray']:
        for p in ('gps/.DS_Store', 'metadata/notes~', 'gps/readme.txt', 'gps/Thumbs.db'):
            with open(root + '/' + p, 'w') as fh:
                fh.write('x')
    return truth


def expected(m, runs, interval):
    """{test: set of acceptable verdicts}"""
    e = {}

    def lim(name, bad, warn, word='WARNING'):
        e[name] = {'ERROR'} if bad else {word} if warn else {'OKAY'}
    b, tp = m['batt'], m['temp']
    lim('Battery min', b.min() < 1.7, b.min() < 2.2)
    lim('Battery max', b.max() > 15, b.max() > 14.5)
    lim('Temperature min', tp.min() < -20, tp.min() < -15)
    lim('Temperature max', tp.max() > 60, tp.max() > 55)
    for name, v, edges in (('Battery min', b.min(), (1.7, 2.2)), ('Battery max', b.max(), (15, 14.5)), ('Temperature min', tp.min(), (-20, -15)), ('Temperature max', tp.max(), (60, 55))):
        for q, x in enumerate(edges):
            if abs(v - x) < 1e-9:
                e[name] |= {['ERROR', 'WARNING'][q], ['WARNING', 'OKAY'][q]}
    for c in ('A2', 'A3'):
        flat = np.mean(np.diff(m[c]) == 0)
        lim(c + ' flat', flat > 0.99, flat > 0.95)
        lim(c + ' range', m[c].min() < 0 or m[c].max() > 3.1, False)
    e['Unusual FIFO use'] = {'NOTE'} if np.mean(m['maxFifoUsed'] > 5) > 0.01 else {'OKAY'}
    e['Excessive FIFO use'] = {'NOTE'} if m['maxFifoUsed'].max() > 50 else {'OKAY'}
    e['Max overruns'] = {'WARNING'} if m['maxOverruns'].max() > 0 else {'OKAY'}
    e['Unused stack'] = {'WARNING'} if min(m['unusedStack1'].min(), m['unusedStackIdle'].min()) <= 30 else {'OKAY'}
    long = max(runs + [0])
    e['GPS run time'] = {'WARNING'} if long > 180 + 2 * interval else {'OKAY'} if long < 180 - 2 * interval else {'OKAY', 'WARNING'}
    return e


def stats_of(m, runs):
    s = {'Battery min': m['batt'].min(), 'Battery max': m['batt'].max(), 'Temperature min': m['temp'].min(), 'Temperature max': m['temp'].max(),
         'Temperature average': m['temp'].mean(), 'A2 flat': np.mean(np.diff(m['A2']) == 0), 'A3 flat': np.mean(np.diff(m['A3']) == 0),
         'fifo over limit': np.mean(m['maxFifoUsed'] > 5), 'Max overruns': m['maxOverruns'].max()}
    return s


def causes(scn, sns):
    """Circumstances under which huddle_test.py is known to be wrong (known_findings.txt)."""
    gems = [g for g in scn['gems'] if g['sn'] in sns]
    c = []
    if scn['stray'] and scn['only'] != 'list':
        c.append('stray')
    if scn['again']:
        c.append('again')
    if scn['one']:
        c.append('one')
    if any(g['interval'] != 1 or g['ppm'] < 0 for g in gems):
        c.append('interval')
    if any(f['kind'] in ('late', 'early', 'gap') for g in gems for f in g['faults']):
        c.append('uneven')
    if scn['dur'] < 1500:
        c.append('short')
    return '+'.join(c)


def names(msg, sn):
    return re.search(r'(?<![\d.:-])%s(?![\d])' % sn, msg) is not None


def blank_png():
    def chunk(tag, d):
        return struct.pack('>I', len(d)) + tag + d + struct.pack('>I', zlib.crc32(tag + d))
    return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', 4, 3, 8, 2, 0, 0, 0)) + chunk(b'IDAT', zlib.compress((b'\0' + b'\xff' * 12) * 3)) + chunk(b'IEND', b'')


def quick_figures(draw):
    """Figures are drawn coarsely, or (draw false) saved without being drawn at all."""
    import matplotlib.figure as mf
    orig = mf.Figure.savefig

    def savefig(self, fname, *a, **k):
        if not draw:
            with open(fname, 'wb') as fh:
                fh.write(blank_png())
            return None
        k['dpi'] = 20
        return orig(self, fname, *a, **k)
    mf.Figure.savefig = savefig
    if not draw:
        mf.Figure.tight_layout = lambda self, *a, **k: None


def verify(root, scn, sns):
    import matplotlib
    matplotlib.use('Agg')
    import gemlog.huddle_test as H
    quick_figures(scn.get('draw', True))
    kw = {}
    if scn['only'] == 'list':
        kw['SN_list'] = sns
    elif scn['only'] == 'exclude':
        kw['SN_to_exclude'] = [g['sn'] for g in scn['gems'] if g['sn'] not in sns]
    if scn['how'] == 'cmd':
        seen = {}
        orig = H.verify_huddle_test

        def wrapped(*a, **k):
            seen['r'] = orig(*a, **k)
            return seen['r']
        H.verify_huddle_test = wrapped
        try:
            H.main(['-i', root] + (['-s', ','.join(sns)] if scn['only'] == 'list' else ['-x', ','.join(kw.get('SN_to_exclude', []))] if scn['only'] == 'exclude' else []))
        finally:
            H.verify_huddle_test = orig
        return seen['r']
    return H.verify_huddle_test(root, individual_only=scn['one'], run_crosscorrelation_checks=scn['xc'], generate_report=scn['report'], **kw)


def chosen(scn):
    sns = sorted(g['sn'] for g in scn['gems'])
    if scn['only'] and len(sns) > 2:
        return sns[1:]
    if scn['only'] == 'list':
        return sns
    return sns


def pdf_text(p):
    raw = open(p, 'rb').read()
    out = []
    for m in re.finditer(rb'stream\n(.*?)\nendstream', raw, re.S):
        try:
            s = zlib.decompressobj().decompress(m.group(1))
        except zlib.error:
            continue
        if b' Tj' in s:
            out += [x.replace(b'\\(', b'(').replace(b'\\)', b')').decode('latin1') for x in re.findall(rb'\((.*?)\) Tj', s, re.S)]
    return '\n'.join(out), raw


def from_report(root, n):
    """The documented result, as far as the report shows it (None: there is no readable report)."""
    import pandas as pd
    pdfs = os.listdir(root + '/reports') if os.path.isdir(root + '/reports') else []
    if len(pdfs) != 1:
        return None
    text, raw = pdf_text(root + '/reports/' + pdfs[0])
    tok = [x for x in text.split('\n') if not re.fullmatch(r'Page \d+', x)]
    heads = ['Errors and Warnings', 'Notes', 'Gem Sensor Status Summary', 'Gem Sensor Metadata Details', 'Group Test Results', 'Test Info']
    try:
        at = [tok.index(h) for h in heads]
        part = {h: tok[a + 1:b] for h, a, b in zip(heads, at, at[1:] + [len(tok)])}

        def table(cells, cols):
            cells = cells[max(0, len(cells) - n * (len(cols) + 1)):]
            rows = [cells[q:q + len(cols) + 1] for q in range(0, len(cells), len(cols) + 1)]
            return pd.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows], columns=cols)
        results = table(part['Gem Sensor Status Summary'], TESTS)
        stats = table(part['Gem Sensor Metadata Details'], STATS).astype(float)
    except (ValueError, IndexError) as e:
        return 'unreadable report (%s)' % e
    msgs = part['Errors and Warnings'] + part['Group Test Results']
    return {'errors': [x for x in msgs if 'ERROR' in x or x.startswith('SN [') or x.startswith('Time lags are')], 'warnings': [x for x in msgs if 'WARNING' in x],
            'results': results, 'stats': stats, 'rounded': True}


def judge(scn, ctx, truth, sns, res, root):
    if res is None:                                   # known finding; what the report shows is judged instead
        ctx.bad('result', 'the result is None instead of the documented dict of errors, warnings, stats and results', 'none')
        res = from_report(root, len(sns))
    if not isinstance(res, dict) or not {'errors', 'warnings', 'stats', 'results'} <= set(res):
        ctx.bad('result', 'the result is %s instead of the documented dict of errors, warnings, stats and results' % (type(res).__name__,))
        return
    errs, warns, stats, results = [str(x) for x in res['errors']], [str(x) for x in res['warnings']], res['stats'], res['results']
    G = {g['sn']: g for g in scn['gems']}
    if sorted(map(str, results.index)) != sns or sorted(map(str, stats.index)) != sns:
        ctx.bad('loggers', 'asked for %s, results cover %s, stats %s' % (sns, list(results.index), list(stats.index)))
        return
    solo = scn['one'] and scn['how'] == 'fn' or len(sns) == 1
    for sn in sns:
        m, t, runs = truth[sn]
        e = expected(m, runs, G[sn]['interval'])
        kinds = sorted(f['kind'] for f in G[sn]['faults'])
        for name in TESTS:
            got = str(results.loc[sn, name]) if name in results else 'missing'
            if got not in e[name]:
                ctx.bad('verdict', 'logger %s (malfunctions %s): %s is %s, should be %s; battery %.2f..%.2f temp %.1f..%.1f A2 %.2f..%.2f A3 %.2f..%.2f runs %s' % (
                    sn, kinds, name, got, sorted(e[name]), m['batt'].min(), m['batt'].max(), m['temp'].min(), m['temp'].max(), m['A2'].min(), m['A2'].max(), m['A3'].min(), m['A3'].max(), runs), name)
            if got != 'OKAY':
                ctx.token('cell', name, got, G[sn]['interval'])
        for word, lst in (('ERROR', errs), ('WARNING', warns)):
            cells = [x for x in TESTS if x in results and str(results.loc[sn, x]) == word]
            mine = [x for x in lst if names(x, sn)]
            if cells and not mine:
                ctx.bad('unnamed', 'logger %s has %s in %s but no message of that kind names it: %s' % (sn, word, cells, lst), ' '.join(cells))
            if not cells and any(w in x for x in mine for w in ('BATTERY', 'TEMPERATURE', 'A2', 'A3', 'OVERRUN', 'STACK', 'GPS WARNING')):
                ctx.bad('false_' + word.lower(), 'logger %s is healthy but %s' % (sn, mine))
        for k in UNCHECKED:
            if k in kinds and not (k == 'gps_away' and (solo or len(sns) < 3)) and not any(names(x, sn) and ('waveform' in x.lower() or 'location' in x.lower() or 'clip' in x.lower() or ' lat' in x.lower()) for x in errs + warns):
                ctx.bad('unreported', 'logger %s has %s and no message says so' % (sn, k), k)
        for name, v in stats_of(m, runs).items():
            got = float(stats.loc[sn, name]) if name in stats else float('nan')
            if not abs(got - v) < (6e-4 if 'rounded' in res else 1e-6 * max(1, abs(v))):
                ctx.bad('stats', 'logger %s: %s is %r, true %r' % (sn, name, got, v), name)
        got = float(stats.loc[sn, 'Mean GPS run time'])
        big = [x for x in runs if x > 12 + 2 * G[sn]['interval']]
        if big and not abs(got - np.mean(big)) <= 2 * G[sn]['interval'] + 0.5:
            ctx.bad('stats', 'logger %s: mean GPS run time %r, true %r' % (sn, got, np.mean(big)), 'gps run')
    # comparisons
    start = {s: truth[s][1][0] for s in sns}
    stop = {s: truth[s][1][-1] for s in sns}
    for sn in sns:
        late, early = start[sn] - min(start.values()) - 1200, max(stop.values()) - 1200 - stop[sn]
        for what, v, word in (('start', late, 'start time is'), ('stop', early, 'stop time is')):
            mine = [x for x in errs if names(x, sn) and word in x]
            if solo and mine:
                ctx.bad('solo', 'comparison reported although only single loggers were to be tested: %s' % (mine,))
            if not solo and v > 2 and not mine:
                ctx.bad('group_time', 'logger %s: %s differs by %.1f s more than 20 minutes and is not reported' % (sn, what, v), what)
            if v < -2 and mine:
                ctx.bad('false_group_time', 'logger %s: %s, true difference to the limit %.1f s' % (sn, mine, v), what)
            if v > 2:
                ctx.token('group', what, bool(mine), len(sns))
    tm = [x for x in errs if 'recorded temperatures' in x]
    if solo:
        if tm:
            ctx.bad('solo', 'comparison reported although only single loggers were to be tested: %s' % (tm[:2],))
    else:
        lo, hi = max(start.values()), min(stop.values())
        grid = np.arange(lo + 5, hi - 5, 10.0)
        if len(grid) > 3:
            tab = np.array([truth[s][0]['temp'][np.abs(np.searchsorted(truth[s][1], grid))] for s in sns])
            med = np.median(tab, axis=0)
            gall = np.arange(min(start.values()), max(stop.values()), 10.0)
            for q, sn in enumerate(sns):
                dev = np.abs(tab[q] - med)
                mine = [x for x in tm if names(re.search(r'SN (\[.*?\])', x).group(1), sn)] if tm else []
                full = (dev > 1.5 + 0.4) & (grid > lo + 120) & (grid < hi - 720)
                k0, best = 0, 0
                for f in full:
                    k0 = k0 + 1 if f else 0
                    best = max(best, k0)
                if best >= 24 and not mine:
                    ctx.bad('group_temp', 'logger %s: temperature off by up to %.1f from the median for %d s and not reported; %s' % (sn, dev[full].max(), best * 10, tm[:2]))
                if best >= 24:
                    ctx.token('group_temp', len(sns), bool(mine), sorted({G[s]['interval'] for s in sns}))
                whole = lo - min(start.values()) < 90 and max(stop.values()) - hi < 90
                if whole and dev.max() < 1.5 - 0.3 and mine:
                    ctx.bad('false_group_temp', 'logger %s: never off by more than %.1f but %s' % (sn, dev.max(), mine[:2]), 'end' if len(mine) == 1 and mine[0] == tm[-1] else '')
                if whole and mine and dev.max() > 1.2:
                    for x in mine:
                        w = re.search(r'on (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)', x)
                        if not w:
                            continue
                        import calendar, time
                        ts = calendar.timegm(time.strptime(w.group(1), '%Y-%m-%d %H:%M:%S'))
                        near = np.abs(grid - ts) < 130
                        if not near.any() or dev[near].max() < 1.2:
                            ctx.bad('group_temp_time', 'logger %s is said to have deviated at %s; its deviation then was %s' % (sn, w.group(1), dev[near].max() if near.any() else 'outside the test'), 'end' if x == tm[-1] else '')
                            break
    if scn['xc'] and scn['how'] == 'fn' and not solo:
        lagmsg = [x for x in errs if 'lags' in x.lower()]
        F = [f['kind'] for g in scn['gems'] if g['sn'] in sns for f in g['faults']]
        if not {'late', 'early', 'gap', 'mic_dead', 'mic_clipped'} & set(F) and scn['dur'] >= 1500:
            shifted = scn['late_lag'] >= 3 and scn['gems'][0]['sn'] in sns and len(scn['gems']) > 2 and scn['late_lag'] < 9
            ctx.token('xc', scn['late_lag'], bool(lagmsg), len(sns))
            if shifted and not lagmsg:
                ctx.bad('lag', 'one logger is %d samples late and it is not reported' % scn['late_lag'])
            if not scn['late_lag'] and lagmsg:
                ctx.bad('false_lag', 'all loggers have correct times but %s' % lagmsg)
    if scn['report'] or scn['how'] == 'cmd':
        pdfs = os.listdir(root + '/reports') if os.path.isdir(root + '/reports') else []
        if len(pdfs) != 1:
            ctx.bad('report', 'reports made: %s' % pdfs)
        else:
            text, raw = pdf_text(root + '/reports/' + pdfs[0])
            if not raw.startswith(b'%PDF') or b'%%EOF' not in raw[-64:]:
                ctx.bad('report', 'the report is not a complete PDF file (%d bytes)' % len(raw))
            for x in errs + warns:
                if x not in text:
                    ctx.bad('report_text', 'the report does not show %r' % x)
                    break
    ctx.note(errs, warns, results.to_string(), stats.to_string())


def execute(scn, ctx):
    root = ctx.root + '/work/huddle'
    os.makedirs(root)
    os.chdir(ctx.root + '/work')
    field = Field(scn['field'])
    truth = folder(scn, root, field)
    sns = chosen(scn)
    cause, plain = causes(scn, sns), ctx.bad
    if cause:
        ctx.bad = lambda kind, detail, sig=None: plain(kind, detail, (sig or '') + '@' + cause)
    ctx.sim_seconds += scn['dur'] * len(scn['gems'])
    for g in scn['gems']:
        for f in g['faults']:
            ctx.fault(f['kind'])
    if scn['events']:
        return disturbed(scn, ctx, truth, sns, root)
    q = io.StringIO()
    with contextlib.redirect_stdout(q), contextlib.redirect_stderr(q):
        o = world.call(verify, root, scn, sns)
    ctx.note(o.kind, o.error)
    ctx.token(o.kind, len(sns), scn['one'], scn['report'], scn['how'], scn['only'], scn['again'], scn['stray'], scn['xc'], sorted({g['interval'] for g in scn['gems']}))
    if o.kind != 'ok':
        ctx.bad('failed', 'the check ended with %s; malfunctions %s' % (o.error, {g['sn']: [f['kind'] for f in g['faults']] for g in scn['gems']}), o.error)
        return
    judge(scn, ctx, truth, sns, o.value, root)


def pick(root, scn, sns):
    r = verify(root, scn, sns)
    if r is None:
        r = from_report(root, len(sns))
    if not isinstance(r, dict):
        return {'errors': [], 'warnings': [str(r)], 'results': '', 'stats': ''}
    return {'errors': [str(x) for x in r['errors']], 'warnings': [str(x) for x in r['warnings']], 'results': r['results'].to_string(), 'stats': r['stats'].to_string()}


def disturbed(scn, ctx, truth, sns, root):
    """On a failing disk: either the right result or a loud failure."""
    ref = hostconv.call(ctx, ctx.root + '/work', pick, root, scn, sns)
    if ref.kind != 'ok':
        ctx.bad('failed', 'the check ended with %s' % ref)
        return
    hostconv.clear(root + '/figures')
    hostconv.clear(root + '/reports')
    e = scn['events'][0]
    f = {'act': 'eio', 'cls': ['openr', 'read'], 'path': '/huddle/', 'count': e['count']} if e['act'] == 'eior' else \
        {'act': e['act'], 'cls': ['openw'] if e['act'] == 'eacces' else ['write'], 'path': '/huddle/', 'count': e['count'], 'arg': e['arg']}
    n = sum(1 for q, c, path, arg, act in ref.hr.trace if c and matches(f, c, path))
    d = hostconv.call(ctx, ctx.root + '/work', pick, root, scn, sns, plan={'faults': [dict(f, nth=int(e['at'] * n))]})
    same = d.kind == 'ok' and d.end.get('value') == ref.end.get('value')
    ctx.token('disk', e['act'], d.kind, same)
    ctx.note(d.kind, same)
    if d.kind == 'ok' and not same:
        ctx.bad('disk_error_silent', 'under %r the check succeeded with another result' % (f,))
    if d.kind == 'ok' and (scn['report'] or scn['how'] == 'cmd') and d.hr.fired:
        pdfs = os.listdir(root + '/reports') if os.path.isdir(root + '/reports') else []
        ok = False
        if pdfs:
            text, raw = pdf_text(root + '/reports/' + pdfs[0])
            ok = raw.startswith(b'%PDF') and b'%%EOF' in raw[-64:]
        if not ok:
            ctx.bad('disk_error_silent', 'under %r the check succeeded but left no complete report (%s)' % (f, pdfs))
    r = hostconv.call(ctx, ctx.root + '/work', pick, root, scn, sns)
    if r.kind != 'ok' or r.end.get('value') != ref.end.get('value'):
        ctx.bad('rerun', 'running the check again after %r gave %r' % (f, r))
