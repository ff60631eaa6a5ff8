"""C14: independent loggers line up: array lags come out right end to end."""
import contextlib
import io
import math
import os
import random

import numpy as np

from .. import world, hostconv
from ..device import Field
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (mode, number of stations, window, overlap, upsampling, staggered starts or ends, midnight crossings, code scheme, selection, layout of '
        'files, disturbance) tuples; non-trivial: at least one lag was compared with the true propagation delay')
REAL = ['gemlog.convert, rename_files, summarize_gps, make_gem_inventory', 'gemlog.xcorr: xcorr_all_terminal, calculate_direction_terminal and everything below',
        'obspy reading, merging, filtering, correlation, stationXML']
STUB = ['logger firmware, oscillators, GPS receivers, ADCs and cards (gemsim/device.py)', 'in part of the runs converted files written by the simulator']
ASSUMPTIONS = ['plane waves with a broadband source in the pass band, delays below the 1 s search range', 'arrays not straddling the antimeridian, not collinear',
               'windows while the wave direction changes, and the first seconds of filter start-up, are not judged']
NMIN = 8


def geometry(rng, n):
    for _ in range(200):
        a = rng.uniform(0.04, 0.2)
        xy = [[round(rng.uniform(-a, a), 4), round(rng.uniform(-a, a), 4)] for _ in range(n)]
        G = np.array([[xy[i][0] - xy[i + 1][0], xy[i][1] - xy[i + 1][1]] for i in range(n - 1)])
        s = np.linalg.svd(G, compute_uv=False)
        if s[1] > 0.04 and s[0] / s[1] < 3:
            return xy
    return [[0, 0], [0.08, 0], [0, 0.1]] + [[round(0.07 * k, 3), 0.08] for k in range(n - 3)]


def wave(rng, xy):
    """[sx, sy] in s/km with delays across the array below 0.8 s."""
    for _ in range(100):
        s, th = rng.choice([rng.uniform(2.6, 3.2), rng.uniform(0.3, 3.2)]), rng.uniform(0, 2 * math.pi)
        v = [round(s * math.sin(th), 5), round(s * math.cos(th), 5)]
        d = [v[0] * x + v[1] * y for x, y in xy]
        if max(d) - min(d) < 0.8:
            return v
    return [0.5, 0.5]


def broadband(rng, f0, f1, n, amp):
    return {'base': 1.6e9, 'comp': [[round(amp * rng.uniform(0.5, 1), 3), round(rng.uniform(f0, f1), 5), round(rng.uniform(0, 6.28), 4)] for _ in range(n)]}


def generate(rng, i, tier):
    n = rng.choice([3, 3, 4, 5])
    xy = geometry(rng, n)
    mode = rng.choice(['cards', 'direct', 'direct'])
    sns = rng.sample(world.SN_NEW, n)
    scn = {'mode': mode, 'n': n, 'xy': xy, 'lat0': round(rng.uniform(-65, 65), 3), 'lon0': round(rng.uniform(-178, 178), 3), 'sns': sns,
           'codes': rng.choice(['none', 'rename' if mode == 'cards' else 'net', 'net']), 'shuffle': rng.randrange(1 << 20), 'listing': rng.randrange(1 << 20),
           'junk': rng.choice([None, None, None, 'text', 'empty', 'vanished']), 'sel': None, 'gems': []}
    t0 = world.pick_t0(rng)
    if mode == 'cards':
        scn['waves'] = [wave(rng, xy)]
        scn['field'] = broadband(rng, 0.6, 6.0, 50, rng.choice([30, 300]))
        dur = rng.choice([45, 60, 90])
        for k in range(n):
            g = world.pick_gem(rng, sn=sns[k], fmt=rng.choice(['0.9', '0.91', '0.91', '1.10', '1.10']), nfiles=rng.choice([1, 2, 3]), dur=dur)
            g['t0'] = round(t0 + rng.choice([0, rng.uniform(0, 12), rng.uniform(0, 0.02)]), 4)
            g['gps'].update(cycle=0, quota=0)
            scn['gems'].append(g)
        scn['len'] = rng.choice([24, 24, 1, 0.02])
        scn['fl'], scn['fh'] = rng.choice([[0.5, 8], [1, 8], [1, 20]])
        scn['win'] = rng.choice([5, 7.5, 10, 12.34, 20])
    else:
        fs = rng.choice([100] * 6 + [20, 10])
        scn['fs'] = fs
        span = rng.choice([30, 60, 200, 400]) if fs == 100 else rng.choice([4000, 20000]) if fs == 20 else rng.choice([30000, 100000, 190000])
        scn['win'] = rng.choice([5, 5, 7.5, 10, 20]) if fs == 100 else rng.choice([300, 600, 900])
        scn['field'] = broadband(rng, 0.012 * fs, 0.18 * fs, 80 if fs == 100 else 40, rng.choice([3, 100, 1000]))
        scn['fl'], scn['fh'] = rng.choice([[0.01, 0.2], [0.02, 0.2], [0.05, 0.4]])
        scn['fl'], scn['fh'] = round(scn['fl'] * fs, 3), round(scn['fh'] * fs, 3)
        t0 = round(t0 * fs) / fs
        nw = rng.choice([1, 1, 2, 3])
        scn['waves'] = [wave(rng, xy) for _ in range(nw)]
        scn['turns'] = sorted(round(t0 + rng.uniform(0.1, 0.9) * span, 2) for _ in range(nw - 1))
        scn['spans'] = [[t0, round(t0 + span, 3)] for _ in range(n)]
        if rng.random() < 0.5:
            for s in scn['spans']:
                s[0] += rng.choice([0, 0, round(rng.uniform(0, scn['win'] * 2) * fs) / fs])
                s[1] -= rng.choice([0, 0, round(rng.uniform(0, scn['win'] * 2) * fs) / fs])
                s[0], s[1] = round(s[0], 2), round(s[1], 2)
        scn['piece'] = rng.choice([None, span / 3.3, span / 2, 3600, 86400])
        scn['grid'] = rng.random() < 0.5           # file boundaries at whole hours, days
        scn['joint'] = rng.random() < 0.15         # all stations in the same files
        scn['again'] = rng.random() < 0.15         # a file twice
        scn['noise'] = rng.randrange(n) if rng.random() < 0.15 else None
        scn['dtype'] = rng.choice(['int32', 'int32', 'int32', 'float32', 'float64'])
        if rng.random() < 0.25 and n > 3:
            scn['sel'] = [rng.choice(['-i', '-x']), rng.randrange(n)]
        if rng.random() < 0.35:
            a = rng.uniform(0, 0.4) * span
            w = rng.choice([scn['win'], scn['win'], rng.uniform(1, 3) * scn['win'], span])
            a = rng.choice([0, round(a), a])
            scn['t12'] = [round(t0 + a, 2), round(t0 + a + w, 2)]
            if rng.random() < 0.3:
                scn['t12'][rng.randrange(2)] = None
    scn['overlap'] = rng.choice([0, 0, 0, 0.5, 0.25])
    scn['up'] = rng.choice([1, 1, 2, 4, 3])
    if mode == 'direct' and scn['fs'] != 100:
        scn['up'] = rng.choice([1, 1, 2])
    if rng.random() < 0.15:
        scn['event'] = {'act': rng.choice(['enospc', 'eio', 'eior']), 'at': rng.random(), 'arg': rng.choice([0, 0.5]), 'count': rng.choice([1, -1])}
    return scn


def latlon(scn):
    a, e2 = 6378.137, 0.00669437999
    out = []
    for x, y in scn['xy']:
        p = math.radians(scn['lat0'])
        N = a / math.sqrt(1 - e2 * math.sin(p) ** 2)
        M = a * (1 - e2) / (1 - e2 * math.sin(p) ** 2) ** 1.5
        out.append((scn['lat0'] + math.degrees(y / M), scn['lon0'] + math.degrees(x / (N * math.cos(p)))))
    return out


def codes(scn):
    out = []
    for k, sn in enumerate(scn['sns']):
        out.append(('', sn, '') if scn['codes'] == 'none' else ('XP', 'A%s' % sn if k % 2 else 'ST%d' % k, ['', '01'][k % 3 == 0]))
    return out


def delays(scn, j):
    v = scn['waves'][j]
    return [v[0] * x + v[1] * y for x, y in scn['xy']]


def write_direct(scn, folder):
    """The converted files of the array, written by the simulator."""
    import obspy
    os.makedirs(folder)
    fld = Field(scn['field'])
    fs = scn['fs']
    rng = random.Random(scn['shuffle'])
    cs = codes(scn)
    names, spans = [], {}
    parts = {}
    for k in range(scn['n']):
        a, b = scn['spans'][k]
        i0, i1 = int(round(a * fs)), int(round(b * fs))
        t = np.arange(i0, i1) / fs
        if scn['noise'] == k:
            y = np.random.Generator(np.random.PCG64(scn['shuffle'])).normal(0, fld.amp_bound() / 8, len(t))
        else:
            y = np.zeros(len(t))
            edges = [-np.inf] + list(scn['turns']) + [np.inf]
            for j in range(len(scn['waves'])):
                w = (t >= edges[j]) & (t < edges[j + 1])
                y[w] = (1 + j) * fld.value(t[w], delays(scn, j)[k])
        y = (y + 500 * k)
        y = np.round(y).astype('int32') if scn['dtype'] == 'int32' else y.astype(scn['dtype'])
        spans[k] = (i0 / fs, (i1 - 1) / fs)
        cuts = [i0]
        if scn['piece']:
            p = int(round(scn['piece'] * fs))
            o = (0 if scn['grid'] else min(x[0] for x in scn['spans']) * fs)
            c = int(o + (math.floor((i0 - o) / p) + 1) * p)
            while c < i1:
                if c > cuts[-1]:
                    cuts.append(c)
                c += p
        cuts.append(i1)
        for u, v in zip(cuts[:-1], cuts[1:]):
            h = {'network': cs[k][0], 'station': cs[k][1], 'location': cs[k][2], 'channel': 'HDF', 'sampling_rate': fs, 'starttime': obspy.UTCDateTime(ns=round(u * 10 ** 9 / fs))}
            parts.setdefault(int(u // (scn['piece'] * fs)) if scn['joint'] and scn['piece'] else (0 if scn['joint'] else (k, u)), []).append(obspy.Trace(y[u - i0:v - i0], h))
    for q, (key, trs) in enumerate(sorted(parts.items(), key=lambda x: str(x[0]))):
        nm = '%s/%s_%03d.%s.mseed' % (folder, trs[0].stats.starttime.strftime('%Y-%m-%dT%H_%M_%S'), q, trs[0].id if len(trs) == 1 else 'all%d' % q)
        obspy.Stream(trs).write(nm, format='MSEED')
        names.append(nm)
        if scn['again'] and q == 0:
            obspy.Stream(trs).write(nm + '.copy', format='MSEED')
            names.append(nm + '.copy')
    return names, spans


def make_inventory(scn, path):
    import obspy
    from obspy.core.inventory import Network, Station, Channel, Inventory
    inv = Inventory()
    order = list(range(scn['n']))
    random.Random(scn['listing']).shuffle(order)
    for net in sorted({c[0] for c in codes(scn)}):
        n = Network(net)
        for k in order:
            c, (la, lo) = codes(scn)[k], latlon(scn)[k]
            if c[0] == net:
                n.stations.append(Station(c[1], la, lo, 0, channels=[Channel('HDF', c[2], la, lo, 0, 0)]))
        inv.networks.append(n)
    inv.write(path, format='stationxml')


def iso(t):
    import obspy
    return obspy.UTCDateTime(ns=round(t * 100) * 10 ** 7).strftime('%Y-%m-%d_%H:%M:%S.%f')


def both(argv):
    import gemlog.xcorr as xc
    xc.xcorr_all_terminal(argv)
    xc.calculate_direction_terminal(['-i', 'lags.csv', '-l', 'inv.xml', '-o', 'dir.csv'])
    return True


def disturbed(scn, ctx, argv):
    """The same commands on a failing disk: a wrong result must not pass as a right one."""
    want = {x: hostconv.snapshot('.').get(x) for x in ('lags.csv', 'dir.csv')}
    e = dict(scn['event'])
    f = {'act': 'eio', 'cls': ['openr', 'read'], 'path': '/work/', 'count': e['count']} if e['act'] == 'eior' else \
        {'act': e['act'], 'cls': ['write'], 'path': '/work/', 'count': e['count'], 'arg': e['arg']}
    for x in want:
        os.remove(x)
    ref = hostconv.call(ctx, ctx.root + '/work', both, argv)
    now = {x: hostconv.snapshot('.').get(x) for x in want}
    if now != want:
        ctx.bad('not_repeatable', 'the same commands gave other files the second time: %r %r %r' % (ref, want, now))
    n = sum(1 for q, c, path, arg, act in ref.hr.trace if c and matches(f, c, path))
    for x in want:
        if os.path.exists(x):
            os.remove(x)
    so = ctx.root + '/said.txt'
    d = hostconv.call(ctx, ctx.root + '/work', both, argv, plan={'faults': [dict(f, nth=int(e['at'] * n))]}, stdout=so)
    now = {x: hostconv.snapshot('.').get(x) for x in want}
    said = open(so, errors='replace').read()
    ctx.token('disk', e['act'], d.kind, now == want)
    if d.kind == 'ok' and now != want and 'skipping' not in said:
        ctx.bad('disk_error_silent', 'under %r the commands succeeded but %s differ from an undisturbed run: %s' % (
            f, [x for x in want if now[x] != want[x]], said[-300:]))
    hostconv.call(ctx, ctx.root + '/work', both, argv)
    now = {x: hostconv.snapshot('.').get(x) for x in want}
    if now != want:
        ctx.bad('rerun', 'the commands gave other files after %r had struck before' % (f,))


def execute(scn, ctx):
    import gemlog
    import gemlog.xcorr as xc
    import obspy
    import pandas as pd
    os.makedirs(ctx.root + '/work', exist_ok=True)
    os.chdir(ctx.root + '/work')
    cs = codes(scn)
    ids = ['.'.join(c) for c in cs]
    quiet = io.StringIO()
    note = ''
    if scn['mode'] == 'cards':
        pos = latlon(scn)
        for g, d, (la, lo) in zip(scn['gems'], delays(scn, 0), pos):
            s = dict(g, delay=d, gps=dict(g['gps'], lat=la, lon=lo))
            world.Card({'gems': [s], 'field': scn['field']}, ctx.root + '/raw/' + s['sn'])
        with contextlib.redirect_stdout(quiet):
            for k, g in enumerate(scn['gems']):
                kw = dict(zip(('network', 'station', 'location'), cs[k])) if scn['codes'] == 'net' else {}
                o = world.call(gemlog.convert, ctx.root + '/raw/' + g['sn'], SN=g['sn'], convertedpath='mseed', file_length_hour=scn['len'],
                               gpspath='gps', metadatapath='meta', **kw)
                note += '%r' % o
            table = pd.DataFrame([dict(zip(('SN', 'network', 'station', 'location'), (g['sn'],) + cs[k])) for k, g in enumerate(scn['gems'])])
            table.to_csv('stations.csv', index=False)
            folder = 'mseed'
            if scn['codes'] == 'rename':
                o = world.call(gemlog.rename_files, 'mseed/*', station_info='stations.csv', output_dir='renamed')
                note += '%r' % o
                folder = 'renamed'
            co = world.call(gemlog.summarize_gps, 'gps', station_info='stations.csv')
            if co.kind == 'ok' and co.value is not None:
                coords = co.value
                coords['elevation'] = 100
                iv = world.call(lambda: gemlog.make_gem_inventory('stations.csv', coords, gemlog.get_gem_response()).write('inv.xml', format='stationxml'))
                note += '%r' % iv
            else:
                note += '%r' % co
        names = sorted(os.path.join(folder, x) for x in os.listdir(folder)) if os.path.isdir(folder) else []
        spans = {}
        for nm in names:
            for tr in obspy.read(nm, headonly=True):
                key = ids.index('.'.join(tr.id.split('.')[:3])) if '.'.join(tr.id.split('.')[:3]) in ids else None
                if key is None:
                    ctx.bad('codes', 'a converted file has the codes %s; stations are %s' % (tr.id, ids))
                    return
                a, b = spans.get(key, (np.inf, -np.inf))
                spans[key] = (min(a, tr.stats.starttime.timestamp), max(b, tr.stats.endtime.timestamp))
        if len(spans) < scn['n'] or not os.path.exists('inv.xml'):
            ctx.bad('pipeline', 'stations %s converted of %d; %s' % (sorted(spans), scn['n'], note[-500:]))
            return
        fs = 100
        t_err = 0.004
    else:
        names, spans = write_direct(scn, 'mseed')
        make_inventory(scn, 'inv.xml')
        fs = scn['fs']
        t_err = 0.0
    random.Random(scn['shuffle']).shuffle(names)
    if scn['junk'] == 'text':
        open('mseed/notes.txt', 'w').write('field notes\n' * 40)
        names.insert(len(names) // 2, 'mseed/notes.txt')
    elif scn['junk'] == 'empty':
        open('mseed/zero.mseed', 'w').close()
        names.insert(0, 'mseed/zero.mseed')
    elif scn['junk'] == 'vanished':
        names.append('mseed/gone.mseed')
    use = sorted(range(scn['n']), key=lambda k: ids[k])
    argv = names + ['-o', 'lags.csv', '-L', str(scn['fl']), '-H', str(scn['fh']), '-w', str(scn['win']), '-p', str(scn['overlap']), '-u', str(scn['up']), '-q']
    if scn['sel']:
        k = scn['sel'][1]
        if scn['sel'][0] == '-x':
            argv += ['-x', cs[k][1]]
        else:
            argv += ['-i', ','.join(cs[q][1] for q in use if q != k)]
        use.remove(k)
    t12 = scn.get('t12') or [None, None]
    for a, t in zip(('-1', '-2'), t12):
        if t is not None:
            argv += [a, iso(t)]
    b = io.StringIO()
    with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
        o = world.call(xc.xcorr_all_terminal, argv)
        o2 = world.call(xc.calculate_direction_terminal, ['-i', 'lags.csv', '-l', 'inv.xml', '-o', 'dir.csv']) if o.kind == 'ok' else None
    said = b.getvalue()
    ctx.sim_seconds = sum(b - a for a, b in spans.values())
    if scn.get('event') and o.kind == 'ok' and o2.kind == 'ok':
        disturbed(scn, ctx, argv)
    # ---- what the array really recorded
    win, up = scn['win'], scn['up']
    dt = 1.0 / fs / up
    lo = max(t12[0] or -np.inf, max(spans[k][0] for k in use))
    hi = min(t12[1] or np.inf, min(spans[k][1] for k in use))
    first = max(t12[0] or -np.inf, min(spans[k][0] for k in use))
    last = min(t12[1] or np.inf, max(spans[k][1] for k in use))
    ctx.token(scn['mode'], scn['n'], win, scn['overlap'], up, scn['codes'], (scn['sel'] or [''])[0], bool(scn.get('piece')), scn.get('joint'), scn['junk'],
              int(last // 86400 - first // 86400), lo > first, hi < last, 't12' in scn)
    if hi - lo < 2.2 * win + 2:
        if hi - lo >= win - 1e-6 and not (o.kind == 'ok' and os.path.exists('lags.csv')) and int(lo // 86400) == int(hi // 86400):
            ctx.bad('no_lags', '%.2f s of common data for windows of %g s gave nothing: %r %s' % (hi - lo, win, o, said[-400:]))
        if o.kind != 'ok':
            return
    if o.kind != 'ok':
        ctx.bad('failed', 'lag calculation: %r %s' % (o, said[-600:]))
        return
    df = pd.read_csv('lags.csv')
    tm = [obspy.UTCDateTime(x).timestamp for x in df['t_mid']]
    ctx.note(o.kind, df.shape, [round(x, 3) for x in tm[:50]], df.to_csv(float_format='%.6f')[:4000])
    # ---- window bookkeeping
    step = win * (1 - scn['overlap'])
    for k in range(1, len(tm)):
        if tm[k] <= tm[k - 1] + 1e-3:
            ctx.bad('window_twice', 'window %d is at %.3f, the one before at %.3f (data %.2f..%.2f)' % (k, tm[k], tm[k - 1], first, last))
            break
    if tm and (min(tm) - win / 2 < first - 0.02 - 1.0 / fs or max(tm) + win / 2 > last + 0.02 + 2.0 / fs + win * 0):
        ctx.bad('window_outside', 'windows from %.3f to %.3f (length %g), data and request %.3f..%.3f' % (min(tm), max(tm), win, first, last))
    days = 0
    need = 0
    d = math.floor(first / 86400)
    while d * 86400 < last:
        L = min(last, (d + 1) * 86400) - max(first, d * 86400)
        need += 1 + max(0, math.ceil((L - win) / step)) + 1
        d += 1
    if len(tm) > need:
        ctx.bad('windows_many', '%d windows for %.2f s of data in steps of %g s' % (len(tm), last - first, step))
    at = lo
    day_edges = [x * 86400.0 for x in range(int(lo // 86400), int(hi // 86400) + 2)]
    for t in tm:
        if t - win / 2 > at + 2.5 / fs + 0.02:
            # a rest shorter than a window next to midnight may be left out
            if not any(at - 1e-6 <= e <= t + win and (t - win / 2 - at) < win + 0.1 for e in day_edges):
                break
        at = max(at, t + win / 2)
    if at < hi - 3.0 / fs - 0.02 and not any(abs(e - at) < win and hi - e < win for e in day_edges) and hi - lo > win + 0.5:
        ctx.bad('window_missing', 'no window covers %.3f (common data %.3f..%.3f, windows of %g s): %s' % (at, lo, hi, win, said[-500:]))
    # ---- lags
    cols = [c for c in df.columns if c.startswith('lag_')]
    edges = [-np.inf] + list(scn.get('turns', [])) + [np.inf]
    warm = max(2.0, 3.0 / scn['fl'])
    judged = 0
    index = {x: k for k, x in enumerate(ids)}
    for c in cols:
        _, A, B = c.split('_')
        if A not in index or B not in index or index[A] not in use or index[B] not in use:
            ctx.bad('column', 'column %s for stations %s' % (c, [ids[k] for k in use]))
            return
    starts = [max(spans[k][0], t12[0] or -np.inf) for k in use]
    for row in range(len(tm)):
        a, bb = tm[row] - win / 2, tm[row] + win / 2
        full = [k for k in use if spans[k][0] <= a + 1e-3 and spans[k][1] >= bb - 1.0 / fs - 1e-3]
        # filter start-up: data begin, and at midnight the run starts anew
        t_start = [math.floor(a / 86400) * 86400] + starts
        j = max(j for j in range(len(scn['waves'])) if edges[j] <= a)
        steady = a > edges[j] + warm + 1 and bb < edges[j + 1] - 1
        early = any(-0.02 <= a - s < warm for s in t_start)
        if not steady or early:
            continue
        if len(full) < len(use) and any(k not in full and spans[k][0] < bb and spans[k][1] > a for k in use):
            part = True
        else:
            part = False
        de = delays(scn, j)
        nlag = 0
        tot = 0.0
        for c in cols:
            v = df[c].iloc[row]
            if v != v:
                continue
            _, A, B = c.split('_')
            ka, kb = index[A], index[B]
            tot += v
            nlag += 1
            if scn.get('noise') in (ka, kb):
                continue
            want = de[ka] - de[kb]
            tol = 1.05 * dt + t_err + 0.004 * win / 5 * (abs(want) > 0.02)
            if up > 1:
                tol += 0.1 / fs
            judged += 1
            ctx.extra['lags_judged'] = ctx.extra.get('lags_judged', 0) + 1
            ctx.extra['max_lag_excess_ms'] = max(ctx.extra.get('max_lag_excess_ms', 0), round(1000 * (abs(v - want) - dt), 3))
            if not abs(v - want) <= tol:
                ctx.bad('lag', '%s is %.4f s in the window at %.2f, true %.4f (allowed %.4f); stations with data in the whole window %s, in part of it: %s; %s' % (
                    c, v, tm[row], want, tol, [ids[k] for k in full], part, said[-200:]), sig='part' if part else 'full')
                return
        if all(spans[k][0] <= a - 2.0 / fs and spans[k][1] >= bb + 2.0 / fs for k in use):
            if nlag != len(use):
                ctx.bad('pairs', 'window at %.2f has %d lags for %d stations' % (tm[row], nlag, len(use)))
                return
            con = str(df['consistency'].iloc[row]) == 'True'
            closes = abs(tot) <= (len(use) + 0.01) * dt
            if con != closes:
                ctx.bad('consistency', 'window at %.2f: lags sum to %.4f s = %.1f samples around %d stations, but consistency is %s' % (
                    tm[row], tot, tot / dt, len(use), con))
                return
    # ---- direction
    if sum(c.startswith('rms_') for c in df.columns) < 3:
        return                                     # no window with three stations: a direction cannot be found
    if o2 is None or o2.kind != 'ok':
        ctx.bad('direction_failed', '%r %s' % (o2, said[-600:]))
        return
    dd = pd.read_csv('dir.csv')
    if len(dd) != len(df):
        ctx.bad('direction_rows', '%d rows for %d windows' % (len(dd), len(df)))
        return
    if len(use) < 3:
        return
    X = np.array([scn['xy'][k] for k in use])
    m = len(use)
    G = np.array([X[q] - X[(q + 1) % m] for q in range(m)])
    keys = ['lag_%s_%s' % (ids[use[q]], ids[use[(q + 1) % m]]) for q in range(m)]
    H = np.linalg.pinv(G[:-1])
    if np.linalg.svd(G[:-1], compute_uv=False)[1] < 0.03:
        return
    rowerr = 0.003 * 1.2
    for row in range(len(dd)):
        if any(k not in dd.columns for k in keys):
            continue
        lag = np.array([dd[k].iloc[row] for k in keys[:-1]])
        if not np.all(np.isfinite(lag)):
            continue
        s = H @ lag
        b = math.radians(dd['backazimuth'].iloc[row])
        got = -dd['slowness'].iloc[row] * np.array([math.sin(b), math.cos(b)])
        n = np.linalg.norm(s)
        # positions are known to ~0.5 m, slowness solves the same equations
        lim = 0.01 * n + 0.002 + (0.0016 * np.linalg.norm(H, 2) * n * 1.5 if scn['mode'] == 'cards' else 0.0)
        if not np.linalg.norm(got - s) <= lim:
            ctx.bad('direction', 'window at %.2f: slowness vector %s, the lags of this window and the true positions give %s' % (
                tm[row], np.round(got, 4).tolist(), np.round(s, 4).tolist()))
            return
    ctx.extra['directions_judged'] = ctx.extra.get('directions_judged', 0) + len(dd)
