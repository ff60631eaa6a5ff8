"""C16: the file database lists exactly the readable files with true statistics."""
import contextlib
import io
import os
import random
import re

import numpy as np

from .. import world, hostconv
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (file condition, sample type, gap or not, fault kind and operation it hit, saved or not, window position, outcome) tuples; non-trivial: at least one file was listed or skipped')
REAL = ['gemlog.make_db, gemlog.gemlog_aux.calc_channel_stats and check_discontinuity', 'obspy reading MiniSEED, pandas writing csv']
STUB = ['the converted folder, written by this module through obspy, and the damage done to it', 'disk errors and vanishing files at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['a torn MiniSEED file is listed with what obspy reads from its remaining bytes, or skipped', 'the good-data fraction is judged for hour-long files only',
               'a gap inside a file may count as covered time']


def generate(rng, i, tier):
    fs = rng.choice([1, 10, 100, 100])
    n = rng.choice([1, 1, 2, 3])
    length = rng.choice([60, 300, 600, 3600]) if fs == 100 else rng.choice([600, 3600, 3600, 7200])
    t0 = round(world.pick_t0(rng) * fs) / fs
    stas = []
    for k in range(n):
        files = []
        t = t0 + rng.choice([0, 0, 1, round(rng.uniform(0, length), 1)])
        for j in range(rng.choice([0, 1, 2, 3, 5, 8]) if n > 1 else rng.choice([1, 2, 3, 5, 8, 30 if fs < 100 else 6])):
            f = {'t': t, 'dur': length if rng.random() < 0.85 else round(rng.uniform(2, length), 1 if fs > 1 else None), 'amp': rng.choice([0, 0.1, 3, 50, 50, 50, 3000, 60000]), 'off': rng.choice([0, 500, -3000]),
                 'gap': [round(rng.uniform(0.2, 0.5), 3), round(rng.uniform(0.5, 0.8), 3)] if rng.random() < 0.15 else None, 'state': 'ok', 'seed': rng.randrange(1 << 30)}
            if rng.random() < 0.2:
                f['state'] = rng.choice(['torn', 'empty', 'text', 'folder', 'zeros', 'nosamples'])
                f['cut'] = round(rng.random(), 4)
            files.append(f)
            t += f['dur']
            if rng.random() < 0.15:
                t += rng.choice([1, round(rng.uniform(0.1, 3 * length), 1)])
            t = round(t * fs) / fs
        stas.append({'code': [rng.choice(['', 'XX']), ['BRD', 'S2', '077'][k], rng.choice(['', '00', '01'])], 'dtype': rng.choice(['int32', 'int32', 'float32', 'float64']), 'files': files})
    scn = {'fs': fs, 'len': length, 't0': t0, 'gems': stas, 'dir': rng.choice(['mseed', 'a [b]', 'mseed', 'out put']), 'save': rng.random() < 0.5, 'pattern': rng.choice([None, None, '*HDF.mseed', '*' + stas[0]['code'][1] + '*']),
           'win': [round(rng.uniform(-0.3, 1.0), 3), round(rng.uniform(0.05, 1.2), 3), rng.choice(['edge', 'any', 'any'])], 'iso': rng.random() < 0.5, 'again': rng.random() < 0.2, 'events': []}
    if rng.random() < 0.3:
        scn['events'].append({'act': rng.choice(['eio', 'enoent', 'estale', 'eacces', 'enospc', 'eior']), 'at': round(rng.random(), 4), 'file': rng.randrange(8), 'count': rng.choice([1, -1])})
    return scn


def make(scn, folder):
    """-> {file name: (what obspy reads from it or None, station index, file spec)}"""
    import obspy
    os.makedirs(folder)
    truth = {}
    fs = scn['fs']
    for k, s in enumerate(scn['gems']):
        for f in s['files']:
            r = np.random.Generator(np.random.PCG64(f['seed']))
            n = max(2, int(round(f['dur'] * fs)))
            y = r.normal(0, 1, n) * f['amp'] + f['off']
            if f['amp'] == 60000:
                y = np.clip(y, -70000, 70000)
            y = np.round(y).astype('int32') if s['dtype'] == 'int32' else y.astype(s['dtype'])
            i0 = int(round(f['t'] * fs))
            parts = [(0, n)]
            if f['gap'] and n > 20:
                parts = [(0, int(f['gap'][0] * n)), (int(f['gap'][1] * n), n)]
            h = dict(zip(('network', 'station', 'location'), s['code']), channel='HDF', sampling_rate=fs)
            st = obspy.Stream([obspy.Trace(y[a:b].copy(), dict(h, starttime=obspy.UTCDateTime(ns=round((i0 + a) * 10 ** 9 / fs)))) for a, b in parts])
            base = st[0].stats.starttime.strftime('%Y-%m-%dT%H_%M_%S') + '.' + st[0].id + '.mseed'
            p = folder + '/' + base
            if f['state'] == 'folder':
                os.makedirs(p)
            elif f['state'] == 'empty':
                open(p, 'w').close()
            elif f['state'] == 'text':
                with open(p, 'w') as fh:
                    fh.write('not data\n' * r.integers(1, 2000))
            elif f['state'] == 'zeros':
                with open(p, 'wb') as fh:
                    fh.write(bytes(4096 * int(r.integers(1, 4))))
            else:
                st.write(p, format='MSEED')
                if f['state'] == 'torn':
                    with open(p, 'r+b') as fh:
                        fh.truncate(int(f['cut'] * os.path.getsize(p)))
                if f['state'] == 'nosamples':
                    os.rename(p, p + '.x')
                    os.remove(p + '.x')
                    with open(p, 'wb') as fh:
                        fh.write(b'TIMESERIES XX_A_00_HDF_D, 0 samples, 100 sps, 2020-01-01T00:00:00.000000, SLIST, INTEGER, COUNTS\n')
            got = None
            try:
                got = obspy.read(p)
                if not len(got) or not all(len(x.data) for x in got):
                    got = None
            except Exception:
                got = None
            truth[base] = (got, k, f)
    return truth


def highpassed(st):
    """Standard deviation above half a hertz, from first principles of the documentation: demeaned, high-passed samples of the whole file."""
    a = st.copy()
    a.detrend('linear')
    a.filter('highpass', freq=0.5)
    return float(np.std(np.concatenate([x.data for x in a])))


def row_of(st):
    return {'station': st[0].stats.station, 'location': st[0].stats.location, 'max': max(float(x.data.max()) for x in st), 'min': min(float(x.data.min()) for x in st),
            't1': min(x.stats.starttime.ns for x in st), 't2': max(x.stats.endtime.ns for x in st)}


def scan(path, pattern, save):
    import gemlog
    kw = {} if pattern is None else {'pattern': pattern}
    db = gemlog.make_db(path, savefile=save, **kw)
    return [[str(r.filename), str(r.station), str(r.location), float(r.amp_HP), float(r['max']), float(r['min']), r.t1.ns, r.t2.ns] for _, r in db.iterrows()]


def compare(scn, ctx, truth, rows, said, unreadable=()):
    import fnmatch
    want = sorted(x for x in truth if scn['pattern'] is None or fnmatch.fnmatch(x, scn['pattern']))
    listed = [os.path.basename(r[0]) for r in rows]
    good = [x for x in want if truth[x][0] is not None and x not in unreadable]
    may = [x for x in want if x in unreadable]
    if len(set(listed)) != len(listed):
        ctx.bad('double', 'files listed twice: %s' % sorted(x for x in listed if listed.count(x) > 1))
    lost = [x for x in good if x not in listed]
    extra = [x for x in listed if x not in good and x not in may]
    if lost or extra:
        ctx.bad('listing', 'not listed: %s (%s); listed but not readable data: %s' % (lost, [truth[x][2]['state'] for x in lost], extra))
    if [x for x in listed if x in want] != [x for x in want if x in listed]:
        ctx.bad('order', 'rows are not in order of file names: %s' % listed)
    for x in want:
        if x not in listed and x not in said:
            ctx.bad('silent', '%s (%s) is missing from the database and not mentioned: %r' % (x, truth[x][2]['state'], said[-300:]))
    for r in rows:
        x = os.path.basename(r[0])
        if x not in truth or truth[x][0] is None:
            continue
        w = row_of(truth[x][0])
        for name, v in zip(('station', 'location', 'amp_HP', 'max', 'min', 't1', 't2'), r[1:]):
            if name == 'amp_HP':
                a = highpassed(truth[x][0]) if scn['fs'] > 1 else v
                ok = abs(v - a) <= 0.02 * abs(a) + 1e-6
            else:
                a = w[name]
                ok = v == a if name not in ('max', 'min') else abs(v - a) <= 1e-6 * max(1, abs(a))
            if not ok:
                ctx.bad('row', '%s: %s is %r in the database, %r in the file (%d pieces)' % (x, name, v, a, len(truth[x][0])), name)
        ctx.token('file', truth[x][2]['state'], scn['gems'][truth[x][1]]['dtype'], len(truth[x][0]), truth[x][2]['amp'])
    return listed


def execute(scn, ctx):
    os.makedirs(ctx.root + '/work')
    os.chdir(ctx.root + '/work')
    truth = make(scn, scn['dir'])
    for s in scn['gems']:
        for f in s['files']:
            ctx.sim_seconds += f['dur']
            if f['state'] != 'ok':
                ctx.fault(f['state'])
    save = 'db.csv' if scn['save'] else None
    if scn['fs'] <= 1:
        return execute_slow(scn, ctx, truth)
    q = io.StringIO()
    with contextlib.redirect_stdout(q):
        o = world.call(scan, scn['dir'], scn['pattern'], save)
    ctx.note(o.kind, o.value, q.getvalue())
    ctx.token(o.kind, len(truth) if len(truth) < 2 else 'many', scn['dir'], scn['save'], scn['pattern'] is not None)
    if o.kind != 'ok':
        ctx.bad('failed', 'make_db ended with %s; folder holds %s' % (o.error, [(x, truth[x][2]['state']) for x in truth][:8]), o.error)
        return
    compare(scn, ctx, truth, o.value, q.getvalue())
    if save:
        check_saved(ctx, o.value)
    stats(scn, ctx, truth, o.value)
    gaps(scn, ctx, truth)
    if scn['events']:
        disturbed(scn, ctx, truth, save, o.value)


def check_saved(ctx, rows):
    import obspy
    import pandas as pd
    d = pd.read_csv('db.csv', dtype={'station': str, 'location': str}, keep_default_na=False)
    got = [[r.filename, r.station, r.location, float(r.amp_HP), float(r['max']), float(r['min']), obspy.UTCDateTime(r.t1).ns, obspy.UTCDateTime(r.t2).ns] for _, r in d.iterrows()]
    same = len(got) == len(rows) and all(a[:3] == b[:3] and np.allclose(a[3:6], b[3:6], rtol=1e-6, atol=1e-9) and abs(a[6] - b[6]) < 1000 and abs(a[7] - b[7]) < 1000 for a, b in zip(got, rows))
    if not same:
        ctx.bad('saved', 'the saved database differs from the returned one: %s / %s' % (got[:2], rows[:2]))


def execute_slow(scn, ctx, truth):
    """One sample per second cannot be high-passed at half a hertz; such files must be skipped aloud, not stop the scan."""
    q = io.StringIO()
    with contextlib.redirect_stdout(q):
        o = world.call(scan, scn['dir'], scn['pattern'], None)
    ctx.token('slow', o.kind)
    if o.kind != 'ok':
        ctx.bad('failed', 'make_db ended with %s' % o.error, o.error)
        return
    listed = [os.path.basename(r[0]) for r in o.value]
    for x in truth:
        if x not in listed and x not in q.getvalue() and scn['pattern'] is None:
            ctx.bad('silent', '%s is missing from the database and not mentioned' % x)
    gaps(scn, ctx, truth)


def stats(scn, ctx, truth, rows):
    import gemlog
    import obspy
    import pandas as pd
    rows = [r for r in rows if os.path.basename(r[0]) in truth]
    if not rows:
        return
    a, b = min(r[6] for r in rows) / 1e9, max(r[7] for r in rows) / 1e9
    if scn['win'][2] == 'edge':
        t1, t2 = a, b
    else:
        t1 = a + scn['win'][0] * (b - a)
        t2 = t1 + max(10, scn['win'][1] * (b - a))
    t1, t2 = round(t1, 2), round(t2, 2)
    U = [obspy.UTCDateTime(ns=round(x * 100) * 10 ** 7) for x in (t1, t2)]
    arg = [u.isoformat() for u in U] if scn['iso'] else U
    from gemlog.gemlog_aux import calc_channel_stats
    if scn['save']:
        db = pd.read_csv('db.csv', dtype={'station': str, 'location': str}, keep_default_na=False)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            db = gemlog.make_db(scn['dir'], **({} if scn['pattern'] is None else {'pattern': scn['pattern']}))
    before = db.to_csv()
    with contextlib.redirect_stdout(io.StringIO()):
        o = world.call(calc_channel_stats, db, *arg)
    inside = {}
    for r in rows:
        st = truth[os.path.basename(r[0])][0]
        cov = sum(max(0.0, min(x.stats.endtime.timestamp, t2) - max(x.stats.starttime.timestamp, t1)) for x in st)
        span = max(0.0, min(r[7] / 1e9, t2) - max(r[6] / 1e9, t1))
        e = inside.setdefault(r[1], [0.0, 0.0, 0.0, 0, [], True])
        if r[3] > 0:
            e[0] += cov
            e[1] += span
        e[3] += 1
        if span > 0:
            e[4].append(r[3])
        if span > 0 and not (abs(r[7] / 1e9 - r[6] / 1e9 - 3600) < 1.5):
            e[5] = False
        if 0.5 < r[3] < 2e4:
            e[2] += span
    ctx.token('stats', o.kind, scn['win'][2], scn['iso'], scn['save'], len(inside), any(e[4] for e in inside.values()))
    if o.kind != 'ok':
        ctx.bad('stats_failed', 'calc_channel_stats ended with %s' % o.error, o.error)
        return
    ctx.note(o.value.to_string())
    W = t2 - t1
    got = {str(r.station): r for _, r in o.value.iterrows()}
    if len(got) != len(o.value):
        ctx.bad('stats', 'stations listed twice: %s' % list(o.value.station))
    for sta, e in inside.items():
        tol = (e[3] + 2) * 1.5 / scn['fs'] / W + 1e-6
        if not e[4]:
            if sta in got and (got[sta].anyData > tol or got[sta].goodData > tol):
                ctx.bad('stats', 'station %s has no data from %s to %s, but is said to cover %r' % (sta, U[0], U[1], got[sta].anyData))
            continue
        if sta not in got:
            if e[1] / W > tol:
                ctx.bad('stats', 'station %s covers %.4f of the window and is missing from the statistics' % (sta, e[1] / W))
            continue
        g = got[sta]
        lo, hi = e[0] / W - tol, e[1] / W + tol
        if not lo <= g.anyData <= hi:
            ctx.bad('stats', 'station %s: data available for %.5f of the window, said to be %.5f (files of %s s)' % (sta, e[0] / W, g.anyData, scn['len']), 'anyData')
        if not -1e-9 <= g.goodData <= g.anyData + 1e-9:
            ctx.bad('stats', 'station %s: good data %r, any data %r' % (sta, g.goodData, g.anyData), 'goodData')
        if e[5] and not abs(g.goodData - e[2] / W) <= tol:
            ctx.bad('stats', 'station %s: good data for %.5f of the window, said to be %.5f' % (sta, e[2] / W, g.goodData), 'goodData')
        if not (abs(g.q1 - np.quantile(e[4], 0.25)) < 1e-6 * (1 + abs(g.q1)) and abs(g.q3 - np.quantile(e[4], 0.75)) < 1e-6 * (1 + abs(g.q3))):
            ctx.bad('stats', 'station %s: amplitude quartiles %r %r, should be %r %r' % (sta, g.q1, g.q3, np.quantile(e[4], 0.25), np.quantile(e[4], 0.75)), 'quartiles')


def gaps(scn, ctx, truth):
    """The discontinuity listing of one station."""
    import obspy
    from gemlog.gemlog_aux import check_discontinuity
    names = sorted(x for x in truth if truth[x][0] is not None and truth[x][1] == 0 and truth[x][2]['state'] == 'ok')
    if not names:
        return
    fs = scn['fs']
    iv = sorted((x.stats.starttime.ns, x.stats.endtime.ns) for n in names for x in truth[n][0])
    pieces = [list(iv[0])]
    for a, b in iv[1:]:
        if a - pieces[-1][1] <= 1.5e9 / fs:
            pieces[-1][1] = max(pieces[-1][1], b)
        else:
            pieces.append([a, b])
    order = list(names)
    random.Random(scn['t0']).shuffle(order)
    q = io.StringIO()
    with contextlib.redirect_stdout(q):
        o = world.call(check_discontinuity, [scn['dir'] + '/' + x for x in order])
    if o.kind != 'ok':
        ctx.bad('gaps_failed', 'check_discontinuity ended with %s' % o.error, o.error)
        return
    lines = [x for x in q.getvalue().split('\n') if x]
    ctx.token('gaps', min(len(pieces), 4), len(lines) > 0)
    if len(pieces) == 1:
        if lines:
            ctx.bad('gaps', 'gapless data, but %s' % lines[:3])
        return
    got = []
    for x in lines:
        m = re.match(r'(\S*) (\S+)--(\S+)$', x)
        if not m:
            ctx.bad('gaps', 'cannot read the line %r' % x)
            return
        got.append([obspy.UTCDateTime(m.group(2)).ns, obspy.UTCDateTime(m.group(3)).ns])
    if len(got) != len(pieces) or any(not (abs(a - c) <= 2000 and abs(b - d) <= 2000) for (a, b), (c, d) in zip(sorted(got), pieces)):
        ctx.bad('gaps', 'pieces listed: %s, true: %s' % (sorted(got)[:5], pieces[:5]))


def disturbed(scn, ctx, truth, save, want):
    """Files that vanish or cannot be read during the scan; a full disk when saving."""
    e = scn['events'][0]
    if save:
        os.remove('db.csv')
    wd = ctx.root + '/work'
    so = ctx.root + '/said.txt'
    names = sorted(truth)
    victim = names[e['file'] % len(names)] if names else 'x'
    if e['act'] == 'enospc':
        f = {'act': 'enospc', 'cls': ['write'], 'path': '/work/db.csv', 'count': e['count'], 'nth': 0, 'arg': 0}
    else:
        f = {'act': 'eio' if e['act'] == 'eior' else e['act'], 'cls': ['read'] if e['act'] == 'eior' else ['openr'], 'path': victim, 'count': -1, 'nth': 0}
    d = hostconv.call(ctx, wd, scan, scn['dir'], scn['pattern'], save, plan={'faults': [f]}, stdout=so)
    said = open(so, errors='replace').read()
    hit = sum(d.hr.fired.values())
    ctx.token('disk', e['act'], d.kind, bool(hit))
    ctx.note(d.kind)
    if e['act'] == 'enospc':
        if d.kind == 'ok' and hit:
            ctx.bad('disk_error_silent', 'the disk was full, make_db reported success')
    elif d.kind != 'ok':
        ctx.bad('failed', 'make_db ended with %s because %s could not be read (%s)' % (d, victim, e['act']), str(d)[:80])
    else:
        compare(scn, ctx, truth, d.end.get('value'), said, unreadable=[victim] if hit else [])
    r = hostconv.call(ctx, wd, scan, scn['dir'], scn['pattern'], save)
    if r.kind != 'ok' or [list(x) for x in r.end.get('value')] != [list(x) for x in want]:
        ctx.bad('rerun', 'scanning again gave %r' % r)
