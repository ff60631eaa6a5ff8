"""C08: GPS and state-of-health logs are complete, ordered and exactly-once."""
import math
import os

import numpy as np

from .. import world, oracle, damage, device

LEVEL = 'exploration'
RULE = ('distinct (format, read-block length, number of files, gap class, earlier-log situation, damage kinds, withheld files, repeated '
        'conversions) tuples; non-trivial: at least one log row was judged')
REAL = ['gemlog.convert and everything below it (readers, block loop, log writing and numbering)']
STUB = ['loggers, their GPS fixes, status lines and cards (gemsim/device.py)']
ASSUMPTIONS = ['a fix is valid if its fields are in range and neither coordinate is zero',
               'rows of files with garbled bytes are not judged, only those of their neighbours',
               'a fix whose time is wrong (receiver outlier or step) may be logged or not',
               'a status line\'s time may be up to 0.1 s from the instant it describes (the firmware queues it)']
NMIN = 8

PRIOR = [[], [], [], [0], [0, 1, 2], [0, 2], [5], [998], [999], [1000], [0, 999, 1000], ['x'], ['old', 3]]


def generate(rng, i, tier):
    gem = world.pick_gem(rng, nfiles=rng.choice([1, 2, 3, 3, 4, 6, 9, 13 if i % 4 == 0 else 4]))
    if len(gem['files']) > 6:
        for f in gem['files']:
            f['dur'] = 40 + (f['dur'] % 10)
        gem['gps'] = {'cycle': 0, 'quota': 0, 'noise': 0.1, 'lat': 40.0, 'lon': -110.0, 'delay': 0}
    world.add_gaps(rng, gem, rng.choice([0, 0.4, 0.8]))
    r = rng.random()
    if r < 0.3:
        damage.damage(rng, gem, 0.4, kinds=('gps',))
    elif r < 0.55:
        damage.damage(rng, gem, 0.4)
    num = gem['num0']
    if rng.random() < 0.3:
        for f in gem['files']:
            f['num'] = num
            num += rng.choice([1, 1, 2, 6, 13, 40])
        if gem['files'][-1]['num'] > 9999:
            for f in gem['files']:
                f['num'] -= 9000
    return {'field': world.random_field(rng, scale=rng.choice([20, 300])), 'gems': [gem],
            'blocks': [rng.choice([1, 1 / 12, 2 / 12, 3 / 12, 0.5, 2]) for _ in range(rng.choice([1, 2, 2, 3]))],
            'length': rng.choice([24, 1, 30 / 3600]), 'same': rng.random() < 0.6,
            'prior': {'gps': rng.choice(PRIOR), 'metadata': rng.choice(PRIOR)}, 'others': rng.random() < 0.3}


def fix_rows(ft, outliers=False):
    """[(year, date, lat, lon, t)] of the valid fixes of a file (or of those with a wrong time, which may be left out)."""
    out = []
    for x in ft.fixes:
        if (x['said'] != x['sec']) != outliers:
            continue
        la, lo = round(x['lat'], 5), round(x['lon'], 5)
        if not (-90 <= la <= 90 and -180 <= lo <= 180) or la == 0 or lo == 0:
            continue
        import datetime
        d = device.EPOCH + datetime.timedelta(seconds=int(x['said']))
        if not 2014 <= d.year <= 2040:
            continue
        out.append((d.year, d.timetuple().tm_yday + d.hour / 24 + d.minute / 1440 + d.second / 86400, la, lo, float(x['said'])))
    return out


def meta_rows(ft):
    """[(reported values), true time, reported count] of the status lines that survive in a file."""
    n = len(ft.f.meta)
    if 'torn' in ft.kinds:
        n = oracle.cut_info(ft.f)[2]
    out = []
    for m in ft.f.meta[:n]:
        v = [m['batt'], m['temp']] + ([] if ft.f.fmt == '0.8' else [m['A2'], m['A3']]) + [
            m['maxLag'], m['minFree'], m['maxUsed'], m['maxOver'], m['gpsFlag'], m['f1'], m['f2']]
        out.append((tuple(round(float(x), 6) for x in v), m['t'], m['ms']))
    return out


def read_csv(path):
    with open(path) as fh:
        lines = fh.read().split('\n')
    head = lines[0].split(',')
    rows = [l.split(',') for l in lines[1:] if l]
    return head, rows


def find_seq(have, want, start):
    """First index >= start at which the rows 'want' stand contiguously in 'have' (-1: nowhere)."""
    n = len(want)
    for i in range(start, len(have) - n + 1):
        if have[i] == want[0] and have[i:i + n] == want:
            return i
    return -1


def judge(ctx, lg, fts, what, rows, want_of, contributed, sig):
    """rows: list of comparable tuples in file order; want_of(ft) -> the tuples the file must have contributed."""
    pos = 0
    used = 0
    clean = all(ft.wave == 'exact' for ft in fts)
    for ft in fts:
        if ft.wave != 'exact':
            continue
        want = want_of(ft)
        if not want:
            continue
        k = find_seq(rows, want, pos)
        if k < 0:
            if ft.status == 'must' or contributed(ft):
                where = find_seq(rows, want, 0)
                got = [r for r in rows if r in set(want)]
                ctx.bad(what + '_missing', 'SN %s fmt %s: the %d rows of %s (%s) are not in the %s log in order: %d of them are there%s; first %r' % (
                    lg.spec['sn'], lg.spec['fmt'], len(want), ft.f.name, sorted(ft.kinds), what, len(got),
                    ', earlier than those of the file before' if where >= 0 else '', next((w for w in want if w not in rows), want[0])), sig=sig)
                return
            continue
        if ft.status == 'mustnot' and len(want) > 3:
            ctx.bad(what + '_withheld', '%s was withheld but its rows are in the %s log' % (ft.f.name, what), sig=sig)
            return
        pos = k + len(want)
        used += len(want)
    if clean and used != len(rows):
        extra = list(rows)
        for ft in fts:
            for w in want_of(ft):
                if w in extra:
                    extra.remove(w)
        ctx.bad(what + '_extra', 'SN %s fmt %s: the %s log holds %d rows, the files converted have %d; e.g. %r' % (
            lg.spec['sn'], lg.spec['fmt'], what, len(rows), used, extra[:2]), sig=sig)


def execute(scn, ctx):
    import gemlog
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    fts = oracle.truths(lg)
    musts = [ft for ft in fts if ft.status == 'must']
    dirs = {}
    for kind in ('gps', 'metadata'):
        os.makedirs(kind)
        dirs[kind] = {}
        for n in scn['prior'][kind]:
            p = '%s/%s%s_%s.txt' % (kind, sn, kind, n if isinstance(n, str) else '%03d' % n)
            with open(p, 'w') as fh:
                fh.write('earlier %s\n' % n)
            dirs[kind][p] = 'earlier %s\n' % n
        if scn['others']:
            for p in ('%s/%s%s_007.txt' % (kind, '999' if sn != '999' else '998', kind), kind + '/notes.txt', '%s/%s%s_050.bak' % (kind, sn, kind)):
                with open(p, 'w') as fh:
                    fh.write('other')
                dirs[kind][p] = 'other'
    for bi, b in enumerate(scn['blocks']):
        g, m = ('gps', 'metadata') if scn['same'] else ('gps' if bi == 0 else 'g%d/x' % bi, 'metadata' if bi == 0 else 'm%d' % bi)
        for d in (g, m):
            dirs.setdefault(d, {})
        o = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='out%d' % bi, gpspath=g, metadatapath=m, blockdays=b,
                       file_length_hour=scn['length'])
        tr, _ = world.read_out('out%d' % bi)
        J = oracle.Judge(ctx, lg, tr)
        if o.kind != 'ok':
            if musts:
                ctx.bad('failed', repr(o), sig=(o.error or '')[:60])
            return
        for kind, d in (('gps', g), ('metadata', m)):
            now = {}
            for f in sorted(os.listdir(d)):
                with open(d + '/' + f) as fh:
                    now[d + '/' + f] = fh.read()
            new = [p for p in now if p not in dirs[d]]
            for p, text in dirs[d].items():
                if now.get(p) != text:
                    ctx.bad('earlier_log', '%s, which was there before, was changed or lost by a conversion' % p)
                    return
            if len(new) != 1:
                ctx.bad('log_files', 'a conversion made the %s logs %s (there were %s)' % (kind, new, sorted(dirs[d])))
                return
            name = os.path.basename(new[0])
            num = name[len(sn + kind) + 1:-4]
            nums = [int(os.path.basename(p)[len(sn + kind) + 1:-4]) for p in dirs[d]
                    if os.path.basename(p).startswith(sn + kind + '_') and p.endswith('.txt') and os.path.basename(p)[len(sn + kind) + 1:-4].isdigit()]
            if not (name == '%s%s_%s.txt' % (sn, kind, num) and num.isdigit() and int(num) > max(nums, default=-1)):
                ctx.bad('log_number', 'the new %s log is %s, there were numbers %s' % (kind, name, nums))
                return
            dirs[d] = now
            head, rows = read_csv(new[0])
            sig = '%s,%s' % (lg.spec['fmt'], kind)
            try:
                if kind == 'gps':
                    col = [head.index(c) for c in ('year', 'date', 'lat', 'lon', 't')]
                    import obspy
                    vals = [(int(float(r[col[0]])), round(float(r[col[1]]), 6), round(float(r[col[2]]), 5), round(float(r[col[3]]), 5),
                             round(obspy.UTCDateTime(r[col[4]]).timestamp, 3)) for r in rows]
                else:
                    cols = ['batt', 'temp'] + ([] if lg.spec['fmt'] == '0.8' else ['A2', 'A3']) + [
                        'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle']
                    col = [head.index(c) for c in cols]
                    vals = [tuple(round(float(r[c]), 6) if r[c] else math.nan for c in col) for r in rows]
                    tcol, mcol = head.index('t'), head.index('millis')
                    tt = [float(r[tcol]) if r[tcol] else math.nan for r in rows]
                    ms = [float(r[mcol]) if r[mcol] else math.nan for r in rows]
            except (ValueError, IndexError, KeyError) as e:
                ctx.bad('log_format', '%s cannot be read: %s; header %s' % (name, e, head))
                return
            ctx.note(bi, kind, name, rows)
            if kind == 'gps':
                wrong = {(r[0], round(r[1], 6)) + r[2:] for ft in fts for r in fix_rows(ft, True)}
                vals = [v for v in vals if v not in wrong]
                judge(ctx, lg, fts, 'gps', vals, lambda ft: [r for r in ((r[0], round(r[1], 6)) + r[2:] for r in fix_rows(ft)) if r not in wrong], J.contributed, sig)
                if all(ft.wave == 'exact' and not ft.kinds & {'gpsstep', 'gpsoutlier'} for ft in fts):
                    t = [v[4] for v in vals]
                    if any(y < x for x, y in zip(t, t[1:])):
                        ctx.bad('gps_order', 'the GPS log is not in time order', sig=sig)
            else:
                judge(ctx, lg, fts, 'metadata', vals, lambda ft: [r[0] for r in meta_rows(ft)], J.contributed, sig)
                pos = 0
                for ft in fts:
                    if ft.wave != 'exact' or ft.status == 'mustnot':
                        continue
                    want = meta_rows(ft)
                    k = find_seq(vals, [w[0] for w in want], pos) if want else -1
                    if k < 0:
                        continue
                    pos = k + len(want)
                    roll = device.ROLL[lg.spec['fmt']]
                    tol = np.minimum(oracle.timing_tolerance(ft, np.array([w[1] for w in want])), 5.0) + 0.1
                    for j, w in enumerate(want):
                        d = (ms[k + j] - w[2]) % roll
                        if not min(d, roll - d) < 1.0:
                            ctx.bad('metadata_millis', '%s status line %d: logged count %s, reported %s' % (ft.f.name, j, ms[k + j], w[2] % roll), sig=sig)
                            return
                        if not abs(tt[k + j] - w[1]) <= tol[j]:
                            ctx.bad('metadata_time', '%s status line %d of %d: time %s, truly %.3f (file ends %.3f)' % (
                                ft.f.name, j, len(want), tt[k + j], w[1], ft.f.t[ft.ndata - 1]), sig=sig)
                            return
            ctx.extra['log_rows'] = ctx.extra.get('log_rows', 0) + len(rows)
        gaps = 'reboot' if any(f.get('reboot') for f in lg.spec['files']) else 'pause' if any(f.get('gap') for f in lg.spec['files']) else ''
        ctx.token(lg.spec['fmt'], round(b, 2), min(5, len(fts)), gaps, str(scn['prior']['gps']), bi, scn['same'],
                  '+'.join(sorted({k for ft in fts for k in ft.kinds})[:3]), sum(not J.contributed(ft) for ft in fts))
    for ft in fts:
        for k in ft.kinds:
            ctx.fault(k)
    for f in lg.spec['files']:
        if f.get('gap'):
            ctx.fault('reboot' if f.get('reboot') else 'pause')
    if any(scn['prior'].values()):
        ctx.fault('earlier_logs')
    ctx.sim_seconds = world.sec(scn['gems'])
