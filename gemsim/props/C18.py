"""C18: a whole campaign: what was on the cards is what ends up in the archive, under the right codes and at the right place."""
import os
import random

import numpy as np

from .. import world, oracle, hostconv, damage
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (formats, visits, way the codes are given, file length, output format, archive crosses midnight, step and kind of the failure) tuples; '
        'non-trivial: at least one logger was archived')
REAL = ['gemlog.gemconvert.main, rename_files, merge_files_day, summarize_gps, make_gem_inventory, make_db, on the files each step left', 'obspy']
STUB = ['logger firmware, oscillator, GPS receiver, ADC and card (gemsim/device.py)', 'process pool (gemsim/simpool.py)', 'listing order, kills, power losses, '
        'interrupts, disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['the loggers are at rest during a visit; the newest conversion with fixes decides their position', 'what a day file holds inside a gap is not judged']
NMIN = 8

STEPS = ['convert', 'rename', 'merge', 'site']


def generate(rng, i, tier):
    gems = hostconv.stable_card(rng, rng.choice([1, 2, 2, 3]))
    t0 = world.pick_t0(rng)
    for g in gems:
        g['t0'] = round(t0 + rng.choice([0, rng.uniform(0, 40), rng.uniform(0, 400)]), 4)
        g.pop('delay', None)
        world.add_gaps(rng, g, 0.4)
        if rng.random() < 0.25:
            damage.damage(rng, g, 0.4, kinds=('byte', 'gps'))
    visits = [gems]
    if rng.random() < 0.4:                         # the same loggers, later and elsewhere
        again = []
        dt = rng.choice([3000, 40000, 86400 * 3, 86400 * 400])
        for g in gems:
            if rng.random() < 0.8 or not again:
                h = dict(g, t0=round(g['t0'] + 20000 + dt, 4), seed=g['seed'] ^ 12345, files=[dict(dur=f['dur'], gap=min(f.get('gap', 0), 3.0)) for f in g['files']][:rng.choice([1, 2, 3])],
                         gps=dict(g['gps'], lat=round(max(-88, min(88, g['gps']['lat'] + rng.uniform(-2, 2))), 5)))
                again.append(h)
        visits.append(again)
    sns = [g['sn'] for g in gems]
    rows = [[sn, rng.choice(['XP', 'NM', '']), rng.choice(['ST%02d' % k, 'A%s' % sn]), rng.choice(['', '00', '01'])] for k, sn in enumerate(sns)]
    if rng.random() < 0.3 and len(rows) > 1:
        rows[1][1:3] = rows[0][1:3]
        rows[0][3], rows[1][3] = '00', '01'
    rng.shuffle(rows)
    scn = {'field': world.random_field(rng, scale=rng.choice([60, 300])), 'visits': visits, 'rows': rows, 'header': rng.choice(['SN,Network,Station,Location', 'sn,network,station,location', None]),
           'codes': rng.choice(['rename', 'rename', 'convert']), 'len': rng.choice(['24', '24', '1', '0.01', '0.02']), 'fmt': rng.choice(['mseed', 'mseed', 'mseed', 'sac']),
           'workers': rng.choice([1, 1, 2]), 'listing': rng.randrange(1 << 20), 'events': []}
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            f = {'step': rng.choice(STEPS), 'visit': rng.randrange(len(visits)), 'act': rng.choice(['kill', 'power', 'sigint', 'enospc', 'eio', 'torn', 'powertorn']), 'at': rng.random(),
                 'count': 1, 'seed': rng.randrange(1 << 30), 'path': '/work'}
            if f['act'] in ('torn', 'powertorn', 'enospc', 'eio'):
                f['cls'], f['arg'] = ['write'], rng.choice([0, 0.3, 0.9])
            scn['events'].append(f)
    return scn


def sited(table, gpsdir):
    import gemlog
    coords = gemlog.summarize_gps(gpsdir, station_info=table, output_file='coords.csv')
    coords['elevation'] = 50
    gemlog.make_gem_inventory(table, coords, gemlog.get_gem_response()).write('inv.xml', format='STATIONXML')
    return len(coords)


def rename(table, fmt):
    import gemlog
    gemlog.rename_files('conv/*', table, 'named', output_format=fmt)


def merge(folder):
    import gemlog
    gemlog.merge_files_day(folder, '*', 'days')
    DB = gemlog.make_db('days', savefile='db.csv')
    return [(os.path.basename(r['filename']), r['station'], r['location'], r['t1'].timestamp, r['t2'].timestamp, float(r['max']), float(r['min'])) for _, r in DB.iterrows()]


def step(ctx, scn, name, visit, run, ctrl):
    """Run one step, with the failures that strike it, and then undisturbed."""
    ran = []
    for f in scn['events']:
        if f['step'] != name or f['visit'] != visit:
            continue
        plan = {x: f[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in f}
        plan['nth'] = int(f['at'] * ctrl[name] / (4 if f.get('cls') else 1))
        d = run({'faults': [plan]})
        if d.kind == 'power':
            d.hr.lose_unsynced(random.Random(f['seed']))
        if d.hr.fired:
            ran.append((name, f['act'], d.kind))
    d = run({})
    return d, ran


def gather_named(folder, bad):
    out = {}
    tr, unreadable = world.read_out(folder)
    for n in unreadable:
        bad('unreadable', '%s in %s: %s' % (n[0], os.path.basename(folder), n[1]))
    for n, t in tr:
        if t.stats.starttime.ns % 10 ** 7 and abs(t.stats.starttime.ns - round(t.stats.starttime.ns / 1e7) * 10 ** 7) < 10 ** 6:
            t.stats.starttime = type(t.stats.starttime)(ns=round(t.stats.starttime.ns / 1e7) * 10 ** 7)      # sac keeps single precision
        out.setdefault(t.id, []).append((n, t))
    return out


def execute(scn, ctx):
    import obspy
    work = ctx.root + '/work'
    os.makedirs(work)
    os.chdir(work)
    head = '' if scn['header'] is None else scn['header'] + '\n'
    with open('stations.txt', 'w') as fh:
        fh.write(head + ''.join(','.join(r) + '\n' for r in scn['rows']))
    code = {r[0]: '%s.%s.%s.HDF' % tuple(r[1:]) for r in scn['rows']}
    cards, ran = [], []
    est = {'convert': 60, 'rename': 40, 'merge': 40, 'site': 20}
    for v, gems in enumerate(scn['visits']):
        card = world.Card({'gems': gems, 'field': scn['field']}, '%s/raw%d' % (ctx.root, v))
        cards.append(card)
        argv = ['-i', '../raw%d' % v, '-o', 'conv', '-l', scn['len'], '-f', scn['fmt'], '-p', str(scn['workers']), '-s', ','.join(g['sn'] for g in gems)]
        if scn['codes'] == 'convert':
            argv += ['-c', 'stations.txt']
        d, r = step(ctx, scn, 'convert', v, lambda plan: hostconv.run(ctx, work, 'gemconvert', argv, plan=plan, listing=scn['listing']), est)
        ran += r
        if d.kind not in ('ok', 'exit'):
            ctx.bad('convert', 'visit %d: gemconvert ended with %r after %s' % (v, d, ran))
            return
    conv = [f for f in os.listdir('conv')] if os.path.isdir('conv') else []
    anymust = [ft for c in cards for lg in c.loggers for ft in oracle.truths(lg) if ft.status == 'must']
    if not conv:
        if anymust:
            ctx.bad('convert', 'nothing was converted although %s are undamaged' % [ft.f.name for ft in anymust][:4])
        return
    folder = 'conv'
    if scn['codes'] == 'rename':
        d, r = step(ctx, scn, 'rename', 0, lambda plan: hostconv.call(ctx, work, rename, 'stations.txt', scn['fmt'], plan=plan, listing=scn['listing'], stdout=ctx.root + '/o1'), est)
        ran += r
        folder = 'named'
        if d.kind != 'ok':
            ctx.bad('rename', 'rename_files ended with %r %s after %s' % (d, str(d.end.get('tb'))[-300:], ran))
            return
    d, r = step(ctx, scn, 'merge', 0, lambda plan: hostconv.call(ctx, work, merge, folder, plan=plan, listing=scn['listing'] ^ 5, stdout=ctx.root + '/o2'), est)
    ran += r
    if d.kind != 'ok':
        ctx.bad('merge', 'merging and listing ended with %r %s after %s' % (d, str(d.end.get('tb'))[-300:], ran))
        return
    db = d.end['value']
    s, r = step(ctx, scn, 'site', 0, lambda plan: hostconv.call(ctx, work, sited, 'stations.txt', 'gps', plan=plan, listing=scn['listing'] ^ 9, stdout=ctx.root + '/o3'), est)
    ran += r
    how = ' (after %s)' % ran if ran else ''
    named = gather_named(folder, ctx.bad)
    days = gather_named('days', ctx.bad)
    for where, got in ((folder, named), ('days', days)):
        for i in got:
            if i not in code.values():
                ctx.bad('codes', '%s holds data of %s, the table names %s%s' % (where, i, sorted(code.values()), how))
                return
    inv = obspy.read_inventory('inv.xml') if os.path.exists('inv.xml') else None
    mids = 0
    for v, card in enumerate(cards):
        for lg in card.loggers:
            lo = min(f.t[0] for f in lg.files) - 5000
            hi = max(f.t[-1] for f in lg.files) + 5000
            trs = [(n, t) for n, t in named.get(code[lg.spec['sn']], []) if lo < t.stats.starttime.timestamp < hi]
            J = oracle.Judge(ctx, lg, trs)
            J.check_grid()
            if not any(ft.wave == 'unknown' for ft in J.fts):
                J.check_unique()
                J.check_invented()
            first = min((x for ft in J.fts if J.contributed(ft) for x in ft.f.t[:1]), default=None)
            J.check_complete(t1=None if first is None else np.ceil(first) + 0.02)
            J.check_wave()
            # ---- the position of the newest visit with usable data
            newest = max((u for u, c in enumerate(cards) for q in c.loggers if q.spec['sn'] == lg.spec['sn']
                          and any(ft.status == 'must' for ft in oracle.truths(q))), default=None)
            later = any(u > v and any(q.spec['sn'] == lg.spec['sn'] and any(ft.status != 'mustnot' for ft in oracle.truths(q)) for q in c.loggers) for u, c in enumerate(cards))
            fts = oracle.truths(lg)
            if newest != v or later or any(ft.kinds & {'gpswild', 'garble', 'bitflip', 'dup', 'drop', 'zero', 'ff', 'snline', 'version', 'nohdr'} for ft in fts):
                continue
            if s.kind != 'ok' or inv is None:
                ctx.bad('site', 'locating the loggers ended with %r %s%s' % (s, str(s.end.get('tb'))[-300:], how))
                return
            mids += 1
            must = [ft for ft in fts if ft.status == 'must']
            when = obspy.UTCDateTime(float(must[0].fixes[len(must[0].fixes) // 2]['sec']))
            try:
                c = inv.get_coordinates(code[lg.spec['sn']], when)
                for ft in must:                    # from its first to its last sample
                    for at in (ft.f.t[0], ft.f.t[ft.ndata - 1]):
                        when = obspy.UTCDateTime(float(at))
                        inv.get_coordinates(code[lg.spec['sn']], when)
            except Exception as e:
                ctx.bad('site', 'the inventory does not know %s at %s: %s%s' % (code[lg.spec['sn']], when, e, how))
                continue
            la = np.median([x['lat'] for f in fts for x in f.fixes if f.status == 'must'])
            lon = np.median([x['lon'] for f in fts for x in f.fixes if f.status == 'must'])
            if abs(c['latitude'] - la) > 2e-4 or abs(c['longitude'] - lon) > 2e-4 or abs(c['elevation'] - 50) > 1e-6:
                ctx.bad('position', 'SN %s: the inventory says %s, its receiver %.5f %.5f%s' % (lg.spec['sn'], c, la, lon, how))
    # ---- the day files hold every sample of the files merged
    for i in sorted(set(named) | set(days)):
        T, Y, _ = oracle.gather(named.get(i, []))
        D, Z, _ = oracle.gather(days.get(i, []))
        if len(D) > 1 and np.diff(D).min() < 9_900_000:
            ctx.bad('days_twice', '%s: the day files hold %d samples twice%s' % (i, int((np.diff(D) < 9_900_000).sum()), how))
            continue
        T, Y, D = T // 10 ** 7, np.asarray(Y), D // 10 ** 7
        pos = np.minimum(np.searchsorted(D, T), max(0, len(D) - 1))
        hit = D[pos] == T if len(D) else np.zeros(len(T), bool)
        if not hit.all():
            ctx.bad('days_lost', '%s: %d of %d samples are not in the day files, first at %.2f%s' % (i, int((~hit).sum()), len(T), T[~hit][0] / 100, how))
            continue
        once = np.ones(len(T), bool)
        once[1:] &= np.diff(T) > 0
        once[:-1] &= np.diff(T) > 0
        bad = once & ~np.isclose(Z[pos], Y, rtol=1e-6, atol=0)
        if bad.any():
            ctx.bad('days_values', '%s: %d of %d values differ in the day files, first at %.2f%s' % (i, int(bad.sum()), len(T), T[bad][0] / 100, how))
    # ---- the list of day files
    have = {}
    for i, trs in days.items():
        for n, t in trs:
            have.setdefault(n, []).append(t)
    if sorted(x[0] for x in db) != sorted(have):
        ctx.bad('database', 'day files %s, listed %s%s' % (sorted(have), sorted(x[0] for x in db), how))
        return
    for n, sta, loc, a, b, mx, mn in db:
        ts = have[n]
        if sta != ts[0].stats.station or loc != ts[0].stats.location or abs(a - min(t.stats.starttime.timestamp for t in ts)) > 0.006 or abs(b - max(t.stats.endtime.timestamp for t in ts)) > 0.006 \
                or mx != max(float(t.data.max()) for t in ts) or mn != min(float(t.data.min()) for t in ts):
            ctx.bad('database', '%s is listed as %s, it holds %s%s' % (n, (sta, loc, a, b, mx, mn), ts, how))
    ctx.sim_seconds = sum(world.sec(g) for g in scn['visits'])
    ctx.token('+'.join(sorted({g['fmt'] for g in scn['visits'][0]})), len(scn['visits']), scn['codes'], scn['len'], scn['fmt'], len(have) > len(days), tuple(ran), mids)
    ctx.note(sorted((k, len(v), sum(t.stats.npts for n, t in v)) for k, v in named.items()), sorted((k, len(v)) for k, v in days.items()), ran)

