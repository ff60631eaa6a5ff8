"""C04: output files partition the recording exactly once, at any chunk size."""
import math
import os
import re

import numpy as np

from .. import world, oracle, damage

LEVEL = 'exploration'
RULE = ('distinct (format, file length class, block length, output format, codes given, t1/t2/nums restriction class, '
        'gap class, number of output files class) tuples; non-trivial: at least one converted trace was checked')
REAL = ['gemlog.convert and everything below it, called once per option set on the same card']
STUB = ['logger and card (gemsim/device.py)']
ASSUMPTIONS = ['output file lengths are whole seconds (file names resolve seconds)',
               'samples within 0.12 s of a raw-file junction or recording gap may differ between read-block sizes (spline ends)']
NMIN = 8


def options(rng, gem):
    span = sum(f['dur'] + f.get('gap', 0) for f in gem['files'])
    t0 = gem['t0']
    o = {'file_length_hour': rng.choice([24, 24, 12, 6, 1, 1, 0.5, 1 / 60, 30 / 3600, 10 / 3600, 7 / 3600, 48,
                                         rng.randint(3, 400) / 3600]),
         'blockdays': rng.choice([1, 1, 1 / 12, 2 / 12, 3 / 12, 0.5, 2])}
    if span > 20000 and o['file_length_hour'] < 0.02:
        o['file_length_hour'] = 1
    if rng.random() < 0.3:
        o['station'] = rng.choice(['ABC', 'S1', 'STATN'])
        o['network'] = rng.choice(['', 'XP'])
        o['location'] = rng.choice(['', '00', 'X1'])
    if rng.random() < 0.25:
        o['output_format'] = rng.choice(['mseed', 'MSEED', 'SAC', 'sac'])
    r = rng.random()
    if r < 0.45:
        # cut times: anywhere, on file junctions, whole seconds, output boundaries
        edges, t = [], t0
        for f in gem['files']:
            t += f.get('gap', 0)
            edges.append(t)
            t += f['dur']
            edges.append(t)

        def pick():
            q = rng.random()
            e = rng.choice(edges)
            if q < 0.5:
                k = rng.randrange(len(gem['files']))
                return edges[2 * k] + rng.random() * gem['files'][k]['dur']
            if q < 0.7:
                return e + rng.choice([-1, -0.01, 0.01, 1])
            if q < 0.85:
                return math.floor(e) + rng.choice([0, 60, 3600])
            return math.ceil(e / 10) * 10
        a, b = sorted([round(pick(), 2), round(pick(), 2)])
        w = rng.random()
        if w < 0.7 and (b - a > 3):
            o['t1'], o['t2'] = a, b
        elif w < 0.85:
            o['t1'] = a
        else:
            o['t2'] = b
        o['tform'] = rng.choice(['utc', 'utc', 'float'])
    elif r < 0.7:
        n = len(gem['files'])
        nums = sorted(rng.sample(range(n), rng.randint(1, n)))
        if rng.random() < 0.3:
            rng.shuffle(nums)
        o['pick'] = nums
    return o


def generate(rng, i, tier):
    gem = world.pick_gem(rng, nfiles=rng.choice([1, 2, 3, 3, 4, 5, 7, 13 if i % 5 == 0 else 4]))
    if len(gem['files']) > 6:
        for f in gem['files']:
            f['dur'] = 40 + (f['dur'] % 10)
        gem['gps'] = {'cycle': 0, 'quota': 0, 'noise': 0.1, 'lat': 40.0, 'lon': -110.0, 'delay': 0}
    world.add_gaps(rng, gem, rng.choice([0, 0.4, 0.8]))
    if rng.random() < 0.25:                       # days without recording
        for f in gem['files'][1:]:
            if rng.random() < 0.5:
                f['reboot'], f['gap'], f['phase'] = True, round(rng.uniform(20000, 200000), 2), 0
    if rng.random() < 0.4:
        damage.damage(rng, gem, 0.5, kinds=('overrun',))
    num = gem['num0']
    if rng.random() < 0.3:
        for f in gem['files']:
            f['num'] = num
            num += rng.choice([1, 1, 2, 6, 13, 40])
        if gem['files'][-1]['num'] > 9999:
            for f in gem['files']:
                f['num'] -= 9000
    return {'field': world.random_field(rng, scale=rng.choice([60, 300, 1500])), 'gems': [gem],
            'options': [options(rng, gem) for _ in range(rng.choice([1, 2, 2, 3]))]}


def kwargs(o, lg):
    import obspy
    k = {x: o[x] for x in ('file_length_hour', 'blockdays', 'station', 'network', 'location', 'output_format') if x in o}
    for x in ('t1', 't2'):
        if x in o:
            k[x] = float(o[x]) if o.get('tform') == 'float' else obspy.UTCDateTime(o[x])
    if 'pick' in o:
        k['nums'] = np.array([lg.files[j].num for j in o['pick'] if j < len(lg.files)])
    return k


def tr_ok(ctx, lg, tr, o):
    """naming, alignment, no crossing, minimal number of pieces"""
    n = round(float(o['file_length_hour']) * 3600)
    fmt = o.get('output_format', 'MSEED').lower()
    want_id = '%s.%s.%s.HDF' % (o.get('network', ''), o.get('station') or lg.spec['sn'], o.get('location', ''))
    seen = {}
    for name, t in tr:
        if name in seen:
            ctx.bad('two_in_one', '%s holds two segments' % name)
        seen[name] = t
        s = t.stats.starttime
        m = re.match(r'(\d{4}-\d\d-\d\dT\d\d_\d\d_\d\d)(?:[^.]*)\.(.*)\.([^.]+)$', name)
        stamp = s.strftime('%Y-%m-%dT%H_%M_%S')
        alt = (s + 0.0006).strftime('%Y-%m-%dT%H_%M_%S') if fmt == 'sac' else stamp
        if not m or m.group(1) not in (stamp, alt):
            ctx.bad('name', '%s starts at %s' % (name, s))
        elif m.group(2) != want_id or m.group(3) != fmt:
            ctx.bad('codes', '%s should be <time>.%s.%s' % (name, want_id, fmt))
        if fmt != 'sac' and t.id != want_id:
            ctx.bad('codes', '%s holds id %s, requested %s' % (name, t.id, want_id))
        # alignment: in units of nanoseconds
        L = n * 10 ** 9
        eps = 600_000 if fmt == 'sac' else 0
        a, b = (s.ns + eps) // L, (t.stats.endtime.ns + 0) // L
        if a != b and t.stats.npts > 1:
            ctx.bad('crosses', '%s (%s .. %s) crosses a boundary of %d s' % (name, s, t.stats.endtime, n))
    srt = sorted([t for _, t in tr], key=lambda t: t.stats.starttime.ns)
    for u, v in zip(srt, srt[1:]):
        gap = v.stats.starttime.ns - u.stats.endtime.ns
        if 0 < gap <= 15_000_000:
            off = v.stats.starttime.ns % (n * 10 ** 9)
            if 11_000_000 < off and off < n * 10 ** 9 - 2_000_000:
                ctx.bad('split', 'continuous data are split at %s, which is no boundary of %d s' % (v.stats.starttime, n))


def execute(scn, ctx):
    import gemlog
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    ref = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='ref', gpspath='gref', metadatapath='mref')
    rtr, bad = world.read_out('ref')
    J = oracle.Judge(ctx, lg, rtr, prefix='ref_')
    musts = [ft for ft in J.fts if ft.status == 'must']
    if ref.kind != 'ok':
        if musts:
            ctx.bad('ref_failed', repr(ref))
        return
    J.check_unique()
    J.check_invented()
    J.check_wave()
    J.check_complete(t1=math.ceil(min((ft.f.t[0] for ft in musts), default=0)) + 0.01)
    tr_ok(ctx, lg, rtr, {'file_length_hour': 24})
    # ends of continuous stretches: there, whether an output sample falls inside is a matter of rounding
    junctions = sorted([x for ft in J.fts if ft.ndata for ab in oracle.seg_bounds(ft.f.t[:ft.ndata]) for x in ab])
    RT, RY = J.T, J.Y
    ctx.note('ref', len(RT), int(RY.sum()))
    S = lg.field.slope_bound()
    for vi, o in enumerate(scn['options']):
        out = 'out%d' % vi
        r = world.call(gemlog.convert, 'raw', SN=sn, convertedpath=out, gpspath='g%d' % vi, metadatapath='m%d' % vi,
                       **kwargs(o, lg))
        tr, unread = world.read_out(out)
        desc = {k: v for k, v in o.items()}
        ctx.note(vi, r.kind, r.value, r.error, [(n, t.stats.npts) for n, t in tr])
        for name, e in unread:
            ctx.bad('unreadable', '%s %s' % (name, e))
        K = oracle.Judge(ctx, lg, tr, prefix='')
        picked = None if 'pick' not in o else {lg.files[j].num for j in o['pick'] if j < len(lg.files)}
        # what is expected: the reference restricted to the files and times asked for
        lo, hi = o.get('t1', -math.inf), o.get('t2', math.inf)
        first = math.inf
        conv = [ft for ft in K.fts if J.contributed(ft) and (picked is None or ft.f.num in picked)]
        if conv:
            first = min(ft.f.t[0] for ft in conv)
        keep = np.ones(len(RT), bool)
        tt = RT * 1e-9
        if picked is not None:
            keep[:] = False
            for ft in K.fts:
                if ft.ndata and ft.f.num in picked:
                    t = ft.f.t[:ft.ndata]
                    i0, i1 = np.searchsorted(tt, [t[0] + 0.12, t[-1] - 0.12])
                    keep[i0:i1] = True
        keep &= (tt >= lo - 1e-6) & (tt <= hi + 1e-6)
        if picked is not None or 't1' not in o:
            # the first partial second is skipped unless a start time is given
            keep &= tt >= math.ceil(first) + 0.011 if conv else False
        if 't1' not in o and conv:
            pass
        want = RT[keep]
        near = np.zeros(len(want), bool)
        if junctions:
            jj = np.array(junctions)
            k = np.clip(np.searchsorted(jj, want * 1e-9), 1, len(jj) - 1) if len(jj) > 1 else np.zeros(len(want), int)
            near = np.minimum(np.abs(want * 1e-9 - jj[k]), np.abs(want * 1e-9 - jj[np.maximum(k - 1, 0)])) < 0.12
        if r.kind != 'ok':
            if (~near).sum() > 20:
                ctx.bad('failed', 'with %s the conversion ends with %r but %d samples were expected' % (desc, r, (~near).sum()),
                        sig=(r.error or '')[:60])
            continue
        snap = (K.T + 500_000) // 1_000_000 * 1_000_000          # SAC keeps milliseconds
        K.check_unique()
        tr_ok(ctx, lg, tr, o)
        # nothing outside the request
        if len(snap):
            if snap[0] * 1e-9 < lo - 1e-6:
                ctx.bad('before_t1', 'with %s samples start at %.3f, before t1 by %.2f s' % (desc, snap[0] * 1e-9, lo - snap[0] * 1e-9))
            if snap[-1] * 1e-9 > hi + 1e-6:
                ctx.bad('after_t2', 'with %s samples end at %.3f, after t2 by %.2f s' % (desc, snap[-1] * 1e-9, snap[-1] * 1e-9 - hi))
            if picked is not None:
                for ft in K.fts:
                    if ft.ndata and ft.f.num not in picked:
                        i0, i1 = np.searchsorted(snap * 1e-9, [ft.f.t[0] + 0.06, ft.f.t[ft.ndata - 1] - 0.06])
                        if i1 - i0 > 0:
                            ctx.bad('unrequested', 'with %s %d samples of file %d were written' % (desc, i1 - i0, ft.f.num))
        # everything requested
        miss = want[~np.isin(want, snap)]
        hard = miss[~np.isin(miss, want[near])]
        if len(hard):
            ctx.bad('missing', 'with %s %d samples of the default conversion are missing, first %.3f (output %s)' % (
                desc, len(hard), hard[0] * 1e-9, [(n, t.stats.npts) for n, t in tr][:6]))
        # nothing new, no changed values
        idx = np.searchsorted(RT, snap)
        ok = (idx < len(RT)) & (RT[np.minimum(idx, len(RT) - 1)] == snap) if len(RT) else np.zeros(len(snap), bool)
        new = snap[~ok] * 1e-9
        if len(junctions) and len(new):
            jj = np.array(junctions)
            new = np.array([x for x in new if np.min(np.abs(jj - x)) > 0.12 and x >= math.ceil(tt[0]) if len(tt)])
        ngrid = new[(new > (tt[0] if len(tt) else 0))] if len(new) else new
        if len(ngrid):
            ctx.bad('new', 'with %s %d samples are not in the default conversion, first %.3f' % (desc, len(ngrid), ngrid[0]))
        d = np.abs(K.Y[ok] - RY[idx[ok]])
        tz = snap[ok] * 1e-9
        if len(d):
            lim = 1.01 + S * 2e-5
            w = np.where(d > lim)[0]
            if len(junctions):
                jj = np.array(junctions)
                w = [x for x in w if np.min(np.abs(jj - tz[x])) > 0.12]
            if len(w):
                ctx.bad('value', 'with %s %d samples differ from the default conversion, first %.3f by %.1f' % (
                    desc, len(w), tz[w[0]], d[w[0]]))
        # continuous recording must stay continuous across read blocks
        if picked is None and lo == -math.inf and hi == math.inf and not any(ft.kinds for ft in K.fts):
            K.prefix = 'opt_'
            K.T = snap
            K.t = snap * 1e-9
            K.check_complete(t1=math.ceil(first) + 0.01 if conv else None)
            segs = oracle.recorded_segments(K.fts)
            tt2 = K.t
            for u, v in zip(K.fts, K.fts[1:]):
                if u.status == 'must' and v.status == 'must' and v.f.t[0] - u.f.t[-1] < 0.0125 and tt2.size:
                    j = u.f.t[-1]
                    i0, i1 = np.searchsorted(tt2, [j - 0.3, j + 0.3])
                    if first < j - 1.5 and i1 - i0 < 59:
                        ctx.bad('junction', 'with %s the continuous recording has a hole at the junction of files %d and %d (%.3f): %d of 60 samples' % (
                            desc, u.f.num, v.f.num, j, i1 - i0))
                        break
        ctx.token(lg.spec['fmt'], int(math.log10(o['file_length_hour'] * 3600)), round(o['blockdays'], 2), o.get('output_format', ''),
                  bool(o.get('station')), 't1' in o, 't2' in o, o.get('tform', ''), 'pick' in o,
                  min(4, len(tr)), len(miss) > 0)
        for f in lg.spec['files']:
            g = f.get('gap', 0)
            if g:
                ctx.fault('reboot' if f.get('reboot') else 'pause')
            for x in f.get('faults', []):
                ctx.fault(x['kind'])
        ctx.extra['option_sets'] = ctx.extra.get('option_sets', 0) + 1
    ctx.sim_seconds = world.sec(scn['gems'])
