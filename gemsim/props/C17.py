"""C17: read_gem, called as a library, returns what the logger recorded, for any selection of files."""
import math
import os
import pathlib

import numpy as np

from .. import world, oracle, damage, device, hostconv
from .C01 import gps_faults
from .C06 import matches
from .C02 import sensitivity
from .C08 import fix_rows, judge, meta_rows

LEVEL = 'exploration'
RULE = ('distinct (format, selection form, GPS required or not, file condition classes, outcome class, files contributing, disk fault) tuples; '
        'non-trivial: at least one raw file was selected')
REAL = ['gemlog.read_gem and everything below it (readers, regression, interpolation), called directly']
STUB = ['logger firmware, oscillator, GPS receiver, ADC and card (gemsim/device.py)', 'disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['the gain and configuration given for all files are those of the first one selected that has a configuration line, and judged when that one is intact',
               'a .TXT file whose serial number is unreadable belongs to no logger, so it is not expected to be named',
               'values and log rows of files with garbled bytes are not judged, only their neighbours',
               'files without usable GPS read with require_gps=False are judged by their number of samples, not by their times']
NMIN = 8


def generate(rng, i, tier):
    gem = world.pick_gem(rng, nfiles=rng.choice([1, 2, 3, 3, 4, 6]))
    world.add_gaps(rng, gem, rng.choice([0, 0.4, 0.8]))
    k = rng.choice(['clean', 'gps', 'mix', 'mix'])
    if k == 'gps':
        gps_faults(rng, gem, 0.5)
    elif k == 'mix':
        damage.damage(rng, gem, 0.5, kinds=('byte', 'byte', 'gps', 'overrun'))
    if rng.random() < 0.3:
        num = gem['num0']
        for f in gem['files']:
            f['num'] = num
            num += rng.choice([1, 1, 2, 7, 40])
        if gem['files'][-1]['num'] > 9999:
            for f in gem['files']:
                f['num'] -= 9000
    gems = [gem]
    if rng.random() < 0.3:
        other = world.pick_gem(rng, used=(gem['sn'],), nfiles=1, dur=40)
        if not (other['fmt'] == '0.8' or other.get('txt')) or not (gem['fmt'] == '0.8' or gem.get('txt')):
            gems.append(other)
    n = len(gem['files'])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        form = rng.choice(['all', 'all', 'array', 'list', 'int', 'range', 'beyond'])
        idx = sorted(rng.sample(range(n), 1 if form == 'int' else rng.randint(1, n)))
        calls.append({'form': form, 'idx': idx, 'shuffle': rng.random() < 0.3, 'gps': rng.random() < 0.75, 'path': rng.choice(['str', 'str', 'slash', 'path', 'abs']),
                      'network': rng.choice(['', '', 'XP', 'YJ']), 'station': rng.choice(['', '', 'PARK', 'A1']), 'location': rng.choice(['', '', '00', '01']),
                      'debug': rng.random() < 0.15, 'units': rng.choice([None] * 12 + ['Pa', 'V', 'counts'])})
    scn = {'field': world.random_field(rng, scale=rng.choice([60, 300, 1000])), 'gems': gems, 'calls': calls,
           'extra_files': rng.choice([[], [], ['README', 'FILE00A1.055', '._FILE0000.055', 'FILE0007.XYZ']]), 'events': []}
    if rng.random() < 0.15:
        scn['events'].append({'act': 'eio', 'cls': ['openr', 'read', 'stat'], 'path': '/raw/', 'at': round(rng.random(), 4), 'count': rng.choice([1, 1, -1]), 'errno': 5})
    return scn


def arguments(scn, c, lg, root):
    have = [lg.files[j].num for j in c['idx'] if j < len(lg.files)]
    if not have:
        return None
    kw = {'SN': lg.spec['sn'], 'require_gps': c['gps']}
    nums = list(have)
    if c['shuffle']:
        nums = nums[::-1] + nums[:1]
    if c['form'] == 'array':
        kw['nums'] = np.array(nums)
    elif c['form'] == 'list':
        kw['nums'] = nums
    elif c['form'] == 'int':
        kw['nums'] = int(nums[0])
    elif c['form'] == 'range':
        kw['nums'] = np.arange(min(have), max(have) + 1)
        have = [f.num for f in lg.files if min(have) <= f.num <= max(have)]
    elif c['form'] == 'beyond':
        nos = {f.num for f in lg.files}
        kw['nums'] = nums + [x for x in (0, 5000, 9999) if x not in nos]
    else:
        have = [f.num for f in lg.files]
    for k in ('network', 'station', 'location'):
        if c[k]:
            kw[k] = c[k]
    if c['debug']:
        kw['return_debug_output'] = True
    if c['units']:
        kw['units'] = c['units']
    path = {'str': 'raw', 'slash': 'raw/', 'path': pathlib.Path('raw'), 'abs': root + '/raw'}[c['path']]
    return path, kw, sorted(set(have))


def summary(path, kw):
    """For runs on the simulated host."""
    import gemlog
    L = gemlog.read_gem(path, **kw)
    return {'data': [(str(t.stats.starttime), t.stats.npts, int(t.data.astype('int64').sum())) for t in L['data']], 'gps': len(L['gps']), 'metadata': len(L['metadata']),
            'problems': [str(x) for x in L.get('problems', [])]}


def check(scn, ctx, lg, c, L, have, n_call):
    sn, fmt = lg.spec['sn'], lg.spec['fmt']
    for key in ('data', 'header', 'metadata', 'gps'):
        if key not in L:
            return ctx.bad('result', 'the result has no %r, only %s' % (key, sorted(L)))
    want_id = '.'.join([c['network'], c['station'] or sn, c['location'], 'HDF'])
    traces = [('read_gem', tr) for tr in L['data'].split()]
    for _, tr in traces:
        if tr.id != want_id:
            ctx.bad('trace_id', 'asked for %s, got %s' % (want_id, tr.id))
            return
    scale = 1.0
    if c['units'] in ('Pa', 'V'):
        scale = sensitivity(sn)[c['units'] == 'Pa'] * (2 if lg.spec.get('gain') else 1)
        y = np.concatenate([np.asarray(t.data, float) for _, t in traces]) if traces else np.zeros(0)
        if len(y) and np.abs(y).max() > 20 and np.all(y == np.round(y)):
            ctx.bad('units', 'units=%r was asked for, the data are whole numbers up to %.0f: counts' % (c['units'], np.abs(y).max()), 'counts')
            scale = 1.0
    J = oracle.Judge(ctx, lg, traces, scale=scale)
    J.fts = [ft for ft in J.fts if ft.f.num in have]
    wild = any(ft.wave == 'unknown' for ft in J.fts)
    free = not c['gps'] and any(ft.status != 'must' for ft in J.fts)
    J.check_grid()
    if not free:
        if not wild:
            J.check_unique()
            J.check_invented()
        J.check_wave()
        J.check_complete()
        rest, J.fts = J.fts, [ft for ft in J.fts if not (ft.f.name.endswith('TXT') and ft.kinds & {'snline', 'nohdr'})]
        J.check_reported(' '.join(str(x) for x in L.get('problems', [])))
        J.fts = rest
    elif not wild and len(J.fts) == 1 and J.fts[0].ndata > 100 and J.fts[0].wave == 'exact' and not J.fts[0].kinds & {'version', 'snline', 'nohdr', 'gpsstep', 'gpsoutlier', 'gpswild'}:
        ft = J.fts[0]
        d = np.diff(ft.f.ms[:ft.ndata]) * device.TICK
        if np.all(d > 0) and np.all(d < 0.98):
            want = sum(b - a for a, b in oracle.seg_bounds(np.concatenate([[0], np.cumsum(d)]))) / 0.01
            got = sum(t.stats.npts for _, t in traces)
            slack = 4 + 4 * np.sum(d > 0.0251) + (6 if ft.tail_suspect else 0) + want * 2e-3
            if abs(got - want) > slack:
                ctx.bad('forced_length', '%s (faults %s): %d samples returned without requiring GPS, %.0f recorded' % (ft.f.name, sorted(ft.kinds), got, want))
    # header: one row per file read, true figures for the intact ones
    H = L['header']
    files = [os.path.basename(str(x)) for x in H['file']]
    allowed = [ft.f.name for ft in J.fts if ft.f.on_card and len(ft.f.data) > 10]
    if len(set(files)) != len(files) or not set(files) <= set(allowed) or files != sorted(files):
        ctx.bad('header_files', 'selected files %s, header rows for %s' % (allowed, files))
        return
    for ft in J.fts:
        if ft.status != 'must' or ft.wave != 'exact' or ft.f.name not in files:
            if ft.status == 'must' and ft.f.name not in files:
                ctx.bad('header_files', 'no header row for %s, which is undamaged; rows %s' % (ft.f.name, files))
            continue
        r = H.iloc[files.index(ft.f.name)]
        what = 'header of %s (faults %s): ' % (ft.f.name, sorted(ft.kinds))
        if r['SN'] != sn:
            ctx.bad('header', what + 'SN %r' % (r['SN'],), 'SN')
        slack = 1 if ft.tail_suspect else 0
        if not ft.ndata - slack <= r['num_data_pts'] <= ft.ndata:
            ctx.bad('header', what + 'num_data_pts %r, recorded %d' % (r['num_data_pts'], ft.ndata), 'num_data_pts')
        g = [x for x in ft.fixes if -90 < x['lat'] < 90 and -180 < x['lon'] < 180 and x['lat'] != 0]
        for col in ('lat', 'lon'):
            v = sorted(x[col] for x in g)
            if not v[0] - 2e-5 <= float(r[col]) <= v[-1] + 2e-5 or abs(float(r[col]) - float(np.median(v))) > (5e-5 if 'gpswild' in ft.kinds else 2e-5):
                ctx.bad('header', what + '%s %r, median of its fixes %.5f' % (col, r[col], np.median(v)), col)
        tol = np.minimum(oracle.timing_tolerance(ft, ft.f.t[[0, ft.ndata - 1]]), 5.0) + 0.005
        for col, true, w in (('t1', ft.f.t[0], tol[0]), ('t2', ft.f.t[ft.ndata - 1], tol[1] + 0.02 * slack)):
            if not abs(float(r[col]) - true) <= w:
                ctx.bad('header', what + '%s %.4f, truly %.4f (allowed %.4f)' % (col, float(r[col]), true, w), col)
        if not abs(r['num_gps_pts'] - len(g)) <= len([x for x in ft.fixes if x not in g]):
            ctx.bad('header', what + 'num_gps_pts %r, it has %d' % (r['num_gps_pts'], len(g)), 'num_gps_pts')
        # the gain and configuration come from the first file that has its configuration line
        first = next((x for x in J.fts if x.f.on_card and len(x.f.data) > 10 and (x.kinds & {'version', 'snline', 'nohdr'} or x.wave != 'exact' or b'\nC,' in x.f.data[:x.f.data.rfind(b'\n')])), None)
        if fmt in ('0.8', '0.85', '0.85C'):
            first = next((x for x in J.fts if x.f.on_card and len(x.f.data) > 10), None)
        if first is not None and first.wave == 'exact' and not first.kinds & {'version', 'snline', 'nohdr'}:
            mul = 2 if lg.spec.get('gain') else 1
            for col, v in zip(('bitweight_V', 'bitweight_Pa'), sensitivity(sn)):
                if not abs(float(r[col]) / (v * mul) - 1) < 1e-6:
                    ctx.bad('header', what + '%s %r, should be %r (gain setting %r)' % (col, r[col], v * mul, lg.spec.get('gain')), col)
            cfg = lg.spec.get('cfg', [1, 15, 20, 0, 0]) if fmt not in ('0.8', '0.85', '0.85C') else [1, 15, 20, 0, 0]
            for col, v in zip(('gps_mode', 'gps_cycle', 'gps_quota', 'led_shutoff', 'serial_output'), cfg):
                if r[col] != v:
                    ctx.bad('header', what + '%s %r, its configuration line says %r' % (col, r[col], v), 'config')
            if str(r['file_format_version']) != fmt:
                ctx.bad('header', what + 'format %r, is %s' % (r['file_format_version'], fmt), 'format')
    # logs
    if not free:
        wrong = {(r[0], round(r[1], 6)) + r[2:] for ft in J.fts for r in fix_rows(ft, True)}
        G = L['gps']
        vals = [(int(y), round(float(d), 6), round(float(a), 5), round(float(o), 5), round(t.timestamp, 3)) for y, d, a, o, t in zip(G['year'], G['date'], G['lat'], G['lon'], G['t'])]
        vals = [v for v in vals if v not in wrong]
        judge(ctx, lg, J.fts, 'gps', vals, lambda ft: [r for r in ((r[0], round(r[1], 6)) + r[2:] for r in fix_rows(ft)) if r not in wrong], J.contributed, fmt)
        cols = ['batt', 'temp'] + ([] if fmt == '0.8' else ['A2', 'A3']) + ['maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle']
        M = L['metadata']
        mv = [tuple(round(float(x), 6) for x in row) for row in M[cols].to_numpy(dtype=float)]
        judge(ctx, lg, J.fts, 'metadata', mv, lambda ft: [r[0] for r in meta_rows(ft)], J.contributed, fmt)
        tt = M['t'].to_numpy(dtype=float) if 't' in M else None
        if tt is None or not wild and np.any(~np.isfinite(tt)):
            ctx.bad('metadata_time', 'status lines without time')
        ctx.note(vals, mv[:3], len(mv))
    if c['debug'] and 'debug_output' not in L:
        ctx.bad('result', 'return_debug_output was set and there is no debug_output')
    ctx.note(n_call, [(str(t.stats.starttime), t.stats.npts, float(np.sum(t.data))) for _, t in traces], files)
    return J


def execute(scn, ctx):
    import gemlog
    card = world.Card(scn, ctx.root + '/raw')
    for n in scn['extra_files']:
        if not os.path.exists('raw/' + n):
            with open('raw/' + n, 'wb') as f:
                f.write(b'\0\1not a raw file\n\n')
    lg = card.loggers[0]
    fts = oracle.truths(lg)
    before = hostconv.snapshot('raw')
    ctx.sim_seconds = world.sec(scn['gems'])
    for ft in fts:
        for k in ft.kinds:
            ctx.fault(k)
    for q, c in enumerate(scn['calls']):
        a = arguments(scn, c, lg, ctx.root)
        if a is None:
            continue
        path, kw, have = a
        sel = [ft for ft in fts if ft.f.num in have]
        musts = [ft for ft in sel if ft.status == 'must']
        keep = np.array(kw['nums']).tolist() if 'nums' in kw else None
        o = world.call(gemlog.read_gem, path, **kw)
        if keep is not None and np.array(kw['nums']).tolist() != keep:
            ctx.bad('argument_changed', 'the nums given were changed from %s to %s' % (keep, kw['nums']))
        J = None
        if o.kind == 'ok':
            J = check(scn, ctx, lg, c, o.value, have, q)
        elif musts:
            ctx.bad('failed', 'read_gem(%s) ended with %r although %s are undamaged; others %s' % (
                {k: v for k, v in kw.items()}, o, [m.f.name for m in musts], [(ft.f.name, sorted(ft.kinds)) for ft in sel if ft.kinds]), (o.error or '').split(':')[0])
        elif o.kind != 'exc':
            ctx.bad('failed', 'read_gem(%s) ended with %r' % (kw, o), o.kind)
        else:
            ctx.note(q, o.error)
            if not any(ft.data_bearing for ft in sel) and not any(ft.f.on_card and len(ft.f.data) > 10 for ft in sel) and not (o.error or '').startswith('MissingRawFiles'):
                ctx.bad('error_kind', 'nothing is there to be read, but the error is %s' % o.error)
        ctx.token(lg.spec['fmt'], c['form'], c['gps'], '+'.join(sorted({ft.status for ft in sel})), '+'.join(sorted({k for ft in sel for k in ft.kinds})[:2]), o.kind,
                  sum(J.contributed(ft) for ft in sel) if J else '-')
        if scn['events'] and q == 0:
            disk(scn, ctx, path, kw, o)
    if hostconv.snapshot('raw') != before:
        ctx.bad('raw_changed', 'reading changed the raw folder')


def disk(scn, ctx, path, kw, o):
    """On a failing disk: the same result, or an error, or the file that is missing is named."""
    ref = hostconv.call(ctx, ctx.root, summary, path, kw)
    if ref.kind != ('ok' if o.kind == 'ok' else 'exc'):
        return ctx.bad('failed', 'read_gem gave %r in one process and %r in another' % (o, ref))
    e = scn['events'][0]
    f = {'act': 'eio', 'cls': ['openr', 'read'], 'path': '/raw/', 'count': e['count']}
    n = sum(1 for q, c, p, arg, act in ref.hr.trace if c and matches(f, c, p))
    if not n:
        return
    f['nth'] = int(e['at'] * n)
    d = hostconv.call(ctx, ctx.root, summary, path, kw, plan={'faults': [f]})
    same = d.kind == ref.kind and d.end.get('value') == ref.end.get('value')
    ctx.token('disk', d.kind, same)
    if d.kind == 'ok' and not same and d.hr.fired:
        new = [x for x in d.end['value']['problems'] if ref.kind != 'ok' or x not in ref.end['value']['problems']]
        if not new:
            ctx.bad('disk_error_silent', 'with a disk error (%r) read_gem returned %s instead of %s without naming a problem' % (f, d.end['value'], ref.end.get('value')))
    r = hostconv.call(ctx, ctx.root, summary, path, kw)
    if r.kind != ref.kind or r.end.get('value') != ref.end.get('value'):
        ctx.bad('rerun', 'reading again after a disk error gave %r' % r)
