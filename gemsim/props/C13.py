"""C13: single-file conversion is exact with GPS and best-effort only when forced."""
import contextlib
import io
import os

import numpy as np
from scipy.interpolate import CubicSpline

from .. import world, oracle, damage, hostconv
from ..device import TICK, Field
from .C01 import gps_faults
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (format, file condition class, GPS fault, forced or not, outcome class, output form, failure kind and operation it hit) tuples; '
        'non-trivial: at least one raw file was converted or refused')
REAL = ['gemlog.gemconvert_single.main, core._convert_one_file and everything below', 'gemlog.convert (the whole card, for comparison)']
STUB = ['logger firmware, oscillator, GPS receiver, ADC and card (gemsim/device.py)', 'disk errors, kills and torn writes at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['a forced file without usable GPS is judged by its shape at the nominal rate and by its fixes, not by the true time',
               'the command says that it failed on its output; its exit code is not judged']


def generate(rng, i, tier):
    gem = world.pick_gem(rng, nfiles=rng.choice([1, 2, 2, 3]))
    world.add_gaps(rng, gem, 0.3)
    k = rng.choice(['clean', 'gps', 'gps', 'gps', 'mix'])
    if k == 'gps':
        gps_faults(rng, gem, 0.8)
    elif k == 'mix':
        damage.damage(rng, gem, 0.8)
        if rng.random() < 0.5:
            gps_faults(rng, gem, 0.4)
    if rng.random() < 0.25:
        gem['gps'] = dict(gem['gps'], cycle=rng.choice([30, 600]), quota=rng.choice([1, 2, 5, 9]), delay=rng.choice([0, 5, 30]))
    scn = {'field': world.random_field(rng, scale=rng.choice([60, 300, 1000])), 'gems': [gem],
           'out': rng.choice([None, None, 'out/x.mseed', 'y.mseed', '/abs/z.mseed', 'y.sac']), 'events': []}
    if rng.random() < 0.35:
        f = {'act': rng.choice(['enospc', 'eio', 'eacces', 'enospc', 'kill', 'torn', 'eior']), 'at': rng.random(), 'force': rng.random() < 0.4, 'file': rng.randrange(3)}
        if f['act'] == 'eior':
            f.update(act='eio', cls=['openr', 'read'], path='/raw/')
        elif f['act'] in ('enospc', 'eio', 'torn'):
            f.update(cls=['write'], path='/work/', arg=rng.choice([0, 0.3, 0.9]))
        elif f['act'] == 'eacces':
            f.update(cls=['openw'], path='/work/')
        f['count'] = rng.choice([1, -1])
        scn['events'].append(f)
    return scn


def single(scn, ctx, name, force, tag):
    """Run the command in process. -> (kind, text, path of the output)"""
    import gemlog.gemconvert_single as m
    d = os.path.join(ctx.root, 'work', tag)
    os.makedirs(d + '/out')
    out = scn['out']
    if out and out.startswith('/'):
        out = d + out
        os.makedirs(os.path.dirname(out))
    argv = ['-i', os.path.join(ctx.root, 'raw', name)] + (['-o', out] if out else []) + (['-f'] if force else [])
    b = io.StringIO()
    old = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
            o = world.call(m.main, argv)
    finally:
        os.chdir(old)
    p = os.path.join(d, out or name + '.mseed')
    return o, b.getvalue() + (o.error or ''), p


def load(p):
    import obspy
    from glob import glob, escape
    ps = [p] if os.path.exists(p) else []
    if p.endswith('.sac') and not ps:              # one SAC file per stretch of a file with gaps
        ps = sorted(glob(escape(p[:-4]) + '[0-9][0-9].sac'))
    return [(os.path.basename(q), tr) for q in ps for tr in obspy.read(q)] or None


def nominal_ok(ctx, ft, tr, name):
    """The waveform of a forced file whose fixes cannot time it: right shape at the nominal rate; anchored at a fix."""
    f = ft.f
    n = ft.ndata
    c = (f.ms[:n] - f.ms[0]).astype(float) * TICK
    y = f.adc[:n].astype(float)
    T, Y, I = oracle.gather(tr)
    t = T * 1e-9
    rel = t - t[0]
    seg = oracle.seg_bounds(c, 0.0251)
    want = sum(b - a for a, b in seg if b - a > 0.05) / 0.01
    slack = 4 * len(seg) + (6 if ft.tail_suspect else 0)
    if len(t) < want - slack or len(t) > want + slack:
        ctx.bad('forced_length', '%s (faults %s): %d samples written, %.0f recorded' % (f.name, sorted(ft.kinds), len(t), want))
        return
    best = None
    parts = []
    for a, b in seg:
        w = (c >= a - 1e-6) & (c <= b + 1e-6)
        if w.sum() > 20:
            parts.append((a, b, CubicSpline(c[w], y[w])))
    for s in np.arange(-0.02, 0.0201, 0.0005):
        worst = 0.0
        for a, b, sp in parts:
            q = (rel + s > a + 0.05) & (rel + s < b - 0.07)
            if q.any():
                worst = max(worst, float(np.max(np.abs(Y[q] - sp(rel[q] + s)))))
        if best is None or worst < best[0]:
            best = (worst, s)
    S = Field(ctx.scn_field).slope_bound()
    lim = 2.5 + S * 0.0012
    if best[0] > lim:
        ctx.bad('forced_wave', '%s (faults %s): written waveform differs from the recorded one at the nominal rate by %.1f counts (allowed %.1f, lag %.4f s)' % (
            f.name, sorted(ft.kinds), best[0], lim, best[1]))
        return
    # the anchor: start time implied by each fix the file has
    start = float(t[0]) + best[1]
    fx = [x for x in ft.fixes if -90 < x['lat'] < 90 and -180 < x['lon'] < 180]
    if not fx:
        return 'none'
    c0 = float(f.clock.count(f.t[0]))
    anchors = [x['said'] - (x['pps'] - c0) * TICK for x in fx]
    drift = 2e-4 * float(f.t[n - 1] - f.t[0])
    if not min(anchors) - 0.02 - drift <= start <= max(anchors) + 0.02 + drift:
        ctx.bad('forced_anchor', '%s (faults %s, %d fixes): written from %.3f although its fixes say %.3f..%.3f' % (
            f.name, sorted(ft.kinds), len(fx), start, min(anchors), max(anchors)))
    return 'fix'


def execute(scn, ctx):
    import gemlog
    ctx.scn_field = scn['field']
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    sn = lg.spec['sn']
    os.makedirs(ctx.root + '/work', exist_ok=True)
    os.chdir(ctx.root)
    whole = world.call(gemlog.convert, 'raw', SN=sn, convertedpath='card', units='counts', file_length_hour=24)
    wt, _ = world.read_out('card')
    WT, WY, WI = oracle.gather(wt)
    raw0 = hostconv.snapshot('raw')
    for ft in oracle.truths(lg):
        f = ft.f
        exact = None
        for force in (False, True):
            o, text, p = single(scn, ctx, f.name, force, '%04d%s' % (f.num, 'f' if force else ''))
            try:
                tr = load(p)
            except Exception as e:
                ctx.bad('unreadable', '%s force=%s: the output cannot be read: %s: %s' % (f.name, force, type(e).__name__, e))
                continue
            others = [x for x in os.listdir(os.path.dirname(p)) if x != os.path.basename(p) and x != 'out' and not (x.endswith('.sac') and tr)]
            if others:
                ctx.bad('extra_files', '%s force=%s: also left %s' % (f.name, force, others))
            kind = 'none' if tr is None else 'written'
            n = sum(t.stats.npts for _, t in tr) if tr else 0
            ctx.note(f.name, force, kind, n, [(str(t.stats.starttime), t.stats.npts, int(t.data.astype('int64').sum())) for _, t in tr or []])
            ctx.token(lg.spec['fmt'], ft.status, '+'.join(sorted(ft.kinds)), 'force' if force else '', kind, scn['out'])
            if tr is None and f.name not in text:
                ctx.bad('silent', '%s force=%s: nothing was written and the command did not say so: %s' % (f.name, force, text[-300:]))
            if not f.on_card:
                if tr is not None:
                    ctx.bad('invented', 'output for the missing file %s' % f.name)
                continue
            J = oracle.Judge(ctx, lg, tr or [])
            J.fts = [ft]
            if tr is not None and not force:
                if ft.status == 'mustnot':
                    ctx.bad('not_refused', '%s (faults %s, %d fixes): written although its GPS is inadequate' % (f.name, sorted(ft.kinds), len(ft.fixes)),
                            sig='+'.join(sorted(ft.kinds)))
                else:
                    J.check_unique()
                    J.check_grid()
                    J.check_invented()
                    J.check_wave()
            if not force and ft.status == 'must':
                if tr is None:
                    ctx.bad('refused', '%s (fmt %s, faults %s) has adequate GPS but was refused: %s' % (f.name, lg.spec['fmt'], sorted(ft.kinds), text[-300:]))
                else:
                    J.check_complete()
            if not force and tr is not None and ft.wave == 'exact' and ft.status == 'must':
                exact = J
                t0, t1 = ft.interior(0.3)
                a0, a1 = np.searchsorted(J.t, [t0, t1])
                b0, b1 = np.searchsorted(WT * 1e-9, [t0, t1])
                com, ia, ib = np.intersect1d(J.T[a0:a1], WT[b0:b1], return_indices=True)
                near = [x for x in oracle.truths(lg) if abs(x.f.index - f.index) == 1 and x.wave != 'exact']
                if not near and whole.kind == 'ok':
                    if len(com) < 0.98 * (a1 - a0) - 5 and t0 > np.ceil(min(x.f.t[0] for x in oracle.truths(lg) if x.ndata)):
                        ctx.bad('card_differs', '%s: only %d of %d samples have the times that converting the whole card gives them' % (f.name, len(com), a1 - a0))
                    elif len(com):
                        e = np.abs(J.Y[a0:a1][ia] - WY[b0:b1][ib])
                        if e.max() > 1.5 + 1e-4 * J.field.slope_bound():
                            ctx.bad('card_differs', '%s: values differ by up to %.1f counts from converting the whole card' % (f.name, e.max()))
            if force:
                readable = ft.ndata > 60 and ft.wave == 'exact' and not (ft.kinds & {'version', 'snline', 'nohdr'}) and np.all(np.diff(f.ms[:ft.ndata]) < 960) \
                    and not ('torn' in ft.kinds and oracle.cut_info(f)[2] < 1) and np.all(np.diff(f.ms[:ft.ndata]) > 0)
                if not readable:
                    continue
                if tr is None:
                    ctx.bad('force_refused', '%s (fmt %s, faults %s, %d fixes): forced conversion wrote nothing: %s' % (
                        f.name, lg.spec['fmt'], sorted(ft.kinds), len(ft.fixes), text[-300:]), sig=lg.spec['fmt'])
                elif exact is not None:
                    if [(t.stats.starttime, t.stats.npts) for _, t in tr] != [(t.stats.starttime, t.stats.npts) for _, t in exact.traces] or \
                            not all(np.array_equal(a[1].data, b[1].data) for a, b in zip(tr, exact.traces)):
                        ctx.bad('force_differs', '%s has adequate GPS but forcing changes its conversion' % f.name)
                elif ft.status == 'mustnot' and not {'gpsstep', 'gpsoutlier', 'gpswild'} & ft.kinds:
                    J.check_unique()
                    J.check_grid()
                    n_un = len({x['sec'] for x in ft.fixes})
                    if n_un < 9:
                        ctx.token('anchor', nominal_ok(ctx, ft, tr, f.name), n_un)
                elif ft.status == 'mustnot':
                    J.check_unique()
                    J.check_grid()
        for k in ft.kinds:
            ctx.fault(k)
    if hostconv.snapshot('raw') != raw0:
        ctx.bad('raw_changed', 'a raw file was changed')
    # ---- the same command on a failing disk
    for g in scn['events'] if not (scn['out'] or '').endswith('sac') else []:
        fts = [x for x in oracle.truths(lg) if x.f.on_card]
        if not fts:
            break
        ft = fts[g['file'] % len(fts)]
        tag = '%04d%s' % (ft.f.num, 'f' if g['force'] else '')
        p0 = os.path.join(ctx.root, 'work', tag, scn['out'].lstrip('/') if scn['out'] else ft.f.name + '.mseed')
        want = hostconv.snapshot(os.path.dirname(p0)).get(os.path.basename(p0))
        d = os.path.join(ctx.root, 'work', 'faulty')
        os.makedirs(d + '/out', exist_ok=True)
        out = scn['out']
        if out and out.startswith('/'):
            os.makedirs(d + '/abs', exist_ok=True)
            out = d + out
        argv = ['-i', os.path.join(ctx.root, 'raw', ft.f.name)] + (['-o', out] if out else []) + (['-f'] if g['force'] else [])
        ref = hostconv.run(ctx, d, 'gemconvert_single', argv)
        p = os.path.join(d, out or ft.f.name + '.mseed')
        if os.path.exists(p):
            os.remove(p)
        n = sum(1 for q, c, path, arg, act in ref.hr.trace if c and matches(g, c, path))
        if not n:
            continue
        x = {k: g[k] for k in ('act', 'cls', 'path', 'count', 'arg') if k in g}
        x['nth'] = int(g['at'] * n)
        so = os.path.join(ctx.root, 'said.txt')
        r = hostconv.run(ctx, d, 'gemconvert_single', argv, plan={'faults': [x]}, stdout=so)
        said = open(so, errors='replace').read() if os.path.exists(so) else ''
        got = None
        if os.path.exists(p):
            import hashlib
            got = hashlib.sha1(open(p, 'rb').read()).hexdigest()[:16]
        if not r.hr.fired:
            continue
        ctx.token('disk', g['act'], '+'.join(g.get('cls', [])), r.kind, got == want, bool(got))
        if 'Exception ignored' in said:            # the interpreter's own note is not the command's report
            said = '\n'.join(x for x in said.split('\n') if not x.startswith((' ', 'Exception ignored', 'Traceback', 'OSError')))
        failed = r.kind != 'ok' or 'rrno' in said or 'rror' in said or 'ailed' in said or 'o space' in said
        if got != want and not failed:
            ctx.bad('disk_error_silent', '%s: %r made the output %s but the command reported nothing: %s' % (
                ft.f.name, x, 'incomplete' if got else 'missing', said[-200:]), sig=g['act'])
        again = hostconv.run(ctx, d, 'gemconvert_single', argv)
        if want is not None:
            import hashlib
            got = hashlib.sha1(open(p, 'rb').read()).hexdigest()[:16] if os.path.exists(p) else None
            if got != want:
                ctx.bad('rerun', '%s: running the command again after %r gave a different file (%r)' % (ft.f.name, x, again))
    ctx.sim_seconds = world.sec(scn['gems'])
