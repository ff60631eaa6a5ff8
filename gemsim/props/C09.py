"""C09: merging no-GPS raw files preserves the waveform, order and card."""
import math
import os
import random

import numpy as np

from .. import world, oracle, hostconv, device
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (format, data-line style, GPS pattern of the card, torn files, joints, failure kind and operation it hit) tuples; '
        'non-trivial: at least one joint between two raw files was judged or a failure struck')
REAL = ['gemlog.gem_cat.main, gem_cat, AppendFile and the raw readers below them', 'gemlog.convert on the merged card']
STUB = ['logger and card (gemsim/device.py)', 'kills, power losses, interrupts, disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['files before the first one with GPS cannot be merged and are left out (documented)',
               'times across a reboot inside a merged file are not judged (the counter says nothing about the pause)']
NMIN = 8


def generate(rng, i, tier):
    n = rng.choice([2, 3, 3, 4, 5, 7])
    gem = world.pick_gem(rng, nfiles=n, dur=rng.choice([40, 50, 60]))
    gem['gps'] = {'cycle': 0, 'quota': 0, 'noise': 0.05, 'lat': gem['gps']['lat'], 'lon': gem['gps']['lon'], 'delay': 0}
    if rng.random() < 0.5:
        gem['offset'] = rng.choice([0, 1, -1, 12000, -31000, 7])
    for k, f in enumerate(gem['files']):
        f['faults'] = []
        if rng.random() < (0.45 if k else 0.25):
            f['faults'].append({'kind': 'nogps'})
        if rng.random() < 0.15:                      # power loss while writing; then a restart
            f['faults'].append({'kind': 'torn', 'frac': round(rng.uniform(0.3, 1.0), 5)})
            if k + 1 < n:
                g = gem['files'][k + 1]
                g['reboot'], g['gap'], g['phase'] = True, round(rng.uniform(0.5, 30), 2), rng.randrange(device.ROLL[gem['fmt']])
        elif k and not f.get('reboot') and rng.random() < 0.15:
            f['gap'] = rng.choice([0.02, 0.5, 2.0])
        if rng.random() < 0.2:
            f['faults'].append({'kind': 'overrun', 'at': round(rng.uniform(1, 30), 2), 'n': rng.choice([1, 3, 30])})
    if rng.random() < 0.3:
        num = gem['num0']
        for f in gem['files']:
            f['num'] = num
            num += rng.choice([1, 2, 7])
        if gem['files'][-1]['num'] > 9999:
            for f in gem['files']:
                f['num'] -= 9000
    ev = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            f = {'act': rng.choice(['kill', 'kill', 'power', 'torn', 'powertorn', 'sigint', 'enospc', 'eio', 'eacces']), 'at': rng.random(),
                 'count': 1, 'seed': rng.randrange(1 << 30), 'path': rng.choice(['/merged', '/merged', None, '/raw'])}
            if f['act'] in ('torn', 'powertorn', 'enospc'):
                f['cls'], f['path'], f['arg'] = ['write'], '/merged', rng.choice([0, 0.3, 0.9])
            if f['act'] == 'eacces':
                f['cls'], f['path'] = ['openw', 'mkdir'], '/merged'
            if f['act'] == 'eio' and rng.random() < 0.6:
                f['cls'], f['path'], f['count'] = ['read'], '/raw', rng.choice([1, 1, -1])
            if f['path'] is None:
                del f['path']
            ev.append(f)
    other = rng.random() < 0.25 and not (gem['fmt'] == '0.8' or gem.get('txt'))
    gems = [gem]
    if other:
        o = hostconv.small_gem(rng, [gem['sn']], nfiles=1)
        if o['fmt'] == '0.8' or o.get('txt'):
            o['fmt'], o['txt'], o['style'] = '0.91', False, 'plain'
        gems.append(o)
    return {'field': world.random_field(rng, scale=rng.choice([12, 100, 1500])), 'gems': gems, 'events': ev,
            'all': rng.random() < 0.12, 'ext': 'TXT' if gem['fmt'] == '0.8' or gem.get('txt') else rng.choice([gem['sn']] * 3 + ([] if other else ['']))}


def decode(data, fmt):
    """Independent reading of a raw file's text: [(count mod rollover, value)], G lines, M lines (whole lines only)."""
    roll = device.ROLL[fmt]
    D, G, M, junk = [], [], [], []
    ms = v = None
    for line in data[:data.rfind(b'\n') + 1].split(b'\n')[:-1]:
        s = line.decode('latin1')
        c = s[:1]
        if c in 'RE' or len(s) == 1 and not 'a' <= c <= 'z':
            continue                         # what the firmware logs besides
        if c == 'G':
            G.append(s)
        elif c == 'M':
            M.append(s)
        elif c in '#SCP' or not c:
            continue
        elif c == 'D' and fmt in ('0.8', '0.85'):
            try:
                _, a, b = s.split(',')
                D.append((int(a) % roll, int(b)))
            except ValueError:
                junk.append(s)
        elif c == 'D':
            p = s[1:].split(',')
            try:
                if len(p) == 1:
                    ms, x = (ms + 10) % roll, int(p[0])
                elif len(p) == 2:
                    ms, x = int(p[0]) % roll, int(p[1])
                else:
                    raise ValueError
                v = x if v is None else v + x
                D.append((ms, v))
            except (ValueError, TypeError):
                junk.append(s)
        elif 'a' <= c <= 'z' and len(s) <= 2 and ms is not None:
            if len(s) == 2:
                ms, x = (ms + ord(s[0]) - 109 + 10) % roll, ord(s[1]) - 109
            else:
                ms, x = (ms + 10) % roll, ord(c) - 109
            v += x
            D.append((ms, v))
        else:
            junk.append(s)
    return D, G, M, junk


def groups(lg, whole):
    """Which raw files form each merged file."""
    out = []
    prev = None
    for f in lg.files:
        g = whole or b'\nG' in f.data[:f.data.rfind(b'\n') + 1]
        # a torn last line that begins with G is seen as GPS too
        if not whole and not g and f.data[f.data.rfind(b'\n') + 1:].startswith(b'G'):
            g = None
        if not out:
            if g is None:
                return None
            if g:
                out.append([f])
                prev = True
            continue
        if g is None:
            return None
        if whole or not g or not prev:
            out[-1].append(f)
        else:
            out.append([f])
        prev = g
    return out


def first_diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return k
    return min(len(a), len(b))


def execute(scn, ctx):
    import gemlog
    import importlib
    gc = importlib.import_module('gemlog.gem_cat')
    card = world.Card(scn, ctx.root + '/raw')
    lg = card.loggers[0]
    fmt = lg.spec['fmt']
    for d in ('ref', 'work'):
        os.makedirs(d)
    raw0 = hostconv.snapshot('raw')
    pattern = ''.join('N' if any(x['kind'] == 'nogps' for x in f.faults) else 'G' for f in lg.files)
    torn = [f.index for f in lg.files if any(x['kind'] == 'torn' for x in f.faults)]

    def merge(cwd, out, plan=None, said=None):
        if scn['all']:
            return None
        return hostconv.run(ctx, ctx.root + '/' + cwd, 'gem_cat', ['-i', '../raw', '-o', out, '-e', scn['ext']], plan=plan, stdout=said)
    if scn['all']:
        o = world.call(gc.gem_cat, 'raw', 'ref/merged', scn['ext'], cat_all=True)
        kind = o.kind
    else:
        ref = merge('ref', 'merged')
        kind = ref.kind
        o = ref
    want = groups(lg, scn['all'])
    if want is None:
        ctx.sim_seconds = world.sec(scn['gems'])
        return
    names = sorted(os.listdir('ref/merged')) if os.path.isdir('ref/merged') else []
    should = ['FILE%04d.%s' % (9999 if scn['all'] else k, lg.spec['sn']) for k in range(len(want))]
    sig = fmt
    if names != should:
        ctx.bad('merged_files', 'SN %s fmt %s GPS pattern %s torn %s: merged files are %s, should be %s (%r)' % (
            lg.spec['sn'], fmt, pattern, torn, names, should, o), sig=sig)
        return
    joints = 0
    for name, fs in zip(should, want):
        with open('ref/merged/' + name, 'rb') as fh:
            data = fh.read()
        D, G, M, junk = decode(data, fmt)
        wd, wg, wm = [], [], []
        for f in fs:
            d, g, m, j = decode(f.data, fmt)
            wd += d
            wg += g
            wm += m
        joints += len(fs) - 1
        for what, a, b in (('samples', D, wd), ('fixes', G, wg), ('status lines', M, wm)):
            if a != b:
                k = first_diff(a, b)
                ctx.bad('merged_' + what.split()[0], 'SN %s fmt %s: %s of %s, merged from %s (torn %s): %d, should be %d; first difference at %d: %r instead of %r' % (
                    lg.spec['sn'], fmt, what, name, [f.name for f in fs], torn, len(a), len(b), k, a[k:k + 2], b[k:k + 2]), sig=sig)
                break
        if junk:
            ctx.bad('merged_junk', '%s, merged from %s, holds unreadable lines %r' % (name, [f.name for f in fs], junk[:3]), sig=sig)
    if hostconv.snapshot('raw') != raw0:
        ctx.bad('raw_changed', 'merging changed the input folder')
    # what the merged card converts to
    if not ctx.violations:
        r = world.call(gemlog.convert, 'ref/merged', SN=lg.spec['sn'], convertedpath='conv', gpspath='cg', metadatapath='cm')
        r0 = world.call(gemlog.convert, 'raw', SN=lg.spec['sn'], convertedpath='conv0', gpspath='cg0', metadatapath='cm0')
        T, Y, _ = oracle.gather(world.read_out('conv')[0])
        t = T * 1e-9
        ctx.note(r.kind, len(T), int(Y.sum()))
        safe = [fs for fs in want if not any(f.clock is not fs[0].clock for f in fs)
                and all(b.t[0] - a.t[-1] < 0.9 for a, b in zip(fs, fs[1:]))]
        for fs in safe:
            fx = [x for f in fs for x in f.fixes]
            dur = fs[-1].t[-1] - fs[0].t[0]
            kinds = {x['kind'] for f in fs for x in f.faults}
            if 'torn' in kinds or len(fx) < 14 or fx[-1]['sec'] - fx[0]['sec'] < 0.6 * dur or any(np.any(np.diff(f.ms) > 960) for f in fs):
                continue
            for f in fs:
                lo, hi = f.t[0] + 0.05, f.t[-1] - 0.05
                if f is fs[0]:
                    lo = max(lo, math.ceil(t[0]) if len(t) else lo) + 1.01
                i0, i1 = np.searchsorted(t, [lo, hi])
                lost = sum(int(q['n']) for q in f.faults if q['kind'] == 'overrun')
                if i1 - i0 < (hi - lo) * 100 - 3 - lost - 4:
                    ctx.bad('merged_lost', 'SN %s fmt %s: %s, merged into %s files, converts to %d samples instead of %.0f (%r)' % (
                        lg.spec['sn'], fmt, f.name, len(fs), i1 - i0, (hi - lo) * 100, r.value if r.kind == 'ok' else r.error), sig=sig)
                    return
                gaps = [(f.t[k] - 0.06, f.t[k + 1] + 0.06) for k in np.where(np.diff(f.t) > 0.0151)[0]]
                tau = t[i0:i1]
                keep = np.ones(len(tau), bool)
                for a, b in gaps:
                    keep &= (tau < a) | (tau > b)
                e = Y[i0:i1] - lg.field.value(tau, 0.0) - lg.spec.get('offset', 0)
                lim = 3.0 + 1e-3 * lg.field.amp_bound() + lg.field.slope_bound() * 0.012
                if np.any(np.abs(e[keep]) > lim):
                    k = int(np.argmax(np.abs(e) * keep))
                    ctx.bad('merged_wave', 'SN %s fmt %s: %s, merged with %s, converts to a waveform off by %.1f counts (allowed %.1f) at %.2f' % (
                        lg.spec['sn'], fmt, f.name, [x.name for x in fs], e[k], lim, tau[k]), sig=sig)
                    return
    # interrupted merges
    struck = []
    if scn['events'] and not scn['all'] and not ctx.violations:
        for k, e in enumerate(scn['events']):
            n = sum(1 for p, c, path, arg, act in ref.hr.trace if c and matches(e, c, path.replace('/ref', '/work')))
            g = {x: e[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in e}
            g['nth'] = int(e['at'] * n)
            said = ctx.root + '/said%d' % k
            d = merge('work', 'merged', plan={'faults': [g]}, said=said)
            with open(said, errors='replace') as fh:
                claims = 'merged successfully' in fh.read()
            ctx.extra['claims_success'] = ctx.extra.get('claims_success', 0) + claims
            if claims and hostconv.snapshot('work/merged') != hostconv.snapshot('ref/merged'):
                ctx.bad('silent_damage', 'struck by %s the merge claims success but its output differs from an undisturbed one' % g, sig=sig)
            if d.kind == 'power':
                d.hr.lose_unsynced(random.Random(e['seed']))
            if d.hr.fired:
                from ..host import CLS
                op = next(((c, p) for q, c, p, arg, act in d.hr.trace if act and c), (0, ''))
                struck.append((e['act'], CLS.get(op[0]), op[1]))
                ctx.token(e['act'], CLS.get(op[0]), 'raw' if op[1].startswith('/raw') else 'out', d.kind)
        merge('work', 'merged')
        a, b = hostconv.snapshot('ref/merged'), hostconv.snapshot('work/merged')
        if a != b:
            ctx.bad('rerun_differs', 'after %s the rerun left: missing %s, extra %s, different %s' % (
                struck, sorted(set(a) - set(b)), sorted(set(b) - set(a)), sorted(x for x in a if x in b and a[x] != b[x])), sig=sig)
        if hostconv.snapshot('raw') != raw0:
            ctx.bad('raw_changed', 'an interrupted merge changed the input folder %s' % struck)
    if joints or struck:
        ctx.token(fmt, lg.spec.get('style'), pattern, len(torn), min(joints, 4), scn['all'], scn['ext'] == '')
    for f in lg.files:
        for x in f.faults:
            ctx.fault(x['kind'])
    ctx.extra['joints'] = ctx.extra.get('joints', 0) + joints
    ctx.sim_seconds = world.sec(scn['gems'])
    ctx.note(names, struck, sorted(hostconv.snapshot('ref/merged').items()))
