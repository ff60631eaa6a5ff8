"""C11: renaming and day-merging conserve every sample under the right codes."""
import os
import random
import shutil

import numpy as np

from .. import world, hostconv
from .C06 import matches

LEVEL = 'exploration'
RULE = ('distinct (operation, origin of the files, station-table form, name pattern, output format, layout of gaps and days, overlap, failure kinds and '
        'operations they hit) tuples; non-trivial: at least one sample had to be renamed or merged')
REAL = ['gemlog.rename_files, gemlog.merge_files_day, gem_network._get_station_info', 'obspy reading, merging and writing', 'gemlog.gemconvert (some folders)']
STUB = ['most converted folders are written by the simulator, in the layout of the real conversion', 'listing order, kills, power losses, torn writes, '
        'interrupts, disk errors at seeded file-system calls (gemsim/shim.c)']
ASSUMPTIONS = ['name patterns tell segments that start in different seconds apart', 'what a day file holds inside a gap is not judged (the tool fills it)']
NMIN = 12

PATTERNS = [None, None, None, '{net}.{sta}.{loc}.{chan}.{year}.{jd}.{hour}{min}{sec}.{fmt}', '{year}{mon}{day}_{hour}{min}{sec}_{sta}_{loc}_{net}.{fmt}',
            '{year}-{jd}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}']
DUR = {1: [0.5, 3, 20], 60: [60, 200, 400], 300: [400, 1500], 3600: [200, 2000, 4000]}


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    sns = rng.sample(world.SN_NEW + world.SN_MID + ['001'], n)
    t0 = world.pick_t0(rng)
    L = rng.choice([60, 60, 300, 3600])
    gems = []
    for sn in sns:
        segs = []
        t = round((t0 + rng.choice([0, 0, 0, 86400]) + rng.uniform(-L, L)) * 100)
        for k in range(rng.choice([1, 1, 2, 3])):
            d = int(rng.choice(DUR[L]) * rng.uniform(0.5, 1.2) * 100) + 1
            segs.append([t, d])
            t += d + rng.choice([0, 1, 3, 30, 60, 500, 30000, 100000 if L < 3600 else 3000])
        if rng.random() < 0.15:                    # a short segment and another within the same second
            t = t // 100 * 100 + 20
            segs += [[t, 20], [t + 40, 3000]]
        gems.append({'sn': sn, 'segs': segs, 'seed': rng.randrange(1 << 30), 'amp': rng.choice([5, 3000, 800000, 8000000]), 'nets': False})
    op = rng.choice(['rename', 'rename', 'merge', 'merge', 'both'])
    scn = {'gems': gems, 'op': op, 'L': L, 'listing': rng.randrange(1 << 20), 'fmt_in': rng.choice(['mseed'] * 4 + ['sac']),
           'fmt': rng.choice(['mseed', 'mseed', 'mseed', 'sac', 'MSEED']), 'pattern': rng.choice(PATTERNS) if op == 'rename' else None,
           'glob': rng.choice(['*', '*', '*.' + 'FMT', '2*', 'SN']), 'sn_glob': rng.choice(sns), 'out': rng.choice(['renamed', 'deep/er/out', 'with space']),
           'prior': rng.random() < 0.3, 'events': [], 'multi': rng.random() < 0.15}
    if scn['fmt'] == 'sac':
        scn['multi'] = False
    if op != 'merge':
        hdr = rng.choice(['SN,Network,Station,Location', 'SN,Network,Station,Location,Elevation', 'sn,station', 'Station,SN,Location,Network', None])
        rows = [[sn, rng.choice(['XP', 'NM', 'NA', '']), 'ST%02d' % k if rng.random() < 0.7 else 'A%s' % sn, rng.choice(['', '00', '01', '10'])]
                for k, sn in enumerate(sns) if rng.random() < 0.85]
        if rng.random() < 0.3 and len(rows) > 1:
            rows[1][1:3] = rows[0][1:3]
            rows[0][3], rows[1][3] = '00', '01'
        if not rows:
            rows = [[sns[0], 'XP', 'ST00', '']]
        rng.shuffle(rows)
        if rng.random() < 0.3:
            rows.insert(0, ['333', 'ZZ', 'NONE', ''])
        if hdr == 'sn,station' or hdr is None:
            rows = [[r[0], r[1] if hdr is None else '', 'S%s' % r[0], r[3] if hdr is None else ''] for r in rows]
        scn['table'] = {'header': hdr, 'rows': rows, 'df': rng.choice([None, None, 'plain', 'index'])}
    else:
        for g in gems:
            g['codes'] = rng.choice([None, None, ['XP', 'ST' + g['sn'], '00'], ['', 'S' + g['sn'], '']])
        if rng.random() < 0.3:                     # the same logger converted with and without codes
            gems.append(dict(gems[0], codes=['XP', gems[0]['sn'], ''] if not gems[0].get('codes') else None, seed=gems[0]['seed'] + 1))
    if rng.random() < 0.2:
        scn['dup'] = [rng.randrange(len(gems)), rng.random(), rng.random()]    # converted twice with another file length
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2])):
            f = {'act': rng.choice(['kill', 'kill', 'power', 'torn', 'powertorn', 'sigint', 'enospc', 'eio', 'eacces']), 'at': rng.random(), 'count': 1,
                 'seed': rng.randrange(1 << 30)}
            if f['act'] in ('torn', 'powertorn', 'enospc', 'eio'):
                f['cls'], f['path'], f['arg'] = ['write'], '/work/', rng.choice([0, 0.3, 0.9])
            elif f['act'] == 'eacces':
                f['cls'], f['path'] = rng.choice([['openw', 'mkdir'], ['openr']]), '/work/'
            else:
                f['path'] = '/work/'
                if rng.random() < 0.5:
                    f['cls'] = rng.choice([['write'], ['openw'], ['close'], ['mkdir']])
            if f['act'] in ('enospc', 'eio', 'eacces'):
                f['count'] = rng.choice([1, 2, -1])
            scn['events'].append(f)
    if rng.random() < 0.1 and op != 'merge' and not scn['multi']:
        g = hostconv.small_gem(rng, sns)
        world.add_gaps(rng, g, 0.5)
        scn['real'] = g
        scn['table']['rows'].append([g['sn'], '', 'REAL', ''])
    return scn


def cut(segs, L, offset=0):
    """Pieces of a recording as the conversion would file them (hundredths of seconds)."""
    out = []
    for t, d in segs:
        a = t
        while a < t + d:
            b = min(t + d, (a // (L * 100) + 1) * L * 100)
            out.append((a, b - a))
            a = b
    return out


def data_of(g, t0, n):
    """The logger's samples: any piece of a recording comes out the same."""
    x = np.arange(t0, t0 + n)
    r = (x * 2654435761 + g['seed']) % 4294967296
    return ((r >> 7) % (2 * g['amp'] + 1) - g['amp']).astype(np.int32)


def build(scn, folder):
    """Write the converted files; -> {file: (gem index, [(t, n)])}"""
    import obspy
    os.makedirs(folder)
    files = {}
    for k, g in enumerate(scn['gems']):
        pieces = cut(g['segs'], scn['L'])
        if scn.get('dup') and scn['dup'][0] == k:
            t, d = g['segs'][0]
            a = t + int(scn['dup'][1] * d)
            b = min(t + d, a + max(1, int(scn['dup'][2] * d)))
            if a // 100 not in [p[0] // 100 for p in pieces]:
                pieces = pieces + [(a, b - a)]
        net, sta, loc = g.get('codes') or ['', g['sn'], '']
        used = set()
        todo = [[p] for p in pieces]
        if scn.get('multi') and scn['fmt_in'] == 'mseed' and len(todo) > 1:
            j = next((j for j in range(len(todo) - 1) if todo[j][0][0] + todo[j][0][1] < todo[j + 1][0][0]), 0)    # with a gap inside if there is one
            todo[j] = todo[j] + todo.pop(j + 1)
        for ps in todo:
            st = obspy.Stream()
            for t, n in ps:
                h = {'network': net, 'station': sta, 'location': loc, 'channel': 'HDF', 'delta': 0.01, 'starttime': obspy.UTCDateTime(ns=t * 10 ** 7)}
                st += obspy.Stream([obspy.Trace(data_of(g, t, n).astype(np.int32 if scn['fmt_in'] == 'mseed' else np.float32), h)])
            u = st[0].stats.starttime
            stem = u.strftime('%Y-%m-%dT%H_%M_%S')
            if stem in used:
                stem += '_%02d' % (ps[0][0] % 100)
            used.add(stem)
            fn = '%s.%s.%s.%s.HDF.%s' % (stem, net, sta, loc, scn['fmt_in'])
            st.write(folder + '/' + fn, format=scn['fmt_in'], **({'encoding': 10} if scn['fmt_in'] == 'mseed' else {}))
            files[fn] = (k, ps)
    return files


def use(scn, op, src, out, tablefile):
    import gemlog
    import pandas as pd
    from gemlog import gem_network
    g = scn['glob'].replace('FMT', scn['fmt_in'])
    if g == 'SN':
        g = '*.%s.*' % scn['sn_glob']
    if op == 'rename':
        table = tablefile
        if scn['table']['df'] and scn['table']['header'] not in (None, 'sn,station'):
            table = pd.read_csv(tablefile, dtype=str, keep_default_na=False)
            table.columns = [{'sn': 'SN'}.get(c.lower(), c.lower()) for c in table.columns]
            if scn['table']['df'] == 'index':
                table.index = range(10, 10 + len(table))
        kw = {'outfile_pattern': scn['pattern']} if scn.get('pattern') else {}
        gemlog.rename_files(src + '/' + g, table, out, output_format=scn['fmt'], **kw)
    else:
        gemlog.merge_files_day(src, g, out)


def samples(path, fmt=None):
    """{id: (times in hundredths, values)} of one file, in file order."""
    import obspy
    out = {}
    for tr in obspy.read(path, format=fmt):
        t = round(tr.stats.starttime.ns / 1e7)
        if abs(tr.stats.starttime.ns / 1e7 - t) > 1e-3 or abs(tr.stats.delta - 0.01) > 1e-6:
            return 'a start time or sampling interval is off: %s' % tr
        a = out.setdefault(tr.id, [[], []])
        a[0].append(np.arange(t, t + len(tr.data), dtype=np.int64))
        a[1].append(np.asarray(tr.data, dtype=float))
    return {k: (np.concatenate(a[0]), np.concatenate(a[1])) for k, a in out.items()}


def table_of(scn):
    if not scn.get('table'):
        return None, None
    t = scn['table']
    names = ['sn', 'network', 'station', 'location']
    if t['header'] is None:
        keep, head = names, ''
    else:
        keep, head = [x.lower() for x in t['header'].split(',')], t['header'] + '\n'
    rows = {}
    lines = []
    for r in t['rows']:
        d = dict(zip(names, r), elevation='12')
        rows.setdefault(r[0], [d[x] if x in keep else '' for x in names[1:]])
        lines.append(','.join(d[x] for x in keep) + '\n')
    return head + ''.join(lines), rows


def check_rename(scn, ctx, files, truth, folder, table, prior, how):
    """truth: {file: [(t array, v array)]}"""
    import obspy
    pat = scn.get('pattern') or '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}'
    present = {f: f for f in (os.listdir(folder) if os.path.isdir(folder) else [])}
    claimed = set()
    for fn in sorted(files):
        sn = fn.split('.')[2]
        if sn not in table:
            continue
        net, sta, loc = table[sn]
        want_t, want_v = truth[fn]
        u = obspy.UTCDateTime(ns=int(want_t.min()) * 10 ** 7)
        d = {'year': '%04d' % u.year, 'mon': '%02d' % u.month, 'day': '%02d' % u.day, 'jd': '%03d' % u.julday, 'hour': '%02d' % u.hour,
             'min': '%02d' % u.minute, 'sec': '%02d' % u.second, 'net': net, 'sta': sta, 'loc': loc, 'chan': 'HDF', 'fmt': scn['fmt']}
        name = pat.format(**d)
        same = [f for f in files if f != fn and f.split('.')[2] == sn and f.split('.')[0][:19] == fn.split('.')[0][:19]]
        cands = [name] if not same else [f for f in present if f not in claimed and len(f) - len(name) in (0, 2, 3, 4) and f.startswith(name[:8]) and f.endswith(scn['fmt'])]
        ok = False
        why = 'no file %s; there are %s' % (name, sorted(set(present) - claimed)[:6])
        for c in cands:
            if c not in present:
                continue
            s = samples(folder + '/' + c, scn['fmt'].upper())
            if isinstance(s, str):
                why = s
                continue
            ids = list(s)
            if ids != ['%s.%s.%s.HDF' % (net, sta, loc)]:
                why = '%s carries the codes %s, the table says %s.%s.%s' % (c, ids, net, sta, loc)
                continue
            t, v = s[ids[0]]
            if len(t) != len(want_t) or not np.array_equal(np.sort(t), np.sort(want_t)):
                why = '%s has %d samples from %s, %s has %d from %s' % (c, len(t), t[:1], fn, len(want_t), want_t[:1])
                continue
            a, b = np.argsort(t, kind='stable'), np.argsort(want_t, kind='stable')
            if not np.allclose(v[a], want_v[b], rtol=1e-6, atol=0):
                why = 'the values of %s differ from those of %s' % (c, fn)
                continue
            claimed.add(c)
            ok = True
            break
        if not ok:
            ctx.bad('rename_' + ('codes' if 'codes' in why else 'lost'), '%s %s: %s' % (fn, how, why), sig='rename')
    for f in present:
        if f not in claimed and f not in prior:
            ctx.bad('rename_extra', 'an unexpected file %s %s' % (f, how), sig='extra')


def check_merge(scn, ctx, files, truth, ids, folder, prior, how):
    groups = {}
    for fn in sorted(files):
        groups.setdefault((fn.split('T')[0], '.'.join(fn.split('.')[1:])), []).append(fn)
    present = set(os.listdir(folder) if os.path.isdir(folder) else [])
    for (day, suffix), fns in sorted(groups.items()):
        name = '%sT00_00_00.%s' % (day, suffix)
        if name not in present:
            ctx.bad('merge_missing', 'no day file %s %s; there are %s' % (name, how, sorted(present)[:6]), sig='mergemiss')
            continue
        s = samples(folder + '/' + name)
        if isinstance(s, str):
            ctx.bad('merge_times', '%s: %s' % (name, s), sig='mergetime')
            continue
        if list(s) != [ids[fns[0]]]:
            ctx.bad('merge_ids', '%s holds %s, its files hold %s' % (name, list(s), ids[fns[0]]), sig='mergeid')
            continue
        t, v = s[ids[fns[0]]]
        o = np.argsort(t, kind='stable')
        t, v = t[o], v[o]
        if np.any(np.diff(t) == 0):
            ctx.bad('merge_twice', '%s holds %d samples twice %s' % (name, int((np.diff(t) == 0).sum()), how), sig='mergetwice')
            continue
        wt = np.concatenate([truth[f][0] for f in fns])
        wv = np.concatenate([truth[f][1] for f in fns])
        wt, first = np.unique(wt, return_index=True)
        wv = wv[first]
        if t[0] < wt[0] or t[-1] > wt[-1]:
            ctx.bad('merge_span', '%s spans %d-%d, its files %d-%d %s' % (name, t[0], t[-1], wt[0], wt[-1], how), sig='mergespan')
        pos = np.searchsorted(t, wt)
        pos[pos == len(t)] = 0
        hit = t[pos] == wt
        if not hit.all():
            ctx.bad('merge_lost', '%s lacks %d of %d samples of its files, first at %d %s' % (name, int((~hit).sum()), len(wt), wt[~hit][0], how), sig='mergelost')
        bad = ~np.isclose(v[pos][hit], wv[hit], rtol=1e-6, atol=0)
        if bad.any():
            ctx.bad('merge_values', '%s: %d of %d values differ from its files, first at %d %s' % (name, int(bad.sum()), len(wt), wt[hit][bad][0], how), sig='mergeval')
    extra = present - {'%sT00_00_00.%s' % k for k in groups} - set(prior)
    if extra:
        ctx.bad('merge_extra', 'unexpected files %s %s' % (sorted(extra)[:4], how), sig='mergeextra')


def execute(scn, ctx):
    import fnmatch
    base = ctx.root
    files = build(scn, base + '/src')
    if scn.get('real'):
        world.Card({'field': world.random_field(random.Random(3)), 'gems': [scn['real']]}, base + '/raw')
        hostconv.run(ctx, base + '/conv', 'gemconvert', ['-i', '../raw', '-s', scn['real']['sn'], '-p', '1', '-o', 'mseed'])
        p = base + '/conv/mseed'
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            nf = f
            if scn['fmt_in'] == 'mseed':
                shutil.copy(p + '/' + f, base + '/src/' + nf)
                files[nf] = (None, None)
    truth, ids = {}, {}
    for f in files:
        s = samples(base + '/src/' + f)
        if isinstance(s, str):
            raise AssertionError('harness: ' + s)
        ids[f] = list(s)[0]
        truth[f] = s[ids[f]]
    text, table = table_of(scn)
    g = scn['glob'].replace('FMT', scn['fmt_in'])
    if g == 'SN':
        g = '*.%s.*' % scn['sn_glob']
    chosen = sorted(f for f in files if fnmatch.fnmatch(f, g))
    ops = {'rename': ['rename'], 'merge': ['merge'], 'both': ['rename', 'merge']}[scn['op']]
    prior = []
    for w in ('ref', 'work'):
        os.makedirs(base + '/' + w)
        shutil.copytree(base + '/src', base + '/' + w + '/mseed')
        if text:
            with open(base + '/' + w + '/stations.txt', 'w') as f:
                f.write(text)
        if scn['prior']:
            os.makedirs(base + '/' + w + '/' + scn['out'])
            prior = ['notes.txt']
            with open('%s/%s/%s/notes.txt' % (base, w, scn['out']), 'w') as f:
                f.write('keep me\n')
    src_hash = hostconv.snapshot(base + '/src')
    os.chdir(base)
    src, cur, curtruth, curids = 'mseed', chosen, truth, ids
    gap = any(b[0] - a[0] - a[1] > 0 for g_ in scn['gems'] for a, b in zip(g_['segs'], g_['segs'][1:]))
    days = len({f[:10] for f in files})
    ran_all = []
    for step, op in enumerate(ops):
        out = scn['out'] if step == 0 else 'days'
        s2 = dict(scn, glob='*') if step else scn
        ref = hostconv.call(ctx, base + '/ref', use, s2, op, src, out, 'stations.txt', listing=scn['listing'] ^ 77, stdout=base + '/ref.txt')
        ran = []
        for f in scn['events']:
            n = sum(1 for p, c, path, arg, act in ref.hr.trace if c and matches(f, c, path.replace('/ref', '/work')))
            fg = {x: f[x] for x in ('act', 'cls', 'path', 'count', 'arg') if x in f}
            fg['nth'] = int(f['at'] * n)
            d = hostconv.call(ctx, base + '/work', use, s2, op, src, out, 'stations.txt', listing=scn['listing'], stdout=base + '/out.txt', plan={'faults': [fg]})
            if d.kind == 'power':
                d.hr.lose_unsynced(random.Random(f['seed']))
            if d.hr.fired:
                ran.append((f['act'], d.kind))
                ctx.token(op, f['act'], str(f.get('cls')), d.kind)
                if d.kind == 'ok' and f['act'] in ('enospc', 'eio', 'eacces'):
                    how = 'although a disk error (%s) struck and none was raised' % f['act']
                    if op == 'rename':
                        if chosen:
                            check_rename(scn, ctx, cur, curtruth, base + '/work/' + out, table, prior, how)
                    else:
                        check_merge(scn, ctx, cur, curtruth, curids, base + '/work/' + out, prior if step == 0 else [], how)
        ran_all += ran
        d = hostconv.call(ctx, base + '/work', use, s2, op, src, out, 'stations.txt', listing=scn['listing'], stdout=base + '/out.txt')
        how = '(after %s)' % (ran,) if ran else ''
        if d.kind != 'ok' and not cur:
            ctx.note('nothing to do', d.kind)
            return
        if d.kind != 'ok':
            ctx.bad(op + '_fails', '%s %s %s %s' % (op, how, str(d.end.get('value'))[:200], str(d.end.get('tb'))[-500:]), sig=op + 'fails')
            return
        if op == 'rename':
            check_rename(scn, ctx, cur, curtruth, base + '/work/' + out, table, prior, how)
        else:
            check_merge(scn, ctx, cur, curtruth, curids, base + '/work/' + out, prior if step == 0 else [], how)
        if op == 'rename' and hostconv.snapshot(base + '/work/' + out) != hostconv.snapshot(base + '/ref/' + out) and not ctx_bad(ctx):
            ctx.bad('order', 'the outputs depend on the listing order or on an earlier interrupted attempt %s' % how, sig='order')
        if hostconv.snapshot(base + '/work/mseed') != src_hash:
            ctx.bad('input_changed', 'an input file of %s was changed %s' % (op, how), sig='input')
        if scn['prior'] and open('%s/work/%s/notes.txt' % (base, scn['out'])).read() != 'keep me\n':
            ctx.bad('touched', 'another file of the output folder was changed', sig='touched')
        if len(ops) > 1 and step == 0:
            if ctx_bad(ctx):
                return
            src = out
            curtruth, curids = {}, {}
            cur = [f for f in sorted(os.listdir(base + '/work/' + out)) if f not in prior]
            for f in prior:
                os.unlink('%s/work/%s/%s' % (base, out, f))
                os.unlink('%s/ref/%s/%s' % (base, out, f))
            scn = dict(scn, prior=False)
            prior = []
            for f in cur:
                s = samples(base + '/work/' + out + '/' + f)
                curids[f] = list(s)[0]
                curtruth[f] = s[curids[f]]
    ctx.token(scn['op'], scn['fmt_in'], scn['fmt'], scn['table']['header'] if scn.get('table') else 0, scn['table']['df'] if scn.get('table') else 0,
              str(scn.get('pattern')), gap, min(days, 3), bool(scn.get('dup')), scn['glob'][:2], len(scn['gems']), bool(scn.get('real')), len(ran_all))
    ctx.sim_seconds = sum(d / 100 for g_ in scn['gems'] for t, d in g_['segs'])
    ctx.note(sorted(hostconv.snapshot(base + '/work').items()), ran_all)


def ctx_bad(ctx):
    return bool(ctx.violations)
