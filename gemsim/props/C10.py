"""C10: GPS summaries use the newest log and locate every logger robustly."""
import os
import random

import numpy as np

from .. import world, hostconv

LEVEL = 'exploration'
RULE = ('distinct (interface, kinds of the newest logs, log numbers, history lengths, outlier groups, time limits, selection, station-table form, '
        'folder form, host fault) tuples; non-trivial: at least one logger had more than one log, outliers, time limits or a station table')
REAL = ['gemlog.summarize_gps, read_gps, make_gem_inventory, get_gem_response, gem_network.summarize_gps_terminal',
        'gemlog.gemconvert (some logs), obspy inventory writing and reading']
STUB = ['most GPS logs are written by the simulator in the format the real conversion writes', 'listing order, disk faults (gemsim/shim.c)']
ASSUMPTIONS = ['stray fixes are at most 2% of a log and more than 0.005 degrees away (closer ones are within the scatter the method allows)',
               'folders are given, or the newest log of each logger; a newest log without any fix gives its logger no row']
NMIN = 20

KINDS = ['plain', 'plain', 'plain', 'outliers', 'outliers', 'elsewhere', 'empty', 'zero', 'torn', 'few']


def loggen(rng, g, kind=None, n=None):
    kind = kind or rng.choice(KINDS)
    n = n or rng.choice([100, 150, 400, 800])
    if kind == 'few':
        n = rng.choice([1, 2, 5, 30])
    d = {'kind': kind, 'n': n, 't0': g['t0'] + rng.choice([0, 0, 3600, 86400, -86400 * 30]), 'dt': rng.choice([1, 1, 10, 60]), 'out': []}
    if kind in ('outliers', 'elsewhere', 'torn'):
        room = max(1, int(n * 0.018))
        while room > 0 and len(d['out']) < 4:
            k = rng.randint(1, room) if kind == 'elsewhere' else 1
            room -= k
            far = rng.choice([0.006, 0.05, 1.0, 30.0, 1000.0])
            d['out'].append({'k': k, 'dlat': round(rng.choice([-1, 1, 0]) * min(far, 40) * rng.uniform(1, 1.4), 6), 'dlon': round(rng.choice([-1, 1]) * far * rng.uniform(1, 1.4), 6),
                             'where': rng.choice(['start', 'end', 'any'])})
            if kind == 'outliers' and rng.random() < 0.4:
                break
            if rng.random() < 0.4:
                break
    if kind == 'torn':
        d['cut'] = rng.randint(1, 60)
    return d


def generate(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    sns = rng.sample(world.SN_NEW + world.SN_MID + ['001'], n)
    gems = []
    base = rng.choice([0, 0, 0, 5, 8, 97, 997, 998])
    for sn in sns:
        g = {'sn': sn, 'lat': round(rng.uniform(-80, 80), 5), 'lon': round(rng.uniform(-179, 179), 5), 'sigma': rng.choice([0, 5e-6, 1e-5, 3e-5, 5e-5]),
             't0': float(rng.randint(1450000000, 1800000000)), 'seed': rng.randrange(1 << 30), 'logs': []}
        num = base if rng.random() < 0.6 else rng.choice([0, 9, 99, 999, 1000])
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            d = loggen(rng, g)
            d['num'] = num
            num += rng.choice([1, 1, 1, 2, 10])
            if rng.random() < 0.3:                      # an older conversion of data from another place
                d['move'] = [round(rng.uniform(-3, 3), 4), round(rng.uniform(-0.9, 0.9), 4)]
            g['logs'].append(d)
        gems.append(g)
    scn = {'gems': gems, 'api': rng.random() < 0.6, 'form': rng.choice(['dir', 'dir', 'slash', 'glob', 'list', 'files', 'two']),
           'listing': rng.randrange(1 << 20), 'name': rng.choice(['gps', 'gps', 'my gps', 'gps[1]', 'proj/gps']), 'junk': rng.sample(['README.txt', '077notes.txt', 'gps.csv', '.hidden', '077metadata_000.txt', '077gps_000.txt~', '138.txt'], rng.choice([0, 0, 2, 4]))}
    if '[' in scn['name'] and scn['form'] != 'files':
        scn['name'] = 'gps'
    if rng.random() < 0.35:
        g = rng.choice(gems)
        l = max(g['logs'], key=lambda x: x['num'])
        span = l['n'] * l['dt']
        a, b = sorted([rng.uniform(-0.2, 1.2), rng.uniform(-0.2, 1.2)])
        scn['t1'] = round(l['t0'] + a * span) if rng.random() < 0.8 else None
        scn['t2'] = round(l['t0'] + b * span) if rng.random() < 0.8 else None
        scn['tform'] = rng.choice(['str', 'utc'])
    if rng.random() < 0.3:
        scn['include'] = rng.sample(sns, rng.randint(1, n)) + rng.choice([[], ['444']])
    if rng.random() < 0.3:
        scn['exclude'] = rng.sample(sns, rng.randint(0, n - 1)) + rng.choice([[], ['555']])
        if not scn['exclude']:
            del scn['exclude']
    if rng.random() < 0.7:
        cols = ['SN', 'network', 'station', 'location', 'elevation']
        scn['table'] = {'header': rng.choice(['SN,Network,Station,Location,Elevation', 'sn,network,station,location,elevation', 'SN,Network,Station,Location',
                                              'SN,Network,Station,Elevation', 'sn,station', None, None]),
                        'rows': [[g['sn'], rng.choice(['XP', 'NM', 'NA', '']), 'ST%02d' % k if rng.random() < 0.7 else rng.choice(['NAN', '%d' % (k + 1), 'A%s' % g['sn']]),
                                  rng.choice(['', '00', '01', '10']), rng.choice(['1022', '3.5', '-9999', '0', ''])] for k, g in enumerate(gems) if rng.random() < 0.85],
                        'df': rng.random() < 0.3, 'shuffle': rng.randrange(1000)}
        scn['table']['nan'] = scn['table']['df'] and i % 2 == 0
        scn['table']['rows'] += rng.choice([[], [], [['333', 'ZZ', 'NONE', '', '7']]])
        if scn['table']['header'] and 'Elevation' not in scn['table']['header'] and rng.random() < .3:
            scn['table']['elev'] = False
        if rng.random() < 0.3 and len(scn['table']['rows']) > 1:      # two loggers of one station
            r = scn['table']['rows']
            r[1][1:3] = r[0][1:3]
            r[0][3], r[1][3] = '00', '01'
        r = scn['table']['rows']                      # the inventory is by code: codes are unique
        if len({tuple(x.values())[:3] for x in table_text(scn['table'])[1].values()}) < len(r):
            for k, x in enumerate(r):
                x[1], x[2] = 'XP', 'U%02d' % k
    if rng.random() < 0.2:
        scn['fault'] = {'act': rng.choice(['eio', 'eacces', 'short']), 'cls': ['read'], 'path': '/' + scn['name'] + '/', 'nth': rng.choice([0, 0, 1, 2, 5]), 'count': rng.choice([1, -1])}
        if scn['fault']['act'] == 'eacces':
            scn['fault']['cls'] = ['openr']
        if scn['fault']['act'] == 'short':
            scn['fault'].update(arg=0.3, count=-1, nth=0)
    if rng.random() < 0.12 and not scn.get('fault'):
        g = hostconv.small_gem(rng, sns)
        scn['real'] = {'gem': g, 'sn': g['sn'], 'kill': rng.random() if rng.random() < 0.5 else None, 'old': rng.random() < 0.5}
    return scn


def rows_of(g, d):
    """[(lat, lon, t, good)] of one log, as the conversion would have written it."""
    rng = random.Random('%d:%d' % (g['seed'], d['num']))
    if d['kind'] in ('empty', 'zero'):
        return []
    mv = d.get('move') or [0, 0]
    out = []
    for k in range(d['n']):
        e = [max(-3, min(3, rng.gauss(0, 1))) * g['sigma'] for _ in (0, 1)]
        out.append([round(g['lat'] + mv[0] + e[0], 5), round(g['lon'] + mv[1] + e[1], 5), d['t0'] + k * d['dt'], True])
    free = list(range(d['n']))
    for o in d['out']:
        for _ in range(o['k']):
            if len(free) < 3:
                break
            j = {'start': 0, 'end': len(free) - 1, 'any': rng.randrange(len(free))}[o['where']]
            j = free.pop(j)
            out[j][0] = round(max(-90, min(90, out[j][0] + o['dlat'])), 5)
            out[j][1] = round(max(-180, min(180, out[j][1] + o['dlon'])), 5)
            out[j][3] = False
    return out


def text_of(d, rows):
    import obspy
    if d['kind'] == 'zero':
        return '', []
    lines = ['year,date,lat,lon,t\n']
    for lat, lon, t, good in rows:
        u = obspy.UTCDateTime(t)
        lines.append('%d,%.9f,%.5f,%.5f,%s\n' % (u.year, u.julday + (t % 86400) / 86400, lat, lon, u))
    s = ''.join(lines)
    if d['kind'] == 'torn' and len(lines) > 3:
        c = d['cut'] % (len(lines[-1]) - 1) + 1
        s = s[:len(s) - c]
        rows = rows[:-1]
    return s, rows


def table_text(t):
    if t['header'] is None:
        keep = [0, 1, 2, 3, 4] if t.get('shuffle', 0) % 2 else [0, 1, 2, 3]
        head = ''
    else:
        names = [x.lower() for x in t['header'].split(',')]
        keep = [['sn', 'network', 'station', 'location', 'elevation'].index(x) for x in names]
        head = t['header'] + '\n'
    rows = {}
    for r in t['rows']:
        rows[r[0]] = {'network': r[1] if 1 in keep else '', 'station': r[2], 'location': r[3] if 3 in keep else '',
                      'elevation': float(r[4]) if 4 in keep and r[4] != '' else -9999.0}
    return head + ''.join(','.join(r[k] for k in keep) + '\n' for r in t['rows']), rows


def use(scn, paths, tablefile):
    """What the user does, inside the simulated process."""
    import gemlog
    import obspy
    from gemlog import gem_network
    out = {}
    if scn['api']:
        kw = {}
        for k in ('t1', 't2'):
            if scn.get(k) is not None:
                u = obspy.UTCDateTime(scn[k])
                kw[k] = str(u)[:19] if scn.get('tform') == 'str' else u
        if scn.get('include'):
            kw['include_SN'] = scn['include']
        if scn.get('exclude'):
            kw['exclude_SN'] = scn['exclude']
        table = tablefile
        if tablefile and scn['table']['df']:
            table = gem_network._get_station_info(tablefile) if hasattr(gem_network, '_get_station_info') else tablefile
            if scn['table'].get('nan'):            # as pandas reads blank fields by default
                for k in ('network', 'location'):
                    table[k] = table[k].replace('', float('nan'))
        coords = gemlog.summarize_gps(paths, station_info=table, output_file='coords.csv', **kw)
        out['rows'] = coords.to_dict('records')
        if tablefile and len(coords):
            inv = gemlog.make_gem_inventory(table, coords, gemlog.get_gem_response())
            inv.write('inv.xml', format='STATIONXML')
            out['inv'] = True
    else:
        a = list(paths) if isinstance(paths, list) else [paths]
        a += ['-o', 'net']
        if tablefile:
            a += ['-s', tablefile]
        if scn.get('include'):
            a += ['-i', ','.join(scn['include'])]
        if scn.get('exclude'):
            a += ['-x', ','.join(scn['exclude'])]
        for k, o in (('t1', '-1'), ('t2', '-2')):
            if scn.get(k) is not None:
                a += [o, str(obspy.UTCDateTime(scn[k]))[:19]]
        gem_network.summarize_gps_terminal(a)
    return out


def execute(scn, ctx):
    import obspy
    import pandas as pd
    work = ctx.root + '/work'
    os.makedirs(work)
    folder = work + '/' + scn['name']
    os.makedirs(folder)
    other = None
    truth = {}
    newest_files = []
    if scn['form'] == 'two':
        other = work + '/second_' + scn['name'].replace('/', '_')
        os.makedirs(other)
    for k, g in enumerate(scn['gems']):
        dest = folder
        if other and k % 2:
            dest = other
        best = None
        for d in g['logs']:
            rows = rows_of(g, d)
            s, rows = text_of(d, rows)
            fn = '%s/%sgps_%03d.txt' % (dest, g['sn'], d['num'])
            with open(fn, 'w') as f:
                f.write(s)
            if best is None or d['num'] >= best[0]:
                best = (d['num'], rows, d, fn)
        truth[g['sn']] = {'rows': best[1], 'lat': g['lat'] + (best[2].get('move') or [0, 0])[0], 'lon': g['lon'] + (best[2].get('move') or [0, 0])[1],
                          'sigma': g['sigma'], 'kind': best[2]['kind']}
        newest_files.append(best[3])
    for j in scn['junk']:
        with open(folder + '/' + j, 'w') as f:
            f.write('some notes\nof the user\n')
    if scn.get('real'):
        r = scn['real']
        if r['sn'] not in truth:
            world.Card({'field': world.random_field(random.Random(1)), 'gems': [r['gem']]}, ctx.root + '/raw')
            plan = {}
            gdir = os.path.relpath(folder, work)
            argv = ['-i', '../raw', '-s', r['sn'], '-g', gdir]
            # gemconvert has no option for the gps folder: convert in place, then move the log
            argv = ['-i', ctx.root + '/raw', '-s', r['sn'], '-p', '1']
            if r['kill'] is not None:
                plan = {'faults': [{'act': 'kill', 'path': '/conv/', 'nth': int(r['kill'] * 60)}]}
            os.makedirs(ctx.root + '/conv')
            hostconv.run(ctx, ctx.root + '/conv', 'gemconvert', argv, plan=plan)
            src = ctx.root + '/conv/gps'
            fs = sorted(os.listdir(src)) if os.path.isdir(src) else []
            fs = [f for f in fs if f.startswith(r['sn'])]
            if fs:
                with open(src + '/' + fs[-1], 'rb') as f:
                    data = f.read()
                n = 0
                if r['old']:
                    with open('%s/%sgps_000.txt' % (folder, r['sn']), 'w') as f:
                        f.write('year,date,lat,lon,t\n2001,1.0,1.0,1.0,2001-01-01T00:00:00.000000Z\n')
                    n = 1
                fn = '%s/%sgps_%03d.txt' % (folder, r['sn'], n)
                with open(fn, 'wb') as f:
                    f.write(data)
                newest_files.append(fn)
                rows = []
                for line in data.decode().split('\n')[1:-1]:
                    p = line.split(',')
                    rows.append([float(p[2]), float(p[3]), obspy.UTCDateTime(p[4]).timestamp, True])
                truth[r['sn']] = {'rows': rows, 'lat': r['gem']['gps']['lat'], 'lon': r['gem']['gps']['lon'], 'sigma': 2e-5, 'kind': 'real', 'real': True}
    tablefile = None
    table = None
    if scn.get('table'):
        text, table = table_text(scn['table'])
        table = table or None
        if table:
            tablefile = 'stations.txt'
            with open(work + '/stations.txt', 'w') as f:
                f.write(text)
    rel = os.path.relpath(folder, work)
    form = scn['form']
    if form == 'dir':
        paths = rel if scn['api'] else [rel]
    elif form == 'slash':
        paths = rel + '/'
    elif form == 'glob':
        paths = (os.path.dirname(rel) + '/' if '/' in rel else '') + os.path.basename(rel)[:-1] + '*' if scn['api'] else [rel]
    elif form == 'two':
        paths = [rel, os.path.relpath(other, work)]
    elif form == 'files':
        paths = [os.path.relpath(f, work) for f in newest_files]
    else:
        paths = [rel]
    before = hostconv.snapshot(work)
    plan = {'faults': [scn['fault']]} if scn.get('fault') else {}
    d = hostconv.call(ctx, work, use, scn, paths, tablefile, plan=plan, listing=scn['listing'], stdout=ctx.root + '/out.txt')
    after = hostconv.snapshot(work)
    for k, v in before.items():
        if after.get(k) != v:
            ctx.bad('inputs', 'an input file was changed: %s' % k, sig='inputs')
    t1, t2 = scn.get('t1'), scn.get('t2')
    want = {}
    for sn, t in truth.items():
        if scn.get('include') and sn not in scn['include']:
            continue
        if scn.get('exclude') and sn in scn['exclude']:
            continue
        rows = [r for r in t['rows'] if (t1 is None or r[2] >= t1) and (t2 is None or r[2] <= t2)]
        want[sn] = (rows, t)
    hurt = scn.get('fault') and scn['fault']['act'] != 'short' and any(k in d.hr.fired for k in ('eio', 'eacces'))
    ctx.token(scn['api'], form, sorted(t['kind'] for t in truth.values()), [len(g['logs']) for g in scn['gems']], t1 is not None, t2 is not None,
              bool(scn.get('include')), bool(scn.get('exclude')), scn['table']['header'] if table else 0, bool(hurt))
    ctx.sim_seconds = sum(l['n'] * l['dt'] for g in scn['gems'] for l in g['logs'])
    if hurt:
        if d.kind == 'ok' and scn['fault']['count'] == -1:
            pass
        if d.kind != 'ok':
            ctx.note('failed loudly', d.kind)
            return
    if d.kind != 'ok':
        ctx.bad('summary_fails', '%s %s' % (d.kind, str(d.end.get('value'))[:300] + ' ' + str(d.end.get('tb'))[-500:]), sig='fails')
        return
    csv = work + ('/coords.csv' if scn['api'] else '/net.csv')
    got = pd.read_csv(csv, dtype={'SN': str, 'network': str, 'station': str, 'location': str}, keep_default_na=False)
    rows = got.to_dict('records')
    if scn['api']:
        mem = d.end['value']['rows']
        if [r['SN'] for r in mem] != [r['SN'] for r in rows] or any(not abs(float(a['lat']) - float(b['lat'])) <= 1e-9 for a, b in zip(mem, rows)):
            ctx.bad('csv', 'the file written differs from the table returned: %s / %s' % (mem[:2], rows[:2]), sig='csv')
    bysn = {}
    for r in rows:
        bysn.setdefault(r['SN'], []).append(r)
    for sn in bysn:
        if sn not in want:
            ctx.bad('extra_row', 'a row for %s, which was not selected or has no log' % sn, sig='extra')
        elif len(bysn[sn]) != 1:
            ctx.bad('rows', '%d rows for %s' % (len(bysn[sn]), sn), sig='rows')
    for sn, (rs, t) in want.items():
        good = [r for r in rs if r[3]]
        if not rs:
            if sn in bysn:
                ctx.bad('stale_row', '%s has no fix in its newest log%s, yet got the row %s' % (
                    sn, ' in the time limits' if t['rows'] else '', bysn[sn][0]), sig='stale')
            continue
        few = len(good) < 50 * max(1, len(rs) - len(good)) and len(good) != len(rs)
        if few:
            continue                       # too few fixes in the time limits to tell which are stray
        if sn not in bysn:
            ctx.bad('no_row', '%s has %d fixes in its newest log (%s) but no row' % (sn, len(good), t['kind']), sig='norow')
            continue
        r = bysn[sn][0]
        n = len(good)
        tol = 0.5 * t['sigma'] + 5 * t['sigma'] / np.sqrt(n) + 6e-6
        la, lo = np.mean([x[0] for x in good]), np.mean([x[1] for x in good])
        if not (abs(float(r['lat']) - la) < tol and abs(float(r['lon']) - lo) < tol):
            ctx.bad('position', '%s: got %s %s, its newest log (%s, %d good of %d) says %.6f %.6f' % (sn, r['lat'], r['lon'], t['kind'], n, len(rs), la, lo), sig='pos')
        if not t.get('real') and not abs(la - t['lat']) + abs(lo - t['lon']) <= 2 * tol + 2e-5:
            raise AssertionError('harness: log does not say the true position')
        st, en = obspy.UTCDateTime(r['starttime']).timestamp, obspy.UTCDateTime(r['endtime']).timestamp
        a, b = min(x[2] for x in good), max(x[2] for x in good)
        if not (abs(st - a) <= 1e-3 and abs(en - b) <= 1e-3):
            ctx.bad('span', '%s: covers %s - %s, good fixes of its newest log within the limits %s - %s' % (sn, r['starttime'], r['endtime'], obspy.UTCDateTime(a), obspy.UTCDateTime(b)), sig='span')
        if not n <= int(r['num_samples']) <= len(rs):
            ctx.bad('count', '%s: num_samples %s, newest log has %d fixes (%d stray) in the limits' % (sn, r['num_samples'], len(rs), len(rs) - n), sig='count')
        for key, vals in (('lat_SE', [x[0] for x in good]), ('lon_SE', [x[1] for x in good])):
            se = np.std(vals) / np.sqrt(n)
            if not abs(float(r[key]) - se) <= 0.5 * se + 1e-9:
                ctx.bad('se', '%s: %s %s, expected %.3g' % (sn, key, r[key], se), sig='se')
        if table is not None:
            e = table.get(sn)
            if e is not None:
                if (str(r['network']), str(r['station']), str(r['location'])) != (e['network'], e['station'], e['location']) or float(r['elevation']) != e['elevation']:
                    ctx.bad('codes', '%s: row has codes %s.%s.%s elevation %s, table says %s' % (sn, r['network'], r['station'], r['location'], r['elevation'], e), sig='codes')
    # ---- the station inventory
    xml = work + ('/inv.xml' if scn['api'] else '/net.xml')
    if scn['api'] and not (tablefile and rows):
        ctx.note(sorted(bysn))
        return
    if not os.path.exists(xml):
        ctx.bad('no_inventory', 'no inventory was written', sig='noinv')
        return
    inv = obspy.read_inventory(xml)
    chans = {}
    for net in inv:
        for sta in net:
            for ch in sta:
                chans.setdefault((net.code or '', sta.code or '', ch.location_code or ''), []).append((ch, sta))
            for k in ('latitude', 'longitude', 'elevation'):
                v = [float(getattr(ch, k)) for ch in sta]
                if v and not min(v) - 1e-6 <= float(getattr(sta, k)) <= max(v) + 1e-6:
                    ctx.bad('inventory_station', 'station %s.%s has %s %s, its channels %s' % (net.code, sta.code, k, getattr(sta, k), v), sig='invsta')
            if net.start_date is not None and net.start_date > sta.start_date or net.end_date is not None and net.end_date < sta.end_date:
                ctx.bad('inventory_span', 'network %s %s - %s does not cover its station %s %s - %s' % (net.code, net.start_date, net.end_date, sta.code, sta.start_date, sta.end_date), sig='invspan')
    for sn, rr in bysn.items():
        r = rr[0]
        if table is not None and sn not in table:
            continue
        key = ('', sn, '') if table is None else (table[sn]['network'], table[sn]['station'], table[sn]['location'])
        if key not in chans:
            ctx.bad('inventory_missing', 'logger %s is not in the inventory under %s; it holds %s' % (sn, key, sorted(chans)), sig='invmiss')
            continue
        if len(chans[key]) != 1:
            ctx.bad('inventory_twice', 'logger %s is in the inventory %d times' % (sn, len(chans[key])), sig='invdup')
        ch, sta = chans[key][0]
        if not (abs(ch.latitude - float(r['lat'])) <= 1e-6 and abs(ch.longitude - float(r['lon'])) <= 1e-6 and abs(ch.elevation - float(r['elevation'])) <= 1e-6):
            ctx.bad('inventory_coords', '%s: inventory %s %s %s, summary %s %s %s' % (sn, ch.latitude, ch.longitude, ch.elevation, r['lat'], r['lon'], r['elevation']), sig='invpos')
        if ch.start_date > obspy.UTCDateTime(r['starttime']) or ch.end_date < obspy.UTCDateTime(r['endtime']) or sta.start_date > ch.start_date or sta.end_date < ch.end_date:
            ctx.bad('inventory_span', '%s: channel %s - %s, station %s - %s, recording %s - %s' % (
                sn, ch.start_date, ch.end_date, sta.start_date, sta.end_date, r['starttime'], r['endtime']), sig='invspan')
        if ch.code != 'HDF' or ch.sample_rate != 100 or ch.response is None or not ch.response.response_stages:
            ctx.bad('inventory_channel', '%s: %s %s' % (sn, ch.code, ch.sample_rate), sig='invchan')
        if not any(q is not None and str(q.serial_number) == sn for q in [ch.sensor] + list(ch.equipments or [])):
            ctx.bad('inventory_sn', '%s: channel carries no such serial number' % sn, sig='invsn')
    located = {('', sn, '') for sn in bysn} if table is None else {(e['network'], e['station'], e['location']) for s, e in table.items() if s in bysn}
    for key in chans:
        if key not in located and any(key) and not (table is not None and key == ('', '', '')):
            ctx.bad('inventory_extra', 'the inventory holds %s, which is no located logger' % (key,), sig='invextra')
    ctx.note(sorted((k, v[0]['num_samples']) for k, v in bysn.items()), sorted(chans))
