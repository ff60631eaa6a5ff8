"""Scenario generation for recordings, and running gemlog's conversion on them in process."""
import os
import random
import warnings

import numpy as np

from . import device
from .device import FORMATS, Logger, random_field

SN_OLD = ['014', '015', '016', '019', '008', '007']   # 0.8 cards (.TXT)
SN_MID = ['020', '025', '037', '040', '043', '046', '038', '041', '044', '047']
SN_NEW = ['049', '051', '055', '058', '059', '077', '091', '107', '108', '138', '161', '210', '050', '052', '054', '057', '100', '999']


def pick_t0(rng):
    """Start times that favour edges: day and hour ends, year ends, leap days, plain days."""
    r = rng.random()
    day = rng.choice([16801, 17166, 17531, 18321, 18322, 18627, 19000, 19357, 19722, 19782, 20088, 20270,
                      21914, 23376, 24855, 25200]) if rng.random() < 0.5 else rng.randint(16450, 22000)
    t = day * 86400.0
    if r < 0.3:
        t += 86400 - rng.uniform(5, 300)              # runs into midnight
    elif r < 0.45:
        t += 3600 * rng.randint(1, 23) - rng.uniform(5, 300)
    elif r < 0.55:
        t += rng.randint(0, 86399)                    # whole second
    else:
        t += rng.uniform(0, 86400)
    return round(t, 4)


def pick_drift(rng):
    r = rng.random()
    if r < 0.15:
        return [0, 0, 0]
    if r < 0.6:
        return [round(rng.uniform(-30, 30), 3), 0, 0]
    if r < 0.9:
        return [round(rng.uniform(-30, 30), 3), round(rng.uniform(-20, 20), 3), 0]
    return [round(rng.uniform(-60, 60), 3), round(rng.uniform(-40, 40), 3), round(rng.uniform(-40, 40), 3)]


def pick_gps(rng, dur):
    """A receiver pattern that is adequate for a file of this length."""
    r = rng.random()
    lat = round(rng.uniform(-85, 85), 5)
    lon = round(rng.uniform(-179, 179), 5)
    if rng.random() < 0.1:
        lat, lon = rng.choice([(89.5, 10.5), (-89.97, -179.9), (0.0123, 0.0456), (-0.5, 179.97), (71.3, -0.02)])
    g = {'cycle': 0, 'quota': 0, 'noise': rng.choice([0, 0.05, 0.1, 0.2]), 'lat': lat, 'lon': lon, 'delay': 0}
    if r > 0.4:
        # duty cycle: at least three bursts per file and at least 14 fixes
        c = max(8, int(dur / rng.uniform(3.2, 8)))
        need = int(np.ceil(15.0 * c / dur)) + 1
        if need < c:
            g['cycle'], g['quota'] = c, rng.randint(need, c - 1)
    if rng.random() < 0.15:
        g['lag'] = rng.choice([(300, 690), (0, 40), (500, 900)])       # how late the receiver's sentence comes
    return g


def pick_gem(rng, fmt=None, sn=None, nfiles=None, dur=None, used=()):
    fmt = fmt or rng.choice(FORMATS + ['0.91', '1.10', '1.10'])
    if sn is None:
        pool = {'0.8': SN_OLD, '0.85': SN_MID, '0.85C': SN_MID}.get(fmt, SN_NEW)
        pool = [x for x in pool if x not in used] or [x for x in SN_NEW + SN_MID + SN_OLD if x not in used]
        sn = rng.choice(pool)
    n = nfiles or rng.choice([1, 2, 2, 3, 3, 4, 6])
    if dur is None:
        dur = rng.choice([45, 60, 60, 90, 120]) if n > 2 else rng.choice([60, 90, 120, 240, 400])
    roll = device.ROLL[fmt]
    phase = rng.choice([0, rng.randrange(roll), roll - 1, roll - rng.randint(1, 2000), roll // 2])
    files = []
    for i in range(n):
        d = {'dur': round(dur * rng.uniform(0.9, 1.1), 2), 'gap': 0.0}
        files.append(d)
    g = {'sn': sn, 'fmt': fmt, 't0': pick_t0(rng), 'phase': phase, 'drift': pick_drift(rng),
         'gps': pick_gps(rng, dur), 'jitter': rng.choice([0, 0, 0, 1]),
         'style': rng.choice(['two', 'one', 'plain']) if fmt == '1.10' else 'plain',
         'gain': rng.choice([0, 0, 0, 1]) if fmt not in ('0.8', '0.85', '0.85C') else 0,
         'num0': rng.choice([0, 0, 1, 5, 11, 37, 230, 9970]) if rng.random() < 0.5 else 0,
         'offset': rng.choice([0, 0, 300, -2000, 15000]), 'seed': rng.randrange(1 << 30), 'files': files}
    if fmt in ('0.85', '0.85C', '0.9') and rng.random() < 0.15:
        g['txt'] = True
    if rng.random() < 0.3:
        for f in files:
            f['faults'] = []
    if rng.random() < 0.4:
        g['chatter'] = rng.choice([0.1, 0.5, 1])
    if rng.random() < 0.3:
        g.update(temp=rng.choice([-31.5, -0.3, 0, 48]), batt=rng.choice([0.9, 3.1, 9.55, 12.4]))
    if rng.random() < 0.3:
        g['cfg'] = [rng.choice([1, 2, 3]), rng.choice([5, 15, 60]), rng.choice([5, 20]), rng.randint(0, 1), rng.randint(0, 1)]
    return g


def add_gaps(rng, gem, p=0.3):
    """Reboots and pauses between files."""
    for f in gem['files'][1:]:
        r = rng.random()
        if r < p * 0.6:
            f['reboot'] = True
            f['gap'] = rng.choice([0.5, 1.0, round(rng.uniform(0.5, 20), 2), round(rng.uniform(20, 4000), 2)])
            f['phase'] = rng.choice([0, 1, rng.randrange(device.ROLL[gem['fmt']])])
            if rng.random() < 0.2:
                f['rel'] = rng.choice([0, 0, 1, -1, 9, -9])
        elif r < p:
            f['gap'] = rng.choice([0.01, 0.02, 0.03, 0.05, 0.1, 0.5, round(rng.uniform(0, 3), 2)])


def pick_field(rng, gem=None):
    if rng.random() < 0.2:
        f = random_field(rng)
        for c in f['comp']:
            c[1] = round(rng.uniform(6, 18), 4)
        return f
    if rng.random() < 0.75:
        return random_field(rng)
    return random_field(rng, scale=rng.choice([8, 12]))     # small steps: letter-coded lines


def sec(gems):
    return sum(f['dur'] + f.get('gap', 0) for g in gems for f in g['files'])


class Card:
    """The simulated card(s) of a scenario, written to a raw folder."""

    def __init__(self, scn, raw, field=None):
        self.raw = raw
        os.makedirs(raw, exist_ok=True)
        self.field = field or scn['field']
        self.loggers = [Logger(g, scn['field']) for g in scn['gems']]
        for lg in self.loggers:
            write(lg, raw)

    def by_sn(self, sn):
        for lg in self.loggers:
            if lg.spec['sn'] == sn:
                return lg


def write(lg, raw):
    for f in lg.files:
        if f.on_card:
            with open(os.path.join(raw, f.name), 'wb') as fh:
                fh.write(f.data)


class Outcome:
    """What a call of the program did."""

    def __init__(self):
        self.value = None
        self.error = None          # 'Type: message'
        self.exit = None
        self.kind = 'ok'

    def __repr__(self):
        return 'Outcome(%s %s %s)' % (self.kind, self.error, self.exit)

    def text(self):
        return '%s\n%s' % (self.value if self.kind == 'ok' else '', self.error or '')


def call(fn, *a, **k):
    o = Outcome()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o.value = fn(*a, **k)
    except SystemExit as e:
        o.kind, o.exit = 'exit', e.code
        o.error = 'SystemExit %r' % (e.code,)
    except KeyboardInterrupt:
        o.kind, o.error = 'interrupt', 'KeyboardInterrupt'
    except BaseException as e:
        o.kind, o.error = 'exc', '%s: %s' % (type(e).__name__, e)
    return o


def read_out(folder, fmt=None):
    """[(file name, Trace)] of every converted file (obspy reads it back), plus unreadable names."""
    import obspy
    out, bad = [], []
    if not os.path.isdir(folder):
        return out, bad
    for name in sorted(os.listdir(folder)):
        p = os.path.join(folder, name)
        try:
            st = obspy.read(p)
        except Exception as e:
            bad.append((name, '%s: %s' % (type(e).__name__, e)))
            continue
        for tr in st:
            out.append((name, tr))
    return out, bad


def tr_times(tr):
    t0 = tr.stats.starttime.ns
    return (t0 + np.arange(tr.stats.npts, dtype=np.int64) * 10_000_000)      # ns, 100 Hz
