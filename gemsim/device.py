"""Simulated Gem data loggers: the "nodes" of the simulated world.

A logger has its own oscillator (drift polynomial, arbitrary millisecond-counter
phase and rollover), a GPS receiver with a duty cycle, a 100 Hz ADC looking at a
known pressure field, and an SD card.  It produces the bytes of raw files plus
the ground truth (true UTC time and value of every sample it acquired, every GPS
fix, every state-of-health line) that the oracles compare gemlog's output with.

Everything is a pure function of a JSON-able scenario dictionary.
"""
import datetime
import math
import random

import numpy as np

TICK = 0.001024           # seconds of true time per logger "millisecond"
SAMPLE_COUNTS = 0.01 / TICK   # 9.765625 counts between samples
LATENCY = 8.93            # ms-count of a sample lags its acquisition by this much
EPOCH = datetime.datetime(1970, 1, 1)

FORMATS = ['0.8', '0.85', '0.85C', '0.9', '0.91', '1.10']
ROLL = {'0.8': 2 ** 16, '0.85': 2 ** 16, '0.85C': 2 ** 13, '0.9': 2 ** 13,
        '0.91': 2 ** 13, '1.10': 2 ** 13}


# --------------------------------------------------------------- pressure field
class Field:
    """Sum of sinusoids in true time; a plane wave if slowness is given."""

    def __init__(self, spec):
        self.base = spec.get('base', 1.6e9)
        self.comp = spec['comp']          # list of [amp_counts, freq_hz, phase]

    def value(self, t, delay=0.0):
        u = np.asarray(t, dtype=float) - self.base - delay
        out = np.zeros_like(u)
        for a, f, ph in self.comp:
            out += a * np.sin(2 * np.pi * f * u + ph)
        return out

    def deriv(self, t, delay=0.0):
        u = np.asarray(t, dtype=float) - self.base - delay
        out = np.zeros_like(u)
        for a, f, ph in self.comp:
            out += a * 2 * np.pi * f * np.cos(2 * np.pi * f * u + ph)
        return out

    def slope_bound(self):
        return sum(abs(a) * 2 * np.pi * f for a, f, _ in self.comp)

    def curv_bound(self):
        return sum(abs(a) * (2 * np.pi * f) ** 2 for a, f, _ in self.comp)

    def amp_bound(self):
        return sum(abs(a) for a, f, _ in self.comp)

    def spline_bound(self):
        """Error of a cubic spline through samples every 10 ms (0.0004 of the amplitude at 10 Hz, 0.006 at 18 Hz)."""
        return sum(abs(a) * 0.0035 * (f / 15) ** 4.5 for a, f, _ in self.comp)


def random_field(rng, scale=None, fmax=6.0):
    if scale is None:
        scale = rng.choice([15, 60, 300, 2000, 12000])
    n = rng.randint(3, 6)
    comp = [[round(scale * rng.uniform(0.15, 0.5), 3), round(rng.uniform(0.15, fmax), 4),
             round(rng.uniform(0, 6.28), 4)] for _ in range(n)]
    return {'base': 1.6e9, 'comp': comp}


# ---------------------------------------------------------------------- clock
class Clock:
    """Oscillator since boot: count(u) for u true seconds after boot."""

    def __init__(self, boot, phase, drift):
        self.boot = boot
        self.phase = phase
        self.d = list(drift) + [0.0] * (3 - len(drift))   # ppm, ppm/h, ppm/h^2
        self.stalls = []                                  # (count, seconds): the counter stood still

    def _err(self, u):
        a, b, c = self.d
        h = u / 3600.0
        return 1e-6 * (a * u + b * h * u + c * h * h * u)

    def count(self, t):
        for c, length in self.stalls[::-1]:
            t1 = float(self.time(c))
            if float(t) > t1:
                return max(c, self._count(float(t) - sum(x for _, x in self.stalls)))
        return self._count(t)

    def _count(self, t):
        u = np.asarray(t, dtype=float) - self.boot
        return self.phase + (u + self._err(u)) / TICK

    def time(self, c):
        t = self._time(c)
        for c1, length in self.stalls:
            t = t + length * (np.asarray(c) > c1)
        return t

    def _time(self, c):
        v = (np.asarray(c, dtype=float) - self.phase) * TICK
        u = v
        for _ in range(4):
            u = v - self._err(u)
        return self.boot + u


class RawFile:
    """Ground truth of one raw file plus its bytes."""
    __slots__ = ('num', 'name', 'lines', 't', 'adc', 'ms', 'fixes', 'meta', 'faults', 'data',
                 'on_card', 'sn', 'fmt', 'index', 'line_off', 'kinds', 'hdr_end', 'lost', 'd_lines',
                 'clock', 'cut_line')


def _fmt_g(fmt, ms, lag, dt, lat, lon):
    if fmt in ('0.91', '1.10'):
        a = '%.2f,%.2f' % (ms, lag)
    else:
        a = '%d,%d' % (int(round(ms)), int(round(lag)))
    return 'G,%s,%d,%d,%d,%d,%d,%.1f,%.5f,%.5f\n' % (
        a, dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, lat, lon)


def header_lines(fmt, sn, cfg):
    c = 'C,%d,%d,%d,%d,%d,%d\n' % tuple(cfg)
    g = '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon\n'
    m = ('#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,'
         'freeStackIdle\n')
    m8 = '#M,ms,batt(V),temp(C),maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle\n'
    s = 'S,%s\n' % sn
    if fmt == '1.10':
        return ['#GemCSV1.10\n', '#adcMSSAMP\n', '#DmsSamp,ADC\n', g, m, s, '#Firmware0.962\n', c]
    if fmt in ('0.91', '0.9'):
        return ['#GemCSV%s\n' % fmt, '#DmsSamp,ADC\n', g, m, s, '#Firmware0.951\n', c]
    if fmt == '0.85C':
        return ['#GemCSV0.85C\n', '#DmsSamp,ADC\n', g, m, s, '#Firmware0.85\n']
    if fmt == '0.85':
        return ['#GemCSV0.85\n', '#D,msSamp,ADC\n', g, m, s, '#Firmware0.85\n']
    return ['#GemCSV0.8\n', '#D,msSamp,ADC\n', g, m8, s, '#Firmware0.8\n']


class Logger:
    """Run one simulated Gem.  spec keys:
    sn fmt num0 t0 phase drift gps{cycle,quota,noise,lat,lon,delay,mode} cfg gain delay
    files[{dur, gap, reboot, drift?, faults[...]}] seed field jitter style offset
    """

    def __init__(self, spec, field):
        self.spec = spec
        self.field = Field(field)
        self.files = []
        self._run()

    def _run(self):
        s = self.spec
        fmt = s.get('fmt', '0.91')
        rng = random.Random('dev:%s:%s' % (s['sn'], s.get('seed', 0)))
        nrng = np.random.Generator(np.random.PCG64(rng.getrandbits(63)))
        roll = ROLL[fmt]
        clock = Clock(s['t0'], s.get('phase', 0), s.get('drift', [0, 0, 0]))
        k = 0                       # next sample index since boot
        gps_origin = s['t0']
        for i, f in enumerate(s['files']):
            gap = f.get('gap', 0.0)
            if f.get('reboot'):
                # power loss: the counter restarts at an unrelated phase, samples are lost
                boot = float(clock.time(clock.phase + k * SAMPLE_COUNTS)) + max(gap, 0.5)
                phase = f.get('phase', rng.randrange(0, roll))
                if f.get('rel') is not None and self.files and len(self.files[-1].ms):
                    # the counter comes back at (or next to) the value it had when power was lost
                    phase = (int(self.files[-1].ms[-1]) + LATENCY + f['rel']) % roll
                clock = Clock(boot, phase, f.get('drift', s.get('drift', [0, 0, 0])))
                gps_origin = boot
                k = 0
            elif gap:
                k += int(round(gap / 0.01))
            n = int(round(f['dur'] / 0.01))
            idx = np.arange(k, k + n)
            k += n
            lost = np.zeros(n, dtype=bool)
            for ft in f.get('faults', ()):
                if ft['kind'] == 'overrun':
                    a = int(ft['at'] / 0.01)
                    lost[a:a + int(ft['n'])] = True
            self.files.append(self._file(i, f, clock, idx, lost, fmt, roll, rng, nrng, gps_origin))

    def _file(self, i, f, clock, idx, lost, fmt, roll, rng, nrng, gps_origin):
        s = self.spec
        r = RawFile()
        r.index = i
        r.sn = s['sn']
        r.fmt = fmt
        r.num = f.get('num', s.get('num0', 0) + i)
        ext = 'TXT' if (fmt == '0.8' or s.get('txt')) else s['sn']
        r.name = 'FILE%04d.%s' % (r.num, ext)
        r.faults = list(f.get('faults', ()))
        r.clock = clock
        kinds = {x['kind']: x for x in r.faults}
        c_all = clock.phase + idx * SAMPLE_COUNTS
        stalled = []
        if 'stall' in kinds and not clock.stalls:      # at most one since boot
            clock.stalls.append((float(c_all[int(kinds['stall']['frac'] * len(c_all))]) + 0.5, kinds['stall']['by']))
            a = float(clock.time(clock.stalls[0][0]))
            stalled = [a, a + clock.stalls[0][1]]
        keep = ~lost
        c = c_all[keep]
        t = clock.time(c)
        adc = np.round(self.field.value(t, s.get('delay', 0.0)) + s.get('offset', 0)).astype(np.int64)
        r.t, r.adc = t, adc
        logged = c - LATENCY
        if s.get('jitter'):
            logged = logged + nrng.integers(-s['jitter'], s['jitter'] + 1, size=len(logged)) * 0.5
        ms = np.round(logged).astype(np.int64)
        ms = np.maximum.accumulate(ms)     # the counter never runs backwards
        r.ms = ms
        r.lost = lost
        # --- GPS fixes
        g = s['gps']
        fixes = []
        tstart, tend = t[0], t[-1]
        # a fix is logged a while after its pulse: it may land in the next file
        lag0, lag1 = g.get('lag', (50, 400))
        before = lag1 / 1000 if i > 0 and not f.get('reboot') and self.files and self.files[-1].clock is clock else 0.0
        sec = int(math.ceil(tstart - before + 1e-9))
        sec0 = max(sec, int(math.ceil(tstart)))
        lat0, lon0 = g['lat'], g['lon']
        gi = 0
        while sec < tend - 0.07:
            el = sec - gps_origin
            on = el >= g.get('delay', 0)
            if on and g.get('cycle', 0):
                on = ((el - g.get('delay', 0)) % g['cycle']) < g['quota']
            for ft in r.faults:
                if ft['kind'] == 'nogps':
                    on = False
                elif ft['kind'] == 'gpsgap' and ft['a'] <= sec - tstart <= ft['b']:
                    on = False
                elif ft['kind'] == 'gpsfew' and gi >= ft['n']:
                    on = False
            if stalled and stalled[0] - 0.1 <= sec <= stalled[1] + 0.1:
                on = False
            noise = g.get('noise', 0.1) * rng.gauss(0, 1)
            noise = max(-3 * g.get('noise', 0.1), min(3 * g.get('noise', 0.1), noise))
            dlat, dlon = rng.gauss(0, 1) * 1e-5, rng.gauss(0, 1) * 1e-5
            lag = lag0 + (sec * 7919) % (lag1 - lag0) + rng.random()
            if not tstart < sec + lag / 1000 < tend - 0.005:
                on = False
            if on:
                pps = float(clock.count(sec)) + noise
                fixes.append({'sec': sec, 'pps': pps, 'lag': lag, 'lat': lat0 + dlat,
                              'lon': lon0 + dlon, 'said': sec})
                gi += 1
            sec += 1
        for ft in r.faults:
            if ft['kind'] == 'gpsstep' and fixes:
                j = int(ft['frac'] * len(fixes))
                for x in fixes[j:]:
                    x['said'] += ft['by']
            elif ft['kind'] == 'gpsoutlier' and fixes:
                for fr, by in ft['pts']:
                    fixes[int(fr * (len(fixes) - 1))]['said'] += by
            elif ft['kind'] == 'gpswild' and fixes:
                for fr, dla, dlo in ft['pts']:
                    x = fixes[int(fr * (len(fixes) - 1))]
                    x['lat'] += dla
                    x['lon'] += dlo
            elif ft['kind'] == 'gpsdup' and fixes:
                j = int(ft['frac'] * (len(fixes) - 1))
                fixes.insert(j + 1, dict(fixes[j], dup=True))
        r.fixes = fixes
        # --- state of health, once per second
        meta = []
        mt = tstart + rng.uniform(0.1, 0.9)
        while mt < tend:
            meta.append({'t': mt, 'ms': int(round(float(clock.count(mt)))) + rng.randint(38, 46),
                         'batt': round(s.get('batt', 4.5) + rng.uniform(-0.02, 0.02), 2),
                         'temp': round(s.get('temp', 20.0) + rng.uniform(-0.2, 0.2), 1),
                         'A2': round(rng.uniform(0.3, 0.6), 3), 'A3': round(rng.uniform(0.3, 0.6), 3),
                         'maxLag': rng.randint(10, 70), 'minFree': rng.randint(65, 75),
                         'maxUsed': rng.randint(1, 8), 'maxOver': 0, 'gpsFlag': rng.randint(0, 1),
                         'f1': 42, 'f2': 75})
            mt += 1.0
        r.meta = meta
        # --- interleave lines in the order the firmware would write them
        ev = []
        data_lines = self._data_lines(fmt, ms, adc, roll, rng)
        r.d_lines = data_lines
        pos = c
        for j, m in enumerate(meta):
            p = int(np.searchsorted(pos, m['ms'] - 44))
            ev.append((p, 1, j, self._m_line(fmt, m, roll)))
        for j, x in enumerate(fixes):
            p = int(np.searchsorted(pos, x['pps'] + (x['lag'] / TICK / 1000.0)))
            dt = EPOCH + datetime.timedelta(seconds=int(x['said']))
            pps = x['pps']
            if fmt in ('0.91', '1.10'):
                pps = round(pps * 4) / 4.0
            ev.append((p, 2, j, ('P,%.2f\n' % (pps % roll) if fmt in ('0.91', '1.10') else '') +
                       _fmt_g(fmt, pps % roll if fmt in ('0.91', '1.10') else int(round(pps)) % roll,
                              x['lag'], dt, x['lat'], x['lon'])))
        if s.get('chatter'):
            self._chatter(ev, r, pos, fmt, roll, sec0, tend)
        ev.sort(key=lambda e: (e[0], e[1], e[2]))
        cfg = s.get('cfg', [1, 15, 20, 0, 0])
        hdr = header_lines(fmt, s.get('hdr_sn', s['sn']), cfg[:3] + [f.get('gain', s.get('gain', 0))] + cfg[3:])
        out = list(hdr)
        r.hdr_end = sum(len(x) for x in hdr)
        last = 0
        for p, _, _, text in ev:
            if p > last:
                out.extend(data_lines[last:p])
                last = p
            out.append(text)
        out.extend(data_lines[last:])
        blob = ''.join(out).encode('ascii')
        r.on_card = True
        r.cut_line = None
        r.data = self._damage(r, blob, rng)
        return r

    def _chatter(self, ev, r, pos, fmt, roll, sec0, tend):
        """What the firmware logs besides: pulses and receiver sentences without a fix, errors."""
        s = self.spec
        rng = random.Random('chat:%s:%s:%d' % (s['sn'], s.get('seed', 0), r.index))
        fixed = {x['sec'] for x in r.fixes}
        for sec in range(sec0, int(tend)):
            p = int(np.searchsorted(pos, float(r.clock.count(sec)) + rng.uniform(100, 600)))
            dt = EPOCH + datetime.timedelta(seconds=sec)
            lines = []
            if sec not in fixed and rng.random() < s['chatter']:
                if fmt in ('0.91', '1.10') and rng.random() < 0.6:
                    lines.append('P,%.2f\n' % (float(r.clock.count(sec)) % roll))
                ok = rng.random() < 0.5
                lines.append('R,%s,$GPRMC,%02d%02d%02d.%03d,%s,%s,%.2f,%.2f,%02d%02d%02d,,,%s*%02X\n' % (
                    rng.choice('026') if ok else '6', dt.hour, dt.minute, dt.second, rng.choice([0, 0, 165, 896]), 'A' if ok else 'V',
                    '%09.4f,N,%010.4f,W' % (rng.uniform(0, 8999), rng.uniform(0, 17999)) if ok else ',,,',
                    rng.uniform(0, 12), rng.uniform(0, 360), dt.day, dt.month, dt.year % 100, 'A' if ok else 'N', rng.randrange(256)))
            if rng.random() < s['chatter'] / 20:
                if fmt in ('0.8', '0.85'):
                    lines += [c + '\n' for c in rng.choice(['$GPRMC', 'M', 'D', 'G', '1', 'A*7', 'V'])]
                else:
                    lines.append(rng.choice(['E,%d,%d,%.2f,%d\n' % (rng.randint(0, 3), rng.randint(0, 400000), rng.uniform(0, 20000), rng.randint(900, 1400)),
                                             'E,$GPRMC,191014.000,A,8859.9999,N,00059.9829,E,0.01,232.87,250122$GPRMC,191015.00\n', 'E,D12,5\n', 'E\n']))
            ev.extend((p, 0, sec * 10 + q, x) for q, x in enumerate(lines))

    @staticmethod
    def _m_line(fmt, m, roll):
        if fmt == '0.8':
            return 'M,%d,%.2f,%.1f,%d,%d,%d,%d,%d,%d,%d\n' % (
                m['ms'] % roll, m['batt'], m['temp'], m['maxLag'], m['minFree'], m['maxUsed'],
                m['maxOver'], m['gpsFlag'], m['f1'], m['f2'])
        return 'M,%d,%.2f,%.1f,%.3f,%.3f,%d,%d,%d,%d,%d,%d,%d\n' % (
            m['ms'] % roll, m['batt'], m['temp'], m['A2'], m['A3'], m['maxLag'], m['minFree'],
            m['maxUsed'], m['maxOver'], m['gpsFlag'], m['f1'], m['f2'])

    def _data_lines(self, fmt, ms, adc, roll, rng):
        m = (ms % roll).tolist()
        if fmt in ('0.8', '0.85'):
            return ['D,%d,%d\n' % (a, b) for a, b in zip(m, adc.tolist())]
        d = np.diff(adc, prepend=0).tolist()
        if fmt in ('0.85C', '0.9', '0.91'):
            return ['D%d,%d\n' % (a, b) for a, b in zip(m, d)]
        # 1.10: differences as letters where they fit
        style = self.spec.get('style', 'two')
        dm = np.diff(ms).tolist()
        out = ['D%d,%d\n' % (m[0], d[0])]
        for j in range(1, len(m)):
            x, step = d[j], dm[j - 1]
            if -12 <= x <= 13 and -2 <= step - 10 <= 13 and style != 'plain':
                if style == 'one' and step == 10:
                    out.append(chr(109 + x) + '\n')
                else:
                    out.append(chr(109 + step - 10) + chr(109 + x) + '\n')
            elif style == 'one' and step == 10:
                out.append('D%d\n' % x)
            else:
                out.append('D%d,%d\n' % (m[j], x))
        return out

    @staticmethod
    def _damage(r, blob, rng):
        """SD-card and power-loss damage to the stored bytes."""
        for ft in r.faults:
            k = ft['kind']
            if k == 'empty':
                blob = b''
            elif k == 'tiny':
                blob = blob[:ft.get('n', 5)]
            elif k == 'missing':
                r.on_card = False
            elif k == 'torn':
                lo = r.hdr_end if not ft.get('hdr') else 0
                cut = lo + int(ft['frac'] * (len(blob) - lo))
                blob = blob[:cut]
            elif k in ('zero', 'garble', 'dup', 'drop', 'ff'):
                n = ft.get('n', 512)
                lo = ft.get('lo', r.hdr_end + 1)
                a = lo + int(ft['frac'] * max(1, len(blob) - lo - n))
                a = max(lo, (a // n) * n) if ft.get('align') else a
                b = min(len(blob), a + n)
                if k == 'zero':
                    new = b'\0' * (b - a)
                elif k == 'ff':
                    new = b'\xff' * (b - a)
                elif k == 'garble':
                    rr = random.Random(ft.get('seed', 0))
                    new = bytes(rr.getrandbits(8) for _ in range(b - a))
                elif k == 'dup':
                    new = blob[a:b] + blob[a:b]
                else:
                    new = b''
                blob = blob[:a] + new + blob[b:]
            elif k == 'bitflip':
                a = ft.get('lo', r.hdr_end + 1) + int(ft['frac'] * max(1, len(blob) - r.hdr_end - 2))
                a = min(a, len(blob) - 1)
                if a >= 0 and blob:
                    blob = blob[:a] + bytes([blob[a] ^ (1 << ft['bit'])]) + blob[a + 1:]
            elif k == 'version' and b'\n' in blob:
                blob = blob.replace(blob[:blob.index(b'\n')], ft['text'].encode('latin1'), 1)
            elif k == 'snline':
                blob = blob.replace(b'S,' + r.sn.encode(), ft['text'].encode('latin1'), 1)
            elif k == 'nohdr':
                blob = blob[r.hdr_end:]
            elif k == 'blank':
                # one data line lost the end, the start or the number of a field
                a = blob.find(b'\nD', r.hdr_end + int(ft['frac'] * max(1, len(blob) - r.hdr_end))) + 1
                b = blob.find(b'\n', a)
                if a > 0 and b > 0:
                    line = blob[a:b]
                    new = {'end': line[:line.rfind(b',') + 1] or line[:2], 'start': line[-2:], 'D': b'D', 'text': line[:-1] + b'x',
                           'nan': line[:line.rfind(b',') + 1] + b'nan', 'comma': line + b','}[ft['style']]
                    blob = blob[:a] + new + blob[b:]
        return blob

    def write(self, folder):
        import os
        for r in self.files:
            if r.on_card:
                with open(os.path.join(folder, r.name), 'wb') as fh:
                    fh.write(r.data)


BYTE_FAULTS = {'torn', 'zero', 'garble', 'dup', 'drop', 'ff', 'bitflip', 'version', 'snline',
               'nohdr', 'empty', 'tiny', 'missing', 'blank'}
