"""Independent judgement of converted data against the ground truth of the simulated loggers."""
import math

import numpy as np

from .device import TICK, ROLL, Field

NS = 1e-9


# --------------------------------------------------------------- which files must convert
def cut_info(f):
    """For a torn file: number of whole data lines and the fixes present in the surviving bytes."""
    text = f.data
    whole = text[:text.rfind(b'\n') + 1] if b'\n' in text else b''
    nd = ng = nm = 0
    for line in whole.split(b'\n'):
        c = line[:1]
        if len(line) == 1 and not 97 <= c[0] <= 122:
            continue                         # a stray character of a receiver sentence
        if c == b'G':
            ng += 1
        elif c == b'M':
            nm += 1
        elif c == b'D' or (c and 97 <= c[0] <= 122):
            nd += 1
    tail = text[len(whole):]
    return nd, ng, nm, tail


class FileTruth:
    """status: must | may | mustnot (be converted); wave: exact | unknown; ndata: samples surviving."""

    def __init__(self, f):
        self.f = f
        kinds = {x['kind'] for x in f.faults}
        self.kinds = kinds
        n = len(f.t)
        self.ndata = n
        self.fixes = [x for x in f.fixes]
        self.wave = 'exact'
        self.tail_suspect = False
        self.data_bearing = f.on_card and len(f.data) > 10
        status = None
        nm = len(f.meta)
        if kinds & {'tiny'}:
            self.data_bearing = False
        if 'snline' in kinds and f.name.endswith('TXT') and any(x.get('text', '').startswith('S,9') for x in f.faults):
            self.data_bearing = False        # a .TXT file that names another logger is that logger's
        if not f.on_card or len(f.data) <= 10 or 'tiny' in kinds:
            self.ndata = 0
            self.fixes = []
            self.status = 'mustnot'
            return
        if kinds & {'zero', 'garble', 'dup', 'drop', 'ff', 'bitflip', 'blank'}:
            self.wave = 'unknown'
            status = 'may'
        if kinds & {'version', 'snline', 'nohdr'}:
            status = 'may'
            if any('a' <= x.get('text', '')[:1] <= 'z' for x in f.faults):
                self.wave = 'unknown'        # reads like a letter-coded data line
        if 'torn' in kinds and self.wave == 'exact':
            nd, ng, nm, tail = cut_info(f)
            self.ndata = nd
            self.fixes = f.fixes[:ng]
            self.tail_suspect = len(tail) > 0
            if len(f.data) < f.hdr_end:
                status = 'may'
            if nd < 50 or nm < 1:
                status = status or 'may'
            if nd == 0:
                self.data_bearing = False
        if self.ndata == 0:
            self.status = 'mustnot'
            return
        t = f.t[:self.ndata]
        ms = f.ms[:self.ndata]
        dur = float(t[-1] - t[0])
        fx = [x for x in self.fixes if -90 < x['lat'] < 90 and -180 < x['lon'] < 180 and x['lat'] != 0]
        off = [x for x in fx if x['said'] != x['sec']]
        good = [x for x in fx if x['said'] == x['sec']]
        self.good = good
        span = good[-1]['sec'] - good[0]['sec'] if len(good) > 1 else 0
        n_un = len({x['sec'] for x in good})
        noise = 1.0
        big = bool(np.any(np.diff(ms) > 960))
        edge_big = bool(np.any(np.diff(ms) > 1000))
        if status is None:
            if 'stall' in kinds:
                at = f.t[int(np.argmax(np.diff(f.t)))] if len(f.t) > 1 else 0
                share = sum(x['sec'] > at for x in fx) / max(1, len(fx))
                status = 'mustnot' if 0.2 <= share <= 0.8 else 'may'
            elif 'gpsstep' in kinds and off:
                share = len(off) / max(1, len(fx))
                status = 'mustnot' if 0.2 <= share <= 0.8 else 'may'
            elif off:
                status = 'must' if (len(good) >= 60 and len(off) <= 2 and span > 0.7 * dur) else 'may'
                if len(good) < 10 or span < 0.45 * dur:
                    status = 'may' if len(fx) >= 10 else 'mustnot'
            elif n_un < 10 or span < 0.45 * dur:
                status = 'mustnot'
            elif n_un >= 12 and span > 0.55 * dur:
                status = 'must'
            else:
                status = 'may'
            if 'gpswild' in kinds and status == 'must' and len(good) < len(self.fixes):
                status = 'may' if len(good) < 14 else status
        if status == 'must' and big:
            status = 'may' if not edge_big else 'may'
        self.status = status

    def interior(self, pad=0.06):
        t = self.f.t[:self.ndata]
        return t[0] + pad, t[-1] - pad


def truths(lg):
    return [FileTruth(f) for f in lg.files]


def order_ok(lg):
    return True


# -------------------------------------------------- what the GPS fixes can resolve, per time
def timing_tolerance(ft, when, base=0.002):
    """Bound on the timing error a careful cubic least-squares fit of the fixes may show at 'when'."""
    f = ft.f
    g = getattr(ft, 'good', None) or f.fixes
    sigma = 0.0
    res = 0.145 if f.fmt in ('0.91', '1.10') else 0.29            # resolution of msPPS (quarter / whole counts)
    noise = max([abs(x['pps'] - float(f.clock.count(x['sec']))) for x in g], default=0.0)
    sigma = math.hypot(res, max(0.05, noise / 1.5)) * TICK
    if len(g) < 5:
        return np.full(len(when), 1.0)
    x = np.array([q['sec'] for q in g], dtype=float)
    c, h = x.mean(), max(1.0, (x.max() - x.min()) / 2)
    V = np.polynomial.chebyshev.chebvander((x - c) / h, 3)
    try:
        inv = np.linalg.pinv(V.T @ V)
    except np.linalg.LinAlgError:
        return np.full(len(when), 1.0)
    W = np.polynomial.chebyshev.chebvander((np.asarray(when) - c) / h, 3)
    lev = np.sqrt(np.einsum('ij,jk,ik->i', W, inv, W))
    # quantisation errors of neighbouring fixes can be alike: allow for it in the statistical bound
    return base + 7.0 * sigma * np.maximum(lev, 0.15)


# --------------------------------------------------------------------- checking the output
def gather(traces):
    """Sorted sample times (ns) and values over traces of one logger, with the trace index."""
    T, Y, I = [], [], []
    for i, (name, tr) in enumerate(traces):
        n = tr.stats.npts
        T.append(tr.stats.starttime.ns + np.arange(n, dtype=np.int64) * 10_000_000)
        Y.append(np.asarray(tr.data, dtype=float))
        I.append(np.full(n, i))
    if not T:
        return np.zeros(0, np.int64), np.zeros(0), np.zeros(0, int)
    T, Y, I = np.concatenate(T), np.concatenate(Y), np.concatenate(I)
    o = np.argsort(T, kind='stable')
    return T[o], Y[o], I[o]


def recorded_segments(fts, statuses=('must', 'may', 'mustnot'), join=0.0351):
    """Continuous stretches [(first, last)] of recorded samples, in file order."""
    segs = []
    for ft in fts:
        if ft.ndata == 0 or ft.status not in statuses:
            continue
        t = ft.f.t[:ft.ndata]
        br = np.where(np.diff(t) > 0.0251)[0]
        a = np.concatenate([[0], br + 1])
        b = np.concatenate([br, [len(t) - 1]])
        for i, j in zip(a, b):
            segs.append([t[i], t[j]])
    return segs


class Judge:
    """Checks the output of one logger's conversion; reports through bad(kind, detail, sig)."""

    def __init__(self, ctx, lg, traces, t1=None, t2=None, scale=1.0, prefix='', vtol=0.0, lag_base=0.002,
                 window=(None, None)):
        self.ctx = ctx
        self.lg = lg
        self.fts = truths(lg)
        self.traces = traces
        self.T, self.Y, self.I = gather(traces)
        self.t = self.T * NS
        self.field = lg.field
        self.delay = lg.spec.get('delay', 0.0)
        self.offset = lg.spec.get('offset', 0)
        self.scale = scale
        self.prefix = prefix
        self.vtol = vtol
        self.lag_base = lag_base
        self.max_lag = 0.0
        self.max_val = 0.0
        self.lo, self.hi = window          # requested time window, if any

    def bad(self, kind, detail, sig=''):
        self.ctx.bad(self.prefix + kind, 'SN %s fmt %s: %s' % (self.lg.spec['sn'], self.lg.spec['fmt'], detail), sig)

    # -- each sample once, exact 100 Hz grid on hundredths of a second
    def check_unique(self):
        if len(self.T) > 1:
            d = np.diff(self.T)
            if np.any(d < 9_900_000):
                k = int(np.argmin(d))
                self.bad('overlap', 'output samples %d ns apart at %s (files %s, %s)' % (
                    d[k], self.t[k], self.traces[self.I[k]][0], self.traces[self.I[k + 1]][0]))
                return False
        return True

    def check_grid(self):
        for name, tr in self.traces:
            if abs(tr.stats.delta - 0.01) > 1e-9:
                self.bad('rate', '%s has sampling interval %r' % (name, tr.stats.delta))

    # -- no sample where nothing was recorded (or where the file had to be withheld)
    def check_invented(self, slack=0.0151):
        if not len(self.t):
            return
        allowed = np.zeros(len(self.t), bool)
        withheld = np.full(len(self.t), -1)
        segs = []
        for i, ft in enumerate(self.fts):
            if ft.ndata == 0:
                continue
            t = ft.f.t[:ft.ndata]
            tol = slack
            if ft.wave == 'unknown':
                a, b = np.searchsorted(self.t, [t[0] - 0.5, t[-1] + 0.5])
                allowed[a:b] = True          # damaged bytes: times inside the file are not judged
                segs.append((t[0], t[-1], ft))
                continue
            for a, b in seg_bounds(t):
                segs.append((a, b, ft))
        segs.sort(key=lambda s: s[0])
        for k, (a, b, ft) in enumerate(segs):
            i0, i1 = np.searchsorted(self.t, [a - slack, b + slack])
            if ft.status == 'mustnot':
                j0, j1 = np.searchsorted(self.t, [a + 0.05, b - 0.05])
                if j1 > j0:
                    self.bad('not_withheld', '%s has inadequate GPS (%s) but %d samples were written from %.2f' % (
                        ft.f.name, sorted(ft.kinds), j1 - j0, self.t[j0]), sig=','.join(sorted(ft.kinds)))
                continue
            tolt = self.tol(ft, np.array([a, b]))
            i0, i1 = np.searchsorted(self.t, [a - slack - min(tolt[0], 0.5), b + slack + min(tolt[1], 0.5)])
            allowed[i0:i1] = True
            # a pause of a few samples may be bridged
            if k + 1 < len(segs) and segs[k + 1][0] - b <= 0.0452 and segs[k + 1][2].status != 'mustnot':
                j0, j1 = np.searchsorted(self.t, [b, segs[k + 1][0]])
                allowed[j0:j1] = True
        w = np.where(~allowed)[0]
        if len(w):
            k = w[0]
            near = min(segs, key=lambda s: min(abs(s[0] - self.t[k]), abs(s[1] - self.t[k])), default=None)
            if near and near[2].status == 'mustnot' and near[0] - 0.06 <= self.t[k] <= near[1] + 0.06:
                return
            self.bad('invented', '%d samples where nothing was recorded, first at %.3f in %s; nearest recorded stretch %s' % (
                len(w), self.t[k], self.traces[self.I[k]][0],
                None if near is None else '%.3f..%.3f' % (near[0], near[1])))

    def tol(self, ft, when):
        return timing_tolerance(ft, when, self.lag_base)

    # -- every convertible file is there in full
    def check_complete(self, edge=0.0451, t1=None):
        """t1: samples before this time need not be there (first partial second)."""
        lost = []
        for ft in self.fts:
            if ft.status != 'must' or ft.ndata == 0:
                continue
            t = ft.f.t[:ft.ndata]
            for a, b in seg_bounds(t):
                if b - a < 0.15:
                    continue
                tolt = np.minimum(self.tol(ft, np.array([a, b])), 0.5)
                lo, hi = a + edge + tolt[0], b - edge - tolt[1]
                if ft.tail_suspect and abs(b - t[-1]) < 1e-9:
                    hi -= 0.03
                if t1 is not None:
                    lo = max(lo, t1)
                if self.lo is not None:
                    lo = max(lo, self.lo)
                if self.hi is not None:
                    hi = min(hi, self.hi - 0.02)
                if hi - lo < 0.1:
                    continue
                i0, i1 = np.searchsorted(self.t, [lo, hi])
                want = (hi - lo) / 0.01
                got = i1 - i0
                if got < want - 1.5:
                    tt = np.concatenate([[lo], self.t[i0:i1], [hi]])
                    k = int(np.argmax(np.diff(tt)))
                    lost.append((ft, want - got, tt[k], tt[k + 1]))
        for ft, n, a, b in lost[:2]:
            self.bad('lost', '%s (numbers %s): %.0f recorded samples are not in the output, e.g. %.3f..%.3f (file %.3f..%.3f, faults %s)' % (
                ft.f.name, [x.f.num for x in self.fts], n, a, b, ft.f.t[0], ft.f.t[ft.ndata - 1], sorted(ft.kinds)))
        return lost

    # -- times and values
    def check_wave(self, win=5.0):
        S, E = self.field.slope_bound(), 6e-4 * self.field.amp_bound() + self.field.spline_bound()
        jit = (0.0006 + 0.0006 * self.lg.spec.get('jitter', 0)) if True else 0
        if self.lg.spec['fmt'] != '9':
            jit += 0.0006
        for ft in self.fts:
            if ft.status == 'mustnot' or ft.wave != 'exact' or ft.ndata < 20:
                continue
            t = ft.f.t[:ft.ndata]
            end = t[-1] - (0.05 if ft.tail_suspect else 0.0)
            # a neighbour with damaged bytes: the spline spans the junction, and the neighbour's own samples
            # may carry wrong times there
            i = self.fts.index(ft)
            near = [x for x in self.fts[max(0, i - 1):i + 2] if x.wave == 'unknown']
            if near and ft.status != 'must':
                continue
            pad0 = 0.25 if any(x.f.index < ft.f.index for x in near) else 0.0
            pad1 = 0.25 if any(x.f.index > ft.f.index for x in near) else 0.0
            if ft.tail_suspect and not pad1:      # a torn last line must not become a sample
                i0, i1 = np.searchsorted(self.t, [t[-1] - 0.08, t[-1] + 0.0149])
                nxt = min((x.f.t[0] for x in self.fts if x.f.index > ft.f.index and len(x.f.t) and x.ndata), default=np.inf)
                if i1 > i0 and nxt > t[-1] + 0.5 and t[-1] - t[0] > 1 and np.all(np.diff(t[-12:]) < 0.015):
                    tau = self.t[i0:i1]
                    e = self.Y[i0:i1] / self.scale - self.field.value(tau, self.delay) - self.offset
                    lim = 6 + 6 * E + S * (2 * np.minimum(self.tol(ft, tau), 5.0) + 3 * jit) + self.vtol + self.field.curv_bound() * 3e-5
                    if np.any(np.abs(e) > lim):
                        k = int(np.argmax(np.abs(e) - lim))
                        self.bad('torn_tail', '%s: the last samples before its torn end (%.3f) are up to %.1f counts off (allowed %.1f)' % (ft.f.name, t[-1], e[k], lim[k]))
                        return
            end -= pad1
            for a, b in seg_bounds(t):
                b = min(b, end)
                i0, i1 = np.searchsorted(self.t, [max(a, t[0] + pad0) + 0.05, b - 0.05])
                if i1 - i0 < 20:
                    continue
                tau = self.t[i0:i1]
                y = self.Y[i0:i1] / self.scale
                x = self.field.value(tau, self.delay) + self.offset
                dx = self.field.deriv(tau, self.delay)
                e = y - x
                tolt = np.minimum(self.tol(ft, tau), 5.0)
                # (1) pointwise value bound
                bound = 1.9 + E + S * (tolt + jit) + self.vtol
                m = np.abs(e) > bound
                if np.any(m):
                    k = int(np.argmax(np.abs(e) - bound))
                    # a pure time error or a wrong waveform?
                    lag = -float(np.sum(e * dx) / max(np.sum(dx * dx), 1e-12))
                    self.bad('wave', '%s: value off by %.1f counts (allowed %.1f) at %.3f, best constant lag %.4f s, %d of %d samples off, faults %s' % (
                        ft.f.name, e[k], bound[k], tau[k], lag, int(m.sum()), len(m), sorted(ft.kinds)))
                    return
                # (2) timing per window
                nwin = max(1, int((b - a) / win))
                for part in np.array_split(np.arange(len(tau)), nwin):
                    if len(part) < 50:
                        continue
                    d = dx[part]
                    p = float(np.sum(d * d))
                    if p < 1:
                        continue
                    lag = -float(np.sum(e[part] * d)) / p
                    sd = 0.6 / math.sqrt(p) + E / max(1e-9, math.sqrt(p / len(part)))
                    lim = float(np.max(tolt[part])) + 6 * sd
                    self.max_lag = max(self.max_lag, abs(lag) - 6 * sd)
                    if abs(lag) > lim:
                        self.bad('timing', '%s: samples near %.2f are written %.4f s off (allowed %.4f), faults %s' % (
                            ft.f.name, tau[part[0]], lag, lim, sorted(ft.kinds)))
                        return

    def check_fidelity(self):
        """No bias and no loss of amplitude, beyond what single samples can show."""
        for ft in self.fts:
            if ft.status != 'must' or ft.wave != 'exact' or any(x.wave != 'exact' for x in self.fts):
                continue
            for a, b in seg_bounds(ft.f.t[:ft.ndata]):
                i0, i1 = np.searchsorted(self.t, [a + 0.05, b - 0.05])
                if i1 - i0 < 1500:
                    continue
                tau = self.t[i0:i1]
                x = self.field.value(tau, self.delay)
                dx = self.field.deriv(tau, self.delay)
                e = self.Y[i0:i1] / self.scale - x - self.offset
                M = np.stack([np.ones(len(x)), x - x.mean(), dx, dx * (tau - tau[0])], 1)
                sd = np.std(x)
                c, *_ = np.linalg.lstsq(M, e, rcond=None)
                r = np.std(e - M @ c)
                if abs(c[0]) > 0.2 + 6 * r / math.sqrt(len(x)):
                    self.bad('bias', '%s: the samples are %.3f counts too high on average (%d samples, scatter %.2f)' % (ft.f.name, c[0], len(x), r))
                    return
                if sd > 3 and abs(c[1]) > 0.006 + 6 * max(r, 0.5) / sd / math.sqrt(len(x)):
                    self.bad('gain', '%s: the waveform is %.3f %% too large (%d samples, scatter %.2f)' % (ft.f.name, 100 * c[1], len(x), r))
                    return

    # -- every file that contributes nothing is named
    def contributed(self, ft):
        if ft.ndata == 0:
            return False
        t = ft.f.t[:ft.ndata]
        a, b = t[0] + 0.05, t[-1] - 0.05
        i0, i1 = np.searchsorted(self.t, [a, b])
        return i1 > i0

    def check_reported(self, report, nums=None):
        for ft in self.fts:
            if not ft.data_bearing or self.contributed(ft):
                continue
            if nums is not None and ft.f.num not in nums:
                continue
            if self.lo is not None and ft.f.t[-1] < self.lo + 1:
                continue
            if self.hi is not None and ft.f.t[0] > self.hi - 1:
                continue
            if ft.ndata and ft.f.t[ft.ndata - 1] - ft.f.t[0] < 2.5 and ft.status != 'must':
                # so little data that dropping the first partial second may account for it
                pass
            if ft.f.name not in report:
                self.bad('unreported', '%s holds data (faults %s, %d samples) but contributes nothing to the output and is not named in: %s' % (
                    ft.f.name, sorted(ft.kinds), ft.ndata, report[:600]), sig=','.join(sorted(ft.kinds)))
                return


def seg_bounds(t, gap=0.0251):
    br = np.where(np.diff(t) > gap)[0]
    a = np.concatenate([[0], br + 1])
    b = np.concatenate([br, [len(t) - 1]])
    return [(float(t[i]), float(t[j])) for i, j in zip(a, b)]
