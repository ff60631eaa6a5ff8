"""Seeded search: generates scenarios, executes each in its own forked process, minimises the
first unlisted violation, writes and confirms the replay file, writes the evidence file.

Run through check.py, which prepares the scratch build of gemlog and the environment.
"""
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = int(os.environ.get('GEMSIM_LANES', '8'))
RUN_TIMEOUT = 150.0


def load(prop):
    return importlib.import_module('gemsim.props.' + prop)


# ------------------------------------------------------------------ executing one scenario
class Ctx:
    """What a property's execute() gets: a scratch root and a place to record what happened."""

    def __init__(self, root):
        self.root = root
        self.violations = []
        self.tokens = set()
        self.faults = {}
        self.sim_seconds = 0.0
        self.trace = hashlib.sha256()
        self.steps = 0
        self.extra = {}

    def bad(self, kind, detail, sig=None):
        """Record a violation.  kind is a stable short name used by minimisation and findings."""
        if len(self.violations) < 40:
            self.violations.append({'kind': kind, 'detail': str(detail).replace(self.root, '')[:1500],
                                    'sig': (sig or '').replace(self.root, '')})

    def token(self, *parts):
        self.tokens.add('/'.join(str(p) for p in parts))

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def note(self, *parts):
        """Goes into the digest that must be identical when the same seed is run again."""
        s = repr(parts).replace(self.root, '')
        if os.environ.get('GEMSIM_NOTES'):
            sys.stderr.write(s[:3000] + '\n')
        self.trace.update(s.encode('utf-8', 'replace'))

    def result(self):
        return {'violations': self.violations, 'tokens': sorted(self.tokens), 'faults': self.faults,
                'sim': self.sim_seconds, 'steps': self.steps, 'digest': self.trace.hexdigest()[:24],
                'extra': self.extra}


def execute(mod, scn, root):
    """In the run child: returns a result dict."""
    ctx = Ctx(root)
    os.makedirs(root, exist_ok=True)
    os.chdir(root)
    try:
        mod.execute(scn, ctx)
    except Exception:
        r = ctx.result()
        r['harness_error'] = traceback.format_exc()
        return r
    return ctx.result()


class Lane:
    def __init__(self, no, base):
        self.no = no
        self.root = os.path.join(base, 'lane%d' % no)
        self.pid = None

    def start(self, mod, scn, tag, timeout=None):
        self.tag = tag
        self.scn = scn
        self.t0 = time.monotonic()
        self.timeout = timeout or getattr(mod, 'TIMEOUT', RUN_TIMEOUT)
        shutil.rmtree(self.root, ignore_errors=True)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.close(r)
                if not os.environ.get('GEMSIM_VERBOSE'):
                    dn = os.open('/dev/null', os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('GEMSIM_NOTES'):
                        os.dup2(dn, 2)
                res = execute(mod, scn, self.root)
                blob = json.dumps(res).encode()
                os.write(w, struct.pack('<q', len(blob)))
                while blob:
                    n = os.write(w, blob)
                    blob = blob[n:]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, b''

    def stop(self):
        if self.pid is None:
            return
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.fd)
        self.pid = None
        shutil.rmtree(self.root, ignore_errors=True)

    def finish(self, timed_out=False):
        buf = self.buf
        el = time.monotonic() - self.t0
        self.stop()
        if timed_out:
            return {'violations': [{'kind': 'hang', 'detail': 'no result within %.0f s' % el, 'sig': 'hang'}],
                    'tokens': [], 'faults': {}, 'sim': 0, 'steps': 0, 'digest': 'hang', 'extra': {},
                    'wall': el}
        try:
            n = struct.unpack('<q', buf[:8])[0]
            res = json.loads(buf[8:8 + n])
        except Exception:
            res = {'violations': [], 'tokens': [], 'faults': {}, 'sim': 0, 'steps': 0, 'digest': 'dead',
                   'extra': {}, 'harness_error': 'run process ended without a result'}
        res['wall'] = el
        return res


class Pool:
    """Runs scenarios on several lanes; results come back through a callback, in any order."""

    def __init__(self, mod, base, lanes=LANES):
        self.mod = mod
        self.lanes = [Lane(i, base) for i in range(lanes)]

    def busy(self):
        return [l for l in self.lanes if l.pid is not None]

    def idle(self):
        return [l for l in self.lanes if l.pid is None]

    def poll(self, wait=0.5):
        """-> list of (tag, scn, result)"""
        out = []
        b = self.busy()
        if not b:
            return out
        rd, _, _ = select.select([l.fd for l in b], [], [], wait)
        now = time.monotonic()
        for l in b:
            if l.fd in rd:
                data = os.read(l.fd, 1 << 20)
                if data:
                    l.buf += data
                    if len(l.buf) < 8 or len(l.buf) < 8 + struct.unpack('<q', l.buf[:8])[0]:
                        continue
                out.append((l.tag, l.scn, l.finish()))
            elif now - l.t0 > l.timeout:
                out.append((l.tag, l.scn, l.finish(timed_out=True)))
        return out

    def kill(self):
        for l in self.lanes:
            l.stop()

    def map(self, scns, deadline=None):
        res = [None] * len(scns)
        k = 0
        while True:
            for l in self.idle():
                if k < len(scns) and (deadline is None or time.monotonic() < deadline):
                    l.start(self.mod, scns[k], k)
                    k += 1
            if not self.busy():
                break
            for tag, _, r in self.poll():
                res[tag] = r
        return res


# ----------------------------------------------------------------------- known findings
class Findings:
    """known_findings.txt: 'finding: property=<id> match=<regex on "kind|sig"> -- <text>' and
    'fixed: property=<id> <commit> <what failed>' (a fixed entry suppresses nothing)."""

    def __init__(self, prop):
        self.items = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'finding: property=(\S+) match=(.+?) -- (.*)$', line.strip())
                if m and m.group(1) == prop:
                    self.items.append((re.compile(m.group(2)), m.group(3)))
        self.hit = {}

    def known(self, v):
        s = v['kind'] + '|' + v.get('sig', '')
        for rx, text in self.items:
            if rx.search(s):
                self.hit[text] = self.hit.get(text, 0) + 1
                return True
        return False

    def unknown(self, res):
        return [v for v in res['violations'] if not self.known(v)]


# -------------------------------------------------------------------------- minimisation
LIST_KEYS = ('gems', 'files', 'faults', 'extra_files', 'pts', 'prior', 'options', 'events', 'choices',
             'rows', 'cuts', 'comp')
DEFAULTS = {'drift': [0, 0, 0], 'phase': 0, 'jitter': 0, 'delay': 0.0, 'offset': 0, 'gap': 0.0,
            'reboot': False, 'workers': 1, 'style': 'plain', 'num0': 0}


def candidates(scn):
    """Generic smaller scenarios, biggest cuts first."""
    paths = []

    def walk(node, path):
        if isinstance(node, dict):
            for k in sorted(node):
                paths.append((path, k))
                walk(node[k], path + [k])
        elif isinstance(node, list):
            for i, x in enumerate(node):
                if isinstance(x, (dict, list)):
                    walk(x, path + [i])

    walk(scn, [])

    def get(d, path):
        for p in path:
            d = d[p]
        return d

    def edited(path, k, val):
        c = json.loads(json.dumps(scn))
        get(c, path)[k] = val
        return c

    lists = [(p, k) for p, k in paths if k in LIST_KEYS and isinstance(get(scn, p)[k], list)]
    lists.sort(key=lambda pk: len(pk[0]))
    for p, k in lists:
        v = get(scn, p)[k]
        if k == 'choices':
            n = len(v)
            for m in (0, n // 4, n // 2, 3 * n // 4, n - 1):
                if m < n:
                    yield edited(p, k, v[:m])
            step = max(1, n // 8)
            for a in range(0, n, step):
                if any(v[a:a + step]):
                    yield edited(p, k, v[:a] + [0] * len(v[a:a + step]) + v[a + step:])
            continue
        n = len(v)
        if k == 'comp' and n <= 2:
            continue
        if n >= 4:
            h = n // 2
            yield edited(p, k, v[:h])
            yield edited(p, k, v[h:])
        for i in range(n):
            if k in ('gems', 'files') and n == 1:
                continue
            yield edited(p, k, v[:i] + v[i + 1:])
    for p, k in paths:
        d = get(scn, p)
        if k in DEFAULTS and d[k] != DEFAULTS[k] and type(d[k]) in (type(DEFAULTS[k]), int, float, bool, str):
            yield edited(p, k, DEFAULTS[k])
        if k == 'dur' and d[k] > 45:
            yield edited(p, k, max(40, int(d[k] / 2)))


def minimise(pool, mod, scn, kind, findings, seconds):
    deadline = time.monotonic() + seconds
    best = scn
    tried = 0
    seen = set()
    cand_fn = getattr(mod, 'candidates', candidates)
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        batch = []
        gen = cand_fn(best)
        done = False
        while not done and time.monotonic() < deadline:
            batch = []
            for c in gen:
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(c)
                if len(batch) >= len(pool.lanes):
                    break
            if not batch:
                break
            res = pool.map(batch, deadline)
            tried += len(batch)
            for c, r in zip(batch, res):
                if r and not r.get('harness_error') and any(v['kind'] == kind for v in findings.unknown(r)):
                    best = c
                    improved = done = True
                    break
    return best, tried


# --------------------------------------------------------------------------------- search
def scenario(mod, prop, seed, i, tier):
    rng = random.Random('%s:%s:%d' % (prop, seed, i))
    scn = mod.generate(rng, i, tier)
    return json.loads(json.dumps(scn))     # exactly what a replay file would hold


def merge_counts(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def write_evidence(prop, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def search(prop, tier, seed, budget, base, nmax=None, start=0, stop_on_violation=True, verbose=False):
    mod = load(prop)
    findings = Findings(prop)
    pool = Pool(mod, base)
    t0 = time.monotonic()
    deadline = t0 + budget
    i = start
    done = 0
    tokens = {}
    faults = {}
    extra = {}
    sim = 0.0
    steps = 0
    samples = []
    hits = []
    errors = []
    digests = {}
    nontrivial = 0
    curve = []
    canaries = list(getattr(mod, 'canaries', lambda: [])())
    nmin = getattr(mod, 'NMIN', 8)
    recheck = []
    mism = []
    while True:
        now = time.monotonic()
        more = (now < deadline or done < nmin) and (nmax is None or i - start < nmax) and not (hits and stop_on_violation)
        if now > deadline + 240:
            more = False
        for l in pool.idle():
            if not more:
                break
            if canaries:
                l.start(mod, canaries.pop(0), ('canary', 0))
                continue
            if recheck and len(recheck) > 0:
                k = recheck.pop()
                l.start(mod, scenario(mod, prop, seed, k, tier), ('again', k))
                continue
            l.start(mod, scenario(mod, prop, seed, i, tier), ('run', i))
            i += 1
            if nmax is not None and i - start >= nmax:
                break
        if not pool.busy():
            break
        for (what, k), scn, r in pool.poll():
            if r.get('harness_error'):
                errors.append((what, k, r['harness_error']))
                if verbose:
                    print('HARNESS ERROR', what, k, r['harness_error'])
                continue
            if what == 'again':
                if digests.get(k) != r['digest']:
                    mism.append(k)
                continue
            bad = findings.unknown(r)
            if what == 'run':
                done += 1
                digests[k] = r['digest']
                if done % 50 == 7 and len(digests) < 2000:
                    recheck.append(k)
                before = len(tokens)
                for t in r['tokens']:
                    tokens[t] = tokens.get(t, 0) + 1
                if r['tokens'] or r['faults']:
                    nontrivial += 1
                merge_counts(faults, r['faults'])
                merge_counts(extra, r['extra'])
                sim += r['sim']
                steps += r['steps']
                if done % 25 == 0 or len(tokens) > before:
                    curve.append((done, len(tokens)))
                if len(samples) < 4:
                    samples.append({'run': k, 'tokens': r['tokens'][:8], 'faults': r['faults'],
                                    'sim_seconds': round(r['sim'], 1), 'digest': r['digest']})
            if bad:
                hits.append((k, scn, r, bad))
                if verbose:
                    print('HIT', what, k, bad[0]['kind'], bad[0]['sig'], bad[0]['detail'][:400], flush=True)
    wall = time.monotonic() - t0
    hits.sort(key=lambda h: h[0])
    return dict(mod=mod, pool=pool, findings=findings, done=done, tokens=tokens, faults=faults, sim=sim,
                steps=steps, samples=samples, hits=hits, errors=errors, wall=wall, nontrivial=nontrivial,
                curve=curve, extra=extra, next=i, mism=mism, rechecked=sum(1 for _ in digests) // 50,
                digests=digests)


def check(prop, tier, seed, budget, base):
    S = search(prop, tier, seed, budget, base)
    mod, pool, findings = S['mod'], S['pool'], S['findings']
    code = 0
    viol = []
    if S['hits']:
        k, scn, r, bad = S['hits'][0]
        kind = bad[0]['kind']
        # make the random schedule explicit if the run recorded one and it reproduces
        if hasattr(mod, 'explicit'):
            ex = mod.explicit(scn, r)
            if ex is not None:
                rr = pool.map([ex])[0]
                if rr and any(v['kind'] == kind for v in findings.unknown(rr)):
                    scn = ex
        small, tried = minimise(pool, mod, scn, kind, findings, 60 if tier == 'quick' else 240)
        res = pool.map([small])[0]
        again = pool.map([small])[0]
        d = os.path.join(os.environ.get('GEMSIM_REPLAY_DIR', os.path.join(VERIF, 'replays')))
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_seed%s_run%s.json' % (prop, seed, k))
        same = res['digest'] == again['digest']
        det = [v for v in findings.unknown(res) if v['kind'] == kind] or bad
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'run': k, 'tier': tier, 'kind': kind,
                       'detail': det[0]['detail'], 'digest': res['digest'], 'minimisation_runs': tried,
                       'reproduced_exactly': same, 'scenario': small, 'original': S['hits'][0][1]},
                      f, indent=1)
        print('%s: %s' % (kind, det[0]['detail']))
        print('replay: %s %s --replay %s   (seed %s run %s, minimised in %d runs, %s)' % (
            'check.py', prop, path, seed, k, tried, 'reproduces exactly' if same else 'NOT exactly reproducible'))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        viol.append({'kind': kind, 'detail': det[0]['detail'][:500], 'replay': path, 'seed': seed, 'run': k})
        code = 1
    for text, n in findings.hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    S['pool'].kill()
    hours = max(S['wall'], 1e-6) / 3600
    faults = dict(sorted(S['faults'].items()))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': mod.LEVEL,
        'coverage': {
            'evaluations': max(S['done'], 0),
            'distinct_nontrivial': len(S['tokens']),
            'rule': mod.RULE,
            'samples': S['samples'],
            'runs': S['done'], 'runs_nontrivial': S['nontrivial'],
            'runs_per_hour': round(S['done'] / hours), 'seeds_per_hour': round(S['done'] / hours),
            'first_run_index': 0, 'last_run_index': S['next'] - 1,
            'simulated_seconds': round(S['sim'], 1),
            'simulated_per_real': round(S['sim'] / max(S['wall'], 1e-6), 1),
            'supervised_steps': S['steps'],
            'faults_injected': faults,
            'distinct_states_measure': mod.RULE,
            'saturation': S['curve'][-12:],
            'tokens_most_common': sorted(S['tokens'].items(), key=lambda x: -x[1])[:25],
            'tokens_rarest': sorted(S['tokens'].items(), key=lambda x: x[1])[:25],
            'determinism_rechecks_mismatching': S['mism'],
            'counters': S['extra'],
            'real_components': mod.REAL, 'simulated_components': mod.STUB,
        },
        'assumptions': mod.ASSUMPTIONS,
        'violations': viol,
        'known_findings_seen': findings.hit,
        'wall_s': round(S['wall'], 1),
    }
    write_evidence(prop, ev)
    print('%s %s seed=%s: %d runs, %d distinct states, %.0f simulated s, %d supervised steps, faults %s, %.0f s' % (
        prop, tier, seed, S['done'], len(S['tokens']), S['sim'], S['steps'], faults, S['wall']))
    if code == 0:
        if S['errors']:
            what, k, e = S['errors'][0]
            print('HARNESS ERROR in %d runs; first: %s %s\n%s' % (len(S['errors']), what, k, e))
            if len(S['errors']) > max(2, 0.02 * S['done']):
                return 3
        if S['mism']:
            print('DETERMINISM: runs %s differ when repeated' % S['mism'][:5])
            return 3
        if S['done'] == 0:
            return 3
    return code


def replay(prop, path, base):
    mod = load(prop)
    rec = json.load(open(path))
    scn = rec.get('scenario', rec)
    pool = Pool(mod, base, 1)
    findings = Findings(prop)
    r = pool.map([scn])[0]
    pool.kill()
    if r.get('harness_error'):
        print(r['harness_error'])
        return 3
    bad = findings.unknown(r)
    for v in bad[:6]:
        print('%s: %s' % (v['kind'], v['detail']))
    print('digest %s (recorded %s)' % (r['digest'], rec.get('digest')))
    for text in findings.hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def main():
    prop = sys.argv[1]
    a = json.loads(sys.argv[2])
    import gemsim.simpool
    gemsim.simpool.install()
    import warnings
    warnings.simplefilter('ignore')
    import gemlog
    assert os.path.abspath(gemlog.__file__).startswith(a['pkg']), gemlog.__file__
    import gemlog.parsers
    assert os.path.abspath(gemlog.parsers.__file__).startswith(a['pkg'])
    from gemsim import host
    host.lib()
    import logging
    logging.getLogger().handlers.clear()
    base = a['base']
    if a.get('replay'):
        return replay(prop, a['replay'], base)
    if a.get('explore'):
        S = search(prop, a['tier'], a['seed'], a['budget'], base, nmax=a.get('n'), start=a.get('start', 0),
                   stop_on_violation=False, verbose=True)
        S['pool'].kill()
        kinds = {}
        for k, scn, r, bad in S['hits']:
            for v in bad:
                kinds.setdefault(v['kind'], []).append(k)
        print(prop, 'runs', S['done'], 'tokens', len(S['tokens']), 'errors', len(S['errors']), 'mism', S['mism'],
              'sim %.0f' % S['sim'], 'wall %.1f' % S['wall'], 'faults', S['faults'], 'extra', S['extra'])
        for kk, v in kinds.items():
            v = sorted(set(v))
            print('   ', kk, len(v), v[:12])
        if a.get('digests'):
            json.dump(S['digests'], open(a['digests'], 'w'))
        return 0
    if a.get('dump') is not None:
        mod = load(prop)
        print(json.dumps(scenario(mod, prop, a['seed'], a['dump'], a['tier']), indent=1))
        return 0
    return check(prop, a['tier'], a['seed'], a['budget'], base)


if __name__ == '__main__':
    import gemsim.engine as _e
    code = _e.main()
    sys.stdout.flush()
    os._exit(code)
