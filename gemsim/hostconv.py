"""Running gemlog's commands on the simulated host: card in <root>/raw, user's folder <root>/work."""
import hashlib
import os
import random
import re
import shutil

from . import host, simpool, world


def command(root, cwd, module, argv, listing=None, tz=None, clock=None):
    """What runs inside the simulated main process."""
    import importlib
    import logging
    import sys
    import time
    import warnings
    warnings.simplefilter('ignore')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    simpool.install()
    m = importlib.import_module('gemlog.' + module)
    for name in ('ProcessPoolExecutor', 'as_completed', 'wait'):
        if hasattr(m, name):                       # however the module imported it
            setattr(m, name, {'ProcessPoolExecutor': simpool.SimProcessPoolExecutor,
                              'as_completed': simpool.as_completed, 'wait': simpool.wait}[name])
    if listing is not None:
        host.install_listing(root, listing)
    if tz:
        os.environ['TZ'] = tz
        time.tzset()
    sys.argv = [module] + list(argv)
    return m.main(list(argv))


def _anyfn(root, cwd, fn, args, listing, tz):
    import time
    import warnings
    warnings.simplefilter('ignore')
    os.chdir(cwd)
    if listing is not None:
        host.install_listing(root, listing)
    if tz:
        os.environ['TZ'] = tz
        time.tzset()
    return fn(*args)


def call(ctx, cwd, fn, *args, plan=None, listing=None, tz=None, stdout=None, clock=None):
    """Run fn(*args) (using the real package's functions) as the simulated main process."""
    hr = host.HostRun(ctx.root, plan, clock=clock, stdout=stdout)
    end = hr.run(_anyfn, ctx.root, cwd, fn, args, listing, tz)
    ctx.steps += hr.nops
    ctx.extra['host_runs'] = ctx.extra.get('host_runs', 0) + 1
    for k, n in hr.fired.items():
        ctx.fault(k, n)
    if end['end'] == 'hang':
        ctx.bad('hang', 'the call did not finish under %r' % (plan,))
    return Done(hr, end)


class Done:
    """One finished host run: how it ended, trace, fault counts."""

    def __init__(self, hr, end):
        self.hr, self.end = hr, end
        self.kind = end['end']

    def __repr__(self):
        return 'HostRun(%s %s)' % (self.kind, str(self.end.get('value'))[:300])


def run(ctx, cwd, module, argv, plan=None, clock=None, stdout=None, **kw):
    hr = host.HostRun(ctx.root, plan, clock=clock, stdout=stdout)
    end = hr.run(command, ctx.root, cwd, module, argv, kw.get('listing'), kw.get('tz'))
    ctx.steps += hr.nops
    ctx.extra['concurrent_choices'] = ctx.extra.get('concurrent_choices', 0) + hr.concurrent
    ctx.extra['host_runs'] = ctx.extra.get('host_runs', 0) + 1
    for k, n in hr.fired.items():
        ctx.fault(k, n)
    if end['end'] in ('hang',):
        ctx.bad('hang', 'the command did not finish under %r' % (plan,))
    return Done(hr, end)


def snapshot(folder, prefix=''):
    """{relative path: content hash} of everything below folder."""
    out = {}
    for d, dirs, files in os.walk(folder):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[prefix + os.path.relpath(p, folder)] = hashlib.sha1(fh.read()).hexdigest()[:16]
    return out


def logged(path):
    """Log records [(level, message incl. continuation lines)]."""
    out = []
    try:
        with open(path, errors='replace') as fh:
            text = fh.read()
    except OSError:
        return out
    for line in text.split('\n'):
        m = re.match(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,-?\d+\s+([A-Z]+)\s+(.*)$', line)
        if m:
            out.append([m.group(1), m.group(2)])
        elif out and line:
            out[-1][1] += '\n' + line
    return [tuple(x) for x in out]


def small_gem(rng, used, adequate=True, nfiles=None):
    g = world.pick_gem(rng, used=used, nfiles=nfiles or rng.choice([1, 1, 2, 2, 3]), dur=rng.choice([35, 45, 60]))
    g['gps'] = {'cycle': 0, 'quota': 0, 'noise': 0.05, 'lat': g['gps']['lat'], 'lon': g['gps']['lon'], 'delay': 0}
    return g


def stable_card(rng, ngems):
    """Loggers whose files can all lie in one folder."""
    gems = []
    for k in range(ngems):
        g = small_gem(rng, [x['sn'] for x in gems])
        if g['fmt'] == '0.8' or g.get('txt'):
            if any(x['fmt'] == '0.8' or x.get('txt') for x in gems):
                g['fmt'], g['txt'] = '0.91', False
                g['style'] = 'plain'
        gems.append(g)
    return gems


def clear(path):
    shutil.rmtree(path, ignore_errors=True)
