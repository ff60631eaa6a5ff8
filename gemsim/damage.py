"""Seeded card and firmware faults for scenario files."""


def byte_fault(rng, f):
    k = rng.choice(['torn', 'torn', 'torn', 'zero', 'ff', 'garble', 'dup', 'drop', 'bitflip', 'empty', 'tiny',
                    'missing', 'version', 'snline', 'nohdr', 'torn0', 'blank', 'blank'])
    n = rng.choice([512, 512, 4096, 1, 7])
    if k == 'torn':
        return {'kind': 'torn', 'frac': round(rng.random(), 5)}
    if k == 'torn0':
        return {'kind': 'torn', 'frac': round(rng.random() * 0.01, 6), 'hdr': rng.random() < 0.7}
    if k in ('zero', 'ff', 'garble', 'dup', 'drop'):
        return {'kind': k, 'frac': round(rng.random(), 5), 'n': n, 'align': n >= 512, 'seed': rng.randrange(1 << 20)}
    if k == 'bitflip':
        return {'kind': k, 'frac': round(rng.random(), 6), 'bit': rng.randrange(8)}
    if k == 'blank':
        return {'kind': k, 'frac': round(rng.uniform(0, 0.95), 5), 'style': rng.choice(['end', 'end', 'start', 'D', 'text', 'nan', 'comma'])}
    if k == 'tiny':
        return {'kind': k, 'n': rng.choice([1, 5, 9, 10, 11, 15])}
    if k == 'version':
        return {'kind': k, 'text': rng.choice(['#GemCSV9.99', '#GemCSV', 'garbage', ''])}
    if k == 'snline':
        return {'kind': k, 'text': rng.choice(['', 'S,', 'X,Y', 'S,999', '\xff\xff'])}
    return {'kind': k}


def overrun(rng, f):
    n = rng.choice([1, 1, 2, 3, 4, 5, 10, 30, 90, 99, 103, 110, 200])
    return {'kind': 'overrun', 'at': round(rng.uniform(1, f['dur'] - 4), 2), 'n': n}


def damage(rng, gem, p, kinds=('byte', 'gps', 'overrun')):
    from .props.C01 import gps_faults
    for f in gem['files']:
        if rng.random() >= p:
            continue
        k = rng.choice(kinds)
        if k == 'byte':
            f.setdefault('faults', []).append(byte_fault(rng, f))
        elif k == 'overrun':
            f.setdefault('faults', []).append(overrun(rng, f))
        else:
            f.setdefault('faults', [])
            one = {'files': [f]}
            gps_faults(rng, one, 1.0)
