"""random absolute normalised path pairs (shared prefixes, sibling names extending one another, ancestors, equal paths):
is_relative_to against component prefixing, path_to joined back and normalised; all with a watchdog for non-termination"""
import os
import signal
from pathlib import Path

RULE = __doc__
NAMES = ['a', 'b', 'ab', 'a.b', 'abc', 'lib', 'lib64', 'site', 'site-packages', 'x y', '..a', 'a..', '...', '.h']


def rp(rng):
    return [rng.choice(NAMES) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 6]))]


def cases(rng, tier):
    small = [[], ['a'], ['b'], ['ab'], ['a', 'b'], ['a', 'ab'], ['ab', 'a'], ['a', 'b', 'a'], ['a', 'b', 'b']]
    for a in small:
        for b in small:
            yield {'p': a, 'r': b}
    while True:
        a = rp(rng)
        c = rng.random()
        if c < .3:
            b = a[:rng.randint(0, len(a))] + rp(rng)
        elif c < .5 and a:
            b = a[:-1] + [a[-1] + rng.choice(NAMES)] + rp(rng)[:1]
        else:
            b = rp(rng)
        if rng.random() < .5:
            a, b = b, a
        yield {'p': a, 'r': b}


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def check(case):
    from pkm.utils.files import is_relative_to, path_to
    p, r = (Path('/', *case[k]) for k in 'pr')
    exp = case['p'][:len(case['r'])] == case['r']
    got = is_relative_to(p, r)
    if bool(got) != exp:
        return f'is_relative_to({p}, {r}) is {got}'
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 3)
    try:
        q = path_to(r, p)
    except Hang:
        return f'path_to({r}, {p}) does not end'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if q.is_absolute() or os.path.normpath(r / q) != str(p):
        return f'path_to({r}, {p}) is {q}'
