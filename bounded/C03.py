"""expression trees over base specifiers (matches, exclusions, ranges, named/url matches) with bounds from a pool of close
versions (pre, dev and post releases included), every set operation compared pointwise on a version universe; operands are
compared with copies taken before the operation"""
import copy

from bounded import vgen

RULE = __doc__

POOL = ['1.0', '1.0.1', '1.1', '2.0', '2.0.0', '3.0', '1.0a1', '1.0.dev1', '2.0rc1', '2.0.post1', '1.5', '0.9', '10.0', '1!0.5']
PROBES = [v for v in POOL if 'post' not in v] + ['0.1', '0.9.5', '1.0.0.1', '1.0.5', '1.2', '1.7', '2.0b1', '2.1', '2.5', '3.0.1',
                                               '4.0', '11', '1!1', '1.0b2', '2.0.dev1', '0.9.dev3', '3.0a1', '1.0.1rc1', '0!1.0']


def rbase(rng):
    c = rng.random()
    if c < .45:
        a, b = rng.choice(POOL), rng.choice(POOL)
        return ['range', a if rng.random() < .75 else None, b if rng.random() < .75 else None, rng.random() < .5,
                rng.random() < .5]
    if c < .65:
        return ['eq', rng.choice(POOL)]
    if c < .9:
        return ['ne', rng.choice(POOL)]
    if c < .94:
        return [rng.choice(['named', 'nnamed']), rng.choice(['foo', 'bar'])]
    if c < .97:
        return [rng.choice(['url', 'nurl']), rng.choice(['https://a/b', 'git+https://c/d'])]
    return [rng.choice(['all', 'none'])]


def rtree(rng, d):
    if d == 0 or rng.random() < .2:
        return rbase(rng)
    op = rng.choice(['and', 'or', 'or', 'not', 'diff'])
    if op == 'not':
        return ['not', rtree(rng, d - 1)]
    return [op, rtree(rng, d - 1), rtree(rng, d - 1)]


def cases(rng, tier):
    bases = [['eq', '1.0'], ['eq', '2.0'], ['ne', '1.0'], ['ne', '2.0'], ['ne', '3.0'], ['all'], ['none'], ['named', 'foo'], ['nnamed', 'foo'],
             ['range', '1.0', '2.0', True, True], ['range', '1.0', '2.0', False, False], ['range', '2.0', '3.0', False, True],
             ['range', None, '1.0', False, False], ['range', None, '2.0', False, True], ['range', '1.0', None, True, False], ['range', '2.0', None, False, False],
             ['range', '1.0', '3.0', False, True], ['range', '1.5', '1.7', True, True],
             ['and', ['ne', '1.0'], ['ne', '2.0']], ['and', ['ne', '1.0'], ['ne', '3.0']], ['and', ['ne', '1.5'], ['range', '1.0', '2.0', True, True]],
             ['or', ['eq', '1.0'], ['range', '2.0', None, True, False]], ['or', ['range', None, '1.0', False, False], ['range', '2.0', '3.0', True, False]],
             ['and', ['nnamed', 'foo'], ['ne', '1.0']], ['or', ['eq', '1.0'], ['eq', '2.0']], ['or', ['eq', '2.0'], ['eq', '3.0']]]
    for a in bases:
        for b in bases:
            yield {'a': a, 'b': b}
    while True:
        yield {'a': rtree(rng, rng.randint(0, 3)), 'b': rtree(rng, rng.randint(0, 3))}


def build(t):
    from pkm.api.versions.version import StandardVersion, NamedVersion, UrlVersion
    from pkm.api.versions.version_specifiers import VersionSpecifier, VersionMatch, AllowAllVersions, RestrictAllVersions
    P = StandardVersion.parse
    k = t[0]
    if k == 'range':
        a, b = (P(x) if x else None for x in t[1:3])
        imin, imax = bool(a and t[3]), bool(b and t[4])
        if a is not None and b is not None:
            if b < a:
                a, b, imin, imax = b, a, imax, imin
            if a == b:
                imin = imax = True
        return VersionSpecifier.create_range(a, b, imin, imax)
    if k in ('eq', 'ne'):
        return VersionMatch(P(t[1]), k == 'eq')
    if k in ('named', 'nnamed'):
        return VersionMatch(NamedVersion(t[1]), k == 'named')
    if k in ('url', 'nurl'):
        return VersionMatch(UrlVersion.parse(t[1]), k == 'url')
    if k == 'all':
        return AllowAllVersions
    if k == 'none':
        return RestrictAllVersions
    if k == 'not':
        return build(t[1]).inverse()
    x, y = build(t[1]), build(t[2])
    return x.intersect_with(y) if k == 'and' else x.union_with(y) if k == 'or' else x.difference_from(y)


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list))


_probes = None


def probes():
    global _probes
    if _probes is None:
        from pkm.api.versions.version import StandardVersion
        _probes = [StandardVersion.parse(v) for v in PROBES]
    return _probes


def mean(s):
    return [bool(s.allows_version(v)) for v in probes()]


def snap(s):
    """structure of a specifier, deep"""
    d = getattr(s, '__dict__', None)
    if d is None:
        return repr(s)
    r = []
    for k in sorted(d):
        x = d[k]
        if isinstance(x, list):
            r.append((k, [snap(y) for y in x]))
        elif isinstance(x, (set, frozenset)):
            r.append((k, sorted(str(y) for y in x)))
        elif hasattr(x, '__dict__') and 'allows_version' in dir(x):
            r.append((k, snap(x)))
        else:
            r.append((k, str(x)))
    return (type(s).__name__, r)


def check(case):
    A, B = build(case['a']), build(case['b'])
    ma, mb = mean(A), mean(B)
    sa, sb = snap(A), snap(B)
    ops = [('intersect_with', lambda: A.intersect_with(B), [x and y for x, y in zip(ma, mb)]),
           ('union_with', lambda: A.union_with(B), [x or y for x, y in zip(ma, mb)]),
           ('inverse', lambda: A.inverse(), [not x for x in ma]),
           ('difference_from', lambda: A.difference_from(B), [x and not y for x, y in zip(ma, mb)])]
    for name, f, want in ops:
        r = f()
        got = mean(r)
        for v, g, w in zip(probes(), got, want):
            if g != w:
                return f'({A}) {name} ({B}) = {r}: allows {v} -> {g}, expected {w}'
        if snap(A) != sa or snap(B) != sb:
            return f'{name} changed an operand: {sa} {sb} -> {snap(A)} {snap(B)}'
    if A.allows_all(B) and any(y and not x for x, y in zip(ma, mb)):
        return f'({A}).allows_all({B}) is true but it is not a superset'
    if not A.allows_any(B) and any(y and x for x, y in zip(ma, mb)):
        return f'({A}).allows_any({B}) is false but they share a version'
    if snap(A) != sa or snap(B) != sb:
        return 'allows_all/allows_any changed an operand'
    return None
