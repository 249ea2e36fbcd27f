"""pairs and triples of versions (components from small pools, close relatives of each other preferred), compared by every
operator against an independent PEP 440 key; transitivity follows from agreement with the key"""
from bounded import vgen

RULE = __doc__


def cases(rng, tier):
    # every combination of a small grid first, then random relatives
    pre = [None, ['a', 0], ['a', 1], ['b', 0], ['rc', 2]]
    num = [None, 0, 1]
    grid = [{'release': r, 'pre': p, 'post': q, 'dev': d} for r in ([1], [1, 0]) for p in pre for q in num for d in num]
    pairs = [(a, b) for a in grid for b in grid]
    rng.shuffle(pairs)
    for a, b in pairs[:4000]:
        yield {'a': a, 'b': b}
    labels = [None, ['1'], ['2'], ['10'], ['a'], ['b'], ['ab'], ['1', '1'], ['1', '2'], ['1', '10'], ['1', 'a'], ['a', '1'],
              ['a', 'b'], ['9'], ['11'], ['a', '9'], ['a', '10']]
    for x in labels:
        for y in labels:
            yield {'a': {'release': [1], 'local': x}, 'b': {'release': [1, 0], 'local': y}}
    for k in (['url', 'https://x/y'], ['named', 'foo'], ['named', 'zoo'], ['url', 'git+https://a/b'], ['url', 'zzz://q']):
        for k2 in (['named', 'bar'], ['named', 'foo'], ['std', '1.0'], ['std', '0'], ['std', '1!2.dev1']):
            yield {'k': k, 'k2': k2}
    names = ['Spring', 'spring', 'SPRING', 'a', 'A', 'a-b', 'a_b', 'a1', 'a10', 'a9', 'main', 'Main2', 'feature/x', 'feature/X', '1x']
    for x in names:
        for y in names:
            yield {'k': ['named', x], 'k2': ['named', y]}
    urls = ['https://x/y', 'git+https://x/y', 'https://X/y', 'https://x/y/', 'http://x/y', 'file:///a', 'git+file:///a', 'hg+https://x/y']
    for x in urls:
        for y in urls:
            yield {'k': ['url', x], 'k2': ['url', y]}
    while True:
        a = vgen.rversion(rng)
        b = vgen.tweak(rng, a) if rng.random() < .8 else vgen.rversion(rng)
        yield {'a': a, 'b': b}


def check(case):
    if 'k' in case:
        from pkm.api.versions.version import NamedVersion, UrlVersion, StandardVersion
        mk = {'url': UrlVersion.parse, 'named': NamedVersion, 'std': StandardVersion.parse}
        a, b = mk[case['k'][0]](case['k'][1]), mk[case['k2'][0]](case['k2'][1])
        rank = {'url': 0, 'named': 1, 'std': 2}
        ra, rb = rank[case['k'][0]], rank[case['k2'][0]]
        if ra < rb and not (a < b and not b < a and a != b and b > a):
            return f'{a!r} must sort before {b!r}'
        if ra == rb == 1 and not ((a < b) == (case['k'][1] < case['k2'][1]) and (a == b) == (case['k'][1] == case['k2'][1])):
            return f'named versions {a!r}, {b!r} misordered'
        if ra == rb and (a < b) + (b < a) + (a == b) != 1:
            return f'not exactly one of less, equal, greater holds for {a!r}, {b!r}'
        return None
    a, b = vgen.build(case['a']), vgen.build(case['b'])
    ka, kb = vgen.key(case['a']), vgen.key(case['b'])
    for op, got, want in (('<', a < b, ka < kb), ('>', a > b, ka > kb), ('<=', a <= b, ka <= kb), ('>=', a >= b, ka >= kb),
                          ('==', a == b, ka == kb), ('!=', a != b, ka != kb)):
        if bool(got) != want:
            return f'{a} {op} {b} gives {got!r}, PEP 440 says {want}'
    return None
