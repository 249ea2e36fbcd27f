"""pairs of versions (close relatives preferred): equality against an independent key, hash congruence, set membership;
url and named versions likewise"""
from bounded import vgen

RULE = __doc__


def cases(rng, tier):
    for u in (['https+https://x/y', 'https://x/y'], ['git+https://x/y', 'https://x/y'], ['https://a', 'https://a'],
              ['https://a', 'https://b'], ['git+https://a/b', 'git+https://a/b']):
        yield {'urls': u}
    for n in (['foo', 'foo'], ['foo', 'bar'], ['1.0', '1.0.0']):
        yield {'names': n}
    base = [{'release': r, 'epoch': e, 'pre': p, 'post': q, 'dev': d, 'local': l}
            for r in ([0], [0, 0], [1], [1, 0], [1, 0, 0], [1, 0, 1], [10], [1, 2, 0, 0]) for e in (None, 0, 1) for p in (None, ['a', 0])
            for q in (None, 0, 1) for d in (None, 0) for l in (None, ['a'])]
    pairs = [(rng.choice(base), rng.choice(base)) for _ in range(3000)]
    for a in base:
        b = dict(a, release=a['release'] + [0])
        pairs.append((a, b))
        pairs.append((a, dict(b, epoch=0 if a['epoch'] is None else a['epoch'])))
        pairs.append((a, dict(b, local=None)))
    for a, b in pairs:
        yield {'a': a, 'b': b}
    while True:
        a = vgen.rversion(rng)
        b = vgen.tweak(rng, a) if rng.random() < .9 else vgen.rversion(rng)
        if rng.random() < .3:
            b = dict(a, release=a['release'] + [0] * rng.randint(0, 3))
        yield {'a': a, 'b': b}


def check(case):
    from pkm.api.versions.version import NamedVersion, UrlVersion
    if 'urls' in case or 'names' in case:
        x, y = case.get('urls') or case.get('names')
        mk = UrlVersion.parse if 'urls' in case else NamedVersion
        a, b = mk(x), mk(y)
        if (x == y) and a != b:
            return f'{a!r} != itself parsed again'
        if 'names' in case and (a == b) != (x == y):
            return f'NamedVersion {x} == {y} gives {a == b}'
        if a == b and hash(a) != hash(b):
            return f'{a!r} == {b!r} but their hashes differ'
        return None
    a, b = vgen.build(case['a']), vgen.build(case['b'])
    want = vgen.key(case['a']) == vgen.key(case['b'])
    if (a == b) != want or (b == a) != want or (a != b) == want:
        return f'{a} == {b} gives {a == b}, expected {want}'
    wantnl = vgen.key(dict(case['a'], local=None)) == vgen.key(dict(case['b'], local=None))
    if bool(a.equals_to(b, False)) != wantnl or bool(a.equals_to(b, True)) != want:
        return f'{a}.equals_to({b}) wrong'
    if want and hash(a) != hash(b):
        return f'{a} == {b} but hash {hash(a)} != {hash(b)}'
    if want and (len({a, b}) != 1 or b not in {a} or {a: 1}.get(b) != 1):
        return f'set/dict keyed by {a} does not find {b}'
    if a == NamedVersion(str(a)) or a == str(a):
        return f'{a} equals something that is not a standard version'
    return None
