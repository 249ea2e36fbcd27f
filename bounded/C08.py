"""valid project names built from parts and separator runs, respelled (case, separators) or changed, and arbitrary texts
(any characters) normalised twice; identity is judged by name_key of descriptors and dependencies"""
import re

RULE = __doc__
PARTS = ['a', 'foo', 'Bar', 'x1', '2to3', 'py', 'P', 'zope', 'interface', 'typing', 'extensions', '0', '10']
SEPS = ['-', '_', '.', '--', '-_', '._', '.-.', '__', '-.-']


def respell(rng, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(rng.choice(SEPS))
        out.append(''.join(c.upper() if rng.random() < .3 else c.lower() for c in p))
    return ''.join(out)


def cases(rng, tier):
    while True:
        if rng.random() < .3:
            n = ''.join(rng.choice('aZ09-_. \t/é٣ſK@+b') for _ in range(rng.randint(1, 8)))
            yield {'raw': n}
            continue
        parts = [rng.choice(PARTS) for _ in range(rng.randint(1, 4))]
        other = list(parts)
        if rng.random() < .5:
            c = rng.random()
            i = rng.randrange(len(other))
            if c < .4:
                other[i] = rng.choice(PARTS)
            elif c < .7 and len(other) > 1:
                other[:2] = [other[0] + other[1]]
            else:
                other.insert(i, rng.choice(PARTS))
        yield {'x': respell(rng, parts), 'y': respell(rng, other)}


def canon(n):
    return re.sub(r'[-_.]+', '-', n).lower()


def check(case):
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import StandardVersion
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.versions.version_specifiers import AllowAllVersions
    v = StandardVersion((1,))
    if 'raw' in case:
        try:
            n = PackageDescriptor.normalize_name(case['raw'])
        except ValueError:
            if re.search('[A-Za-z0-9]', case['raw']):
                return f"name {case['raw']!r} refused"
            return
        if PackageDescriptor.normalize_name(n) != n:
            return f"normalising {case['raw']!r} gives {n!r}, again {PackageDescriptor.normalize_name(n)!r}"
        if not re.fullmatch(r'[A-Za-z0-9]([A-Za-z0-9._-]*[A-Za-z0-9])?', n):
            return f"normalised {case['raw']!r} is {n!r}"
        k = PackageDescriptor(case['raw'], v).name_key
        if k != PackageDescriptor(n, v).name_key or k != PackageDescriptor.package_name_key(k):
            return f"key of {case['raw']!r} is {k!r}, of its normal form {PackageDescriptor(n, v).name_key!r}"
        return
    x, y = case['x'], case['y']
    same = canon(x) == canon(y)
    keys = [(PackageDescriptor(n, v).name_key, PackageDescriptor.package_name_key(n),
             Dependency(n, AllowAllVersions).package_name_key) for n in (x, y)]
    for a in keys[0]:
        for b in keys[1]:
            if (a == b) != same:
                return f'keys of {x!r} and {y!r}: {keys}'
