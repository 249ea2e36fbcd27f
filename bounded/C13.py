"""random locks of several environments (names respelled), one environment relocked, saved to a scratch file and loaded; entries, the
locked versions and the lock-preference order against a direct model"""
from pathlib import Path

from bounded import fsbox

RULE = __doc__
UNPRIV = True
NAMES = ['a', 'Foo-bar', 'foo_bar', 'zope.interface', 'b', 'x-y', 'X.Y']


def preload():
    import pkm.resolution.packages_lock  # noqa


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        big = k % 150 == 0
        names = NAMES + [f'pk-{i}' for i in range(120)] if big else NAMES
        envs = ['e1', 'e2', 'e3']
        locks = []
        for e in envs:
            seen = set()
            for _ in range(rng.randint(0, 4) if not big else rng.randint(20, 200)):
                n = rng.choice(names)
                if key(n) in seen:
                    continue
                seen.add(key(n))
                locks.append([e, n, rng.choice(['1.0', '2.0', '3.0', '1.0a1'])])
        rng.shuffle(locks)
        inst = {}
        for _ in range(rng.randint(0, 4) if not big else rng.randint(20, 200)):
            n = rng.choice(names)
            if key(n) not in {key(k) for k in inst}:
                inst[n] = rng.choice(['1.0', '2.0', '4.0'])
        yield {'locks': locks, 'env': rng.choice(envs), 'inst': inst, 'ask': rng.choice(NAMES), 'save': rng.random() < .5,
               'offer': [rng.choice(['1.0', '2.0', '3.0', '4.0', '1.0a1', '5']) for _ in range(rng.randint(0, 6) if not big else rng.randint(7, 200))]}


def key(n):
    import re
    return re.sub('[-_.]+', '-', n).lower()


class Env:
    def __init__(self, h, packages=()):
        self.markers_hash = h

        class SP:
            def installed_packages(self):
                return list(packages)
        self.site_packages = SP()


class Pk:
    def __init__(self, d):
        self.descriptor = d
        self.name, self.version, self.name_key = d.name, d.version, d.name_key

    def __repr__(self):
        return f'{self.name} {self.version}'


def check(case):
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import Version
    import pkm.resolution.packages_lock as L
    from bounded.gap import need
    need(L, '_LockedVersion')
    D = lambda n, v: PackageDescriptor(n, Version.parse(v))
    lock = L.PackagesLock([L._LockedVersion(e, D(n, v)) for e, n, v in case['locks']])
    ask, me = case['ask'], case['env']
    show = lambda ds: [(key(d.name), str(d.version)) for d in ds]

    def verify(lock, entries, when):
        for e in ['e1', 'e2', 'e3', 'new']:
            got = show(lock.env_specific_locks(Env(e)))
            if sorted(got) != sorted((key(n), v) for x, n, v in entries if x == e):
                return f'{when}: locks of {e} are {got}, entries {entries}'
            for a in {ask, *[n for _, n, _ in entries]}:
                rel = [(x, key(n), v) for x, n, v in entries if key(n) == key(a)]
                got = show(lock.locked_versions(Env(e), a))
                if any(g not in [r[1:] for r in rel] for g in got):
                    return f'{when}: locked versions of {a} for {e} are {got}, entries {rel}'
                own = [r[1:] for r in rel if r[0] == e]
                if own and (not got or got[0] not in own):
                    return f'{when}: locked versions of {a} for {e} are {got}, own lock {own}'
                if sorted(set(got)) != sorted({r[1:] for r in rel}):
                    return f'{when}: locked versions of {a} for {e} are {got}, entries {rel}'
        return None
    entries = case['locks']
    r = verify(lock, entries, 'at first')
    if r:
        return r
    pk = [Pk(D(ask, v)) for v in case['offer']]
    lv = {str(d.version) for d in lock.locked_versions(Env(me), ask)}
    got = lock.sort_packages_by_lock_preference(Env(me), list(pk))
    exp = [p for p in pk if str(p.version) in lv] + [p for p in pk if str(p.version) not in lv]
    if [id(x) for x in got] != [id(x) for x in exp]:
        return f'lock preference order of {pk} with locks {lv} is {got}'
    lock = lock.update_lock(Env(me, [Pk(D(n, v)) for n, v in case['inst'].items()]))
    entries = [e for e in entries if e[0] != me] + [[me, n, v] for n, v in case['inst'].items()]
    r = verify(lock, entries, 'after locking ' + me)
    if r:
        return r
    if case['save']:
        with fsbox.Box() as box:
            f = Path(box.path, 'x/lock.toml')
            f.parent.mkdir()
            lock.save(f)
            r = verify(L.PackagesLock.load(f), entries, 'after saving and loading')
            if r:
                return r
    lock.unlock_packages([ask])
    return verify(lock, [e for e in entries if key(e[1]) != key(ask)], 'after unlocking ' + ask)
