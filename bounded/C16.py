"""random dependency graphs (cycles, self loops, several requested roots, dependencies on absent packages, respelled names) of installed packages
written as dist-info directories into a scratch site; orphans and installation trees against reachability"""
from pathlib import Path

from bounded import fsbox

RULE = __doc__
UNPRIV = True


def preload():
    import pkm.api.packages.site_packages  # noqa
    import pkm.api.environments.environment  # noqa


def cases(rng, tier):
    yield {'n': 290, 'edges': [[i, i + 1] for i in range(0, 289, 3)], 'req': [i for i in range(290) if i % 3 != 1], 'spell': 1, 'two': True}
    k = 0
    while True:
        k += 1
        n = rng.randint(0, 7) if k % 40 else rng.randint(30, 70)
        p = rng.choice([.1, .2, .3, .5]) if k % 40 else rng.choice([.01, .02, .05])
        yield {'n': n, 'edges': [[i, j] for i in range(n) for j in range(n + 2) if rng.random() < p],
               'req': [i for i in range(n) if rng.random() < (.3 if k % 40 else rng.choice([.02, .9]))], 'spell': rng.randrange(1000), 'two': rng.random() < .3}


def spell(i, s):
    sep = '-_.'[s % 3]
    n = f'pack{sep}n{i}'
    return n.upper() if s % 2 else n


def check(case):
    from pkm.api.packages.site_packages import SitePackages
    n = case['n']
    with fsbox.Box() as box:
        s1, s2 = Path(box.path, 'a'), Path(box.path, 'b')
        s1.mkdir()
        s2.mkdir()
        for i in range(n):
            d = (s2 if case['two'] and i % 2 else s1) / f'pack_n{i}-1.0.dist-info'
            d.mkdir()
            deps = ''.join(f'Requires-Dist: {spell(j, case["spell"] + i + j)}\n' for a, j in case['edges'] if a == i)
            (d / 'METADATA').write_text(f'Metadata-Version: 2.1\nName: {spell(i, case["spell"] // 7 + i)}\nVersion: 1.0\n{deps}')
            if i in case['req']:
                (d / 'REQUESTED').write_text('')

        class T:
            env = None

        class Env:
            path = Path(box.path)
            installation_target = T()
        T.env = Env()
        sp = SitePackages(Env(), s1, s2 if case['two'] else s1)

        def reach(roots):
            seen, todo = set(), [r for r in roots if r < n]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += [j for a, j in case['edges'] if a == x and j < n]
            return seen
        idx = lambda ps: sorted(int(p.name_key.split('n')[-1]) for p in ps)
        got = idx(list(sp.find_orphan_packages()))
        exp = sorted(set(range(n)) - reach(case['req']))
        if got != exp:
            return f'orphans {got}, expected {exp}'
        for i in range(n + 1):
            got = idx(list(sp.installation_tree_of(spell(i, case['spell'] + i))))
            exp = sorted(reach([i]))
            if got != exp:
                return f'installation tree of {i} is {got}, expected {exp}'
        if idx(list(sp.installed_packages())) != list(range(n)):
            return 'installed packages changed'
        if idx(list(sp.find_requested_packages())) != sorted(case['req']):
            return 'requested packages differ'
