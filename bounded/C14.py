"""random package lists (compatible or not, pre-, dev- and final versions, url and named ones) offered by a repository subclass, matched with
dependencies whose specifiers do or do not mention a pre-release, against a direct model"""

RULE = __doc__
VERS = ['1.0', '1.1', '2.0', '1.0a1', '1.1.dev2', '2.0rc1', '1.0.post1', '1.0.post1.dev1', '3', 'https://x/y', 'branch']
SPECS = ['', '==1.0', '>=1.0', '>=1.0a1', '<2.0,>=1.0', '==1.0a1', '!=1.0', '>=1.0.dev1', '~=1.1', '<2.0rc1', '>1.0,<3,!=2.0', '>=1.0b1,<2', '==1.*', '<1.0.dev3']


def cases(rng, tier):
    for s in SPECS:
        for vs in ([['1.0', 1], ['1.0a1', 1]], [['1.0', 0], ['1.0a1', 1]], [['1.0a1', 1]], [], [['1.0a1', 0]], [['1.0.dev1', 1], ['2.0', 1], ['2.0rc1', 0]]):
            yield {'spec': s, 'vers': vs, 'text': False}
        yield {'spec': s, 'vers': [['1.0a1', 1]] * 300, 'text': False}
    while True:
        yield {'spec': rng.choice(SPECS), 'vers': [[rng.choice(VERS), int(rng.random() < .65)] for _ in range(rng.randint(0, 6) if rng.random() < .97 else rng.randint(7, 400))],
               'text': rng.random() < .3}


PRE = {'1.0a1', '1.1.dev2', '2.0rc1', '1.0.post1.dev1', '1.0.dev1'}
PRESPEC = {'>=1.0a1', '==1.0a1', '>=1.0.dev1', '<2.0rc1', '>=1.0b1,<2', '<1.0.dev3'}


def check(case):
    from pkm.api.repositories.repository import AbstractRepository
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.packages.package import Package, PackageDescriptor
    from pkm.api.versions.version import Version
    from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
    env = object()
    asked = []

    class P(Package):
        def __init__(self, v, ok):
            self._d, self.ok = PackageDescriptor('p', Version.parse(v)), ok

        @property
        def descriptor(self):
            return self._d

        def dependencies(self, *a, **k):
            return []

        def is_compatible_with(self, e):
            assert e is env
            return bool(self.ok)

        def install_to(self, *a, **k):
            raise AssertionError

        def __repr__(self):
            return f"{self.version}{'' if self.ok else '(incompatible)'}"

        def to_dict(self):
            return {}
    pk = [P(v, ok) for v, ok in case['vers']]

    class R(AbstractRepository):
        def _do_match(self, d, e):
            asked.append((d, e))
            return list(pk)
    dep = Dependency('p', VersionSpecifier.parse(case['spec']) if case['spec'] else AllowAllVersions)
    got = R('r').match('p ' + case['spec'] if case['text'] else dep, env)
    ok = [p for p in pk if p.ok]
    if case['spec'] not in PRESPEC:
        fin = [p for p, (v, o) in zip(pk, case['vers']) if o and v not in PRE]
        if fin:
            ok = fin
    if [id(x) for x in got] != [id(x) for x in ok]:
        return f"match of {case['spec']!r} over {pk} is {got}, expected {ok}"
    if len(asked) != 1 or asked[0][0].package_name != 'p' or asked[0][1] is not env:
        return f'asked the repository {asked}'
