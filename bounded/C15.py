"""random plans against random installed packages (names respelled, versions, store modes and user requests equal or not), operations compared
with a direct model; the plan and the installed packages are compared with copies"""
import re

RULE = __doc__
NAMES = ['a', 'Foo-Bar', 'foo_bar', 'foo.bar', 'b', 'B', 'x--y', 'x-y', 'c']


def key(n):
    return re.sub('[-_.]+', '-', n).lower()


def pick(rng, n, names=NAMES):
    out, seen = [], set()
    for _ in range(n):
        x = rng.choice(names)
        if key(x) not in seen:
            seen.add(key(x))
            out.append(x)
    return out


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 60 == 0:
            more = NAMES + [f'pk-{i}' for i in range(90)]
            pick_ = lambda rng, n: pick(rng, n * 25, more)
        else:
            pick_ = pick
        ver = lambda: rng.choice(['1.0', '1.0', '1.0.0', '2.0'])
        req = lambda: rng.choice([None, None, '>=1', '==1.0', '>1'])
        yield {'inst': [[n, ver(), rng.choice(['auto', 'copy', 'editable']), req()] for n in pick_(rng, rng.randint(0, 5))],
               'plan': [[n, ver()] for n in pick_(rng, rng.randint(0, 5))], 'req': {n: req() for n in pick_(rng, rng.randint(0, 3))},
               'modes': None if rng.random() < .3 else {n: rng.choice(['auto', 'copy', 'editable']) for n in pick_(rng, rng.randint(0, 4))},
               'reuse': rng.random() < .2, 'root': rng.random() < .5}


def check(case):
    import pkm.api.packages.package_installation as PI
    from pkm.api.packages.package_installation_info import StoreMode, PackageInstallationInfo
    from pkm.api.packages.package import Package, PackageDescriptor
    from pkm.api.dependencies.dependency import Dependency
    from pkm.api.versions.version import Version
    modes = {'auto': StoreMode.AUTO, 'copy': StoreMode.COPY, 'editable': StoreMode.EDITABLE}

    class P(Package):
        def __init__(self, n, v):
            self._d = PackageDescriptor(n, Version.parse(v))

        @property
        def descriptor(self):
            return self._d

        def dependencies(self, *a, **k):
            return []

        def is_compatible_with(self, e):
            return True

        def install_to(self, *a, **k):
            raise AssertionError('installed while planning')
        update_at = uninstall = install_to

        def to_dict(self):
            return {}

    class I(P):
        def __init__(self, n, v, m, r):
            super().__init__(n, v)
            self.installation_info = PackageInstallationInfo(store_mode=modes[m])
            self.user_request = Dependency.parse(f'{n} {r}') if r else None
    inst = [I(*x) for x in case['inst']]

    class SP:
        def installed_packages(self):
            return list(inst)

    class T:
        site_packages = SP()
    plan = []
    for n, v in case['plan']:
        same = [i for i in inst if key(i.name) == key(n)]
        plan.append(same[0] if case['reuse'] and same else P(n, v))
    packages = list(plan)
    if case['root']:
        from bounded.gap import need
        need(PI, '_UserRequestPackage')
        packages.insert(len(packages) // 2, PI._UserRequestPackage([]))
    reqs = {PackageDescriptor.package_name_key(n): Dependency.parse(f'{n} {r}') for n, r in case['req'].items() if r}
    p = PI.InstallationPlan(T(), packages, reqs)
    p.store_modes = None if case['modes'] is None else {n: modes[m] for n, m in case['modes'].items()}
    c1, c2, c3 = list(packages), dict(reqs), dict(p.store_modes) if p.store_modes is not None else None
    ops = p.compute_operations_for_target()
    if p.packages != c1 or p.user_requests != c2 or p.store_modes != c3:
        return 'computing the operations changed the plan'
    got = {}
    for k, o in ops.items():
        if not any(k is x for x in plan + inst):
            return f'operation {o} for {k}, which is neither planned nor installed'
        if key(k.name) in got:
            return f'two operations for {k.name}'
        got[key(k.name)] = (o, k)
    O = PI.PackageOperation
    im = {key(i.name): i for i in inst}
    sm = {key(n): m for n, m in (case['modes'] or {}).items()}
    rq = {key(n): Dependency.parse(f'{n} {r}') for n, r in case['req'].items() if r}
    for x in plan:
        k = key(x.name)
        if k not in got:
            return f'no operation for {x}'
        i = im.get(k)
        if i is None:
            e = O.INSTALL
        elif x.version != i.version or sm.get(k, 'auto') != 'auto' and modes[sm[k]] != i.installation_info.store_mode or \
                k in rq and rq[k] != i.user_request:
            e = O.UPDATE
        else:
            e = O.SKIP
        if got[k][0] != e:
            return f'{x}: {got[k][0]}, expected {e}'
        if e == O.INSTALL and got[k][1] is not x:
            return f'{x}: installs {got[k][1]}'
        if e == O.UPDATE and got[k][1] is not x and (x.version != i.version or sm.get(k, 'auto') != 'auto' and
                                                     modes[sm[k]] != i.installation_info.store_mode):
            return f'{x}: updates to the installed package'
    for k, i in im.items():
        if k not in {key(x.name) for x in plan} and (k not in got or got[k][0] != O.REMOVE or got[k][1] is not i):
            return f'installed {i} is not in the plan: {got.get(k)}'
    if set(got) != {key(x.name) for x in plan} | set(im):
        return f'operations for {sorted(got)}'
