"""compressed tags over interpreters/abis/platforms near the interpreter's own, on generated Linux (glibc, musl, both architectures,
32 bit) and Windows introspections, against a direct transcription of the support rule; artifact lists against brute force"""
from bounded.gap import need

RULE = __doc__
IMPL = {'cpython': 'cp', 'pypy': 'pp'}


def renv(rng):
    py = rng.choice([[3, 10], [3, 7], [3, 8], [3, 12], [3, 9], [2, 7], [3, 11]])
    e = {'py': py, 'impl': 'cpython' if rng.random() < .85 else 'pypy', 'sys': 'Linux' if rng.random() < .85 else 'Windows', 'bits': 64}
    if e['sys'] == 'Linux':
        e['arch'] = rng.choice(['x86_64', 'x86_64', 'aarch64', 'i686', 'ppc64le'])
        c = rng.random()
        e['glibc'] = rng.choice([[2, 17], [2, 31], [2, 35], [2, 5], [2, 12], [3, 1]]) if c < .7 else None
        e['musl'] = rng.choice([[1, 1], [1, 2], [1, 5]]) if c >= .6 else None
        if e['arch'] == 'x86_64' and rng.random() < .1:
            e['bits'] = 32
    else:
        e['arch'] = rng.choice(['win-amd64', 'win32'])
    if e['impl'] == 'cpython' and rng.random() < .2:
        e['build'] = {'Py_DEBUG': rng.choice([None, 0, 1]), 'WITH_PYMALLOC': rng.choice([None, 0, 1]), 'Py_UNICODE_SIZE': rng.choice([None, 2, 4]),
                      'refs': rng.random() < .4, 'ext': rng.random() < .3, 'wide': rng.random() < .6}
    return e


def cpython_abis(e):
    M, m = e['py']
    b = e.get('build') or {'Py_DEBUG': None, 'WITH_PYMALLOC': None, 'Py_UNICODE_SIZE': None, 'refs': False, 'ext': False, 'wide': True}
    debug = b['Py_DEBUG'] == 1 or b['Py_DEBUG'] is None and (b['refs'] or b['ext'])
    malloc = b['WITH_PYMALLOC'] != 0 and (M, m) < (3, 8)
    u = (b['Py_UNICODE_SIZE'] == 4 or b['Py_UNICODE_SIZE'] is None and b['wide']) and (M, m) < (3, 3)
    r = {f'cp{M}{m}' + ('d' if debug else '') + ('m' if malloc else '') + ('u' if u else '')}
    return r | {f'cp{M}{m}'} if debug and (M, m) >= (3, 8) else r


def platforms(rng, e):
    if e['sys'] == 'Windows':
        return rng.choice(['any', 'win_amd64', 'win32', 'win_amd64', 'linux_x86_64', 'manylinux1_x86_64'])
    a = e['arch'] if rng.random() < .8 else rng.choice(['x86_64', 'aarch64', 'i686', 'ppc64', '64'])
    c = rng.random()
    if c < .12:
        return 'any'
    if c < .22:
        return 'linux_' + a
    if c < .4:
        return rng.choice(['manylinux1_', 'manylinux2010_', 'manylinux2014_']) + a
    if c < .7:
        return f'manylinux_{rng.choice([2, 2, 2, 2, 1, 3])}_{rng.choice([4, 5, 12, 17, 18, 28, 31, 34, 35, 36, 100])}_' + a
    if c < .92:
        return f'musllinux_{rng.choice([1, 1, 1, 2, 0])}_{rng.choice([0, 1, 2, 3, 5])}_' + a
    return rng.choice(['win_amd64', 'macosx_10_9_x86_64', 'macosx_11_0_arm64', 'win32'])


def rtag(rng, e):
    M, m = e['py']
    pick = lambda f: '.'.join(dict.fromkeys(f() for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))))

    def ipt():
        nm = rng.choice(['py', 'cp', 'cp', 'pp', IMPL[e['impl']], IMPL[e['impl']]])
        if rng.random() < .3:
            return nm + str(rng.choice([M, M, 2, 3]))
        x = rng.choice([m, m, m - 1, m + 1, 0, 9, 10, 2])
        c = rng.random()
        if c < .06:
            return rng.choice([f'{nm}{M}_{max(x, 0)}_{rng.choice([0, 1, 9, 12])}', f'{nm}{M}{max(x, 0)}x', f'{nm}{M}x', nm, 'jy' + str(M), f'{nm}t{M}', 'none'])
        return f'{nm}{rng.choice([M, M, M, 2, 3])}{max(x, 0)}' if c < .87 else f'{nm}{M}_{max(x, 0)}'

    def abi():
        if e['impl'] == 'cpython' and rng.random() < .25:
            return rng.choice(sorted(cpython_abis(e)))
        return rng.choice(['none', 'none', f'cp{M}{m}', f'cp{M}{m}', 'abi3', f'cp{M}{m}m', f'cp{M}{m - 1}', f'cp{M}{m + 1}', f'cp{M}{m}d',
                           'pypy39_pp73', 'cp3'])
    return f'{pick(ipt)}-{pick(abi)}-{pick(lambda: platforms(rng, e))}'


def cases(rng, tier):
    while True:
        e = renv(rng)
        if rng.random() < .6:
            yield {'env': e, 'tag': rtag(rng, e)}
        else:
            arts = []
            for _ in range(rng.randint(0, 5) if rng.random() < .97 else rng.randint(6, 150)):
                req = rng.choice([None, None, '>=3.6', '<3.9', '==3.10.*', '>=3.10', '!=3.10.*', '<3', '>=2.7,<3.12'])
                arts.append([f'p-1.0-{rng.choice(["", "1-"])}{rtag(rng, e)}.whl' if rng.random() < .7 else 'p-1.0.tar.gz', req])
            yield {'env': e, 'arts': arts}


def mkspec(e):
    plat = e['arch'].replace('-', '_') if e['sys'] == 'Windows' else 'linux_' + e['arch']
    if e['bits'] == 32 and plat == 'linux_x86_64':
        plat = 'linux_i686'
    M, m = e['py']
    if e['impl'] == 'cpython':
        abis = cpython_abis(e) | {'none'}
        if (M, m) >= (3, 2):
            abis.add('abi3')
    else:
        abis = {'pypy39_pp73', 'none'}
    return plat, abis


LEG = {'manylinux1': (2, 5), 'manylinux2010': (2, 12), 'manylinux2014': (2, 17)}


def supported(e, tag):
    plat, abis = mkspec(e)
    M, m = e['py']

    def ipt(x):
        for nm in ('py', IMPL[e['impl']]):
            if x.startswith(nm):
                v = x[len(nm):]
                if not v or not v.replace('_', '').isdigit():
                    return False
                if len(v) == 1:
                    return int(v) == M
                a, b = v.split('_')[:2] if '_' in v else (v[0], v[1:])
                return int(a) == M and int(b) <= m
        return False

    def plt(x):
        if x in ('any', plat, 'linux_' + e['arch'] if e['sys'] == 'Linux' else plat):
            return True
        if e['sys'] != 'Linux':
            return False
        arch = plat[len('linux_'):]
        if not x.endswith('_' + arch):
            return False
        b = x[:-len(arch) - 1]
        if b in LEG:
            return e['glibc'] is not None and tuple(e['glibc']) >= LEG[b]
        p = b.split('_')
        if len(p) == 3 and p[0] == 'manylinux':
            return e['glibc'] is not None and tuple(e['glibc']) >= (int(p[1]), int(p[2]))
        if len(p) == 3 and p[0] == 'musllinux':
            return e['musl'] is not None and e['musl'][0] == int(p[1]) and e['musl'][1] >= int(p[2])
        return False
    i, a, p = (t.split('.') for t in tag.split('-'))
    return any(map(ipt, i)) and any(x in abis for x in a) and any(map(plt, p))


def introspection(e):
    from pkm.api.environments import environment_introspection as EI
    need(EI, '_ElfData')
    need(EI._ElfData, 'read')

    class Elf:
        def have_compatible_abi(self, arch):
            return True

        def compute_musl_version(self):
            return tuple(e['musl']) if e.get('musl') else None
    EI._ElfData.read = classmethod(lambda cls, f: Elf())
    M, m = e['py']
    b = e.get('build') or {}
    conf = {'CS_GNU_LIBC_VERSION': 'glibc %d.%d' % tuple(e['glibc'])} if e.get('glibc') else {}
    return EI.EnvironmentIntrospection({
        'sysconfig': {'paths': {}, 'paths_by_scheme': {}, 'vars': {'SOABI': 'pypy39-pp73'} if e['impl'] == 'pypy' else {k: v for k, v in b.items() if k[0].isupper() and v is not None},
                      'platform': e['arch'] if e['sys'] == 'Windows' else 'linux-' + e['arch'].replace('_', '_')},
        'sys': {'implementation': {'name': e['impl']}, 'version_info': [M, m, 4, 'final', 0], 'has_totalrefcount': b.get('refs', False),
                'maxunicode': 0x10FFFF if b.get('wide', True) else 0xFFFF, 'maxsize': 2 ** 31 - 1 if e['bits'] == 32 or e['arch'] in ('i686', 'win32') else 2 ** 63 - 1,
                'executable': '/nonexistent', 'platform': 'linux'},
        'importlib': {'machinery': {'EXTENSION_SUFFIXES': ['.so'] + (['_d.pyd'] if b.get('ext') else [])}},
        'platform': {'system': e['sys'], 'mac_ver': ['', ['', '', ''], ''], 'machine': e['arch'], 'python_implementation': 'CPython',
                     'release': '', 'version': '', 'python_version_tuple': [str(M), str(m), '4'], 'python_version': f'{M}.{m}.4'},
        'os': {'conf': conf, 'name': 'posix', 'bits': 64}, 'site': {'packages': []}})


def check(case):
    from pkm.api.versions.version import StandardVersion
    from pkm.api.versions.version_specifiers import VersionSpecifier
    e = case['env']
    i = introspection(e)
    if 'tag' in case:
        s = i.compatibility_score(case['tag'])
        exp = supported(e, case['tag'])
        if (s is not None) != exp:
            return f"tag {case['tag']} on {e}: score {s}, supported {exp}"
        ia, ab, pl = (t.split('.') for t in case['tag'].split('-'))
        if len(ia) * len(ab) * len(pl) > 1:
            single = [x for x in (i.compatibility_score(f'{a}-{b}-{c}') for a in ia for b in ab for c in pl) if x is not None]
            if s != max(single, default=None):
                return f"tag {case['tag']} on {e}: score {s}, the best of its parts has {max(single, default=None)}"
        return
    return check_arts(case)


def check_arts(case):
    from pkm.api.versions.version import StandardVersion
    from pkm.api.versions.version_specifiers import VersionSpecifier
    from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
    from pkm.api.packages.package import PackageDescriptor
    e = case['env']
    i = introspection(e)
    iv = (*e['py'], 4)

    class Env:
        interpreter_version = StandardVersion(release=iv)

        def compatibility_tag_score(self, tag):
            return i.compatibility_score(tag)

    class P(AbstractPackage):
        def _retrieve_artifact(self, a):
            raise AssertionError

        def to_dict(self):
            return {}
    arts = [PackageArtifact(f, VersionSpecifier.parse(r) if r else None) for f, r in case['arts']]
    got = P(PackageDescriptor('p', StandardVersion((1, 0))), arts).best_artifact_for(Env())

    def ok_py(r):
        if r is None:
            return True
        for c in r.split(','):
            op = c[:2] if c[1] in '=' else c[:1]
            v = c[len(op):]
            pre = v.endswith('.*')
            vt = tuple(int(x) for x in v.replace('.*', '').split('.'))
            n = max(len(vt), 3)
            a, b = iv, vt + (0,) * (n - len(vt))
            r1 = {'>=': a >= b, '<': a < b, '==': iv[:len(vt)] == vt if pre else a == b,
                  '!=': iv[:len(vt)] != vt if pre else a != b}[op]
            if not r1:
                return False
        return True
    tagof = lambda f: '-'.join(f[:-4].split('-')[-3:])
    fit = [(a, f) for a, (f, r) in zip(arts, case['arts']) if ok_py(r)]
    wheels = [(a, i.compatibility_score(tagof(f))) for a, f in fit if f.endswith('.whl') and supported(e, tagof(f))]
    srcs = [a for a, f in fit if not f.endswith('.whl')]
    if wheels:
        mine = [s for a, s in wheels if a is got]
        if not mine:
            return f'chose {got} of {case["arts"]} on {e}: not one of the fitting wheels'
        if any(mine[0] < s for _, s in wheels):
            return f'chose {got} of {case["arts"]} on {e}: a better wheel exists'
    elif srcs:
        if not any(a is got for a in srcs):
            return f'chose {got} of {case["arts"]} on {e}: expected a source archive'
    elif got is not None:
        return f'chose {got} of {case["arts"]} on {e}: nothing fits'
