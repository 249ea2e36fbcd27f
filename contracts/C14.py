"""C14: what a repository match returns"""
from contracts.common import *
from contracts.lib import AbsPkg, AbsVer, selection
from pyvc.vc import goal
from pyvc import sym as psym
import pkm.api.repositories.repository as Rp
import pkm.api.versions.version as V
import pkm.api.versions.version_specifiers as S
from pkm.api.dependencies.dependency import Dependency

M = 'pkm.api.repositories.repository:AbstractRepository'
ASSUMPTIONS = ["is_compatible_with of a package and what _do_match finds are arbitrary (they are other components' contracts)",
               'Dependency.parse gives the dependency a text denotes']


class Packages:
    def __init__(self, env):
        self.n = z3.Int('found')
        assume(self.n >= 0)
        self.compat, self.pre = z3.Function('compatible', I, B), z3.Function('prerelease', I, B)
        self.env = env
        self.seq = SymSeq(self.n, lambda i: AbsPkg(self, i), 'list')
        register_input('packages', self, Packages.conc)

    def listed(self):
        v = psym.VList()
        v.sym = self.seq
        return v

    def is_compatible(self, p, env):
        prove('compatibility with the environment of the request', env is self.env)
        return SymBool(self.compat(p.i))

    def version(self, p):
        return AbsVer(self.pre(p.i))

    def want(self, allows):
        j = z3.Int('j!w')
        final = z3.Exists([j], z3.And(0 <= j, j < self.n, self.compat(j), z3.Not(self.pre(j))))
        return lambda i: z3.And(self.compat(i), z3.Or(allows, z3.Not(self.pre(i)), z3.Not(final)))

    @staticmethod
    def conc(self, m):
        ev = lambda e: z3.is_true(m.eval(e, model_completion=True))
        n = min(m.eval(self.n, model_completion=True).as_long(), 6)
        return [[ev(self.compat(z3.IntVal(i))), ev(self.pre(z3.IntVal(i)))] for i in range(n)]


class AbsSpec:
    def __init__(self, b):
        self.b = b

    def allows_pre_or_dev_releases(self):
        return self.b


class AbsDep:
    def __init__(self, b):
        self.version_spec = AbsSpec(b)


def matching(given_as_text):
    env = object()
    ps = Packages(env)
    allows = sym_bool('asks_for_prereleases')
    register_input('allows', allows)
    dep = AbsDep(allows)
    asked = []

    class AbsRepo(Rp.AbstractRepository):
        def _do_match(self, d, e):
            asked.append(d is dep and e is env)
            return ps.listed()

    text = sym_str('text')
    with patched((Dependency, 'parse', staticmethod(lambda t: dep if t is text else None))):
        got = AbsRepo('r').match(text if given_as_text else dep, env)
    cover('matched')
    prove('the repository is asked for the dependency and the environment', asked == [True])
    selection('result', got, ps.n, ps.want(allows.e))


@goal('C14', functions=[f'{M}.match', f'{M}._filter_prereleases', 'pkm.utils.iterators:partition'])
def match_of_a_dependency():
    matching(False)


@goal('C14', functions=[f'{M}.match'])
def match_of_a_text():
    matching(True)


@goal('C14', functions=['pkm.api.versions.version:Version.is_pre_or_dev_release'])
def what_a_prerelease_is():
    a = SV('a')
    prove('standard: pre or dev part', iff(a.v.is_pre_or_dev_release(), z3.Or(z3.Not(a.pre_none), z3.Not(a.dev_none))))
    prove('url', iff(sym_url('u').is_pre_or_dev_release(), False))
    prove('named', iff(sym_named('n').is_pre_or_dev_release(), False))


def is_pre(a):
    return z3.Or(z3.Not(a.pre_none), z3.Not(a.dev_none))


SP = 'pkm.api.versions.version_specifiers'


@goal('C14', functions=[f'{SP}:VersionMatch.allows_pre_or_dev_releases', f'{SP}:StandardVersionRange.allows_pre_or_dev_releases',
                        f'{SP}:VersionSpecifier.allows_pre_or_dev_releases'])
def clauses_asking_for_prereleases():
    a, b = SV('a'), SV('b')
    prove('required version', iff(S.VersionMatch(a.v).allows_pre_or_dev_releases(), is_pre(a)))
    inc = sym_bool('inc')
    for lo, hi, exp in ((a.v, None, is_pre(a)), (None, b.v, is_pre(b)), (a.v, b.v, z3.Or(is_pre(a), is_pre(b)))):
        r = S.StandardVersionRange.__new__(S.StandardVersionRange)  # any bounds, also contradictory ones
        r.min, r.max, r.includes_min, r.includes_max = lo, hi, inc, False
        prove('range bounds', iff(truthv(r.allows_pre_or_dev_releases()), exp))
    prove('no clause', iff(S.AllowAllVersions.allows_pre_or_dev_releases(), False))


def truthv(x):
    return psym.truth(x) if x is not None else False


@goal('C14', functions=[f'{SP}:VersionsUnion.allows_pre_or_dev_releases', f'{SP}:HetroVersionIntersection.allows_pre_or_dev_releases'])
def combinations_asking_for_prereleases():
    n = z3.Int('segments')
    assume(n >= 2)
    f = z3.Function('segment_asks', I, B)

    class AbsSegment(AbsSpec):
        def __init__(self, i):
            super().__init__(SymBool(f(i)))

    u = S.VersionsUnion.__new__(S.VersionsUnion)
    segs = psym.VList()
    segs.sym = SymSeq(n, lambda i: AbsSegment(i), 'list')
    u.segments = segs
    j = z3.Int('j!u')
    prove('union: some segment', iff(truthv(u.allows_pre_or_dev_releases()), z3.Exists([j], z3.And(0 <= j, j < n, f(j)))))
    h = S.HetroVersionIntersection.__new__(S.HetroVersionIntersection)
    b = sym_bool('std')
    h.standard_spec = AbsSpec(b)
    g = z3.Function('excluded_pre', I, B)
    m = z3.Int('excluded')
    assume(m >= 1)
    h.blacklist = SymSeq(m, lambda i: AbsVer(g(i)), 'list')
    r = form(truthv(h.allows_pre_or_dev_releases()))
    prove('exclusions keep what the rest asks for', z3.Implies(b.e, r))
    prove('nothing asks: no', z3.Implies(z3.And(z3.Not(b.e), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(g(j))))), z3.Not(r)))


def to_cases(goal, inputs):
    out = []
    ps = inputs.get('packages')
    if isinstance(ps, list):
        vs = [['1.0a1' if pre else '1.0', int(c)] for c, pre in ps]
        for spec in ('', '>=1.0a1', '>=1.0'):
            out += [{'spec': spec, 'vers': vs, 'text': t} for t in (False, True)]
    for spec in ('==1.0a1', '>=1.0a1', '<2.0rc1', '>=1.0b1,<2', '<1.0.dev3', '!=1.0', '==1.0'):
        out.append({'spec': spec, 'vers': [['1.0', 1], ['1.0a1', 1], ['1.1.dev2', 1]], 'text': False})
    return out
