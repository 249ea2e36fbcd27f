"""C16: orphan packages and installation trees against reachability"""
from contracts.common import *
from contracts.lib import selection
from pyvc.vc import goal
from pyvc import sym as psym, heap
from pyvc.heap import Universe, HeapContract, Recursion
from pyvc.vdict import VDict
import pkm.api.packages.site_packages as SP
from pkm.api.packages.package import PackageDescriptor

M = 'pkm.api.packages.site_packages'
ASSUMPTIONS = ['package_name_key is any function from names to keys (C08 is its contract)',
               'the packages of a site carry different name keys (they are held in a dictionary by key) and that key is the key of '
               'the name their metadata gives',
               'reachability is the least set that holds the roots and is closed under dependencies: minimality is used for the '
               'set the code computed']

NK = z3.Function('name_key', R, R)
KEY = z3.Function('pkg.key', I, R)
AT = z3.Function('pkg.at', R, I)       # the package with a key
INST = z3.Function('pkg.installed', R, B)
REQ = z3.Function('pkg.requested', I, B)
DN = z3.Function('pkg.deps', I, I)     # number of dependencies
NM = z3.Function('pkg.dep.name', I, I, R)
APP = z3.Function('pkg.dep.applicable', I, I, B)


class AbsReq:
    pass


class AbsDep(psym.Sym):
    """dependency j of package i"""
    __slots__ = ('p', 'j', 'i')

    def __init__(self, p, j):
        self.p, self.j, self.i = p, j, j

    @property
    def package_name(self):
        return SymStr(NM(self.p, self.j))

    def is_applicable_for(self, env, extras):
        return SymBool(APP(self.p, self.j))

    def __bool__(self):
        return True


class AbsMeta:
    def __init__(self, i):
        self.dependencies = SymSeq(DN(i), lambda j: AbsDep(i, j), 'list')


class AbsInst(psym.Sym):
    """package i of the site"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, AbsInst) else False

    def __ne__(self, o):
        return SymBool(self.i != o.i) if isinstance(o, AbsInst) else True

    __hash__ = psym.Sym.__hash__

    def __bool__(self):
        return True

    def __vc_is__(self, o):
        return self == o

    def __vc_reindex__(self, a, b):
        return AbsInst(z3.substitute(self.i, (a, b)))

    @property
    def name_key(self):
        return SymStr(KEY(self.i))

    @property
    def user_request(self):
        return SymOpt(z3.Not(REQ(self.i)), AbsReq())

    @property
    def published_metadata(self):
        return AbsMeta(self.i)

    def dependencies(self, target, extras=None):
        i = self.i
        return SymSeq(DN(i), lambda j: AbsDep(i, j), 'list', lambda j: APP(i, j))


class AbsIndex(psym.Sym):
    """the packages of the site by key"""
    __slots__ = ('n',)

    def __init__(self):
        self.n = z3.Int('site.n')
        assume(self.n >= 0)
        x = z3.Int('x!n')
        k = z3.Real('k!n')
        assume(z3.ForAll([x], z3.And(KEY(x) > 0, KEY(x) < 1), patterns=[KEY(x)]))
        assume(z3.ForAll([x], z3.Implies(self.rng(x), z3.And(INST(KEY(x)), AT(KEY(x)) == x)), patterns=[KEY(x)]))
        assume(z3.ForAll([k], z3.Implies(INST(k), z3.And(self.rng(AT(k)), KEY(AT(k)) == k)), patterns=[AT(k)]))
        assume(z3.ForAll([x], DN(x) >= 0, patterns=[DN(x)]))
        register_input('site', self, AbsIndex.conc)

    def rng(self, x):
        return z3.And(0 <= x, x < self.n)

    @staticmethod
    def conc(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        n = min(ev(self.n).as_long(), 4)
        out = []
        for a in range(n):
            deps = []
            for j in range(min(ev(DN(a)).as_long(), 4)):
                k = NK(NM(a, j))
                deps.append([ev(AT(k)).as_long() if z3.is_true(ev(INST(k))) else -1, z3.is_true(ev(APP(a, j)))])
            out.append({'requested': z3.is_true(ev(REQ(a))), 'dependencies': deps})
        return out

    def _k(self, k):
        return psym.se(runtime.unopt(k))

    def get(self, k, d=None):
        e = self._k(k)
        r = SymOpt(z3.Not(INST(e)), AbsInst(AT(e)))
        if d is None:
            return r
        return AbsInst(AT(e)) if cur_decide(INST(e)) else d

    def __getitem__(self, k):
        if not cur_decide(INST(self._k(k))):
            raise KeyError('<key>')
        return AbsInst(AT(self._k(k)))

    def __vc_in__(self, k):
        return SymBool(INST(self._k(k)))

    def values(self):
        return SymSeq(self.n, lambda i: AbsInst(i), 'list')

    def items(self):
        return SymSeq(self.n, lambda i: (SymStr(KEY(i)), AbsInst(i)), 'list')

    def keys(self):
        return SymSeq(self.n, lambda i: SymStr(KEY(i)), 'list')

    __vc_seq__ = keys


def cur_decide(e):
    return psym.cur().decide(e)


def site():
    """a SitePackages whose scanned packages are arbitrary"""
    idx = AbsIndex()

    class Target:
        env = None

    class Env:
        path = None
        installation_target = Target

    s = SP.SitePackages(Env, None, None)
    s.__dict__['_cached__name_to_packages'] = idx
    u = Universe(idx.n, AbsInst, lambda x: x.i if isinstance(x, AbsInst) else None, lambda i: SymStr(KEY(i)))
    return s, idx, u


def setup():
    del heap.active[:]
    del runtime.fn_hooks[:]
    return patched((PackageDescriptor, 'package_name_key', staticmethod(lambda n: SymStr(NK(psym.se(n))))))


def edges(dom, app):
    """every dependency of a package in dom that is installed leads into `to`"""
    a, j = z3.Ints('a!e j!e')

    def f(to, dom=dom):
        k = NK(NM(a, j))
        return z3.ForAll([a, j], z3.Implies(z3.And(dom(a), 0 <= j, j < DN(a), app(a, j), INST(k)), to(AT(k))))
    return f


ALL = lambda a, j: z3.BoolVal(True)


@goal('C16', functions=[f'{M}:SitePackages.find_orphan_packages', f'{M}:SitePackages.installed_packages', f'{M}:SitePackages.installed_package',
                        'pkm.utils.sequences:pop_or_none', 'pkm.utils.sets:add_if_absent'], setup=setup, feas_ms=100)
def orphans_are_the_unreachable_packages():
    s, idx, u = site()
    if psym.S.bounded is not None:
        return orphans_bounded(s, idx)
    REACH = z3.Function('reach', I, B)
    a = z3.Int('a!r')
    assume(z3.ForAll([a], z3.Implies(z3.And(u.rng(a), REQ(a)), REACH(a))))
    inreach = lambda x: z3.And(u.rng(x), REACH(x))
    assume(edges(inreach, ALL)(REACH))

    def candidates(mem, mem0, i, sq):
        q = z3.Int('q!c')
        for x in mem:
            yield ('reachable', x), z3.ForAll([q], z3.Implies(z3.And(u.rng(q), mem[x](q)), REACH(q)))
            for y in mem:
                if x != y:
                    both = lambda e, x=x, y=y: z3.Or(mem[x](e), mem[y](e))
                    if x < y:
                        yield ('roots', x, y), z3.ForAll([q], z3.Implies(z3.And(u.rng(q), REQ(q)), both(q)))
                        yield ('complement', x, y), z3.ForAll([q], z3.Implies(u.rng(q), mem[x](q) == z3.Not(mem[y](q))))
                    yield ('edges', x, y), edges(lambda e, x=x: z3.And(u.rng(e), mem[x](e)), ALL)(both)

    heap.active.append(HeapContract(u, candidates))
    try:
        res = s.find_orphan_packages()
    finally:
        heap.active.pop()
    mem = result_membership(u, res)
    keep = lambda e: z3.Not(mem(e))
    # minimality of REACH, for the set of packages that are not reported
    closed = z3.And(z3.ForAll([a], z3.Implies(z3.And(u.rng(a), REQ(a)), keep(a))), edges(lambda e: z3.And(u.rng(e), keep(e)), ALL)(keep))
    t = z3.Int(psym.S.fresh_name('pkg'))
    prove('packages that are not reported hold the requested ones and what they depend on', closed)
    assume(z3.ForAll([a], z3.Implies(z3.And(u.rng(a), REACH(a)), keep(a))))
    assume(u.rng(t))
    prove('reported iff not reachable', mem(t) == z3.Not(REACH(t)))
    twice(res)
    cover('orphans')


def result_membership(u, res):
    r = psym.as_seq(res)
    if r is None:
        raise psym.Unsupported('result')
    v = psym.VList()
    v.sym = r
    try:
        return heap.membership(u, v)
    except heap._No:
        raise psym.Unsupported('a result that is no package of the site')


def twice(res):
    r = psym.as_seq(res)
    k, l = z3.Int(psym.S.fresh_name('k')), z3.Int(psym.S.fresh_name('l'))
    psym.assume_feasible(z3.And(psym.in_range(r, k), psym.in_range(r, l), k < l))
    prove('no package twice', runtime.unopt(r.at(k)).i != runtime.unopt(r.at(l)).i)


def orphans_bounded(s, idx):
    N = psym.S.bounded + 1
    psym.assume_feasible(idx.n <= N)
    x = z3.Int('x!b')
    assume(z3.ForAll([x], DN(x) <= 2))
    res = list(s.find_orphan_packages())
    # reachability by iteration
    reach = [z3.And(idx.n > a, REQ(a)) for a in range(N)]
    edge = lambda a, b: z3.And(idx.n > a, idx.n > b, z3.Or([z3.And(DN(a) > j, INST(NK(NM(a, j))), AT(NK(NM(a, j))) == b) for j in range(2)]))
    for _ in range(N):
        reach = [z3.Or(reach[b], *[z3.And(reach[a], edge(a, b)) for a in range(N)]) for b in range(N)]
    for a in range(N):
        inres = z3.Or([z3.BoolVal(False)] + [p.i == a for p in res])
        prove('reported iff not reachable', z3.Implies(idx.n > a, inres == z3.Not(reach[a])))


@goal('C16', functions=[f'{M}:SitePackages.find_requested_packages', f'{M}:SitePackages.installed_packages'], setup=setup)
def requested_packages():
    s, idx, u = site()
    selection('requested', s.find_requested_packages(), idx.n, lambda i: REQ(i))
    cover('requested')


@goal('C16', functions=[f'{M}:SitePackages.installed_package'], setup=setup)
def the_package_with_a_name():
    s, idx, u = site()
    nm = sym_str('name')
    r = s.installed_package(nm)
    e = NK(nm.e)
    none, val = (r.none, r.val) if isinstance(r, SymOpt) else (z3.BoolVal(r is None), r)
    prove('found iff installed', none == z3.Not(INST(e)))
    if val is not None:
        prove('the one with that key', z3.Implies(INST(e), KEY(val.i) == e))
    cover('found')


@goal('C16', functions=[f'{M}:InstalledPackage.dependencies'], setup=setup)
def applicable_dependencies():
    class T:
        env = object()

    ip = SP.InstalledPackage(None, None)
    ip.__dict__['_cached_published_metadata'] = AbsMeta(z3.IntVal(0))
    assume(DN(0) >= 0)
    selection('dependencies', ip.dependencies(T, None), DN(0), lambda j: APP(0, j))
    cover('dependencies')


@goal('C16', functions=[f'{M}:SitePackages.installation_tree_of', 'pkm.utils.dicts:put_if_absent'], setup=setup, feas_ms=100)
def the_tree_is_what_the_package_reaches():
    s, idx, u = site()
    TO = z3.Function('reaches', I, I, B)
    x, y, j = z3.Ints('x!t y!t j!t')
    k = lambda a, j: NK(NM(a, j))
    step = lambda a, j: z3.And(0 <= j, j < DN(a), APP(a, j), INST(k(a, j)))
    if psym.S.bounded is None:
        assume(z3.ForAll([x], z3.Implies(u.rng(x), TO(x, x))))
        assume(z3.ForAll([x, y, j], z3.Implies(z3.And(u.rng(x), u.rng(y), TO(x, y), step(y, j)), TO(x, AT(k(y, j))))))
        assume(z3.ForAll([x, y, j], z3.Implies(z3.And(u.rng(x), u.rng(y), step(x, j), TO(AT(k(x, j)), y)), TO(x, y))))
    if psym.S.bounded is not None:
        raise psym.Unsupported('bounded run of the tree')

    def post(p, m0, m1):
        q = z3.Int('q!p')
        for n in m1:
            c0, c1 = m0[n], m1[n]
            yield f'the package is in {n}', c1(p)
            yield f'{n} only grows', z3.ForAll([q], z3.Implies(z3.And(u.rng(q), c0(q)), c1(q)))
            yield f'what is new in {n} can be reached', z3.ForAll([q], z3.Implies(z3.And(u.rng(q), c1(q), z3.Not(c0(q))), TO(p, q)))
            yield f'{n} holds what the new ones need', edges(lambda e: z3.And(u.rng(e), c1(e), z3.Not(c0(e))), APP)(c1)

    def candidates(mem, mem0, i, sq):
        q, t = z3.Ints('q!c t!c')
        for n in mem:
            c0, c1 = mem0[n], mem[n]
            new = lambda e: z3.And(u.rng(e), c1(e), z3.Not(c0(e)))
            yield ('grows', n), z3.ForAll([q], z3.Implies(z3.And(u.rng(q), c0(q)), c1(q)))
            yield ('edges', n), edges(new, APP)(c1)
            if sq is not None:
                d0 = runtime.unopt(sq.at(t))
                if isinstance(d0, AbsDep):
                    yield ('reached', n), z3.ForAll([q], z3.Implies(new(q), TO(d0.p, q)))
                    yield ('done', n), z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < i, INST(k(d0.p, d0.j))), c1(AT(k(d0.p, d0.j)))))

    h = HeapContract(u, candidates, for_loops=True)
    rec = Recursion(h, post)
    heap.active.append(h)
    runtime.fn_hooks.append(rec.wrap)
    nm = sym_str('name')
    try:
        res = s.installation_tree_of(nm)
    finally:
        heap.active.pop()
        runtime.fn_hooks.pop()
    root = NK(nm.e)
    if not psym.cur().decide(INST(root)):
        prove('nothing for a package that is not installed', z3.BoolVal(len(res) == 0) if not isinstance(res, psym.Sym) else z3.BoolVal(False))
        return
    mem = result_membership(u, res)
    t = z3.Int(psym.S.fresh_name('pkg'))
    prove('the root is in its tree and the tree is closed', z3.And(mem(AT(root)), edges(lambda e: z3.And(u.rng(e), mem(e)), APP)(mem)))
    assume(z3.ForAll([x], z3.Implies(z3.And(u.rng(x), TO(AT(root), x)), mem(x))))
    assume(u.rng(t))
    prove('in the tree iff reached', mem(t) == TO(AT(root), t))
    twice(res)
    cover('tree')


class AbsDI(psym.Sym):
    """dist-info directory i of a site"""
    __slots__ = ('f', 'i')

    def __init__(self, f, i):
        self.f, self.i = f, i

    @property
    def package_name_by_dirname(self):
        return SymStr(self.f.name(self.i))

    def __bool__(self):
        return True


class AbsSite:
    def __init__(self, tag):
        self.n, self.there = z3.Int(tag + '.n'), z3.Bool(tag + '.exists')
        self.name = z3.Function(tag + '.name', I, R)
        x = z3.Int('x!' + tag)
        assume(self.n >= 0)

    def exists(self):
        return SymBool(self.there)

    def holds(self, k):
        x = z3.Int('x!h')
        return z3.And(self.there, z3.Exists([x], z3.And(0 <= x, x < self.n, NK(self.name(x)) == k)))


def _scan(site):
    if not psym.cur().decide(site.there):
        raise FileNotFoundError('scan of a site that does not exist')
    return SymSeq(site.n, lambda i: AbsDI(site, i), 'list')


def setup_scan():
    del heap.active[:]
    del runtime.fn_hooks[:]
    return patched((PackageDescriptor, 'package_name_key', staticmethod(lambda n: SymStr(NK(psym.se(n))))),
                   (SP.DistInfo, 'scan', staticmethod(_scan)))


@goal('C16', functions=[f'{M}:SitePackages._name_to_packages', f'{M}:SitePackages._scan_packages'], setup=setup_scan)
def every_dist_info_is_an_installed_package():
    pure, plat = AbsSite('pure'), AbsSite('plat')
    same = bool(sym_bool('one_site'))
    s = SP.SitePackages(None, pure, pure if same else plat)
    found = SP.SitePackages.__dict__['_name_to_packages']._func(s)
    k = z3.Real('k!s')
    assume(z3.And(k > 0, k < 1))
    has = found.has(SymStr(k)) if isinstance(found, VDict) else z3.BoolVal(SymStr(k) in found)
    prove('a key is there iff a dist-info of that name is', has == z3.Or(pure.holds(k), z3.BoolVal(False) if same else plat.holds(k)))
    psym.assume_feasible(has)
    v = found[SymStr(k)]
    prove('the package of that dist-info', NK(v.dist_info.f.name(v.dist_info.i)) == k)
    prove('that knows its site', v.site is s)
    cover('scanned')


def to_cases(goal, inputs):
    return []
