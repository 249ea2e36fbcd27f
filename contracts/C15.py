"""C15: the operations an installation plan gives"""
from contracts.common import *
from pyvc.vc import goal
from pyvc import sym as psym
from pyvc.vdict import VDict, key_clash
import pkm.api.packages.package_installation as PI
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation import PackageOperation as Op, StoreMode

M = 'pkm.api.packages.package_installation'
ASSUMPTIONS = ['package_name_key is any function from names to keys here (C08 is its contract); versions and requests are '
               'compared by any equality',
               'a plan holds at most one package per name (besides user request packages), as does a site; the store modes '
               'asked for do not name one package twice']

NK = z3.Function('name_key', R, R)
MODES = list(StoreMode)


class AbsVal(psym.Sym):
    """a value of which only equality is known"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, AbsVal) else False

    def __ne__(self, o):
        return SymBool(self.e != o.e) if isinstance(o, AbsVal) else True

    __hash__ = psym.Sym.__hash__

    def __bool__(self):
        return True


class AbsMode(AbsVal):
    def __init__(self, e):
        super().__init__(e)
        assume(z3.And(e >= 0, e < len(MODES)))

    def _e(self, o):
        return o.e if isinstance(o, AbsMode) else z3.IntVal(MODES.index(o)) if o in MODES else None

    def __eq__(self, o):
        e = self._e(o)
        return SymBool(self.e == e) if e is not None else False

    def __ne__(self, o):
        e = self._e(o)
        return SymBool(self.e != e) if e is not None else True

    def __vc_is__(self, o):
        return self == o

    __hash__ = psym.Sym.__hash__


def opt_req(none, e):
    return SymOpt(none, AbsVal(e))


class AbsPackage(psym.Sym):
    """package i of a family (the plan's or the site's)"""
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, AbsPackage) and o.fam is self.fam else False

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    __hash__ = psym.Sym.__hash__

    def __vc_is__(self, o):
        return self == o

    def __bool__(self):
        return True

    def __vc_reindex__(self, a, b):
        return AbsPackage(self.fam, z3.substitute(self.i, (a, b)))

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if PI._UserRequestPackage in ts:
            return SymBool(self.fam.isreq(self.i))
        if PI.InstalledPackage in ts:
            return self.fam.installed
        return PI.Package in ts

    @property
    def name(self):
        return SymStr(self.fam.name(self.i))

    @property
    def name_key(self):
        return SymStr(self.fam.key(self.i))

    @property
    def descriptor(self):
        return self

    @property
    def version(self):
        return AbsVal(self.fam.ver(self.i))

    @property
    def user_request(self):
        if not self.fam.installed:
            raise AttributeError('user_request')
        return opt_req(self.fam.noreq(self.i), self.fam.req(self.i))

    @property
    def installation_info(self):
        if not self.fam.installed:
            raise AttributeError('installation_info')
        return AbsInfo(self)


class AbsInfo:
    def __init__(self, p):
        self.store_mode = AbsMode(p.fam.mode(p.i))


class Family:
    def __init__(self, tag, installed):
        self.tag, self.installed = tag, installed
        self.n = z3.Int(tag + '.n')
        assume(self.n >= 0)
        f = lambda a, s: z3.Function(f'{tag}.{a}', I, s)
        self.name, self.ver, self.mode, self.req = f('name', R), f('ver', I), f('mode', I), f('req', I)
        self.noreq = f('noreq', B)
        self.isreq = (lambda i: z3.BoolVal(False)) if installed else f('isreq', B)
        # one package per name; the name is free, only its key matters
        x, y = z3.Ints('x!k y!k')
        rng = lambda v: z3.And(0 <= v, v < self.n, z3.Not(self.isreq(v)))
        self.kf = f('key', R)
        assume(z3.ForAll([x], z3.And(self.kf(x) > 0, self.kf(x) < 1, self.name(x) > 0, self.name(x) < 1, NK(self.name(x)) == self.kf(x))))
        assume(z3.ForAll([x, y], z3.Implies(z3.And(rng(x), rng(y), self.kf(x) == self.kf(y)), x == y),
                         patterns=[z3.MultiPattern(self.kf(x), self.kf(y))]))
        register_input(tag, self, Family.conc)

    def key(self, i):
        return self.kf(i)

    def listed(self):
        v = psym.VList()
        v.sym = SymSeq(self.n, lambda i: AbsPackage(self, i), 'list')
        return v

    @staticmethod
    def conc(self, m):
        n = min(m.eval(self.n, model_completion=True).as_long(), 4)
        e = lambda x: str(m.eval(x, model_completion=True))
        return [[e(self.kf(z3.IntVal(i))), e(self.ver(z3.IntVal(i))), e(self.mode(z3.IntVal(i))), e(self.noreq(z3.IntVal(i))),
                 e(self.req(z3.IntVal(i))), e(self.isreq(z3.IntVal(i)))] for i in range(n)]


class Requests(psym.Sym):
    """user requests by name key"""

    def __init__(self):
        self.has, self.val = z3.Function('asked', R, B), z3.Function('request', R, I)

    def _k(self, k):
        return psym.se(runtime.unopt(k))

    def get(self, k, d=None):
        return opt_req(z3.Not(self.has(self._k(k))), self.val(self._k(k))) if d is None else \
            (AbsVal(self.val(self._k(k))) if cur().decide(self.has(self._k(k))) else d)

    def __getitem__(self, k):
        if not cur().decide(self.has(self._k(k))):
            raise KeyError('<key>')
        return AbsVal(self.val(self._k(k)))

    def __vc_in__(self, k):
        return SymBool(self.has(self._k(k)))

    def __bool__(self):
        return True


def segments(ops):
    """the (package, operation) entries of the result"""
    if isinstance(ops, VDict):
        return ops.parts()
    return [psym.lift(list(ops.items()), 'list')]


def setup():
    return patched((PackageDescriptor, 'package_name_key', staticmethod(lambda n: SymStr(NK(psym.se(n))))))


def right_operations(given, which):
    plan, site = Family('plan', False), Family('site', True)
    ms, mname, mmode = z3.Int('modes.n'), z3.Function('modes.name', I, R), z3.Function('modes.mode', I, I)
    assume(ms >= 0)
    x, y = z3.Ints('x!m y!m')
    assume(z3.ForAll([x], z3.And(mname(x) > 0, mname(x) < 1, NK(mname(x)) > 0, NK(mname(x)) < 1)))
    assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < ms, 0 <= y, y < ms, NK(mname(x)) == NK(mname(y))), x == y),
                     patterns=[z3.MultiPattern(NK(mname(x)), NK(mname(y)))]))

    class AbsTarget:
        class site_packages:
            @staticmethod
            def installed_packages():
                return site.listed()

    reqs = Requests()
    packages = plan.listed()
    p = PI.InstallationPlan(AbsTarget, packages, reqs)
    modes = runtime.dict_hook(SymSeq(ms, lambda i: (SymStr(mname(i)), AbsMode(mmode(i))), 'list'))
    p.store_modes = modes if given else None
    ops = p.compute_operations_for_target(AbsTarget)
    cover('computed')
    prove('computing changes nothing', packages.sym.n is plan.n and p.packages is packages and p.user_requests is reqs
          and (p.store_modes is modes or p.store_modes is None))

    AUTO = z3.IntVal(MODES.index(StoreMode.AUTO))
    mode_of = z3.Function('mode_of', R, I)
    assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < ms), mode_of(NK(mname(x))) == mmode(x))) if p.store_modes is not None
           else z3.BoolVal(True))
    k = z3.Real('k!m')
    some_mode = lambda e: z3.And(z3.BoolVal(given), z3.Exists([x], z3.And(0 <= x, x < ms, NK(mname(x)) == e)))
    mode = lambda e: z3.If(some_mode(e), mode_of(e), AUTO)
    q = z3.Int('q!i')
    at_site = lambda e, q: z3.And(0 <= q, q < site.n, site.kf(q) == e)
    in_plan = lambda e, i: z3.And(0 <= i, i < plan.n, z3.Not(plan.isreq(i)), plan.kf(i) == e)
    same = lambda i, q, e: (plan.ver(i) == site.ver(q), z3.Or(mode(e) == AUTO, mode(e) == site.mode(q)),
                            z3.Or(z3.Not(reqs.has(e)), z3.And(z3.Not(site.noreq(q)), site.req(q) == reqs.val(e))))

    segs = segments(ops)
    r = segs[psym.cur().choose(len(segs))] if segs else psym.lift([], 'list')

    def entry(a):
        pk, op = r.at(a)
        return runtime.unopt(pk), runtime.unopt(op)

    # every entry is right
    a = z3.Int(psym.S.fresh_name('entry'))
    psym.assume_feasible(psym.in_range(r, a))
    pk, op = entry(a)
    e = pk.fam.kf(pk.i)
    i, q = z3.Int(psym.S.fresh_name('pi')), z3.Int(psym.S.fresh_name('qi'))
    if which == 'both':
        # a name both in the plan and in the site
        psym.assume_feasible(z3.And(in_plan(e, i), at_site(e, q)))
        v, m, u = same(i, q, e)
        want = z3.And(v, m, u)
        prove('both: skip or update', op in (Op.SKIP, Op.UPDATE))
        prove('both: skip <=> nothing differs', z3.BoolVal(op is Op.SKIP) == want)
        if op is Op.UPDATE and pk.fam is site:
            prove('both: another version or store mode comes from the plan', z3.And(v, m))
        cover('both')
    elif which == 'new':
        psym.assume_feasible(z3.And(in_plan(e, i), z3.ForAll([q], z3.Not(at_site(e, q)))))
        prove('new: installed from the plan', op is Op.INSTALL and pk.fam is plan)
        cover('new')
    else:
        psym.assume_feasible(z3.ForAll([i], z3.Not(in_plan(e, i))))
        prove('not in the plan: removed', op is Op.REMOVE and pk.fam is site)
        prove('not in the plan: an installed one', z3.And(0 <= pk.i, pk.i < site.n) if pk.fam is site else z3.BoolVal(False))
        cover('gone')


@goal('C15', functions=[f'{M}:InstallationPlan.compute_operations_for_target'], setup=setup, limit_s=200, timeout_ms=20000, feas_ms=40)
def exactly_one_entry():
    plan, site = Family('plan', False), Family('site', True)

    class AbsTarget:
        class site_packages:
            @staticmethod
            def installed_packages():
                return site.listed()

    p = PI.InstallationPlan(AbsTarget, plan.listed(), Requests())
    ops = p.compute_operations_for_target()
    segs = segments(ops)
    key = lambda r: lambda a: runtime.unopt(r.at(a)[0]).name_key
    # no two entries for one name
    for x, r in enumerate(segs):
        for y, r2 in enumerate(segs[x:], x):
            i, j, rng, f = key_clash(r, key(r), r2, key(r2))
            u, w = z3.Int(psym.S.fresh_name('u')), z3.Int(psym.S.fresh_name('w'))
            sub = lambda e: z3.substitute(e, (i, u), (j, w))
            prove('at most one entry per name', z3.Implies(z3.And(sub(rng), u != w if x == y else True), z3.Not(sub(f))))
    # no name without an entry
    b = psym.bvar('b')
    fam = plan if sym_bool('of_plan') else site
    g = z3.Int(psym.S.fresh_name('g'))
    psym.assume_feasible(z3.And(0 <= g, g < fam.n, z3.Not(fam.isreq(g))))
    hit = [psym.exists_at(r, lambda t: SymBool(psym.eqf(runtime.unopt(t[0]).name_key, SymStr(fam.kf(g))))).e for r in segs]
    prove('every name has an entry', z3.Or(hit))
    cover('entries')


OPS = [f'{M}:InstallationPlan.compute_operations_for_target', f'{M}:_by_name_key']
for _given in (True, False):
    for _which in ('both', 'new', 'gone'):
        def _goal(g=_given, w=_which):
            right_operations(g, w)
        _goal.__name__ = f'operation_of_a_package_{_which}_{"with" if _given else "without"}_store_modes'
        goal('C15', functions=OPS, setup=setup, limit_s=200, timeout_ms=20000, feas_ms=40)(_goal)


@goal('C15', functions=OPS[:1], setup=setup)
def the_target_asked_for():
    asked = []

    class AbsTarget:
        def __init__(self, n):
            self.n = n
            self.site_packages = self

        def installed_packages(self):
            asked.append(self.n)
            return []

    p = PI.InstallationPlan(AbsTarget('own'), [], Requests())
    prove('explicit', p.compute_operations_for_target(AbsTarget('given')) == {} and asked == ['given'])
    asked.clear()
    prove('own', p.compute_operations_for_target() == {} and asked == ['own'])


def to_cases(goal, inputs):
    return []
