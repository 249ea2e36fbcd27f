"""C13: locks of several environments"""
from contracts.common import *
from contracts.lib import exactly
from pyvc.vc import goal
from pyvc import sym as psym, runtime, rules
from pyvc.sym import cur, SymOpt
import pkm.resolution.packages_lock as PL
import pkm.utils.iterators as IT
from pyvc import vdict
from pyvc.vdict import VDict
from pkm.api.packages.package import PackageDescriptor

M = 'pkm.resolution.packages_lock'
ASSUMPTIONS = ["groupby is used by its contract: the groups partition the sequence by key, each in the sequence's order (groupby itself is proved "
               'against it: an iteration adds its element to the group of its key, at the end); the order of the groups among each other is not represented',
               'name keys are an uninterpreted function of names (C08 is its contract); versions are compared by any equality',
               'sorting is stable and total (the builtin)']
NK = z3.Function('name_key', R, R)


class Descriptor(psym.Sym):
    """the package of lock entry i, or installed package i"""
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def __bool__(self):
        return True

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, Descriptor) and o.fam is self.fam else False

    __hash__ = psym.Sym.__hash__
    name = property(lambda self: SymStr(self.fam.name(self.i)))
    name_key = property(lambda self: SymStr(NK(self.fam.name(self.i))))
    version = property(lambda self: Ver(self.fam.ver(self.i)))
    descriptor = package = property(lambda self: self)
    env_markers_hash = property(lambda self: SymStr(self.fam.hash(self.i)))

    def __vc_reindex__(self, a, b):
        return type(self)(self.fam, z3.substitute(self.i, (a, b)))


class Installed(Descriptor):
    env_markers_hash = None
    package = None


class Ver(psym.Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, Ver) else False

    def __ne__(self, o):
        return SymBool(self.e != o.e) if isinstance(o, Ver) else True

    __hash__ = psym.Sym.__hash__


class Family:
    def __init__(self, tag, kind=Descriptor):
        self.tag, self.kind = tag, kind
        self.n = z3.Int(tag + '.n')
        assume(self.n >= 0)
        f = lambda a, s: z3.Function(f'{tag}.{a}', I, s)
        self.name, self.ver, self.hash = f('name', R), f('version', I), f('environment', R)
        x = z3.Int('x!f')
        assume(z3.ForAll([x], z3.And(self.name(x) > 0, self.name(x) < 1, NK(self.name(x)) > 0, NK(self.name(x)) < 1,
                                     self.hash(x) > 0, self.hash(x) < 1)))
        register_input(tag, self, Family.conc)

    def listed(self):
        v = psym.VList()
        v.sym = SymSeq(self.n, lambda i: self.kind(self, i), 'list')
        return v

    @staticmethod
    def conc(self, m):
        e = lambda x: str(m.eval(x, model_completion=True))
        c = lambda i: z3.IntVal(i)
        return [[e(NK(self.name(c(i)))), e(self.ver(c(i))), e(self.hash(c(i)))]
                for i in range(min(m.eval(self.n, model_completion=True).as_long(), 4))]


class Groups(psym.Sym):
    """groupby(seq, key) by its contract"""

    def __init__(self, seq, key):
        s = psym.as_seq(runtime.unopt(seq))
        if s is None:
            s = psym.lift(list(seq))
        self.s, self.key = s, key

    def get(self, k, d=None):
        v = psym.VList()
        v.sym = runtime._filtered(self.s, lambda x: self.key(x) == k)
        if psym.S.bounded is not None:
            return v if len(v) else d
        r = psym.exists_at(v.sym, lambda x: True)
        if d is None:
            return SymOpt(z3.Not(form(r)), v)
        return v if cur().decide(form(r)) else d

    def __vc_in__(self, k):
        return psym.exists_at(self.s, lambda x: self.key(x) == k)

    def __getitem__(self, k):
        r = self.get(k)
        if not r:
            raise KeyError('<key>')
        return runtime.unopt(r)

    def values(self):
        if psym.S.bounded is not None:
            return _native_groups(self).values()
        return Parts(self.s)

    def __bool__(self):
        return bool(psym.exists_at(self.s, lambda x: True))


class Parts(psym.Sym):
    def __init__(self, s):
        self.s = s

    def __vc_parts__(self):
        return self.s


def _native_groups(g):
    r = []
    for x in psym.concretise_len(g.s.dense()):
        for k, l in r:
            if bool(g.key(x) == k):
                l.append(x)
                break
        else:
            r.append((g.key(x), [x]))
    return {i: l for i, (k, l) in enumerate(r)}


def by_key(seq, key):
    return Groups(seq, key)


def setup():
    return patched((PL, 'groupby', by_key), (PackageDescriptor, 'package_name_key', staticmethod(lambda n: SymStr(NK(psym.se(n))))))


class Env:
    def __init__(self, h, installed=None):
        self.markers_hash = h
        self.site_packages = self
        self.inst = installed

    def installed_packages(self):
        return self.inst.listed()


def env(name, installed=None):
    h = psym.sym_str(name)
    assume(h.e > 0)
    return Env(h, installed)


def ident(d):
    d = runtime.unopt(d)
    return d.fam, d.i


@goal('C13', functions=[f'{M}:PackagesLock.update_lock', f'{M}:PackagesLock.env_specific_locks', f'{M}:PackagesLock.__init__'], setup=setup)
def locking_one_environment():
    old, inst = Family('locks'), Family('installed', Installed)
    e, h = env('locked environment', inst), env('asked environment')
    lock = PL.PackagesLock(old.listed())
    same = sym_bool('same environment')
    assume((h.markers_hash.e == e.markers_hash.e) if same else (h.markers_hash.e != e.markers_hash.e))
    before = lock.env_specific_locks(h)
    exactly('before: the entries of the environment asked for', before, [(old, old.n, lambda i: old.hash(i) == h.markers_hash.e)], ident)
    r = lock.update_lock(e)
    prove('the lock itself is returned', r is lock)
    after = lock.env_specific_locks(h)
    if same:
        exactly('own: exactly the installed packages', after, [(inst, inst.n, lambda i: z3.BoolVal(True))], ident)
        cover('own')
    else:
        exactly('other environments keep their entries', after, [(old, old.n, lambda i: old.hash(i) == h.markers_hash.e)], ident)
        cover('other')


@goal('C13', functions=[f'{M}:PackagesLock.locked_versions'], setup=setup)
def locked_versions_offered():
    old = Family('locks')
    e = env('environment')
    lock = PL.PackagesLock(old.listed())
    name = psym.sym_str('asked')
    assume(z3.And(name.e > 0, NK(name.e) > 0, NK(name.e) < 1))
    r = lock.locked_versions(e, name)
    mine = lambda i: z3.And(0 <= i, i < old.n, NK(old.name(i)) == NK(name.e))
    j = z3.Int('j!o')
    own = lambda i: z3.And(mine(i), old.hash(i) == e.markers_hash.e)
    has_own = z3.Exists([j], own(j))
    s = psym.as_seq(r)
    t = z3.Int(psym.S.fresh_name('t'))
    nonempty = z3.Exists([j], psym.in_range(s, j))
    if cur().decide(has_own):
        prove('something is offered when the environment has an entry', nonempty)
        d = runtime.unopt(s[0] if psym.S.bounded is None else list(r)[0])
        prove('its own entry comes first', own(d.i) if isinstance(d, Descriptor) and d.fam is old else z3.BoolVal(False))
        cover('own')
    psym.assume_feasible(psym.in_range(s, t))
    d = runtime.unopt(s.at(t))
    prove('only locked entries of the package', mine(d.i) if isinstance(d, Descriptor) and d.fam is old else z3.BoolVal(False))
    cover('offered')


@goal('C13', functions=[f'{M}:PackagesLock.sort_packages_by_lock_preference'], setup=setup)
def order_by_lock_preference():
    pk, locked = Family('packages'), Family('locked')
    e = env('environment')
    x = z3.Int('x!p')
    nm = z3.Real('the name')
    assume(z3.ForAll([x], pk.name(x) == nm))
    asked = []

    class Lock(PL.PackagesLock):
        def locked_versions(self, en, name):
            prove('asked about this environment and package', z3.And(z3.BoolVal(en is e), NK(psym.se(name)) == NK(nm)))
            return locked.listed()
    lock = Lock([])
    given = pk.listed()
    r = lock.sort_packages_by_lock_preference(e, given)
    l, a = z3.Ints('l!p a!p')
    is_locked = lambda i: z3.Exists([l], z3.And(0 <= l, l < locked.n, locked.ver(l) == pk.ver(i)))
    if psym.S.bounded is not None:
        xs = [ident(d)[1] for d in r]
        for a in range(len(xs)):
            for b in range(a + 1, len(xs)):
                prove('locked first, otherwise as found', in_order(is_locked, xs[a], xs[b]))
    else:
        s = psym.as_seq(r)
        if cur().choose(2):
            t, u = z3.Int(psym.S.fresh_name('t')), z3.Int(psym.S.fresh_name('u'))
            psym.assume_feasible(z3.And(psym.in_range(s, t), psym.in_range(s, u), t < u))
            prove('locked first, otherwise as found', in_order(is_locked, ident(s.at(t))[1], ident(s.at(u))[1]))
            cover('ordered')
            return
    exactly('a reordering', r, [(pk, pk.n, lambda i: z3.BoolVal(True))], ident)
    cover('reordered')


def in_order(is_locked, a, b):
    la, lb = is_locked(a), is_locked(b)
    return z3.And(z3.Not(z3.And(z3.Not(la), lb)), z3.Implies(la == lb, a < b))


@goal('C13', functions=[f'{M}:LockPrioritizingRepository._do_match'])
def the_repository_orders_what_its_base_finds():
    e, dep, found = object(), object(), ['found']

    class Base:
        def match(self, d, en=None, **k):
            prove('the base is asked the same', d is dep and en is e)
            return found

    class Lock:
        def sort_packages_by_lock_preference(self, en, ps):
            prove('ordered for the same environment', en is e and ps is found)
            return ['ordered']
    prove('what it orders is returned', PL.LockPrioritizingRepository('n', Base(), Lock())._do_match(dep, e) == ['ordered'])


KEY = z3.Function('group_key', I, R)


class Gathering:
    """the list of one key: the elements before element i that have the key, in order, then what was added since"""

    def __init__(self, e):
        self.e, self.added = e, []

    def __bool__(self):
        return True

    def append(self, x):
        self.added.append(x)

    def extend(self, xs):
        self.added.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self


class Gathered(VDict):
    """the mapping between two iterations: a key is present iff an element before element i has it; its value is the list of these elements.
    Within an iteration it remembers what was looked up and stored"""
    __slots__ = ()
    of = {}

    def find(self, k):
        k = runtime.unopt(k)
        if not isinstance(k, SymStr):
            raise psym.Unsupported('another kind of key')
        i, known = self.of[id(self)]
        for slot in known:
            if cur().decide(slot[0] == k.e):
                return slot
        j = z3.Int('j!g')
        there = cur().decide(z3.Exists([j], z3.And(0 <= j, j < i, KEY(j) == k.e)))
        known.append([k.e, Gathering(k.e) if there else None, there])
        return known[-1]

    def get(self, k, default=None):
        g = self.find(k)[1]
        return default if g is None else g

    def setdefault(self, k, default=None):
        s = self.find(k)
        if s[1] is None:
            s[1] = default
        return s[1]

    def __contains__(self, k):
        return self.find(k)[1] is not None

    def __getitem__(self, k):
        g = self.find(k)[1]
        if g is None:
            raise KeyError(k)
        return g

    def __setitem__(self, k, v):
        self.find(k)[1] = v

    def lookup(self, k):
        g = self.find(k)[1]
        return vdict._ABSENT if g is None else g

    def __vc_in__(self, k):
        return k in self


def _no(self, *a, **k):
    raise psym.Unsupported('another use of the groups')


for _n in dir(VDict):  # whatever else a mapping offers
    if _n not in vars(Gathered) and callable(getattr(VDict, _n)) and not (_n.startswith('__') and hasattr(object, _n) and _n != '__eq__'):
        setattr(Gathered, _n, _no)
Gathered.__bool__ = Gathered.__eq__ = Gathered.__ne__ = Gathered.__repr__ = _no


def grouping(elements, made):
    """the loop of groupby: the mapping it starts with is empty; an iteration takes it from the elements before i to those before i + 1"""
    def rule(site, s, body, get, set_, mods):
        env0 = get()
        found = [v for v in env0.values() if isinstance(v, VDict)]
        if len({id(v) for v in found}) != 1 or made or any(isinstance(v, (list, set)) and v is not elements for v in env0.values()):
            raise psym.Unsupported('a loop of another kind')
        g = found[0]
        prove('no groups at first', not g.symbolic() and len(g) == 0)
        d = s.dense()
        g.__class__ = Gathered
        made.append(g)

        def at(i):
            Gathered.of[id(g)] = i, []

        def run():
            i = z3.FreshInt('it')
            assume(z3.And(i >= 0, i < d.n))
            at(i)
            set_({m: runtime.Poison(env0, m) for m in mods})
            e = d.at(i)
            r = body(e)
            if r is not runtime.CONT:
                raise psym.Unsupported('the loop ends early')
            if cur().effects:
                raise psym.Unsupported('effect on an object outside the loop')
            own = KEY(e.i)
            mine = g.find(SymStr(own))
            for k, now, there in g.of[id(g)][1]:
                if k is not mine[0]:
                    prove('other groups stay', isinstance(now, Gathering) and now.e is k and not now.added if there else now is None)
            if mine[2]:
                prove('the element is the last of its group', isinstance(mine[1], Gathering) and mine[1].e is mine[0] and is_just(mine[1].added, e))
            else:
                prove('a new group has the element alone', isinstance(mine[1], psym.VList) and not mine[1].symbolic() and is_just(mine[1], e))
        try:
            paths = psym.explore(run, parent=cur())
        except runtime.CarriedRead:
            raise psym.Unsupported('a variable is carried by the loop')
        if any(p.kind == 'exc' for p in paths):
            raise psym.Unsupported('the loop may end early')
        set_(runtime._pick(env0, mods))
        at(d.n)
        return runtime.DONE
    return rule


def is_just(l, e):
    l = list(l)
    return len(l) == 1 and isinstance(runtime.unopt(l[0]), Descriptor) and z3.eq(runtime.unopt(l[0]).i, e.i)


@goal('C13', functions=['pkm.utils.iterators:groupby'])
def groups_partition_a_sequence():
    f = Family('elements')
    xs = f.listed()
    made = []

    def key(d):
        d = runtime.unopt(d)
        if not (isinstance(d, Descriptor) and d.fam is f):
            raise psym.Unsupported('key of something else')
        return SymStr(KEY(d.i))
    x = z3.Int('x!k')
    assume(z3.ForAll([x], z3.And(KEY(x) > 0, KEY(x) < 1)))
    rule = grouping(xs, made)
    runtime.for_rules.insert(0, rule)
    try:
        r = runtime.unopt(IT.groupby(xs, key))
    finally:
        runtime.for_rules.remove(rule)
        Gathered.of.clear()
    if not made:
        raise psym.Unsupported('no loop')
    prove('the groups of all elements', r is made[0])
    cover('grouped')


@goal('C13', functions=[f'{M}:PackagesLock.save', f'{M}:PackagesLock.load'], setup=setup)
def saving_keeps_every_entry():
    old = Family('locks')
    saved = []

    class Config:
        def __init__(self, locks):
            self.locks = locks

        def save(self, to):
            saved.append((self.locks, to))

        @classmethod
        def load(cls, f):
            return cls(old.listed())
    with patched((PL, '_PackageLockConfig', Config)):
        lock = PL.PackagesLock.load('there')
        lock.save('here' if sym_bool('named') else None)
    prove('one save', len(saved) == 1)
    exactly('saved', saved[0][0], [(old, old.n, lambda i: z3.BoolVal(True))], ident)


def to_cases(goal, inputs):
    return []
