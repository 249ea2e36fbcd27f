"""C11: uninstalling a package"""
import shutil

from contracts import fs
from contracts.common import *
from contracts.fs import AbsPath, Fs, PathSet, StateLoop, ABSENT, FILE, DIR, UNDER, PAR, CHILD, NAME, a_path, everywhere
from pyvc import heap
from pyvc.sym import str_lit
from pyvc.vc import goal
import pkm.api.packages.site_packages as SP
import pkm.utils.files as F

M = 'pkm.api.packages.site_packages:InstalledPackage'
ASSUMPTIONS = ['file system: files, directories and their contents (no links, no other process, no failures); recorded paths are not directories',
               'the loops end (partial correctness); a directory named __pycache__ that itself holds recorded files may go as a whole']
CACHE = str_lit('__pycache__')


def setup():
    del heap.active[:]
    real = runtime.b_set
    return patched((shutil, 'rmtree', fs.rmtree), (runtime, 'b_set', lambda *a: PathSet(*a)))


class Record(Fs):
    """the dist-info directory of a package and what its record lists.  Ghost state: touched(p), a recorded file or a removed directory
    lay directly in p; cached(x), x lies in a __pycache__ of a touched directory inside the site.  Both start as any predicates with
    the closure below, so what is proved holds for the least ones"""
    facts = 3
    ghosts = ('touched', 'cached')

    def __init__(self):
        super().__init__()
        self.faults = False
        self.n = z3.Int('recorded')
        self.rec = z3.Function('record', I, I)
        self.path = AbsPath(z3.Int('distinfo'))
        rr, tt, cc = (z3.Function(n, I, B) for n in ('is_recorded', 'touched0', 'cached0'))
        self.recorded, self.touched, self.cached = (lambda x: rr(x)), (lambda x: tt(x)), (lambda x: cc(x))
        self.touched0, self.cached0 = self.touched, self.cached
        j, x = z3.Ints('j!r x!r')
        assume(self.n >= 0)
        K = self.K
        assume(PAR(self.path.e) != self.path.e)
        assume(K[self.path.e] != FILE)
        self.site = PAR(self.path.e)
        fact = lambda j: z3.And(K[self.rec(j)] != DIR, z3.Implies(z3.And(0 <= j, j < self.n), z3.And(rr(self.rec(j)), tt(PAR(self.rec(j))))))
        if psym.S.bounded is None:
            assume(z3.ForAll([j], fact(j), patterns=[self.rec(j)]))
        else:
            assume(self.n <= psym.S.bounded)
            for k in range(psym.S.bounded):
                a_path(self.rec(k))
                assume(fact(k))
            # the least ones
            among = lambda f: z3.Or([z3.BoolVal(False)] + [z3.And(k < self.n, f(self.rec(k))) for k in range(psym.S.bounded)])
            for w in range(fs.WORLD):
                assume(rr(w) == among(lambda r: r == w))
                assume(tt(w) == among(lambda r: PAR(r) == w))
        assume(self.caches_of_touched())
        if psym.S.bounded is not None:
            for w in range(fs.WORLD):
                assume(cc(w) == z3.Or([z3.And(tt(p), self.inside(p), UNDER(w, CHILD(p, CACHE))) for p in map(z3.IntVal, range(fs.WORLD))]))

    def directory_removed(self, e, empty):
        t, c = self.touched, self.cached
        p = PAR(e)
        new = z3.BoolVal(True) if empty else e != CHILD(p, CACHE)
        self.touched = lambda x: z3.Or(t(x), z3.And(new, x == p))
        self.cached = lambda x: z3.Or(c(x), z3.And(new, self.inside(p), UNDER(x, CHILD(p, CACHE))))

    def caches_of_touched(self):
        p, x = z3.Ints('p!ct x!ct')
        return fs.forall([p, x], z3.Implies(z3.And(self.touched(p), self.inside(p), UNDER(x, CHILD(p, CACHE))), self.cached(x)),
                         patterns=[UNDER(x, CHILD(p, CACHE))])

    def installed_files(self):
        return runtime.SymGen(SymSeq(self.n, lambda i: AbsPath(self.rec(i)), 'list'))

    def inside(self, p):
        return z3.And(UNDER(p, self.site), p != self.site)

    def may_go(self, K0, x):
        return z3.Or(self.recorded(x), z3.And(K0[x] == DIR, self.inside(x), self.touched(x)), self.cached(x))


psym = sym


@goal('C11', functions=[f'{M}.uninstall', 'pkm.utils.files:is_empty_directory', 'pkm.utils.files:is_relative_to'], setup=setup, limit_s=400)
def only_what_was_recorded_goes():
    r = Record()
    f = r
    K0, C0 = f.state

    class Site:
        reloaded = 0

        def reload(self):
            Site.reloaded += 1

    has_site = bool(sym_bool('of_a_site'))

    def candidates(sets, i, s):
        K, C = f.state
        yield 'only removals', everywhere(lambda x: z3.Or(K[x] == K0[x], z3.And(K[x] == ABSENT, r.may_go(K0, x))))
        yield 'content', everywhere(lambda x: z3.Implies(K[x] == FILE, C[x] == C0[x]))
        yield 'touched grows', everywhere(lambda x: z3.And(z3.Implies(r.touched0(x), r.touched(x)), z3.Implies(r.cached0(x), r.cached(x))))
        yield 'caches of touched directories', r.caches_of_touched()
        j = z3.Int('j!c')
        yield 'all recorded are gone', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n), K[r.rec(j)] == ABSENT), patterns=[r.rec(j)])
        if s is not None:
            yield 'gone so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), K[s.at(j).e] == ABSENT))
        for n, o in sets.items():
            yield ('touched', n), everywhere(lambda x: z3.Implies(o.mem(x), r.touched(x)))

    ip = SP.InstalledPackage(r, Site() if has_site else None)
    with StateLoop(candidates):
        ip.uninstall()
    K, C = f.state
    x = a_path(z3.Int(psym.S.fresh_name('path')))
    j = z3.Int(psym.S.fresh_name('j'))
    prove('every recorded file is gone', z3.Implies(z3.And(0 <= j, j < r.n), K[r.rec(j)] == ABSENT))
    prove('the metadata directory is gone', z3.Implies(UNDER(x, r.path.e), K[x] == ABSENT))
    prove('nothing appears or changes', z3.And(z3.Or(K[x] == K0[x], K[x] == ABSENT), z3.Implies(K[x] == FILE, C[x] == C0[x])))
    prove('nothing else is removed', z3.Implies(z3.And(K0[x] != ABSENT, K[x] == ABSENT, z3.Not(UNDER(x, r.path.e))), r.may_go(K0, x)))
    if has_site:
        prove('the site is read again', Site.reloaded > 0)
    cover('uninstalled')


def to_cases(goal, inputs):
    return []
