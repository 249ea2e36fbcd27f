"""C20: path containment and relative paths"""
from contracts.common import *
from contracts.paths import AbsPath, MemberSet, make_path, repeat
from pyvc.vc import goal
from pyvc import rules
import pkm.utils.files as F

M = 'pkm.utils.files'
ASSUMPTIONS = ['pathlib on absolute normalised POSIX paths is the stand-in of contracts/paths.py: parent(s), relative_to, ==, and the text of a '
               'path as its components']


def setup():
    return patched((F, 'Path', make_path), (runtime, 'set_hook', MemberSet), (sym, 'str_repeat_hook', repeat))


@goal('C20', functions=[f'{M}:is_relative_to'], setup=setup)
def containment():
    p, root = AbsPath.any('path'), AbsPath.any('root')
    r = F.is_relative_to(p, root)
    cover('answer')
    j = z3.Int('j!c')
    prove('inside <=> component-wise at or below', iff(r, z3.And(root.n <= p.n, z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < root.n), root.f(j) == p.f(j))))))


@goal('C20', functions=[f'{M}:path_to'], setup=setup)
def relative_path():
    sym.S.termination = True
    s, d = AbsPath.any('source'), AbsPath.any('destination')
    r = F.path_to(s, d)
    cover('result')
    # source / r, normalised: r.ups components of source removed, r's components appended
    up = r.ups
    prove('a relative path', not r.abs)
    prove('does not climb over the root', z3.And(0 <= up, up <= s.n))
    i = z3.Int(sym.S.fresh_name('i'))
    k = s.n - up
    prove('same depth', k + r.n == d.n)
    assume(z3.And(0 <= i, i < d.n))
    prove('kept part', z3.Implies(i < k, s.f(i) == d.f(i)))
    prove('appended part', z3.Implies(i >= k, r.f(i - k) == d.f(i)))


def to_cases(goal, inputs):
    def name(c, tab):
        return tab.setdefault(c, 'abcdefghijkl'[len(tab) % 12] + 'x' * (len(tab) // 12))
    tab = {}
    ps = [inputs.get(k) for k in ('path', 'root', 'source', 'destination')]
    ps = [[name(c, tab) for c in p] for p in ps if isinstance(p, list)]
    ps += [p[:-1] + [p[-1] + 'z'] for p in ps if p]
    return [{'p': a, 'r': b} for a in ps for b in ps]
