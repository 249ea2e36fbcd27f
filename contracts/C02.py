"""C02: equality and hash congruence of versions"""
from contracts.common import *
from pyvc.vc import goal
from pyvc import rules
import pkm.api.versions.version as V

M = 'pkm.api.versions.version'

ASSUMPTIONS = [
    'hash() of a tuple is a function of its elements and equal ints / strings / tuples hash alike (CPython)',
    'str.isnumeric / int / split on canonical labels as stated in contracts/common.py:label_axioms',
]


class HashVal(sym.Sym):
    """the hash of a value: known equal only when the hashed values are equal"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return SymBool(eqf(self.x, o.x))
        raise sym.Unsupported('hash compared with a number')

    __hash__ = sym.Sym.__hash__


def two():
    for ax in label_axioms():
        assume(ax)
    return SV('a'), SV('b')


def with_hash():
    return patched((runtime, 'hash_hook', HashVal))


@goal('C02', functions=[f'{M}:StandardVersion.equals_to', f'{M}:StandardVersion.__eq__', f'{M}:StandardVersion.normalized'])
def equality_exact():
    a, b = two()
    cover('precondition')
    prove('a == b <=> same epoch, padded release, pre, post, dev, label', iff(a.v == b.v, spec_eq(a, b)))


@goal('C02', functions=[f'{M}:StandardVersion.equals_to'])
def equality_ignoring_labels():
    a, b = two()
    cl = sym_bool('compare_locals')
    cover('precondition')
    r = a.v.equals_to(b.v, cl)
    prove('equals_to(b, compare_locals)', iff(r, z3.If(cl.e, spec_eq(a, b), spec_eq(a, b, False))))


@goal('C02', functions=[f'{M}:StandardVersion.equals_to', f'{M}:UrlVersion.__eq__', f'{M}:NamedVersion.__eq__'])
def kinds_never_equal():
    a = SV('a')
    for x in (sym_url('u'), sym_named('n'), sym_str('txt'), None, 3):
        prove('standard != other kind', iff(a.v == x, False))
        prove('standard not equals_to other kind', iff(a.v.equals_to(x, False), False))
    u, n = sym_url('u'), sym_named('n')
    prove('url != standard', iff(u == a.v, False))
    prove('named != standard', iff(n == a.v, False))
    prove('url != named', iff(u == n, False))
    prove('named != url', iff(n == u, False))


@goal('C02', functions=[f'{M}:StandardVersion.normalized'])
def normalized_pads():
    """both results have the padded release of their argument, equal lengths, and every other field unchanged"""
    a, b = two()
    x, y = V.StandardVersion.normalized(a.v, b.v)
    j = z3.Int('j')
    for o, r in ((a, x), (b, y)):
        rel = sym.as_seq(r.release)
        m = z3.If(a.n > b.n, a.n, b.n)
        prove('length', rel.n == m)
        prove('padded release', forall_at(rel_index(m), lambda i: SymBool(sym._ie(rel.at(i.e)) == o.pad(i.e))))
        for f in ('epoch', 'pre_release', 'post_release', 'dev_release', 'local_label'):
            prove(f, eqf(getattr(r, f), getattr(o.v, f)))


def rel_index(m):
    s = SymSeq(m, lambda i: SymInt(i), 'range')
    return s


@goal('C02', functions=[f'{M}:StandardVersion.standartize'])
def standartize_trims():
    """same version, release without trailing zeros (loop invariant inferred: a prefix, only zeros dropped, not empty)"""
    a = SV('a')
    s = a.v.standartize()
    rel = sym.as_seq(s.release)
    cover('after the loop')
    prove('non-empty prefix', z3.And(rel.n >= 1, rel.n <= a.n))
    i = z3.Int('i')
    prove('same components', forall_at(rel_index(rel.n), lambda i: SymBool(sym._ie(rel.at(i.e)) == a.f(i.e))))
    prove('only zeros dropped', z3.ForAll([i], z3.Implies(z3.And(rel.n <= i, i < a.n), a.f(i) == 0)))
    prove('no trailing zero', z3.Or(rel.n == 1, sym._ie(rel.at(rel.n - 1)) != 0))


@goal('C02', functions=[f'{M}:StandardVersion.__hash__', f'{M}:StandardVersion.standartize'], limit_s=200)
def equal_versions_hash_alike():
    a, b = two()
    assume(spec_eq(a, b))
    cover('precondition')
    with with_hash():
        ha, hb = V.StandardVersion.__hash__(a.v), V.StandardVersion.__hash__(b.v)
        prove('a == b => hash(a) == hash(b)', ha == hb)


@goal('C02', functions=[f'{M}:UrlVersion.__eq__', f'{M}:UrlVersion.__hash__', f'{M}:NamedVersion.__eq__'])
def urls_and_names():
    u, w, n, m = sym_url('u'), sym_url('w'), sym_named('n'), sym_named('m')
    prove('names', iff(n == m, n.name.e == m.name.e))
    with with_hash():
        e = u == w
        if e:
            cover('equal urls')
            prove('hash of urls', V.UrlVersion.__hash__(u) == V.UrlVersion.__hash__(w))


def to_cases(goal, inputs):
    from bounded.vgen import realise
    i = realise(inputs)
    if 'a' in i and 'b' in i:
        return [{'a': i['a'], 'b': i['b']}]
    return []
