"""C01: version order.  _less and every comparison operator are put under the PEP 440 precedence specification."""
from contracts.common import *
from pyvc.vc import goal
from pyvc import rules
import pkm.api.versions.version as V

M = 'pkm.api.versions.version'


def two(labels=True):
    for ax in label_axioms():
        assume(ax)
    a, b = SV('a', labels), SV('b', labels)
    return a, b


@goal('C01', functions=[f'{M}:_less', f'{M}:StandardVersion.normalized'], limit_s=200)
def less_equals_pep440():
    a, b = two()
    cover('precondition')
    r = V._less(a.v, b.v)
    prove('_less(a, b) <=> PEP 440 a < b', iff(r, spec_less(a, b)))


@goal('C01', functions=[f'{M}:Version.__lt__', f'{M}:StandardVersion.__le__', f'{M}:StandardVersion.__eq__'],
      limit_s=200)
def operators_follow_less_and_eq():
    """<, >, <=, >= are determined by _less and == (callees by contract: uninterpreted relations)"""
    a, b = two(False)
    LT = z3.Function('LT', I, I, B)
    EQ = z3.Function('EQ', I, I, B)
    ids = {id(a.v): 0, id(b.v): 1}
    assume(EQ(0, 1) == EQ(1, 0))
    less = lambda x, y: SymBool(LT(ids[id(x)], ids[id(y)]))
    eq = lambda x, y, compare_locals=True: SymBool(EQ(ids[id(x)], ids[id(y)]))
    with patched((V, '_less', less), (V.StandardVersion, 'equals_to', eq)):
        prove('a < b', iff(a.v < b.v, LT(0, 1)))
        prove('a > b', iff(a.v > b.v, LT(1, 0)))
        prove('a <= b', iff(a.v <= b.v, z3.Or(LT(0, 1), EQ(0, 1))))
        prove('a >= b', iff(a.v >= b.v, z3.Or(LT(1, 0), EQ(0, 1))))
        prove('a == b', iff(a.v == b.v, EQ(0, 1)))
        prove('a != b', iff(a.v != b.v, z3.Not(EQ(0, 1))))


@goal('C01', functions=[f'{M}:StandardVersion.equals_to', f'{M}:StandardVersion.normalized'])
def equality_equals_spec():
    a, b = two()
    cover('precondition')
    prove('a == b <=> PEP 440 equal', iff(a.v == b.v, spec_eq(a, b)))


@goal('C01', functions=[f'{M}:_less'])
def kinds_are_ordered():
    a = SV('a')
    u, n = sym_url('u'), sym_named('n')
    u2, n2 = sym_url('u2'), sym_named('n2')
    cover('precondition')
    for x, y, t in ((u, n, 'url < named'), (u, a.v, 'url < standard'), (n, a.v, 'named < standard')):
        prove(t, iff(x < y, True))
        prove('not ' + t[::-1], iff(y < x, False))
        prove('!= ' + t, iff(x == y, False))
    prove('names by text', iff(n < n2, n.name.e < n2.name.e))
    prove('named total', z3.PbEq([(form(n < n2), 1), (form(n2 < n), 1), (form(n == n2), 1)], 1))


# ---------------------------------------------------------------- lemmas about the specification itself

def first_diff(f, g, n):
    j, k = z3.Ints('j!fd k!fd')
    return z3.Or(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j) == g(j))),
                 z3.Exists([k], z3.And(0 <= k, k < n, f(k) != g(k),
                                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), f(j) == g(j))))))


@goal('C01', lemma=True)
def lemma_first_difference():
    """two integer (real) sequences agree up to n or have a first difference below n, by induction on n"""
    for s in (I, R):
        f, g = z3.Function(f'f{s}', I, s), z3.Function(f'g{s}', I, s)
        n = z3.Int('n')
        assume(n >= 0)
        prove(f'base {s}', first_diff(f, g, z3.IntVal(0)))
        prove(f'step {s}', z3.Implies(first_diff(f, g, n), first_diff(f, g, n + 1)))


def _rel_first_diff(a, b):
    """instance of lemma_first_difference at max(len) plus padding"""
    assume(first_diff(a.pad, b.pad, z3.If(a.n > b.n, a.n, b.n)))


def _lab_first_diff(a, b):
    la, lb = a.label, b.label
    assume(first_diff(lambda i: SEG(la, i), lambda i: SEG(lb, i), z3.If(SEGN(la) < SEGN(lb), SEGN(la), SEGN(lb))))
    assume(z3.And(SEGN(la) >= 1, SEGN(lb) >= 1))
    assume(label_split_injective(la, lb))


@goal('C01', lemma=True)
def lemma_trichotomy():
    """exactly one of less / equal / greater: component by component (canonical labels)"""
    a, b = two()
    _rel_first_diff(a, b)
    _lab_first_diff(a, b)
    one = lambda x, y, z: z3.And(z3.Or(x, y, z), z3.Not(z3.And(x, y)), z3.Not(z3.And(x, z)), z3.Not(z3.And(y, z)))
    prove('release', one(rel_lt(a, b), rel_eq(a, b), rel_lt(b, a)))
    prove('label', one(label_lt(a.label, b.label), a.label == b.label, label_lt(b.label, a.label)))
    L1, L2, R1, R2, RE = z3.Bools('labAB labBA relAB relBA relEQ')
    # the whole order, the two list-like components abstracted by what was just shown of them
    assume(one(L1, a.label == b.label, L2))
    assume(one(R1, RE, R2))
    sub = [(rel_lt(a, b), R1), (rel_lt(b, a), R2), (rel_eq(a, b), RE), (rel_eq(b, a), RE),
           (label_lt(a.label, b.label), L1), (label_lt(b.label, a.label), L2)]
    ab, ba, eq = (z3.substitute(x, sub) for x in (spec_less(a, b), spec_less(b, a), spec_eq(a, b)))
    prove('order', one(ab, eq, ba))


@goal('C01', lemma=True)
def lemma_transitivity():
    for ax in label_axioms():
        assume(ax)
    a, b, c = SV('a'), SV('b'), SV('c')
    prove('release', z3.Implies(z3.And(rel_lt(a, b), rel_lt(b, c)), rel_lt(a, c)))
    prove('release eq/lt', z3.Implies(z3.And(rel_eq(a, b), rel_lt(b, c)), rel_lt(a, c)))
    prove('release lt/eq', z3.Implies(z3.And(rel_lt(a, b), rel_eq(b, c)), rel_lt(a, c)))
    prove('release eq', z3.Implies(z3.And(rel_eq(a, b), rel_eq(b, c)), rel_eq(a, c)))
    la, lb, lc = a.label, b.label, c.label
    prove('label', z3.Implies(z3.And(label_lt(la, lb), label_lt(lb, lc)), label_lt(la, lc)))
    sub = []
    P = {}
    for x, y in (('a', 'b'), ('b', 'c'), ('a', 'c')):
        X, Y = {'a': a, 'b': b, 'c': c}[x], {'a': a, 'b': b, 'c': c}[y]
        P[x + y] = z3.Bools(f'rl{x}{y} re{x}{y} ll{x}{y}')
        sub += [(rel_lt(X, Y), P[x + y][0]), (rel_eq(X, Y), P[x + y][1]), (label_lt(X.label, Y.label), P[x + y][2])]
    (l1, e1, s1), (l2, e2, s2), (l3, e3, s3) = P['ab'], P['bc'], P['ac']
    assume(z3.And(z3.Implies(z3.And(l1, l2), l3), z3.Implies(z3.And(e1, l2), l3), z3.Implies(z3.And(l1, e2), l3),
                  z3.Implies(z3.And(e1, e2), e3), z3.Implies(z3.And(s1, s2), s3)))
    T = [z3.substitute(spec_less(x, y), sub) for x, y in ((a, b), (b, c), (a, c))]
    prove('order', z3.Implies(z3.And(T[0], T[1]), T[2]))


def to_cases(goal, inputs):
    from bounded.vgen import realise
    i = realise(inputs)
    if 'a' in i and 'b' in i:
        return [{'a': i['a'], 'b': i['b']}]
    return []


ASSUMPTIONS = [
    'str.isnumeric / int / split on canonical labels (lower case, no empty segment, no leading zeros) as stated in '
    'contracts/common.py:label_axioms; \'.\'.join and split are inverse',
    'python compares strings by code point order (embedded order-preservingly into the reals)',
]
