"""symbolic inputs and specification functions shared by several properties"""
import contextlib

import z3

from pyvc import sym, runtime
from pyvc.sym import (SymBool, SymInt, SymStr, SymOpt, SymSeq, assume, prove, cover, form, sym_int, sym_str, sym_opt,
                      int_seq, sym_bool, fresh, register_input, str_lit, forall_at, exists_at, eqf)

I, R, B = sym.I, sym.R, sym.B

# ------------------------------------------------------------------ local labels: canonical dotted strings
SEGN = z3.Function('label.segments', R, I)
SEG = z3.Function('label.segment', R, I, R)
NUM = z3.Function('str.isnumeric', R, B)
ISINT = z3.Function('str.is_int', R, B)
INTOF = runtime.INT_UF
STROF = runtime.STR_OF_INT


def _split(self, sep=None, maxsplit=-1):
    if sep != '.':
        raise sym.Unsupported('str.split')
    e = self.e
    assume(SEGN(e) >= 1)
    return SymSeq(SEGN(e), lambda i: SymStr(SEG(e, i)), 'list')


SymStr.hooks['split'] = _split


def label_axioms():
    """facts about canonical local labels (see DESIGN: 'canonical labels')"""
    x, y = z3.Reals('x!l y!l')
    i = z3.Int('i!l')
    return [
        z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < SEGN(x)), SEG(x, i) > 0), patterns=[SEG(x, i)]),
        z3.ForAll([x], z3.Implies(NUM(x), z3.And(ISINT(x), INTOF(x) >= 0, STROF(INTOF(x)) == x)), patterns=[NUM(x)]),
        z3.Not(NUM(str_lit(''))),
    ]


def label_split_injective(a, b):
    """'.'.join is inverse to split('.'): labels with the same segments are the same label"""
    i = z3.Int('i!inj')
    return z3.Implies(z3.And(SEGN(a) == SEGN(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < SEGN(a)),
                                                                        SEG(a, i) == SEG(b, i)))), a == b)


def seg_lt(a, b):
    return z3.If(z3.And(NUM(a), NUM(b)), INTOF(a) < INTOF(b), z3.If(z3.Or(NUM(a), NUM(b)), NUM(b), a < b))


def label_lt(a, b):
    """PEP 440: segment-wise, numeric segments by value and after alphanumeric ones, a longer label wins a tie"""
    k, j = z3.Ints('k!ll j!ll')
    return z3.Exists([k], z3.And(
        0 <= k, k <= SEGN(a), k < SEGN(b),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), SEG(a, j) == SEG(b, j))),
        z3.Or(k == SEGN(a), seg_lt(SEG(a, k), SEG(b, k)))))


# ------------------------------------------------------------------ standard versions
PRE = ('a', 'b', 'rc')


class SV:
    """z3 view of a symbolic StandardVersion"""

    def __init__(self, name, label=True):
        from pkm.api.versions.version import StandardVersion
        self.name = name
        self.n = z3.Int(name + '.len')
        self.f = z3.Function(name + '.rel', I, I)
        j = z3.Int('j!' + name)
        assume(self.n >= 1)
        assume(z3.ForAll([j], self.f(j) >= 0, patterns=[self.f(j)]))
        rel = SymSeq(self.n, lambda i: SymInt(self.f(i)), 'tuple')
        rel.tag = ('ints',)

        def optint(x):
            v = z3.Int(f'{name}.{x}')
            assume(v >= 0)
            return z3.Bool(f'{name}.{x}.none'), v

        self.epoch_none, self.epoch = optint('epoch')
        self.post_none, self.post = optint('post')
        self.dev_none, self.dev = optint('dev')
        self.pre_none, self.pre = optint('pre')
        self.prek = z3.Real(name + '.prek')
        assume(z3.Or([self.prek == str_lit(x) for x in PRE]))
        self.label_none = z3.Bool(name + '.label.none')
        self.label = z3.Real(name + '.label')
        assume(self.label > 0)
        if not label:
            assume(self.label_none)
        self.v = StandardVersion(
            release=rel, epoch=SymOpt(self.epoch_none, SymInt(self.epoch)),
            pre_release=SymOpt(self.pre_none, (SymStr(self.prek), SymInt(self.pre))),
            post_release=SymOpt(self.post_none, SymInt(self.post)),
            dev_release=SymOpt(self.dev_none, SymInt(self.dev)),
            local_label=SymOpt(self.label_none, SymStr(self.label)))
        register_input(name, self, SV.conc)

    def pad(self, i):
        return z3.If(i < self.n, self.f(i), z3.IntVal(0))

    @staticmethod
    def conc(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        opt = lambda n, v: None if z3.is_true(ev(n)) else ev(v).as_long()
        n = min(ev(self.n).as_long(), 8)
        kinds = {str(z3.simplify(str_lit(k))): k for k in PRE}
        pre = None if z3.is_true(ev(self.pre_none)) else \
            [next((k for k in PRE if z3.is_true(z3.simplify(ev(self.prek) == str_lit(k)))), 'a'), ev(self.pre).as_long()]
        label = None
        if not z3.is_true(ev(self.label_none)):
            segs = []
            for i in range(min(ev(SEGN(self.label)).as_long(), 4)):
                sg = SEG(self.label, z3.IntVal(i))
                if z3.is_true(ev(NUM(sg))):
                    segs.append(str(ev(INTOF(sg))))
                else:
                    segs.append({'ord': str(ev(sg))})
            label = segs
        return {'release': [ev(self.f(z3.IntVal(i))).as_long() for i in range(n)], 'epoch': opt(self.epoch_none, self.epoch),
                'pre': pre, 'post': opt(self.post_none, self.post), 'dev': opt(self.dev_none, self.dev), 'local': label}


def opt_eq(an, a, bn, b):
    return z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), a == b))


def epoch_of(a):
    return z3.If(a.epoch_none, z3.IntVal(0), a.epoch)


def rel_eq(a, b):
    j = z3.Int('j!re')
    return z3.ForAll([j], z3.Implies(j >= 0, a.pad(j) == b.pad(j)))


def rel_lt(a, b):
    j, k = z3.Ints('j!rl k!rl')
    return z3.Exists([k], z3.And(k >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a.pad(j) == b.pad(j))),
                                 a.pad(k) < b.pad(k)))


def lex(*pairs):
    """[(lt, eq), ...] -> lexicographic less-than"""
    r = z3.BoolVal(False)
    for lt, eq in reversed(pairs):
        r = z3.Or(lt, z3.And(eq, r))
    return r


def pre_key(a):
    """(class, kind, number): -inf for dev-only versions, +inf without a pre part"""
    cls = z3.If(z3.Not(a.pre_none), z3.IntVal(1),
                z3.If(z3.And(a.post_none, z3.Not(a.dev_none)), z3.IntVal(0), z3.IntVal(2)))
    return cls


def spec_less(a, b, locals_=True):
    """PEP 440 precedence (packaging.version._cmpkey), written independently of the code"""
    ca, cb = pre_key(a), pre_key(b)
    pre_lt = z3.Or(ca < cb, z3.And(ca == 1, cb == 1, z3.Or(a.prek < b.prek, z3.And(a.prek == b.prek, a.pre < b.pre))))
    pre_eq = z3.And(ca == cb, z3.Implies(ca == 1, z3.And(a.prek == b.prek, a.pre == b.pre)))
    post_lt = z3.Or(z3.And(a.post_none, z3.Not(b.post_none)),
                    z3.And(z3.Not(a.post_none), z3.Not(b.post_none), a.post < b.post))
    dev_lt = z3.Or(z3.And(z3.Not(a.dev_none), b.dev_none),
                   z3.And(z3.Not(a.dev_none), z3.Not(b.dev_none), a.dev < b.dev))
    lab_lt = z3.Or(z3.And(a.label_none, z3.Not(b.label_none)),
                   z3.And(z3.Not(a.label_none), z3.Not(b.label_none), label_lt(a.label, b.label)))
    parts = [(epoch_of(a) < epoch_of(b), epoch_of(a) == epoch_of(b)), (rel_lt(a, b), rel_eq(a, b)), (pre_lt, pre_eq),
             (post_lt, opt_eq(a.post_none, a.post, b.post_none, b.post)),
             (dev_lt, opt_eq(a.dev_none, a.dev, b.dev_none, b.dev))]
    if locals_:
        parts.append((lab_lt, z3.BoolVal(False)))
    return lex(*parts)


def spec_eq(a, b, locals_=True):
    e = [epoch_of(a) == epoch_of(b), rel_eq(a, b),
         z3.Or(z3.And(a.pre_none, b.pre_none),
               z3.And(z3.Not(a.pre_none), z3.Not(b.pre_none), a.prek == b.prek, a.pre == b.pre)),
         opt_eq(a.post_none, a.post, b.post_none, b.post), opt_eq(a.dev_none, a.dev, b.dev_none, b.dev)]
    if locals_:
        e.append(opt_eq(a.label_none, a.label, b.label_none, b.label))
    return z3.And(e)


def sym_url(name):
    from pkm.api.versions.version import UrlVersion
    v = UrlVersion(sym_str(name + '.url'), sym_opt(name + '.proto', sym_str(name + '.protov')),
                   sym_str(name + '.schema'))
    register_input(name, v)
    return v


def sym_named(name):
    from pkm.api.versions.version import NamedVersion
    v = NamedVersion(sym_str(name + '.name'))
    register_input(name, v)
    return v


@contextlib.contextmanager
def patched(*triples):
    """replace callees by their contracts while a caller is verified"""
    saved = []
    for o, n, f in triples:
        saved.append((o, n, o.__dict__.get(n, saved)))
        setattr(o, n, f)
    try:
        yield
    finally:
        for o, n, f in reversed(saved):
            if f is saved:
                delattr(o, n)
            else:
                setattr(o, n, f)


def iff(a, b):
    return form(a) == form(b)
