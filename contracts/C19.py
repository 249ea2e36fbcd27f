"""C19: bumping a version"""
import dataclasses

from contracts.common import *
from pyvc.vc import goal
import pkm.api.versions.version as V

M = 'pkm.api.versions.version:StandardVersion'
ASSUMPTIONS = ['dataclasses.replace copies every field that is not given']


def three(name):
    """any version with a three-part release"""
    a = SV(name)
    parts = tuple(sym_int(f'{name}.r{i}', 0) for i in range(3))
    assume(a.n == 3)
    for i, p in enumerate(parts):
        assume(a.f(i) == p.e)
    v = V.StandardVersion(release=parts, epoch=a.v.epoch, pre_release=a.v.pre_release, post_release=a.v.post_release,
                          dev_release=a.v.dev_release, local_label=a.v.local_label)
    return a, v, parts


def fields(v):
    return {f.name: getattr(v, f.name) for f in dataclasses.fields(v)}


def unchanged(v, before):
    for n, x in before.items():
        prove(f'original keeps {n}', getattr(v, n) is x)


@goal('C19', functions=[f'{M}.bump'])
def bump_release_part():
    a, v, (x, y, z) = three('a')
    before = fields(v)
    for part, exp in (('major', (x + 1, 0, 0)), ('minor', (x, y + 1, 0)), ('patch', (x, y, z + 1))):
        r = v.bump(part)
        cover(part)
        prove(f'{part}: release', eqf(sym.as_seq(r.release), sym.as_seq(exp)))
        for n in ('pre_release', 'post_release', 'dev_release', 'local_label'):
            prove(f'{part}: {n} dropped', eqf(getattr(r, n), None))
        prove(f'{part}: epoch kept', eqf(r.epoch, a.v.epoch))
        prove('a standard version', isinstance(r, V.StandardVersion))
    unchanged(v, before)


@goal('C19', functions=[f'{M}.bump'])
def bump_pre_release_part():
    a, v, (x, y, z) = three('a')
    before = fields(v)
    for k in PRE:
        r = v.bump(k)
        cover(k)
        has = z3.Not(a.pre_none)
        same, later = z3.And(has, a.prek == str_lit(k)), z3.And(has, a.prek < str_lit(k))
        earlier = z3.And(has, a.prek > str_lit(k))
        pre = runtime.unopt(r.pre_release)
        if pre is None:
            prove(f'{k}: a pre-release', False)
            continue
        kind, num = runtime.unpack(pre, 2)
        prove(f'{k}: kind', eqf(kind, k))
        prove(f'{k}: number', sym._ie(num) == z3.If(same, a.pre + 1, z3.IntVal(0)))
        rel = sym.as_seq(r.release)
        exp = (x, y, SymInt(z3.If(earlier, z.e + 1, z.e)))
        prove(f'{k}: release', eqf(rel, sym.as_seq(exp)))
        prove(f'{k}: epoch kept', eqf(r.epoch, a.v.epoch))
        prove('a standard version', isinstance(r, V.StandardVersion))
    unchanged(v, before)


def to_cases(goal, inputs):
    from bounded.vgen import realise
    i = realise(inputs)
    return [{'v': i['a'], 'p': p} for p in ('major', 'minor', 'patch', 'a', 'b', 'rc')] if 'a' in i else []
