"""C17: activating an environment"""
import os

from contracts.common import *
from contracts.lib import AbsMap, AbsThing, any_key
from pyvc.vc import goal
import pkm.api.environments.environment as E

M = 'pkm.api.environments.environment:Environment'
ASSUMPTIONS = ["the environment's scripts directory is a given string (introspection is external)",
               'contextlib.contextmanager as documented', 'the mapping behaves as a mapping of strings (MutableMapping)']
P, VE = str_lit('PATH'), str_lit('VIRTUAL_ENV')


class Boom(Exception):
    pass


class AbsIntro:
    def __init__(self, scripts):
        self.paths = {'scripts': scripts}


def environment(n):
    class Env(E.Environment):
        _introspection = None

    e = Env.__new__(Env)
    e._env_path = AbsThing(n + '.path')
    e._introspection = AbsIntro(sym_str(n + '.scripts'))
    return e


def entered(env, old, e, old_path_set):
    scripts = e._introspection.paths['scripts']
    joined = sym.str_concat(sym.str_concat(scripts.e, str_lit(os.pathsep)).e, old.val(P))
    prove('PATH: scripts first, then the previous PATH', z3.And(
        env.has(P), env.val(P) == z3.If(z3.And(old.has(P), old.val(P) != str_lit('')), joined.e, scripts.e)))
    prove('VIRTUAL_ENV names the environment', z3.And(env.has(VE), env.val(VE) == e._env_path.text.e))
    x = any_key()
    prove('other variables untouched on entry', z3.Implies(z3.And(x != P, x != VE), env.same_at(old, x)))


def left(env, old, block):
    prove('PATH restored', env.same_at(old, P))
    prove('VIRTUAL_ENV restored', env.same_at(old, VE))
    x = any_key()
    prove('other variables as the block left them', z3.Implies(z3.And(x != P, x != VE), env.same_at(block, x)))


@goal('C17', functions=[f'{M}.activate'])
def one_level():
    env = AbsMap('env')
    old = env.snapshot()
    e = environment('e')
    raises = sym_bool('block_raises')
    register_input('raises', raises)
    block = None
    out = None
    try:
        with e.activate(env):
            cover('active')
            entered(env, old, e, None)
            env.havoc('block')  # whatever the block does to the variables
            block = env.snapshot()
            if raises:
                raise Boom()
        out = 'normal'
    except Boom:
        out = 'boom'
    prove('the exception of the block passes through', z3.BoolVal(out == 'boom') == form(raises))
    cover('left')
    left(env, old, block)


@goal('C17', functions=[f'{M}.activate'])
def nested():
    """any block between the levels; each level is undone in order (any depth follows: the inner activation is itself a
    block of the outer one)"""
    env = AbsMap('env')
    old = env.snapshot()
    e, f = environment('e'), environment('f')
    raises = sym_bool('block_raises')
    block = None
    try:
        with e.activate(env):
            env.havoc('before')
            mid = env.snapshot()
            try:
                with f.activate(env):
                    entered(env, mid, f, None)
                    env.havoc('inside')
                    block = env.snapshot()
                    if raises:
                        raise Boom()
            finally:
                left(env, mid, block)
    except Boom:
        pass
    left(env, old, block)


def to_cases(goal, inputs):
    out = []
    for p in (None, '', '/bin', '/bin:/usr/bin'):
        for v in (None, '', '/v'):
            for boom in (False, True):
                for ed in ([], [[0, 'PATH', None]], [[0, 'VIRTUAL_ENV', None]], [[0, 'PATH', 'q'], [0, 'OTHER', 'z']], [[0, 'HOME', None]]):
                    for d in (1, 2):
                        out.append({'path': p, 'venv': v, 'depth': d, 'boom': boom, 'edits': ed, 'os': False})
    return out
