"""nested activations over starting environments with PATH / VIRTUAL_ENV absent, empty or set, blocks that end normally or raise, blocks that
change or delete variables themselves"""
import os
from pathlib import Path

RULE = __doc__


class Boom(Exception):
    pass


def cases(rng, tier):
    val = lambda p: rng.choice([None, '', p, p + os.pathsep + '/z', '/a' + os.pathsep])
    for pv in (None, '', '/bin'):
        for vv in (None, '', '/v'):
            for boom in (False, True):
                for depth in (1, 2):
                    yield {'path': pv, 'venv': vv, 'depth': depth, 'boom': boom, 'edits': [], 'os': False}
    while True:
        yield {'path': val('/bin'), 'venv': val('/v'), 'depth': rng.randint(1, 3), 'boom': rng.random() < .5, 'os': rng.random() < .2,
               'edits': [[rng.randrange(3), rng.choice(['PATH', 'VIRTUAL_ENV', 'OTHER', 'HOME']), rng.choice([None, 'q', ''])]
                         for _ in range(rng.choice([0, 0, 1, 2]))]}


def check(case):
    from pkm.api.environments.environment import Environment
    from bounded.gap import need
    need(Environment, 'activate')

    class Intro:
        def __init__(self, k):
            self.paths = {'scripts': f'/envs/e{k}/bin'}

    class Env(Environment):
        _introspection = None

    def mk(k):
        e = Env(Path(f'/envs/e{k}'), Path(f'/envs/e{k}/bin/python'))
        e._introspection = Intro(k)
        assert str(e.path) == f'/envs/e{k}'
        return e
    base = {'HOME': '/h', 'X': '1'}
    for n, k in (('PATH', 'path'), ('VIRTUAL_ENV', 'venv')):
        if case[k] is not None:
            base[n] = case[k]
    saved = dict(os.environ)
    try:
        if case['os']:
            os.environ.clear()
            os.environ.update(base)
            env = os.environ
        else:
            env = dict(base)

        expect_other = {k: v for k, v in base.items() if k not in ('PATH', 'VIRTUAL_ENV')}

        def level(k):
            before = dict(env)
            ok = None
            try:
                args = () if case['os'] else (env,)
                with mk(k).activate(*args):
                    want = f'/envs/e{k}/bin' + (os.pathsep + before['PATH'] if before.get('PATH') else '')
                    if env.get('PATH') != want:
                        return f"PATH is {env.get('PATH')!r} while active, expected {want!r}"
                    if env.get('VIRTUAL_ENV') != f'/envs/e{k}':
                        return f"VIRTUAL_ENV is {env.get('VIRTUAL_ENV')!r} while active"
                    for d, n, v in case['edits']:
                        if d == k:
                            if v is None:
                                env.pop(n, None)
                            else:
                                env[n] = v
                            if n not in ('PATH', 'VIRTUAL_ENV'):
                                expect_other.pop(n, None)
                                if v is not None:
                                    expect_other[n] = v
                    if k + 1 < case['depth']:
                        r = level(k + 1)
                        if r:
                            return r
                    elif case['boom']:
                        raise Boom()
            except Boom:
                ok = True
            except Exception as e:  # noqa
                return f'leaving the block raised {type(e).__name__}: {e}'
            if case['boom'] and not ok and k + 1 == case['depth']:
                return 'the exception was swallowed'
            now = {**dict(env)}
            for n in ('PATH', 'VIRTUAL_ENV'):
                if now.get(n) != before.get(n):
                    return f'{n} is {now.get(n)!r} after the block, was {before.get(n)!r}'
            if {a: b for a, b in now.items() if a not in ('PATH', 'VIRTUAL_ENV')} != expect_other:
                return f'other variables changed: {now}, expected {expect_other}'
            if ok and k:
                try:
                    raise Boom()
                finally:
                    pass
        try:
            return level(0)
        except Boom:
            return None
    finally:
        os.environ.clear()
        os.environ.update(saved)
