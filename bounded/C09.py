"""random sequences of transaction operations (copy, copy_tree with filters and file-copy functions, mkdir, rm, touch of created
files and trees) over overlapping small paths in a scratch directory, ended normally or by an exception at any position; the tree
is compared with a model of the operations (normal end) or with its snapshot (exception)"""
import os
from pathlib import Path

from bounded import fsbox

RULE = __doc__
UNPRIV = True


class Boom(Exception):
    pass


def rpath(rng, d=3):
    return '/'.join(rng.choice(['a', 'b', 'c']) for _ in range(rng.randint(1, d)))


def rtree(rng):
    t = {}
    for _ in range(rng.randint(0, 6)):
        p = rpath(rng)
        parts = p.split('/')
        if any('/'.join(parts[:i]) in t and t['/'.join(parts[:i])] is not None for i in range(1, len(parts))):
            continue
        if any(k.startswith(p + '/') for k in t):
            continue
        for i in range(1, len(parts)):
            t.setdefault('/'.join(parts[:i]), None)
        t[p] = rng.choice([None, 'x', 'y' * 3, 'orig' + str(rng.randrange(9))])
    return t


def cases(rng, tier):
    for f in (False, True):
        yield {'tree': {'a': 'old'}, 'src': {'a': 'n1', 'b': 'n2'}, 'ops': [['copy', 'a', 'a'], ['copy', 'b', 'a']], 'fail': f}
        yield {'tree': {}, 'src': {'a': 'n1', 'b': 'n2'}, 'ops': [['copy', 'a', 'a/b/c'], ['copy', 'b', 'a/b/c'], ['mkdir', 'b/c/a']], 'fail': f}
        yield {'tree': {'a': None, 'a/b': 'o', 'a/c': 'p'}, 'src': {'a': 'n'}, 'ops': [['rm', 'a'], ['copy', 'a', 'a/b'], ['rm', 'a/b']], 'fail': f}
        yield {'tree': {'a': None, 'a/b': 'o'}, 'src': {'a': None, 'a/b': None, 'a/b/c': 'q', 'a/c': 'r'}, 'ops': [['tree', 'a', 'b', None, 1]], 'fail': f}
        yield {'tree': {'a': 'old', 'b': None}, 'src': {'a': 'n'}, 'ops': [['touch', 'a', True], ['rm', 'a']], 'fail': f}
        for n in (12, 40, 130, 300):
            yield {'tree': {f'f{i}': f'c{i}' for i in range(n)}, 'src': {'a': 'n'}, 'ops': [['rm', f'f{i}'] for i in range(n)], 'fail': f}
            yield {'tree': {'a': None, 'a/b': 'o'}, 'src': {'a': 'n', 'b': None, 'b/a': 'm'},
                   'ops': [['copy', 'a', 'a/b'], ['rm', 'a'], ['tree', 'b', 'a', None, 0]] * n, 'fail': f}
    while True:
        ops = []
        for _ in range(rng.randint(1, 6)):
            c = rng.random()
            if c < .35:
                ops.append(['copy', rpath(rng, 2), rpath(rng)])
            elif c < .5:
                ops.append(['mkdir', rpath(rng)])
            elif c < .68:
                ops.append(['rm', rpath(rng)])
            elif c < .85:
                ops.append(['tree', rpath(rng, 1), rpath(rng, 2), rng.choice([None, None, 'a', 'b']), rng.choice([0, 0, 1])])
            elif c < .95:
                ops.append([rng.choice(['touch', 'write', 'touchall', 'touchtree']), rpath(rng), rng.random() < .5])
            else:
                ops.append(['boom'])
        yield {'tree': rtree(rng), 'src': rtree(rng), 'ops': ops, 'fail': rng.random() < .5}


def mk(root, t):
    for p in sorted(t):
        f = root / p
        if t[p] is None:
            f.mkdir(parents=True, exist_ok=True)
        else:
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text(t[p])


class Undef(Exception):
    pass


class Model:
    """the intended effect of each operation; raises Undef where the operation has none (it must fail)"""

    def __init__(self, t):
        self.t = dict(t)

    def isdir(self, p):
        return p == '' or p in self.t and self.t[p] is None

    def mkdir(self, p):
        if p == '' or p in self.t:
            return  # left alone, whatever it is
        par = p.rpartition('/')[0]
        self.mkdir(par)
        if not self.isdir(par):
            raise Undef()
        self.t[p] = None

    def rm(self, p):
        if p not in self.t:
            raise Undef()
        for k in [k for k in self.t if k == p or k.startswith(p + '/')]:
            del self.t[k]

    def copy(self, content, p):
        if p in self.t:
            self.rm(p)
        self.mkdir(p.rpartition('/')[0])
        if not self.isdir(p.rpartition('/')[0]):
            raise Undef()
        self.t[p] = content

    def tree(self, src, s, d, skip):
        if src.get(s, 0) is not None:
            raise Undef()
        self.mkdir(d)
        for k in sorted(src):
            if k.startswith(s + '/') and '/' not in k[len(s) + 1:]:
                n = k[len(s) + 1:]
                if n == skip:
                    continue
                if src[k] is None:
                    self.tree(src, k, f'{d}/{n}', skip)
                else:
                    if not self.isdir(d):
                        raise Undef()
                    self.copy(src[k], f'{d}/{n}')


def check(case):
    from pkm.utils.files import CopyTransaction
    with fsbox.Box() as box:
        root, src = Path(box.path, 'root'), Path(box.path, 'src')
        root.mkdir()
        src.mkdir()
        mk(root, case['tree'])
        mk(src, case['src'])
        before, sbefore = fsbox.snapshot(root), fsbox.snapshot(src)
        model = Model(before)
        undef = False
        seen = []

        def fcopy(s, d):
            seen.append(str(d))
            d.write_text('F:' + s.read_text())
        err = None
        try:
            with CopyTransaction() as ct:
                for op in case['ops']:
                    k = op[0]
                    if k == 'boom':
                        raise Boom()
                    m = Model(model.t)
                    try:
                        if k == 'copy':
                            if case['src'].get(op[1]) is None:
                                raise Undef()
                            m.copy(case['src'][op[1]], op[2])
                        elif k == 'mkdir':
                            m.mkdir(op[1])
                        elif k == 'rm':
                            m.rm(op[1])
                        elif k == 'tree':
                            sm = {a: b if b is None or not op[4] else 'F:' + b for a, b in sbefore.items()}
                            m.tree(sm, op[1], op[2], op[3])
                        elif k in ('touch', 'write', 'touchall', 'touchtree'):
                            par = op[1].rpartition('/')[0]
                            if k == 'touch':
                                if not m.isdir(par):
                                    raise Undef()
                                m.t.setdefault(op[1], '')
                            else:
                                if op[1] in m.t or not m.isdir(par):
                                    continue  # the caller only marks what it created itself
                                if k == 'touchtree':
                                    m.t[op[1]] = None
                                    m.t[op[1] + '/d'] = None
                                    m.t[op[1] + '/d/e'] = 'e'
                                else:
                                    m.t[op[1]] = 'w'
                    except Undef:
                        undef = True
                    model = m
                    p = root / op[-2 if k in ('touch', 'write', 'touchall', 'touchtree') else -1] if k not in ('tree',) else None
                    if k == 'copy':
                        ct.copy(src / op[1], p)
                    elif k == 'mkdir':
                        ct.mkdir(p)
                    elif k == 'rm':
                        ct.rm(p)
                    elif k == 'tree':
                        kw = {}
                        if op[3]:
                            kw['accept'] = lambda f, n=op[3]: f.name != n
                        if op[4]:
                            kw['file_copy'] = fcopy
                        ct.copy_tree(src / op[1], root / op[2], **kw)
                    elif k == 'touch':
                        ct.touch(p, True)
                    elif k == 'write':
                        p.write_text('w')
                        ct.touch(p)
                    elif k == 'touchall':
                        p.write_text('w')
                        ct.touch_all([p])
                    elif k == 'touchtree':
                        (p / 'd').mkdir(parents=True)
                        (p / 'd/e').write_text('e')
                        ct.touch_tree(p)
                    if undef:
                        break
                if case['fail'] or undef:
                    raise Boom()
        except fsbox.Escape as e:
            return f'{e}'
        except Exception as e:  # noqa
            err = e
        after = fsbox.snapshot(root)
        d = fsbox.diff(sbefore, fsbox.snapshot(src))
        if d:
            return f'source changed: {d}'
        if os.listdir(os.path.join(box.path, 'tmp')):
            return f'temporary files left behind: {os.listdir(os.path.join(box.path, "tmp"))}'
        if err is not None or undef or case['fail']:
            if err is None:
                return 'the transaction swallowed the exception'
            if not isinstance(err, Boom) and not undef:
                return f'an operation failed: {type(err).__name__}: {err}'
            d = fsbox.diff(before, after)
            return f'after the rollback: {d}' if d else None
        d = fsbox.diff(model.t, after)
        return f'after the commit, against the intended effect: {d}' if d else None
