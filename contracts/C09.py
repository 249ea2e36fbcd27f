"""C09: copy transactions"""
import shutil
import traceback

from contracts import fs
from contracts.common import *
from contracts.fs import AbsPath, Bag, Fs, Log, TempDir, ABSENT, FILE, DIR, UNDER, PAR, CHILD, NAME, same, everywhere
from pyvc.vc import goal
from pyvc import heap
import pkm.utils.files as F

CT = F.CopyTransaction
M = 'pkm.utils.files:CopyTransaction'
ASSUMPTIONS = ['file system: files, directories and their contents (no links, no other process); every operation may fail before or, '
               'copying, after part of its effect; moving a tree succeeds or fails as a whole; undoing does not fail on its own',
               'file_copy creates or writes nothing but the path it is given; accept changes nothing',
               'undoing a part of the log does not depend on how the entries after it were undone (no state between the iterations of _rollback)']
BOUNDED = ['touch_all and touch_tree of several paths, and the content of whole trees after copy_tree, are only checked by the bounded run']


class Boom(Exception):
    pass


def setup():
    del heap.active[:]
    return patched((shutil, 'move', fs.move), (shutil, 'copy', fs.copy), (shutil, 'copy2', fs.copy), (shutil, 'copyfile', fs.copy),
                   (shutil, 'rmtree', fs.rmtree), (traceback, 'print_exc', lambda *a, **k: None),
                   (traceback, 'print_exception', lambda *a, **k: None), (traceback, 'print_tb', lambda *a, **k: None),
                   (F, 'mkdtemp', lambda *a, **k: 'tmp'), (F, 'Path', lambda p: TempDir() if p == 'tmp' else p))


def logs(tx):
    return {n: v for n, v in vars(tx).items() if isinstance(v, Log)}


def transaction():
    """a transaction after any number of operations; undoing them restores the tree `before`"""
    f = Fs()
    tx = CT()
    tx.__enter__()
    f.undone = set()
    before = f.any('before')
    for n, v in list(vars(tx).items()):
        if isinstance(v, list):
            o = Log(n)
            for x in list(v):
                o.append(x)
            o.part(before, f.state)
            setattr(tx, n, o)
            f.logs[n] = o
        elif isinstance(v, set):
            setattr(tx, n, Bag())
    return f, tx, before


def path(name):
    return AbsPath(z3.Int(name))


def entry(tx, s0, s1):
    for o in logs(tx).values():
        o.part(s0, s1)


def below(t, s0, s1, x):
    """what an operation on t may change: t, what is below it, and missing directories above it"""
    return z3.Or(UNDER(x, t), same(s1, s0, x), z3.And(s0[0][x] == ABSENT, s1[0][x] == DIR, UNDER(t, x)))


def may_raise():
    return psym.cur().nondet()


psym = sym


def step(tx, frame, done):
    """the contract of an operation called by another one"""
    f = fs.FS
    s0 = f.state
    s1 = f.any('after')
    f.state = s1
    entry(tx, s0, s1)
    assume(everywhere(lambda x: frame(s0, s1, x)))
    if may_raise():
        raise fs.Injected('the operation fails')
    assume(done(s0, s1))


def only_missing(t, s0, s1, x):
    return z3.Or(same(s1, s0, x), z3.And(s0[0][x] == ABSENT, s1[0][x] == DIR, UNDER(t, x)))


def mkdir(self, target):
    step(self, lambda s0, s1, x: only_missing(target.e, s0, s1, x), lambda s0, s1: s1[0][target.e] != ABSENT)
    return target


def copy(self, source, target):
    step(self, lambda s0, s1, x: below(target.e, s0, s1, x),
         lambda s0, s1: z3.And(s0[0][source.e] == FILE, s1[0][target.e] == FILE, s1[1][target.e] == s0[1][source.e]))


def copy_tree(self, source, target, accept=None, file_copy=None):
    step(self, lambda s0, s1, x: below(target.e, s0, s1, x), lambda s0, s1: s1[0][target.e] != ABSENT)


def under(**contracts):
    return patched(*[(CT, n, f) for n, f in contracts.items()])


def operation(run, frame=None, done=None):
    """run an operation in any transaction: if it, or anything later, fails, the tree is as before"""
    f, tx, before = transaction()
    s0 = f.state
    try:
        r = run(tx)
        cover('ends')
        ok = True
    except Exception:
        cover('fails')
        ok = False
    f.faults = False
    f.names_stay_free()
    x = fs.a_path(z3.Int(psym.S.fresh_name('path')))
    if ok:
        if frame is not None:
            prove('nothing else changes', frame(s0, f.state, x))
        if done is not None:
            prove('what the operation is for', done(s0, f.state, r))
    try:
        swallowed = tx.__exit__(Boom, Boom('later'), None)
    except Exception as e:
        prove(f'undoing does not fail with {type(e).__name__}', False)
        return
    prove('the exception goes on', not swallowed)
    prove('the tree is as before', same(f.state, before, x))
    prove('the temporary directory is removed', not f.alive)


@goal('C09', functions=[f'{M}.mkdir', f'{M}._created', f'{M}.__exit__', f'{M}._rollback', f'{M}._commit', 'pkm.utils.files:is_empty_directory'], setup=setup)
def mkdir_can_be_undone():
    p = path('target')
    real = CT.mkdir

    def run(tx):
        with under(mkdir=mkdir):
            return real(tx, p)
    operation(run, lambda s0, s1, x: only_missing(p.e, s0, s1, x), lambda s0, s1, r: z3.And(s1[0][p.e] != ABSENT, r.e == p.e))


@goal('C09', functions=[f'{M}.rm', f'{M}.__exit__', f'{M}._rollback', f'{M}._commit'], setup=setup)
def rm_can_be_undone():
    p = path('target')
    operation(lambda tx: tx.rm(p), lambda s0, s1, x: z3.Or(UNDER(x, p.e), same(s1, s0, x)),
              lambda s0, s1, r: everywhere(lambda x: z3.Implies(UNDER(x, p.e), s1[0][x] == ABSENT)))


@goal('C09', functions=[f'{M}.rm', f'{M}._rollback'], setup=setup)
def two_removals_can_be_undone():
    p, q = path('first'), path('second')

    def run(tx):
        tx.rm(p)
        tx.rm(q)
    operation(run)


@goal('C09', functions=[f'{M}.copy', f'{M}.rm', f'{M}._created', f'{M}.__exit__', f'{M}._rollback', f'{M}._commit', 'pkm.utils.files:is_empty_directory'], setup=setup)
def copy_can_be_undone():
    s, t = path('source'), path('target')

    def run(tx):
        with under(mkdir=mkdir):
            return tx.copy(s, t)
    operation(run, lambda s0, s1, x: below(t.e, s0, s1, x),
              lambda s0, s1, r: z3.And(s0[0][s.e] == FILE, s1[0][t.e] == FILE, s1[1][t.e] == s0[1][s.e]))


@goal('C09', functions=[f'{M}.touch', f'{M}._created', f'{M}.__exit__', f'{M}._rollback', f'{M}._commit'], setup=setup)
def touch_can_be_undone():
    p = path('target')
    operation(lambda tx: tx.touch(p, True), lambda s0, s1, x: z3.Or(x == p.e, same(s1, s0, x)),
              lambda s0, s1, r: z3.And(s1[0][p.e] != ABSENT, z3.Implies(s0[0][p.e] != ABSENT, same(s1, s0, p.e))))


def written(p):
    """other code creates or writes this file, or fails"""
    f = fs.FS
    f.fault()
    if not f.decide(f.K[PAR(p.e)] == DIR) or f.decide(f.K[p.e] == DIR):
        raise FileNotFoundError('write')
    f.put(p.e, FILE, psym.fresh('written', I))
    f.fault()


@goal('C09', functions=[f'{M}.touch', f'{M}._created', f'{M}._rollback'], setup=setup)
def created_files_that_are_touched_can_be_undone():
    p = path('target')
    late = bool(sym_bool('touched_after'))

    def run(tx):
        psym.assume_feasible(fs.FS.K[p.e] == ABSENT)
        if late:
            # a failure before the touch is the other code's own
            fs.FS.faults = False
            written(p)
            fs.FS.faults = True
            tx.touch(p)
        else:
            tx.touch(p)
            written(p)
    operation(run)


class Children:
    """loop rule: in every iteration undoing what the loop did restores the tree at its start, and only the target has changed"""

    def __init__(self, tx, target):
        self.tx, self.target = tx, target

    def __call__(self, site, s, body, get, set_, mods):
        psym.cur().weaken(site)
        f = fs.FS
        s0 = f.state
        inv = lambda st: z3.And(st[0][self.target.e] != ABSENT,
                                everywhere(lambda x: z3.Or(UNDER(x, self.target.e), same(st, s0, x))))
        prove('loop: only the target changes (start)', inv(s0))
        f.state = f.any('iteration')
        entry(self.tx, s0, f.state)
        assume(inv(f.state))
        env0 = get()
        set_({m: runtime.Poison(env0, m) for m in mods})
        if psym.cur().nondet():
            return runtime.DONE
        i = psym.fresh('it', I)
        s = s.dense()
        psym.assume_feasible(z3.And(0 <= i, i < s.n))
        r = body(s.at(i))
        if r is not runtime.CONT:
            return r
        prove('loop: only the target changes', inv(f.state))
        raise Iterated()


class Iterated(Exception):
    """one iteration is over: whatever follows is another one or the end"""


def tree(file_copy):
    s, t = path('source'), path('target')
    acc = psym.fresh_fun('accept', I, B)

    def accept(p):
        if may_raise():
            raise Boom('accept')
        return SymBool(acc(p.e))

    def run(tx):
        real = CT.copy_tree
        rule = Children(tx, t)
        runtime.for_rules.insert(0, rule)
        try:
            with under(mkdir=mkdir, copy=copy, copy_tree=copy_tree):
                return real(tx, s, t, accept, file_copy)
        finally:
            runtime.for_rules.remove(rule)
    operation(run, lambda s0, s1, x: below(t.e, s0, s1, x), lambda s0, s1, r: s1[0][t.e] != ABSENT)


@goal('C09', functions=[f'{M}.copy_tree', f'{M}._rollback'], setup=setup)
def copy_tree_can_be_undone():
    tree(None)


@goal('C09', functions=[f'{M}.copy_tree', f'{M}.rm', f'{M}.touch', f'{M}._created', f'{M}._rollback'], setup=setup)
def copy_tree_with_a_function_can_be_undone():
    tree(lambda s, d: written(d))


@goal('C09', functions=[f'{M}.__init__', f'{M}.__enter__', f'{M}.__exit__', f'{M}._rollback', f'{M}._commit'], setup=setup)
def a_transaction_without_operations():
    f = Fs()
    f.faults = False
    s0 = f.state
    fails = bool(sym_bool('fails'))
    tx = CT()
    prove('entering gives the transaction', tx.__enter__() is tx)
    r = tx.__exit__(*((Boom, Boom('x'), None) if fails else (None, None, None)))
    x = fs.a_path(z3.Int(psym.S.fresh_name('path')))
    prove('nothing has changed', same(f.state, s0, x))
    prove('the temporary directory is removed', not f.alive)
    prove('the exception goes on', not (fails and r))
    cover('ended')


@goal('C09', functions=[f'{M}.__exit__', f'{M}._commit'], setup=setup)
def a_normal_end_keeps_what_was_done():
    f, tx, before = transaction()
    f.faults = False
    s0 = f.state
    tx.__exit__(None, None, None)
    x = fs.a_path(z3.Int(psym.S.fresh_name('path')))
    prove('nothing is undone', same(f.state, s0, x))
    prove('the temporary directory is removed', not f.alive)
    cover('ended')


def to_cases(goal, inputs):
    return []
