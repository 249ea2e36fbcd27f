"""C10: record verification of an unpacked wheel, and hash signatures"""
from contracts.common import *
from pyvc.vc import goal
from pyvc import sym as psym, runtime, heap
from pyvc.sym import cur, SymOpt
import pkm.api.distributions.wheel_distribution as W
import pkm.utils.hashes as H
import pkm.utils.files as F
import pkm.utils.io_streams as IOS

ASSUMPTIONS = ['the files below the wheel have pairwise distinct relative paths, given by path_to / relative_to (contract C20)',
               'no two RECORD lines name the same path; reading the RECORD file yields its lines (checked on generated wheels)',
               'a read of a stream delivers some of the bytes that follow, up to what was asked for, and none only at its end; views and slices of byte '
               'arrays have their meaning']


class Wheel:
    def __init__(self):
        self.n, self.m = z3.Int('files'), z3.Int('lines')
        assume(z3.And(self.n >= 0, self.m >= 0))
        f = lambda a, *s: z3.Function(a, *s)
        self.isdir, self.meta, self.isrec = f('is_dir', I, B), f('in_metadata', I, B), f('is_RECORD', I, B)
        self.path, self.line = f('path', I, R), f('line.path', I, R)
        self.nosig, self.match = f('line.unsigned', I, B), f('matches', I, I, B)
        self.unknown = f('unknown_algorithm', I, B)
        self.has_record = z3.Bool('has_RECORD')
        x, y = z3.Ints('x!w y!w')
        assume(z3.ForAll([x], z3.And(self.path(x) > 0, self.path(x) < 1, self.line(x) > 0, self.line(x) < 1)))
        assume(z3.ForAll([x, y], z3.Implies(self.path(x) == self.path(y), x == y), patterns=[z3.MultiPattern(self.path(x), self.path(y))]))
        assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < self.m, 0 <= y, y < self.m, self.line(x) == self.line(y)), x == y),
                         patterns=[z3.MultiPattern(self.line(x), self.line(y))]))
        assume(z3.ForAll([x, y], z3.Implies(z3.And(self.isrec(x), self.isrec(y)), x == y),
                         patterns=[z3.MultiPattern(self.isrec(x), self.isrec(y))]))
        assume(z3.ForAll([x], z3.Implies(self.isrec(x), z3.And(self.meta(x), z3.Not(self.isdir(x))))))
        register_input('wheel', self, Wheel.conc)

    @staticmethod
    def conc(self, m):
        ev = lambda e: str(m.eval(e, model_completion=True))
        n, k = (min(m.eval(v, model_completion=True).as_long(), 4) for v in (self.n, self.m))
        c = lambda v: z3.IntVal(v)
        return {'record': ev(self.has_record),
                'files': [[ev(f(c(i))) for f in (self.path, self.isdir, self.meta, self.isrec)] for i in range(n)],
                'lines': [[ev(self.line(c(j))), ev(self.nosig(c(j)))] + [ev(self.match(c(j), c(i))) for i in range(n)] for j in range(k)]}

    def listed(self, i, also=lambda j: z3.BoolVal(True)):
        j = z3.Int('j!l')
        return z3.Exists([j], z3.And(0 <= j, j < self.m, self.line(j) == self.path(i), z3.Not(self.nosig(j)), also(j)))


class Dir(psym.Sym):
    def __init__(self, w, role):
        self.w, self.role = w, role

    def rglob(self, pat):
        if self.role != 'content' or pat not in ('*', '**/*'):
            raise psym.Unsupported('glob')
        v = psym.VList()
        v.sym = SymSeq(self.w.n, lambda i: File(self.w, i), 'list')
        return v

    def __truediv__(self, x):
        if self.role == 'meta' and x == 'RECORD':
            return RecordPath(self.w)
        raise psym.Unsupported('path of a wheel')

    def absolute(self):
        return self

    def __vc_is__(self, o):
        return self is o

    def __eq__(self, o):
        if isinstance(o, Dir):
            return self is o
        raise psym.Unsupported('comparison of directories')

    __hash__ = psym.Sym.__hash__

    def __bool__(self):
        return True


class RecordPath(psym.Sym):
    def __init__(self, w):
        self.w = w

    def exists(self):
        return SymBool(self.w.has_record)

    is_file = exists

    def __eq__(self, o):
        return SymBool(self.w.isrec(o.i)) if isinstance(o, File) else isinstance(o, RecordPath)

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    __hash__ = psym.Sym.__hash__


class Parents(psym.Sym):
    def __init__(self, f):
        self.f = f

    def __vc_in__(self, d):
        return under(self.f, d)


def under(f, d):
    if not isinstance(d, Dir):
        raise psym.Unsupported('containment')
    return SymBool(f.w.meta(f.i)) if d.role == 'meta' else SymBool(z3.BoolVal(True))


class File(psym.Sym):
    __slots__ = ('w', 'i')

    def __init__(self, w, i):
        self.w, self.i = w, i

    def __vc_reindex__(self, a, b):
        return File(self.w, z3.substitute(self.i, (a, b)))

    def is_dir(self):
        return SymBool(self.w.isdir(self.i))

    def is_file(self):
        return SymBool(z3.Not(self.w.isdir(self.i)))

    def absolute(self):
        return self

    @property
    def parents(self):
        return Parents(self)

    def is_relative_to(self, d):
        return under(self, d)

    def relative_to(self, d):
        if not isinstance(d, Dir) or d.role != 'content':
            raise psym.Unsupported('relative path')
        return Relative(self)

    def __eq__(self, o):
        if isinstance(o, RecordPath):
            return o == self
        return SymBool(self.i == o.i) if isinstance(o, File) else False

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    __hash__ = psym.Sym.__hash__

    def __vc_str__(self):
        return psym.sym_str('some absolute path')


class Relative(psym.Sym):
    def __init__(self, f):
        self.f = f

    def __vc_str__(self):
        return SymStr(self.f.w.path(self.f.i))

    def as_posix(self):
        return SymStr(self.f.w.path(self.f.i))


class Line(psym.Sym):
    __slots__ = ('w', 'j')

    def __init__(self, w, j):
        self.w, self.j = w, j

    def __vc_reindex__(self, a, b):
        return Line(self.w, z3.substitute(self.j, (a, b)))

    def __bool__(self):
        return True

    file = property(lambda self: SymStr(self.w.line(self.j)))
    hash_signature = property(lambda self: SymOpt(self.w.nosig(self.j), Signature(self.w, self.j)))


class Signature(Line):
    def validate_against(self, f):
        if not isinstance(f, File):
            raise psym.Unsupported('signature of something else')
        if cur().decide(self.w.unknown(self.j)):
            raise KeyError('unsupported hash')
        return SymBool(self.w.match(self.j, f.i))


class Warnings:
    @staticmethod
    def warn(*a, **k):
        pass


def rel(src, dst):
    if not isinstance(src, Dir) or src.role != 'content' or not isinstance(dst, File):
        raise psym.Unsupported('relative path')
    return Relative(dst)


def setup():
    return patched((W, 'path_to', rel), (W, 'warnings', Warnings))


@goal('C10', functions=['pkm.api.distributions.wheel_distribution:_verify_records'], setup=setup, feas_ms=60)
def record_verification():
    w = Wheel()

    class Info:
        path = Dir(w, 'meta')
        package_name_by_dirname = psym.sym_str('name')

    class Records:
        path = Info.path / 'RECORD'
        records = psym.VList()
    Records.records.sym = SymSeq(w.m, lambda j: Line(w, j), 'list')
    raised = None
    try:
        W._verify_records(Info, Dir(w, 'content'), Records)
    except Exception as e:
        raised = type(e)
    i, j = z3.Ints('i!v j!v')
    isfile = lambda i: z3.And(0 <= i, i < w.n, z3.Not(w.isdir(i)))
    sound = z3.And(w.has_record,
                   z3.ForAll([i], z3.Implies(isfile(i), z3.Or(w.isrec(i), w.listed(i)))),
                   z3.ForAll([i], z3.Implies(z3.And(isfile(i), z3.Not(w.meta(i))), w.listed(i, lambda j: z3.And(w.match(j, i), z3.Not(w.unknown(j)))))))
    # an intact wheel: every listed hash is known and right
    intact = z3.And(sound, z3.ForAll([i, j], z3.Implies(z3.And(isfile(i), 0 <= j, j < w.m, w.line(j) == w.path(i), z3.Not(w.nosig(j))),
                                                        z3.And(w.match(j, i), z3.Not(w.unknown(j))))))
    if raised is None:
        prove('an accepted wheel is listed and matches', sound)
        cover('accepted')
    else:
        prove('an intact wheel is accepted', z3.Not(intact))
        cover('refused')


# ------------------------------------------------------------------------------------------------------ signatures
HM = 'pkm.utils.hashes'
DIGEST = z3.Function('digest', I, I, R)  # algorithm, content -> text of the digest (hex), and the same encoded
ENC = z3.Function('b64 digest', I, I, R)


class Digest:
    def __init__(self, alg):
        self.alg, self.fed = alg, []

    def update(self, x):
        self.fed.append(x)

    def hexdigest(self):
        return SymStr(DIGEST(self.alg, self.fed[0])) if len(self.fed) == 1 else psym.sym_str('other')


class Hashlib:
    made = 0

    @staticmethod
    def good():
        return Digest(z3.IntVal(1))

    @staticmethod
    def other():
        return Digest(z3.IntVal(2))


def feed(hd, file, *a, **k):
    hd.update(file)


def sig_setup():
    return patched((H, 'hashlib', Hashlib), (H, 'stream', feed))


@goal('C10', functions=[f'{HM}:HashSignature.validate_against', f'{HM}:HashSignature.encode_hash', f'{HM}:HashSignature._encode_hash'], setup=sig_setup)
def a_signature_matches_its_file():
    content = z3.Int('content')
    value = psym.sym_str('value')
    alg = 'good' if sym_bool('algorithm') else 'other'
    a = z3.IntVal(1 if alg == 'good' else 2)
    x = z3.Int('x!d')
    assume(z3.ForAll([x], z3.And(DIGEST(a, x) > 0, DIGEST(a, x) < 1, ENC(a, x) > 0, ENC(a, x) < 1)))
    if sym_bool('hex'):
        r = H.HashSignature(alg, value).validate_against(content)
        prove('hex', form(r) == (DIGEST(a, content) == value.e))
        c = H.HashSignature.compute_hex_encoded(alg, content)
        prove('computed', c.hash_type == alg and c.hash_value == SymStr(DIGEST(a, content)))
    else:
        class Other(H.HashSignature):
            @classmethod
            def encode_hash(cls, hd):
                return SymStr(ENC(hd.alg, hd.fed[0]))
        r = Other(alg, value).validate_against(content)
        prove('the encoding of its class', form(r) == (ENC(a, content) == value.e))
    try:
        H.HashSignature('nothing', value).validate_against(content)
        prove('an unknown algorithm is refused', False)
    except KeyError:
        prove('an unknown algorithm is refused', True)


class Source:
    """a stream of n bytes, somewhere in the middle; every read delivers any number of the bytes asked for, none only at the end"""
    __slots__ = ('n', 'p', 'reads', 'script')

    def __init__(self):
        self.n, self.p, self.reads, self.script = z3.Int('bytes'), z3.Int('position'), [], []
        assume(z3.And(0 <= self.p, self.p <= self.n))

    def some(self, room):
        lo, k = self.p, self.script.pop(0) if self.script else psym.fresh('read', z3.IntSort())
        assume(z3.And(0 <= k, k <= room, lo + k <= self.n, (k == 0) == (lo == self.n)))
        self.p = lo + k
        return lo, k

    def resume(self, buffers):
        """any later moment: the position and what the buffers hold are anything"""
        self.p = psym.fresh('position', z3.IntSort())
        assume(z3.And(0 <= self.p, self.p <= self.n))
        for b in buffers:
            b.lo, b.k = psym.fresh('stale', z3.IntSort()), psym.fresh('stale', z3.IntSort())


class Filling(Source):
    __slots__ = ()

    def readinto(self, buf):
        if isinstance(buf, View) and z3.eq(buf.upto, buf.buf.size):
            buf = buf.buf
        if type(buf) is not Buffer:
            raise psym.Unsupported('reading into something else than a buffer')
        buf.lo, buf.k = self.some(buf.size)
        self.reads.append(SymInt(buf.k))
        return self.reads[-1]

    def read(self, size=-1):
        return Giving.read(self, size)


class Giving(Source):
    __slots__ = ()

    def read(self, size=-1):
        size = size.e if isinstance(size, SymInt) else z3.IntVal(size)
        prove('some bytes are asked for', size > 0)
        self.reads.append(Piece(*self.some(size)))
        return self.reads[-1]


class Piece(psym.Sym):
    """bytes lo..lo+k of the stream"""
    __slots__ = ('lo', 'k')

    def __init__(self, lo, k):
        self.lo, self.k = lo, k

    def __bool__(self):
        return cur().decide(self.k > 0)

    def __vc_len__(self):
        return SymInt(self.k)


BUFFERS = []


class Buffer(psym.Sym):
    """a byte array; its first k bytes are those from lo on of the stream, as read last"""
    __slots__ = ('size', 'lo', 'k')

    def __init__(self, size):
        self.size = size.e if isinstance(size, SymInt) else z3.IntVal(size)
        self.lo, self.k = z3.IntVal(0), z3.IntVal(0)
        BUFFERS.append(self)

    def __vc_len__(self):
        return SymInt(self.size)

    def __bool__(self):
        return cur().decide(self.size > 0)

    def __getitem__(self, s):
        if not isinstance(s, slice):
            raise psym.Unsupported('a byte of a buffer')
        return View(self)[s]


class View(psym.Sym):
    __slots__ = ('buf', 'upto')

    def __init__(self, buf, upto=None):
        if type(buf) is not Buffer:
            raise psym.Unsupported('a view of something else than a buffer')
        self.buf, self.upto = buf, buf.size if upto is None else upto

    def __getitem__(self, s):
        stop = runtime.unopt(s.stop) if isinstance(s, slice) else None
        if not isinstance(s, slice) or s.start not in (None, 0) or s.step is not None or stop is None:
            raise psym.Unsupported('this part of a view')
        stop = stop.e if isinstance(stop, SymInt) else z3.IntVal(stop)
        if not cur().decide(z3.And(0 <= stop, stop <= self.upto)):
            raise psym.Unsupported('a slice beyond the view')
        return View(self.buf, stop)

    def __vc_len__(self):
        return SymInt(self.upto)


def io_setup():
    del BUFFERS[:]
    return patched((IOS, 'bytearray', Buffer), (IOS, 'memoryview', View))


END = object()


def step(name, gen, src):
    """one resumption of the generator: it gives exactly the bytes from the position on that it read, or ends at the end"""
    p = src.p
    y = runtime.unopt(next(gen, END))
    if y is END:
        prove(name + ': it stops at the end only', p == src.n)
        return False
    if isinstance(y, Piece):
        lo, k = y.lo, y.k
    elif isinstance(y, (Buffer, View)):
        b = y if isinstance(y, Buffer) else y.buf
        prove(name + ': the part of the buffer just read', b.k == (b.size if y is b else y.upto))
        lo, k = b.lo, b.k
    else:
        raise psym.Unsupported('a chunk of another kind')
    prove(name + ': the bytes that follow', z3.And(lo == p, k > 0, src.p == lo + k))
    return True


def state_of(gen):
    import dis
    if any(i.opname == 'FOR_ITER' for i in dis.get_instructions(gen.gi_code)):
        raise psym.Unsupported('a loop over an iterator in a generator')
    return dict(gen.gi_frame.f_locals), gen.gi_frame.f_lasti


@goal('C10', functions=['pkm.utils.io_streams:chunks'], setup=io_setup)
def the_chunks_of_a_stream():
    """Induction over the resumptions: the first one is right from any position; resumed at any later position it is right again, and the
    generator is then in the state a new one reaches by the same reads from that position, so every further one is right as well"""
    del BUFFERS[:]
    src = Filling() if sym_bool('reads into buffers') else Giving()
    size = z3.Int('chunk size')
    assume(size > 0)
    reuse = bool(sym_bool('reuse'))
    start = lambda s: IOS.chunks(s, SymInt(size), reuse)
    gen = start(src)
    if not step('first', gen, src):
        cover('empty')
        return
    state_of(gen)
    mine, read = list(BUFFERS), len(src.reads)
    src.resume(mine)
    p = src.p
    if not step('next', gen, src):
        cover('end')
        return
    if mine != list(BUFFERS):
        raise psym.Unsupported('a buffer made anew')
    now = src.reads[read:]
    twin = type(src)()
    twin.p, twin.script = p, [r.k if isinstance(r, Piece) else r.e for r in now]
    other = start(twin)
    if next(other, END) is END or twin.script:
        raise psym.Unsupported('the generator changes its state')
    pairs = list(zip(mine, BUFFERS[len(mine):])) + list(zip(now, twin.reads)) + [(src, twin)]
    same_state(state_of(gen), state_of(other), pairs)
    cover('more')


def same_state(a, b, pairs):
    (v, at), (w, at2) = a, b
    if at != at2 or set(v) != set(w):
        raise psym.Unsupported('the generator changes its state')

    def same(x, y):
        x, y = runtime.unopt(x), runtime.unopt(y)
        if any(x is p and y is q for p, q in pairs):
            return True
        if isinstance(x, View) and isinstance(y, View):
            return same(x.buf, y.buf) and z3.eq(x.upto, y.upto)
        if isinstance(x, SymInt) and isinstance(y, SymInt):
            return z3.eq(x.e, y.e)
        return x is y if isinstance(x, psym.Sym) else type(x) is type(y) and isinstance(x, (int, str, bytes, type(None))) and x == y
    for n in v:
        if not same(v[n], w[n]):
            raise psym.Unsupported(f'the generator carries {n} along')


class Chunk(psym.Sym):
    """the i-th chunk of the stream"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return True


class Fed:
    """a digest that remembers which chunks it was fed, and insists on their order"""

    def __init__(self, u):
        self.u, self.fed = u, runtime.b_set()

    def update(self, x):
        x = runtime.unopt(x)
        if not isinstance(x, Chunk):
            raise psym.Unsupported('fed with something else')
        j = z3.Int('j!fed')
        m = heap.membership(self.u, self.fed)
        prove('each chunk once and in order', z3.And(z3.Not(m(x.i)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x.i), m(j)))))
        self.fed.add(SymInt(x.i))


def stream_setup():
    class File:
        def __init__(self):
            self.opened = []

        def open(self, mode='r', *a):
            prove('opened for reading bytes', mode == 'rb')
            self.opened.append(OpenFile())
            return self.opened[-1]
    return patched((H, 'Path', File))


class OpenFile:
    open_ = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open_ = False


@goal('C10', functions=[f'{HM}:stream'], setup=stream_setup)
def the_digest_is_fed_the_whole_file():
    n = z3.Int('chunks')
    assume(n >= 0)
    u = heap.Universe(n, Chunk, lambda x: x.e if isinstance(x, SymInt) else x.i if isinstance(x, Chunk) else None, SymInt)
    hd = Fed(u)
    f = H.Path() if sym_bool('a path') else OpenFile()
    size = z3.Int('chunk size')
    assume(size > 0)

    def parts(io_stream, chunk_size=8192, reuse=True):
        fd, sz = io_stream, chunk_size
        prove('the file given, open', fd.open_ and (fd is f or fd in getattr(f, 'opened', ())))
        prove('chunks of some size', (sz.e if isinstance(sz, SymInt) else z3.IntVal(sz)) > 0)
        prove('read once', not hasattr(fd, 'read_'))
        fd.read_ = True
        return psym.SymSeq(n, Chunk, 'list')

    def candidates(mem, mem0, i, d):
        q = z3.Int('q!c')
        for m in mem:
            if i is not None:
                yield ('up to here', m), z3.ForAll([q], z3.Implies(u.rng(q), mem[m](q) == (q < i)))
    h = heap.HeapContract(u, candidates, for_loops=True)
    h.objs = {'fed': hd.fed}
    heap.active.append(h)
    try:
        with patched((H, 'chunks', parts)):
            H.stream(hd, f, SymInt(size)) if sym_bool('size given') else H.stream(hd, f)
    finally:
        heap.active.pop()
    j = z3.Int('j!all')
    prove('the whole file', z3.ForAll([j], z3.Implies(u.rng(j), heap.membership(u, hd.fed)(j))))
    for o in getattr(f, 'opened', ()):
        prove('closed again', not o.open_)
    cover('fed')


def to_cases(goal, inputs):
    return []
