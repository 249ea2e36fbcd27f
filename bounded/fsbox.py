"""a scratch directory that nothing run inside may leave: writes, removals and renames outside it are refused by an audit hook
(so a broken version of the code under test cannot reach the real file system), and root privileges are dropped"""
import os
import shutil
import sys
import tempfile


class Escape(BaseException):
    """the code under test tried to change something outside the scratch directory"""


_root = None
_hooked = False
_busy = False


def _full(p, dir_fd=-1):
    if isinstance(p, int):
        return None
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        base = os.getcwd()
        if isinstance(dir_fd, int) and dir_fd >= 0:
            base = os.readlink(f'/proc/self/fd/{dir_fd}')
        p = os.path.join(base, p)
    # symbolic links in the parents count, the entry itself does not
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def _need(p, dir_fd=-1, what=''):
    f = _full(p, dir_fd)
    if f is None or f == '/dev/null':
        return
    f = os.path.normpath(f)
    if not (f + '/').startswith(_root + '/'):
        raise Escape(f'{what} outside the scratch directory: {f}')


def _hook(ev, args):
    global _busy
    if _root is None or _busy:
        return
    _busy = True
    try:
        if ev == 'open':
            p, mode, flags = args
            w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
                (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if w and not isinstance(p, int):
                _need(p, what='open for writing')
        elif ev in ('os.remove', 'os.rmdir'):
            _need(args[0], args[1], ev)
        elif ev == 'os.mkdir':
            _need(args[0], args[2], ev)
        elif ev in ('os.chmod',):
            _need(args[0], args[2], ev)
        elif ev in ('os.rename', 'os.link'):
            _need(args[0], args[2], ev)
            _need(args[1], args[3], ev)
        elif ev == 'os.symlink':
            _need(args[1], args[2], ev)
        elif ev in ('os.truncate', 'os.utime', 'os.chown'):
            _need(args[0], what=ev)
        elif ev in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.kill'):
            raise Escape(f'{ev} while in the scratch directory')
    finally:
        _busy = False


def drop_privileges():
    """best effort; the audit hook contains the run in any case"""
    try:
        if os.geteuid() == 0:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    except OSError:
        pass


class Box:
    def __enter__(self):
        global _root, _hooked
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='pyvcbox', dir='/tmp'))
        os.mkdir(os.path.join(self.path, 'tmp'))
        self._td = tempfile.tempdir
        tempfile.tempdir = os.path.join(self.path, 'tmp')
        _root = self.path
        return self

    def __exit__(self, *exc):
        global _root
        tempfile.tempdir = self._td
        _root = None
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else None
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read().decode('latin1')
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return f'{k} is gone'
        if k not in a:
            return f'{k} is new'
        if a[k] != b[k]:
            return f'{k} changed from {a[k]!r} to {b[k]!r}'
    return None
