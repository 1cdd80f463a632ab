"""Virtual file system: files hold lists of byte elements (possibly symbolic).

Paths below the scratch root live here; anything else is read from the real
file system (read only).
"""
import builtins
import io as _io
import os as _os
import pathlib as _pl
from . import core, text
from .core import Sym, SymInt, as_int, concretize, Unsupported
from .text import belems, mkbytes, SymStr
from .containers import SymDict, SymSet

ROOT = '/vfs'


class VFS:
    def __init__(self):
        self.files = SymDict()     # path -> list of byte elements (binary) ; text files: list of str elements
        self.dirs = SymSet()
        self.dirs.add(ROOT)
        self.opened = []
        self.trace = []

    @staticmethod
    def norm(p):
        if isinstance(p, SymStr):
            if 47 not in [e for e in p.el if isinstance(e, int)]:
                # a relative path: the working directory is the root
                return text.mkstr([ord(c) for c in ROOT + '/'] + list(p.el))
            if p.el[0] == 47:
                return p
            return text.mkstr([ord(c) for c in ROOT + '/'] + list(p.el))
        p = _os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        return _os.path.normpath(_os.path.join(ROOT, p))

    def virtual(self, p):
        p = self.norm(p)
        if isinstance(p, SymStr):
            return True
        return p == ROOT or p.startswith(ROOT + '/')


def cur():
    p = core.CUR
    if 'vfs' not in p.scope:
        p.scope['vfs'] = VFS()
    return p.scope['vfs']


class FileData:
    def __init__(self, el=None):
        self.el = el if el is not None else []


class SymFile:
    """binary or text file with the semantics of a real one"""

    def __init__(self, data, mode='rb', name=None, encoding=None, errors=None, bytesio=False, newline=None):
        self.data = data
        self.mode = mode
        self.name = name
        self.pos = 0
        self.closed = False
        self.binary = 'b' in mode
        self.encoding = encoding or 'utf-8'
        self.errors = errors or 'strict'
        self.newline = newline
        self.can_read = 'r' in mode or '+' in mode
        self.can_write = any(c in mode for c in 'wax+')
        self.append_mode = 'a' in mode
        self.bytesio = bytesio
        self._text = None

    # --
    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def fileno(self):
        raise _io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def _textel(self):
        if self._text is None:
            r = text.decode(self.data.el, self.encoding, self.errors) if self.data.el else ''
            self._text = list(text.selems(r))
        return self._text

    def read(self, n=-1):
        self._chk()
        if not self.can_read:
            raise _io.UnsupportedOperation('not readable')
        src = self.data.el if self.binary else self._textel()
        mk = mkbytes if self.binary else text.mkstr
        rest = max(0, len(src) - self.pos)
        if n is None:
            n = -1
        n = as_int(n) if as_int(n) is not None else n.__index__()
        if isinstance(n, SymInt):
            if n < 0:
                k = rest
            elif n >= rest:
                k = rest
            else:
                k = concretize(n)
        else:
            k = rest if n < 0 else min(n, rest)
        out = src[self.pos:self.pos + k]
        self.pos += k
        core.CUR.step()
        return mk(out)

    read1 = read

    def readinto(self, buf):
        r = belems(self.read(len(buf)))
        buf[0:len(r)] = mkbytes(r)
        return len(r)

    def peek(self, n=0):
        p = self.pos
        r = self.read(n if n else -1)
        self.pos = p
        return r

    def getvalue(self):
        return (mkbytes if self.binary else text.mkstr)(self.data.el)

    def getbuffer(self):
        return self.getvalue()

    def readline(self, n=-1):
        src = self.data.el if self.binary else self._textel()
        out = []
        while self.pos < len(src):
            e = src[self.pos]
            self.pos += 1
            out.append(e)
            if not isinstance(e, text.Tok) and bool(e == 10):
                break
        return (mkbytes if self.binary else text.mkstr)(out)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            ln = self.readline()
            if len(ln) == 0:
                return
            yield ln

    def __next__(self):
        ln = self.readline()
        if len(ln) == 0:
            raise StopIteration
        return ln

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        off = as_int(off) if as_int(off) is not None else off.__index__()
        if not self.binary and whence and (isinstance(off, SymInt) or off):
            raise _io.UnsupportedOperation("can't do nonzero cur-relative seeks")
        base = {0: 0, 1: self.pos, 2: len(self.data.el)}[whence]
        target = base + off
        if isinstance(target, SymInt):
            if target < 0:
                target = -1
            elif target > len(self.data.el):
                # any position beyond the end reads as end of file
                target = len(self.data.el) + 1
                core.note_realised('seek beyond end')
            else:
                target = concretize(target)
        if target < 0:
            if whence == 0:
                raise (ValueError('negative seek value') if self.bytesio else OSError(22, 'Invalid argument'))
            if self.bytesio:
                target = 0
            else:
                raise OSError(22, 'Invalid argument')
        self.pos = target
        core.CUR.step()
        return self.pos

    def write(self, b):
        self._chk()
        if not self.can_write:
            raise _io.UnsupportedOperation('not writable')
        if self.binary:
            el = belems(b)
            if el is None:
                f = getattr(type(b), '__sym_bytes__', None)
                if f is not None:
                    el = f(b)
                elif isinstance(b, (str, SymStr)) or isinstance(b, (int, float)) or b is None or isinstance(b, Sym):
                    raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
                else:
                    el = list(bytes(memoryview(b).cast('B')))
        else:
            el = text.selems(b)
            if el is None:
                raise TypeError('write() argument must be str, not %s' % type(b).__name__)
            el = list(el)
        if self.append_mode:
            self.pos = len(self.data.el)
        if self.pos > len(self.data.el):
            self.data.el.extend([0] * (self.pos - len(self.data.el)))
        self.data.el[self.pos:self.pos + len(el)] = el
        self.pos += len(el)
        return len(el)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def truncate(self, n=None):
        n = self.pos if n is None else n.__index__()
        del self.data.el[n:]
        return n

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        return self

    @property
    def buffer(self):
        return self

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_io.BufferedReader' object")


def open_(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    v = cur()
    if not v.virtual(path):
        if any(c in mode for c in 'wax+'):
            raise Unsupported('write outside the scratch root')
        return builtins.open(path, mode, buffering, encoding, errors, newline)
    p = v.norm(path)
    if p in v.dirs:
        raise IsADirectoryError(21, 'Is a directory')
    d = v.files.get(p)
    if d is None:
        if 'r' in mode:
            raise FileNotFoundError(2, 'No such file or directory')
        if not isinstance(p, SymStr):
            parent = _os.path.dirname(p)
            if parent not in v.dirs:
                raise FileNotFoundError(2, 'No such file or directory')
        d = FileData()
        v.files[p] = d
    elif 'x' in mode:
        raise FileExistsError(17, 'File exists')
    elif 'w' in mode:
        d.el = []
    f = SymFile(d, mode, name=path, encoding=encoding, errors=errors, newline=newline)
    v.opened.append(f)
    return f


def bytesio(init=b''):
    el = belems(init)
    f = SymFile(FileData(list(el) if el is not None else list(bytes(init))), 'r+b', bytesio=True)
    f.can_write = True
    return f


def stringio(init='', newline='\n'):
    f = SymFile(FileData(list(text.selems(init))), 'r+', bytesio=True)
    f._text = f.data.el
    return f


# ------------------------------------------------------------------ os

def _db_exists(q):
    from . import f_sqlite
    return not isinstance(q, SymStr) and f_sqlite.virtual_exists(q)


class _Path:
    def exists(self, p):
        v = cur()
        if not v.virtual(p):
            return _os.path.exists(p)
        q = v.norm(p)
        return q in v.files or q in v.dirs or _db_exists(q)

    lexists = exists

    def isfile(self, p):
        v = cur()
        if not v.virtual(p):
            return _os.path.isfile(p)
        return v.norm(p) in v.files or _db_exists(v.norm(p))

    def isdir(self, p):
        v = cur()
        if not v.virtual(p):
            return _os.path.isdir(p)
        return v.norm(p) in v.dirs

    def getsize(self, p):
        v = cur()
        if not v.virtual(p):
            return _os.path.getsize(p)
        d = v.files.get(v.norm(p))
        if d is None:
            raise FileNotFoundError(2, 'No such file or directory')
        return len(d.el)

    def join(self, a, *p):
        if any(isinstance(x, SymStr) for x in (a,) + p):
            out = a
            for x in p:
                if len(x) and bool(x.startswith('/')):
                    out = x
                elif not len(out) or bool(out[-1:] == '/'):
                    out = out + x
                else:
                    out = out + '/' + x
            return out
        return _os.path.join(a, *p)

    def split(self, p):
        if isinstance(p, SymStr):
            i = p.rfind('/') + 1
            return p[:i].rstrip('/') if i > 1 else p[:i], p[i:]
        return _os.path.split(p)

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def abspath(self, p):
        if cur().virtual(p):
            return cur().norm(p)
        return _os.path.abspath(p)

    def realpath(self, p):
        return self.abspath(p)

    def __getattr__(self, n):
        f = getattr(_os.path, n)
        if not callable(f):
            return f
        from .shims import realise_deep
        return lambda *a, **k: f(*[realise_deep(x) for x in a], **k)


class _Os:
    path = _Path()

    def mkdir(self, p, mode=0o777):
        v = cur()
        q = v.norm(p)
        if not v.virtual(p):
            raise Unsupported('mkdir outside the scratch root')
        if q in v.dirs or q in v.files:
            raise FileExistsError(17, 'File exists')
        if not isinstance(q, SymStr) and _os.path.dirname(q) not in v.dirs:
            raise FileNotFoundError(2, 'No such file or directory')
        v.dirs.add(q)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        v = cur()
        q = v.norm(p)
        if not v.virtual(p):
            raise Unsupported('mkdir outside the scratch root')
        if q in v.dirs and not exist_ok:
            raise FileExistsError(17, 'File exists')
        while q not in v.dirs:
            v.dirs.add(q)
            q = _os.path.dirname(q)

    def remove(self, p):
        v = cur()
        q = v.norm(p)
        if q not in v.files:
            raise FileNotFoundError(2, 'No such file or directory')
        del v.files[q]
    unlink = remove

    def rename(self, a, b):
        v = cur()
        a, b = v.norm(a), v.norm(b)
        if a not in v.files:
            raise FileNotFoundError(2, 'No such file or directory')
        d = v.files.pop(a)
        v.files[b] = d
    replace = rename

    def listdir(self, p='.'):
        v = cur()
        q = v.norm(p)
        if not v.virtual(p):
            return _os.listdir(p)
        return [f[len(q) + 1:] for f in list(v.files) + list(v.dirs)
                if isinstance(f, str) and _os.path.dirname(f) == q and f != q]

    def getcwd(self):
        return ROOT

    def stat(self, p):
        class S:
            st_size = self.path.getsize(p)
            st_mode = 0o100644
        return S()

    def fspath(self, p):
        return p if isinstance(p, SymStr) else _os.fspath(p)

    def __getattr__(self, n):
        if n in ('system', 'popen', 'kill', 'chdir', 'rmdir', 'removedirs', 'open', 'write'):
            raise Unsupported('os.' + n)
        return getattr(_os, n)


os_module = _Os()


class SymPath(_pl.PurePosixPath):
    """pathlib.Path on the virtual file system"""

    def open(self, mode='r', *a, **k):
        return open_(str(self), mode, *a, **k)

    def exists(self):
        return os_module.path.exists(str(self))

    def is_file(self):
        return os_module.path.isfile(str(self))

    def is_dir(self):
        return os_module.path.isdir(str(self))

    def read_bytes(self):
        return open_(str(self), 'rb').read()

    def read_text(self, encoding=None, errors=None):
        return open_(str(self), 'r', -1, encoding, errors).read()

    def write_bytes(self, b):
        return open_(str(self), 'wb').write(b)

    def write_text(self, s, *a, **k):
        return open_(str(self), 'w').write(s)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if exist_ok and self.is_dir():
            return
        (os_module.makedirs if parents else os_module.mkdir)(str(self))

    def unlink(self, missing_ok=False):
        if missing_ok and not self.exists():
            return
        os_module.remove(str(self))

    def resolve(self, strict=False):
        return SymPath(os_module.path.abspath(str(self)))

    absolute = resolve

    def iterdir(self):
        return [self / n for n in os_module.listdir(str(self))]
