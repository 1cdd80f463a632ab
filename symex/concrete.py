"""Harness context, concrete side: the same harness on the unmodified code.

Imports nothing of the symbolic engine, so that a replay runs only the real
implementation under a plain interpreter.
"""
import contextlib
import importlib
import io
import os
import struct
import sys


class Abort(BaseException):
    """the values do not meet an assumption of the harness"""


class Violation(BaseException):
    pass


def _np():
    import numpy
    return numpy


def plain(x):
    np = _np()
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, np.ndarray):
        return [plain(e) for e in x]
    return x


def same(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if not isinstance(a, (str, bytes, bytearray)) and hasattr(a, 'mapping'):
        a = list(a)
    if isinstance(a, (type({}.keys()), type({}.values()), type({}.items()))):
        a = list(a)
    if isinstance(b, (type({}.keys()), type({}.values()), type({}.items()))):
        b = list(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and isinstance(a, list) == isinstance(b, list) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    r = a == b
    return bool(r) if r is not NotImplemented else False


def norm(x):
    """JSON-able, comparable form of an observation"""
    x = plain(x) if not isinstance(x, (dict,)) else x
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return 'nan' if x != x else 'f:' + repr(x)
    if isinstance(x, str):
        return 's:' + x.encode('utf-8', 'surrogatepass').hex() if not x.isascii() else 's:' + x
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).hex()
    if isinstance(x, dict):
        return {'d': [[norm(k), norm(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return sorted((norm(v) for v in x), key=repr)
    return [norm(v) for v in x]


class Ctx:
    symbolic = False

    def __init__(self, params, values, tmp):
        self.params = params
        self.vals = values
        self.tmp = tmp
        self.obs = []
        self.checks = 0
        self.out = io.StringIO()
        self.stubbed = []
        self.kf = []
        self.made = {}

    # -- inputs
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.vals.get(name)
        if v is None:
            v = min(max(lo, 0), hi)
        if not lo <= v <= hi:
            raise Abort('%s out of range' % name)
        return v

    def again(self, name):
        return self.made[name]

    def bytes(self, name, n):
        if n == 0:
            return b''
        v = self.vals.get(name)
        self.made[name] = bytes(v) if v is not None else bytes(n)
        return self.made[name]

    def str(self, name, n, chars=None):
        chars = chars or [(0x20, 0x7e)]
        v = self.vals.get(name)
        if v is None:
            v = [chars[0][0]] * n
        for e in v:
            if not any(a <= e <= b for a, b in chars):
                raise Abort(name)
        return ''.join(map(chr, v))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if not cond:
            raise Abort()

    # -- assertions
    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg)

    def fail(self, msg, m=None):
        raise Violation(msg)

    def check_eq(self, a, b, msg):
        self.checks += 1
        if not same(a, b):
            raise Violation('%s: got %.300r, expected %.300r' % (msg, a, b))

    def check_close(self, a, b, msg):
        self.checks += 1
        a, b = plain(a), plain(b)
        if not (isinstance(a, list) == isinstance(b, list)) or (isinstance(a, list) and len(a) != len(b)):
            raise Violation('%s: got %.300r, expected %.300r' % (msg, a, b))
        for x, y in zip(a, b) if isinstance(a, list) else [(a, b)]:
            if not (x == y or abs(x - y) <= 1e-4 * max(1, abs(y))):
                raise Violation('%s: got %.300r, expected %.300r' % (msg, a, b))

    def known(self, kid, cond, msg):
        from . import known
        if kid not in known.ACTIVE:
            return self.check(cond, msg)
        if not cond:
            self.kf.append(kid)
            raise Abort()

    def same(self, a, b):
        return same(a, b)

    def observe(self, label, value):
        self.obs.append((label, norm(value)))

    # -- building blocks
    def le(self, x, n):
        return (int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def cat(self, *parts):
        return b''.join(self.cat(*p) if isinstance(p, (list, tuple)) else bytes(p) for p in parts)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    # -- environment
    def load(self, name):
        return importlib.import_module(name)

    def stub(self, name, mod):
        sys.modules[name] = mod
        self.stubbed.append(name)
        p, _, leaf = name.rpartition('.')
        if p in sys.modules and mod is not None:
            try:
                setattr(sys.modules[p], leaf, mod)
            except AttributeError:
                pass

    def path(self, name):
        return os.path.join(self.tmp, name)

    def put(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def get(self, path):
        try:
            with open(path, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def get_text(self, path):
        b = self.get(path)
        return None if b is None else b.decode('utf-8')

    def files(self):
        out = []
        for d, _, fs in os.walk(self.tmp):
            out += [os.path.join(d, f) for f in fs]
        return sorted(out)

    def nfiles(self):
        return len(self.files())

    def mkdir(self, name):
        p = self.path(name)
        os.makedirs(p, exist_ok=True)
        return p

    def memfile(self, data=b''):
        return io.BytesIO(bytes(data))

    def filebytes(self, f):
        return f.getvalue()

    def stdout(self):
        return self.out.getvalue()

    def sql(self, path):
        import sqlite3
        return sqlite3.connect(path)

    def cli(self, modname, argv):
        m = self.load(modname)
        old, oe = sys.argv, sys.stderr
        sys.argv = ['prog'] + list(argv)
        sys.stderr = io.StringIO()
        try:
            m.main()
            return 0
        except SystemExit as e:
            return e.code
        finally:
            sys.argv, sys.stderr = old, oe
