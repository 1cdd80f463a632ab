"""Harness context, symbolic side."""
import sys
import numpy as np
import z3
from . import core, text, fs, shims, f_numpy, f_sqlite, instrument, known
from .core import (Sym, SymInt, SymFloat, SymBool, And, Or, Not, as_int, mkint, PathAbort, boolexpr)
from .text import SymStr, SymBytesBase, belems, mkbytes, mkstr, selems
from .containers import SymDict, SymSet, DictView
from .f_numpy import SymNp, SymArray


class Violation(BaseException):
    pass


class Gap(BaseException):
    """the engine does not model something; the path falls back to a concrete run"""


def conj_eq(a, b):
    """deep equality as one condition; every NaN equals every NaN"""
    if a is b:
        return True
    if isinstance(a, DictView):
        a = list(a)
    if isinstance(b, DictView):
        b = list(b)
    if isinstance(a, SymNp):
        a = a.v
    if isinstance(b, SymNp):
        b = b.v
    if isinstance(a, f_numpy.np.generic):
        a = a.item()
    if isinstance(b, f_numpy.np.generic):
        b = b.item()
    if isinstance(a, SymArray):
        a = list(a.el)
    if isinstance(b, SymArray):
        b = list(b.el)
    if isinstance(a, (dict, SymDict)) and isinstance(b, (dict, SymDict)):
        if len(a) != len(b):
            return False
        b = b if isinstance(b, SymDict) else SymDict(b)
        cs = []
        for k in list(a):
            if k not in b:
                return False
            cs.append(conj_eq(a[k], b[k]))
        return And(*cs)
    if isinstance(a, (set, frozenset, SymSet)) and isinstance(b, (set, frozenset, SymSet)):
        if len(a) != len(b):
            return False
        b = b if isinstance(b, SymSet) else SymSet(b)
        return all(x in b for x in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return And(*[conj_eq(x, y) for x, y in zip(a, b)])
    fa, fb = isinstance(a, (float, SymFloat)), isinstance(b, (float, SymFloat))
    if fa and fb:
        r = a == b
        na = a.isnan() if isinstance(a, SymFloat) else a != a
        nb = b.isnan() if isinstance(b, SymFloat) else b != b
        return Or(r, And(na, nb))
    if fa != fb and (isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr))):
        return False
    if isinstance(a, (bytes, SymBytesBase, bytearray)) and isinstance(b, (bytes, SymBytesBase, bytearray)):
        return text.seq_eq(belems(a), belems(b))
    r = a == b
    if r is NotImplemented:
        return False
    if isinstance(r, (SymBool, bool)):
        return r
    return bool(r)


def under(m, x):
    """the concrete value of x in model m (plain data)"""
    def ev(e):
        return m.eval(e, model_completion=True)
    if isinstance(x, SymNp):
        x = x.v
    if isinstance(x, SymBool):
        return z3.is_true(ev(x.e))
    if isinstance(x, SymInt):
        return ev(x.e).as_signed_long()
    if isinstance(x, SymFloat):
        if x.kind in ('f32', 'f64'):
            return core.mkfloat_bits(x.kind, ev(x.v))
        if x.kind == 'rat':
            return under(m, x.v[0]) / x.v[1]
        if x.kind == 'const':
            return x.v
        return ('real',)
    if isinstance(x, SymStr):
        out = ''
        for e in x.el:
            if isinstance(e, text.Tok):
                t = tok_under(m, e)
                if t is None:
                    return ('opaque',)
                out += t
            else:
                out += chr(under(m, e))
        return out
    if isinstance(x, SymBytesBase):
        return bytes(under(m, e) for e in x.el)
    if isinstance(x, f_numpy.np.generic):
        return x.item()
    if isinstance(x, SymArray):
        return [under(m, e) for e in x.el]
    if isinstance(x, (dict, SymDict)):
        return {under(m, k): under(m, x[k]) for k in list(x)}
    if isinstance(x, (set, frozenset, SymSet)):
        return sorted(under(m, k) for k in x)
    if isinstance(x, DictView):
        return [under(m, k) for k in x]
    if isinstance(x, (list, tuple)):
        return [under(m, k) for k in x]
    return x


def tok_under(m, t):
    import numpy as np
    v = under(m, t.v) if not isinstance(t.v, SymStr) else under(m, t.v)
    k = t.kind
    if isinstance(v, tuple):
        return None
    if k[0] == 'd':
        return format(v, k[1] or 'd')
    if k[0] == 'f':
        if k[1] == 'float32':
            return str(np.float32(v)) if k[2] == 'str' else repr(np.float32(v)) if k[2] == 'repr' else format(
                np.float32(v), k[2])
        if k[1] == 'float64':
            return str(np.float64(v)) if k[2] == 'str' else repr(np.float64(v)) if k[2] == 'repr' else format(v, k[2])
        return repr(v) if k[2] in ('str', 'repr') else format(v, k[2])
    if k[0] == 'bytesrepr':
        return repr(bytearray(v) if k[1] else bytes(v))
    if k[0] == 'reprstr':
        return repr(v)[1:-1]
    return None


class Ctx:
    symbolic = True

    def __init__(self, params, loader):
        self.params = params
        self.loader = loader
        self.violations = []
        self.checks = 0
        self.obs = []
        self.kf = []
        self._stubs = loader.stubs

    # -- inputs
    def _reg(self, name, kind, expr):
        v = core.CUR.vars
        if name in v:
            raise core.Inconclusive('duplicate input ' + name)
        v[name] = (kind, expr)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in core.CUR.vars:
            return core.CUR.vars[name][1]
        w = core.width(lo, hi)
        e = z3.BitVec(name, w)
        x = SymInt(e, lo, hi)
        self._reg(name, 'int', x)
        if lo != -(1 << (w - 1)):
            core.CUR.assume(e >= lo)
        if hi != (1 << (w - 1)) - 1:
            core.CUR.assume(e <= hi)
        return x

    def again(self, name):
        """a byte-string input made before"""
        return mkbytes(core.CUR.vars[name][1])

    def bytes(self, name, n):
        if n == 0:
            return b''
        if name in core.CUR.vars:
            return self.again(name)
        e = z3.BitVec(name, 8 * n)
        el = text.bv_bytes(e)
        self._reg(name, 'bytes', el)
        return mkbytes(el)

    def str(self, name, n, chars=None):
        """n characters; chars: list of (lo, hi) code point ranges, default printable ASCII"""
        chars = chars or [(0x20, 0x7e)]
        hi = max(h for _, h in chars)
        lo = min(x for x, _ in chars)
        el = []
        for i in range(n):
            e = z3.BitVec('%s.%d' % (name, i), core.width(0, hi))
            core.CUR.assume(z3.Or(*[z3.And(e >= a, e <= b) for a, b in chars]))
            el.append(SymInt(e, lo, hi))
        self._reg(name, 'str', el)
        return mkstr(el)

    def choice(self, name, options):
        """one path per option (all explored)"""
        x = self.int(name, 0, len(options) - 1)
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if x <= mid:
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def assume(self, cond):
        if isinstance(cond, SymBool):
            core.CUR.assume(cond)
        elif not cond:
            raise PathAbort()

    # -- assertions
    def check(self, cond, msg):
        self.checks += 1
        if isinstance(cond, SymBool):
            p = core.CUR
            neg = z3.Not(cond.e)
            p.solver.push()
            try:
                p.solver.add(neg)
                m = self._counterexample(p)
                if m is None:
                    return
            finally:
                p.solver.pop()
            self.fail(msg, m)
        if not cond:
            self.fail(msg, core.CUR.get_model())

    def _counterexample(self, p):
        try:
            return p.solver.model() if p._check() else None
        except core.Unknown:
            return p.narrowed(lambda: p.solver.model())[1] or None

    def fail(self, msg, m=None):
        self.violations.append((msg, self.values(m if m is not None else core.CUR.get_model())))
        raise Violation(msg)

    def check_eq(self, a, b, msg):
        self.check(conj_eq(a, b), msg)

    def check_close(self, a, b, msg):
        """equal reals (rounding is idealised); a small tolerance on the concrete side"""
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(isinstance(x, (float, np.floating)) for x in list(a) + list(b)):
            self.check(all([x == y or abs(x - y) <= 1e-4 * max(1, abs(y)) for x, y in zip(a, b)]), msg)
        else:
            self.check_eq(a, b, msg)

    def known(self, kid, cond, msg):
        """an assertion whose failure is a recorded finding; the path goes on without the failing inputs"""
        if kid not in known.ACTIVE:
            return self.check(cond, msg)
        if isinstance(cond, SymBool):
            p = core.CUR
            p.solver.push()
            p.solver.add(z3.Not(cond.e))
            bad = p._check()
            m = p.solver.model() if bad else None
            p.solver.pop()
            if bad:
                self.kf.append((kid, msg, self.values(m)))
                self.assume(cond)
        elif not cond:
            self.kf.append((kid, msg, self.values(core.CUR.get_model())))
            raise PathAbort()

    def same(self, a, b):
        return conj_eq(a, b)

    def observe(self, label, value):
        self.obs.append((label, value))

    def values(self, m):
        out = {}
        for n, (k, e) in core.CUR.vars.items():
            if k == 'int':
                out[n] = under(m, e)
            else:
                out[n] = [under(m, x) for x in e]
        return out

    # -- building blocks
    def le(self, x, n):
        """x as n little-endian bytes (two's complement)"""
        return mkbytes(text.int_bytes(x, n))

    def cat(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, (list, tuple)):
                p = self.cat(*p)
            out.extend(belems(p))
        return mkbytes(out)

    def and_(self, *xs):
        return And(*xs)

    def or_(self, *xs):
        return Or(*xs)

    def not_(self, x):
        return Not(x)

    def implies(self, a, b):
        return Or(Not(a), b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            return core.ite_int(c.e, a, b)
        return a if c else b

    # -- environment
    def load(self, name):
        return self.loader.load(name)

    def stub(self, name, mod):
        self.loader.stubs[name] = mod

    def path(self, name):
        return fs.ROOT + '/' + name

    def put(self, name, data):
        p = self.path(name)
        fs.cur().files[p] = fs.FileData(list(belems(data)))
        return p

    def get(self, path):
        """bytes of a file, or None"""
        d = fs.cur().files.get(fs.cur().norm(path))
        return None if d is None else mkbytes(d.el)

    def get_text(self, path):
        d = fs.cur().files.get(fs.cur().norm(path))
        return None if d is None else mkstr(d.el)

    def files(self):
        return sorted(f for f in fs.cur().files if isinstance(f, str))

    def nfiles(self):
        return len(fs.cur().files)

    def mkdir(self, name):
        fs.cur().dirs.add(self.path(name))
        return self.path(name)

    def memfile(self, data=b''):
        return fs.bytesio(data)

    def filebytes(self, f):
        return mkbytes(f.data.el)

    def stdout(self):
        return shims.stdout().getvalue()

    def sql(self, path):
        return f_sqlite.connect(path)

    def cli(self, modname, argv):
        """run module.main() with a command line; returns the exit status"""
        m = self.load(modname)
        old, oo, oe = sys.argv, sys.stdout, sys.stderr
        sys.argv = ['prog'] + list(argv)
        sys.stdout = sys.stderr = _Null()
        try:
            m.main()
            return 0
        except SystemExit as e:
            return e.code
        finally:
            sys.argv, sys.stdout, sys.stderr = old, oo, oe


class _Null:
    def write(self, s):
        pass

    def flush(self):
        pass
