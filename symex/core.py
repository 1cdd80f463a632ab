"""Path explorer and symbolic scalars (booleans, integers, floats).

Python code runs natively on these proxy objects; every branch on a symbolic
truth value is decided by Z3 and both feasible sides are explored (depth first,
re-executing from the start with a recorded decision prefix).

Integers are exact: a SymInt is a signed bit-vector whose width is always large
enough for its tracked interval [lo, hi], so nothing ever wraps.
"""
import fractions
import struct as _struct
import time
import z3


class PathAbort(BaseException):
    """The path is infeasible, or an assumption excludes it."""


class StepLimit(BaseException):
    """The path did not end within the step bound."""


class Inconclusive(BaseException):
    """Solver said unknown, or the engine cannot model an operation."""


class Unsupported(Inconclusive):
    pass


class Unknown(Inconclusive):
    """The solver gave no answer in time."""


CUR = None          # the current Path
CUR_FUNCS = set()   # functions of the code under test entered so far


def cur():
    return CUR


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.realised = {}
        self.hard = False       # some query had no answer


STATS = Stats()

STEP_LIMIT = 400000
QUERY_TIMEOUT_MS = 25000
HARD_TIMEOUT_MS = 4000          # once a query had no answer
NARROW_TIMEOUT_MS = 8000
NARROW = (1 << 13, 1 << 7)      # sizes of the input ranges a hard query is narrowed to


def query_timeout():
    return HARD_TIMEOUT_MS if STATS.hard else QUERY_TIMEOUT_MS


class Path:
    def __init__(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout())
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.alts = []
        self.model = None
        self.vars = {}        # name -> (kind, z3 expr or list, extra)
        self.steps = 0
        self.fresh = 0
        self.shash = []       # sha256 stub table
        self.scope = {}
        self.deadline = 0
        self.divs = {}        # divisor -> [(dividend, quotient, remainder)]
        self.parts = {}       # id of a quotient or remainder -> where it comes from

    # -- solver access
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unknown('solver unknown: ' + self.solver.reason_unknown())
        return r == z3.sat

    def small(self, level):
        """constraints that keep the inputs small"""
        n = NARROW[level]
        out = []
        for kind, x in self.vars.values():
            if kind == 'int' and isinstance(x, SymInt):
                lo = max(x.lo, 0) if x.hi >= 0 else x.lo
                if x.hi - lo > n:
                    out += [x.e >= lo, x.e < lo + n]
                elif x.lo < lo:
                    out.append(x.e >= lo)
            elif kind == 'bytes' and len(x) > 2:
                for i, b in enumerate(x):
                    if i % 8 > 1 and isinstance(b, SymInt):
                        out.append(b.e == 0)
        return out

    def narrowed(self, query):
        """an answer for small inputs, if the solver has none for all; the path goes on with those"""
        self.solver.set('timeout', NARROW_TIMEOUT_MS)
        try:
            for level in range(len(NARROW)):
                try:
                    self.solver.push()
                    try:
                        self.solver.add(*self.small(level))
                        r = self._check() and query()
                    finally:
                        self.solver.pop()
                except Unknown:
                    continue
                note_realised('inputs narrowed, since the solver had no answer')
                return level, r
            raise Unknown('solver unknown')
        finally:
            STATS.hard = True
            self.solver.set('timeout', query_timeout())

    def recorded(self):
        """the next decision of the prefix"""
        while True:
            d = self.prefix[self.pos]
            self.pos += 1
            self.log.append(d)
            if not isinstance(d, tuple) or d[0] != 'narrow':
                return d
            self.solver.add(*self.small(d[1]))
            self.model = None
            if self.pos >= len(self.prefix):
                return None

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def assume(self, cond):
        cond = boolexpr(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.solver.add(cond)
        if self.pos < len(self.prefix):
            self.model = None
            return
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
                self.get_model()

    def step(self, n=1):
        self.steps += n
        if self.steps > STEP_LIMIT:
            raise StepLimit()
        if self.deadline and not self.steps & 255 and time.time() > self.deadline:
            raise Unsupported('path time limit')

    def branch(self, cond):
        """Decide a z3 Bool; fork when both sides are feasible."""
        self.step()
        if self.pos < len(self.prefix):
            d = self.recorded()
            if not isinstance(d, bool):
                raise Inconclusive('non-deterministic re-execution')
            self.solver.add(cond if d else z3.Not(cond))
            self.model = None
            return d
        STATS.branches += 1
        try:
            val = z3.is_true(self.get_model().eval(cond, model_completion=True))
            both = self._check(z3.Not(cond) if val else cond)
        except Unknown:
            level, r = self.narrowed(lambda: self._sides(cond))
            if not r:
                raise
            both, val = r
            self.log.append(('narrow', level))
            self.pos += 1
            self.solver.add(*self.small(level))
            self.model = None
        if both:
            self.alts.append(self.log + [not val])
        self.log.append(val)
        self.pos += 1
        self.solver.add(cond if val else z3.Not(cond))
        return val

    def _sides(self, cond):
        """whether both sides of a condition are feasible, and one that is"""
        val = self._check(cond)
        return (val and self._check(z3.Not(cond)), val)

    def pick(self, expr):
        """A candidate value for a bit-vector expression (recorded, so replayable)."""
        if self.pos < len(self.prefix):
            d = self.recorded()
            if isinstance(d, bool):
                raise Inconclusive('non-deterministic re-execution')
            return d[0]
        v = self.get_model().eval(expr, model_completion=True).as_signed_long()
        self.log.append((v,))
        self.pos += 1
        return v

    def equal_ints(self, a, b):
        """quick test that two integers are equal on this path (False when in doubt)"""
        return self.quick_valid(_cmp(a, b, 'eq'))

    def quick_valid(self, c):
        c = boolexpr(c)
        if c is True or c is False:
            return c
        if not z3.is_true(self.get_model().eval(c, model_completion=True)):
            return False
        t = time.time()
        self.solver.set('timeout', 2000)
        r = self.solver.check(z3.Not(c))
        self.solver.set('timeout', query_timeout())
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        return r == z3.unsat

    def valid(self, cond):
        """True if cond holds on every input of this path."""
        cond = boolexpr(cond)
        if cond is True:
            return True
        if cond is False:
            return False
        return not self._check(z3.Not(cond))


def note_realised(what):
    STATS.realised[what] = STATS.realised.get(what, 0) + 1


# ------------------------------------------------------------------ booleans

def boolexpr(x):
    """bool | SymBool | z3 Bool -> True/False or a z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        x = z3.simplify(x)
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return x
    return bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*xs):
    es = []
    for x in xs:
        x = boolexpr(x)
        if x is False:
            return False
        if x is not True:
            es.append(x)
    if not es:
        return True
    return mkbool(z3.And(*es))


def Or(*xs):
    es = []
    for x in xs:
        x = boolexpr(x)
        if x is True:
            return True
        if x is not False:
            es.append(x)
    if not es:
        return False
    return mkbool(z3.Or(*es))


def Not(x):
    x = boolexpr(x)
    if x is True or x is False:
        return not x
    return mkbool(z3.Not(x))


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()
    __array_ufunc__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def as_int(self):
        return mkint(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            o = boolexpr(o)
            if o is True:
                return self
            if o is False:
                return Not(self)
            return mkbool(self.e == o)
        return self.as_int() == o

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _bin(self, o, f, name):
        if isinstance(o, (bool, SymBool)):
            return f(self, o)
        return getattr(self.as_int(), name)(o)

    def __and__(self, o):
        return self._bin(o, And, '__and__')
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, Or, '__or__')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: Not(a == b), '__xor__')
    __rxor__ = __xor__

    def __invert__(self):
        return ~self.as_int()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return '<SymBool>'


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lshift', 'rlshift', 'rshift', 'rrshift',
           'lt', 'le', 'gt', 'ge', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'truediv', 'rtruediv'):
    def _mk(n):
        def f(self, o):
            if isinstance(o, SymBool):
                o = o.as_int()
            return getattr(self.as_int(), n)(o)
        return f
    setattr(SymBool, '__%s__' % _n, _mk('__%s__' % _n))


# ------------------------------------------------------------------ integers

def width(lo, hi):
    a = lo if lo >= 0 else -lo - 1
    b = hi if hi >= 0 else -hi - 1
    return max(a.bit_length(), b.bit_length()) + 1


def resize(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


def mkint(e, lo, hi):
    """z3 BV (signed, value known to lie in [lo,hi]) -> int or SymInt"""
    if lo == hi:
        return lo
    w = width(lo, hi)
    e = z3.simplify(resize(e, w))
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def unsigned(e):
    """z3 BV read as unsigned -> int/SymInt"""
    n = e.size()
    return mkint(z3.ZeroExt(1, e), 0, (1 << n) - 1)


def signed(e):
    n = e.size()
    return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)


def as_int(x):
    """int-like -> int or SymInt, or None"""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    return None


def bv(x, w):
    """int/SymInt as BV of width w (must fit when SymInt is narrower, else truncated)"""
    if isinstance(x, SymInt):
        return resize(x.e, w)
    return z3.BitVecVal(x, w)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


ENUM_LIMIT = 70000


def concretize(x, limit=2100):
    """All feasible values of x, one per path."""
    if not isinstance(x, SymInt):
        return int(x)
    if x.hi - x.lo > ENUM_LIMIT:
        # keep the path, give up the other values: recorded as incompleteness
        v = CUR.pick(x.e)
        note_realised('int')
        CUR.assume(x.e == v)
        return v
    n = 0
    while True:
        v = CUR.pick(x.e)
        if CUR.branch(x.e == z3.BitVecVal(v, x.e.size())):
            return v
        n += 1
        if n > limit:
            note_realised('int-enum')
            v = CUR.pick(x.e)
            CUR.assume(x.e == v)
            return v


def _cmp(a, b, op):
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    if op == 'eq':
        if ahi < blo or bhi < alo:
            return False
    elif op == 'lt':
        if ahi < blo:
            return True
        if alo >= bhi:
            return False
    elif op == 'le':
        if ahi <= blo:
            return True
        if alo > bhi:
            return False
    w = width(min(alo, blo), max(ahi, bhi))
    x, y = bv(a, w), bv(b, w)
    if op == 'eq':
        return mkbool(x == y)
    if op == 'lt':
        return mkbool(x < y)
    return mkbool(x <= y)


def _floordiv_const(a, d):
    """floor(a/d) for a SymInt and d>0 constant; (q, r)"""
    lo, hi = a.lo, a.hi
    qlo, qhi = lo // d, hi // d
    w = width(min(lo - d, -d), max(hi, d)) + 1
    x = bv(a, w)
    dv = z3.BitVecVal(d, w)
    if d & (d - 1) == 0:
        k = d.bit_length() - 1
        q = mkint(x >> k, qlo, qhi)
        r = mkint(x & z3.BitVecVal(d - 1, w), 0, d - 1)
        return q, r
    if lo >= 0:
        q = z3.UDiv(x, dv)
        r = z3.URem(x, dv)
    else:
        q = z3.If(x < 0, -z3.UDiv(-x + (dv - 1), dv), z3.UDiv(x, dv))
        r = x - q * dv
    return mkint(q, qlo, qhi), mkint(r, 0, min(d - 1, hi) if lo >= 0 else d - 1)


def int_divmod(a, b):
    a, b = as_int(a), as_int(b)
    if isinstance(b, SymInt):
        b = concretize(b)
    if not isinstance(a, SymInt):
        return divmod(a, b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        q, r = _floordiv_const(-a, -b) if isinstance(-a, SymInt) else divmod(-a, -b)
        return q, -r
    made = CUR.parts.get(a.e.get_id())
    if made is not None and b > 0:
        # divisions of quotients and remainders, in terms of the first dividend
        what, x, d, _ = made
        if what == 'q' and a.hi - a.lo >= 1 << 8:
            q, r = int_divmod(x, d * b)
            return q, int_divmod(r, d)[0]
        if what == 'r' and d % b == 0 and d != b:
            q = _floordiv_const(a, b)[0]
            _note_part('q', a, b, q)
            return q, int_divmod(x, b)[1]
    if b & (b - 1) == 0 or a.hi - a.lo < 1 << 16:
        return _floordiv_const(a, b)
    if a.lo < 0 and CUR.quick_valid(_cmp(0, a, 'le')):
        a = mkint(a.e, 0, a.hi)
    # equal dividends share their quotient: saves the solver from comparing dividers
    memo = CUR.divs.setdefault(b, [])
    for x, q, r in memo:
        if x.e is a.e or CUR.equal_ints(x, a):
            return q, r
    q, r = _floordiv_const(a, b)
    memo.append((a, q, r))
    if a.lo >= 0:
        _note_part('q', a, b, q)
        _note_part('r', a, b, r)
    return q, r


def _note_part(what, a, b, v):
    if isinstance(v, SymInt):
        CUR.parts[v.e.get_id()] = (what, a, b, v)       # v is kept: its id stays its own


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    def _viafloat(self, o, name):
        if isinstance(o, float):
            return getattr(SymFloat.of_int(self), name)(o)
        return NotImplemented

    def _arith(self, o, f, lohi, nm='add'):
        b = as_int(o)
        if b is None:
            return self._viafloat(o, '__%s__' % nm)
        lo, hi = lohi(self.lo, self.hi, *bounds(b))
        w = max(width(lo, hi), width(self.lo, self.hi), width(*bounds(b)))
        return mkint(f(bv(self, w), bv(b, w)), lo, hi)

    def __add__(self, o):
        return self._arith(o, lambda x, y: x + y, lambda a, b, c, d: (a + c, b + d))
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda x, y: x - y, lambda a, b, c, d: (a - d, b - c), 'sub')

    def __rsub__(self, o):
        return self._arith(o, lambda x, y: y - x, lambda a, b, c, d: (c - b, d - a), 'rsub')

    def __mul__(self, o):
        def rng(a, b, c, d):
            ps = (a * c, a * d, b * c, b * d)
            return min(ps), max(ps)
        return self._arith(o, lambda x, y: x * y, rng, 'mul')
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return -self if self < 0 else self

    def __invert__(self):
        return -self - 1

    def _bit(self, o, f, lohi):
        b = as_int(o)
        if b is None:
            return NotImplemented
        blo, bhi = bounds(b)
        w = width(min(self.lo, blo), max(self.hi, bhi))
        lo, hi = lohi(self.lo, self.hi, blo, bhi, w)
        return mkint(f(bv(self, w), bv(b, w)), lo, hi)

    def __and__(self, o):
        def rng(a, b, c, d, w):
            if a >= 0 and c >= 0:
                return 0, min(b, d)
            if a >= 0:
                return 0, b
            if c >= 0:
                return 0, d
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bit(o, lambda x, y: x & y, rng)
    __rand__ = __and__

    @staticmethod
    def _orrng(a, b, c, d, w):
        if a >= 0 and c >= 0:
            return 0, (1 << max(b.bit_length(), d.bit_length())) - 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def __or__(self, o):
        return self._bit(o, lambda x, y: x | y, self._orrng)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda x, y: x ^ y, self._orrng)
    __rxor__ = __xor__

    def __lshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        k = concretize(o)
        if k < 0:
            raise ValueError('negative shift count')
        return self * (1 << k)

    def __rlshift__(self, o):
        k = concretize(self)
        return o << k

    def __rshift__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        k = concretize(o)
        if k < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> k, self.hi >> k
        if k >= self.e.size():
            k = self.e.size() - 1
        return mkint(self.e >> k, lo, hi)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __floordiv__(self, o):
        if as_int(o) is None:
            return self._viafloat(o, '__floordiv__')
        return int_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return int_divmod(o, self)[0]

    def __mod__(self, o):
        if as_int(o) is None:
            return self._viafloat(o, '__mod__')
        return int_divmod(self, o)[1]

    def __rmod__(self, o):
        if as_int(o) is None:
            return NotImplemented
        return int_divmod(o, self)[1]

    def __divmod__(self, o):
        if as_int(o) is None:
            return self._viafloat(o, '__divmod__')
        return int_divmod(self, o)

    def __rdivmod__(self, o):
        return int_divmod(o, self)

    def __truediv__(self, o):
        return SymFloat.of_int(self) / o

    def __rtruediv__(self, o):
        if isinstance(o, SymInt):
            return SymFloat.of_int(o) / self
        return o / concretize(self)

    def __pow__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        k = concretize(o)
        r = 1
        for _ in range(k):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize(self)

    def __eq__(self, o):
        b = as_int(o)
        if b is None and type(o).__module__ == 'numpy' and hasattr(o, 'item'):
            return self.__eq__(o.item())
        if b is None:
            if isinstance(o, float):
                if o.is_integer():
                    return _cmp(self, int(o), 'eq')
                return False
            return NotImplemented
        return _cmp(self, b, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def _ord(self, o, op, swap):
        b = as_int(o)
        if b is None and type(o).__module__ == 'numpy' and hasattr(o, 'item'):
            return self._ord(o.item(), op, swap)
        if b is None:
            if isinstance(o, float):
                return getattr(SymFloat.of_int(self), {('lt', 0): '__lt__', ('le', 0): '__le__',
                                                       ('lt', 1): '__gt__', ('le', 1): '__ge__'}[op, swap])(o)
            return NotImplemented
        return _cmp(b, self, op) if swap else _cmp(self, b, op)

    def __lt__(self, o):
        return self._ord(o, 'lt', 0)

    def __le__(self, o):
        return self._ord(o, 'le', 0)

    def __gt__(self, o):
        return self._ord(o, 'lt', 1)

    def __ge__(self, o):
        return self._ord(o, 'le', 1)

    def __bool__(self):
        r = _cmp(self, 0, 'eq')
        return not bool(r)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __hash__(self):
        return hash(concretize(self))

    def bit_length(self):
        n = abs(self)
        for k in range(0, width(self.lo, self.hi) + 1):
            if n < (1 << k):
                return k
        raise AssertionError

    def bit_count(self):
        n = abs(self)
        if not isinstance(n, SymInt):
            return n.bit_count()
        r = 0
        for k in range(n.e.size()):
            r = r + ((n >> k) & 1)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import text
        length = concretize(as_int(length))
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not (lo <= self and self <= hi):
            raise OverflowError('int too big to convert' if self > hi else "can't convert negative int to unsigned")
        bs = text.int_bytes(self, length)
        if byteorder == 'big':
            bs = bs[::-1]
        return text.mkbytes(bs)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, nd=None):
        return self

    def __repr__(self):
        return '<SymInt %d..%d>' % (self.lo, self.hi)

    def __str__(self):
        return str(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)


def ite_int(c, a, b):
    c = boolexpr(c)
    if c is True:
        return a
    if c is False:
        return b
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    lo, hi = min(alo, blo), max(ahi, bhi)
    w = width(lo, hi)
    return mkint(z3.If(c, bv(a, w), bv(b, w)), lo, hi)


# -------------------------------------------------------------------- floats
# kinds:
#   'f32' / 'f64'  the raw IEEE bits (a BV), value as read from the log
#   'rat'          exact quotient of an int/SymInt by a positive constant int
#   'real'         a z3 Real term: arithmetic idealised (no rounding, no NaN/inf)

VAL32 = z3.Function('val32', z3.BitVecSort(32), z3.RealSort())
VAL64 = z3.Function('val64', z3.BitVecSort(64), z3.RealSort())


def _rat(num, den):
    return SymFloat('rat', (num, den))


def f32_bits(f):
    return _struct.unpack('<I', _struct.pack('<f', f))[0]


def f64_bits(f):
    return _struct.unpack('<Q', _struct.pack('<d', f))[0]


def mkfloat_bits(kind, e):
    """IEEE bits -> python float when constant, else SymFloat"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_long()
        if kind == 'f32':
            return _struct.unpack('<f', _struct.pack('<I', v))[0]
        return _struct.unpack('<d', _struct.pack('<Q', v))[0]
    return SymFloat(kind, e)


_P = {'f32': (32, 8, 23), 'f64': (64, 11, 52)}


def _isnan_bits(kind, e):
    n, eb, mb = _P[kind]
    return z3.And(z3.Extract(n - 2, mb, e) == z3.BitVecVal((1 << eb) - 1, eb),
                  z3.Extract(mb - 1, 0, e) != 0)


def _isinf_bits(kind, e):
    n, eb, mb = _P[kind]
    return z3.Extract(n - 2, 0, e) == z3.BitVecVal(((1 << eb) - 1) << mb, n - 1)


def _iszero_bits(kind, e):
    n = _P[kind][0]
    return z3.Extract(n - 2, 0, e) == 0


def _key_bits(kind, e):
    """Monotone map of non-NaN floats to signed BV (both zeros equal)."""
    n = _P[kind][0]
    mag = z3.ZeroExt(1, z3.Extract(n - 2, 0, e))
    return z3.If(z3.Extract(n - 1, n - 1, e) == 1, -mag, mag)


def _fp(kind, e):
    return z3.fpBVToFP(e, z3.Float32() if kind == 'f32' else z3.Float64())


class SymFloat(Sym):
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    @staticmethod
    def of_int(x):
        return _rat(x, 1)

    @staticmethod
    def lift(x):
        """anything numeric -> SymFloat, or None"""
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return _rat(as_int(x), 1)
        if isinstance(x, int):
            return _rat(int(x), 1)
        if isinstance(x, float):
            x = float(x)
            if x != x or x in (float('inf'), float('-inf')):
                return SymFloat('f64', z3.BitVecVal(f64_bits(x), 64))
            fr = fractions.Fraction(x)
            if fr.denominator == 1:
                return _rat(fr.numerator, 1)
            return SymFloat('const', x)
        return None

    # Real view
    def real_term(self):
        if self.kind == 'f32':
            return VAL32(self.v)
        if self.kind == 'f64':
            if z3.is_bv_value(self.v):
                return z3.RealVal(str(fractions.Fraction(_struct.unpack('<d', _struct.pack('<Q', self.v.as_long()))[0])))
            return VAL64(self.v)
        if self.kind == 'const':
            return z3.RealVal(str(fractions.Fraction(self.v)))
        if self.kind == 'rat':
            n, d = self.v
            if isinstance(n, SymInt):
                return z3.ToReal(z3.BV2Int(n.e, True)) / d
            return z3.RealVal(str(fractions.Fraction(n, d)))
        return self.v

    def _frac(self):
        """exact Fraction if constant"""
        if self.kind == 'const':
            return fractions.Fraction(self.v)
        if self.kind == 'rat' and not isinstance(self.v[0], SymInt):
            return fractions.Fraction(self.v[0], self.v[1])
        return None

    def _nice(self):
        """the constant as the decimal a programmer wrote (0.1 -> 1/10)"""
        if self.kind == 'const':
            return fractions.Fraction(repr(self.v))
        return self._frac()

    def _bin(self, o, op):
        b = SymFloat.lift(o)
        if b is None:
            return NotImplemented
        a = self
        # identity on constants keeps raw bits (x + 0, x * 1, x / 1)
        fb, fa = b._frac(), a._frac()
        if op in ('add', 'sub') and fb == 0 and a.kind in _P:
            return a
        if op == 'add' and fa == 0 and b.kind in _P:
            return b
        if op in ('mul', 'div') and fb == 1 and a.kind in _P:
            return a
        if op == 'mul' and fa == 1 and b.kind in _P:
            return b

        def ratlike(x):
            return x.kind == 'rat' or x.kind == 'const'
        if ratlike(a) and ratlike(b):
            def nd(x):
                if x.kind == 'rat':
                    return x.v
                f = x._nice()
                return f.numerator, f.denominator
            (n1, d1), (n2, d2) = nd(a), nd(b)
            if op == 'add':
                if d1 == d2:
                    return _rat(n1 + n2, d1)
                return _rat(n1 * d2 + n2 * d1, d1 * d2)
            if op == 'sub':
                if d1 == d2:
                    return _rat(n1 - n2, d1)
                return _rat(n1 * d2 - n2 * d1, d1 * d2)
            if op == 'mul':
                return _norm(n1 * n2, d1 * d2)
            if op == 'div':
                n2 = concretize(n2)
                if n2 == 0:
                    raise ZeroDivisionError('division by zero')
                if n2 < 0:
                    return _norm(-(n1 * d2), d1 * -n2)
                return _norm(n1 * d2, d1 * n2)
        x, y = a.real_term(), b.real_term()
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y}[op]()
        return SymFloat('real', r)

    def __add__(self, o):
        return self._bin(o, 'add')

    def __radd__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b._bin(self, 'add')

    def __sub__(self, o):
        return self._bin(o, 'sub')

    def __rsub__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b._bin(self, 'sub')

    def __mul__(self, o):
        return self._bin(o, 'mul')

    def __rmul__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b._bin(self, 'mul')

    def __truediv__(self, o):
        return self._bin(o, 'div')

    def __rtruediv__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b._bin(self, 'div')

    def __floordiv__(self, o):
        q = self / o
        if q.kind == 'rat':
            return _rat(int_divmod(q.v[0], q.v[1])[0], 1)
        raise Unsupported('float floordiv')

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        if self.kind in _P:
            n = _P[self.kind][0]
            return mkfloat_bits(self.kind, self.v ^ z3.BitVecVal(1 << (n - 1), n))
        if self.kind == 'rat':
            return _rat(-self.v[0], self.v[1])
        return SymFloat('real', -self.real_term())

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind in _P:
            n = _P[self.kind][0]
            return mkfloat_bits(self.kind, self.v & z3.BitVecVal((1 << (n - 1)) - 1, n))
        return -self if self < 0 else self

    def __pow__(self, o):
        if isinstance(o, (int, float)) and int(o) == o and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        raise Unsupported('float pow')

    def compare(self, o, op):
        b = SymFloat.lift(o)
        if b is None:
            return NotImplemented
        a = self
        # both raw of the same kind
        if a.kind in _P and b.kind == a.kind:
            return _cmp_bits(a.kind, a.v, b.v, op)
        if a.kind in _P or b.kind in _P:
            raw, oth, flip = (a, b, False) if a.kind in _P else (b, a, True)
            c = oth._frac()
            if c is not None:
                f = oth.v if oth.kind == 'const' else c.numerator / c.denominator
                if raw.kind == 'f32':
                    try:
                        if fractions.Fraction(_struct.unpack('<f', _struct.pack('<f', f))[0]) == c:
                            cb = z3.BitVecVal(f32_bits(f), 32)
                            return _cmp_bits('f32', cb, raw.v, op) if flip else _cmp_bits('f32', raw.v, cb, op)
                    except OverflowError:
                        pass
                elif fractions.Fraction(f) == c:
                    cb = z3.BitVecVal(f64_bits(f), 64)
                    return _cmp_bits('f64', cb, raw.v, op) if flip else _cmp_bits('f64', raw.v, cb, op)
            if (oth.kind in _P) or c is not None:
                x = z3.fpFPToFP(z3.RNE(), _fp(a.kind, a.v), z3.Float64()) if a.kind in _P else z3.FPVal(float(a._frac()), z3.Float64())
                y = z3.fpFPToFP(z3.RNE(), _fp(b.kind, b.v), z3.Float64()) if b.kind in _P else z3.FPVal(float(b._frac()), z3.Float64())
                return mkbool({'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[op](x, y))
        fa, fb = a._frac(), b._frac()
        if (a.kind == 'rat' or fa is not None) and (b.kind == 'rat' or fb is not None):
            n1, d1 = a.v if a.kind == 'rat' else (fa.numerator, fa.denominator)
            n2, d2 = b.v if b.kind == 'rat' else (fb.numerator, fb.denominator)
            if d1 == d2:
                return _cmp(as_int(n1), as_int(n2), op)
            return _cmp(as_int(n1 * d2), as_int(n2 * d1), op)
        x, y = a.real_term(), b.real_term()
        return mkbool({'eq': lambda: x == y, 'lt': lambda: x < y, 'le': lambda: x <= y}[op]())

    def __eq__(self, o):
        return self.compare(o, 'eq')

    def __ne__(self, o):
        r = self.compare(o, 'eq')
        return r if r is NotImplemented else Not(r)

    def __lt__(self, o):
        return self.compare(o, 'lt')

    def __le__(self, o):
        return self.compare(o, 'le')

    def __gt__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b.compare(self, 'lt')

    def __ge__(self, o):
        b = SymFloat.lift(o)
        return NotImplemented if b is None else b.compare(self, 'le')

    def __bool__(self):
        return bool(Not(self == 0))

    def isnan(self):
        if self.kind in _P:
            return mkbool(_isnan_bits(self.kind, self.v))
        return False

    def isinf(self):
        if self.kind in _P:
            return mkbool(_isinf_bits(self.kind, self.v))
        return False

    def is_integer(self):
        if self.kind == 'rat':
            return int_divmod(self.v[0], self.v[1])[1] == 0
        raise Unsupported('is_integer')

    def trunc(self):
        """int(x)"""
        if self.kind == 'rat':
            n, d = self.v
            if d == 1:
                return n
            if isinstance(n, SymInt) and n.lo < 0:
                if n < 0:
                    return -int_divmod(-n, d)[0]
                n = mkint(n.e, 0, n.hi)
            return int_divmod(n, d)[0]
        if self.kind == 'const':
            return int(self.v)
        return int(self.realise())

    def floor(self):
        if self.kind == 'rat':
            return int_divmod(self.v[0], self.v[1])[0]
        import math
        return math.floor(self.realise())

    def realise(self):
        note_realised('float')
        if self.kind in _P:
            e = self.v
            n = _P[self.kind][0]
            v = CUR.pick(e)
            CUR.assume(e == z3.BitVecVal(v, n))
            return mkfloat_bits(self.kind, z3.BitVecVal(v, n))
        if self.kind == 'rat':
            return concretize(self.v[0]) / self.v[1]
        if self.kind == 'const':
            return self.v
        raise Unsupported('realise real')

    def __int__(self):
        return int(self.realise())

    def __float__(self):
        return self.realise()

    def __hash__(self):
        return hash(self.realise())

    def __str__(self):
        return str(self.realise())

    def __format__(self, spec):
        return format(self.realise(), spec)

    def __repr__(self):
        return '<SymFloat %s>' % self.kind

    def __round__(self, nd=None):
        return round(self.realise(), nd)

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return self.floor()


def fp_addsub(op, a, b, kind):
    """IEEE sum or difference of two values of one format, None if they are not of that form"""
    if kind is None or not all(isinstance(x, SymFloat) and x.kind == kind for x in (a, b)):
        return None
    f = z3.fpAdd if op == 'add' else z3.fpSub
    return mkfloat_bits(kind, z3.fpToIEEEBV(f(z3.RNE(), _fp(kind, a.v), _fp(kind, b.v))))


def _norm(n, d):
    if not isinstance(n, SymInt):
        f = fractions.Fraction(n, d)
        return _rat(f.numerator, f.denominator)
    return _rat(n, d)


def _cmp_bits(kind, x, y, op):
    notnan = z3.Not(z3.Or(_isnan_bits(kind, x), _isnan_bits(kind, y)))
    kx, ky = _key_bits(kind, x), _key_bits(kind, y)
    rel = {'eq': kx == ky, 'lt': kx < ky, 'le': kx <= ky}[op]
    return mkbool(z3.And(notnan, rel))


def same_bits(kind, x, y):
    """Equal floats, with every NaN alike and -0.0 told from 0.0."""
    return mkbool(z3.Or(x == y, z3.And(_isnan_bits(kind, x), _isnan_bits(kind, y))))
