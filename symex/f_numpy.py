"""numpy facade: 1-d arrays and scalars whose elements may be symbolic.

Concrete scalars are real numpy scalars; only symbolic ones are SymNp, which
follows NEP 50 (python scalars are weak, integer results wrap).
Anything not modelled is run on the real numpy after realising the arguments.
"""
import math
import numpy as np
import z3
from . import core, text
from .core import (Sym, SymInt, SymFloat, SymBool, And, Or, Not, as_int, mkint, bv, concretize, Unsupported,
                   note_realised)
from .text import belems, bytes_bv, bv_bytes, int_bytes, mkbytes

_real = np


# ------------------------------------------------------------------ dtypes

class NpType:
    """np.int8 and friends, and the abstract classes"""

    def __init__(self, name):
        self.real = getattr(np, name)
        self.name_ = name
        self.__name__ = self.real.__name__

    def __instancecheck__(self, x):
        if isinstance(x, SymNp):
            return issubclass(x.dt.type, self.real)
        return isinstance(x, self.real)

    def __call__(self, v=0, *a):
        if isinstance(v, SymArray):
            return v.astype(self)
        if isinstance(v, Sym) or isinstance(v, SymNp):
            dt = np.dtype(self.real)
            if isinstance(v, SymNp):
                return cast_scalar(v.v, v.dt, dt)
            return from_py(v, dt)
        return self.real(v, *a)

    def __eq__(self, o):
        if isinstance(o, DT):
            return o == self
        if isinstance(o, NpType):
            return self.real is o.real
        return self.real is o or (isinstance(o, np.dtype) and o == self.real)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return (self, o)
    __ror__ = __or__

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __repr__(self):
        return repr(self.real)


_TYPES = {}
for _n in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64', 'bool_',
           'bool', 'intp', 'float16', 'generic', 'number', 'integer', 'signedinteger', 'unsignedinteger', 'floating',
           'inexact', 'ubyte', 'byte', 'short', 'ushort', 'intc', 'uintc', 'longlong', 'ulonglong', 'single', 'double',
           'character', 'str_', 'bytes_', 'void', 'object_', 'timedelta64', 'datetime64', 'int_', 'uint', 'uintp'):
    if hasattr(np, _n):
        _TYPES[_n] = NpType(_n)


class DT:
    """dtype: either a plain real dtype, or a structured one with named fields"""

    def __init__(self, real=None, fields=None):
        self.real = real
        self.fields_ = fields         # [(name, real dtype)]

    @property
    def names(self):
        return None if self.fields_ is None else tuple(n for n, _ in self.fields_)

    @property
    def itemsize(self):
        if self.fields_ is None:
            return self.real.itemsize
        return sum(d.itemsize for _, d in self.fields_)

    @property
    def fields(self):
        if self.fields_ is None:
            return None
        from .containers import SymDict
        out, off = [], 0
        for n, d in self.fields_:
            out.append((n, (DT(d), off)))
            off += d.itemsize
        return SymDict(out)

    def newbyteorder(self, o='S'):
        if self.fields_ is None:
            return DT(self.real.newbyteorder(o))
        return DT(None, [(n, d.newbyteorder(o)) for n, d in self.fields_])

    def __getitem__(self, k):
        if isinstance(k, int):
            return DT(self.fields_[k][1])
        for n, d in self.fields_:
            if bool(n == k):
                return DT(d)
        raise KeyError(k)

    def __len__(self):
        return 0 if self.fields_ is None else len(self.fields_)

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, DT):
            if (self.fields_ is None) != (o.fields_ is None):
                return False
            if self.fields_ is None:
                return self.real == o.real
            return (len(self.fields_) == len(o.fields_)
                    and all(bool(a[0] == b[0]) and a[1] == b[1] for a, b in zip(self.fields_, o.fields_)))
        if self.fields_ is not None:
            return False
        if isinstance(o, NpType):
            o = o.real
        try:
            return self.real == o
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __getattr__(self, n):
        if self.fields_ is not None:
            raise Unsupported('structured dtype attribute ' + n)
        v = getattr(self.real, n)
        if n == 'type':
            return _TYPES.get(v.__name__, v)
        return v

    def __repr__(self):
        return repr(self.real) if self.fields_ is None else 'dtype(%r)' % (self.fields_,)

    def __sym_str__(self, mode='str'):
        return repr(self)


def real_dtype(x):
    if isinstance(x, DT):
        if x.fields_ is not None:
            raise Unsupported('structured dtype here')
        return x.real
    if isinstance(x, NpType):
        return np.dtype(x.real)
    sh = getattr(x, '__sym_real__', None)
    if sh is not None:
        x = sh
    if isinstance(x, Sym):
        x = x.realise()
    return np.dtype(x)


def dtype(spec, *a, **kw):
    if isinstance(spec, DT):
        return spec
    if isinstance(spec, list):
        fields = []
        for it in spec:
            n, t = it[0], it[1]
            if len(it) != 2:
                raise Unsupported('subarray dtype')
            for m, _ in fields:
                if bool(m == n):
                    raise ValueError('field %r occurs more than once' % (n if isinstance(n, str) else '?',))
            if isinstance(n, (str, text.SymStr)):
                if len(n) == 0:
                    n = 'f%d' % len(fields)
            else:
                raise TypeError('Field elements must be 2- or 3-tuples')
            fields.append((n, real_dtype(t)))
        return DT(None, fields)
    return DT(real_dtype(spec))


# ------------------------------------------------------------------ scalars

def is_int_dt(dt):
    return dt.kind in 'iu'


def int_range(dt):
    n = dt.itemsize * 8
    return (0, (1 << n) - 1) if dt.kind == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def native(dt):
    return dt.newbyteorder('=') if dt.byteorder not in '=|' else dt


def mkscalar(v, dt):
    """element value -> numpy scalar (real when concrete)"""
    if isinstance(v, (Sym,)):
        return SymNp(v, native(dt))
    if isinstance(v, np.generic):
        return v
    return native(dt).type(v)


def wrap_int(v, dt):
    """int/SymInt -> value modulo the integer type"""
    lo, hi = int_range(dt)
    n = dt.itemsize * 8
    if not isinstance(v, SymInt):
        v = int(v) & ((1 << n) - 1)
        return v - (1 << n) if v > hi else v
    if v.lo >= lo and v.hi <= hi:
        return v
    e = z3.simplify(core.resize(v.e, n))
    return core.signed(e) if lo < 0 else core.unsigned(e)


def from_py(v, dt):
    """python scalar -> scalar of dtype dt (as the constructor or assignment does)"""
    if isinstance(v, SymBool) and dt.kind != 'b':
        v = v.as_int()
    if dt.kind == 'b':
        if isinstance(v, SymBool):
            return SymNp(v, dt)
        r = Not(v == 0)
        return SymNp(r, dt) if isinstance(r, SymBool) else np.bool_(r)
    if is_int_dt(dt):
        if isinstance(v, SymFloat):
            v = v.trunc()
        lo, hi = int_range(dt)
        if isinstance(v, SymInt):
            if not (v >= lo) or not (v <= hi):
                raise OverflowError('Python integer out of bounds for ' + dt.name)
            return SymNp(v, dt)
        return dt.type(v)
    if dt.kind == 'f':
        return mkscalar(to_float(v, dt), dt)
    raise Unsupported('scalar of ' + dt.name)


def to_float(v, dt):
    """number -> float element of dtype dt"""
    if isinstance(v, (SymInt, SymBool)):
        return SymFloat.of_int(as_int(v))
    if isinstance(v, SymFloat):
        if dt.itemsize == 8 and v.kind == 'f32':
            return v           # exact widening: keep the bits of the narrow value
        if dt.itemsize == 4 and v.kind == 'f64':
            return SymFloat('f64', v.v)
        return v
    return float(v)


def cast_scalar(v, src, dst):
    r = cast_elem(v, src, dst)
    return mkscalar(r, dst)


def cast_elem(v, src, dst):
    if dst.kind == 'b':
        if isinstance(v, SymBool):
            return v
        if isinstance(v, (SymInt, SymFloat)):
            return Not(v == 0)
        return bool(v)
    if is_int_dt(dst):
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, SymFloat):
            v = v.trunc()
        if isinstance(v, (float, np.floating)):
            return int(dst.type(v))
        return wrap_int(v, dst)
    if dst.kind == 'f':
        if not isinstance(v, Sym):
            return float(dst.type(v))
        return to_float(v, dst)
    raise Unsupported('cast to ' + dst.name)


def val_dt(x):
    """operand -> (value, dtype or None when weak)"""
    if isinstance(x, SymNp):
        return x.v, x.dt
    if isinstance(x, np.generic):
        return x.item(), x.dtype
    if isinstance(x, (bool, int, float, SymInt, SymBool, SymFloat)):
        return x, None
    return None, None


def result_dt(a, adt, b, bdt):
    if adt is not None and bdt is not None:
        return np.result_type(adt, bdt)
    dt, other = (adt, b) if adt is not None else (bdt, a)
    if isinstance(other, (bool, SymBool)):
        return dt
    if isinstance(other, (int, SymInt)):
        return dt if dt.kind in 'iuf' else np.dtype(np.int64)
    # python float
    return dt if dt.kind == 'f' else np.dtype(np.float64)


def _weak_check(v, wdt, dt):
    """a weak python int must fit the integer result type"""
    if wdt is None and is_int_dt(dt) and isinstance(v, (int, SymInt)) and not isinstance(v, bool):
        lo, hi = int_range(dt)
        if not (v >= lo) or not (v <= hi):
            raise OverflowError('Python integer out of bounds for ' + dt.name)


def elem_op(op, a, adt, b, bdt):
    """(element, dtype) of a binary operation"""
    if op in ('eq', 'lt', 'le', 'ne', 'gt', 'ge'):
        return elem_cmp(op, a, b), np.dtype(bool)
    dt = result_dt(a, adt, b, bdt)
    if op == 'truediv':
        if dt.kind in 'iub':
            dt = np.dtype(np.float64)
        a, b = _f(a), _f(b)
        if not isinstance(b, Sym) and b == 0:
            if isinstance(a, Sym):
                raise Unsupported('division by zero array')
            return float(dt.type(np.float64(a) / np.float64(b))), dt
        if isinstance(b, SymFloat) and bool(b == 0):
            raise Unsupported('division by symbolic zero')
        return _fop('truediv', a, b, dt), dt
    if dt.kind == 'b':
        if op in ('and', 'or', 'xor'):
            a, b = (core.mkbool(x.e) if isinstance(x, SymBool) else bool(x) for x in (a, b))
            return {'and': lambda: And(a, b), 'or': lambda: Or(a, b), 'xor': lambda: Not(a == b)}[op](), dt
        if op in ('add', 'mul'):
            return (Or(a, b) if op == 'add' else And(a, b)), dt
        raise Unsupported('bool ' + op)
    if is_int_dt(dt):
        _weak_check(a, adt, dt)
        _weak_check(b, bdt, dt)
        a, b = as_int(a), as_int(b)
        if op in ('floordiv', 'mod') and not isinstance(b, SymInt) and b == 0:
            return 0, dt
        if op == 'lshift':
            k = concretize(b)
            r = 0 if k >= dt.itemsize * 8 else a * (1 << k)
        elif op == 'rshift':
            k = concretize(b)
            r = a >> k
        else:
            r = _PY[op](a, b)
        return wrap_int(r, dt), dt
    if dt.kind == 'f':
        return _fop(op, _f(a), _f(b), dt), dt
    raise Unsupported('op on ' + dt.name)


def _f(x):
    if isinstance(x, SymBool):
        return SymFloat.of_int(x.as_int())
    if isinstance(x, SymInt):
        return SymFloat.of_int(x)
    return x if isinstance(x, Sym) else float(x)


def _fop(op, a, b, dt):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return float(_PY[op](dt.type(a), dt.type(b)))
    if op in ('add', 'sub'):
        r = core.fp_addsub(op, a, b, {4: 'f32', 8: 'f64'}.get(dt.itemsize))
        if r is not None:
            return r
    return _PY[op](a, b)


_PY = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'truediv': lambda a, b: a / b,
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'pow': lambda a, b: a ** b,
}


def elem_cmp(op, a, b):
    if op == 'ne':
        return Not(elem_cmp('eq', a, b))
    r = {'eq': lambda: a == b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
         'ge': lambda: a >= b}[op]()
    return r


_OPS = {'__add__': 'add', '__sub__': 'sub', '__mul__': 'mul', '__truediv__': 'truediv', '__floordiv__': 'floordiv',
        '__mod__': 'mod', '__and__': 'and', '__or__': 'or', '__xor__': 'xor', '__lshift__': 'lshift',
        '__rshift__': 'rshift', '__pow__': 'pow'}
_CMPS = {'__eq__': 'eq', '__ne__': 'ne', '__lt__': 'lt', '__le__': 'le', '__gt__': 'gt', '__ge__': 'ge'}


class SymNp:
    """a numpy scalar with a symbolic value"""
    __slots__ = ('v', 'dt')
    __array_ufunc__ = None

    def __init__(self, v, dt):
        self.v = v
        self.dt = dt

    @property
    def dtype(self):
        return DT(self.dt)

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize

    ndim = 0
    shape = ()
    size = 1

    def item(self):
        if self.dt.kind == 'f' and self.dt.itemsize == 4 and isinstance(self.v, SymFloat):
            return self.v
        return self.v

    tolist = item

    def astype(self, t, *a, **k):
        return cast_scalar(self.v, self.dt, real_dtype(t))

    def _bytes(self):
        return elem_bytes(self.v, self.dt)

    def tobytes(self):
        return mkbytes(self._bytes())

    def copy(self):
        return self

    def view(self, t):
        return frombuffer(mkbytes(self._bytes()), t)[0]

    # hooks of the other facades
    def __sym_bytes__(self):
        return self._bytes()

    def __sym_index__(self):
        return as_int(self.v) if is_int_dt(self.dt) else None

    def __sym_float__(self):
        return self.v if isinstance(self.v, SymFloat) else _f(self.v)

    def __sym_int__(self):
        if isinstance(self.v, SymFloat):
            return self.v.trunc()
        return as_int(self.v)

    def __sym_truth__(self):
        return self.v if isinstance(self.v, SymBool) else Not(self.v == 0)

    def __sym_key__(self):
        return self.v

    def __sym_str__(self, mode='str'):
        if self.dt.kind == 'b':
            s = 'True' if bool(self.v) else 'False'
            return s if mode == 'str' else 'np.' + s
        if is_int_dt(self.dt):
            d = text.to_str(self.v)
            return d if mode == 'str' else text.join('', ['np.%s(' % self.dt.name, d, ')'])
        if isinstance(self.v, SymFloat):
            return text.fmt_float(self.v, self.dt.name, mode)
        return str(self.dt.type(self.v)) if mode == 'str' else repr(self.dt.type(self.v))

    def __sym_format__(self, spec):
        if spec == '':
            return self.__sym_str__()
        if is_int_dt(self.dt):
            return text.fmt_value(self.v, spec)
        if isinstance(self.v, SymBool):
            return format(bool(self.v), spec)
        return text.fmt_value(self.v, spec)

    def __bool__(self):
        return bool(self.__sym_truth__())

    def __index__(self):
        if not is_int_dt(self.dt):
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return concretize(self.v)

    def __int__(self):
        i = self.__sym_int__()
        return concretize(i) if isinstance(i, SymInt) else int(i)

    def __float__(self):
        return float(self.__sym_float__())

    def __round__(self, n=None):
        if is_int_dt(self.dt):
            return self.v
        return round(self.v.realise(), n)

    def __hash__(self):
        return hash(self.v)

    def __str__(self):
        return str(self.realise())

    def __repr__(self):
        return '<SymNp %s>' % self.dt.name

    def __format__(self, spec):
        return format(self.realise(), spec)

    def realise(self):
        v = self.v
        return self.dt.type(v.realise() if isinstance(v, SymFloat) else bool(v) if isinstance(v, SymBool)
                            else concretize(v))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __neg__(self):
        if is_int_dt(self.dt):
            return mkscalar(wrap_int(-self.v, self.dt), self.dt)
        return mkscalar(-self.v, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self.v < 0) else self

    def __invert__(self):
        if isinstance(self.v, SymBool):
            return mkscalar(Not(self.v), self.dt)
        return mkscalar(wrap_int(~self.v, self.dt), self.dt)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self


def scalar_bin(op, a, b, swap):
    v, dt = val_dt(b)
    if v is None and not isinstance(b, (SymNp, np.generic)):
        if isinstance(b, (SymArray, np.ndarray)):
            return NotImplemented
        return False if op == 'eq' else True if op == 'ne' else NotImplemented
    x, y = ((v, dt), (a.v, a.dt)) if swap else ((a.v, a.dt), (v, dt))
    r, rdt = elem_op(op, x[0], x[1], y[0], y[1])
    if op in _CMPS.values():
        # a numpy bool: SymBool behaves alike where the code can tell
        return r
    return mkscalar(r, rdt)


def _install_scalar():
    for dn, op in _OPS.items():
        def f(self, o, op=op):
            return scalar_bin(op, self, o, False)

        def g(self, o, op=op):
            return scalar_bin(op, self, o, True)
        setattr(SymNp, dn, f)
        setattr(SymNp, '__r' + dn[2:], g)
    for dn, op in _CMPS.items():
        def h(self, o, op=op):
            return scalar_bin(op, self, o, False)
        setattr(SymNp, dn, h)


_install_scalar()


def elem_bytes(v, dt):
    """element -> list of byte elements"""
    n = dt.itemsize
    if isinstance(v, SymBool):
        out = [v.as_int()]
    elif isinstance(v, SymInt):
        out = int_bytes(v, n)
    elif isinstance(v, SymFloat):
        from .f_struct import float_bits_of
        b = float_bits_of(v, 'f32' if n == 4 else 'f64')
        out = list(b.to_bytes(n, 'little')) if isinstance(b, int) else bv_bytes(b)
    else:
        return list(np.array([v], dtype=dt).tobytes())
    if dt.byteorder == '>':
        out = out[::-1]
    return out


def elem_from_bytes(el, dt):
    if not any(isinstance(x, SymInt) for x in el):
        a = np.frombuffer(bytes(el), dtype=dt)
        if dt.kind == 'f' and a[0] != a[0]:
            return float('nan')
        return a[0].item()
    if dt.byteorder == '>':
        el = el[::-1]
    if dt.kind == 'b':
        return Not(el[0] == 0)
    if dt.kind == 'u':
        return el[0] if len(el) == 1 else core.unsigned(bytes_bv(el))
    if dt.kind == 'i':
        return core.signed(bytes_bv(el))
    if dt.kind == 'f' and len(el) in (4, 8):
        return core.mkfloat_bits('f32' if len(el) == 4 else 'f64', bytes_bv(el))
    raise Unsupported('element of ' + dt.name)


# ------------------------------------------------------------------- arrays

class SymArray:
    """1-d array; el holds python values / Sym values.  Structured arrays keep
    the raw rows in `rows` (list of byte-element lists)."""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, el, dt, writeable=True):
        self.el = el
        self.dt = dt
        self.writeable = writeable

    @property
    def dtype(self):
        return DT(self.dt)

    @property
    def size(self):
        return len(self.el)

    @property
    def shape(self):
        return (len(self.el),)

    @property
    def nbytes(self):
        return len(self.el) * self.dt.itemsize

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def T(self):
        return self

    @property
    def flat(self):
        return iter(self)

    def __len__(self):
        return len(self.el)

    def __iter__(self):
        for v in list(self.el):
            yield mkscalar(v, self.dt)

    def __contains__(self, x):
        for v in self:
            if bool(v == x):
                return True
        return False

    def _mask(self, m):
        ml = m.el if isinstance(m, SymArray) else [bool(x) for x in m]
        if len(ml) != len(self.el):
            raise IndexError('boolean index did not match indexed array along axis 0; size of axis is %d but size of '
                             'corresponding boolean axis is %d' % (len(self.el), len(ml)))
        return [v for v, k in zip(self.el, ml) if bool(k)]

    def _positions(self, k):
        n = len(self.el)
        out = []
        for i in (k.el if isinstance(k, SymArray) else k):
            i = concretize(i) if isinstance(i, SymInt) else i.__index__()
            if not -n <= i < n:
                raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, n))
            out.append(i)
        return out

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            return SymArray(self.el[text._slice_index(k, len(self.el))], self.dt)
        if isinstance(k, SymArray):
            if k.dt.kind == 'b':
                return SymArray(self._mask(k), self.dt)
            return SymArray([self.el[i] for i in self._positions(k)], self.dt)
        if isinstance(k, (list, np.ndarray, range)):
            k = k.tolist() if isinstance(k, np.ndarray) else list(k)
            if k and isinstance(k[0], (bool, SymBool, np.bool_)):
                return SymArray(self._mask(k), self.dt)
            return SymArray([self.el[i] for i in self._positions(k)], self.dt)
        if isinstance(k, (str, text.SymStr)):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        if k is Ellipsis:
            return SymArray(list(self.el), self.dt)
        i = k.__index__()
        if not -len(self.el) <= i < len(self.el):
            raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, len(self.el)))
        return mkscalar(self.el[i], self.dt)

    def __setitem__(self, k, v):
        if not self.writeable:
            raise ValueError('assignment destination is read-only')
        n = len(self.el)
        if isinstance(k, slice):
            idx = list(range(n))[text._slice_index(k, n)]
        elif isinstance(k, SymArray) and k.dt.kind == 'b':
            idx = [i for i, m in enumerate(k.el) if bool(m)]
        elif isinstance(k, (SymArray, list, np.ndarray)):
            idx = self._positions(k if isinstance(k, SymArray) else list(k))
        else:
            i = k.__index__()
            if not -n <= i < n:
                raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, n))
            idx = [i]
        vals = as_elems(v)
        if vals is None:
            x, dt = val_dt(v)
            vals = [(x, dt)] * len(idx)
        elif len(vals) == 1:
            vals = vals * len(idx)
        if len(vals) != len(idx):
            raise ValueError('shape mismatch')
        for i, (x, dt) in zip(idx, vals):
            if dt is None:
                x = val_dt(from_py(x, self.dt))[0]
            else:
                x = cast_elem(x, dt, self.dt)
            self.el[i] = x

    def astype(self, t, copy=True, **kw):
        d = real_dtype(t)
        return SymArray([cast_elem(v, self.dt, d) for v in self.el], d)

    def copy(self, *a):
        return SymArray(list(self.el), self.dt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, t=None):
        if t is None or t is SymArray:
            return SymArray(list(self.el), self.dt)
        return frombuffer(self.tobytes(), t)

    def tolist(self):
        return [v for v in self.el]

    def tobytes(self, *a):
        out = []
        for v in self.el:
            out.extend(elem_bytes(v, self.dt))
        return mkbytes(out)

    def __sym_bytes__(self):
        return belems(self.tobytes())

    def __sym_str__(self, mode='str'):
        inner = text.join(' ', [text.to_str(x) for x in self])
        return '[' + inner + ']'

    def item(self, i=0):
        return self[i].item() if not isinstance(self[i], np.generic) else self[i].item()

    def ravel(self, *a):
        return self
    flatten = copy

    def reshape(self, *a):
        if a in ((-1,), ((-1,),), (len(self.el),)):
            return self
        raise Unsupported('reshape')

    def newbyteorder(self, o='S'):
        return SymArray(list(self.el), self.dt)

    def setflags(self, write=None, **k):
        if write is not None:
            self.writeable = write

    def nonzero(self):
        return (flatnonzero(self),)

    def any(self, *a, **k):
        return Or(*[truth(v) for v in self.el])

    def all(self, *a, **k):
        return And(*[truth(v) for v in self.el])

    def sum(self, *a, **k):
        if self.dt.kind == 'f':
            dt = self.dt
        else:
            dt = np.dtype(np.uint64 if self.dt.kind == 'u' else np.int64)
        r = 0
        for v in self.el:
            r = r + (as_int(v) if isinstance(v, (SymBool, bool)) else v)
        if is_int_dt(dt):
            r = wrap_int(r, dt)
        return mkscalar(r, dt)

    def _argext(self, better):
        if not self.el:
            raise ValueError('attempt to get argmax of an empty sequence')
        best = 0
        for i in range(1, len(self.el)):
            if bool(better(self.el[i], self.el[best])):
                best = i
        return np.int64(best)

    def argmax(self, *a, **k):
        return self._argext((lambda x, y: And(truth(x), Not(truth(y)))) if self.dt.kind == 'b' else lambda x, y: x > y)

    def argmin(self, *a, **k):
        return self._argext(lambda x, y: x < y)

    def max(self, *a, **k):
        return self[int(self.argmax())]

    def min(self, *a, **k):
        return self[int(self.argmin())]

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def sort(self, *a, **k):
        self.el = [self.el[i] for i in _argsort(self.el)]

    def argsort(self, *a, **k):
        return SymArray(_argsort(self.el), np.dtype(np.int64))

    def __bool__(self):
        if len(self.el) == 1:
            return bool(truth(self.el[0]))
        if not self.el:
            raise ValueError('The truth value of an empty array is ambiguous.')
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __invert__(self):
        if self.dt.kind == 'b':
            return SymArray([Not(v) for v in self.el], self.dt)
        return SymArray([wrap_int(~v, self.dt) for v in self.el], self.dt)

    def __neg__(self):
        return SymArray([val_dt(-mkscalar(v, self.dt))[0] for v in self.el], self.dt)

    def __abs__(self):
        return SymArray([val_dt(abs(mkscalar(v, self.dt)))[0] for v in self.el], self.dt)

    __hash__ = None

    def realise(self):
        note_realised('array')
        return np.array([v.realise() if isinstance(v, SymFloat) else concretize(v) if isinstance(v, SymInt)
                         else bool(v) if isinstance(v, SymBool) else v for v in self.el], dtype=self.dt)

    def __array__(self, dtype=None, copy=None):
        return self.realise()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(self.realise(), n)
        return f

    def __repr__(self):
        return '<SymArray %d %s>' % (len(self.el), self.dt)


def truth(v):
    if isinstance(v, SymBool):
        return v
    if isinstance(v, Sym):
        return Not(v == 0)
    return bool(v)


def as_elems(x):
    """array-like -> [(value, dtype or None)] or None when scalar"""
    if isinstance(x, SymArray):
        return [(v, x.dt) for v in x.el]
    if isinstance(x, np.ndarray) and x.ndim == 1:
        return [(v.item(), x.dtype) for v in x]
    if isinstance(x, (list, tuple, range)):
        return [val_dt(v) for v in x]
    return None


def array_bin(op, a, b, swap):
    eb = as_elems(b)
    if eb is None:
        v, dt = val_dt(b)
        if v is None:
            return NotImplemented
        eb = [(v, dt)] * len(a.el)
        bdt = dt
        sample = v
    else:
        if len(eb) != len(a.el):
            if len(eb) == 1:
                eb = eb * len(a.el)
            elif len(a.el) == 1:
                a = SymArray(a.el * len(eb), a.dt)
            else:
                raise ValueError('operands could not be broadcast together with shapes (%d,) (%d,) ' % (
                    len(a.el), len(eb)))
        if isinstance(b, SymArray):
            bdt, sample = b.dt, 0
        elif isinstance(b, np.ndarray):
            bdt, sample = b.dtype, 0
        else:
            arr = array(b)
            bdt, sample = arr.dt, 0
            eb = [(v, bdt) for v in arr.el]
            if len(eb) != len(a.el):
                eb = eb * len(a.el)
    out, rdt = [], None
    for x, (y, _) in zip(a.el, eb):
        p, q = ((y, bdt), (x, a.dt)) if swap else ((x, a.dt), (y, bdt))
        r, rdt = elem_op(op, p[0], p[1], q[0], q[1])
        out.append(r)
    if rdt is None:
        if op in _CMPS.values():
            rdt = np.dtype(bool)
        else:
            rdt = result_dt(0, a.dt, sample, bdt)
            if op == 'truediv' and rdt.kind in 'iub':
                rdt = np.dtype(np.float64)
    return SymArray(out, native(rdt))


def _install_array():
    for dn, op in _OPS.items():
        def f(self, o, op=op):
            return array_bin(op, self, o, False)

        def g(self, o, op=op):
            return array_bin(op, self, o, True)
        setattr(SymArray, dn, f)
        setattr(SymArray, '__r' + dn[2:], g)
    for dn, op in _CMPS.items():
        def h(self, o, op=op):
            return array_bin(op, self, o, False)
        setattr(SymArray, dn, h)


_install_array()


class StructArray:
    """structured array: rows of raw bytes"""
    ndim = 1

    def __init__(self, rows, dt):
        self.rows = rows
        self.dt = dt

    @property
    def dtype(self):
        return self.dt

    @property
    def size(self):
        return len(self.rows)

    @property
    def shape(self):
        return (len(self.rows),)

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        for i in range(len(self.rows)):
            yield StructRow(self, i)

    def _col(self, k):
        off = 0
        for n, d in self.dt.fields_:
            if bool(n == k):
                return SymArray([elem_from_bytes(r[off:off + d.itemsize], d) for r in self.rows], d, writeable=False)
            off += d.itemsize
        raise ValueError('no field of name ' + (k if isinstance(k, str) else '?'))

    def __getitem__(self, k):
        if isinstance(k, (str, text.SymStr)):
            return self._col(k)
        if isinstance(k, slice):
            return StructArray(self.rows[text._slice_index(k, len(self.rows))], self.dt)
        if isinstance(k, SymArray) and k.dt.kind == 'b':
            return StructArray([r for r, m in zip(self.rows, k.el) if bool(m)], self.dt)
        return StructRow(self, k.__index__())

    def copy(self):
        return self

    def tobytes(self):
        return mkbytes([b for r in self.rows for b in r])


class StructRow:
    def __init__(self, a, i):
        self.a, self.i = a, i
        a.rows[i]

    def __getitem__(self, k):
        if isinstance(k, int):
            k = self.a.dt.fields_[k][0]
        return self.a._col(k)[self.i]

    def __iter__(self):
        return iter([self[n] for n in self.a.dt.names])


# ---------------------------------------------------------------- functions

def frombuffer(buf, dtype=None, count=-1, offset=0):
    d = globals()['dtype'](dtype if dtype is not None else np.float64)
    el = belems(buf)
    if el is None:
        f = getattr(type(buf), '__sym_bytes__', None)
        el = f(buf) if f else list(bytes(buf))
    el = el[concretize(as_int(offset)):]
    n = d.itemsize
    if n == 0:
        raise ValueError('itemsize cannot be zero in type')
    if count >= 0:
        if len(el) < count * n:
            raise ValueError('buffer is smaller than requested size')
        el = el[:count * n]
    if len(el) % n:
        raise ValueError('buffer size must be a multiple of element size')
    rows = [el[i:i + n] for i in range(0, len(el), n)]
    if d.fields_ is not None:
        return StructArray(rows, d)
    return SymArray([elem_from_bytes(r, d.real) for r in rows], d.real, writeable=False)


def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, SymArray):
        return x.astype(dtype) if dtype is not None else x.copy()
    if isinstance(x, StructArray):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 1:
        r = SymArray([v.item() for v in x], x.dtype)
        return r.astype(dtype) if dtype is not None else r
    if not isinstance(x, (list, tuple, range)):
        try:
            x = list(x)
        except TypeError:
            return x
    vals = [val_dt(v) for v in x]
    if any(v is None for v, _ in vals):
        return _fallback('array')(x, dtype) if dtype is not None else _fallback('array')(x)
    if dtype is not None:
        dt = real_dtype(dtype)
    else:
        dt = None
        for v, d in vals:
            if d is None:
                d = np.dtype(bool) if isinstance(v, (bool, SymBool)) else \
                    np.dtype(np.int64) if isinstance(v, (int, SymInt)) else np.dtype(np.float64)
            dt = d if dt is None else np.promote_types(dt, d)
        if dt is None:
            dt = np.dtype(np.float64)
    out = []
    for v, d in vals:
        out.append(val_dt(from_py(v, dt))[0] if d is None else cast_elem(v, d, dt))
    return SymArray(out, dt)


def asarray(x, dtype=None, **kw):
    if isinstance(x, (SymArray, StructArray)) and dtype is None:
        return x
    return array(x, dtype)


ascontiguousarray = asarray
atleast_1d = asarray


def flatnonzero(a):
    a = asarray(a)
    return SymArray([i for i, v in enumerate(a.el) if bool(truth(v))], np.dtype(np.int64))


def take(a, idx, *r, **k):
    return asarray(a)[asarray(idx)] if as_elems(idx) is not None else asarray(a)[idx]


def compress(cond, a, *r, **k):
    c = asarray(cond)
    return asarray(a)[flatnonzero(c)]


extract = compress


def ediff1d(a):
    return diff(a)


def nonzero(a):
    return (flatnonzero(a),)


def argwhere(a):
    return [[i] for i in flatnonzero(a)]


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    c = asarray(c)
    if not isinstance(c, SymArray):
        return x if bool(c) else y
    ex, ey = as_elems(x), as_elems(y)
    n = len(c.el)
    (sx, dx), (sy, dy) = val_dt(x) if ex is None else (0, x.dt if isinstance(x, SymArray) else array(x).dt), \
        val_dt(y) if ey is None else (0, y.dt if isinstance(y, SymArray) else array(y).dt)
    if dx is None and dy is None:
        dt = array([sx, sy]).dt
    else:
        dt = result_dt(sx, dx, sy, dy)
    ex = [v for v, _ in ex] if ex is not None else [sx] * n
    ey = [v for v, _ in ey] if ey is not None else [sy] * n
    out = []
    for k, p, q in zip(c.el, ex, ey):
        out.append(p if bool(truth(k)) else q)
    return SymArray(out, native(dt))


def elem_same(x, y, equal_nan):
    r = x == y
    if equal_nan:
        nx = x.isnan() if isinstance(x, SymFloat) else (isinstance(x, float) and x != x)
        ny = y.isnan() if isinstance(y, SymFloat) else (isinstance(y, float) and y != y)
        r = Or(r, And(nx, ny))
    return r


def array_equal(a, b, equal_nan=False):
    if a is None or b is None:
        return False
    a, b = asarray(a), asarray(b)
    if isinstance(a, StructArray) or isinstance(b, StructArray):
        raise Unsupported('array_equal struct')
    if len(a.el) != len(b.el):
        return False
    return And(*[elem_same(x, y, equal_nan) for x, y in zip(a.el, b.el)])


def array_equiv(a, b):
    return array_equal(a, b)


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)

    def one(x):
        lo, hi = 0, len(a.el)
        while lo < hi:
            mid = (lo + hi) // 2
            m = a.el[mid]
            if bool(m < x) if side == 'left' else not bool(x < m):
                lo = mid + 1
            else:
                hi = mid
        return lo
    ev = as_elems(v)
    if ev is None:
        return np.int64(one(val_dt(v)[0]))
    return SymArray([one(x) for x, _ in ev], np.dtype(np.int64))


def diff(a, n=1, *r, **k):
    a = asarray(a)
    for _ in range(n):
        if a.dt.kind == 'b':
            a = a[1:] != a[:-1]
        else:
            a = a[1:] - a[:-1]
    return a


def concatenate(arrs, *a, **k):
    arrs = [asarray(x) for x in arrs]
    dt = arrs[0].dt
    for x in arrs[1:]:
        dt = np.promote_types(dt, x.dt)
    return SymArray([cast_elem(v, x.dt, dt) for x in arrs for v in x.el], native(dt))


hstack = concatenate


def append(a, b):
    eb = b if as_elems(b) is not None else [b]
    return concatenate([asarray(a), asarray(eb)])


def insert(a, i, b):
    a = asarray(a)
    eb = asarray(b if as_elems(b) is not None else [b])
    return concatenate([a[:i], eb, a[i:]])


def zeros(n, dtype=np.float64, **k):
    d = real_dtype(dtype)
    n = n[0] if isinstance(n, tuple) else n
    z = 0.0 if d.kind == 'f' else False if d.kind == 'b' else 0
    return SymArray([z] * n.__index__(), d)


def ones(n, dtype=np.float64, **k):
    d = real_dtype(dtype)
    n = n[0] if isinstance(n, tuple) else n
    z = 1.0 if d.kind == 'f' else True if d.kind == 'b' else 1
    return SymArray([z] * n.__index__(), d)


empty = zeros


def full(n, v, dtype=None):
    n = n[0] if isinstance(n, tuple) else n
    return array([v] * n.__index__(), dtype)


def zeros_like(a, dtype=None):
    return zeros(len(a), dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None):
    return ones(len(a), dtype if dtype is not None else a.dtype)


empty_like = zeros_like


def full_like(a, v, dtype=None):
    return full(len(a), v, dtype if dtype is not None else a.dtype)


def arange(*a, **k):
    r = np.arange(*[x.__index__() if not isinstance(x, float) else x for x in a])
    return SymArray([v.item() for v in r], r.dtype)


def np_any(a, *r, **k):
    return asarray(a).any()


def np_all(a, *r, **k):
    return asarray(a).all()


def np_sum(a, *r, **k):
    return asarray(a).sum()


def np_max(a, *r, **k):
    return asarray(a).max()


def np_min(a, *r, **k):
    return asarray(a).min()


amax, amin = np_max, np_min


def argmax(a, *r, **k):
    return asarray(a).argmax()


def argmin(a, *r, **k):
    return asarray(a).argmin()


def count_nonzero(a, *r, **k):
    return len(flatnonzero(a))


def size(a):
    return len(asarray(a))


def shape(a):
    return (len(a),)


def ndim(a):
    return 0 if as_elems(a) is None else 1


def iterable(a):
    return as_elems(a) is not None


def isscalar(a):
    return isinstance(a, (int, float, str, Sym, SymNp, np.generic))


def copy(a, *r):
    return asarray(a).copy()


def array2string(a, *r, **k):
    return text.to_str(a)


def _argsort(el):
    import functools

    def cmp(i, j):
        if bool(el[i] < el[j]):
            return -1
        if bool(el[j] < el[i]):
            return 1
        return 0
    return sorted(range(len(el)), key=functools.cmp_to_key(cmp))


def sort(a, *r, **k):
    a = asarray(a)
    return SymArray([a.el[i] for i in _argsort(a.el)], a.dt)


def argsort(a, *r, **k):
    return SymArray(_argsort(asarray(a).el), np.dtype(np.int64))


def unique(a, *r, **k):
    s = sort(a)
    out = []
    for v in s.el:
        if not out or not bool(out[-1] == v):
            out.append(v)
    return SymArray(out, s.dt)


def isin(a, b, invert=False, **k):
    a, b = asarray(a), asarray(b)
    r = [Or(*[x == y for y in b.el]) for x in a.el]
    return SymArray([Not(x) for x in r] if invert else r, np.dtype(bool))


def logical_not(a):
    if as_elems(a) is None:
        return Not(truth(val_dt(a)[0]))
    return SymArray([Not(truth(v)) for v in asarray(a).el], np.dtype(bool))


def _logical(f):
    def g(a, b):
        if as_elems(a) is None and as_elems(b) is None:
            return f(truth(val_dt(a)[0]), truth(val_dt(b)[0]))
        n = len(a) if as_elems(a) is not None else len(b)
        ea = [truth(v) for v, _ in as_elems(a)] if as_elems(a) is not None else [truth(val_dt(a)[0])] * n
        eb = [truth(v) for v, _ in as_elems(b)] if as_elems(b) is not None else [truth(val_dt(b)[0])] * n
        return SymArray([f(x, y) for x, y in zip(ea, eb)], np.dtype(bool))
    return g


logical_and = _logical(And)
logical_or = _logical(Or)
logical_xor = _logical(lambda a, b: Not(a == b))


def isnan(x):
    def one(v):
        if isinstance(v, SymFloat):
            return v.isnan()
        return isinstance(v, float) and v != v
    if as_elems(x) is None:
        return one(val_dt(x)[0])
    return SymArray([one(v) for v in asarray(x).el], np.dtype(bool))


def isinf(x):
    def one(v):
        if isinstance(v, SymFloat):
            return v.isinf()
        return isinstance(v, float) and math.isinf(v)
    if as_elems(x) is None:
        return one(val_dt(x)[0])
    return SymArray([one(v) for v in asarray(x).el], np.dtype(bool))


def isfinite(x):
    return logical_not(logical_or(isnan(x), isinf(x)))


def _binf(op):
    def f(a, b, *r, **k):
        if isinstance(a, SymArray):
            return array_bin(op, a, b, False)
        if isinstance(b, SymArray):
            return array_bin(op, b, a, True)
        if isinstance(a, SymNp):
            return scalar_bin(op, a, b, False)
        if isinstance(b, SymNp):
            return scalar_bin(op, b, a, True)
        if as_elems(a) is not None or as_elems(b) is not None:
            return f(asarray(a) if as_elems(a) is not None else a, asarray(b) if as_elems(b) is not None else b)
        import operator
        o = {'and': 'and_', 'or': 'or_'}.get(op, op)
        return getattr(operator, o)(a, b)
    return f


equal, not_equal, less, less_equal, greater, greater_equal = map(_binf, ('eq', 'ne', 'lt', 'le', 'gt', 'ge'))
add, subtract, multiply, divide, true_divide, floor_divide, mod, remainder = map(
    _binf, ('add', 'sub', 'mul', 'truediv', 'truediv', 'floordiv', 'mod', 'mod'))
bitwise_and, bitwise_or, bitwise_xor, left_shift, right_shift = map(_binf, ('and', 'or', 'xor', 'lshift', 'rshift'))


# ----- transcendental functions: uninterpreted over the reals

_R = z3.RealSort()
ARCTAN2 = z3.Function('arctan2', _R, _R, _R)
ARCSIN = z3.Function('arcsin', _R, _R)


def _uf(name, f, arity):
    def g(*args):
        if any(isinstance(a, SymArray) for a in args):
            n = [len(a.el) for a in args if isinstance(a, SymArray)][0]
            cols = [a.el if isinstance(a, SymArray) else [val_dt(a)[0]] * n for a in args]
            dts = [a.dt for a in args if isinstance(a, SymArray)]
            dt = dts[0]
            for d in dts[1:]:
                dt = np.promote_types(dt, d)
            if dt.kind != 'f':
                dt = np.dtype(np.float64)
            return SymArray([one(row) for row in zip(*cols)], native(dt))
        dts = [val_dt(a)[1] for a in args if val_dt(a)[1] is not None]
        r = one([val_dt(a)[0] for a in args])
        return mkscalar(r, dts[0] if dts and dts[0].kind == 'f' else np.dtype(np.float64))

    def one(vals):
        if not any(isinstance(v, Sym) for v in vals):
            with np.errstate(all='ignore'):
                return float(getattr(np, name)(*vals))
        ts = [SymFloat.lift(v).real_term() for v in vals]
        return SymFloat('real', f(*ts))
    return g


arctan2 = _uf('arctan2', ARCTAN2, 2)
arcsin = _uf('arcsin', ARCSIN, 1)
atan2, asin = arctan2, arcsin
for _n in ('arccos', 'arctan', 'sin', 'cos', 'tan', 'sqrt', 'deg2rad', 'rad2deg', 'degrees', 'radians', 'exp', 'log',
           'hypot', 'power'):
    _ar = 2 if _n in ('hypot', 'power') else 1
    globals()[_n] = _uf(_n, z3.Function(_n, *([_R] * (_ar + 1))), _ar)


def clip(a, lo=None, hi=None, *r, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))

    def one(v):
        if lo is not None and bool(v < lo):
            return lo
        if hi is not None and bool(v > hi):
            return hi
        return v
    if isinstance(a, SymArray):
        return SymArray([one(v) for v in a.el], a.dt)
    return mkscalar(one(val_dt(a)[0]), val_dt(a)[1] or np.dtype(np.float64))


def _abs(a):
    return abs(a)


absolute = _abs


def _fallback(name):
    from .shims import realise_deep

    def f(*a, **k):
        note_realised('numpy.' + name)
        k = {x: realise_deep(y) for x, y in k.items()}
        r = getattr(np, name)(*[realise_deep(x) for x in a], **k)
        if isinstance(r, np.ndarray) and r.ndim == 1 and r.dtype.names is None:
            return SymArray([v.item() for v in r], r.dtype)
        return r
    return f


ndarray = SymArray


class _Module:
    """what `import numpy` gives instrumented code"""
    __name__ = 'numpy'

    def __getattr__(self, n):
        if n in _TYPES:
            return _TYPES[n]
        if n in _EXPORT:
            return _EXPORT[n]
        if n == 'abs':
            return _abs
        v = getattr(np, n)
        if callable(v) and not isinstance(v, type) and n not in ('errstate', 'iinfo', 'finfo', 'seterr'):
            return _fallback(n)
        if n in ('iinfo', 'finfo'):
            return lambda t: v(real_dtype(t))
        return v


_EXPORT = {n: v for n, v in list(globals().items())
           if not n.startswith('_') and (callable(v)) and n not in (
               'NpType', 'DT', 'SymNp', 'StructArray', 'StructRow', 'Sym', 'SymInt', 'SymFloat', 'SymBool', 'And',
               'Or', 'Not', 'as_int', 'mkint', 'bv', 'concretize', 'Unsupported', 'note_realised', 'belems',
               'bytes_bv', 'bv_bytes', 'int_bytes', 'mkbytes', 'real_dtype', 'elem_op', 'elem_cmp', 'val_dt')}
for _n in ('any', 'all', 'sum', 'max', 'min'):
    _EXPORT[_n] = globals()['np_' + _n]
module = _Module()
