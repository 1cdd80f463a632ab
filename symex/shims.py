"""Replacement builtins and operator hooks for instrumented modules."""
import builtins
import copy as _copy
import sys as _sys
import types
import numpy as np
import z3
from . import core, text, fs, f_struct, f_numpy
from .core import (Sym, SymInt, SymFloat, SymBool, And, Or, Not, as_int, mkint, concretize, Unsupported, note_realised)
from .text import SymStr, SymBytes, SymBytearray, SymBytesBase, belems, mkbytes, mkstr, selems
from .containers import SymDict, SymSet, DictView
from .f_numpy import SymNp, SymArray


def realise_deep(x):
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return concretize(x)
    if isinstance(x, (SymFloat, SymNp, SymArray)):
        return x.realise()
    if isinstance(x, SymStr):
        return x.realise()
    if isinstance(x, SymBytearray):
        return bytearray(x.realise())
    if isinstance(x, SymBytesBase):
        return x.realise()
    if isinstance(x, SymDict):
        return {realise_deep(k): realise_deep(v) for k, v in x.items()}
    if isinstance(x, SymSet):
        return {realise_deep(k) for k in x}
    if isinstance(x, list):
        return [realise_deep(i) for i in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(realise_deep(i) for i in x)
    if isinstance(x, f_numpy.NpType):
        return x.real
    if isinstance(x, f_numpy.DT) and x.fields_ is None:
        return x.real
    sr = getattr(x, '__sym_real__', None)
    if sr is not None and isinstance(x, type):
        return sr
    return x


# ------------------------------------------------------------------- types

class ShimMeta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        r = getattr(c, '__sym_real__', c)
        return issubclass(r, cls.__sym_real__)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, n):
        if n.startswith('__sym'):
            raise AttributeError(n)
        real = getattr(cls.__sym_real__, n)
        if isinstance(real, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            def f(self, *a, **k):
                return mcall(self, n, *a, **k)
            return f
        return real

    def __or__(cls, o):
        return (cls, o)

    def __ror__(cls, o):
        return (o, cls)

    def __eq__(cls, o):
        return o is cls or o is cls.__sym_real__

    def __hash__(cls):
        return hash(cls.__sym_real__)

    def __repr__(cls):
        return repr(cls.__sym_real__)

    def __getitem__(cls, k):
        return cls


def _shim(name, real, inst, make, **extra):
    ns = {'__sym_real__': real, '_inst': staticmethod(inst), '_make': staticmethod(make)}
    ns.update({k: staticmethod(v) for k, v in extra.items()})
    c = ShimMeta(name, (), ns)
    c.__name__ = real.__name__
    return c


def _str_make(*a, **k):
    if not a and not k:
        return ''
    x = a[0] if a else k.pop('object', k.pop('x', ''))
    rest = a[1:]
    enc = rest[0] if rest else k.get('encoding')
    errors = rest[1] if len(rest) > 1 else k.get('errors', 'strict')
    if enc is not None or 'errors' in k:
        el = belems(x)
        if el is None:
            raise TypeError('decoding to str: need a bytes-like object, %s found' % type(x).__name__)
        return text.decode(el, enc or 'utf-8', errors)
    return to_str(x)


def to_str(x, mode='str'):
    return text.to_str(x, mode)


def _bytes_el(a, k):
    if not a and not k:
        return []
    x = a[0] if a else k.get('source')
    enc = a[1] if len(a) > 1 else k.get('encoding')
    errors = a[2] if len(a) > 2 else k.get('errors', 'strict')
    if isinstance(x, (str, SymStr)):
        if enc is None:
            raise TypeError('string argument without an encoding')
        r = text.encode(selems(x), enc, errors)
        return belems(r)
    el = belems(x)
    if el is not None:
        return list(el)
    f = getattr(type(x), '__sym_bytes__', None)
    if f is not None:
        return f(x)
    i = as_int(x)
    if i is not None or isinstance(x, np.integer):
        n = concretize(i) if i is not None else int(x)
        if n < 0:
            raise ValueError('negative count')
        return [0] * n
    if isinstance(x, (memoryview, np.ndarray)):
        return list(bytes(x))
    out = []
    for y in x:
        s = getattr(type(y), '__sym_index__', None)
        if s is not None:
            y = s(y)
        if isinstance(y, SymInt):
            if not (0 <= y) or not (y <= 255):
                raise ValueError('bytes must be in range(0, 256)')
            out.append(mkint(y.e, 0, 255))
        else:
            y = y.__index__()
            if not 0 <= y <= 255:
                raise ValueError('bytes must be in range(0, 256)')
            out.append(y)
    return out


def _int_make(*a, **k):
    if not a:
        return 0
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(x, (SymStr, SymBytesBase)):
        if isinstance(x, SymBytesBase):
            x = text.mkstr(x.el)
        return text.parse_int(x, 10 if base is None else base)
    if base is not None:
        return int(x, base)
    i = as_int(x)
    if i is not None:
        return i
    if isinstance(x, SymFloat):
        if x.kind in ('f32', 'f64'):
            if bool(x.isnan()):
                raise ValueError('cannot convert float NaN to integer')
            if bool(x.isinf()):
                raise OverflowError('cannot convert float infinity to integer')
        return x.trunc()
    f = getattr(type(x), '__sym_int__', None)
    if f is not None:
        return f(x)
    return int(x)


def _int_from_bytes(b, byteorder='big', *, signed=False):
    el = belems(b)
    if el is None:
        el = _bytes_el((b,), {})
    if not any(isinstance(e, SymInt) for e in el):
        return int.from_bytes(bytes(el), byteorder, signed=signed)
    if byteorder == 'big':
        el = el[::-1]
    e = text.bytes_bv(el)
    return core.signed(e) if signed else core.unsigned(e)


def _float_make(x=0.0):
    if isinstance(x, SymFloat):
        return x
    i = as_int(x)
    if isinstance(i, SymInt):
        return SymFloat.of_int(i)
    f = getattr(type(x), '__sym_float__', None)
    if f is not None:
        return f(x)
    if isinstance(x, SymStr) and len(x.el) == 1 and isinstance(x.el[0], text.Tok):
        t = x.el[0]
        if t.kind[:2] == ('f', 'pyfloat') and t.kind[2] in ('str', 'repr'):
            return t.v      # the shortest text that reads back as the same double
    if isinstance(x, (SymStr, SymBytesBase)):
        x = x.realise()
    return float(x)


def _bool_make(x=False):
    f = getattr(type(x), '__sym_truth__', None)
    if f is not None:
        x = f(x)
    return bool(x)


def _isfloat(x):
    return isinstance(x, (float, SymFloat)) or (isinstance(x, SymNp) and x.dt == np.float64)


str_ = _shim('str', str, lambda x: isinstance(x, (str, SymStr)), _str_make)
bytes_ = _shim('bytes', bytes, lambda x: isinstance(x, (bytes, SymBytes)),
               lambda *a, **k: mkbytes(_bytes_el(a, k)))
bytearray_ = _shim('bytearray', bytearray, lambda x: isinstance(x, (bytearray, SymBytearray)),
                   lambda *a, **k: SymBytearray(_bytes_el(a, k)))
int_ = _shim('int', int, lambda x: isinstance(x, (int, SymInt, SymBool)), _int_make, from_bytes=_int_from_bytes)
float_ = _shim('float', float, _isfloat, _float_make)
bool_ = _shim('bool', bool, lambda x: isinstance(x, (bool, SymBool)), _bool_make)
dict_ = _shim('dict', dict, lambda x: isinstance(x, (dict, SymDict)), SymDict, fromkeys=SymDict.fromkeys)
set_ = _shim('set', set, lambda x: isinstance(x, (set, SymSet)), SymSet)
frozenset_ = _shim('frozenset', frozenset, lambda x: isinstance(x, (frozenset, SymSet)), SymSet)
memoryview_ = _shim('memoryview', memoryview, lambda x: isinstance(x, (memoryview, text.SymView)),
                    lambda x: text.SymView(list(belems(x))) if belems(x) is not None else memoryview(x))

_TYPEMAP = {str: str_, SymStr: str_, bytes: bytes_, SymBytes: bytes_, bytearray: bytearray_,
            SymBytearray: bytearray_, int: int_, SymInt: int_, float: float_, SymFloat: float_, bool: bool_, memoryview: memoryview_, text.SymView: memoryview_,
            SymBool: bool_, dict: dict_, SymDict: dict_, set: set_, SymSet: set_, frozenset: frozenset_}


class _TypeShim(ShimMeta):
    pass


def type_of(*a, **k):
    if len(a) != 1:
        return type(*a, **k)
    x = a[0]
    if isinstance(x, SymNp):
        return f_numpy._TYPES.get(x.dt.type.__name__, x.dt.type)
    t = type(x)
    if isinstance(x, np.generic):
        return f_numpy._TYPES.get(t.__name__, t)
    return _TYPEMAP.get(t, t)


def _mk_type():
    class TypeMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, type) or isinstance(x, f_numpy.NpType)

        def __call__(cls, *a, **k):
            return type_of(*a, **k)

        def __getattr__(cls, n):
            return getattr(type, n)
    return TypeMeta('type', (), {})


type_ = _mk_type()


# ------------------------------------------------------------------ builtins

class SymRange:
    def __init__(self, *a):
        a = [as_int(x) if as_int(x) is not None else x.__index__() for x in a]
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = concretize(a[2]) if len(a) > 2 else 1
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        i = concretize(self.start)
        while bool(i < self.stop) if self.step > 0 else bool(i > self.stop):
            yield i
            i += self.step

    def _r(self):
        return range(concretize(self.start), concretize(self.stop), self.step)

    def __len__(self):
        return len(self._r())

    def __getitem__(self, k):
        return self._r()[k]

    def __reversed__(self):
        return reversed(self._r())

    def __contains__(self, x):
        for i in self:
            if bool(x == i):
                return True
        return False

    def __eq__(self, o):
        return list(self) == list(o)

    __hash__ = None


def _range_make(*a):
    b = []
    for x in a:
        f = getattr(type(x), '__sym_index__', None)
        if f is not None:
            y = f(x)
            if y is None:
                raise TypeError('object cannot be interpreted as an integer')
            x = y
        b.append(x)
    if any(isinstance(as_int(x), SymInt) for x in b):
        return SymRange(*b)
    return range(*b)


range_ = _shim('range', range, lambda x: isinstance(x, (range, SymRange)), _range_make)


def chr_(x):
    f = getattr(type(x), '__sym_index__', None)
    if f is not None:
        x = f(x)
    i = as_int(x)
    if not isinstance(i, SymInt):
        return chr(x)
    if not (i >= 0) or not (i <= 0x10ffff):
        raise ValueError('chr() arg not in range(0x110000)')
    return mkstr([mkint(i.e, 0, min(i.hi, 0x10ffff))])


def ord_(x):
    if isinstance(x, SymStr):
        x._flat()
        if len(x.el) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x.el))
        return x.el[0]
    if isinstance(x, SymBytesBase):
        if len(x.el) != 1:
            raise TypeError('ord() expected a character')
        return x.el[0]
    return ord(x)


def repr_(x):
    return to_str(x, 'repr')


def format_(v, spec=''):
    return text.fmt_value(v, spec)


def hex_(x):
    i = as_int(x)
    if isinstance(i, SymInt):
        return hex(concretize(i))
    return hex(x)


def print_(*args, sep=' ', end='\n', file=None, flush=False):
    s = text.join(sep if sep is not None else ' ', [to_str(a) for a in args])
    s = text.join('', [s, end if end is not None else '\n'])
    if file is not None and file is not _sys.stdout:
        if file is _sys.stderr:
            return
        file.write(s)
        return
    stdout().write(s)


def stdout():
    sc = core.CUR.scope
    if 'stdout' not in sc:
        f = fs.stringio('')
        f.name = '<stdout>'
        sc['stdout'] = f
    return sc['stdout']


def sorted_(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def isinstance_(x, c):
    return isinstance(x, c)


def hash_(x):
    return hash(x)


def attr_name(o, n):
    """the attribute of o that the symbolic name n is, one per path, or None"""
    if '__getattr__' in dir(type(o)):
        return n.realise()
    for k in dir(o):
        if bool(n == k):
            return k
    return None


def getattr_(o, n, *d):
    if isinstance(n, SymStr):
        k = attr_name(o, n)
        if k is None:
            if d:
                return d[0]
            raise AttributeError(n.realise())
        n = k
    return getattr(o, n, *d)


def setattr_(o, n, v):
    if isinstance(n, SymStr):
        n = n.realise()
    return setattr(o, n, v)


def hasattr_(o, n):
    if isinstance(n, SymStr):
        n = attr_name(o, n)
        return n is not None and hasattr(o, n)
    return hasattr(o, n)


def round_(x, n=None):
    return round(x) if n is None else round(x, n)


BUILTINS = dict(str=str_, bytes=bytes_, bytearray=bytearray_, int=int_, float=float_, bool=bool_, dict=dict_, set=set_,
                frozenset=frozenset_, memoryview=memoryview_, type=type_, range=range_, chr=chr_, ord=ord_,
                repr=repr_, ascii=repr_, format=format_, hex=hex_, print=print_, open=fs.open_, getattr=getattr_,
                setattr=setattr_, hasattr=hasattr_)


# ------------------------------------------------------- operator hooks (_s)

_LIFT = {str: lambda x: SymStr([ord(c) for c in x]), bytes: lambda x: SymBytes(list(x)),
         bytearray: lambda x: SymBytearray(list(x))}


def _anysym(a, k):
    for x in a:
        if text.has_sym(x, 2):
            return True
    for x in k.values():
        if text.has_sym(x, 2):
            return True
    return False


def mcall(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == 'join':
            return text.join(obj, list(*a))
        if name == 'format':
            if _anysym(a, k):
                return text.fmt_format(obj, a, k)
            return obj.format(*a, **k)
        if name == 'encode' and not a and not k:
            return obj.encode()
        if _anysym(a, k):
            return getattr(_LIFT[str](obj), name)(*a, **k)
        return getattr(obj, name)(*[realise_deep(x) if isinstance(x, Sym) else x for x in a], **k)
    if t is bytes or t is bytearray:
        if name == 'join':
            return SymBytes(list(obj)).join(list(*a))
        if _anysym(a, k):
            return getattr(_LIFT[t](obj), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict and _anysym(a, k):
        d = SymDict(obj)
        if name in ('get', '__contains__', '__getitem__'):
            return getattr(d, name)(*a, **k)
        raise Unsupported('symbolic key into a native dict')
    if t is list and name in ('index', 'count', 'remove') or t is tuple and name in ('index', 'count'):
        return getattr(obj, name)(*a, **k)
    return getattr(obj, name)(*a, **k)


def getitem(obj, k):
    t = type(obj)
    if t is dict and isinstance(k, (Sym, SymNp)):
        return SymDict(obj)[k]
    if isinstance(k, slice) and t in (list, str, bytes, bytearray, tuple):
        if isinstance(k.start, Sym) or isinstance(k.stop, Sym):
            return obj[text._slice_index(k, len(obj))]
    return obj[k]


def bound(obj, name):
    """method of a text or bytes constant, taken as a value"""
    def f(*a, **k):
        return mcall(obj, name, *a, **k)
    return f


def contains(x, c):
    t = type(c)
    if isinstance(x, (Sym, SymNp)) or text.has_sym(x):
        if t is str:
            return SymStr([ord(ch) for ch in c]).__contains__(x)
        if t is bytes or t is bytearray:
            return SymBytes(list(c)).__contains__(x)
        if t is dict:
            return x in SymDict(c)
        if t in (set, frozenset):
            return x in SymSet(c)
        if t is range:
            return any(bool(x == i) for i in c)
    return x in c


def not_contains(x, c):
    return not contains(x, c)


def fstr(*parts):
    return text.join('', list(parts))


def fval(v, conv, spec):
    if conv in (114, 97):
        v = to_str(v, 'repr')
    elif conv == 115:
        v = to_str(v)
    return text.fmt_value(v, spec)


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        if text.has_sym(b) or isinstance(b, (SymDict,)):
            return text.percent(a, b)
        return a % b
    return a % b


def mkdict(*kv):
    """kv: alternating (key, value) tuples or ('**', mapping) given as 1-tuples"""
    d = SymDict()
    for p in kv:
        if len(p) == 1:
            d.update(p[0])
        else:
            d.t.put(p[0], p[1])
    return d


def mkset(*xs):
    return SymSet(xs)


def enter(name):
    core.CUR_FUNCS.add(name)
    c = core.CUR
    if c is not None:
        c.step()


def loop():
    c = core.CUR
    if c is not None:
        c.step()


AnyException = (Exception, SystemExit, KeyboardInterrupt)
