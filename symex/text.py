"""Symbolic bytes and strings.

SymBytes: concrete length, elements int (0..255) or SymInt.
SymStr:   elements int code point, SymInt code point, or Tok (an opaque piece of
          text that is a function of a symbolic value, e.g. its decimal form).
Anything fully concrete collapses to real bytes / str.
"""
import re as _re
import z3
from . import core
from .core import Sym, SymInt, SymBool, SymFloat, And, Or, Not, as_int, concretize, mkint, bv, Unsupported


# ----------------------------------------------------------------- elements

def byte_of(x):
    if isinstance(x, (int, SymInt)) and not isinstance(x, bool):
        return x
    i = as_int(x)
    if i is None:
        i = getattr(x, '__index__')()
    return i


def int_bytes(x, n):
    """int/SymInt -> n little-endian byte elements (two's complement)"""
    if not isinstance(x, SymInt):
        return list((x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    e = core.resize(x.e, 8 * n)
    return bv_bytes(e)


def bv_bytes(e):
    n = e.size() // 8
    return [core.unsigned(z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))) for i in range(n)]


def bytes_bv(elems):
    """little-endian byte elements -> BV"""
    parts = [core.resize(e.e, 9) if isinstance(e, SymInt) else z3.BitVecVal(e, 9) for e in elems]
    parts = [z3.Extract(7, 0, p) for p in parts]
    if len(parts) == 1:
        return z3.simplify(parts[0])
    return z3.simplify(z3.Concat(*reversed(parts)))


def mkbytes(elems):
    elems = list(elems)
    for e in elems:
        if isinstance(e, SymInt):
            return SymBytes(elems)
    return bytes(elems)


def belems(x):
    """bytes-like -> list of elements, or None"""
    if isinstance(x, SymBytesBase):
        return x.el
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(bytes(x))
    return None


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = x == y
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return And(*cs)


def _slice_index(sl, n):
    def f(v):
        if v is None or isinstance(v, int):
            return v
        i = as_int(v)
        if i is None:
            return v.__index__()
        # clamp before enumerating: everything beyond the end is one case
        if isinstance(i, SymInt):
            if i >= n:
                return n
            if i < -n:
                return -n - 1
            return concretize(i)
        return i
    return slice(f(sl.start), f(sl.stop), f(sl.step))


_WS = (9, 10, 11, 12, 13, 32)


class SeqOps:
    """find/split/strip... shared by bytes and str; subclasses give _mk, _coerce"""
    __slots__ = ()

    def __len__(self):
        return len(self.el)

    def __iter__(self):
        for i in range(len(self.el)):
            yield self[i]

    def _match_at(self, pat, i):
        return seq_eq(self.el[i:i + len(pat)], pat)

    def _range(self, start, end):
        n = len(self.el)
        s = _slice_index(slice(start, end), n)
        a, b, _ = s.indices(n)
        return a, b

    def find(self, sub, start=None, end=None):
        p = self._coerce1(sub)
        a, b = self._range(start, end)
        if isinstance(start, int) and start > len(self.el):
            return -1
        for i in range(a, b - len(p) + 1):
            if bool(self._match_at(p, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        p = self._coerce1(sub)
        a, b = self._range(start, end)
        for i in range(b - len(p), a - 1, -1):
            if bool(self._match_at(p, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        p = self._coerce1(sub)
        a, b = self._range(start, end)
        n, i = 0, a
        if not p:
            return b - a + 1
        while i <= b - len(p):
            if bool(self._match_at(p, i)):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            for p in prefix:
                if self.startswith(p, start, end):
                    return True
            return False
        p = self._coerce(prefix)
        a, b = self._range(start, end)
        if len(p) > b - a:
            return False
        return self._match_at(p, a)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            for p in suffix:
                if self.endswith(p, start, end):
                    return True
            return False
        p = self._coerce(suffix)
        a, b = self._range(start, end)
        if len(p) > b - a:
            return False
        return self._match_at(p, b - len(p))

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            curw = []
            i, n = 0, len(self.el)
            while i < n:
                if bool(self._is_ws(self.el[i])):
                    if curw:
                        out.append(self._mk(curw))
                        curw = []
                else:
                    if not curw and 0 <= maxsplit <= len(out):
                        rest = self._mk(self.el[i:]).rstrip()
                        out.append(rest)
                        return out
                    curw.append(self.el[i])
                i += 1
            if curw:
                out.append(self._mk(curw))
            return out
        p = self._coerce(sep)
        if not p:
            raise ValueError('empty separator')
        last = i = 0
        n = len(self.el)
        while i <= n - len(p):
            if 0 <= maxsplit <= len(out):
                break
            if bool(self._match_at(p, i)):
                out.append(self._mk(self.el[last:i]))
                i += len(p)
                last = i
            else:
                i += 1
        out.append(self._mk(self.el[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit ws')
        p = self._coerce(sep)
        out = []
        end = len(self.el)
        i = end - len(p)
        while i >= 0:
            if maxsplit <= len(out):
                break
            if bool(self._match_at(p, i)):
                out.append(self._mk(self.el[i + len(p):end]))
                end = i
                i -= len(p)
            else:
                i -= 1
        out.append(self._mk(self.el[:end]))
        return out[::-1]

    def partition(self, sep):
        p = self._coerce(sep)
        i = self.find(sep)
        if i < 0:
            return self._mk(self.el), self._mk([]), self._mk([])
        return self._mk(self.el[:i]), self._mk(p), self._mk(self.el[i + len(p):])

    def rpartition(self, sep):
        p = self._coerce(sep)
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self._mk(self.el)
        return self._mk(self.el[:i]), self._mk(p), self._mk(self.el[i + len(p):])

    def replace(self, old, new, count=-1):
        o, w = self._coerce(old), self._coerce(new)
        if not o:
            raise Unsupported('replace empty')
        out, i, n, done = [], 0, len(self.el), 0
        while i < n:
            if i <= n - len(o) and (count < 0 or done < count) and bool(self._match_at(o, i)):
                out.extend(w)
                i += len(o)
                done += 1
            else:
                out.append(self.el[i])
                i += 1
        return self._mk(out)

    def _stripper(self, chars):
        if chars is None:
            return self._is_ws
        cs = self._coerce(chars)
        return lambda e: Or(*[e == c for c in cs])

    def lstrip(self, chars=None):
        f = self._stripper(chars)
        i = 0
        while i < len(self.el) and bool(f(self.el[i])):
            i += 1
        return self._mk(self.el[i:])

    def rstrip(self, chars=None):
        f = self._stripper(chars)
        i = len(self.el)
        while i > 0 and bool(f(self.el[i - 1])):
            i -= 1
        return self._mk(self.el[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self._mk(self.el[len(self._coerce(p)):]) if self.startswith(p) else self._mk(self.el)

    def removesuffix(self, p):
        q = self._coerce(p)
        return self._mk(self.el[:len(self.el) - len(q)]) if q and self.endswith(p) else self._mk(self.el)

    def ljust(self, n, fill=None):
        fill = self._coerce(fill) if fill is not None else [32]
        return self._mk(self.el + fill * max(0, n - len(self.el)))

    def rjust(self, n, fill=None):
        fill = self._coerce(fill) if fill is not None else [32]
        return self._mk(fill * max(0, n - len(self.el)) + self.el)

    def _order(self, o, strict, swap):
        b = self._coerce_opt(o)
        if b is None:
            return NotImplemented
        x, y = (b, self.el) if swap else (self.el, b)
        for p, q in zip(x, y):
            if bool(p == q):
                continue
            return p < q
        return len(x) < len(y) if strict else len(x) <= len(y)

    def __lt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, False, False)

    def __gt__(self, o):
        return self._order(o, True, True)

    def __ge__(self, o):
        return self._order(o, False, True)

    def _all(self, pred):
        if not self.el:
            return False
        for e in self.el:
            if not bool(pred(e)):
                return False
        return True

    @staticmethod
    def _is_ws(e):
        return Or(*[e == c for c in _WS])


# --------------------------------------------------------------------- bytes

class SymBytesBase(SeqOps, Sym):
    __slots__ = ()

    def _mk(self, el):
        return mkbytes(el)

    def _coerce(self, x):
        el = belems(x)
        if el is None:
            raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)
        return el

    def _coerce1(self, x):
        i = as_int(x)
        return [i] if i is not None else self._coerce(x)

    def _coerce_opt(self, x):
        return belems(x)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._mk(self.el[_slice_index(k, len(self.el))])
        return self.el[k.__index__()]

    def __eq__(self, o):
        b = belems(o)
        if b is None:
            return NotImplemented
        return seq_eq(self.el, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __add__(self, o):
        b = belems(o)
        if b is None:
            return NotImplemented
        return self._mk(self.el + b)

    def __radd__(self, o):
        b = belems(o)
        if b is None:
            return NotImplemented
        return mkbytes(b + self.el)

    def __mul__(self, n):
        return self._mk(self.el * n.__index__())
    __rmul__ = __mul__

    def __hash__(self):
        return hash(self.realise())

    def realise(self):
        core.note_realised('bytes')
        return bytes(concretize(e) if isinstance(e, SymInt) else e for e in self.el)

    def __bytes__(self):
        return self.realise()

    def __buffer__(self, flags):
        return memoryview(self.realise())

    def __repr__(self):
        return '<%s %d>' % (type(self).__name__, len(self.el))

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self.el, encoding, errors)

    def join(self, items):
        out = []
        for i, it in enumerate(items):
            if i:
                out.extend(self.el)
            out.extend(self._coerce(it))
        return self._mk(out)

    def hex(self, *a):
        out = []
        for i, e in enumerate(self.el):
            if a and i:
                out.extend(map(ord, a[0]))
            out.extend(hex2(e))
        return mkstr(out)

    def tobytes(self):
        return mkbytes(self.el)

    def toreadonly(self):
        return mkbytes(self.el)

    def release(self):
        pass

    @property
    def nbytes(self):
        return len(self.el)

    def isalnum(self):
        return self._all(is_alnum)

    def isdigit(self):
        return self._all(is_digit)


def hex2(e):
    """two lower-case hex digits of a byte element"""
    def dig(n):
        if not isinstance(n, SymInt):
            return ord('%x' % n)
        return core.ite_int(n < 10, n + 48, n + 87)
    return [dig(e >> 4), dig(e & 15)]


class SymBytes(SymBytesBase):
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el


class SymView(SymBytesBase):
    """memoryview of bytes (a snapshot: writing through it is not supported)"""
    __slots__ = ('el',)
    itemsize = 1
    format = 'B'
    ndim = 1
    readonly = True
    obj = None

    def __init__(self, el):
        self.el = el

    def _mk(self, el):
        return SymView(el)

    def tolist(self):
        return list(self.el)

    def cast(self, fmt, *a):
        if fmt not in ('B', 'c'):
            raise core.Unsupported('memoryview.cast')
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __setitem__(self, k, v):
        raise core.Unsupported('writing through a memoryview')


class SymBytearray(SymBytesBase):
    __slots__ = ('el',)

    def __init__(self, el=()):
        self.el = list(el)

    def _mk(self, el):
        return SymBytearray(el)

    def __iadd__(self, o):
        b = belems(o)
        if b is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.el.extend(b)
        return self

    def extend(self, it):
        b = belems(it)
        if b is None:
            b = []
            for x in it:
                b.append(check_byte(x))
        self.el.extend(b)

    def append(self, x):
        self.el.append(check_byte(x))

    def clear(self):
        self.el.clear()

    def pop(self, i=-1):
        return self.el.pop(i)

    def insert(self, i, x):
        self.el.insert(i, check_byte(x))

    def reverse(self):
        self.el.reverse()

    def copy(self):
        return SymBytearray(self.el)

    def __copy__(self):
        return SymBytearray(self.el)

    def __deepcopy__(self, memo):
        return SymBytearray(self.el)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            b = belems(v)
            if b is None:
                b = [check_byte(x) for x in v]
            self.el[_slice_index(k, len(self.el))] = b
        else:
            self.el[k.__index__()] = check_byte(v)

    def __delitem__(self, k):
        del self.el[_slice_index(k, len(self.el)) if isinstance(k, slice) else k.__index__()]

    __hash__ = None

    def find(self, *a):
        return SymBytes(self.el).find(*a)


def check_byte(x):
    i = as_int(x)
    if i is None:
        i = byte_of(x)
    if not (0 <= i):
        raise ValueError('byte must be in range(0, 256)')
    if not (i <= 255):
        raise ValueError('byte must be in range(0, 256)')
    if isinstance(i, SymInt):
        return mkint(i.e, 0, 255)
    return i


# ----------------------------------------------------------------------- str

class Tok:
    """Opaque text: spec applied to a symbolic value. Same kind+spec and equal
    value give equal text."""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind      # hashable description, e.g. ('d', '02') or ('repr', 'float32')
        self.v = v

    def __eq__(self, o):
        if isinstance(o, Tok):
            if o is self:
                return True
            if o.kind != self.kind:
                return False
            return same_value(self.v, o.v)
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __lt__(self, o):
        raise Unsupported('order of formatted text')

    def __repr__(self):
        return '<Tok %r>' % (self.kind,)


def same_value(a, b):
    """Would formatting a and b give the same text? (values of the same kind)"""
    if isinstance(a, SymFloat) and isinstance(b, SymFloat):
        if a.kind in ('f32', 'f64') and b.kind == a.kind:
            return core.same_bits(a.kind, a.v, b.v)
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and And(*[same_value(x, y) for x, y in zip(a, b)])
    r = a == b
    return False if r is NotImplemented else r


def mkstr(el):
    el = list(el)
    for e in el:
        if not isinstance(e, int):
            return SymStr(el)
    return ''.join(map(chr, el))


def selems(x):
    if isinstance(x, SymStr):
        return x.el
    if isinstance(x, str):
        return [ord(c) for c in x]
    return None


def is_digit(e):
    if isinstance(e, Tok):
        raise Unsupported('isdigit token')
    return And(48 <= e, e <= 57) if isinstance(e, SymInt) else 48 <= e <= 57


def is_alpha(e):
    if isinstance(e, SymInt):
        if e.hi > 127:
            if not (e <= 127):
                return chr(concretize(e)).isalpha()
        return Or(And(65 <= e, e <= 90), And(97 <= e, e <= 122))
    return chr(e).isalpha()


def is_alnum(e):
    return Or(is_digit(e), is_alpha(e))


def expand_dec(v):
    """decimal digits of an int/SymInt as code points (forks on sign and digit count)"""
    if not isinstance(v, SymInt):
        return [ord(c) for c in str(v)]
    if v.lo < 0 and v < 0:
        return [45] + expand_dec(-v)
    k = 1
    while not (v < 10 ** k):
        k += 1
    v = mkint(v.e, max(v.lo, 0), min(v.hi, 10 ** k - 1)) if isinstance(v, SymInt) else v
    if not isinstance(v, SymInt):
        return [ord(c) for c in str(v)]
    return dec_digits(v, k)


def dec_digits(v, k):
    out = []
    for _ in range(k):
        v, r = divmod(v, 10)
        out.append(r + 48)
    return out[::-1]


def expand(el):
    """replace decimal tokens by digits"""
    out = []
    for e in el:
        if isinstance(e, Tok):
            if e.kind == ('d', ''):
                out.extend(expand_dec(e.v))
                continue
            if e.kind[0] == 'd' and isinstance(e.kind[1], str):
                out.extend(fmt_int_expand(e.v, e.kind[1]))
                continue
            if e.kind[0] == 'f' and e.kind[2] in ('str', 'repr') and e.v.kind in ('f32', 'f64'):
                out.extend(nonfinite(e) or [e])
                continue
        out.append(e)
    return out


def nonfinite(t):
    """code points of nan and the infinities (forks), None for the other values"""
    _, typ, mode = t.kind
    x = t.v
    if bool(x.isnan()):
        s = 'nan'
    elif bool(x.isinf()):
        s = 'inf' if bool(x > 0) else '-inf'
    else:
        return None
    return [ord(ch) for ch in (s if typ == 'pyfloat' or mode == 'str' else 'np.%s(%s)' % (typ, s))]


def fmt_int_expand(v, spec):
    import re
    m = re.fullmatch(r'(?:(.)?([<>=^]))?(0)?(\d+)?d?', spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    fill, align, zero, w = m.groups()
    digs = expand_dec(v)
    w = int(w or 0)
    pad = max(0, w - len(digs))
    if zero and not align:
        if digs and digs[0] == 45:
            return [45] + [48] * pad + digs[1:]
        return [48] * pad + digs
    f = [ord(fill or ' ')]
    if align == '<':
        return digs + f * pad
    if align == '^':
        return f * (pad // 2) + digs + f * (pad - pad // 2)
    return f * pad + digs


def str_eq(a, b):
    """text equality of element lists; expands decimal tokens when the shapes differ"""
    ta = any(isinstance(e, Tok) for e in a)
    tb = any(isinstance(e, Tok) for e in b)
    if not ta and not tb:
        return seq_eq(a, b)
    if len(a) == len(b) and all(
            (isinstance(x, Tok) and isinstance(y, Tok) and x.kind == y.kind) or
            (not isinstance(x, Tok) and not isinstance(y, Tok)) for x, y in zip(a, b)):
        return seq_eq(a, b)
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and all(isinstance(e, int) for e in y):
            r = tok_is(x[0], ''.join(map(chr, y)))
            if r is not None:
                return r
    # parts that are the same text on both sides need no expansion
    i, n = 0, min(len(a), len(b))
    while i < n and same_el(a[i], b[i]):
        i += 1
    j = 0
    while j < n - i and same_el(a[-1 - j], b[-1 - j]):
        j += 1
    a2, b2 = expand(a[i:len(a) - j]), expand(b[i:len(b) - j])
    return seq_eq(a2, b2)


def tok_is(t, s):
    """whether a token stands for the given text (None: not decided here)"""
    if t.kind[0] == 'd' and isinstance(t.kind[1], str) and INT_SPEC.fullmatch(t.kind[1]):
        try:
            n = int(s.strip())
        except ValueError:
            m = INT_SPEC.fullmatch(t.kind[1])
            return None if (m.group(1) or ' ') != ' ' else False
        return t.v == n if format(n, t.kind[1]) == s else False
    if t.kind[0] == 'f' and t.kind[2] in ('str', 'repr') and t.v.kind in ('f32', 'f64'):
        _, typ, mode = t.kind
        if not (typ == 'pyfloat' or mode == 'str'):
            if not (s.startswith('np.%s(' % typ) and s.endswith(')')):
                return False
            s = s[len(typ) + 4:-1]
        if s == 'nan':
            return t.v.isnan()
        if s in ('inf', '-inf'):
            return And(t.v.isinf(), t.v > 0 if s == 'inf' else t.v < 0)
        return None if s[-1:].isdigit() or s[-1:] == '.' else False
    return None


INT_SPEC = _re.compile(r'(?:(.)?([<>=^]))?(0)?(\d+)?d?')


def same_el(x, y):
    """identical by construction"""
    if isinstance(x, Tok) or isinstance(y, Tok):
        return isinstance(x, Tok) and isinstance(y, Tok) and x.kind == y.kind and same_value(x.v, y.v) is True
    if isinstance(x, int) or isinstance(y, int):
        return isinstance(x, int) and isinstance(y, int) and x == y
    return (x == y) is True


class SymStr(SeqOps, Sym):
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    def _mk(self, el):
        return mkstr(el)

    def _coerce(self, x):
        el = selems(x)
        if el is None:
            raise TypeError('must be str, not %s' % type(x).__name__)
        return el
    _coerce1 = _coerce

    def _coerce_opt(self, x):
        return selems(x)

    def _flat(self):
        """no tokens: expand decimals so that positions mean something"""
        if any(isinstance(e, Tok) for e in self.el):
            el = expand(self.el)
            if any(isinstance(e, Tok) for e in el):
                raise Unsupported('length of opaque text')
            self.el = el
        return self

    def __len__(self):
        return len(self._flat().el)

    def __getitem__(self, k):
        self._flat()
        if isinstance(k, slice):
            return mkstr(self.el[_slice_index(k, len(self.el))])
        return mkstr([self.el[k.__index__()]])

    def __eq__(self, o):
        b = selems(o)
        if b is None:
            return NotImplemented
        return str_eq(self.el, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __add__(self, o):
        b = selems(o)
        if b is None:
            return NotImplemented
        return mkstr(self.el + b)

    def __radd__(self, o):
        b = selems(o)
        if b is None:
            return NotImplemented
        return mkstr(b + self.el)

    def __mul__(self, n):
        return mkstr(self.el * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(self, args)

    def __bool__(self):
        return len(self.el) > 0      # every token is non-empty

    def __hash__(self):
        return hash(self.realise())

    def realise(self):
        core.note_realised('str')
        out = []
        for e in self.el:
            if isinstance(e, Tok):
                out.append(tok_concrete(e))
            else:
                out.append(chr(concretize(e)))
        return ''.join(out)

    def __str__(self):
        return self.realise()

    def __fspath__(self):
        return self.realise()

    def __format__(self, spec):
        return format(self.realise(), spec)

    def __repr__(self):
        return '<SymStr %d>' % len(self.el)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(expand(self.el), encoding, errors)

    def join(self, items):
        return join(self, items)

    def format(self, *a, **k):
        return fmt_format(self, a, k)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def _case(self, lo, hi, d):
        out = []
        for e in expand(self.el):
            if isinstance(e, SymInt):
                if e.hi > 127 and not (e <= 127):
                    s = chr(concretize(e))
                    out.extend(map(ord, s.lower() if d > 0 else s.upper()))
                    continue
                out.append(core.ite_int(And(lo <= e, e <= hi), e + d, e))
            elif isinstance(e, int):
                s = chr(e)
                out.extend(map(ord, s.lower() if d > 0 else s.upper()))
            else:
                out.append(e)
        return mkstr(out)

    def capitalize(self):
        self._flat()
        h = mkstr(self.el[:1])
        t = mkstr(self.el[1:])
        return h.upper() + t.lower()

    def title(self):
        out, prev = [], False
        for e in self._flat().el:
            one = mkstr([e])
            out.extend(selems(one.lower() if prev else one.title() if isinstance(one, str) else one.upper()))
            prev = bool(is_alpha(e))
        return mkstr(out)

    def swapcase(self):
        out = []
        for e in self._flat().el:
            one = mkstr([e])
            if isinstance(one, str):
                out.extend(map(ord, one.swapcase()))
            else:
                up = bool(And(65 <= e, e <= 90))
                out.extend(selems(one.lower() if up else one.upper()))
        return mkstr(out)

    def isdigit(self):
        self._flat()
        return self._all(is_digit)
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        self._flat()
        return self._all(is_alpha)

    def isalnum(self):
        self._flat()
        return self._all(is_alnum)

    def isspace(self):
        self._flat()
        return self._all(self._is_ws)

    def isascii(self):
        return all(bool(e < 128) for e in expand(self.el))

    def zfill(self, n):
        self._flat()
        return self.rjust(n, '0')

    def splitlines(self, keepends=False):
        out, curl = [], []
        for e in self.el:
            if not isinstance(e, Tok) and bool(Or(e == 10, e == 13)):
                out.append(mkstr(curl + ([e] if keepends else [])))
                curl = []
            else:
                curl.append(e)
        if curl:
            out.append(mkstr(curl))
        return out

    def _ready(self, *pats):
        """make visible what of the tokens a search for the patterns could meet"""
        if any(isinstance(e, Tok) for e in self.el):
            for p in pats:
                self.el = reveal(self.el, p)

    def find(self, sub, start=None, end=None):
        if start is not None or end is not None:
            self._flat()
        else:
            self._ready(self._coerce(sub))
        if not any(isinstance(e, Tok) for e in self.el):
            return SeqOps.find(self, sub, start, end)
        i = SeqOps.find(self, sub, start, end)
        if i > 0 and any(isinstance(e, Tok) for e in self.el[:i]):
            self._flat()
            return SeqOps.find(self, sub, start, end)
        return i

    def __contains__(self, sub):
        self._ready(self._coerce(sub))
        return SeqOps.find(self, sub) >= 0

    def lstrip(self, chars=None):
        self._ready(*[[x] for x in (self._coerce(chars) if chars is not None else [32])])
        return SeqOps.lstrip(self, chars)

    def rstrip(self, chars=None):
        self._ready(*[[x] for x in (self._coerce(chars) if chars is not None else [32])])
        return SeqOps.rstrip(self, chars)

    def count(self, sub, start=None, end=None):
        if start is not None or end is not None:
            self._flat()
        self._ready(self._coerce(sub))
        return SeqOps.count(self, sub, start, end)

    def split(self, sep=None, maxsplit=-1):
        self._ready(self._coerce(sep) if sep is not None else [32])
        return SeqOps.split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        self._ready(self._coerce(sep) if sep is not None else [32])
        return SeqOps.rsplit(self, sep, maxsplit)

    def partition(self, sep):
        p = self._coerce(sep)
        self._ready(p)
        i = SeqOps.find(self, sep)
        if i < 0:
            return self._mk(self.el), self._mk([]), self._mk([])
        return self._mk(self.el[:i]), self._mk(p), self._mk(self.el[i + len(p):])

    def replace(self, old, new, count=-1):
        self._ready(self._coerce(old))
        return SeqOps.replace(self, old, new, count)


DIGITS = frozenset(range(48, 58))
DEC = (DIGITS | {45}, DIGITS | {45}, DIGITS)
FLT = (DIGITS | {ord(x) for x in '.e+-'}, DIGITS | {45}, DIGITS)
FMT = (DIGITS | {ord(x) for x in '.eE+-%, naifNAIF'},) * 3


def meets(pat, chars, first, last):
    """could an occurrence of pat overlap a token made of these characters?"""
    if any(not isinstance(x, int) for x in pat):
        return True
    n = len(pat)
    inside = [x in chars for x in pat]
    if all(inside):
        return True
    for j in range(1, n):
        if (all(inside[:j]) and pat[j - 1] in last) or (all(inside[j:]) and pat[j] in first):
            return True
    return any(pat[i] in first and pat[j] in last and all(inside[i:j + 1]) for i in range(n) for j in range(i, n))


def reveal(el, pat):
    out = []
    for e in el:
        if not isinstance(e, Tok):
            out.append(e)
        elif e.kind == ('d', ''):
            out.extend(expand([e]) if meets(pat, *DEC) else [e])
        elif e.kind[0] == 'd':
            out.extend(expand([e]))
        elif e.kind[0] == 'f':
            x = expand([e])
            for y in x:
                if isinstance(y, Tok):
                    if e.kind[2] not in ('str', 'repr'):
                        bad = meets(pat, *FMT)
                    elif e.kind[1] == 'pyfloat' or e.kind[2] == 'str':
                        bad = meets(pat, *FLT)
                    else:
                        bad = True
                    if bad:
                        raise Unsupported('search in the digits of a number')
            out.extend(x)
        elif any(not isinstance(x, int) or chr(x).isprintable() for x in pat):
            raise Unsupported('search in %s' % e.kind[0])
        else:
            out.append(e)
    return out


def tok_concrete(t):
    v = t.v
    c = v.realise() if isinstance(v, SymFloat) else concretize(v) if isinstance(v, SymInt) else None
    if c is None:
        raise Unsupported('realise token %r' % (t.kind,))
    if t.kind[0] == 'd':
        return format(c, t.kind[1] or 'd')
    if t.kind[0] == 'f':
        import numpy as np
        if t.kind[1] == 'float32':
            return str(np.float32(c)) if t.kind[2] == 'str' else repr(np.float32(c))
        if t.kind[1] == 'float64':
            return str(np.float64(c)) if t.kind[2] == 'str' else repr(np.float64(c))
        return format(c, t.kind[2]) if t.kind[2] not in ('str', 'repr') else repr(c)
    raise Unsupported('realise token %r' % (t.kind,))


def join(sep, items):
    s = selems(sep)
    out = []
    for i, it in enumerate(items):
        if i:
            out.extend(s)
        e = selems(it)
        if e is None:
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(it).__name__))
        out.extend(e)
    return mkstr(out)


# ------------------------------------------------------------- UTF-8 codec

class _Cont:
    pass


def _in(e, lo, hi):
    if not isinstance(e, SymInt):
        return lo <= e <= hi
    if lo == hi:
        return e == lo
    return And(lo <= e, e <= hi)


def decode(el, encoding='utf-8', errors='strict'):
    enc = str(encoding).lower().replace('_', '-')
    if not any(isinstance(e, SymInt) for e in el):
        return bytes(el).decode(encoding, errors)
    if enc in ('latin-1', 'latin1', 'iso-8859-1'):
        return mkstr(el)
    if enc == 'ascii':
        out = []
        for i, e in enumerate(el):
            if bool(e < 128):
                out.append(e)
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(0xfffd)
            else:
                raise UnicodeDecodeError('ascii', b'?' * len(el), i, i + 1, 'ordinal not in range(128)')
        return mkstr(out)
    if enc not in ('utf-8', 'utf8'):
        raise Unsupported('codec ' + enc)
    out = []
    i, n = 0, len(el)

    def bad(i, j, why):
        """el[i:j] is a maximal invalid part"""
        if errors == 'ignore':
            return
        if errors == 'replace':
            out.append(0xfffd)
            return
        if errors == 'backslashreplace':
            for x in el[i:j]:
                out.extend([92, 120] + hex2(x))
            return
        if errors == 'surrogateescape':
            for x in el[i:j]:
                out.append(x + 0xdc00)
            return
        raise UnicodeDecodeError('utf-8', b'?' * n, i, j, why)

    while i < n:
        b = el[i]
        if bool(_in(b, 0, 0x7f)):
            out.append(mkint(b.e, max(b.lo, 0), min(b.hi, 0x7f)) if isinstance(b, SymInt) else b)
            i += 1
            continue
        if bool(_in(b, 0xc2, 0xdf)):
            need, lo2, hi2, base, bits = 1, 0x80, 0xbf, 0xc0, 0x1f
        elif bool(_in(b, 0xe0, 0xef)):
            need, base, bits = 2, 0xe0, 0x0f
            lo2, hi2 = 0x80, 0xbf
            if bool(b == 0xe0):
                lo2 = 0xa0
            elif bool(b == 0xed):
                hi2 = 0x9f
        elif bool(_in(b, 0xf0, 0xf4)):
            need, base, bits = 3, 0xf0, 0x07
            lo2, hi2 = 0x80, 0xbf
            if bool(b == 0xf0):
                lo2 = 0x90
            elif bool(b == 0xf4):
                hi2 = 0x8f
        else:
            bad(i, i + 1, 'invalid start byte')
            i += 1
            continue
        cp = b & bits
        j = i + 1
        ok = True
        for k in range(need):
            if j >= n:
                bad(i, j, 'unexpected end of data')
                ok = False
                break
            c = el[j]
            if not bool(_in(c, lo2 if k == 0 else 0x80, hi2 if k == 0 else 0xbf)):
                bad(i, j, 'invalid continuation byte')
                ok = False
                break
            cp = cp * 64 + (c & 0x3f)
            j += 1
        if ok:
            out.append(cp)
        i = j
    return mkstr(out)


def encode(el, encoding='utf-8', errors='strict'):
    enc = str(encoding).lower().replace('_', '-')
    out = []
    for pos, e in enumerate(el):
        if isinstance(e, Tok):
            raise Unsupported('encode opaque text')
        if not isinstance(e, SymInt):
            out.extend(chr(e).encode(encoding, errors))
            continue
        if enc in ('latin-1', 'latin1', 'iso-8859-1', 'ascii'):
            lim = 127 if enc == 'ascii' else 255
            if bool(e <= lim):
                out.append(mkint(e.e, max(0, e.lo), min(lim, e.hi)))
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(63)
            else:
                raise UnicodeEncodeError(enc, '?' * len(el), pos, pos + 1, 'ordinal not in range')
            continue
        if enc not in ('utf-8', 'utf8'):
            raise Unsupported('codec ' + enc)
        if bool(e < 0x80):
            out.append(mkint(e.e, 0, min(0x7f, e.hi)))
        elif bool(e < 0x800):
            out.append(byte8((e >> 6) + 0xc0))
            out.append(byte8((e & 0x3f) + 0x80))
        elif bool(e < 0x10000):
            if bool(_in(e, 0xd800, 0xdfff)):
                if errors == 'ignore':
                    continue
                raise UnicodeEncodeError('utf-8', '?' * len(el), pos, pos + 1, 'surrogates not allowed')
            out.append(byte8((e >> 12) + 0xe0))
            out.append(byte8(((e >> 6) & 0x3f) + 0x80))
            out.append(byte8((e & 0x3f) + 0x80))
        else:
            out.append(byte8((e >> 18) + 0xf0))
            out.append(byte8(((e >> 12) & 0x3f) + 0x80))
            out.append(byte8(((e >> 6) & 0x3f) + 0x80))
            out.append(byte8((e & 0x3f) + 0x80))
    return mkbytes(out)


def byte8(x):
    if isinstance(x, SymInt):
        return mkint(x.e, max(0, x.lo), min(255, x.hi))
    return x


# --------------------------------------------------------------- formatting

def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in x.values())
    return hasattr(type(x), '__sym_str__')


def to_str(x, mode='str'):
    """str(x) / repr(x) for any value, giving str or SymStr"""
    if isinstance(x, SymStr):
        if mode == 'str':
            return x
        q = [39]
        if all(e.kind == ('d', '') if isinstance(e, Tok) else isinstance(e, int) and 32 <= e < 127 and e not in (39, 92)
               for e in x.el):
            return mkstr(q + x.el + q)
        return mkstr(q + [Tok(('reprstr',), x)] + q)
    if isinstance(x, SymBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, SymInt):
        return SymStr([Tok(('d', ''), x)])
    if isinstance(x, SymFloat):
        return fmt_float(x, 'pyfloat', mode)
    if isinstance(x, SymBytesBase):
        return SymStr([Tok(('bytesrepr', isinstance(x, SymBytearray)), x)])
    f = getattr(type(x), '__sym_str__', None)
    if f is not None:
        return f(x, mode)
    if isinstance(x, (list, tuple)) and has_sym(x):
        inner = join(', ', [to_str(i, 'repr') for i in x])
        if isinstance(x, list):
            return '[' + inner + ']'
        return '(' + inner + (',)' if len(x) == 1 else ')')
    if isinstance(x, dict) and has_sym(x):
        inner = join(', ', [to_str(k, 'repr') + ': ' + to_str(v, 'repr') for k, v in x.items()])
        return '{' + inner + '}'
    return str(x) if mode == 'str' else repr(x)


def fmt_float(x, typ, mode):
    """text of a float: opaque; nan and the infinities are told apart only when compared with letters"""
    if x.kind == 'const':
        return str(x.v)
    return SymStr([Tok(('f', typ, mode), x)])


def fmt_value(v, spec):
    """format(v, spec)"""
    spec_s = spec
    if spec_s == '' or spec_s is None:
        return to_str(v)
    if isinstance(v, SymStr):
        import re
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', spec_s)
        if not m:
            raise Unsupported('str spec ' + spec_s)
        fill, al, w = m.groups()
        w = int(w or 0)
        if not w:
            return v
        if al == '>':
            return v.rjust(w, fill or ' ')
        if al == '^':
            raise Unsupported('center')
        return v.ljust(w, fill or ' ')
    if isinstance(v, SymBool):
        return format(bool(v), spec_s)
    if isinstance(v, SymInt):
        return fmt_int(v, spec_s)
    if isinstance(v, SymFloat):
        return SymStr([Tok(('f', 'pyfloat', spec_s), v)])
    f = getattr(type(v), '__sym_format__', None)
    if f is not None:
        return f(v, spec_s)
    return format(v, spec_s)


def fmt_int(v, spec):
    if not isinstance(v, SymInt):
        return format(v, spec)
    if spec in ('', 'd', ' d'):
        return SymStr([Tok(('d', ''), v)])
    if spec in ('02x', '02X') and v.lo >= 0 and v.hi <= 255:
        return mkstr(hex2(v))
    if spec == 'x' and v.lo >= 0 and v.hi <= 255:
        h = hex2(v)
        return mkstr(h if v >= 16 else h[1:])
    if spec == 'c':
        return mkstr([v])
    if spec[-1] in 'feg%':
        return SymStr([Tok(('f', 'pyfloat', spec), SymFloat.of_int(v))])
    s = spec[:-1] if spec.endswith('d') else spec
    if s == '02' and v.lo >= 0 and v.hi <= 99:
        return mkstr(dec_digits(v, 2))
    if s and all(c in '0123456789<>=^ ' for c in s):
        return SymStr([Tok(('d', s), v)])
    raise Unsupported('int spec ' + spec)


def fmt_format(fmt, args, kw):
    """str.format with possibly symbolic arguments"""
    import string
    if isinstance(fmt, SymStr):
        raise Unsupported('symbolic format string')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if '{' in (spec or ''):
            sub = fmt_format(spec, args[auto + 1:], kw) if '{}' in spec else fmt_format(spec, args, kw)
            spec = sub
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[name]
        if conv in ('r', 'a'):
            v = to_str(v, 'repr')
        elif conv == 's':
            v = to_str(v)
        out.append(fmt_value(v, spec or ''))
    return join('', out)


def percent(fmt, args):
    """'...' % args with possibly symbolic arguments"""
    import re
    if isinstance(fmt, SymStr):
        raise Unsupported('symbolic % format')
    out, pos, ai = [], 0, 0
    seq = args if isinstance(args, tuple) else (args,)
    for m in re.finditer(r'%(\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        _, key, flags, w, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[key]
        else:
            v = seq[ai]
            ai += 1
        if ty == 's' or ty == 'r':
            s = to_str(v, 'str' if ty == 's' else 'repr')
            if w:
                s = s.ljust(int(w)) if '-' in flags else s.rjust(int(w))
            out.append(s)
        elif ty in 'di':
            i = as_int(v)
            if i is None:
                f = getattr(v, '__sym_int__', None)
                i = f() if f else int(v)
            sp = ('0' if '0' in flags else '') + (w or '')
            out.append(fmt_int(i, sp + 'd'))
        elif isinstance(v, Sym) or hasattr(type(v), '__sym_format__'):
            out.append(fmt_value(v, (('0' if '0' in flags else '') + (w or '') + ('.' + prec if prec else '') + ty)))
        else:
            out.append(m.group(0) % (v,) if key is None else m.group(0) % {key: v})
    out.append(fmt[pos:])
    return join('', out)


def parse_int(s, base=10):
    """int(SymStr): plain digits with optional sign; anything else is ValueError"""
    if base == 10 and isinstance(s, SymStr) and len(s.el) == 1 and isinstance(s.el[0], Tok) and s.el[0].kind == ('d', ''):
        return s.el[0].v
    el = expand(s.strip().el if isinstance(s.strip(), SymStr) else selems(s.strip()))
    if base != 10:
        raise Unsupported('int base')
    sign = 1
    if el and bool(Or(el[0] == 45, el[0] == 43)):
        sign = -1 if bool(el[0] == 45) else 1
        el = el[1:]
    if not el:
        raise ValueError('invalid literal for int() with base 10')
    v = 0
    for e in el:
        if not bool(is_digit(e)):
            raise ValueError('invalid literal for int() with base 10')
        if isinstance(e, SymInt):
            e = mkint(e.e, 48, 57)
        v = v * 10 + (e - 48)
    return v * sign
