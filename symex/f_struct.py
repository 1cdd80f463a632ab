"""struct facade: symbolic pack/unpack (standard sizes; native '@' only where it agrees)."""
import struct as _st
import z3
from . import core, text
from .core import Sym, SymInt, SymFloat, SymBool, as_int, mkint
from .text import belems, mkbytes, int_bytes, bytes_bv, bv_bytes

error = _st.error
_INT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
        'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}
_FL = {'f': 'f32', 'd': 'f64'}


def _parse(fmt):
    fmt = fmt.decode() if isinstance(fmt, bytes) else str(fmt)
    order = '@'
    i = 0
    if fmt and fmt[0] in '@=<>!':
        order = fmt[0]
        i = 1
    items = []
    while i < len(fmt):
        if fmt[i].isspace():
            i += 1
            continue
        j = i
        while j < len(fmt) and fmt[j].isdigit():
            j += 1
        n = int(fmt[i:j]) if j > i else 1
        if j >= len(fmt):
            raise error('repeat count given without format specifier')
        c = fmt[j]
        if c not in _INT and c not in _FL and c not in 'c?xs':
            _st.calcsize(fmt)
            raise core.Unsupported('struct code ' + c)
        if c == 's':
            items.append((c, n))
        else:
            items.extend([(c, 1)] * n)
        i = j + 1
    size = _st.calcsize(fmt)
    if order in '@' and size != _st.calcsize('=' + fmt.lstrip('@')):
        raise core.Unsupported('native alignment')
    big = order in '>!'
    return items, size, big


_cache = {}


def _get(fmt):
    if isinstance(fmt, Sym):
        fmt = fmt.realise()
    r = _cache.get(fmt)
    if r is None:
        r = _cache[fmt] = _parse(fmt)
    return r


def _size1(c, n):
    if c in _INT:
        return _INT[c][0]
    if c in _FL:
        return 4 if c == 'f' else 8
    return n


def calcsize(fmt):
    return _get(fmt)[1]


def unpack(fmt, buf):
    items, size, big = _get(fmt)
    el = belems(buf)
    if el is None:
        f = getattr(type(buf), '__sym_bytes__', None)
        if f is None:
            return _st.unpack(fmt, buf)
        el = f(buf)
    if len(el) != size:
        raise error('unpack requires a buffer of %d bytes' % size)
    return _decode(items, el, big)


def unpack_from(fmt, buf, offset=0):
    items, size, big = _get(fmt)
    el = belems(buf)
    offset = core.concretize(as_int(offset))
    if offset < 0:
        offset += len(el)
    if offset < 0 or len(el) - offset < size:
        raise error('unpack_from requires a buffer of at least %d bytes' % (size + offset))
    return _decode(items, el[offset:offset + size], big)


def iter_unpack(fmt, buf):
    items, size, big = _get(fmt)
    el = belems(buf)
    if size == 0 or len(el) % size:
        raise error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    return (_decode(items, el[i:i + size], big) for i in range(0, len(el), size))


def _decode(items, el, big):
    out = []
    p = 0
    for c, n in items:
        k = _size1(c, n)
        part = el[p:p + k]
        p += k
        if c == 'x':
            continue
        if c in 'cs':
            out.append(mkbytes(part))
            continue
        if big:
            part = part[::-1]
        if c == '?':
            out.append(core.Not(part[0] == 0) if isinstance(part[0], SymInt) else bool(part[0]))
            continue
        conc = not any(isinstance(x, SymInt) for x in part)
        if c in _INT:
            if conc:
                out.append(int.from_bytes(bytes(part), 'little', signed=_INT[c][1]))
            elif k == 1 and not _INT[c][1]:
                out.append(part[0])
            else:
                e = bytes_bv(part)
                out.append(core.signed(e) if _INT[c][1] else core.unsigned(e))
        else:
            if conc:
                out.append(_st.unpack('<' + c, bytes(part))[0])
            else:
                out.append(core.mkfloat_bits(_FL[c], bytes_bv(part)))
    return tuple(out)


def to_index(v):
    """the integer struct would take for v, or struct.error"""
    i = as_int(v)
    if i is not None:
        return i
    f = getattr(type(v), '__sym_index__', None)
    if f is not None:
        i = f(v)
        if i is not None:
            return i
        raise error('required argument is not an integer')
    if isinstance(v, Sym):
        raise error('required argument is not an integer')
    try:
        return v.__index__()
    except AttributeError:
        raise error('required argument is not an integer')


def float_bits_of(v, kind):
    """bits (BV or int) that packing v as kind produces"""
    f = getattr(type(v), '__sym_float__', None)
    if f is not None:
        v = f(v)
    if isinstance(v, (SymBool, SymInt)):
        v = SymFloat.of_int(as_int(v))
    if isinstance(v, SymFloat):
        if v.kind == kind:
            return v.v
        if v.kind == 'f32' and kind == 'f64':
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), core._fp('f32', v.v), z3.Float64()))
        v = v.realise()
    if isinstance(v, Sym):
        raise error('required argument is not a float')
    try:
        return int.from_bytes(_st.pack('<f' if kind == 'f32' else '<d', v), 'little')
    except _st.error:
        raise


def pack(fmt, *vals):
    items, size, big = _get(fmt)
    need = sum(1 for c, n in items if c != 'x')
    if need != len(vals):
        raise error('pack expected %d items for packing (got %d)' % (need, len(vals)))
    out = []
    vi = iter(vals)
    for c, n in items:
        if c == 'x':
            out.append(0)
            continue
        v = next(vi)
        if c == 'c':
            b = belems(v)
            if b is None or len(b) != 1:
                raise error('char format requires a bytes object of length 1')
            out.append(b[0])
            continue
        if c == 's':
            b = belems(v)
            if b is None:
                raise error("argument for 's' must be a bytes object")
            out.extend((b + [0] * n)[:n])
            continue
        if c == '?':
            f = getattr(type(v), '__sym_truth__', None)
            t = f(v) if f else v
            if isinstance(t, SymInt):
                t = core.Not(t == 0)
            if isinstance(t, SymBool):
                out.append(t.as_int())
            else:
                out.append(int(bool(t)))
            continue
        if c in _INT:
            k, sg = _INT[c]
            i = to_index(v)
            lo, hi = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if sg else (0, (1 << (8 * k)) - 1)
            if not (lo <= i) or not (i <= hi):
                raise error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            part = int_bytes(i, k)
        else:
            bits = float_bits_of(v, _FL[c])
            k = 4 if c == 'f' else 8
            part = list(bits.to_bytes(k, 'little')) if isinstance(bits, int) else bv_bytes(bits)
        out.extend(part[::-1] if big else part)
    return mkbytes(out)


def pack_into(fmt, buf, offset, *vals):
    b = belems(pack(fmt, *vals))
    offset = core.concretize(as_int(offset))
    buf[offset:offset + len(b)] = mkbytes(b)


class Struct:
    def __init__(self, fmt):
        _get(fmt)
        self.format = fmt
        self.size = calcsize(fmt)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)

    def pack(self, *v):
        return pack(self.format, *v)

    def pack_into(self, b, o, *v):
        return pack_into(self.format, b, o, *v)
