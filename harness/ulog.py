"""An independent ULog encoder/decoder for the harnesses (from the format specification).

Every function takes the harness context c first; values may be symbolic.
"""
import struct

MAGIC = b'ULog\x01\x125'
SYNC = b'\x2f\x73\x13\x20\x25\x0c\xbb\x12'

# type -> (struct code, size)
TYPES = {'int8_t': ('b', 1), 'uint8_t': ('B', 1), 'int16_t': ('h', 2), 'uint16_t': ('H', 2),
         'int32_t': ('i', 4), 'uint32_t': ('I', 4), 'int64_t': ('q', 8), 'uint64_t': ('Q', 8),
         'float': ('f', 4), 'double': ('d', 8), 'bool': ('b', 1), 'char': ('b', 1)}


def header(c, ts=0, version=1):
    return c.cat(MAGIC, c.le(version, 1), c.le(ts, 8))


def msg(c, kind, payload):
    return c.cat(c.le(len(payload), 2), kind.encode(), payload)


def flags(c, compat=None, incompat=None, offsets=(0, 0, 0)):
    compat = compat if compat is not None else b'\0' * 8
    incompat = incompat if incompat is not None else b'\0' * 8
    return msg(c, 'B', c.cat(compat, incompat, [c.le(o, 8) for o in offsets]))


def fmt(c, text):
    return msg(c, 'F', c.cat(text.encode()))


def key(c, k):
    b = k.encode()
    return c.cat(c.le(len(b), 1), b)


def info(c, k, value):
    return msg(c, 'I', c.cat(key(c, k), value))


def info_multi(c, cont, k, value):
    return msg(c, 'M', c.cat(c.le(cont, 1), key(c, k), value))


def param(c, k, value):
    return msg(c, 'P', c.cat(key(c, k), value))


def param_default(c, types, k, value):
    return msg(c, 'Q', c.cat(c.le(types, 1), key(c, k), value))


def sub(c, multi, mid, name):
    return msg(c, 'A', c.cat(c.le(multi, 1), c.le(mid, 2), name.encode()))


def data(c, mid, payload):
    return msg(c, 'D', c.cat(c.le(mid, 2), payload))


def log(c, level, ts, text):
    return msg(c, 'L', c.cat(c.le(level, 1), c.le(ts, 8), text))


def log_tagged(c, level, tag, ts, text):
    return msg(c, 'C', c.cat(c.le(level, 1), c.le(tag, 2), c.le(ts, 8), text))


def dropout(c, ms):
    return msg(c, 'O', c.le(ms, 2))


def sync(c):
    return msg(c, 'S', SYNC)


def parse(c, blob, **kw):
    """ULog object from a byte string"""
    core = c.load('pyulog.core')
    return core.ULog(c.memfile(blob), **kw)


def unpack(typ, b):
    """the value of one little-endian field"""
    code, size = TYPES[typ]
    return struct.unpack('<' + code, b)[0]


def pack(typ, v):
    return struct.pack('<' + TYPES[typ][0], v)


def flatten(formats, name, prefix=''):
    """[(flat name, base type)] for a format: formats = {name: [(type, n or 0, field)]}"""
    out = []
    for typ, n, field in formats[name]:
        for i in (range(n) if n else [None]):
            full = prefix + field + ('' if i is None else '[%d]' % i)
            if typ in TYPES:
                out.append((full, typ))
            else:
                out += flatten(formats, typ, full + '.')
    return out


def fmt_text(formats, name):
    return name + ':' + ''.join(
        '%s%s %s;' % (t, '[%d]' % n if n else '', f) for t, n, f in formats[name])


def strip_padding(flat):
    """trailing padding is not part of a message"""
    out = list(flat)
    while out and out[-1][0].startswith('_padding'):
        out.pop()
    return out


def size(flat):
    return sum(TYPES[t][1] for _, t in flat)


# log file names and what the files derived from them begin with
NAMES = ['g.ulg', 'G.ULG', 'g.Ulg', 'g.bin', 'g.ulg.ulg', 'g.ulg.bak', 'g.ulgx', 'a.b.ulg', 'ulg']


def stem(name):
    return name[:-4] if name.lower().endswith('.ulg') else name
