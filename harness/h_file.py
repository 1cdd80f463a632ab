"""Truncated, foreign, damaged, appended and filtered files."""
from . import ulog as U
from .h_core import TOPIC
from .h_write import public

NAMED = {'alpha': [('uint64_t', 0, 'timestamp'), ('int16_t', 0, 'v'), ('uint8_t', 0, '_padding0')],
         'beta': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]}


def base_parts(c, no_nan=False):
    """a small log with one of everything; list of messages after the header"""
    p1, p2 = c.bytes('p1', 4), c.bytes('p2', 4)
    for b in (p1, p2):
        x = U.unpack('float', b)
        if no_nan:
            c.assume(x == x)        # NaN compares unequal to itself
    d = [U.flags(c)] + [U.fmt(c, U.fmt_text(NAMED, k)) for k in NAMED]
    d += [U.info(c, 'char[2] who', c.str('who', 2).encode()), U.info(c, 'uint32_t num', c.bytes('num', 4)),
          U.info_multi(c, 0, 'char[1] mm', b'a'), U.info_multi(c, c.int('cont', 0, 1), 'char[1] mm', b'b'),
          U.param(c, 'int32_t P0', c.bytes('p0', 4)), U.param_default(c, 1, 'float P1', p1)]
    s = [U.sub(c, 0, 1, 'alpha'), U.sub(c, 2, 9, 'beta'),
         U.data(c, 1, c.cat(c.le(c.int('ts0', 0, 2**64 - 1), 8), c.bytes('v0', 2))),
         U.log(c, c.int('lv', 0, 255), c.int('tl', 0, 2**64 - 1), b'hi'),
         U.data(c, 9, c.cat(c.le(c.int('ts1', 0, 2**64 - 1), 8), c.bytes('x1', 1))),
         U.param(c, 'float P0', p2),
         U.dropout(c, c.int('drop', 0, 65535)),
         U.info(c, 'int8_t late', c.bytes('late', 1)),
         U.log_tagged(c, 0x34, c.int('tag', 0, 65535), 77, b'tg'),
         U.data(c, 1, c.cat(c.le(c.int('ts2', 0, 2**64 - 1), 8), c.bytes('v2', 3))),    # with its padding
         U.info_multi(c, 1, 'char[1] mm', b'c')]
    return d, s


def truncate(c):
    """cut the file anywhere: the result is what the complete messages say"""
    d, s = base_parts(c)
    lead = c.params.get('lead')     # how the data section begins
    if lead:
        d, s = d[:4], [U.log(c, c.int('lv2', 0, 255), c.int('tl2', 0, 2**64 - 1), b'first'),
                       U.log_tagged(c, 0x33, 1, 9, b'tagged')][::1 if lead == 'log' else -1] + s[:4]
    parts = [U.header(c, 10)] + d + s
    ends = []
    n = 0
    for p in parts:
        n += len(p)
        ends.append(n)
    lo, hi = c.params.get('range', [0, n])
    if lead:
        lo, hi = ends[len(d)], ends[-1]
    cut = c.choice('cut', list(range(lo, min(hi, n) + 1)))
    blob = c.cat(parts)[:cut]
    core = c.load('pyulog.core')
    if cut < 16:
        try:
            core.ULog(c.memfile(blob))
            c.fail('a file without a complete header is refused')
        except TypeError:
            return
    whole = [p for p, e in zip(parts, ends) if e <= cut]
    u = core.ULog(c.memfile(blob))
    w = core.ULog(c.memfile(c.cat(whole)))
    a, b = public(c, u), public(c, w)
    for k in a:
        c.check_eq(a[k], b[k], 'a truncated log reads as its complete messages: ' + k)
    c.check(not a['corrupt'], 'a cut at the end is not corruption')
    f = core.ULog(c.memfile(c.cat(parts)))
    for ds in u.data_list:
        full = f.get_dataset(ds.name, ds.multi_id)
        for k in ds.data.keys():
            c.check_eq(list(ds.data[k]), list(full.data[k])[:len(ds.data[k])], 'prefix of the full data')
    c.check_eq(a['logs'], [(m.log_level, m.timestamp, m.message) for m in f.logged_messages][:len(a['logs'])],
               'prefix of the full log messages')


KNOWN_DATA = b'IMPQALCDOS'
KNOWN_DEFS = b'IMFPQALCB'


def unknown_message(c):
    """a message of a type not known (yet) is skipped, wherever it appears, and nothing else changes"""
    d, s = base_parts(c)
    n = c.params.get('n') or c.choice('n', [1, 2, 3, 8, 11])
    typ = c.int('type', 1, 255)
    for k in KNOWN_DATA + KNOWN_DEFS:
        c.assume(typ != k)
    body = c.bytes('body', n)
    for i in range(n - 7):
        c.assume(body[i:i + 8] != U.SYNC)
    extra = c.cat(c.le(n, 2), c.le(typ, 1), body)
    where = c.choice('where', list(range(1, len(d) + len(s) + 1)))
    parts = [U.header(c, 10)] + d + s
    u = U.parse(c, c.cat(parts))
    a = public(c, u)
    parts.insert(where + 1, extra)
    b = public(c, U.parse(c, c.cat(parts)))
    for k in a:
        c.check_eq(b[k], a[k], 'an unknown message changes nothing: ' + k)
    c.check(not a['corrupt'], 'not corrupt')


def big_unknown(c):
    """the same with long bodies (the search block size is 512 bytes)"""
    n = c.choice('n', [511, 512, 513, 600, 9999, 10000])
    d, s = base_parts(c)
    typ = c.int('type', 1, 255)
    for k in KNOWN_DATA + KNOWN_DEFS:
        c.assume(typ != k)
    body = c.cat(b'\x5a' * (n - 4), c.bytes('body', 4))
    extra = c.cat(c.le(n, 2), c.le(typ, 1), body)
    where = c.choice('where', [3, len(d) + 2, len(d) + len(s)])
    parts = [U.header(c, 10)] + d + s
    a = public(c, U.parse(c, c.cat(parts)))
    parts.insert(where + 1, extra)
    b = public(c, U.parse(c, c.cat(parts)))
    for k in a:
        c.check_eq(b[k], a[k], 'an unknown message changes nothing: ' + k)


def bad_data(c):
    """data of an unknown id or of a wrong size: dropped, flagged, nothing else affected"""
    d, s = base_parts(c)
    parts = [U.header(c, 10)] + d + s
    where = c.choice('where', list(range(len(d) + 3, len(d) + len(s) + 2)))
    kind = c.choice('kind', ['id', 'size', 'early'])
    if kind == 'early':     # an id that is subscribed later
        mid, n = 77, 10
        parts += [U.sub(c, 1, 77, 'alpha'), U.data(c, 77, c.cat(c.le(5, 8), c.bytes('v77', 2))),
                  U.data(c, 77, c.cat(c.le(9, 8), c.bytes('w77', 2)))]
    a = public(c, U.parse(c, c.cat(parts)))
    if kind == 'early':
        c.check_eq([len(x[4][0][1]) for x in a['data'] if x[2] == 77], [2], 'its later data is read')
    elif kind == 'id':
        mid = c.int('mid', 0, 65535)
        c.assume(c.and_(mid != 1, mid != 9))
        n = c.choice('n', [0, 8, 10])
    else:
        mid = c.choice('mid', [1, 9])
        n = c.choice('n', [0, 1, 8, 12, 20] if mid == 1 else [0, 7, 8, 10])
    parts.insert(where, U.data(c, mid, c.bytes('bad', n)))
    b = public(c, U.parse(c, c.cat(parts)))
    c.check(b['corrupt'], 'the damage is reported')
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'other messages are not affected: ' + k)


def many_bad(c):
    """however many messages cannot be used: the good data behind them is read"""
    d, s = base_parts(c)
    n = c.choice('n', [3, 11, 300])
    at = c.choice('at', [2, 5])
    kind = c.choice('kind', ['ids', 'id', 'size', 'types', 'mixed'])
    bad = []
    for i in range(n):
        k = ['ids', 'size', 'types'][i % 3] if kind == 'mixed' else kind
        if k in ('ids', 'id'):
            bad.append(U.data(c, 100 + i if k == 'ids' else 77, b'\1' * (i % 13)))
        elif k == 'size':
            bad.append(U.data(c, 1, b'\1' * (1 + i % 9)))
        else:
            bad.append(U.msg(c, 'abdefghijkl'[i % 11], b'\1' * (1 + i % 5)))
    b1 = c.bytes('b1', 3)
    bad.append(U.data(c, 1 if kind == 'size' else 99, b1) if kind != 'types' else U.msg(c, 'z', b1))
    a = public(c, U.parse(c, c.cat(U.header(c, 10), d, s)))
    b = public(c, U.parse(c, c.cat(U.header(c, 10), d, s[:at], bad, s[at:])))
    c.check_eq(b['corrupt'], kind != 'types', 'damage is reported')
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'other messages are not affected: ' + k)


def truncate_long(c):
    """a long message at the end of which few or many bytes are missing"""
    d = [U.flags(c), U.fmt(c, U.fmt_text(NAMED, 'alpha')), U.info_multi(c, 0, 'char[1] mm', b'a'), U.param(c, 'int32_t P0', c.bytes('p0', 4))]
    s = [U.sub(c, 0, 1, 'alpha'), U.data(c, 1, c.cat(c.le(20, 8), c.bytes('v0', 2))), U.log(c, 0x33, 21, b'hi'),
         U.dropout(c, 7)]
    size = c.choice('size', [300, 3000, 60000])
    x = c.bytes('x', 2)
    kind = c.choice('kind', ['log', 'tagged', 'info', 'multi', 'data', 'unknown', 'format', 'sub'] if size == 3000 else
                    ['log'] + (['data', 'unknown'] if size == 300 else []))
    fill = b'z' * (size - 2)
    if kind == 'log':
        m = U.log(c, 0x36, 3, c.cat(x, fill))
    elif kind == 'tagged':
        m = U.log_tagged(c, 0x36, 3, 3, c.cat(x, fill))
    elif kind == 'info':
        m = U.info(c, 'uint8_t[%d] big' % size, c.cat(x, fill))
    elif kind == 'multi':
        m = U.info_multi(c, 1, 'uint8_t[%d] mm' % size, c.cat(x, fill))
    elif kind == 'data':
        m = U.data(c, 50, c.cat(x, fill[:(size - 8) // 8 * 8 + 6]))
        d += [U.fmt(c, 'big:uint64_t timestamp;double[%d] x;' % ((size - 8) // 8))]
        s += [U.sub(c, 0, 50, 'big')]
    elif kind == 'format':
        m = U.fmt(c, 'f:' + ''.join(['uint8_t a%d;' % i for i in range(size // 12)]))
    elif kind == 'sub':
        m = U.sub(c, 0, 51, 'z' * size)
    else:
        m = U.msg(c, 'z', c.cat(x, fill))
    defs = kind == 'format' or kind in ('info', 'multi', 'unknown') and c.flag('defs')
    n = c.choice('missing', [k for k in ((1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025) if size < 60000 else (1, 257, 1025, 4097, 32768))
                             if k < len(m) - 3] + [len(m) - 4, len(m) - 3, len(m) - 1])
    whole = c.cat(U.header(c, 10), d, [] if defs else s)
    a = public(c, U.parse(c, whole))
    b = public(c, U.parse(c, c.cat(whole, m[:len(m) - n])))
    for k in a:
        c.check_eq(b[k], a[k], 'a truncated log reads as its complete messages: ' + k)
    c.check(not b['corrupt'], 'a cut at the end is not corruption')


def resync_far(c):
    """damage with the marker at any distance: wherever the blocks of the search end"""
    g = c.choice('block', c.params.get('blocks') or [505, 512, 1013, 1024, 1522, 1536, 2027, 2048, 3563, 3584, 4087, 4096]) + c.choice(
        'off', list(range(-9, 10)))
    x = c.bytes('x', 2)
    c.assume(c.and_(x[0] != 0x2f, x[1] != 0x2f))
    a = U.log(c, c.int('l0', 0, 255), 5, b'before')
    b = [U.log(c, c.int('l%d' % i, 0, 255), i, b'after') for i in (1, 2)]
    blob = c.cat(U.header(c), U.flags(c), a, b'\x02\0\0', b'\xee' * (g - 2), x, U.sync(c), b)
    p = public(c, U.parse(c, c.cat(U.header(c), U.flags(c), a, b)))
    q = public(c, U.parse(c, blob))
    c.check(q['corrupt'], 'the damage is reported')
    for k in p:
        if k != 'corrupt':
            c.check_eq(q[k], p[k], 'messages before the damage and behind the marker are read: ' + k)


def resync(c):
    """after damage, everything behind the next sync marker is recovered"""
    d, s = base_parts(c)
    at = c.choice('at', [2, 5, len(s) - 1])
    head = c.choice('head', ['zero_type', 'zero_size', 'huge'])
    g = c.choice('g', c.params.get('g', [0, 1, 4, 200, 500, 506, 509, 510, 511, 512, 513, 1020, 1024]))
    if head == 'zero_type':
        size = c.choice('size', [1, 2, 513, 9999, 65535])
        start = c.cat(c.le(size, 2), b'\0')
    elif head == 'zero_size':
        size = 0
        t = c.int('t', 1, 255)
        for k in KNOWN_DATA:
            c.assume(t != k)
        start = c.cat(b'\0\0', c.le(t, 1))
    else:
        t = c.int('t', 1, 255)
        for k in KNOWN_DATA:
            c.assume(t != k)
        size = c.choice('size', [10001, 10002, 65535])
        start = c.cat(c.le(size, 2), c.le(t, 1))
    # the message announced by the damage lies within the file
    tail = c.bytes('tail', min(g, 3))
    for i in range(len(tail)):
        c.assume(tail[i] != 0x2f)
    garbage = c.cat(start, b'\xee' * (g - len(tail)), tail)
    after = s[at:]
    filler = [U.msg(c, 'S', U.SYNC)]
    rest = c.cat(after, [U.log(c, 0x36, 5, b'z' * (size // 2))] * 2)
    blob = c.cat(U.header(c, 10), d, s[:at], garbage, filler, rest)
    clean = c.cat(U.header(c, 10), d, s[:at], rest)
    a = public(c, U.parse(c, clean))
    b = public(c, U.parse(c, blob))
    c.check(b['corrupt'], 'the damage is reported')
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'messages before the damage and behind the marker are read: ' + k)


def twice(c):
    """two disturbances in one log: each is handled as if it was the only one"""
    d, s = base_parts(c)
    d += [U.log(c, 0x36, i, b'g' * 1000) for i in range(c.params.get('good', 0))]
    first = c.choice('first', [2, 3, 7])
    second = c.choice('second', [x for x in (3, 6, 8, len(s)) if x >= first])
    kinds = c.params.get('kinds') or ['unknown', 'unknown_sync', 'damage', 'long_damage', 'id', 'sync']
    blob, clean, corrupt = [], [], False
    for i, m in enumerate(s + [None]):
        for k, at in (('a', first), ('b', second)):
            if at != i:
                continue
            kind = c.choice(k, kinds)
            if kind in ('unknown', 'unknown_sync'):
                t = c.int('t' + k, 1, 255)
                for x in KNOWN_DATA:
                    c.assume(t != x)
                body = c.bytes('body' + k, 3 if kind == 'unknown_sync' else c.choice('len' + k, c.params.get('lens', [3])))
                for j in range(len(body) - 7):
                    c.assume(c.not_(body[j:j + 8] == U.SYNC))
                body = c.cat(body, b'\xee' * c.params.get('more', 0))
                if kind == 'unknown_sync':      # a known way to report damage: the marker is inside
                    body = c.cat(body, U.SYNC)
                    for j in range(3):
                        c.assume(c.not_(body[j:j + 8] == U.SYNC))
                    corrupt = True
                blob.append(c.cat(c.le(len(body), 2), c.le(t, 1), body))
            elif kind in ('damage', 'long_damage'):
                g = c.bytes('g' + k, 2)
                c.assume(c.and_(g[0] != 0x2f, g[1] != 0x2f))
                n = 2 if kind == 'damage' else 600
                blob.append(c.cat(b'\x02\0\0', b'\xee' * (n - 2), g, U.sync(c)))
                corrupt = True
            elif kind == 'id':
                mid = c.int('mid' + k, 0, 65535)
                c.assume(c.and_(mid != 1, mid != 9))
                blob.append(U.data(c, mid, c.bytes('bad' + k, 4)))
                corrupt = True
            else:
                blob.append(U.sync(c))
        if m is not None:
            blob.append(m)
            clean.append(m)
    u = U.parse(c, c.cat(U.header(c, 10), d, blob))
    a = public(c, U.parse(c, c.cat(U.header(c, 10), d, clean)))
    b = public(c, u)
    c.check_eq(b['corrupt'], corrupt, 'damage is reported')
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'the rest of the log is read: ' + k)


def sync_in_unknown(c):
    """a size field that swallowed the marker: reading resumes right behind it"""
    d, s = base_parts(c)
    at = c.choice('at', [3, 6])
    typ = c.int('type', 1, 255)
    for k in KNOWN_DATA:
        c.assume(typ != k)
    pre = c.choice('pre', [0, 1, 7, 9])
    body = c.bytes('body', pre)
    rest = c.cat(s[at:])
    mark = U.msg(c, 'S', U.SYNC)
    size = pre + len(mark) + c.choice('size', [0, 1, 2, 3, 10, len(rest) - 1, len(rest)])
    blob = c.cat(U.header(c, 10), d, s[:at], c.le(size, 2), c.le(typ, 1), body, mark, rest)
    clean = c.cat(U.header(c, 10), d, s[:at], rest)
    for i in range(pre):
        c.assume(c.not_(c.cat(body, mark)[i:i + 8] == U.SYNC))
    a = public(c, U.parse(c, clean))
    b = public(c, U.parse(c, blob))
    c.check(b['corrupt'], 'the damage is reported')
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'messages behind the marker are read: ' + k)


def total(c):
    """any bytes behind the header: reading ends, and if it succeeds what it returns is well formed"""
    n = c.params['n']
    body = c.bytes('body', n)
    pre = c.params.get('pre', 'none')
    if pre == 'data':
        head = c.cat(U.header(c, 10), U.fmt(c, U.fmt_text(TOPIC, 't')), U.sub(c, 0, 1, 't'), U.log(c, 0x36, 1, b'x'))
    else:
        head = U.header(c, 10)
    core = c.load('pyulog.core')
    try:
        u = core.ULog(c.memfile(c.cat(head, body)))
    except (ValueError, KeyError, NotImplementedError, TypeError, IndexError) as e:
        c.observe('exc', type(e).__name__)
        return
    except Exception as e:
        if type(e).__name__ == 'error':
            c.observe('exc', 'struct.error')
            return
        raise
    c.check_eq(u.start_timestamp, 10, 'start timestamp')
    for ds in u.data_list:
        for k in ds.data.keys():
            c.check_eq(len(ds.data[k]), len(ds.data['timestamp']), 'columns have equal length')
    if pre == 'data':
        c.check(len(u.logged_messages) >= 1, 'what came before is kept')
        c.check_eq(u.logged_messages[0].message, 'x', 'what came before is kept')


def appended(c):
    """data appended behind a cut-off section is read as if the fragment were not there"""
    n_off = c.params.get('offsets', 2)
    d, s = base_parts(c)
    d = d[1:]
    s += [U.sub(c, 1, 600, 'beta'), U.data(c, 600, c.cat(c.le(c.int('ts3', 0, 2**64 - 1), 8), c.bytes('x3', 1))),
          U.info_multi(c, c.int('cont3', 0, 1), 'uint8_t[2] nn', c.bytes('nn', 2)), U.info_multi(c, 1, 'uint8_t[2] nn', b'zz')]
    groups = {1: [s[:5], s[5:]], 2: [s[:4], s[4:7], s[7:]], 3: [s[:3], s[3:5], s[5:8], s[8:]]}[n_off]
    frag = []
    for i in range(n_off):
        m = U.log(c, 0x36, 3, c.bytes('frag%d' % i, 6))
        frag.append(m[:c.choice('cut%d' % i, c.params.get('cuts', [0, 1, 2, 3, 9, len(m) - 1]))])
    pos = 16 + 43 + sum(len(x) for x in d)
    offs = []
    body = []
    for i, g in enumerate(groups):
        body += g
        pos += sum(len(x) for x in g)
        if i < n_off:
            body.append(frag[i])
            pos += len(frag[i])
            offs.append(pos)
    inc = b'\x01' + b'\0' * 7
    compat = c.bytes('compat', 8)
    blob = c.cat(U.header(c, 10), U.flags(c, compat, inc, offs + [0] * (3 - n_off)), d, body)
    clean = c.cat(U.header(c, 10), U.flags(c, compat, b'\0' * 8), d, s)
    u = U.parse(c, blob)
    w = U.parse(c, clean)
    c.check(u.has_data_appended and not w.has_data_appended, 'the flag is reported')
    a, b = public(c, w), public(c, u)
    for k in a:
        c.check_eq(b[k], a[k], 'appended data is read: ' + k)


def appended_sizes(c):
    """appended data at any distance from the start of the file"""
    a = U.log(c, c.int('lv', 0, 255), 5, b'a' * c.choice('n', [0, 1, 100, 131, 40000]))
    many = c.choice('many', [1, 2])
    b, e = U.log(c, 0x31, c.int('t', 0, 2**64 - 1), c.str('s', 2).encode()), U.log(c, 0x32, 9, b'end')
    frag = U.log(c, 0x33, 1, b'fragment')[:c.choice('cut', [0, 5, 19])]
    off = 16 + 43 + len(a) * many + len(frag)
    u = U.parse(c, c.cat(U.header(c), U.flags(c, b'\0' * 8, b'\x01' + b'\0' * 7, [off, 0, 0]), [a] * many, frag, b, e))
    w = public(c, U.parse(c, c.cat(U.header(c), U.flags(c), [a] * many, b, e)))
    b = public(c, u)
    for k in w:
        c.check_eq(b[k], w[k], 'appended data is read: ' + k)
    c.check_eq(len(u.logged_messages), many + 2, 'number of messages')


def appended_resync(c):
    """damage followed by a marker inside the first section does not shift the end of that section"""
    d, s = base_parts(c)
    d = d[1:]
    first, second = s[:4], s[4:]
    g = c.choice('g', [3, 20, 300])
    garbage = c.cat(b'\0\0\0', b'\xee' * g, U.msg(c, 'S', U.SYNC))
    m = U.log(c, 0x36, 3, c.bytes('frag', 6))
    frag = m[:c.choice('cut', [0, 3, len(m) - 1])]
    part = c.cat(first[:3], garbage, first[3:])
    off = 16 + 43 + sum(len(x) for x in d) + len(part) + len(frag)
    inc = b'\x01' + b'\0' * 7
    blob = c.cat(U.header(c, 10), U.flags(c, b'\0' * 8, inc, [off, 0, 0]), d, part, frag, second)
    a = public(c, U.parse(c, c.cat(U.header(c, 10), U.flags(c), d, s)))
    b = public(c, U.parse(c, blob))
    for k in a:
        if k != 'corrupt':
            c.check_eq(b[k], a[k], 'both sections are read: ' + k)
    c.check(b['corrupt'], 'the damage is reported')


def name_filter(c):
    """reading only some topics: those are complete, the rest of the log is the same"""
    d, s = base_parts(c)
    # a topic that shares a prefix, and a second instance
    fm = {'alph': [('uint64_t', 0, 'timestamp')]}
    d.append(U.fmt(c, U.fmt_text(fm, 'alph')))
    s = s[:3] + [U.sub(c, 0, 77, 'alph'), U.sub(c, 1, 400, 'alpha'),
                 U.data(c, 400, c.cat(c.le(c.int('ts7', 0, 2**64 - 1), 8), c.bytes('v7', 2))),
                 U.data(c, 77, c.le(c.int('ts8', 0, 2**64 - 1), 8))] + s[3:]
    blob = c.cat(U.header(c, 10), d, s)
    names = c.choice('names', [None, [], ['alpha'], ['beta'], ['alph'], ['beta', 'alpha'], ['nosuch'], ['alpha', 'x'],
                               ['lpha'], ['alpha', 'alph', 'beta']])
    a = public(c, U.parse(c, blob))
    u = U.parse(c, blob, message_name_filter_list=names)
    b = public(c, u)
    want = [x for x in a['data'] if names is None or x[0] in names]
    c.check_eq(b['data'], want, 'exactly the named topics, unchanged')
    last = 10
    for x in want:
        for k, col in x[4]:
            if k == 'timestamp':
                for t in col:
                    if t > last:
                        last = t
    c.check_eq(b['last'], last, 'last timestamp of what was read')
    for k in a:
        if k == 'drops':
            c.check_eq([x[0] for x in b[k]], [x[0] for x in a[k]], 'filtering does not affect ' + k)
        elif k == 'changed':
            c.check_eq([x[1:] for x in b[k]], [x[1:] for x in a[k]], 'filtering does not affect ' + k)
        elif k not in ('data', 'last'):
            c.check_eq(b[k], a[k], 'filtering does not affect ' + k)


def sources(c):
    """a path and an open file give the same log; header-only gives its definitions"""
    d, s = base_parts(c, no_nan=True)
    d.append(U.param_default(c, c.choice('dt', [1, 2, 64, 128, 255]), 'int32_t P0', c.bytes('d0', 4)))
    head = c.cat(U.header(c, 10), d)
    blob = c.cat(head, s)
    p = c.put('log.ulg', blob)
    core = c.load('pyulog.core')
    u = core.ULog(c.memfile(blob))
    v = core.ULog(p)
    a = public(c, u)
    b = public(c, v)
    for k in a:
        c.check_eq(b[k], a[k], 'path and file object: ' + k)
    c.check(u == v, 'equal logs')
    c.check_eq(c.get(p), blob, 'the file is not modified')
    h = core.ULog(p if c.flag('by_path') else c.memfile(blob), parse_header_only=True)
    x, y = public(c, h), public(c, U.parse(c, head))
    for k in x:
        c.check_eq(x[k], y[k], 'header only: ' + k)
    for k in ('start', 'init', 'formats', 'defaults', 'has_defaults'):
        c.check_eq(x[k], a[k], 'header-only definitions equal those of the full log: ' + k)
    # a log with appended data
    blob = c.cat(U.header(c, 10), U.flags(c, c.bytes('compat', 8), b'\x01' + b'\0' * 7, [len(blob), 0, 0]), d[1:], s)
    h, u = core.ULog(c.memfile(blob), parse_header_only=True), core.ULog(c.memfile(blob))
    c.check_eq(h.has_data_appended, u.has_data_appended, 'header only: has_data_appended')
    c.check_eq(vars(h).get('_appended_offsets'), vars(u).get('_appended_offsets'), 'header only: offsets')


def strict_strings(c):
    """invalid UTF-8: ignored by default, an error when asked for, and the choice belongs to each call"""
    n = c.params.get('n', 2)
    b = c.bytes('b', n)
    blob = c.cat(U.header(c, 10), U.log(c, 0x36, 1, b))
    bad = False
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        bad = True
    for strict in (False, True) if c.flag('order') else (True, False):
        try:
            u = U.parse(c, blob, disable_str_exceptions=not strict)
            ok = True
        except UnicodeDecodeError:
            ok = False
        c.check(ok == (not strict or not bad), 'an error exactly when asked for and the text is invalid')
        if ok:
            c.check_eq(u.logged_messages[0].message, b.decode('utf-8', 'ignore'), 'text')
