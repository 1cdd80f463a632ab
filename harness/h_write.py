"""Writing a log back."""
from . import ulog as U
from .h_core import expect_topic

FM = {'inner': [('int16_t', 0, 'a'), ('uint8_t', 1, '_padding0')],
      'alpha': [('uint64_t', 0, 'timestamp'), ('inner', 0, 'in'), ('char', 0, 'ch'), ('bool', 0, 'flag'),
                ('uint8_t', 2, '_padding0')],
      'beta': [('float', 2, 'f'), ('uint64_t', 0, 'timestamp'), ('int8_t', 0, 'b')],
      'all': [('uint64_t', 0, 'timestamp'), ('int8_t', 0, 'a'), ('uint8_t', 0, 'b'), ('int16_t', 0, 'c'),
              ('uint16_t', 0, 'd'), ('int32_t', 0, 'e'), ('uint32_t', 0, 'f'), ('int64_t', 0, 'g'),
              ('uint64_t', 0, 'h'), ('float', 0, 'i'), ('double', 0, 'j'), ('bool', 0, 'k'), ('char', 0, 'l')],
      'unused': [('int32_t', 11, 'x'), ('uint64_t', 0, 'timestamp')]}


def public(c, u):
    """everything a user can read from a log"""
    return {
        'start': u.start_timestamp, 'last': u.last_timestamp, 'info': u.msg_info_dict,
        'multi': u.msg_info_multiple_dict, 'init': u.initial_parameters,
        'float': [k for k, v in u.initial_parameters.items() if isinstance(v, float)],
        'changed to float': [isinstance(x[2], float) for x in u.changed_parameters],
        'changed': [tuple(x) for x in u.changed_parameters],
        'defaults': {b: u.get_default_parameters(b) for b in range(8)},
        'has_defaults': bool(u.has_default_parameters),
        'formats': {k: (f.name, [tuple(x) for x in f.fields]) for k, f in u.message_formats.items()},
        'logs': [(m.log_level, m.timestamp, m.message) for m in u.logged_messages],
        'tagged': {t: [(m.log_level, m.tag, m.timestamp, m.message) for m in ms]
                   for t, ms in u.logged_messages_tagged.items()},
        'drops': [(d.duration, d.timestamp) for d in u.dropouts],
        'data': [(d.name, d.multi_id, d.msg_id, [(f.field_name, f.type_str) for f in d.field_data],
                  [(k, list(v)) for k, v in d.data.items()]) for d in u.data_list],
        'corrupt': bool(u.file_corruption)}


def expect_same(c, a, b, what):
    for k in a:
        c.check_eq(a[k], b[k], '%s: %s' % (what, k))


def write(c, u):
    f = c.memfile()
    u.write_ulog(f)
    return c.filebytes(f)


def sample_of(c, name, i, ts):
    """one encoded message of format name with timestamp ts; booleans are 0 or 1"""
    out = []
    for field, typ in U.strip_padding(U.flatten(FM, name)):
        if field == 'timestamp':
            out.append(c.le(ts, 8))
        elif typ == 'bool':
            out.append(c.le(c.int('%s_%d' % (field, i), 0, 1), 1))
        else:
            out.append(c.bytes('%s_%d' % (field, i), U.TYPES[typ][1]))
    return c.cat(out)


def build(c, kinds, n, formats=('inner', 'alpha', 'beta', 'unused'), topics=('alpha', 'beta', 'alpha'),
          extra_defs=()):
    """a well-formed log whose time stamps do not decrease within one stream"""
    simple = c.params.get('simple')
    latest = c.params.get('latest', 2**64 - 1)
    base = c.params.get('base', 0)

    def time(name):
        """a time in the range to be examined"""
        t = c.int(name, 0, latest)
        return U.unpack('uint64_t', c.le(base + t, 8)) if base else t
    parts = [U.header(c, 5 if simple else c.int('start', 0, 2**64 - 1), c.int('version', 0, 255))]
    if not simple:
        # data may be marked as appended, with no offsets
        parts.append(U.flags(c, c.bytes('compat', 8), c.cat(c.le(c.int('appended', 0, 1), 1), b'\0' * 7)))
    parts += [U.fmt(c, U.fmt_text(FM, k)) for k in formats]
    parts += list(extra_defs)
    ids = [300, 2, 1][:len(topics)]
    multi = [0, 5, 1]
    if not simple:
        multi = [c.int('multi0', 0, 255), c.int('multi1', 0, 255), 1]
        c.assume(multi[0] > 1)
    for t, i, m in zip(topics, ids, multi):
        parts.append(U.sub(c, m, i, t))
    last = {}
    first = sample_of(c, topics[0], 99, base + 7 if simple else time('ts99'))
    parts.append(U.data(c, ids[0], first))
    last['d0'] = U.unpack('uint64_t', first[:8])
    for i in range(n):
        k = c.choice('e%d' % i, kinds)
        if k in ('d0', 'd1', 'd2'):
            ts = time('ts%d' % i)
            which = int(k[1])
            c.assume(ts >= last.get(k, 0))
            parts.append(U.data(c, ids[which], sample_of(c, topics[which], i, ts)))
            last[k] = ts
        elif k == 'log':
            ts = time('ts%d' % i)
            c.assume(ts >= last.get(k, 0))
            last[k] = ts
            parts.append(U.log(c, c.int('lv%d' % i, 0, 255), ts, c.str('s%d' % i, 2).encode()))
        elif k == 'tag':
            ts = time('ts%d' % i)
            tag = c.choice('tag%d' % i, [7, 0x1234])
            c.assume(ts >= last.get(tag, 0))
            last[tag] = ts
            parts.append(U.log_tagged(c, c.int('lv%d' % i, 0, 255), tag, ts, c.str('s%d' % i, 2).encode()))
        elif k == 'drop':
            parts.append(U.dropout(c, c.int('d%d' % i, 0, 65535)))
        elif k == 'param':
            typ = c.choice('t%d' % i, ['int32_t', 'float'])
            v = c.bytes('v%d' % i, 4)
            x = U.unpack(typ, v)
            c.assume(x == x)        # NaN compares unequal to itself
            parts.append(U.param(c, typ + ' P%d' % (i % 2), v))
    return c.cat(parts)


def roundtrip(c, blob):
    u = U.parse(c, blob)
    before = public(c, u)
    appended = u.has_data_appended & 1
    c.check(not before['corrupt'], 'the original is intact')
    out = write(c, u)
    expect_same(c, public(c, u), before, 'writing leaves the log unchanged')
    c.check_eq(u.has_data_appended & 1, appended, 'writing leaves the log marked as appended')
    u2 = U.parse(c, out)
    expect_same(c, public(c, u2), before, 'read back')
    return u, out, u2


def rt_events(c):
    """write then read gives the same log, for any sequence of events"""
    blob = build(c, c.params.get('kinds', ['d0', 'd1', 'd2', 'log', 'tag', 'drop', 'param']), c.params.get('n', 2),
                 topics=c.params.get('topics', ['alpha', 'beta', 'alpha']))
    u, out, u2 = roundtrip(c, blob)
    # a written log never announces appended data
    c.check(u2.has_data_appended & 1 == 0, 'no data is appended in the written log')
    c.check((u == u2) == (u.has_data_appended & 1 == 0), 'the two logs compare equal')
    c.observe('out', out)


def rt_types(c):
    """write then read, a topic with every field type"""
    blob = build(c, ['d0'], 1, formats=('all',), topics=('all',))
    u, out, u2 = roundtrip(c, blob)
    c.observe('out', out)


def rt_long(c):
    """write then read, with many messages of one kind"""
    n = c.params.get('n', 300)
    kind = c.choice('kind', ['log', 'tag', 'tags', 'drop', 'param', 'data', 'info', 'multi', 'format', 'sub', 'default'])
    extra, data = [], []
    some = c.bytes('some', 6)
    for i in range(n):
        ts = 1000 + 10 * i
        x = c.cat(some[i // 50:i // 50 + 1]) if i % 50 == 7 else bytes([i % 100])
        text = b'%d' % i
        if kind == 'log':
            data.append(U.log(c, x[0], ts, text))
        elif kind == 'tag':
            data.append(U.log_tagged(c, x[0], 7, ts, text))
        elif kind == 'tags':
            data.append(U.log_tagged(c, x[0], i * 200, ts, text))
        elif kind == 'drop':
            data.append(U.dropout(c, x[0]))
        elif kind == 'param':
            data.append(U.param(c, 'int32_t P%d' % (i // 2), c.cat(x, b'\0\1\0')))
        elif kind == 'data':
            data.append(U.data(c, 1, c.cat(c.le(ts, 8), x)))
        elif kind == 'info':
            extra.append(U.info(c, 'uint8_t k%d' % i, x))
        elif kind == 'multi':
            extra.append(U.info_multi(c, 1 if i % 150 else 0, 'uint8_t k', x))
        elif kind == 'format':
            extra.append(U.fmt(c, 'f%d:uint64_t timestamp;int8_t[%d] y;' % (i, i + 1)))
        elif kind == 'default':
            extra.append(U.param_default(c, 1 + i % 3, 'int32_t P%d' % i, c.cat(x, b'\0\1\0')))
        else:
            data.append(U.sub(c, i % 256, 1000 + i, 'gamma' if i > 255 else 'beta'))
            data.append(U.data(c, 1000 + i, c.cat(c.le(ts, 8), x)))
    short = 'uint64_t timestamp;uint8_t x;'
    blob = c.cat(U.header(c, 5), U.flags(c), U.fmt(c, 'alpha:' + short), U.fmt(c, 'beta:' + short),
                 U.fmt(c, 'gamma:' + short), extra, U.sub(c, 3, 1, 'alpha'), U.data(c, 1, c.cat(c.le(7, 8), b'\0')), data)
    u, out, u2 = roundtrip(c, blob)
    counts = {'log': len(u2.logged_messages), 'tag': len(u2.logged_messages_tagged.get(7, [])),
              'tags': len(u2.logged_messages_tagged), 'drop': len(u2.dropouts), 'param': len(u2.changed_parameters),
              'info': len(u2.msg_info_dict),
              'multi': sum(len(x) for x in u2.msg_info_multiple_dict.get('k', [])),
              'data': sum(len(d.data['timestamp']) for d in u2.data_list) - 1, 'format': len(u2.message_formats) - 3,
              'sub': len(u2.data_list) - 1,
              'default': len(u2.get_default_parameters(0)) + len(u2.get_default_parameters(1)) - n // 3}
    c.check_eq(counts[kind], n, 'all of them are there')


SPECIAL = {'double': [0.0, -0.0, 0.1 + 0.2, 5e-324, -1.7976931348623157e308, float('inf'), 123456789.12345679],
           'float': [0.0, -0.0, 0.1, 16777217.0, 1e-45, -3.4e38, float('-inf')], 'int64_t': [2**53 + 1, -2**63, 2**63 - 1, 0, -1],
           'uint64_t': [2**53 + 1, 2**64 - 1, 0], 'int32_t': [-2**31, 2**31 - 1, 0, -1], 'uint32_t': [2**32 - 1, 0],
           'int16_t': [-2**15, 2**15 - 1, 0, -1], 'uint16_t': [2**16 - 1, 0], 'int8_t': [-128, 127, 0, -1],
           'uint8_t': [255, 128, 0], 'char': [0, 127, 128, 255], 'bool': [0, 1]}


def rt_exact(c):
    """write then read: special values keep every bit, wherever they are stored, also under one key"""
    typ = c.choice('type', sorted(SPECIAL))
    x = c.choice('value', SPECIAL[typ])
    b = bytes([x]) if typ in ('char', 'bool') else U.pack(typ, x)
    par = [] if typ not in ('float', 'int32_t') else [U.param(c, typ + ' k', b), U.param_default(c, 1, typ + ' k', b)]
    defs = [U.info(c, typ + ' k', b), U.info_multi(c, 0, 'char[2] k', b'ab'), U.info_multi(c, 0, typ + ' m', b),
            U.info_multi(c, 1, typ + ' m', b), U.info(c, 'uint8_t m', b'\x05')] + par
    d = U.data(c, 1, c.cat(c.le(2**53 + 1, 8), b, b, b))
    blob = c.cat(U.header(c, 2**53), U.flags(c), U.fmt(c, 'a:uint64_t timestamp;%s v;%s[2] w;' % (typ, typ)), defs,
                 U.sub(c, 0, 1, 'a'), d, par[:1])
    u, out, u2 = roundtrip(c, blob)
    got = [(k, bytes(p)) for _, k, p in decode(c, out)]
    want = [(k, bytes(p)) for _, k, p in decode(c, blob)]
    c.check_eq(sorted(got), sorted(want), 'messages')


def rt_definitions(c):
    """write then read, any definitions"""
    what = c.choice('what', ['info', 'multi', 'param', 'default'])
    parts = []
    if what == 'info':
        typ = c.choice('type', sorted(U.TYPES) + ['char[3]', 'uint8_t[5]', 'float[2]', 'mystruct'])
        if typ == 'char[3]':
            v = c.str('v', 3, [(1, 127), (0x80, 0x7ff)]).encode()
        else:
            v = c.bytes('v', {'uint8_t[5]': 5, 'float[2]': 8, 'mystruct': 4}.get(typ) or U.TYPES[typ][1])
        parts.append(U.info(c, typ + ' some_key', v))
    elif what == 'multi':
        typ = c.choice('type', ['char[2]', 'uint8_t[2]', 'int16_t'])
        for i in range(3):
            v = c.str('v%d' % i, 2).encode() if typ == 'char[2]' else c.bytes('v%d' % i, 2)
            parts.append(U.info_multi(c, c.int('cont%d' % i, 0, 1), typ + ' ' + c.choice('k%d' % i, ['a', 'b']), v))
    elif what == 'param':
        for i in range(2):
            parts.append(U.param(c, c.choice('t%d' % i, ['int32_t', 'float']) + ' PAR_%d' % i, c.bytes('v%d' % i, 4)))
    else:
        parts.append(U.param_default(c, c.int('bits', 0, 255), 'int32_t PAR_X', c.bytes('v0', 4)))
        parts.append(U.param_default(c, c.int('bits2', 1, 2), 'float PAR_Y', c.bytes('v1', 4)))
    blob = build(c, [], 0, formats=('beta', 'unused'), topics=('beta',), extra_defs=parts)
    u, out, u2 = roundtrip(c, blob)


# --------------------------------------------------- shape of the written file

def decode(c, blob):
    """[(offset, kind, payload)] after the header; the layout must be exact"""
    pos = 16
    out = []
    n = len(blob)
    while pos < n:
        c.check(pos + 3 <= n, 'a message header is complete')
        size = blob[pos] + 256 * blob[pos + 1]
        kind = blob[pos + 2]
        c.check(pos + 3 + size <= n, 'a message lies within the file')
        if not isinstance(size, int):
            size = int(size)
        out.append((pos, kind, blob[pos + 3:pos + 3 + size]))
        pos += 3 + size
    c.check(pos == n, 'the file ends with a message')
    return out


def wellformed(c):
    """the written file, decoded independently"""
    extra = [U.info(c, 'char[2] who', b'me'), U.param(c, 'int32_t PAR', c.bytes('par', 4)),
             U.info_multi(c, 0, 'char[2] mm', b'ab'), U.info_multi(c, 1, 'char[2] mm', b'cd'),
             U.param_default(c, c.int('bits', 1, 3), 'float DEF', c.bytes('def', 4))]
    blob = build(c, c.params.get('kinds', ['d0', 'd1', 'log', 'tag', 'drop', 'param']), c.params.get('n', 2),
                 topics=['alpha', 'beta'], extra_defs=extra)
    u = U.parse(c, blob)
    out = write(c, u)
    c.check_eq(out[:7], U.MAGIC, 'magic')
    c.check_eq(U.unpack('uint64_t', out[8:16]), u.start_timestamp, 'start timestamp in the header')
    msgs = decode(c, out)
    kinds = [chr(k) for _, k, _ in msgs]
    c.check_eq(kinds[0], 'B', 'the flag message comes first')
    c.check_eq(len(msgs[0][2]), 40, 'flag message size')
    c.check_eq(msgs[0][2][:8], b'\0' * 8 if c.params.get('simple') else blob[19:27], 'compatibility flags are kept')
    c.check_eq(msgs[0][2][8:], b'\0' * 32, 'no data is marked as appended')
    first_a = kinds.index('A')
    c.check(all(k in 'BFIMPQ' for k in kinds[:first_a]), 'definitions come before subscriptions')
    c.check(all(k in 'ADLCOP' for k in kinds[first_a:]), 'only data messages follow')
    subs = {}
    for _, k, p in msgs:
        if chr(k) == 'A':
            subs[p[1] + 256 * p[2]] = (p[0], p[3:].decode())
    c.check_eq(len(subs), len(u.data_list), 'one subscription per dataset')
    for d in u.data_list:
        c.check_eq(subs[d.msg_id], (d.multi_id, d.name), 'subscription')
    seen_last_sub = max(i for i, k in enumerate(kinds) if k == 'A')
    now = None
    count = {}
    drops = [d.timestamp for d in u.dropouts]
    changes = [x[0] for x in u.changed_parameters]
    for i, (_, k, p) in enumerate(msgs):
        k = chr(k)
        if k == 'D':
            c.check(i > seen_last_sub, 'data comes after the subscriptions')
            mid = p[0] + 256 * p[1]
            d = [d for d in u.data_list if d.msg_id == mid][0]
            flat = [(f.field_name, f.type_str) for f in d.field_data]
            c.check_eq(len(p) - 2, U.size(flat), 'size of a data message')
            off = 2
            j = count.get(mid, 0)
            for name, typ in flat:
                v = U.unpack(typ, p[off:off + U.TYPES[typ][1]])
                c.check_eq(v, d.data[name][j], 'field value')
                if name == 'timestamp':
                    ts = v
                off += U.TYPES[typ][1]
            count[mid] = j + 1
        elif k == 'L':
            ts = U.unpack('uint64_t', p[1:9])
        elif k == 'C':
            ts = U.unpack('uint64_t', p[3:11])
        elif k == 'O':
            ts = drops.pop(0)
        elif k == 'P' and i > seen_last_sub:
            ts = changes.pop(0)
        else:
            continue
        if now is not None:
            c.check(now <= ts, 'data section is ordered by time')
        now = ts
    c.check_eq((drops, changes), ([], []), 'every dropout and parameter change is written')
    for d in u.data_list:
        c.check_eq(count[d.msg_id], len(d.data['timestamp']), 'every sample is written')
    tagged = list(u.logged_messages_tagged.values())
    if len(tagged) == 2:
        for x in tagged[0]:
            for y in tagged[1]:
                if x.timestamp == y.timestamp:      # these two may change places
                    return
    out2 = write(c, U.parse(c, out))
    c.check_eq(out2, out, 'writing the result again changes nothing')


def block_sizes(c):
    """sections of exactly one or more blocks: nothing is added or lost"""
    n = c.choice('n', [256, 512, 1024, 2048, 4096, 8192, 16384, 65536])
    off = c.choice('off', [0, 1])
    x = c.str('x', 2).encode()
    n -= off
    texts = []
    while n > 40000:
        texts.append(b'a' * (20000 - 12))
        n -= 20000
    texts.append(c.cat(b'z' * (n - 100 - 12 - 2), x))
    texts.append(b'y' * (100 - 12))
    defs = c.flag('defs')
    if defs:
        body = [U.info(c, 'char[%d] k%d' % (len(t), i), b'q' * (len(t) + 12 - 3 - 1 - len('char[%d] k%d' % (len(t), i))))
                for i, t in enumerate(texts)]
    else:
        body = [U.log(c, 0x36, i, t) for i, t in enumerate(texts)]
    for m, t in zip(body, texts):
        c.check_eq(len(m), len(t) + 12, 'harness')
    out = write(c, U.parse(c, c.cat(U.header(c), body)))
    got = [(k, p) for _, k, p in decode(c, out) if k != ord('B')]
    c.check_eq(got, [(k, p) for _, k, p in decode(c, c.cat(U.header(c), body))], 'the messages of the log, no others')
