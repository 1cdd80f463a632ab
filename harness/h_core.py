"""Reading: topic data, definitions, events."""
from . import ulog as U


def expect_topic(c, ds, flat, payloads, label):
    """dataset ds holds exactly the decoded payloads"""
    c.check_eq([f.field_name for f in ds.field_data], [n for n, _ in flat], label + ': field names')
    c.check_eq([f.type_str for f in ds.field_data], [t for _, t in flat], label + ': field types')
    c.check_eq(list(ds.data.keys()), [n for n, _ in flat], label + ': columns')
    off = 0
    for name, typ in flat:
        n = U.TYPES[typ][1]
        col = ds.data[name]
        c.check_eq(len(col), len(payloads), label + ': number of samples of ' + name)
        for i, p in enumerate(payloads):
            c.check_eq(col[i], U.unpack(typ, p[off:off + n]), '%s: value of %s' % (label, name))
        off += n


def topic_types(c):
    """every base type (scalar or array) decodes to the encoded value"""
    typ = c.choice('type', sorted(U.TYPES))
    arr = c.choice('array', [0, 1, 2])
    fm = {'t': [('uint64_t', 0, 'timestamp'), (typ, arr, 'x'), ('uint8_t', 0, 'z')]}
    flat = U.flatten(fm, 't')
    n = U.size(flat)
    ps = [c.bytes('p%d' % i, n) for i in range(2)]
    blob = c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 't')), U.sub(c, 0, 7, 't'), [U.data(c, 7, p) for p in ps])
    u = U.parse(c, blob)
    c.check_eq([(d.name, d.multi_id, d.msg_id) for d in u.data_list], [('t', 0, 7)], 'datasets')
    expect_topic(c, u.data_list[0], flat, ps, 'topic')
    c.check(not u.file_corruption, 'a well-formed log is not flagged corrupt')
    for name, _ in flat:
        c.observe(name, u.data_list[0].data[name])


def topic_twins(c):
    """topics whose fields have the same names but other types, in one log and in one that is read before"""
    a, b = c.choice('a', TWINS), c.choice('b', TWINS)
    names = ['t', c.choice('other', ['s', 'T'])]
    n = c.params.get('n', 1)
    logs = []
    for k, (x, y) in enumerate([(a, b), (b, a)]):
        fm = {names[0]: [('uint64_t', 0, 'timestamp'), (x[0], x[1], 'v'), ('uint8_t', 0, 'z')],
              names[1]: [('uint64_t', 0, 'timestamp'), (y[0], y[1], 'v'), ('uint8_t', 0, 'z')]}
        flats = [U.flatten(fm, m) for m in names]
        ps = [[c.cat(c.le(9 - 3 * j + i, 8), c.bytes('p%d_%d_%d' % (k, j, i), U.size(f) - 8)) for i in range(n)] for j, f in enumerate(flats)]
        logs.append((flats, ps, U.parse(c, c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, m)) for m in names],
                                                 U.sub(c, 0, 1, names[0]), U.sub(c, 0, 2, names[1]),
                                                 [U.data(c, j + 1, p) for j in (1, 0) for p in ps[j]]))))
    for flats, ps, u in logs:
        c.check_eq(sorted([(d.name, d.multi_id) for d in u.data_list]), sorted([(m, 0) for m in names]), 'datasets')
        for j in range(2):
            expect_topic(c, u.get_dataset(names[j]), flats[j], ps[j], 'topic ' + names[j])


TWINS = [('int8_t', 0), ('uint8_t', 0), ('float', 0), ('int32_t', 0), ('double', 0), ('uint16_t', 2), ('char', 2)]


def topic_compose(c):
    """any sequence of field types: offsets and columns"""
    fm = {'in': [('uint16_t', 0, 'a'), ('int8_t', 2, 'b')], 't': [('uint64_t', 0, 'timestamp')]}
    opts = c.params.get('opts') or [['uint8_t', 0], ['int16_t', 2], ['uint32_t', 0], ['float', 0], ['int64_t', 0],
                                    ['double', 0], ['char', 3], ['bool', 0], ['in', 0], ['in', 2]]
    for i in range(c.params.get('n', 2)):
        typ, arr = c.choice('f%d' % i, opts)
        fm['t'].append((typ, arr, 'f%d' % i))
    tpos = c.choice('tpos', [0, 1])
    if tpos:
        fm['t'] = fm['t'][1:2] + fm['t'][:1] + fm['t'][2:]
    flat = U.flatten(fm, 't')
    p = c.bytes('p', U.size(flat))
    order = ['in', 't'] if c.flag('inner_first') else ['t', 'in']
    blob = c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in order], U.sub(c, 3, 258, 't'), U.data(c, 258, p))
    u = U.parse(c, blob)
    c.check_eq([(d.name, d.multi_id, d.msg_id) for d in u.data_list], [('t', 3, 258)], 'datasets')
    expect_topic(c, u.data_list[0], flat, [p], 'topic')
    off = 0
    for name, typ in flat:
        if name == 'timestamp':
            ts = U.unpack('uint64_t', p[off:off + 8])
            c.check_eq(u.last_timestamp, ts, 'last timestamp')
            c.check_eq(u.data_list[0].timestamp_idx, [n for n, _ in flat].index('timestamp'), 'timestamp index')
        off += U.TYPES[typ][1]
    c.observe('data', u.data_list[0].data)


def topic_nested(c):
    """nested types to depth three, arrays of them, long arrays, padding inside and at the end"""
    fm = {'c3': [('int8_t', 0, 'q'), ('uint8_t', 1, '_padding0')],
          'b2': [('c3', 2, 'c'), ('uint16_t', 0, 'r'), ('c3', 0, 'one')],
          't': [('uint64_t', 0, 'timestamp'), ('uint16_t', 0, '_padding0'), ('b2', 0, 'b'), ('b2', 2, 'bb'),
                ('int16_t', 12, 'arr'), ('float', 0, 'last'), ('uint8_t', 3, '_padding1'), ('uint8_t', 0, '_padding2')]}
    flat = U.flatten(fm, 't')
    used = U.strip_padding(flat)
    c.check_eq(used[-1][0], 'last', 'harness')
    full, short = U.size(flat), U.size(used)
    ps = []
    msgs = []
    for i in range(2):
        n = c.choice('len%d' % i, [full, full - 1, short])
        p = c.bytes('p%d' % i, n)
        ps.append(p[:short])
        msgs.append(U.data(c, 0xfffe, p))
    blob = c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in ('t', 'c3', 'b2')], U.sub(c, 255, 0xfffe, 't'),
                 msgs)
    u = U.parse(c, blob)
    c.check_eq([(d.name, d.multi_id, d.msg_id) for d in u.data_list], [('t', 255, 0xfffe)], 'datasets')
    expect_topic(c, u.data_list[0], used, ps, 'topic')
    c.check(not u.file_corruption, 'padding is not corruption')


def topic_arrays(c):
    """arrays of any length, of base types and of nested types"""
    n = c.choice('n', c.params.get('sizes', [1, 9, 10, 11, 99, 100, 101, 255, 256, 1000]))
    typ = c.choice('type', ['uint8_t', 'int16_t', 'double', 'in'])
    fm = {'in': [('int8_t', 0, 'q')],
          't': [('uint64_t', 0, 'timestamp'), ('uint16_t', 0, 'a'), (typ, n, 'x'), ('int32_t', 0, 'z')]}
    flat = U.flatten(fm, 't')
    total = U.size(flat)
    p = c.cat(c.bytes('head', 10), bytes(i % 251 for i in range(total - 15)), c.bytes('tail', 5))
    blob = c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in ('t', 'in')], U.sub(c, 0, 7, 't'),
                 U.data(c, 7, p))
    u = U.parse(c, blob)
    ds = u.data_list[0]
    c.check_eq([(f.field_name, f.type_str) for f in ds.field_data], flat, 'fields')
    c.check_eq(list(ds.data.keys()), [f for f, _ in flat], 'columns')
    c.check_eq([len(v) for v in ds.data.values()], [1] * len(flat), 'number of samples')
    off = 0
    for i, (name, t) in enumerate(flat):
        if i < 5 or i > len(flat) - 5 or i % 50 == 0:
            c.check_eq(ds.data[name][0], U.unpack(t, p[off:off + U.TYPES[t][1]]), 'value of an element')
        off += U.TYPES[t][1]
    c.check(not u.file_corruption, 'intact')


def topic_order(c):
    """datasets come ordered by name, then by instance number"""
    names = c.choice('names', [['a', 'aB', 'a_'], ['b', 'a', 'ab'], ['x1', 'x', 'x10']])
    multi = [c.choice('m0', [0, 2, 10]), c.choice('m1', [9, 11, 100, 255])]
    subs = [(names[0], multi[0]), (names[1], 0), (names[0], multi[1]), (names[2], 1), (names[0], 1)]
    fm = {'x': [('uint64_t', 0, 'timestamp')]}
    text = U.fmt_text(fm, 'x')[1:]
    ids = [9, 3, 300, 4, 1]
    ts = [c.int('ts%d' % i, 0, 2**64 - 1) for i in range(5)]
    blob = c.cat(U.header(c), [U.fmt(c, n + text) for n in names],
                 [U.sub(c, m, i, n) for (n, m), i in zip(subs, ids)], [U.data(c, i, c.le(t, 8)) for i, t in zip(ids, ts)])
    u = U.parse(c, blob)
    got = [(d.name, d.multi_id, d.msg_id, list(d.data['timestamp'])) for d in u.data_list]
    rows = [(n, m, i, [t]) for (n, m), i, t in zip(subs, ids, ts)]
    want = []
    for n in sorted(names):
        for m in range(256):
            want += [r for r in rows if r[:2] == (n, m)]
    c.check_eq(got, want, 'order of the datasets')


def topic_names(c):
    """fields of any name at any place: columns, and the times taken from the field called timestamp alone"""
    n = c.choice('len', c.params.get('lens', [9, 12]))
    name = c.str('name', n, [(0x61, 0x7a), (0x5f, 0x5f), (0x30, 0x30)])
    typ = c.choice('type', ['uint64_t', 'uint8_t', 'char'])
    kind = c.choice('kind', ['first', 'middle', 'last', 'inner_first', 'inner_last', 'array_last'])
    c.assume(name != 'timestamp')
    if kind in ('last', 'array_last', 'inner_last'):
        c.assume(not name.startswith('_padding'))
    inner = [('uint64_t', 'timestamp'), (typ, name)]
    fm = {'first': [(typ, name), ('uint64_t', 'timestamp'), ('uint8_t', 'v')],
          'middle': [('uint8_t', 'v'), (typ, name), ('uint64_t', 'timestamp'), ('uint8_t', 'w')],
          'last': [('uint64_t', 'timestamp'), ('uint8_t', 'v'), (typ, name)],
          'array_last': [('uint64_t', 'timestamp'), ('uint8_t', 'v'), (typ + '[2]', name)],
          'inner_first': [('in', 'sub'), ('uint64_t', 'timestamp'), ('uint8_t', 'v')],
          'inner_last': [('uint64_t', 'timestamp'), ('uint8_t', 'v'), ('in', 'sub')]}[kind]
    flat = []
    for t, f in fm:
        if t == 'in':
            flat += [('sub.timestamp', 'uint64_t'), ('sub.' + name, typ)]
        elif t == typ + '[2]':
            flat += [(f + '[0]', typ), (f + '[1]', typ)]
        else:
            flat.append((f, t))

    def text(kind, fields):
        return U.msg(c, 'F', c.cat(kind.encode(), b':', [c.cat((t + ' ').encode(), f.encode(), b';')
                                                         for t, f in fields]))
    ps = [c.bytes('p%d' % i, U.size(flat)) for i in range(2)]
    start = c.int('start', 0, 2**64 - 1)
    d = c.int('drop', 0, 65535)
    blob = c.cat(U.header(c, start), text('in', inner), text('t', fm), U.sub(c, 0, 7, 't'),
                 [U.data(c, 7, p) for p in ps], U.dropout(c, d), U.param(c, 'int32_t P', c.le(3, 4)))
    u = U.parse(c, blob)
    c.check_eq([(x.name, x.multi_id, x.msg_id) for x in u.data_list], [('t', 0, 7)], 'datasets')
    expect_topic(c, u.data_list[0], flat, ps, 'topic')
    off, index = 0, 0
    for f, t in flat:
        if f == 'timestamp':
            break
        off += U.TYPES[t][1]
        index += 1
    last = start
    for p in ps:
        ts = U.unpack('uint64_t', p[off:off + 8])
        if ts > last:
            last = ts
    c.check_eq(u.data_list[0].timestamp_idx, index, 'timestamp index')
    c.check_eq(u.last_timestamp, last, 'last timestamp')
    c.check_eq([(x.duration, x.timestamp) for x in u.dropouts], [(d, last)], 'time of the dropout')
    c.check_eq([tuple(x) for x in u.changed_parameters], [(last, 'P', 3)], 'time of the parameter change')
    c.check(not u.file_corruption, 'not corrupt')


def topic_interleave(c):
    """messages of several instances and topics, interleaved in any order, go to the right dataset in order"""
    names = ['beta', 'alpha', 'beta']
    fm = {'alpha': [('uint64_t', 0, 'timestamp'), ('int16_t', 0, 'v')],
          'beta': [('uint64_t', 0, 'timestamp'), ('float', 0, 'x')],
          'gamma': [('uint64_t', 0, 'timestamp')]}
    ids = [c.int('id%d' % i, 0, 65535) for i in range(3)]
    c.assume(c.and_(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]))
    m0 = c.int('multi0', 0, 255)
    m2 = c.int('multi2', 0, 255)
    c.assume(m0 != m2)
    multi = [m0, 1, m2]
    parts = [U.header(c)] + [U.fmt(c, U.fmt_text(fm, k)) for k in fm]
    late = c.flag('late_subscription')
    order = [0, 1, 2]
    for i in order[:2] if late else order:
        parts.append(U.sub(c, multi[i], ids[i], names[i]))
    got = [[], [], []]
    n = c.params.get('n', 3)
    for k in range(n):
        which = c.choice('m%d' % k, [0, 1] if late and k == 0 else [0, 1, 2])
        if late and k == 1:
            parts.append(U.sub(c, multi[2], ids[2], names[2]))
        p = c.cat(c.le(100 + k, 8), c.bytes('p%d' % k, 2 if which == 1 else 4))
        parts.append(U.data(c, ids[which], p))
        got[which].append(p)
    u = U.parse(c, c.cat(parts))
    want = [i for i in range(3) if got[i]]
    c.check_eq(len(u.data_list), len(want), 'one dataset per topic instance with data')
    keys = [(d.name, d.multi_id) for d in u.data_list]
    for i in want:
        ds = u.get_dataset(names[i], multi[i])
        c.check_eq((ds.name, ds.multi_id, ds.msg_id), (names[i], multi[i], ids[i]), 'dataset identity')
        expect_topic(c, ds, U.flatten(fm, names[i]), got[i], names[i])
    for a, b in zip(keys, keys[1:]):
        c.check(a[0] < b[0] or (a[0] == b[0] and a[1] < b[1]), 'datasets are ordered by name, then instance')
    c.check(not u.file_corruption, 'not corrupt')
    c.observe('keys', keys)


# ------------------------------------------------------------ definitions

def header_fields(c):
    """the 16 header bytes: start time and version, or rejected"""
    h = c.bytes('h', 16)
    n = c.choice('n', list(range(17)))
    core = c.load('pyulog.core')
    try:
        u = core.ULog(c.memfile(h[:n]))
        ok = True
    except TypeError:
        ok = False
    good = n == 16 and h[:7] == U.MAGIC
    c.check(ok == good, 'accepted exactly when the 7 magic bytes and a complete header are present')
    if ok:
        ts = U.unpack('uint64_t', h[8:16])
        c.check_eq(u.start_timestamp, ts, 'start timestamp')
        c.check_eq(u.last_timestamp, ts, 'last timestamp of an empty log')
        c.check_eq(u.data_list, [], 'no data')
        c.check(not u.file_corruption, 'not corrupt')
        c.observe('ts', u.start_timestamp)


def flag_bits(c):
    """compat/incompat bits: reported, or refused when unknown"""
    compat, incompat = c.bytes('compat', 8), c.bytes('incompat', 8)
    ts = c.int('ts', 0, 2**64 - 1)
    more = b'\x01' * c.choice('more', [0, 1, 8, 60])      # fields of a later version
    flags = U.msg(c, 'B', c.cat(compat, incompat, b'\0' * 24, more))
    blob = c.cat(U.header(c, ts), flags, U.info(c, 'int32_t after', c.le(77, 4)))
    core = c.load('pyulog.core')
    known = c.and_(incompat[0] <= 1, incompat[1:] == b'\0' * 7)
    try:
        u = core.ULog(c.memfile(blob))
        ok = True
    except (ValueError, NotImplementedError):
        ok = False
    c.check(known == ok, 'refused exactly when an unknown incompat bit is set')
    if ok:
        c.check_eq(bool(u.has_data_appended), incompat[0] == 1, 'appended-data flag')
        c.check_eq(bool(u.has_default_parameters), compat[0] % 2 == 1, 'default-parameters flag')
        c.check_eq(u.msg_info_dict, {'after': 77}, 'definitions after the flags are read')
        c.check_eq(u.start_timestamp, ts, 'start timestamp')


def utf8_ok(c, b):
    return b.decode('utf-8', 'ignore')


def info_values(c):
    """information messages of every type, in the definition or the data section, keys up to 255 bytes"""
    typ = c.choice('type', sorted(U.TYPES) + ['char[3]', 'uint8_t[5]', 'float[2]', 'mystruct'])
    klen = c.choice('klen', [1, 100, 255 - len(typ) - 1])
    name = 'k' * (klen - 1) + 'z'
    in_data = c.flag('in_data')
    if typ in U.TYPES:
        n = U.TYPES[typ][1]
    else:
        n = {'char[3]': 3, 'uint8_t[5]': 5, 'float[2]': 8, 'mystruct': 4}[typ]
    v = c.bytes('v', n) if typ != 'char[3]' else c.str('v', n, [(1, 127)]).encode()
    first = c.bytes('first', n) if typ != 'char[3]' and c.flag('twice') else None
    m = U.info(c, typ + ' ' + name, v)
    parts = [U.header(c)]
    if first is not None:
        parts.append(U.info(c, typ + ' ' + name, first))
    parts.append(U.info(c, 'int32_t other', c.le(5, 4)))
    if in_data:
        parts += [U.log(c, 0x36, 1, b'x'), m]
    else:
        parts += [m, U.log(c, 0x36, 1, b'x')]
    u = U.parse(c, c.cat(parts))
    if typ == 'char':
        want = v
    elif typ == 'bool':
        want = v[0] != 0
    elif typ in U.TYPES:
        want = U.unpack(typ, v)
    elif typ == 'char[3]':
        want = v.decode()
    else:
        want = v
    c.check_eq(u.msg_info_dict, {'other': 5, name: want}, 'information messages')
    c.check_eq(len(u.logged_messages), 1, 'the rest of the log is read')
    c.observe('v', u.msg_info_dict[name])


def text_bytes(c):
    """text of arbitrary bytes: what is valid UTF-8 is kept, what is not is dropped, nothing else is affected"""
    n = c.params.get('n', 3)
    b = c.bytes('b', n)
    where = c.choice('where', ['info', 'multi', 'log', 'tag'])
    want = b.decode('utf-8', 'ignore')
    m = {'info': lambda: U.info(c, 'char[%d] k' % n, b), 'multi': lambda: U.info_multi(c, 0, 'char[%d] k' % n, b),
         'log': lambda: U.log(c, 0x36, 3, b), 'tag': lambda: U.log_tagged(c, 0x36, 5, 3, b)}[where]()
    u = U.parse(c, c.cat(U.header(c), m, U.log(c, 0x37, 4, b'end')))
    if where == 'info':
        got = u.msg_info_dict['k']
    elif where == 'multi':
        got = u.msg_info_multiple_dict['k'][0][0]
    elif where == 'log':
        got = u.logged_messages[0].message
    else:
        got = u.logged_messages_tagged[5][0].message
    c.check_eq(got, want, 'text')
    c.check_eq(u.logged_messages[-1].message, 'end', 'the rest of the log is read')
    c.observe('t', got)


def text_long(c):
    """texts of any length, with symbolic characters at the end"""
    n = c.choice('n', [125, 126, 127, 128, 254, 255, 256, 300, 1000, 5000, 60000])
    s = 't' * n + c.str('end', 2)
    where = c.choice('where', c.params.get('where', ['info', 'multi', 'log', 'tag']))
    b = s.encode()
    m = {'info': lambda: U.info(c, 'char[%d] k' % (n + 2), b), 'multi': lambda: U.info_multi(c, 0, 'char[%d] k' % (n + 2), b),
         'log': lambda: U.log(c, 0x36, 3, b), 'tag': lambda: U.log_tagged(c, 0x36, 5, 3, b)}[where]()
    blob = c.cat(U.header(c), m, U.log(c, 0x37, 4, b'end'))
    u = U.parse(c, blob)
    if where == 'info':
        got = u.msg_info_dict['k']
    elif where == 'multi':
        got = u.msg_info_multiple_dict['k'][0][0]
    elif where == 'log':
        got = u.logged_messages[0].message
    else:
        got = u.logged_messages_tagged[5][0].message
    c.check_eq(got, s, 'text')
    c.check_eq(u.logged_messages[-1].message, 'end', 'the rest of the log is read')
    if c.params.get('write'):
        f = c.memfile()
        u.write_ulog(f)
        w = U.parse(c, c.filebytes(f))
        c.check(w == u, 'equal after writing and reading')


def info_multiple(c):
    """multi-information lists: continuation grouping, two keys, across both sections"""
    n = c.params.get('n', 4)
    split = c.choice('split', list(range(n + 1)))
    parts = [U.header(c)]
    want = {}
    for i in range(n):
        if i == split:
            parts.append(U.log(c, 0x36, 1, b'x'))
        k = c.choice('key%d' % i, ['a', 'b'])
        cont = c.int('cont%d' % i, 0, 1)
        v = c.str('v%d' % i, 2)
        parts.append(U.info_multi(c, cont, 'char[2] ' + k, v.encode()))
        if cont == 1 and k in want:
            want[k][-1].append(v)
        else:
            want.setdefault(k, []).append([v])
    u = U.parse(c, c.cat(parts))
    c.check_eq(u.msg_info_multiple_dict, want, 'grouped values')
    c.observe('m', u.msg_info_multiple_dict)


def parameters(c):
    """initial parameters, changed parameters, defaults by bit"""
    names = ['P_A', 'LONG_PARAMETER_NAME_' * 6]
    core = c.load('pyulog.core')
    parts = [U.header(c)]
    init, defaults = {}, {}
    n = c.params.get('n', 2)
    for i in range(n):
        k = c.choice('k%d' % i, names) if i else names[0]
        kind = c.choice('kind%d' % i, ['P', 'Q'])
        typ = c.choice('t%d' % i, ['int32_t', 'float']) if i != c.params.get('wide', 0) else 'int32_t'
        v = c.bytes('v%d' % i, 4)
        val = U.unpack(typ, v)
        if kind == 'P':
            parts.append(U.param(c, typ + ' ' + k, v))
            init[k] = val
        else:
            bits = c.int('bits%d' % i, 0, 255 if i == c.params.get('wide', 0) else 3)
            parts.append(U.param_default(c, bits, typ + ' ' + k, v))
            defaults.setdefault(k, []).append((bits, val))
    u = U.parse(c, c.cat(parts))
    c.check_eq(u.initial_parameters, init, 'initial parameters')
    c.check_eq(u.changed_parameters, [], 'no changes')
    for bit in range(8):
        got = u.get_default_parameters(bit)
        for k in names:
            want = None
            for bits, val in defaults.get(k, []):
                if (bits >> bit) & 1:
                    want = val
            if want is None:
                c.check(k not in got, 'no default of type %d for a parameter without that bit' % bit)
            else:
                c.check(k in got, 'a default of type %d is present' % bit)
                c.check_eq(got[k], want, 'default of type %d' % bit)
    c.observe('init', u.initial_parameters)


def key_chars(c):
    """keys of any characters but the space"""
    k = 'a' + c.str('k', c.params.get('n', 1), [(1, 0x1f), (0x21, 0x7f), (0x80, 0x2fff)]) + 'b'
    kind = c.choice('kind', ['info', 'multi', 'param', 'default', 'change'])
    v = c.bytes('v', 4)
    key = ('int32_t ' + k).encode()
    key = c.cat(c.le(len(key), 1), key)
    start = U.log(c, 0x36, 1, b'x')
    m = {'info': lambda: [U.msg(c, 'I', c.cat(key, v)), start], 'multi': lambda: [U.msg(c, 'M', c.cat(b'\0', key, v)), start],
         'param': lambda: [U.msg(c, 'P', c.cat(key, v)), start], 'default': lambda: [U.msg(c, 'Q', c.cat(b'\1', key, v)), start],
         'change': lambda: [start, U.msg(c, 'P', c.cat(key, v))]}[kind]()
    u = U.parse(c, c.cat(U.header(c, 5), m))
    got = {'info': list(u.msg_info_dict.items()), 'multi': list(u.msg_info_multiple_dict.items()),
           'param': list(u.initial_parameters.items()), 'default': list(u.get_default_parameters(0).items()),
           'change': [(n, x) for t, n, x in u.changed_parameters]}
    val = U.unpack('int32_t', v)
    for g in got:
        c.check_eq(got[g], [] if g != kind else [(k, [[val]] if g == 'multi' else val)], g)
    c.check_eq(len(u.logged_messages), 1, 'the rest of the log is read')


def formats(c):
    """format definitions: names, field types, array sizes, order"""
    tn = c.str('tn', 3, [(0x61, 0x7a), (0x30, 0x39), (0x5f, 0x5f)])
    fn = c.str('fn', 2, [(0x61, 0x7a), (0x5f, 0x5f)])
    arr = c.choice('arr', [0, 1, 9, 10, 255, 1000])
    typ = c.choice('type', sorted(U.TYPES) + ['other_t'])
    more = c.choice('more', [0, 1, 2])
    text = c.cat(tn.encode(), b':', (typ + ('[%d]' % arr if arr else '') + ' ').encode(), fn.encode(), b';',
                 b''.join([('int8_t x%d;' % i).encode() for i in range(more)]))
    parts = [U.header(c), U.msg(c, 'F', text), U.fmt(c, 'fixed:uint64_t timestamp;')]
    u = U.parse(c, c.cat(parts))
    fs = u.message_formats
    c.check_eq(len(fs), 2, 'number of formats')
    c.check(tn in fs, 'format is found by name')
    f = fs[tn]
    c.check_eq(f.name, tn, 'format name')
    c.check_eq([tuple(x) for x in f.fields], [(typ, arr, fn)] + [('int8_t', 0, 'x%d' % i) for i in range(more)],
               'fields')
    c.check_eq([tuple(x) for x in fs['fixed'].fields], [('uint64_t', 0, 'timestamp')], 'other format')


# ------------------------------------------------------------------ events

TOPIC = {'t': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]}


def events(c):
    """any sequence of events: order, levels, tags, and the time attributed to changes and dropouts"""
    n = c.params.get('n', 3)
    start = c.int('start', 0, 2**64 - 1)
    wide = 2**64 - 1
    parts = [U.header(c, start), U.fmt(c, U.fmt_text(TOPIC, 't')), U.param(c, 'int32_t P0', c.le(1, 4)),
             U.sub(c, 0, 1, 't')]
    last = start
    logs, tagged, drops, changes, data = [], {}, [], [], []
    for i in range(n):
        k = c.choice('e%d' % i, c.params.get('kinds', ['data', 'log', 'tag', 'drop', 'param', 'sync']))
        if k == 'data':
            p = c.cat(c.le(c.int('ts%d' % i, 0, wide), 8), c.bytes('x%d' % i, 1))
            t = U.unpack('uint64_t', p[:8])
            if t > last:
                last = t
            data.append(p)
            parts.append(U.data(c, 1, p))
        elif k == 'log':
            lv, t, s = c.int('lv%d' % i, 0, 255), c.int('ts%d' % i, 0, wide), c.str('s%d' % i, 2)
            parts.append(U.log(c, lv, t, s.encode()))
            logs.append((lv, t, s))
        elif k == 'tag':
            lv, t, s = c.int('lv%d' % i, 0, 255), c.int('ts%d' % i, 0, wide), c.str('s%d' % i, 1)
            tag = c.int('tag%d' % i, 0, 65535)
            parts.append(U.log_tagged(c, lv, tag, t, s.encode()))
            tagged.setdefault(tag, []).append((lv, tag, t, s))
        elif k == 'drop':
            d = c.int('d%d' % i, 0, 65535)
            parts.append(U.dropout(c, d))
            drops.append((d, last))
        elif k == 'sync':
            parts.append(U.sync(c))
        else:
            typ = c.choice('t%d' % i, ['int32_t', 'float'])
            v = c.bytes('v%d' % i, 4)
            parts.append(U.param(c, typ + ' P%d' % (i % 2), v))
            changes.append((last, 'P%d' % (i % 2), U.unpack(typ, v)))
    u = U.parse(c, c.cat(parts))
    c.check_eq([(m.log_level, m.timestamp, m.message) for m in u.logged_messages], logs, 'logged messages')
    got = u.logged_messages_tagged
    c.check_eq(len(got), len(tagged), 'number of tags')
    for tag in tagged:
        c.check_eq([(m.log_level, m.tag, m.timestamp, m.message) for m in got[tag]], tagged[tag], 'tagged messages')
    c.check_eq([(d.duration, d.timestamp) for d in u.dropouts], drops, 'dropouts')
    c.check_eq([tuple(x) for x in u.changed_parameters], changes, 'changed parameters')
    c.check_eq(u.initial_parameters, {'P0': 1}, 'initial parameters')
    c.check_eq(u.last_timestamp, last, 'last timestamp')
    c.check_eq(u.start_timestamp, start, 'start timestamp')
    c.check(not u.file_corruption, 'not corrupt')
    if data:
        c.check_eq(len(u.data_list), 1, 'one dataset')
        expect_topic(c, u.data_list[0], U.flatten(TOPIC, 't'), data, 't')
    else:
        c.check_eq(u.data_list, [], 'no dataset')
    c.observe('last', u.last_timestamp)
    c.observe('changes', [list(x) for x in u.changed_parameters])


LEVELS = {0x30: 'EMERGENCY', 0x31: 'ALERT', 0x32: 'CRITICAL', 0x33: 'ERROR', 0x34: 'WARNING', 0x35: 'NOTICE',
          0x36: 'INFO', 0x37: 'DEBUG'}


def log_levels(c):
    """level names of plain and tagged log messages"""
    lv = c.int('lv', 0, 255)
    tagged = c.flag('tagged')
    if tagged:
        m = U.log_tagged(c, lv, 9, 1, b'abc')
    else:
        m = U.log(c, lv, 1, b'abc')
    u = U.parse(c, c.cat(U.header(c), m))
    x = u.logged_messages_tagged[9][0] if tagged else u.logged_messages[0]
    c.check_eq(x.message, 'abc', 'text')
    c.check_eq(x.log_level, lv, 'level')
    want = 'UNKNOWN'
    for k in LEVELS:
        if lv == k:
            want = LEVELS[k]
    c.check_eq(x.log_level_str(), want, 'level name')
