"""Derived views of a log: equality, value changes, dataset lookup, version."""
from . import ulog as U

FM = {'t': [('uint64_t', 0, 'timestamp'), ('float', 0, 'f'), ('int16_t', 0, 'i')],
      's': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'x')]}


def make(c, over, side):
    """a log; the component named in over takes a value of its own on each side"""
    def v(name, n):
        return c.bytes(name + (side if over == name else ''), n)

    def pick(name, opts):
        return c.choice(name + side, opts) if over == name else opts[0]
    ts0 = v('ts0', 8)
    drop, change = U.dropout(c, U.unpack('uint16_t', v('drop', 2))), U.param(c, 'int32_t P0', v('change', 4))
    drop_at, change_at = pick('drop_at', [0, 1]), pick('change_at', [0, 1])
    more = pick('field', ['', 'int8_t e;', 'int8_t g;'])
    last = b'\5' if more else b''
    parts = [U.header(c, U.unpack('uint64_t', v('start', 8)), v('version', 1)[0]),
             U.flags(c, v('compat', 8)),
             U.fmt(c, U.fmt_text(FM, 't') + more), U.fmt(c, U.fmt_text(FM, 's')),
             U.fmt(c, 'u:' + pick('format', ['int8_t a;', 'uint8_t a;', 'int8_t[1] a;', 'int8_t b;',
                                             'int8_t a;int8_t b;', 'int8_t b;int8_t a;'])),
             [U.fmt(c, n + ':uint64_t timestamp;uint8_t x;') for n in ('n1', 'n2', 'n')],
             U.info(c, pick('infotype', ['uint32_t', 'int32_t', 'uint8_t[4]']) + ' ' + pick('infokey', ['num', 'nun']), v('info', 4)),
             U.info_multi(c, 0, 'int16_t mm', v('multi', 2)),
             U.info_multi(c, pick('cont', [0, 1]), 'int16_t mm', b'zz'),
             U.param(c, 'int32_t P0', v('init', 4)), U.param_default(c, 2, 'int32_t P1', v('default', 4)),
             U.sub(c, v('multi_id', 1)[0], 1, 't'), drop if drop_at else [], change if change_at else [],
             U.data(c, 1, c.cat(ts0, v('f', 4), v('i', 2), last))]
    if pick('extra', [0, 1]):
        parts.append(U.data(c, 1, c.cat(ts0, b'abcdef', last)))
    if pick('topic', [0, 1]):
        parts += [U.sub(c, 0, 2, 's'), U.data(c, 2, b'123456789')]
    parts += [U.log(c, v('level', 1)[0], U.unpack('uint64_t', v('logts', 8)), pick('text', [b'ab', b'ac', b'abc'])),
              U.log_tagged(c, 0x31, U.unpack('uint16_t', v('tag', 2)), U.unpack('uint64_t', v('tagts', 8)), b'ta'),
              [] if drop_at else drop, [] if change_at else change]
    mid = pick('msg_id', [5, 6])
    parts += [U.sub(c, 0, mid, pick('name', ['n1', 'n2', 'n'])), U.data(c, mid, b'\0' * 8 + b'9')]
    return c.cat(parts)


BYTES = ['start', 'version', 'compat', 'info', 'multi', 'init', 'default', 'multi_id', 'ts0', 'f', 'i', 'level',
         'logts', 'tag', 'tagts', 'drop', 'change']
PICKS = ['format', 'infokey', 'cont', 'extra', 'topic', 'text', 'drop_at', 'change_at', 'field', 'name', 'msg_id', 'infotype']


def equality(c):
    """two logs compare equal exactly when their contents agree"""
    over = c.choice('over', BYTES + PICKS)
    a, b = make(c, over, 'A'), make(c, over, 'B')
    u, w = U.parse(c, a), U.parse(c, b)
    if over in PICKS:
        same = a == b
        if over in ('drop_at', 'change_at'):        # the time is that of the data before it
            same = c.or_(same, U.unpack('uint64_t', c.again('ts0')) <= U.unpack('uint64_t', c.again('start')))
    elif over == 'f':
        x, y = U.unpack('float', c.again(over + 'A')), U.unpack('float', c.again(over + 'B'))
        same = c.or_(x == y, c.and_(x != x, y != y))
    else:
        same = c.again(over + 'A') == c.again(over + 'B')
    r = u == w
    c.check(r == same, 'equal exactly when the contents agree')
    c.check((w == u) == r, 'symmetric')
    c.check((u != w) == c.not_(r), '!= is the negation')
    c.check(u == u, 'reflexive')
    c.check(not u == 5 and u != 'x', 'a log differs from other objects')
    if over not in ('f', 'i', 'ts0', 'multi_id', 'extra', 'field'):
        same = True
    x, y = [[d for d in o.data_list if d.name == 't'][0] for o in (u, w)]
    c.check((x == y) == same, 'equal datasets')
    c.check((y == x) == same, 'equal datasets, the other way round')
    c.check((x != y) == c.not_(same), 'different datasets')
    c.observe('r', bool(r))


def value_changes(c):
    """list of changes of a field: first sample, then every sample that differs from its predecessor"""
    n = c.params.get('n', 4)
    typ = c.choice('type', ['int16_t', 'float'])
    fm = {'t': [('uint64_t', 0, 'timestamp'), (typ, 0, 'x')]}
    parts = [U.header(c), U.fmt(c, U.fmt_text(fm, 't')), U.sub(c, 0, 1, 't')]
    kept = []
    for i in range(c.choice('n', list(range(1, n + 1)))):
        t, v = c.bytes('t%d' % i, 8), c.bytes('v%d' % i, U.TYPES[typ][1])
        parts.append(U.data(c, 1, c.cat(t, v)))
        ts = U.unpack('uint64_t', t)
        if ts != 0:
            kept.append((ts, U.unpack(typ, v)))
    u = U.parse(c, c.cat(parts))
    got = [tuple(x) for x in u.get_dataset('t').list_value_changes('x')]
    want = []
    for i, (ts, v) in enumerate(kept):
        if i == 0 or v != kept[i - 1][1]:
            want.append((ts, v))
    c.check_eq(got, want, 'value changes')
    c.observe('got', got)


def close_changes(c):
    """values that differ by as little as their type allows are different"""
    typ = c.choice('type', ['double', 'float', 'int64_t', 'uint64_t'])
    if typ in ('double', 'float'):
        eps = 2.0 ** (-52 if typ == 'double' else -23)
        pool = [0.0, 1e-9, 1.0, 1.0 + eps, float('inf')]
    else:
        pool = [2**53, 2**53 + 1, 2**62 + 1]
    vals = [c.choice('v%d' % i, pool) for i in range(3)]
    fm = {'t': [('uint64_t', 0, 'timestamp'), (typ, 0, 'x')]}
    times = [c.int('t%d' % i, 1, 2**64 - 1) for i in range(3)]
    raw = [U.pack(typ, v) for v in vals]
    u = U.parse(c, c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 't')), U.sub(c, 0, 1, 't'),
                         [U.data(c, 1, c.cat(c.le(t, 8), b)) for t, b in zip(times, raw)]))
    got = [tuple(x) for x in u.get_dataset('t').list_value_changes('x')]
    c.check_eq(got, [(times[i], U.unpack(typ, raw[i])) for i in range(3) if i == 0 or vals[i] != vals[i - 1]], 'value changes')


def lookup(c):
    """a dataset is found by name and instance, or an error is raised"""
    ids = [c.int('m%d' % i, 0, 255) for i in range(3)]
    c.assume(ids[0] != ids[1])
    names = ['t', 't', 's']
    parts = [U.header(c)] + [U.fmt(c, U.fmt_text(FM, k)) for k in FM]
    for i in range(3):
        parts.append(U.sub(c, ids[i], 10 - i, names[i]))
        parts.append(U.data(c, 10 - i, c.bytes('p%d' % i, 14 if names[i] == 't' else 9)))
    u = U.parse(c, c.cat(parts))
    name = c.choice('name', ['t', 's', 'u', ''])
    m = c.int('want', 0, 255)
    use_default = c.flag('default')
    if use_default:
        m = 0
    found = None
    for i in range(3):
        if names[i] == name and ids[i] == m:
            found = 10 - i
    try:
        ds = u.get_dataset(name) if use_default else u.get_dataset(name, m)
    except (KeyError, IndexError, ValueError):
        ds = None
    c.check((ds is None) == (found is None), 'found exactly when present')
    if ds is not None:
        c.check_eq((ds.name, ds.multi_id, ds.msg_id), (name, m, found), 'the right dataset')


def version(c):
    """release version number and its text"""
    v = c.bytes('v', 4)
    key = c.choice('key', ['ver_sw_release', 'ver_os_release'])
    present = c.flag('present')
    blob = c.cat(U.header(c), U.info(c, 'uint32_t ' + (key if present else 'other'), v))
    u = U.parse(c, blob)
    got = u.get_version_info(key) if key != 'ver_sw_release' else u.get_version_info()
    txt = u.get_version_info_str(key) if key != 'ver_sw_release' else u.get_version_info_str()
    if not present:
        c.check(got is None and txt is None, 'no version')
        return
    t = v[0]
    c.check_eq(got, (v[3], v[2], v[1], v[0]), 'version numbers')
    if t < 64:
        c.check(txt is None, 'a development version has no text')
    else:
        suffix = ' (alpha)' if t < 128 else ' (beta)' if t < 192 else ' (RC)' if t < 255 else ''
        c.check_eq(txt, 'v' + str(v[3]) + '.' + str(v[2]) + '.' + str(v[1]) + suffix, 'version text')
    c.observe('txt', txt)
