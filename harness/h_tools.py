"""Command line tools: extraction, CSV, parameters, info."""
from . import ulog as U

US = 2**50      # time stamps in microseconds: 35 years


def topic_log(c, fm, topic, samples, extra=()):
    return c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in fm], U.sub(c, 0, 4, topic), list(extra),
                 [U.data(c, 4, s) for s in samples])


def sorted_times(c, n):
    out = []
    for i in range(n):
        t = c.int('t%d' % i, 0, US)
        if out:
            c.assume(t >= out[-1])
        out.append(t)
    return out


def window(c, ts):
    """a time window and the indices of the samples inside it"""
    s = c.int('time_s', 1, 2**30) if c.flag('has_s') else c.choice('no_s', [None, 0])
    e = c.int('time_e', 1, 2**30) if c.flag('has_e') else c.choice('no_e', [None, 0])
    keep = []
    for i, t in enumerate(ts):
        ok = True
        if s and not t >= s * 1000000:
            ok = False
        if e and not t < e * 1000000:
            ok = False
        if ok:
            keep.append(i)
    return s, e, keep


def extract(c):
    """extract_message: the samples of the window, time stamp first"""
    fm = {'top': [('int16_t', 2, 'a'), ('uint64_t', 0, 'timestamp'), ('float', 0, 'timestamp_f'), ('in', 0, 'n')],
          'in': [('uint8_t', 0, 'q')], 'topic': [('uint64_t', 0, 'timestamp')]}
    n = c.params.get('n', 3)
    ts = sorted_times(c, n)
    samples = [c.cat(c.bytes('a%d' % i, 4), c.le(t, 8), c.bytes('f%d' % i, 4), c.bytes('q%d' % i, 1))
               for i, t in enumerate(ts)]
    far = bytes([c.choice('far', [0, 9])]) * 8         # another topic begins before, or ends after this one
    other = [U.sub(c, 1, 5, 'top'), U.data(c, 5, c.cat(b'\x01' * 4, far, b'\x01' * 5)), U.sub(c, 0, 6, 'topic'), U.data(c, 6, far)]
    path = c.put('log.ulg', topic_log(c, fm, 'top', samples, other))
    m = c.load('pyulog.extract_message')
    s, e, keep = window(c, ts)
    rows = m.extract_message(path, 'top', s, e)
    c.check_eq(len(rows), len(keep), 'number of rows')
    for row, i in zip(rows, keep):
        b = samples[i]
        c.check_eq(list(row.keys()), ['timestamp', 'a[0]', 'a[1]', 'timestamp_f', 'n.q'], 'columns')
        c.check_eq(list(row.values()), [ts[i], U.unpack('int16_t', b[:2]), U.unpack('int16_t', b[2:4]),
                                        U.unpack('float', b[12:16]), U.unpack('uint8_t', b[16:17])], 'values')
    c.check_eq(len(m.extract_message(path, 'topic')), 1, 'another topic')
    for bad in ('nosuch', 'to', 5, None):
        try:
            m.extract_message(path, bad)
            c.fail('a topic that is not in the log is an error')
        except AttributeError:
            pass
    c.observe('n', len(rows))


def extract_names(c):
    """any topic name: exactly that topic is read"""
    n = c.params.get('n', 3)
    chars = c.params.get('chars', [(0x20, 0x39), (0x3b, 0x7e)])
    name, other = c.str('name', n, chars), c.str('other', c.choice('len', [1, n, n + 1]), chars)
    c.assume(name != other)
    path = c.put('x.ulg', c.cat(U.header(c), [U.msg(c, 'F', c.cat((k + ':uint64_t timestamp;').encode())) for k in (name, other)],
                                U.sub(c, 0, 1, name), U.sub(c, 0, 2, other), U.data(c, 2, c.le(9, 8)),
                                U.data(c, 1, c.le(c.int('t', 0, US), 8)), U.data(c, 2, c.le(10, 8))))
    m = c.load('pyulog.extract_message')
    rows = m.extract_message(path, name)
    c.check_eq([list(r.items()) for r in rows], [[('timestamp', c.int('t', 0, US))]], 'rows')
    c.check_eq([list(r.values()) for r in m.extract_message(path, other)], [[9], [10]], 'rows of another topic')


CSV = {'log': [('char', 4, 'name'), ('uint64_t', 0, 'timestamp'), ('uint8_t', 2, '_padding0'), ('float', 0, 'f'),
               ('int8_t', 2, 'arr'), ('in', 2, 'sub'), ('char', 0, 'one'), ('double', 0, 'd')],
       'in': [('uint16_t', 0, 'u'), ('char', 2, 's')],
       'a/b': [('uint64_t', 0, 'timestamp'), ('bool', 0, 'x')]}
CSV_COLS = ['timestamp', 'name', 'f', 'arr[0]', 'arr[1]', 'sub[0].u', 'sub[0].s', 'sub[1].u', 'sub[1].s', 'one', 'd']


def chars(c, name, n):
    """n characters, printable with a possible early end"""
    b = c.bytes(name, n)
    for i in range(n):
        c.assume(c.or_(b[i] == 0, c.and_(b[i] >= 0x20, b[i] < 0x7f)))
    text = ''
    for i in range(n):
        if b[i] == 0:
            break
        text = text + b[i:i + 1].decode()
    return b, text


def csv(c):
    """ulog2csv: one file per topic instance, header, one line per sample in the window"""
    vary = c.params.get('vary', 'all')
    n = c.params.get('n', 2)
    ts = sorted_times(c, n)
    core = c.load('pyulog.core')
    samples, texts = [], []
    for i, t in enumerate(ts):
        if vary in ('all', 'text'):
            nb, nt = chars(c, 'name%d' % i, 4 if i == 0 else 1)
            sb, st = chars(c, 'sub%d' % i, 2 if i == 0 else 1)
        else:
            nb, nt, sb, st = b'ab\0c', 'ab', b'', ''
        nb, sb = c.cat(nb, b'\0' * (4 - len(nb))), c.cat(sb, b'\0' * (2 - len(sb)))
        samples.append(c.cat(nb, c.le(t, 8), b'\x07\x08', c.bytes('f%d' % i, 4), c.bytes('arr%d' % i, 2),
                             c.bytes('u%d' % i, 2), sb, b'\x01\x02zz', c.bytes('one%d' % i, 1), c.bytes('d%d' % i, 8)))
        texts.append((nt, st))
    delim = c.choice('delim', [',', ';', '\t', '::'])
    far = c.choice('far', [US + 5, 0] if vary == 'window' else [US + 5])
    extra = [U.sub(c, 3, 5, 'a/b'), U.data(c, 5, c.cat(c.le(far, 8), b'\x01'))]
    blob = topic_log(c, CSV, 'log', samples, extra)
    files = vary in ('all', 'files')
    name = c.choice('file', U.NAMES if files else ['my.ulg'])
    path = c.put(name, blob)
    stem = U.stem(name)
    out = c.choice('out', [None, 'res'] if files else [None])
    if out:
        c.mkdir(out)
    s, e, keep = window(c, ts) if vary in ('all', 'window') else (None, None, list(range(n)))
    msgs = c.choice('messages', [None, 'log', 'a/b', 'log,a/b', 'none'] if files else [None])
    m = c.load('pyulog.ulog2csv')
    m.convert_ulog2csv(path, msgs, c.path(out) if out else None, delim, s, e)
    where = (out + '/' if out else '') + stem
    want = [w for w in ('log', 'a/b') if msgs is None or w in msgs.split(',')]
    made = [f for f in c.files() if f != path]
    c.check_eq(made, sorted(c.path(where + {'log': '_log_0.csv', 'a/b': '_a_b_3.csv'}[w]) for w in want),
               'files written')
    if 'a/b' in want:
        after = far and e and (US + 5 >= e * 1000000) or not far and s
        txt = delim.join(['timestamp', 'x']) + '\n' + ('' if after else str(far) + delim + '1\n')
        c.check_eq(c.get_text(c.path(where + '_a_b_3.csv')), txt, 'text of the other topic')
    if 'log' in want:
        u = core.ULog(path)
        ds = u.get_dataset('log')
        lines = [delim.join(CSV_COLS)]
        for i in keep:
            vals = []
            for col in CSV_COLS:
                if col == 'name':
                    vals.append(texts[i][0])
                elif col == 'sub[0].s':
                    vals.append(texts[i][1])
                elif col == 'sub[1].s':
                    vals.append('zz')
                else:
                    vals.append(str(ds.data[col][i]))
            lines.append(delim.join(vals))
        c.check_eq(c.get_text(c.path(where + '_log_0.csv')), '\n'.join(lines) + '\n', 'text of the topic')
    c.check_eq(c.get(path), blob, 'the log is not modified')


def csv_text(c):
    """character arrays of any bytes: UTF-8 text up to the first NUL"""
    n = c.params.get('n', 3)
    rest = c.params.get('rest', 0)
    fm = {'t': [('uint64_t', 0, 'timestamp'), ('char', n + rest, 'txt'), ('uint64_t', 0, 'timestamp_x'), ('int8_t', 0, 'z')]}
    b = c.cat(c.bytes('b', n), b'x' * rest)
    path = c.put('x.ulg', topic_log(c, fm, 't', [c.cat(c.le(5, 8), b, c.le(7, 8), b'\x03')]))
    end = n + rest
    for i in range(n):
        if b[i] == 0:
            end = i
            break
    raw = b[:end]
    want = raw.decode('utf-8', 'ignore')
    for i in range(len(want)):
        c.assume(want[i] != '\r')       # text mode may translate it on reading back
    m = c.load('pyulog.ulog2csv')
    m.convert_ulog2csv(path, None, None, ',', None, None, True)
    c.check_eq(c.get_text(c.path('x_t_0.csv')), 'timestamp,txt,timestamp_x,z\n5,' + want + ',7,3\n', 'text')


NUMBERS = {'double': [0.1 + 0.2, 1 / 3, 5e-324, 1.7976931348623157e308, -0.0, 1e22, 123456789.12345679, 47.397741999999994],
           'float': [0.1, 16777217.0, 1e-45, 3.4e38, 1 / 3, 123456.79], 'int64_t': [2**53 + 1, -2**63, 2**63 - 1, -1],
           'uint64_t': [2**53 + 1, 2**64 - 1, 0], 'int32_t': [-2**31, 2**31 - 1], 'uint32_t': [2**32 - 1],
           'int16_t': [-2**15, 2**15 - 1], 'uint16_t': [2**16 - 1], 'int8_t': [-128, 127], 'uint8_t': [255], 'bool': [0, 1]}


def reads_back(c, typ, text, b, label):
    """the text of a number stands for the very same number"""
    if typ == 'bool':
        v = {'True': 1, '1': 1, 'False': 0, '0': 0}.get(text)
    else:
        v = float(text) if typ in ('float', 'double') else int(text)
    c.check_eq(U.pack(typ, v), b, label)


def csv_exact(c):
    """the text of every number reads back as the same number"""
    typ = c.choice('type', sorted(NUMBERS))
    b = U.pack(typ, c.choice('value', NUMBERS[typ]))
    t = c.choice('time', [2**53 + 1, 2**62 + 1, 1])
    fm = {'t': [('uint64_t', 0, 'timestamp'), (typ, 2, 'a'), (typ, 0, 'z')]}
    path = c.put('x.ulg', topic_log(c, fm, 't', [c.cat(c.le(t, 8), b, b, b)]))
    c.load('pyulog.ulog2csv').convert_ulog2csv(path, None, None, ';', None, None)
    lines = c.get_text(c.path('x_t_0.csv')).split('\n')
    c.check_eq((lines[0], len(lines), lines[-1]), ('timestamp;a[0];a[1];z', 3, ''), 'lines')
    cells = lines[1].split(';')
    c.check_eq(len(cells), 4, 'columns')
    c.check_eq(cells[0], str(t), 'time')
    for i in range(3):
        reads_back(c, typ, cells[1 + i], b, 'number')


FIELDS = ['_x', '__padding', 'padding0', 'x_padding0', '_pad', '_PADDING', 'timestamp_', 'TIMESTAMP', '_timestamp', '_']


def csv_fields(c):
    """only padding is left out, whatever the names of the fields"""
    name = c.choice('name', FIELDS)
    arr = c.choice('array', [0, 1, 2])
    at = c.choice('at', [0, 1, 2])
    pad = c.choice('pad', ['_padding0', '_padding', '_padding_x'])
    fs = [('uint16_t', arr, name), ('uint8_t', 0, pad), ('uint8_t', 2, 'w')]
    fs.insert(at, ('uint64_t', 0, 'timestamp'))
    vals = {name: c.bytes('v', 2 * (arr or 1)), pad: b'\x09', 'w': c.bytes('w', 2), 'timestamp': c.le(77, 8)}
    path = c.put('x.ulg', topic_log(c, {'t': fs}, 't', [c.cat([vals[f[2]] for f in fs])]))
    c.load('pyulog.ulog2csv').convert_ulog2csv(path, None, None, ',', None, None)
    cols = [name + '[%d]' % i for i in range(arr)] if arr else [name]
    row = [str(U.unpack('uint16_t', vals[name][2 * i:2 * i + 2])) for i in range(arr or 1)]
    want = ','.join(['timestamp'] + cols + ['w[0]', 'w[1]']) + '\n' + ','.join(
        ['77'] + row + [str(vals['w'][0]), str(vals['w'][1])]) + '\n'
    c.check_eq(c.get_text(c.path('x_t_0.csv')), want, 'text')


def params_exact(c):
    """parameters, their defaults and changes are written as numbers that read back the same"""
    typ = c.choice('type', ['float', 'int32_t'])
    b = U.pack(typ, c.choice('value', NUMBERS[typ]))
    path = c.put('p.ulg', c.cat(U.header(c), U.flags(c, b'\x01' + b'\0' * 7), U.param(c, typ + ' P', b), U.param_default(c, 1, typ + ' P', b),
                                U.log(c, 0x36, 1, b'x'), U.param(c, typ + ' P', b)))
    kind = c.choice('kind', ['csv', 'stamps', 'octave', 'qgc', 'default'])
    more = {'csv': [], 'stamps': ['-t'], 'octave': ['-f', 'octave'], 'qgc': ['-f', 'qgc'], 'default': ['-d', 'system']}[kind]
    c.check_eq(c.cli('pyulog.params', [path] + more), 0, 'exit status')
    lines = c.stdout().split('\n')
    if kind == 'octave':
        nums = lines[4].split()
    elif kind == 'qgc':
        nums = [[x for x in lines if x and not x.startswith('#')][0].split('\t')[3]]
    else:
        nums = lines[0].split(',')[1:]
    c.check_eq(len(nums), {'qgc': 1, 'default': 1}.get(kind, 2), 'numbers')
    for x in nums:
        reads_back(c, typ, x, b, 'number')


def csv_names(c):
    """any topic name and instance: the name of the file, and the choice of topics"""
    chars = [(0x61, 0x62), (0x5f, 0x5f), (0x2f, 0x2f)]
    name = c.str('name', c.params.get('n', 4), chars)
    c.assume(name != 'abab')
    m = U.unpack('uint8_t', c.le(c.int('multi', 0, 255), 1))
    blob = c.cat(U.header(c), U.msg(c, 'F', c.cat((name + ':uint64_t timestamp;').encode())),
                 U.fmt(c, 'abab:uint64_t timestamp;'), U.sub(c, m, 1, name), U.sub(c, 3, 2, 'abab'),
                 U.data(c, 1, c.le(c.int('t', 0, US), 8)), U.data(c, 2, c.le(9, 8)))
    path = c.put('x.ulg', blob)
    pick = c.choice('pick', [None, 'name', 'abab', 'a'])
    c.load('pyulog.ulog2csv').convert_ulog2csv(path, name if pick == 'name' else pick, None, ',', None, None)
    want = []
    if pick in (None, 'name'):
        flat = ''
        for ch in name:
            flat = flat + ('_' if ch == '/' else ch)
        want.append('x_' + flat + '_' + str(m) + '.csv')
    if pick in (None, 'abab'):
        want.append('x_abab_3.csv')
    for w in want:
        c.check(c.get_text(c.path(w)) is not None, 'file of a topic')
    c.check_eq(c.nfiles(), 1 + len(want), 'number of files')


def csv_cli(c):
    """the command line passes its options on"""
    ts = sorted_times(c, 2)
    fm = {'t': [('uint64_t', 0, 'timestamp'), ('int8_t', 0, 'z')], 's': [('uint64_t', 0, 'timestamp')]}
    path = c.put('x.ulg', topic_log(c, fm, 't', [c.cat(c.le(t, 8), c.bytes('z%d' % i, 1)) for i, t in enumerate(ts)],
                                    [U.sub(c, 0, 1, 's'), U.data(c, 1, c.le(9, 8))]))
    a = c.choice('args', [[], ['-m', 't'], ['-d', ';', '-m', 't'], ['-o', 'DIR'], ['-ts', '3'], ['-te', '4'],
                          ['--time_s', '3', '--time_e', '9', '-d', '|'], ['-i']])
    lo = 3000000 if '3' in a else 0
    hi = {'-te': 4000000, '--time_s': 9000000}.get(a[0] if a else '', 2**60)
    d = ';' if ';' in a else '|' if '|' in a else ','
    prefix = 'x'
    argv = [path]
    for x in a:
        argv.append(c.path('newdir') if x == 'DIR' else x)
    if 'DIR' in a:
        prefix = 'newdir/x'
    rc = c.cli('pyulog.ulog2csv', argv)
    c.check_eq(rc, 0, 'exit status')
    text = 'timestamp' + d + 'z\n'
    core = c.load('pyulog.core')
    ds = core.ULog(path).get_dataset('t')
    for i, t in enumerate(ts):
        if t >= lo and t < hi:
            text = text + str(t) + d + str(ds.data['z'][i]) + '\n'
    c.check_eq(c.get_text(c.path(prefix + '_t_0.csv')), text, 'text')
    c.check_eq(c.get_text(c.path(prefix + '_s_0.csv')) is None, '-m' in a, 'only the chosen topics')


# ------------------------------------------------------------ parameters

def param_log(c):
    """initial, default and changed parameters"""
    vals = {'A_F': U.unpack('float', c.bytes('af', 4)), 'B_I': U.unpack('int32_t', c.bytes('bi', 4)),
            'A_FE': U.unpack('int32_t', c.bytes('ae', 4)), 'a_x': 4}
    init = [('int32_t', 'A_FE', 'ae'), ('int32_t', 'B_I', 'bi'), ('float', 'A_F', 'af')]
    changes = []
    body = []
    fm = {'t': [('uint64_t', 0, 'timestamp')]}
    times = sorted_times(c, 2)
    last = 0
    for i in range(2):
        if times[i] > last:
            last = times[i]
        k = c.choice('ch%d' % i, [None, ('float', 'A_F'), ('int32_t', 'A_FE'), ('float', 'A_')])
        body.append(U.data(c, 1, c.le(times[i], 8)))
        if k:
            v = c.bytes('chv%d' % i, 4)
            body.append(U.param(c, ' '.join(k), v))
            changes.append((last, k[1], U.unpack(k[0], v)))
    has_def = c.flag('has_defaults')
    defs = [U.param_default(c, 1, 'int32_t B_I', c.bytes('d0', 4)), U.param_default(c, 2, 'float A_F', c.bytes('d1', 4)),
            U.param_default(c, 3, 'int32_t C_C', c.bytes('d2', 4))]
    blob = c.cat(U.header(c), U.flags(c, b'\x01' + b'\0' * 7) if has_def else b'',
                 U.param(c, 'int32_t a_x', b'\x04\0\0\0'),
                 [U.param(c, t + ' ' + k, c.bytes(n, 4)) for t, k, n in init], defs if has_def else [],
                 U.fmt(c, U.fmt_text(fm, 't')), U.sub(c, 0, 1, 't'), body)
    defaults = None
    if has_def:
        x = U.unpack('int32_t', c.bytes('d2', 4))
        defaults = {'system': {'B_I': U.unpack('int32_t', c.bytes('d0', 4)), 'C_C': x},
                    'current_setup': {'A_F': U.unpack('float', c.bytes('d1', 4)), 'C_C': x}}
    return blob, vals, changes, defaults


def params_out(c):
    """ulog_params: every format and option"""
    blob, vals, changes, defaults = param_log(c)
    path = c.put('p.ulg', blob)
    fmt = c.choice('fmt', ['csv', 'octave', 'qgc'])
    initial = c.flag('initial')
    stamps = False if initial else c.flag('stamps')
    default = c.choice('default', [None, 'system', 'current_setup']) if defaults and not initial else None
    to_file = c.flag('to_file')
    delim = c.choice('delim', [',', ';']) if fmt == 'csv' else ','
    argv = [path] + ([c.path('out.txt')] if to_file else []) + ['-f', fmt] + (['-i'] if initial else []) + (
        ['-t'] if stamps else []) + (['-d', default] if default else []) + (['-l', delim] if delim != ',' else [])
    rc = c.cli('pyulog.params', argv)
    c.check_eq(rc, 0, 'exit status')
    if default:
        vals = defaults[default]
        initial = True
    out = ''
    for k in sorted(vals):
        v = vals[k]
        ch = [(t, x) for t, n, x in changes if n == k]
        if fmt == 'csv' and stamps:
            out = out + k + delim + str(v) + ''.join([delim + str(x) for _, x in ch]) + '\n'
            out = out + 'timestamp' + delim + '0' + ''.join([delim + str(t) for t, _ in ch]) + '\n'
        elif fmt == 'csv':
            out = out + k + delim + str(v) + ('' if initial else ''.join([delim + str(x) for _, x in ch])) + '\n'
        elif fmt == 'octave':
            vs = [v] + ([] if initial else [x for _, x in ch])
            if len(vs) > 1:
                out = out + '# name ' + k + '\n# type: matrix\n# rows: 1\n# columns: ' + str(len(vs)) + '\n' + ''.join(
                    [str(x) + ' ' for x in vs]) + '\n'
            else:
                out = out + '# name ' + k + '\n# type: scalar\n' + str(v) + '\n'
        else:
            out = out + '1\t1\t' + k + '\t' + str(v) + '\t' + ('9' if k == 'A_F' else '6') + '\n'
    got = c.get_text(c.path('out.txt')) if to_file else c.stdout()
    c.check_eq(got, out, 'output')
    c.check_eq(len(c.files()), 2 if to_file else 1, 'files')


def params_many(c):
    """many changes of one parameter"""
    n = c.choice('n', [120, 300])
    fmt = c.choice('fmt', ['csv', 'octave'])
    x = c.bytes('x', 4)
    blob = c.cat(U.header(c), U.param(c, 'int32_t P', c.le(7, 4)), U.param(c, 'int32_t Q', x),
                 U.log(c, 0x36, 1, b'x'), [U.param(c, 'int32_t P', c.le(i, 4)) for i in range(n)])
    path = c.put('p.ulg', blob)
    c.cli('pyulog.params', [path, '-f', fmt])
    vals = ['7'] + [str(i) for i in range(n)]
    q = str(U.unpack('int32_t', x))
    if fmt == 'csv':
        want = 'P,' + ','.join(vals) + '\nQ,' + q + '\n'
    else:
        want = '# name P\n# type: matrix\n# rows: 1\n# columns: ' + str(n + 1) + '\n' + ' '.join(
            vals) + ' \n# name Q\n# type: scalar\n' + q + '\n'
    c.check_eq(c.stdout(), want, 'output')


def params_default_missing(c):
    """asking for defaults that the log does not have is an error, not a wrong list"""
    compat = c.bytes('compat', 8)
    blob = c.cat(U.header(c), U.flags(c, compat), U.param(c, 'int32_t A', c.bytes('a', 4)),
                 U.param_default(c, 1, 'int32_t A', c.bytes('b', 4)))
    path = c.put('p.ulg', blob)
    which = c.choice('which', ['system', 'current_setup', 'other'])
    try:
        rc = c.cli('pyulog.params', [path, '-d', which])
        ok = rc == 0
    except (AssertionError, ValueError):
        ok = False
    c.check(ok == c.and_(compat[0] % 2 == 1, which != 'other'), 'an error exactly when there are no such defaults')
    if ok:
        c.check_eq(c.stdout(), 'A,' + str(U.unpack('int32_t', c.bytes('b', 4))) + '\n' if which == 'system' else '',
                   'output')


# ------------------------------------------------------------------ info

def hms(us):
    """the text h:mm:ss"""
    m, sec = divmod(us // 1000000, 60)
    h, m = divmod(m, 60)
    return '{:d}:{:02d}:{:02d}'.format(h, m, sec)


def info(c):
    """ulog_info: times, dropouts, version, messages and the table of topics"""
    fm = {'alpha': [('uint64_t', 0, 'timestamp'), ('int16_t', 3, 'v'), ('uint8_t', 2, '_padding0')],
          'beta': [('uint64_t', 0, 'timestamp'), ('in', 2, 'n')], 'in': [('double', 0, 'd'), ('uint8_t', 0, 'p')]}
    vary = c.params.get('vary', 'all')
    start, end = 5000000, 65999999
    if vary in ('all', 'times'):
        # as read back from the log: keeps the solver's terms alike
        start = U.unpack('uint64_t', c.le(c.int('start', 0, US), 8))
        end = U.unpack('uint64_t', c.le(c.int('end', 0, US), 8))
        c.assume(end >= start)
    verbose = c.flag('verbose')
    ver = c.bytes('ver', 4) if vary in ('all', 'texts') else b'\x00\x00\x00\x00'
    drops = []
    if vary in ('all', 'drops'):
        drops = [c.int('d%d' % i, 0, 65535) for i in range(c.choice('nd', [0, 1, 2]))]
    nd = len(drops)
    na = c.choice('na', [1, 2])
    word = c.str('word', 2)
    corrupt = c.flag('corrupt')
    blob = c.cat(U.header(c, start), [U.fmt(c, U.fmt_text(fm, k)) for k in fm],
                 U.info(c, 'char[2] zz_word', word.encode()), U.info(c, 'uint32_t ver_sw_release', ver),
                 U.info(c, 'int32_t perf_x', c.bytes('perf', 4)),
                 U.info(c, 'int8_t perfx', b'\5'), U.info(c, 'int8_t Zperf_', b'\6'), U.info_multi(c, 0, 'char[2] mm', b'ab'),
                 U.info_multi(c, 1, 'char[2] mm', b'cd'), U.info_multi(c, 0, 'char[2] mm', b'ef'),
                 U.info_multi(c, 0, 'char[2] aa', b'x1'),
                 U.sub(c, 0, 1, 'beta'), U.sub(c, 1, 2, 'alpha'), U.sub(c, 0, 3, 'alpha'),
                 U.data(c, 2, c.cat(c.le(start, 8), b'abcdef')), [U.data(c, 1, c.cat(c.le(start, 8), b'.' * 18))] * na,
                 U.data(c, 3, c.cat(c.le(end, 8), b'abcdef')), [U.dropout(c, d) for d in drops],
                 U.data(c, 99, b'12345678') if corrupt else b'')
    path = c.put('i.ulg', blob)
    rc = c.cli('pyulog.info', [path] + (['-v'] if verbose else []))
    c.check_eq(rc, 0, 'exit status')
    out = 'Warning: file has data corruption(s)\n' if corrupt else ''
    if corrupt:
        out = 'Warning: no subscription found for message id 99. Continuing, but file is most likely corrupt\n' + out
    out = out + 'Logging start time: ' + hms(start) + ', duration: ' + hms(end - start) + '\n'
    if nd == 0:
        out = out + 'No Dropouts\n'
    else:
        tot = 0
        top = drops[0]
        for d in drops:
            tot = tot + d
            if d > top:
                top = d
        out = out + 'Dropouts: count: ' + str(nd) + ', total duration: ' + '{:.1f}'.format(
            tot / 1000.) + ' s, max: ' + str(top) + ' ms, mean: ' + str(tot // nd) + ' ms\n'
    if ver[0] >= 64:
        t = ver[0]
        suffix = ' (alpha)' if t < 128 else ' (beta)' if t < 192 else ' (RC)' if t < 255 else ''
        out = out + 'SW Version: v' + str(ver[3]) + '.' + str(ver[2]) + '.' + str(ver[1]) + suffix + '\n'
    out = out + 'Info Messages:\n Zperf_: 6\n'
    if verbose:
        out = out + ' perf_x: ' + str(U.unpack('int32_t', c.bytes('perf', 4))) + '\n'
    out = out + ' perfx: 5\n'
    out = out + ' ver_sw_release: ' + str(U.unpack('uint32_t', ver)) + '\n zz_word: ' + word + '\n'
    if verbose:
        out = out + "Info Multiple Messages:\n aa: [['x1']]\n mm: [['ab', 'cd'], ['ef']]\n"
    else:
        out = out + 'Info Multiple Messages: [aa: 1], [mm: 2]\n'
    out = out + '\n' + 'Name (multi id, message size in bytes)'.ljust(41) + ' number of data points, total bytes\n'
    for name, multi, size, n in [('alpha', 0, 14, 1), ('alpha', 1, 14, 1), ('beta', 0, 26, na)]:
        label = name + ' (' + str(multi) + ', ' + str(size) + ')'
        out = out + ' ' + label.ljust(40) + ' ' + str(n).rjust(7) + ' ' + str(size * n).rjust(10) + '\n'
    c.check_eq(c.stdout(), out, 'output')


def info_topics(c):
    """ulog_info: one row for every dataset"""
    names = c.choice('names', [['a', 'a1'], ['topic', 'topic_'], ['x', 'y']])
    subs = [(names[0], c.choice('m0', [0, 10, 11])), (names[1], 0), (names[1], 1), (names[0], 1), (names[0], 255)]
    fm = {'x': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'v')]}
    text = U.fmt_text(fm, 'x')[1:]
    n = [c.choice('n%d' % i, [1, 3]) for i in range(3)] + [1, 1]
    blob = c.cat(U.header(c), [U.fmt(c, x + text) for x in names],
                 [U.sub(c, m, i + 1, x) for i, (x, m) in enumerate(subs)],
                 [[U.data(c, i + 1, c.cat(c.le(0, 8), c.bytes('v%d' % i, 1)))] * n[i] for i in range(5)])
    c.check_eq(c.cli('pyulog.info', [c.put('i.ulg', blob)]), 0, 'exit status')
    rows = c.stdout().split('total bytes\n')[1].split('\n')
    want = []
    for (x, m), k in zip(subs, n):
        want.append(' ' + (x + ' (' + str(m) + ', 9)').ljust(40) + ' ' + str(k).rjust(7) + ' ' + str(9 * k).rjust(10))
    c.check_eq(sorted(rows), sorted(want + ['']), 'rows')


def info_message(c):
    """ulog_info -m: the chosen multi-information message, text or bytes"""
    kind = c.choice('kind', ['char', 'bytes', 'number', 'float'])
    nl = c.flag('newline')
    parts, groups = [U.header(c)], []
    for i in range(3):
        if kind == 'char':
            v = c.str('v%d' % i, 2)
            parts.append(U.info_multi(c, c.int('cont%d' % i, 0, 1), 'char[2] mm', v.encode()))
            txt = v
        elif kind == 'number':
            v = c.bytes('v%d' % i, 2)
            parts.append(U.info_multi(c, c.int('cont%d' % i, 0, 1), 'int16_t mm', v))
            txt = str(U.unpack('int16_t', v))
        elif kind == 'float':
            x = c.choice('x', [1 / 3, 16777217.0, 1e-45, -2.5])
            parts.append(U.info_multi(c, c.int('cont%d' % i, 0, 1), 'float mm', U.pack('float', x)))
            txt = str(U.unpack('float', U.pack('float', x)))
        else:
            v = c.bytes('v%d' % i, 2)
            parts.append(U.info_multi(c, c.int('cont%d' % i, 0, 1), 'uint8_t[2] mm', v))
            txt = '{:02x}'.format(v[0]) + ' ' + '{:02x}'.format(v[1])
        if i and c.int('cont%d' % i, 0, 1) == 1:
            groups[-1].append(txt)
        else:
            groups.append([txt])
    path = c.put('i.ulg', c.cat(parts))
    name = c.choice('name', ['mm', 'other'])
    c.cli('pyulog.info', [path, '-m', name] + (['-n'] if nl else []))
    sep = '\n' if nl else ''
    if name == 'other':
        out = 'message other not found\n'
    else:
        out = ''
        for i, g in enumerate(groups):
            out = out + '# mm ' + str(i) + (' (len: ' + str(2 * len(g)) + ')' if kind == 'bytes' else '') + ':\n'
            out = out + sep.join(g) + '\n'
    c.check_eq(c.stdout(), out, 'output')


def ignore(c):
    """every tool refuses a log with invalid text, unless told to ignore it"""
    from .h_px4 import kml_stub
    from .h_ros import stubs
    from .h_events import stub
    tool = c.choice('tool', ['ulog2csv', 'info', 'messages', 'params', 'extract_gps_dump', 'extract_message', 'ulog2kml',
                             'ulog2ros2bag', 'core'])
    if tool == 'ulog2kml':
        kml_stub(c)
    elif tool == 'ulog2ros2bag':
        stubs(c, '0.26.1')
    elif tool == 'messages':
        stub(c)
    fm = {'pb': [('uint64_t', 0, 'timestamp'), ('int32_t', 0, 'alt'), ('int32_t', 0, 'lon'), ('int32_t', 0, 'lat')]}
    b = c.bytes('b', 2)
    path = c.put('x.ulg', c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 'pb')), U.sub(c, 0, 1, 'pb'), U.data(c, 1, b'\1' * 20),
                                U.log(c, 0x36, 5, b)))
    bad = False
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        bad = True
    how = c.flag('ignore')
    try:
        if tool == 'extract_message':
            c.load('pyulog.extract_message').extract_message(path, 'pb', None, None, how)
        elif tool == 'core':
            c.load('pyulog.core').ULog(path, None, how)
        else:
            opt = {'params': '--ignore', 'extract_gps_dump': '-x'}.get(tool, '-i')
            more = ['-o', c.path('x.kml'), '--topic', 'pb'] if tool == 'ulog2kml' else []
            c.cli('pyulog.' + tool, ([opt] if how else []) + [path] + more)
        ok = True
    except UnicodeDecodeError:
        ok = False
    c.check(ok == (how or not bad), 'an error exactly when the text is invalid and not to be ignored')
