"""Logs in a database."""
import os
import sqlite3

from . import ulog as U
from .h_write import public, expect_same, write

T63 = 2**63 - 1
NAMED = {'alpha': [('uint64_t', 0, 'timestamp'), ('int16_t', 0, 'v'), ('char', 0, 'ch'), ('bool', 0, 'flag'),
                   ('uint8_t', 0, '_padding0')],
         'beta': [('float', 2, 'f'), ('uint64_t', 0, 'timestamp'), ('int8_t', 0, 'b')],
         'all': [('uint64_t', 0, 'timestamp'), ('int8_t', 0, 'a'), ('uint8_t', 0, 'b'), ('int16_t', 0, 'c'),
                 ('uint16_t', 0, 'd'), ('int32_t', 0, 'e'), ('uint32_t', 0, 'f'), ('int64_t', 0, 'g'),
                 ('uint64_t', 0, 'h'), ('float', 0, 'i'), ('double', 0, 'j'), ('bool', 0, 'k'), ('char', 0, 'l')]}


def fresh(c, name='logs.sqlite3'):
    """an empty database of the current schema"""
    path = c.path(name)
    c.load('pyulog.migrate_db').migrate_db(path)
    db = c.load('pyulog.db')
    return path, db.DatabaseULog, db.DatabaseULog.get_db_handle(path)


def rows(c, path):
    """contents of every table"""
    con = c.sql(path)
    out = {}
    for (t,) in con.execute("select name from sqlite_master where type = 'table' and name like 'ULog%' order by name").fetchall():
        out[t] = [tuple(r) for r in con.execute('select * from "%s" order by rowid' % t).fetchall()]
    con.close()
    return out


def number(c, name, typ):
    """bytes of a number that is not NaN, nor beyond what a database column holds"""
    b = c.bytes(name, U.TYPES[typ][1])
    x = U.unpack(typ, b)
    if typ in ('float', 'double'):
        c.assume(x == x)
    if typ == 'uint64_t':
        c.assume(x <= T63)
    return b


def floats(c, name, n):
    """bytes of n float values; of those after the first, only finite ones if also saved as text"""
    b = c.bytes(name, 4 * n)
    if c.flag('json'):
        for i in range(n):
            x = U.unpack('float', b[4 * i:4 * i + 4])
            if i or name[-1:] != '0':
                c.assume(-1e38 < x)
                c.assume(x < 1e38)
    return b


def make(c, what, tag=''):
    """bytes of a log, with symbolic values in one part of it"""
    start = c.int('start' + tag, 0, T63) if what == 'meta' else 10
    compat, inc, offs = b'\0' * 8, b'\0' * 8, [0, 0, 0]
    d = [U.fmt(c, U.fmt_text(NAMED, k)) for k in NAMED]
    s = [U.sub(c, 0, 7, 'alpha'), U.sub(c, 1, 3, 'alpha'), U.sub(c, 0, 1, 'beta')]
    if what == 'data':
        for i in range(2):
            s += [U.data(c, 3, c.cat(c.le(20 + i, 8), c.bytes('v%d%s' % (i, tag), 3), c.bytes('bo%d%s' % (i, tag), 1))),
                  U.data(c, 1, c.cat(floats(c, 'f%s%d' % (tag, i), 2), c.bytes('ft%d%s' % (i, tag), 8)[:7], b'\0',
                                     c.bytes('fb%d%s' % (i, tag), 1)))]
        if c.flag('third' + tag):
            s.append(U.data(c, 7, c.cat(c.le(5, 8), b'\1\2\3\4')))
    else:
        s.append(U.data(c, 3, c.cat(c.le(20, 8), b'abcd')))
    if what == 'types':
        d.append(U.fmt(c, 'Beta:uint64_t timestamp;'))
        s += [U.sub(c, 0, 11, 'Beta'), U.data(c, 11, c.le(4, 8))]
        s += [U.sub(c, 2, 4, 'all')] + [U.data(c, 4, c.cat(c.le(20 + i, 8), c.bytes('a%d%s' % (i, tag), 22 + 8), floats(c, 'af%s%d' % (tag, i), 1), c.bytes('ab%d%s' % (i, tag), 10)))
                                        for i in range(2)]
    if what == 'meta':
        compat = c.bytes('compat' + tag, 8)
        s += [U.sync(c)] * c.choice('syncs' + tag, [0, 1, 2])
        s += [U.log(c, 0x36, c.int('tl' + tag, 0, T63), b'x')]
        if c.flag('appended' + tag):
            n = 16 + 43 + sum(len(x) for x in d) + sum(len(x) for x in s)
            inc, offs = b'\1' + b'\0' * 7, [n, n, 0]
            s += [U.log(c, 0x36, 30, b'x')]
    if what == 'msgs':
        s.append(U.log(c, 0x36, 11, b'00.10'))
        s.append(U.log_tagged(c, 0x36, 1, 12, b'0x1'))
        for i in range(2):
            k = c.choice('m%d%s' % (i, tag), ['log', 'tag', 'drop'])
            if k == 'log':
                s.append(U.log(c, c.int('lv%d%s' % (i, tag), 0, 255), c.int('t%d%s' % (i, tag), 0, T63),
                               c.str('s%d%s' % (i, tag), 2).encode()))
            elif k == 'tag':
                s.append(U.log_tagged(c, c.int('lv%d%s' % (i, tag), 0, 255), c.int('tg%d%s' % (i, tag), 0, 65535),
                                      c.int('t%d%s' % (i, tag), 0, T63), c.str('s%d%s' % (i, tag), 2).encode()))
            else:
                s.append(U.dropout(c, c.int('d%d%s' % (i, tag), 0, 65535)))
    if what in ('info', 'multi'):
        typ = c.choice('type' + tag, [t for t in sorted(U.TYPES)] + ['char[2]', 'uint8_t[3]'])
        v = [c.str('v%d%s' % (i, tag), 2).encode() if typ == 'char[2]' else c.bytes('v%d%s' % (i, tag), 3)
             if typ == 'uint8_t[3]' else number(c, 'v%d%s' % (i, tag), typ) for i in range(2)]
        if what == 'info':
            d.append(U.info(c, typ + ' key', v[0]))
            s += [U.info(c, 'char[3] other', b'007'), U.info(c, 'int8_t KEY', b'\7')]
        else:
            d.append(U.info_multi(c, 0, typ + ' key', v[0]))
            d.append(U.info_multi(c, c.int('cont' + tag, 0, 1), typ + ' key', v[1]))
            s += [U.info_multi(c, 0, 'char[3] other', b'1e5'), U.info_multi(c, 0, 'int8_t KEY', b'\7')]
    if what == 'params':
        kinds = c.choice('pk' + tag, ['PQ', 'PC', 'QC', 'QQ', 'CC', 'PP'])
        for i, k in enumerate(kinds):
            typ = c.choice('pt%d%s' % (i, tag), ['int32_t', 'float'])
            b = c.bytes('p%d%s' % (i, tag), 4)
            if not c.params.get('nan'):
                x = U.unpack(typ, b)
                c.assume(x == x)
            if k == 'Q':
                d.append(U.param_default(c, c.choice('bits%d%s' % (i, tag), [1, 2, 3]), typ + ' ' + 'Pp'[i], b))
            else:
                (d if k == 'P' else s).append(U.param(c, typ + ' ' + 'Pp'[i], b))
    if what == 'formats':
        d.append(U.msg(c, 'F', c.cat(c.str('fn' + tag, 2, [(0x61, 0x7a)]).encode(), b':', [
            b'int8_t[%d] ' % n + c.str('fn%d%s' % (n, tag), 1, [(0x61, 0x7a)]).encode() + b';'
            for n in range(1, 1 + c.choice('fields' + tag, [0, 1, 2]))])))
    return c.cat(U.header(c, start, 1), U.flags(c, compat, inc, offs), d, s)


def everything(c, u):
    out = public(c, u)
    out['synced'] = (bool(u._has_sync), u._sync_seq_cnt)
    out['appended'] = (bool(u.has_data_appended), list(u._appended_offsets))
    out['version'] = u._file_version
    out['info types'] = (u._msg_info_dict_types, u._msg_info_multiple_dict_types)
    del out['corrupt']
    return out


def roundtrip(c):
    """save, then load by key: the same log, and the same file when written"""
    blob = make(c, c.params['what'])
    path, DB, h = fresh(c)
    f = c.put('a.ulg', blob)
    d = DB(h, log_file=f)
    want = everything(c, U.parse(c, blob))
    expect_same(c, everything(c, d), want, 'before saving')
    c.check_eq(d.primary_key, None, 'not saved yet')
    d.save(append_json=c.flag('json'))
    expect_same(c, everything(c, d), want, 'saving leaves the log unchanged')
    e = DB(h, primary_key=d.primary_key, lazy=False)
    got = everything(c, e)
    expect_same(c, got, want, 'read from the database')
    c.check_eq(e.sha256sum, d.sha256sum, 'digest')
    c.check_eq(e.primary_key, d.primary_key, 'key')
    c.check(bool(U.parse(c, blob) == e), 'compares equal to the file')
    c.check_eq(write(c, e), write(c, d), 'written from the database')
    c.observe('n', len(got['data']))


EXACT = {'double': [0.1 + 0.2, 1 / 3, 5e-324, 1.7976931348623157e308, -0.0, 1e22, 123456789.12345679],
         'float': [0.1, 16777217.0, 1e-45, 3.4e38, 1 / 3], 'int64_t': [2**53 + 1, -2**63, 2**63 - 1, -1],
         'uint64_t': [2**53 + 1, 2**63 - 1, 0], 'int32_t': [-2**31, 2**31 - 1], 'uint32_t': [2**32 - 1], 'bool': [0, 1]}


def exact(c):
    """numbers keep every digit, wherever they are stored"""
    path, DB, h = fresh(c)
    typ = c.choice('type', sorted(EXACT))
    b = U.pack(typ, c.choice('value', EXACT[typ]))
    d = [U.info(c, typ + ' one', b), U.info_multi(c, 0, typ + ' many', b), U.info_multi(c, 1, typ + ' many', b),
         U.fmt(c, 'all:uint64_t timestamp;' + typ + ' v;')]
    s = [U.sub(c, 0, 1, 'all'), U.data(c, 1, c.cat(c.le(2**62 + 1, 8), b))]
    if typ in ('float', 'int32_t'):
        d += [U.param(c, typ + ' P', b), U.param_default(c, 1, typ + ' P', b)]
        s += [U.param(c, typ + ' P', b)]
    x = DB(h, log_file=c.put('a.ulg', c.cat(U.header(c, 10), U.flags(c), d, s)))
    x.save(append_json=c.flag('json'))
    y = DB(h, primary_key=x.primary_key, lazy=False)
    expect_same(c, everything(c, y), everything(c, x), 'loaded')
    v = U.unpack(typ, b) if typ != 'bool' else b != b'\0'
    c.check_eq((y.msg_info_dict['one'], y.msg_info_multiple_dict['many'], list(y.get_dataset('all').data['v'])),
               (v, [[v, v]], [v]), 'values')
    c.check_eq(list(y.get_dataset('all').data['timestamp']), [2**62 + 1], 'time')
    if typ in ('float', 'int32_t'):
        c.check_eq((y.initial_parameters, y.get_default_parameters(0), [p[2] for p in y.changed_parameters]),
                   ({'P': v}, {'P': v}, [v]), 'parameters')


def nan(c):
    """parameters and information that are not numbers"""
    path, DB, h = fresh(c)
    kind = c.choice('kind', ['init', 'default', 'change', 'info', 'multi'])
    q = b'\0\0\xc0\x7f'
    m = {'init': lambda: [U.param(c, 'float P', q)], 'default': lambda: [U.param_default(c, 1, 'float P', q)],
         'change': lambda: [U.log(c, 0x36, 1, b'x'), U.param(c, 'float P', q)],
         'info': lambda: [U.info(c, 'float P', q)], 'multi': lambda: [U.info_multi(c, 0, 'float P', q)]}[kind]()
    d = DB(h, log_file=c.put('a.ulg', c.cat(U.header(c), m)))
    d.save()
    e = DB(h, primary_key=d.primary_key, lazy=False)
    if kind == 'init':
        x = e.initial_parameters['P']
    elif kind == 'default':
        x = e.get_default_parameters(0)['P']
    elif kind == 'change':
        x = e.changed_parameters[0][2]
    elif kind == 'info':
        x = e.msg_info_dict['P']
    else:
        x = e.msg_info_multiple_dict['P'][0][0]
    c.check(isinstance(x, float) and bool(x != x), 'NaN is read as NaN')


def flag_lost(c):
    """whether the file was damaged is also known after loading"""
    path, DB, h = fresh(c)
    bad = c.flag('bad')
    parts = [U.header(c), U.fmt(c, U.fmt_text(NAMED, 'alpha')), U.sub(c, 0, 1, 'alpha'),
             U.data(c, 2 if bad else 1, c.cat(c.le(7, 8), b'1234'))]
    d = DB(h, log_file=c.put('a.ulg', c.cat(parts)))
    c.check_eq(bool(d.file_corruption), bad, 'damage is found')
    d.save()
    e = DB(h, primary_key=d.primary_key, lazy=False)
    c.known('db-corruption-flag', bool(e.file_corruption) == bad, 'the damage is also reported after loading')


def json_columns(c):
    """with append_json every field can be queried as JSON: time stamp to value, null if not finite"""
    path, DB, h = fresh(c)
    fm = {'t': [('uint64_t', 0, 'timestamp'), (c.choice('type', ['float', 'double', 'int16_t', 'uint64_t', 'bool']), 0, 'x')]}
    typ = fm['t'][1][0]
    n = c.params.get('n', 2)
    b = [c.bytes('x%d' % i, U.TYPES[typ][1]) for i in range(n)]
    ts = [c.choice('t%d' % i, [7 + i, 10**18 + i]) for i in range(n)]
    d = DB(h, log_file=c.put('a.ulg', c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 't')), U.sub(c, 0, 1, 't'),
                                            [U.data(c, 1, c.cat(c.le(t, 8), x)) for t, x in zip(ts, b)])))
    d.save(append_json=True)
    con = c.sql(path)
    got = con.execute("select ValueJson from ULogField where TopicName = 'x'").fetchall()
    con.close()
    c.check_eq(len(got), 1, 'one row')
    inf = float('inf')
    parts = []
    for t, x in zip(ts, b):
        v = U.unpack('int8_t' if typ == 'bool' else typ, x)
        if typ in ('float', 'double') and (v != v or v == inf or v == -inf):
            parts.append('"%d":null' % t)
        else:
            parts.append('"%d":' % t + repr(v))
    c.check_eq(got[0][0].replace(' ', ''), '{' + ','.join(parts) + '}', 'JSON of a field')


def pair(c, n=2):
    """n saved logs with a symbolic value each"""
    path, DB, h = fresh(c)
    logs = []
    for i in range(n):
        p = c.put('f%d.ulg' % i, (make(c, c.params['what'] if i == 0 and 'what' in c.params else 'plain', str(i))
                                 if i or 'what' in c.params else sample(c, 0))
                  + (U.info(c, 'char[1] nr', b'%d' % i) if i else b''))
        logs.append(DB(h, log_file=p))
    return path, DB, h, logs


def delete(c):
    """deleting a log removes all of it, and nothing else"""
    path, DB, h, logs = pair(c, 3)
    order = c.choice('order', [[0, 1, 2], [1, 0, 2], [2, 1, 0]])
    js = c.flag('json')
    for i in order:
        logs[i].save(append_json=js)
    pks = [x.primary_key for x in logs]
    c.check(pks[0] != pks[1] and pks[1] != pks[2] and pks[0] != pks[2], 'every log has a key of its own')
    before = [everything(c, DB(h, primary_key=k, lazy=False)) for k in pks]
    gone = c.choice('gone', [0, 1, 2])
    by_key = c.flag('by_key')
    if by_key and not js and order[0] == 0 and c.flag('no_digest'):
        # as stored by early versions
        con = c.sql(path)
        con.execute('update ULog set SHA256Sum = null')
        con.commit()
        con.close()
        null = True
    else:
        null = False
    (DB(h, primary_key=pks[gone]) if by_key else logs[gone]).delete()
    keep = [i for i in range(3) if i != gone]
    for i in range(3):
        c.check_eq(DB.exists_in_db(h, pks[i]), i != gone, 'only the deleted log is gone')
        c.check_eq(DB.primary_key_from_sha256sum(h, logs[i].sha256sum), pks[i] if i != gone and not null else None, 'digest lookup')
    for i in keep:
        expect_same(c, everything(c, DB(h, primary_key=pks[i], lazy=False)), before[i], 'the other logs stay')
    try:
        DB(h, primary_key=pks[gone])
        c.fail('a deleted log cannot be loaded')
    except KeyError:
        pass
    # no traces in any table
    path2, _, h2 = fresh(c, 'other.sqlite3')
    for i in order:
        if i != gone:
            DB(h2, log_file=c.path('f%d.ulg' % i)).save(append_json=js)
    a, b = rows(c, path), rows(c, path2)
    c.check_eq({t: len(a[t]) for t in a}, {t: len(b[t]) for t in b}, 'no rows are left behind')
    if not by_key:
        c.check_eq(logs[gone].primary_key, None, 'a deleted log has no key')
        try:
            logs[gone].delete()
            c.fail('a log that is not stored cannot be deleted')
        except KeyError:
            pass
        c.check_eq({t: len(x) for t, x in rows(c, path).items()}, {t: len(b[t]) for t in b}, 'nothing else is deleted')
        logs[gone].save(append_json=js)
        expect_same(c, everything(c, DB(h, primary_key=logs[gone].primary_key, lazy=False)), before[gone],
                    'it can be saved again')


def dedupe(c):
    """a file is stored once, found by its contents, and never overwritten"""
    path, DB, h = fresh(c)
    a, b = c.bytes('a', 2), c.bytes('b', 2)
    blobs = [c.cat(U.header(c), U.info(c, 'uint16_t k', x), U.fmt(c, 't:uint64_t timestamp;uint8_t x;'), U.sub(c, 0, 1, 't'),
                   U.data(c, 1, c.cat(c.le(9, 8), b'\3'))) for x in (a, b)]
    fa, fb = c.put('a.ulg', blobs[0]), c.put('b.ulg', blobs[1])
    x = DB(h, log_file=fa)
    x.save()
    same = bool(a == b)
    if c.flag('opened'):
        f = open(fb, 'rb')
        y = DB(h, log_file=f)
        f.close()
    else:
        y = DB(h, log_file=fb)
    c.check_eq(y.msg_info_dict, {'k': U.unpack('uint16_t', b)}, 'the file is read')
    c.check_eq(y.sha256sum == x.sha256sum, same, 'digests differ exactly when the contents do')
    n = rows(c, path)
    try:
        y.save()
        c.check(not same, 'the same contents are not stored twice')
        c.check(y.primary_key != x.primary_key, 'another log has another key')
    except KeyError:
        c.check(same, 'different contents can be stored')
        c.check_eq(rows(c, path), n, 'the stored log is unchanged')
        c.check_eq(y.primary_key, x.primary_key, 'the key of the stored log is known')
    n = rows(c, path)
    for z in (x, y):
        try:
            z.save()
            c.fail('a stored log is not stored again')
        except KeyError:
            pass
    c.check_eq(rows(c, path), n, 'the stored logs are unchanged')
    for f, z in ((fa, x), (fb, y)):
        c.check_eq(DB.primary_key_from_sha256sum(h, DB.calc_sha256sum(f)), z.primary_key, 'found by contents')
        e = DB(h, primary_key=z.primary_key)
        c.check_eq(e.msg_info_dict, z.msg_info_dict, 'loaded')
        c.check_eq(z.sha256sum, DB.calc_sha256sum(f), 'a refused log keeps its digest')
        c.check_eq(write(c, z), write(c, U.parse(c, blobs[0 if z is x else 1])), 'it can still be written')
        c.check_eq([d.name for d in z.data_list], ['t'], 'and has its datasets')
        c.check_eq(list(z.get_dataset('t').data['x']), [3], 'with their data')
    c.check_eq(DB.primary_key_from_sha256sum(h, 'nothing'), None, 'unknown digest')
    c.check_eq(DB.calc_sha256sum(None), None, 'no file')
    c.observe('same', same)


def find(c):
    """a digest finds exactly the log that has it"""
    path, DB, h = fresh(c)
    made = []
    for i in range(3):
        made.append(DB(h, log_file=c.put('f%d.ulg' % i, c.cat(U.header(c, i + 2), U.info(c, 'uint16_t k', bytes([i, c.choice('k%d' % i, [0, 1])]))))))
        made[i].save()
    gone = c.choice('gone', [None, 0, 1, 2])
    if gone is not None:
        made[gone].delete()
    for i, x in enumerate(made):
        s = x.sha256sum
        c.check_eq(DB.primary_key_from_sha256sum(h, s), None if gone == i else i + 1, 'found by its digest')
        c.check_eq(bool(DB.exists_in_db(h, i + 1)), gone != i, 'found by its key')
        for bad in (s.upper(), s[:-1], s[1:], s[:8] + '%', '%' + s[8:], s[:-1] + '_', s + ' ', ' ' + s, s + s, s[:-1] + '?', s[:-1] + '*'):
            c.check_eq(DB.primary_key_from_sha256sum(h, bad), None, 'not found by another digest')
    for bad in (0, 4, -1, None, 'x'):
        c.check(not DB.exists_in_db(h, bad), 'not found by another key')
    for bad in ('%', '_' * 64, '', '*', None, '0' * 64, '1', 'SHA256Sum'):
        c.check_eq(DB.primary_key_from_sha256sum(h, bad), None, 'not found by another text')


def no_data(c):
    """a log without datasets, and one without anything: nothing is found in it"""
    path, DB, h = fresh(c)
    fm = U.fmt(c, 't:uint64_t timestamp;') if c.flag('format') else b''
    sub = U.sub(c, 0, 1, 't') if fm and c.flag('subscribed') else b''
    d = DB(h, log_file=c.put('a.ulg', c.cat(U.header(c, 3), fm, sub, U.log(c, 0x36, 4, c.str('s', 1).encode()))))
    d.save()
    want = everything(c, d)
    lazy = c.flag('lazy')
    e = DB(h, primary_key=d.primary_key, lazy=lazy)
    for name, m in (('t', 0), ('t', 1), ('', 0)):
        try:
            e.get_dataset(name, m, caching=c.flag('caching'))
            c.fail('no such dataset')
        except (KeyError, IndexError):
            pass
    expect_same(c, everything(c, e), want, 'an empty log')
    f, g = c.memfile(), c.memfile()
    try:
        e.write_ulog(f)
        c.check(not lazy, 'a lazily loaded log cannot be written')
        d.write_ulog(g)
        c.check_eq(c.filebytes(f), c.filebytes(g), 'written as the original')
    except ValueError:
        c.check(lazy, 'a log can be written')


def digest(c):
    """the digest of an open file is that of the whole file, and the file can still be read"""
    path, DB, h = fresh(c)
    n = c.choice('n', [16, 4095, 4096, 4097, 8192, 12300])
    fill = bytes([c.choice('fill', [0, 7, 10])])
    b = c.cat(U.header(c), fill * (n - 16 - 2), c.bytes('b', 2) if n > 16 else b'')
    p = c.put('a.bin', b)
    want = DB.calc_sha256sum(p)
    at = c.choice('at', [0, 5, n])
    f = open(p, 'rb')
    f.seek(at)
    c.check_eq(DB.calc_sha256sum(f), want, 'open file')
    c.check_eq(f.tell(), at, 'position is kept')
    f.close()
    c.check_eq(DB.calc_sha256sum(f), want, 'closed file')
    k = c.choice('changed', [k for k in (7, 4095, 4096, 6000, 8191, 8192, n - 1) if k < n])
    x = c.bytes('other', 1)
    q = c.put('b.bin', c.cat(b[:k], x, b[k + 1:]))
    c.check_eq(DB.calc_sha256sum(q) == want, bool(b[k:k + 1] == x), 'every byte counts')
    q = c.put('c.bin', b[:k])
    c.check(DB.calc_sha256sum(q) != want, 'the length counts')


def digest_similar(c):
    """files that read the same as text have different digests"""
    path, DB, h = fresh(c)
    x = c.bytes('x', 2)
    a, b = c.choice('pair', [(b'\r\n', b'\n'), (b'\r', b'\n'), (b'\n', b''), (b' ', b''), (b'\0', b''), (b'\0', b' '),
                             (b'\xef\xbb\xbf', b''), (b'a', b'A'), (b'\t', b' '), (b'\x1a', b''), (b'ab', b'ba'),
                             (b'\x2f\x73\x13\x20\x25\x0c\xbb\x12', b'')])
    pre = b'u' * c.choice('pre', [0, 1, 4094, 4095])
    tail = c.flag('tail')
    p = c.put('a.bin', c.cat(pre, a, x if tail else b''))
    q = c.put('b.bin', c.cat(pre, b, x if tail else b''))
    c.check(DB.calc_sha256sum(p) != DB.calc_sha256sum(q), 'different files have different digests')
    if tail:        # the difference between the first and the second file moved behind it
        r = c.put('c.bin', c.cat(pre, x, a))
        same = c.cat(x, a) == c.cat(a, x)
        c.check_eq(DB.calc_sha256sum(r) == DB.calc_sha256sum(p), bool(same), 'the order of the bytes counts')


def refused(c):
    """constructor arguments and schema versions"""
    path, DB, h = fresh(c)
    v = c.choice('version', [0, 1, 4, 5, 6])
    con = c.sql(path)
    con.execute('PRAGMA user_version = %d' % v)
    con.commit()
    con.close()
    f = c.put('a.ulg', c.cat(U.header(c)))
    k = c.choice('kind', ['both', 'none', 'file', 'missing'])
    try:
        if k == 'both':
            DB(h, primary_key=1, log_file=f)
        elif k == 'none':
            DB(h)
        elif k == 'file':
            DB(h, log_file=f)
        else:
            DB(h, primary_key=c.choice('pk', [1, 2, 1000]))
        c.check(k == 'file' and v >= 5, 'accepted only with one source and a current schema')
    except ValueError:
        c.check(v < 5 or k in ('both', 'none'), 'refused')
    except KeyError:
        c.check(v >= 5 and k == 'missing', 'no such log')


# ------------------------------------------------------------------ faults

class Plan:
    """fails at the given statement; between statements another connection looks at the database"""

    def __init__(self, at, look=None, dead=False):
        self.n = 0
        self.at = at
        self.look = look
        self.dead = dead        # everything behind the failing statement fails, too

    def step(self):
        if self.n == self.at or (self.dead and 0 <= self.at < self.n):
            self.n += 1
            raise sqlite3.OperationalError('disk I/O error')
        self.n += 1
        if self.look is not None:
            self.look()


class Wrapped:
    """passes everything on to the wrapped object"""

    def __init__(self, obj, plan):
        self.__dict__['obj'] = obj
        self.__dict__['plan'] = plan

    def __getattr__(self, name):
        return getattr(self.obj, name)

    def __setattr__(self, name, value):
        setattr(self.obj, name, value)

    def __iter__(self):
        return iter(self.obj)

    def __next__(self):
        return next(self.obj)


class FaultyCursor(Wrapped):
    def execute(self, *a):
        self.plan.step()
        self.obj.execute(*a)
        return self

    def executemany(self, *a):
        self.plan.step()
        self.obj.executemany(*a)
        return self


class FaultyConnection(Wrapped):
    Cursor = FaultyCursor

    def cursor(self):
        return self.Cursor(self.obj.cursor(), self.plan)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def commit(self):
        self.plan.step()
        self.obj.commit()

    def __enter__(self):
        self.obj.__enter__()
        return self

    def __exit__(self, *a):
        return self.obj.__exit__(*a)


def sample(c, i=0, formats=(), more=(), nr=None):
    """a log with one of everything"""
    nr = c.bytes('nr%d' % i, 2) if nr is None else nr
    body = c.cat([U.fmt(c, U.fmt_text(NAMED, k)) for k in NAMED], formats, U.info(c, 'uint16_t nr', nr),
                 U.info_multi(c, 0, 'char[1] mm', b'a'),
                 U.info_multi(c, 1, 'char[1] mm', b'b'), U.param(c, 'int32_t P', c.bytes('p%d' % i, 4)),
                 U.param_default(c, 3, 'int32_t P', b'\1\0\0\0'), U.sub(c, 0, 7, 'alpha'), U.sub(c, 1, 3, 'alpha'),
                 U.data(c, 7, c.cat(c.le(20, 8), c.bytes('d%d' % i, 4))), U.data(c, 3, c.cat(c.le(21, 8), b'abcd')),
                 U.log(c, 0x36, 30, b'hi'), U.log_tagged(c, 0x36, 5, 30, b'hi'), U.dropout(c, 7), U.dropout(c, 0xffff),
                 U.param(c, 'int32_t P', b'\2\0\0\0'), more)
    n = 16 + 43 + len(body)
    return c.cat(U.header(c, 10), U.flags(c, b'\0' * 8, b'\1' + b'\0' * 7, [n, 0, 0]), body, U.log(c, 0x36, 31, b'end'))


def atomic(c):
    """a fault at any statement of save or delete: the database is as before, and the operation can be repeated"""
    path, DB, h = fresh(c)
    other = DB(h, log_file=c.put('o.ulg', sample(c, 0)))
    c.assume(c.again('nr0') != b'\x07\x01')
    other.save()
    f = c.put('a.ulg', sample(c, 1, nr=b'\x07\x01'))
    op = c.choice('op', ['save', 'json', 'delete'])
    plan = Plan(-1)

    def handle():
        return FaultyConnection(h(), plan)
    x = DB(handle, log_file=f)
    want = everything(c, x)
    if op == 'delete':
        x.save()
    pk = x.primary_key
    before = rows(c, path)
    plan.n = 0
    plan.at = c.choice('at', list(range(c.params.get('steps', 45))))

    def run():
        if op == 'delete':
            x.delete()
        else:
            x.save(append_json=op == 'json')
    try:
        run()
        failed = False
    except sqlite3.OperationalError:
        failed = True
    plan.at = -1
    if failed:
        c.check_eq(rows(c, path), before, 'nothing is stored by a failed operation')
        c.check_eq(x.primary_key, pk, 'the key is as before')
        run()
    if op == 'delete':
        c.check(not DB.exists_in_db(h, pk), 'deleted')
    else:
        expect_same(c, everything(c, DB(h, primary_key=x.primary_key, lazy=False)), want, 'saved')
    c.check_eq(DB(h, primary_key=other.primary_key, lazy=False).msg_info_dict['nr'], U.unpack('uint16_t', c.again('nr0')),
               'the other log stays')
    c.observe('failed', failed)


def isolated(c):
    """another connection sees either nothing of a log or all of it"""
    path, DB, h = fresh(c)
    f = c.put('a.ulg', sample(c, 0))
    seen = []

    def look():
        r = rows(c, path)
        seen.append(sum(len(r[t]) for t in r))
    plan = Plan(-1)

    def handle():
        return FaultyConnection(h(), plan)
    x = DB(handle, log_file=f)
    plan.look = look
    x.save(append_json=c.flag('json'))
    plan.look = None
    r = rows(c, path)
    total = sum(len(r[t]) for t in r)
    c.check(len(seen) > 10, 'statements were watched')
    c.check(all(n in (0, total) for n in seen), 'no partial log is visible')
    c.check(total > 15, 'the log is stored')
    seen.clear()
    plan.look = look
    x.delete()
    plan.look = None
    c.check(all(n in (0, total) for n in seen), 'no partial log is visible')
    r = rows(c, path)
    c.check_eq(sum(len(r[t]) for t in r), 0, 'deleted')


def concurrent(c):
    """an operation that runs between any two statements of another one: as if they ran one after the other, or refused"""
    path, DB, h = fresh(c)
    nr = [c.bytes('x0', 2), c.bytes('x1', 2)]
    c.assume(nr[0] != b'\0\0')
    c.assume(nr[1] != b'\0\0')
    first = c.choice('first', c.params.get('first', ['save', 'json', 'delete', 'load', 'dataset']))
    second = c.choice('second', c.params.get('second', ['save', 'delete', 'load']))
    at = c.choice('at', list(range(c.params.get('steps', 60))))
    files = [c.put('f%d.ulg' % i, sample(c, i, nr=x)) for i, x in enumerate(nr + [b'\0\0'])]
    c.assume(c.again('p0') == c.again('p1'))
    c.assume(c.again('d0') == c.again('d1'))
    same = second == 'save' and first in ('save', 'json') and bool(nr[0] == nr[1])
    old = DB(h, log_file=files[2])
    old.save()
    pk = old.primary_key
    want = [everything(c, DB(h, log_file=f)) for f in files]

    def busy():
        con = h()
        con.execute('PRAGMA busy_timeout = 0')
        return con
    plan = Plan(-1)

    def handle():
        return FaultyConnection(busy(), plan)
    xa = DB(handle, log_file=files[0]) if first in ('save', 'json') else DB(handle, primary_key=pk, lazy=first != 'reread')
    xb = DB(busy, log_file=files[1]) if second == 'save' else DB(busy, primary_key=pk)
    loaded = {}

    def run(who, op):
        x = xa if who == 'a' else xb
        try:
            if op in ('save', 'json'):
                x.save(append_json=op == 'json')
            elif op == 'delete':
                x.delete()
            elif op == 'load':
                loaded[who] = everything(c, DB(handle if who == 'a' else busy, primary_key=pk, lazy=False))
            elif op == 'reread':
                ds = x.get_dataset('alpha', 0, caching=False)
                loaded[who] = everything(c, x)
                c.check_eq([(k, list(v)) for k, v in ds.data.items()], want[2]['data'][0][4], 'a dataset that is read again')
            else:
                for m in (0, 1):
                    x.get_dataset('alpha', m)
                loaded[who] = everything(c, x)
            return 'ok'
        except (KeyError, sqlite3.IntegrityError, sqlite3.OperationalError) as e:
            return type(e).__name__
    done = {}

    def look():
        if plan.n == at + 1 and 'b' not in done:
            done['b'] = None
            done['b'] = run('b', second)
    plan.n = 0
    plan.look = look
    a = run('a', first)
    plan.look = None
    b = done.get('b')
    c.assume(b is not None)
    c.observe('outcome', (a, b))
    c.check(a == 'ok' or b == 'ok', 'one of them succeeds')
    deletes = [k for k, r in ((first, a), (second, b)) if k == 'delete' and r == 'ok']
    saves = [i for i, k, r in ((0, first, a), (1, second, b)) if k in ('save', 'json') and r == 'ok']
    c.check(len(saves) < 2 or not same, 'the same contents are stored once')
    for who, op, r in (('a', first, a), ('b', second, b)):
        if op in ('load', 'dataset', 'reread'):
            if r == 'ok':
                expect_same(c, loaded[who], want[2], 'a log that is read is whole')
            else:
                c.check(len(deletes) > 0, 'a stored log can be read')
    # what failed can be repeated
    for who, op, r in (('a', first, a), ('b', second, b)):
        if op in ('save', 'json') and r != 'ok':
            r = run(who, op)
            c.check((r == 'ok') != (same and len(saves) > 0), 'saved when repeated, unless it is already stored')
            if r == 'ok':
                saves.append(0 if who == 'a' else 1)
        elif op == 'delete' and r != 'ok':
            c.check_eq(run(who, op), 'ok', 'deleted when repeated')
            deletes.append(op)
    stored = saves + ([] if deletes else [2])
    path2, _, h2 = fresh(c, 'other.sqlite3')
    for i in stored:
        DB(h2, log_file=files[i]).save()
    u, v = rows(c, path), rows(c, path2)
    c.check_eq({t: len(u[t]) for t in u}, {t: len(v[t]) for t in v}, 'the database holds exactly the logs that were stored')
    for i in stored:
        k = DB.primary_key_from_sha256sum(h, DB.calc_sha256sum(files[i]))
        expect_same(c, everything(c, DB(h, primary_key=k, lazy=False)), want[i], 'a stored log is whole')


def stale(c):
    """a log that was deleted, and possibly stored again, behind the back of an object"""
    path, DB, h = fresh(c)
    nr = [c.bytes('x0', 2), c.bytes('x1', 2)]
    c.assume(nr[0] != nr[1])
    files = [c.put('f%d.ulg' % i, sample(c, i, nr=x)) for i, x in enumerate(nr)]
    first = DB(h, log_file=files[0])
    first.save()
    pk = first.primary_key
    other = DB(h, log_file=files[1])
    other.save()
    x = first if c.flag('writer') else DB(h, primary_key=pk)
    DB(h, primary_key=pk).delete()
    again = DB(h, log_file=files[0])
    if c.flag('again'):
        again.save()
        c.check(again.primary_key != other.primary_key, 'a key of its own')
        c.assume(again.primary_key != pk)       # SQLite may use the key of a deleted row again
    n = rows(c, path)
    op = c.choice('op', ['delete', 'dataset', 'save', 'load'])
    want = everything(c, DB(h, log_file=files[0]))
    try:
        if op == 'delete':
            x.delete()
        elif op == 'dataset':
            d = x.get_dataset('alpha', 0)
            c.check_eq([list(d.data), [list(v) for v in d.data.values()]],
                       [list(first.data_list[0].data), [list(v) for v in first.data_list[0].data.values()]], 'whole')
        elif op == 'load':
            expect_same(c, everything(c, DB(h, primary_key=pk, lazy=False)), want, 'whole')
        else:
            x.save()
            c.check(not c.flag('again'), 'the same contents are stored once')
            n = None
    except (KeyError, IndexError, ValueError, sqlite3.IntegrityError):
        pass
    if n is not None:
        c.check_eq(rows(c, path), n, 'no other log is affected')
    for z in [other] + ([again] if c.flag('again') else []):
        c.check(DB.exists_in_db(h, z.primary_key), 'the other logs are still there')
        expect_same(c, everything(c, DB(h, primary_key=z.primary_key, lazy=False)),
                    everything(c, DB(h, log_file=files[1 if z is other else 0])), 'the other logs are whole')


# ------------------------------------------------------------------- lazy

def lazy(c):
    """datasets loaded on demand are the same, whatever the order of the requests"""
    path, DB, h = fresh(c)
    d = DB(h, log_file=c.put('a.ulg', sample(c, 0, [U.fmt(c, 'ALPHA:uint64_t timestamp;int8_t v;')], [
        U.sub(c, 0, 9, 'ALPHA'), U.data(c, 9, c.cat(c.le(22, 8), c.bytes('w', 1)))])))
    d.save()
    want = everything(c, d)
    e = DB(h, primary_key=d.primary_key, lazy=True)
    got = everything(c, e)
    for k in want:
        if k != 'data':
            c.check_eq(got[k], want[k], 'lazily loaded: ' + k)
    c.check_eq([x[:3] for x in got['data']], [x[:3] for x in want['data']], 'datasets')
    c.check_eq([list(x.data) for x in e.data_list], [[]] * 3, 'not loaded yet')
    f = c.memfile()
    try:
        e.write_ulog(f)
        c.fail('cannot be written without its data')
    except ValueError:
        c.check_eq(c.filebytes(f), b'', 'nothing is written')
    have = {}
    by = [(x[0], x[1]) for x in want['data']]
    c.check_eq(by, [('ALPHA', 0), ('alpha', 0), ('alpha', 1)], 'order')
    for i in range(c.params.get('n', 2)):
        m = c.choice('multi%d' % i, [0, 1, 2])
        op = c.choice('op%d' % i, ['cached', 'fresh', 'meta'])
        if op == 'meta':
            ds = e.get_dataset(*by[m], lazy=True)
            c.check_eq((ds.name, ds.multi_id, ds.msg_id, ds.timestamp_idx), want['data'][m][:3] + (0,), 'meta data')
            continue
        ds = e.get_dataset(*by[m], caching=op == 'cached')
        full = (ds.name, ds.multi_id, ds.msg_id, [(x.field_name, x.type_str) for x in ds.field_data],
                [(k, list(v)) for k, v in ds.data.items()])
        c.check_eq(full, want['data'][m], 'dataset')
        c.check_eq(ds.timestamp_idx, 0, 'timestamp index')
        if op == 'cached':
            c.check(m not in have or ds is have[m], 'loaded once')
            have[m] = ds
        else:
            c.check(m not in have or ds is not have[m], 'read again')
    for m in (0, 1, 2):
        c.check_eq(len(e.data_list[m].data) > 0, m in have, 'only what was asked for is kept')
    for name, m in (('alpha', c.choice('no', [2, 255])), ('ALPHA', 1), ('Alpha', 0), ('beta', 0), ('nope', 0)):
        try:
            e.get_dataset(name, m)
            c.fail('no such dataset')
        except (KeyError, IndexError):
            pass
    for k in by:
        e.get_dataset(*k)
    expect_same(c, everything(c, e), want, 'all loaded')


# --------------------------------------------------------------- migration

def version_of(c, path):
    con = c.sql(path)
    v = con.execute('PRAGMA user_version').fetchone()[0]
    con.close()
    return v


def schema(c, path):
    con = c.sql(path)
    out = sorted([r[0] + ' ' + (r[1] or '') for r in con.execute('select name, sql from sqlite_master').fetchall()])
    con.close()
    return out


def scripts(c, n, bad=None, body=None):
    """a directory of n migration scripts; number bad is damaged"""
    d = c.mkdir('sql')
    for i in range(1, n + 1):
        text = 'BEGIN;\nCREATE TABLE T%d (x INT);\nINSERT INTO T%d VALUES (%d);\nCOMMIT;\n' % (i, i, i)
        if i == bad:
            text = {'no_begin': text[7:], 'no_commit': text[:-8], 'error': text.replace('INSERT', 'INSURT'),
                    'before': 'CREATE TABLE B (x INT);\n' + text, 'after': text + 'CREATE TABLE A (x INT);\n',
                    'empty': '', 'missing': ''}[body]
        if not (i == bad and body == 'missing'):
            c.put('sql/pyulog.%d.sql' % i, text.encode())
    return d


def tables(c, path):
    con = c.sql(path)
    out = []
    for (t,) in con.execute("select name from sqlite_master where type = 'table' order by name").fetchall():
        out.append((t, [r[0] for r in con.execute('select * from "%s"' % t).fetchall()]))
    con.close()
    return out


def sequence(c):
    """scripts run once each, in order, and stop at the first that is missing or wrong"""
    m = c.load('pyulog.migrate_db')
    path = c.path('x.sqlite3')
    N = 5
    start = c.choice('start', [None, 0, 1, 3, 5, 6])
    bad = c.choice('bad', [None, 1, 3, 5])
    body = c.choice('body', ['no_begin', 'no_commit', 'error', 'before', 'after', 'empty', 'missing']) if bad else None
    d = scripts(c, N, bad, body)
    if start is not None:
        con = c.sql(path)
        con.execute('PRAGMA user_version = %d' % start)
        con.execute('CREATE TABLE Old (x INT)')
        con.commit()
        con.close()
    force, noop = c.flag('force'), c.flag('noop')
    old = [('Old', [])] if start is not None else []
    first = (start or 0) + 1
    how = c.choice('how', ['call', 'short', 'long'])
    try:
        if how == 'call':
            m.migrate_db(path, sql_dir=d, noop=noop, force=force)
        elif how == 'short':
            c.cli('pyulog.migrate_db', ['-d', path, '-s', d] + (['-n'] if noop else []) + (['-f'] if force else []))
        else:
            c.cli('pyulog.migrate_db', (['--force'] if force else []) + (['--noop'] if noop else []) + [
                '--sql', d, '--database', path])
        err = None
    except Exception as e:
        err = type(e).__name__
    exists = os.path.exists(path)
    if start == 0 and not force:
        c.check_eq(err, 'FileExistsError', 'a database of unknown state is refused')
        c.check_eq(tables(c, path), old, 'and left alone')
        return
    stop = bad if bad is not None and bad >= first else None
    if noop:
        if start is None:
            c.check(not exists, 'no database is created')
            m.migrate_db(path, sql_dir=scripts(c, N))
            c.check_eq(version_of(c, path), N, 'it can be created afterwards')
            return
        c.check_eq(tables(c, path), old, 'nothing is executed')
        c.check_eq(version_of(c, path), start or 0, 'the version stays')
        return
    c.check_eq(err is None, stop is None, 'fails exactly when a script that is needed is bad')
    last = (stop or N + 1) - 1
    want = old + [('T%d' % i, [i]) for i in range(first, last + 1)]
    c.check_eq(tables(c, path), want, 'every script is executed once, as a whole')
    c.check_eq(version_of(c, path), max(last, start or 0), 'the version counts the scripts')
    if stop:
        d = scripts(c, N)
    m.migrate_db(path, sql_dir=d, force=force or (start in (None, 0) and last == 0))
    c.check_eq(tables(c, path), old + [('T%d' % i, [i]) for i in range(first, N + 1)], 'resumes where it stopped')
    c.check_eq(version_of(c, path), max(N, start or 0), 'final version')
    m.migrate_db(path, sql_dir=d)
    c.check_eq(tables(c, path), old + [('T%d' % i, [i]) for i in range(first, N + 1)], 'nothing is done twice')


def no_dir(c):
    m = c.load('pyulog.migrate_db')
    try:
        m.migrate_db(c.path('x.sqlite3'), sql_dir=c.path('nowhere'))
        c.fail('a missing directory is an error')
    except NotADirectoryError:
        pass


class CrashCursor(FaultyCursor):
    """executes scripts one statement at a time and stops at the given one"""

    def executescript(self, text):
        con = self.obj.connection
        level = con.isolation_level
        con.isolation_level = None      # commits, as executescript does
        try:
            part = ''
            for piece in text.split(';'):
                part += piece + ';'
                if sqlite3.complete_statement(part):
                    self.plan.step()
                    self.obj.execute(part)
                    part = ''
            if part.strip(' \n\t;'):
                self.obj.execute(part[:-1])
        except sqlite3.OperationalError:
            # nobody is left to commit what is pending
            con.rollback()
            raise
        con.isolation_level = level
        return self


class CrashConnection(FaultyConnection):
    Cursor = CrashCursor

    def __exit__(self, kind, *a):
        if kind is not None:
            # a crash: what is not committed is lost
            self.obj.rollback()
            self.obj.close()
            return False
        return self.obj.__exit__(kind, *a)


def old_database(c, path, v):
    """a database as schema version v left it, with one log and symbolic values"""
    m = c.load('pyulog.migrate_db')
    DB = c.load('pyulog.db').DatabaseULog
    DB.SCHEMA_VERSION, now = v, DB.SCHEMA_VERSION
    m.migrate_db(path)
    DB.SCHEMA_VERSION = now
    c.check_eq(version_of(c, path), v, 'harness')
    con = c.sql(path)
    ts = [c.int('ts%d' % i, 0, 2**53 if v < 4 else T63) for i in range(3)]
    real = (lambda x: float(x)) if v < 4 else (lambda x: x)
    con.execute('insert into ULog (Id, FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, '
                'HasSync) values (?, ?, ?, ?, ?, ?, ?, ?)', (4, 1, ts[0], ts[1], '\1' + '\0' * 7, '\0' * 8, 3, 1))
    con.execute('insert into ULogAppendedOffsets (SeriesIndex, Offset, ULogId) values (0, ?, 4)', (c.int('off', 0, T63),))
    con.execute("insert into ULogDataset (Id, DatasetName, MultiId, MessageId, TimestampIndex, ULogId) values (9, 't', 2, 5, 0, 4)")
    blob = c.bytes('blob', 8)
    con.execute("insert into ULogField (Id, TopicName, DataType, ValueArray, DatasetId) values (11, 'timestamp', 'uint64_t', ?, 9)",
                (blob,))
    con.execute('insert into ULogMessageDropout (Timestamp, Duration, ULogId) values (?, ?, 4)', (ts[2], c.int('dur', 0, 65535)))
    con.execute("insert into ULogMessageFormat (Id, Name, ULogId) values (13, 't', 4)")
    con.execute("insert into ULogMessageFormatField (FieldType, ArraySize, Name, MessageId) values ('uint64_t', 0, 'timestamp', 13)")
    text = c.str('text', 3)
    con.execute('insert into ULogMessageLogging (LogLevel, Timestamp, Message, ULogId) values (?, ?, ?, 4)',
                (c.int('lv', 0, 255), ts[2], text))
    con.execute('insert into ULogMessageLoggingTagged (LogLevel, Timestamp, Tag, Message, ULogId) values (?, ?, ?, ?, 4)',
                (54, ts[1], c.int('tag', 0, 65535), text))
    con.execute("insert into ULogMessageInfo (Key, Typename, Value, ULogId) values ('k', 'int32_t', ?, 4)",
                (c.int('info', -2**31, 2**31 - 1),))
    con.execute("insert into ULogMessageInfoMultiple (Id, Key, Typename, ULogId) values (17, 'm', 'char[3]', 4)")
    con.execute('insert into ULogMessageInfoMultipleList (Id, SeriesIndex, MessageId) values (19, 0, 17)')
    con.execute('insert into ULogMessageInfoMultipleListElement (Id, SeriesIndex, Value, ListId) values (23, 0, ?, 19)', (text,))
    con.execute("insert into ULogInitialParameter (Key, Value, ULogId) values ('P', ?, 4)", (c.int('par', -2**31, 2**31 - 1),))
    con.execute("insert into ULogChangedParameter (Timestamp, Key, Value, ULogId) values (?, 'P', 1.5, 4)", (ts[0],))
    con.execute("insert into ULogDefaultParameter (DefaultType, Key, Value, ULogId) values (0, 'P', 2, 4)")
    if c.flag('two'):
        con.execute("insert into ULog (Id, FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, "
                    "HasSync) values (6, 0, 1, 2, '12345678', '12345678', 0, 0)")
    con.commit()
    con.close()
    return ts, blob, text


def check_old(c, path, made):
    """the log of old_database, read with the current code"""
    ts, blob, text = made
    DB = c.load('pyulog.db').DatabaseULog
    h = DB.get_db_handle(path)
    u = DB(h, primary_key=4, lazy=False)
    c.check_eq((u.start_timestamp, u.last_timestamp), (ts[0], ts[1]), 'start and last time')
    c.check_eq((u._compat_flags, u._incompat_flags, u._sync_seq_cnt, bool(u._has_sync)),
               ([1] + [0] * 7, [0] * 8, 3, True), 'flags')
    c.check_eq(u._appended_offsets, [c.int('off', 0, T63)], 'appended offsets')
    c.check_eq([(d.name, d.multi_id, d.msg_id, d.timestamp_idx, list(d.data)) for d in u.data_list],
               [('t', 2, 5, 0, ['timestamp'])], 'datasets')
    c.check_eq(list(u.data_list[0].data['timestamp']), [U.unpack('uint64_t', blob)], 'values')
    c.check_eq([(d.timestamp, d.duration) for d in u.dropouts], [(ts[2], c.int('dur', 0, 65535))], 'dropouts')
    c.check_eq({k: [tuple(x) for x in f.fields] for k, f in u.message_formats.items()},
               {'t': [('uint64_t', 0, 'timestamp')]}, 'formats')
    c.check_eq([(x.log_level, x.timestamp, x.message) for x in u.logged_messages], [(c.int('lv', 0, 255), ts[2], text)],
               'messages')
    c.check_eq([(x.log_level, x.tag, x.timestamp, x.message) for x in u.logged_messages_tagged[c.int('tag', 0, 65535)]],
               [(54, c.int('tag', 0, 65535), ts[1], text)], 'tagged messages')
    c.check_eq(u.msg_info_dict, {'k': c.int('info', -2**31, 2**31 - 1)}, 'information')
    c.check_eq(u.msg_info_multiple_dict, {'m': [[text]]}, 'multi information')
    c.check_eq(u.initial_parameters, {'P': c.int('par', -2**31, 2**31 - 1)}, 'parameters')
    c.check_eq([tuple(x) for x in u.changed_parameters], [(ts[0], 'P', 1.5)], 'changed parameters')
    c.check_eq(u.get_default_parameters(0), {'P': 2}, 'defaults')
    for x in [u.start_timestamp, u.last_timestamp, u.dropouts[0].timestamp, u.dropouts[0].duration,
              u.logged_messages[0].timestamp, u.changed_parameters[0][0]]:
        c.check(isinstance(x, int), 'times are integers')
    n = c.flag('two')
    c.check_eq(DB.exists_in_db(h, 6), n, 'the other log')
    u.delete()
    r = rows(c, path)
    c.check_eq(sum(len(r[t]) for t in r), 1 if n else 0, 'a migrated log can be deleted completely')


def upgrade(c):
    """a database of any earlier version keeps its contents, and has the same schema as a new one"""
    path = c.path('old.sqlite3')
    v = c.choice('from', [1, 2, 3, 4, 5])
    made = old_database(c, path, v)
    m = c.load('pyulog.migrate_db')
    m.migrate_db(path)
    c.check_eq(version_of(c, path), 5, 'current version')
    new = c.path('new.sqlite3')
    m.migrate_db(new)
    c.check_eq(schema(c, path), schema(c, new), 'the schema is that of a new database')
    check_old(c, path, made)


def crash(c):
    """stopped at any statement: a second run completes the migration, with all data"""
    path = c.path('old.sqlite3')
    v = c.choice('from', c.params.get('from', [1, 2, 3, 4]))
    made = old_database(c, path, v)
    m = c.load('pyulog.migrate_db')
    DB = m.DatabaseULog
    real = DB.get_db_handle
    total = {1: 110, 2: 42, 3: 39, 4: 19}[v]
    plan = Plan(c.choice('at', list(range(total))), dead=True)

    def handle(p):
        h = real(p)

        def f():
            return CrashConnection(h(), plan)
        return f
    DB.get_db_handle = staticmethod(handle)
    try:
        m.migrate_db(path)
        done = True
    except sqlite3.OperationalError:
        done = False
    finally:
        plan.at = -1
        DB.get_db_handle = staticmethod(real)
    if done:
        c.check_eq(version_of(c, path), 5, 'done')
    else:
        c.check(v <= version_of(c, path) <= 5, 'interrupted')
    m.migrate_db(path)
    c.check_eq(version_of(c, path), 5, 'current version')
    new = c.path('new.sqlite3')
    m.migrate_db(new)
    c.check_eq(schema(c, path), schema(c, new), 'the schema is that of a new database')
    check_old(c, path, made)
    c.observe('done', done)
