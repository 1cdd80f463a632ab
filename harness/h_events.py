"""Logged messages and PX4 events; raw GPS data."""
import lzma

from . import ulog as U
from .h_core import LEVELS
from .h_tools import hms

EV = {'event': [('uint64_t', 0, 'timestamp'), ('uint32_t', 0, 'id'), ('uint16_t', 0, 'event_sequence'),
                ('uint8_t', 2, 'arguments'), ('uint8_t', 0, 'log_levels')]}
LEVEL_NAMES = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']


class Event:
    def __init__(self, eid, args, defs):
        self.eid, self.args, self.defs = eid, args, defs

    def group(self):
        return 'default' if self.eid & 2 == 0 else 'calibration'

    def message(self):
        return event_text(self.defs, self.eid, self.args)


def event_text(defs, eid, args):
    if eid == 12:
        return ''
    return defs + ' event ' + str(eid) + ' ' + ''.join(['{:02x}'.format(a) for a in args])


class Parser:
    """stands in for the libevents submodule (not part of this checkout)"""
    def __init__(self):
        self.defs = None
        self.profile = None

    def load_definitions(self, d):
        self.defs = d['name']

    def set_profile(self, p):
        self.profile = p

    def parse(self, eid, args):
        if self.defs is None or self.profile != 'dev' or eid & 1 == 1:
            return None
        return Event(eid, args, self.defs)


class Mod:
    Parser = Parser


def stub(c):
    c.stub('pyulog.libevents_parse', Mod)
    c.stub('pyulog.libevents_parse.parser', Mod)


def event(c, i, hi=2**50):
    """bytes of one event sample and its description"""
    t = U.unpack('uint64_t', c.le(c.int('et%d' % i, 0, hi), 8))
    eid = U.unpack('uint32_t', c.bytes('id%d' % i, 4))
    args = c.bytes('args%d' % i, 2)
    lv = c.bytes('lv%d' % i, 1)
    return c.cat(c.le(t, 8), c.bytes('id%d' % i, 4), c.bytes('seq%d' % i, 2), args, lv), (t, eid, args, lv[0])


def event_lines(evs, defs):
    """what the events of a log are shown as"""
    out = []
    for t, eid, args, lv in evs:
        ext = lv // 16
        if ext >= 8:
            continue
        name = 'UNKNOWN'
        for k in range(8):
            if ext == k:
                name = LEVEL_NAMES[k]
        if defs is None or eid & 1 == 1:
            out.append((t, name, '[Unknown event with ID ' + str(eid) + ']'))
        elif eid & 2 == 0:
            out.append((t, name, event_text(defs, eid, args)))
    return out


def metadata(c, name, parts=2):
    x = lzma.compress(('{"name": "' + name + '"}').encode())
    n = len(x) // parts
    cuts = [x[:n], x[n:]] if parts == 2 else [x]
    return [U.info_multi(c, 1 if i else 0, 'uint8_t[%d] metadata_events' % len(p), p) for i, p in enumerate(cuts)]


def events(c):
    """get_logged_events: external level, unknown ids, groups, where the definitions come from"""
    stub(c)
    ev = c.load('pyulog.px4_events')
    core = c.load('pyulog.core')
    samples, evs = [], []
    for i in range(c.params.get('n', 1)):
        b, d = event(c, i)
        samples.append(U.data(c, 1, b))
        evs.append(d)
    meta = c.choice('meta', c.params.get('meta') or ['both', 'nohash', 'nodata', 'none'])
    parts = [U.header(c), U.fmt(c, U.fmt_text(EV, 'event'))]
    good = False
    if meta in ('both', 'nodata'):
        h = c.choice('hash', ['text', 'long', 'ok64'])
        if h == 'text':
            h = c.str('h', 2)
            good = True
            for i in range(2):
                o = ord(h[i])
                good = c.and_(good, c.or_(c.and_(o >= 48, o <= 57), c.and_(o >= 65, o <= 90), c.and_(o >= 97, o <= 122)))
        else:
            good = h == 'ok64'
            h = 'a' * (64 if good else 65)
        parts.append(U.info(c, 'char[%d] metadata_events_sha256' % len(h), h.encode()))
    if meta in ('both', 'nohash'):
        parts += metadata(c, 'mine', c.choice('parts', [1, 2]))
    with_topic = c.flag('with_topic')
    parts += [U.sub(c, 0, 1, 'event')] + samples if with_topic else []
    u = core.ULog(c.memfile(c.cat(parts)))
    p = ev.PX4Events()
    default = c.choice('default', ['defs', 'none', 'error'])
    calls = []

    def cb(have):
        calls.append(have)
        if default == 'error':
            raise OSError('no network')
        return {'name': 'std'} if default == 'defs' and not have else None
    p.set_default_json_definitions_cb(cb)
    got = p.get_logged_events(u)
    if not with_topic:
        want = []
    elif meta == 'both' and good:
        want = event_lines(evs, 'mine')
        c.check_eq(calls, [], 'the definitions of the log are preferred')
    elif default == 'error':
        want = []
    else:
        want = event_lines(evs, 'std' if default == 'defs' else None)
        c.check_eq(calls, [False], 'asked for the default definitions')
    c.check_eq([tuple(x) for x in got], want, 'events')
    if with_topic and default == 'defs':
        c.check_eq([tuple(x) for x in p.get_logged_events(u)], want, 'asking again')
        c.check(True not in calls or calls == [False, True], 'the default definitions are kept')


def several(c):
    """one PX4Events object for several logs: each is shown with its own definitions, or the latest default ones"""
    stub(c)
    ev, core = c.load('pyulog.px4_events'), c.load('pyulog.core')
    p = ev.PX4Events()
    calls = []
    std = None
    state = ['none']

    def cb(have):
        calls.append(have)
        if state[0] == 'error':
            raise OSError('no network')
        return {'name': state[0]} if state[0] != 'none' else None
    p.set_default_json_definitions_cb(cb)
    for i in range(c.params.get('n', 3)):
        d = (5, U.unpack('uint32_t', c.bytes('id%d' % i, 4)), b'\1\2', 0x66)
        c.assume(d[1] != 12)
        b = c.cat(c.le(5, 8), c.bytes('id%d' % i, 4), b'\0\0\1\2\x66')
        own = c.flag('own%d' % i)
        state[0] = 'none'
        parts = [U.header(c), U.fmt(c, U.fmt_text(EV, 'event'))]
        if own:
            parts += [U.info(c, 'char[2] metadata_events_sha256', b'a1'), metadata(c, 'mine%d' % i)]
        else:
            state[0] = c.choice('cb%d' % i, ['none', 'std%d' % i, 'error'])
        u = core.ULog(c.memfile(c.cat(parts, U.sub(c, 0, 1, 'event'), U.data(c, 1, b))))
        calls.clear()
        before = std
        if state[0] not in ('none', 'error'):
            std = state[0]
        got = [tuple(x) for x in p.get_logged_events(u)]
        if own:
            want = event_lines([d], 'mine%d' % i)
        elif state[0] == 'error':
            want = []
        else:
            want = event_lines([d], std)
        c.check_eq(got, want, 'events of each log')
        c.check_eq(calls, [] if own else [before is not None], 'asked for the default definitions')


def lengths(c):
    """events with any number of arguments; definitions in any number of pieces"""
    stub(c)
    ev, core = c.load('pyulog.px4_events'), c.load('pyulog.core')
    n, pieces = c.choice('n', [(2, 32), (2, 33), (2, 100), (0, 2), (1, 2), (24, 2), (25, 2), (26, 2), (255, 2)])
    num = 2 if pieces == 33 else 1
    fm = {'event': EV['event'][:3] + ([('uint8_t', n, 'arguments')] if n else []) + EV['event'][4:]}
    x = lzma.compress(('{"x": "' + ''.join([str(i * i * 7919 % 10007) for i in range(300)]) + '", "name": "mine"}').encode())
    k = len(x) // pieces
    cuts = [x[i * k:(i + 1) * k] for i in range(pieces - 1)] + [x[(pieces - 1) * k:]]
    parts = [U.header(c), U.fmt(c, U.fmt_text(fm, 'event')), U.info(c, 'char[2] metadata_events_sha256', b'a1')]
    parts += [U.info_multi(c, 1 if i else 0, 'uint8_t[%d] metadata_events' % len(y), y) for i, y in enumerate(cuts)]
    parts.append(U.sub(c, 0, 1, 'event'))
    evs = []
    for i in range(num):
        eid = U.unpack('uint32_t', c.bytes('id%d' % i, 4))
        args = c.cat(c.bytes('a%d' % i, min(n, 2)), bytes(range(1, 256))[:max(n - 4, 0)], c.bytes('z%d' % i, max(0, min(n - 2, 2))))
        lv = c.bytes('lv%d' % i, 1)
        parts.append(U.data(c, 1, c.cat(c.le(7, 8), c.bytes('id%d' % i, 4), c.bytes('seq%d' % i, 2), args, lv)))
        evs.append((7, eid, args, lv[0]))
    got = ev.PX4Events().get_logged_events(core.ULog(c.memfile(c.cat(parts))))
    c.check_eq([tuple(y) for y in got], event_lines(evs, 'mine'), 'events')


class Response:
    def __init__(self, blob):
        self.blob = blob

    def read(self):
        return self.blob

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Net:
    pass


def download(c):
    """without a callback the default definitions are fetched once, for logs without their own"""
    stub(c)
    calls = []
    net, outer = Net(), Net()
    fail = c.choice('fail', ['no', 'always', 'first'])

    def urlopen(url, *a, **k):
        calls.append(url)
        if fail == 'always' or fail == 'first' and len(calls) == 1:
            raise OSError('no network')
        return Response(lzma.compress(('{"name": "net' + str(len(calls)) + '"}').encode()))
    net.urlopen = urlopen
    outer.request = net
    c.stub('urllib', outer)
    c.stub('urllib.request', net)
    ev, core = c.load('pyulog.px4_events'), c.load('pyulog.core')
    p = ev.PX4Events()
    n = 0
    have = None
    for i in range(3):
        d = (5, U.unpack('uint32_t', c.bytes('id%d' % i, 4)), b'\1\2', 0x66)
        c.assume(d[1] != 12)
        b = c.cat(c.le(5, 8), c.bytes('id%d' % i, 4), b'\0\0\1\2\x66')
        own = c.flag('own%d' % i)
        parts = [U.header(c), U.fmt(c, U.fmt_text(EV, 'event'))]
        if own:
            parts += [U.info(c, 'char[2] metadata_events_sha256', b'a1'), metadata(c, 'mine%d' % i)]
        u = core.ULog(c.memfile(c.cat(parts, U.sub(c, 0, 1, 'event'), U.data(c, 1, b))))
        got = [tuple(x) for x in p.get_logged_events(u)]
        if own:
            want = event_lines([d], 'mine%d' % i)
        else:
            if have is None:
                n += 1
                if not (fail == 'always' or fail == 'first' and n == 1):
                    have = 'net' + str(n)
            want = event_lines([d], have) if have else []
        c.check_eq(got, want, 'events of each log')
        c.check_eq(len(calls), n, 'fetched only when needed')


def no_samples(c):
    """a log without event samples does not fetch definitions"""
    stub(c)
    ev = c.load('pyulog.px4_events')
    core = c.load('pyulog.core')
    k = c.choice('k', ['nothing', 'sub', 'fields'])
    parts = [U.header(c)]
    if k == 'sub':
        parts += [U.fmt(c, U.fmt_text(EV, 'event')), U.sub(c, 0, 1, 'event')]
    elif k == 'fields':
        parts += [U.fmt(c, 'event:uint64_t timestamp;uint32_t other;'), U.sub(c, 0, 1, 'event'),
                  U.data(c, 1, c.bytes('d', 12))]
    u = core.ULog(c.memfile(c.cat(parts)))
    p = ev.PX4Events()
    calls = []
    p.set_default_json_definitions_cb(calls.append)
    c.check_eq(p.get_logged_events(u), [], 'no events')
    c.check_eq(calls, [], 'no definitions fetched')


def messages(c):
    """ulog_messages: every logged message once, events merged in by time"""
    stub(c)
    px4 = c.params.get('px4', True)
    hi = c.params.get('hi', 2**50)
    parts = [U.header(c), U.fmt(c, U.fmt_text(EV, 'event'))]
    if px4:
        parts += [U.info(c, 'char[3] sys_name', b'PX4'), U.info(c, 'char[4] metadata_events_sha256', b'12ab'),
                  metadata(c, 'mine')]
    elif c.flag('other'):
        parts.append(U.info(c, 'char[3] sys_name', b'NuX'))
    parts.append(U.sub(c, 0, 1, 'event'))
    logs, evs = [], []
    for i, k in enumerate(c.params.get('kinds', ['log', 'ev', 'log'])):
        if k == 'ev':
            b, d = event(c, i, hi)
            c.assume(c.and_(d[3] >= 0x60, d[3] < 0x90))
            parts.append(U.data(c, 1, b))
            evs.append(d)
        else:
            t = U.unpack('uint64_t', c.le(c.int('t%d' % i, 0, hi), 8))
            lv = c.int('l%d' % i, 0x36, 0x38)
            text = c.choice('tx%d' % i, ['', 'x'])
            if text == 'x':
                text = c.str('s%d' % i, 2, [(9, 9), (0x20, 0x7e)])
            parts.append(U.log(c, lv, t, text.encode()))
            name = 'UNKNOWN'
            for x in LEVELS:
                if lv == x:
                    name = LEVELS[x]
            logs.append((t, name, text))
    path = c.put('m.ulg', c.cat(parts))
    if px4:
        want = []
        for t, name, text in logs:
            if text == '' or text[-1:] != '\t':
                want.append((t, name, text))
        for e in event_lines(evs, 'mine'):
            for w in want:
                c.assume(w[0] != e[0])      # the order of a tie is not specified
            want.append(e)
        # stable insertion sort
        out = []
        for w in want:
            i = len(out)
            while i > 0 and out[i - 1][0] > w[0]:
                i -= 1
            out.insert(i, w)
        want = out
    else:
        want = logs
    c.cli('pyulog.messages', [path])
    text = ''
    for t, name, msg in want:
        text = text + hms(t) + ' ' + name + ': ' + msg + '\n'
    c.check_eq(c.stdout(), text, 'output')


# --------------------------------------------------------------------- gps

def gps(c):
    """ulog_extract_gps_dump: the bytes of each direction of one receiver"""
    n = c.params.get('n', 2)
    size = c.params.get('size', 3)
    lens = c.params.get('lens')     # the rest of the options is fixed then
    has_inst = bool(lens) or c.flag('has_instance')
    fm = {'gps_dump': [('uint64_t', 0, 'timestamp')] + ([('uint8_t', 0, 'instance')] if has_inst else []) + [
        ('uint8_t', 0, 'len'), ('uint8_t', size, 'data')], 'x': [('uint64_t', 0, 'timestamp')]}
    inst = c.choice('instance', [1] if lens else [None, 0, 1])
    want = {0: b'', 1: b''}
    body = []
    for i in range(n):
        which = c.bytes('inst%d' % i, 1) if has_inst else b''
        ln = c.choice('ln%d' % i, lens) if lens else c.int('len%d' % i, 0, size)
        to = c.int('to%d' % i, 0, 1)
        d = c.bytes('d%d' % i, size)
        t = 9 - i if lens else i + 1    # time does not matter
        body.append(U.data(c, 1, c.cat(c.le(t, 8), which, c.le(ln + 128 * to, 1), d)))
        if (which[0] if has_inst else 0) == (inst or 0):
            k = 1 if to == 1 else 0
            m = ln if lens else c.choice('len%d' % i, list(range(size + 1)))
            want[k] = c.cat(want[k], d[:m])
    extra = [U.dropout(c, 5)] if not lens and c.flag('dropout') else []
    blob = c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 'gps_dump')), U.fmt(c, U.fmt_text(fm, 'x')), U.sub(c, 0, 2, 'x'),
                 U.sub(c, 0, 1, 'gps_dump'), U.data(c, 2, b'abcdefgh'), body, extra)
    name = c.choice('file', U.NAMES if lens else ['g.ulg', 'g.bin'])
    path = c.put(name, blob)
    stem = U.stem(name)
    out = c.choice('out', [None] if lens else [None, 'dir'])
    argv = [path] + (['-i', str(inst)] if inst is not None else [])
    if out:
        argv += ['-o', c.mkdir('dir')]
    c.check_eq(c.cli('pyulog.extract_gps_dump', argv), 0, 'exit status')
    pre = c.path((out + '/' if out else '') + stem + '_' + str(inst or 0))
    c.check_eq([f for f in c.files() if f != path], [pre + '_from_device.dat', pre + '_to_device.dat'], 'files')
    c.check_eq(c.get(pre + '_from_device.dat'), want[0], 'bytes from the receiver')
    c.check_eq(c.get(pre + '_to_device.dat'), want[1], 'bytes to the receiver')
    c.check_eq(c.get(path), blob, 'the log is not modified')


def gps_missing(c):
    """no raw data, or none of the right form: no files"""
    k = c.choice('k', ['none', 'empty', 'format', 'baddir'])
    parts = [U.header(c)]
    if k == 'empty':
        parts += [U.fmt(c, 'gps_dump:uint64_t timestamp;uint8_t len;uint8_t[2] data;'), U.sub(c, 0, 1, 'gps_dump')]
    elif k == 'format':
        parts += [U.fmt(c, 'gps_dump:uint64_t timestamp;uint8_t len;uint8_t data;'), U.sub(c, 0, 1, 'gps_dump'),
                  U.data(c, 1, c.bytes('d', 10))]
    path = c.put('g.ulg', c.cat(parts))
    rc = c.cli('pyulog.extract_gps_dump', [path] + (['-o', c.path('no')] if k == 'baddir' else []))
    c.check_eq(rc, {'none': 0, 'empty': 0, 'format': -1, 'baddir': 2}[k], 'exit status')
    c.check_eq(c.files(), [path], 'no files written')
