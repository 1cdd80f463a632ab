"""PX4 specific helpers and position tracks."""
import math

from . import ulog as U

MAV = ['Generic', 'Fixed Wing', 'Quadrotor', 'Coaxial helicopter', 'Normal helicopter with tail rotor',
       'Ground installation', 'Ground Control Station', 'Airship, controlled', 'Free balloon, uncontrolled', 'Rocket',
       'Ground Rover', 'Surface Vessel, Boat, Ship', 'Submarine', 'Hexarotor', 'Octorotor', 'Tricopter',
       'Flapping wing', 'Kite', 'Onboard Companion Controller', 'Two-rotor VTOL (Tailsitter)',
       'Quad-rotor VTOL (Tailsitter)', 'Tiltrotor VTOL', 'VTOL Standard', 'VTOL Tailsitter', 'VTOL reserved 4',
       'VTOL reserved 5', 'Onboard Gimbal', 'Onboard ADSB Peripheral']


def px4(c, blob):
    return c.load('pyulog.px4').PX4ULog(c.load('pyulog.core').ULog(c.memfile(blob)))


def vehicle(c):
    """vehicle type and estimator names from the initial parameters (a later change does not count)"""
    has_type, has_est = c.flag('has_type'), c.flag('has_est')
    t, e = c.bytes('t', 4), c.bytes('e', 4)
    blob = c.cat(U.header(c), U.param(c, 'int32_t MAV_TYPE', t) if has_type else b'',
                 U.param(c, 'int32_t SYS_MC_EST_GROUP', e) if has_est else b'',
                 U.fmt(c, 't:uint64_t timestamp;'), U.sub(c, 0, 1, 't'), U.param(c, 'int32_t MAV_TYPE', b'\x02\0\0\0'),
                 U.param(c, 'int32_t SYS_MC_EST_GROUP', b'\x01\0\0\0'))
    p = px4(c, blob)
    tv, ev = U.unpack('int32_t', t), U.unpack('int32_t', e)
    want = 'unknown type'
    if has_type:
        for i in range(len(MAV)):
            if tv == i:
                want = MAV[i]
    c.check_eq(p.get_mav_type(), want, 'vehicle type')
    if has_type and tv == 1:
        want = 'EKF2'
    elif not has_est:
        want = 'EKF2'
    else:
        want = 'unknown (' + str(ev) + ')'
        for i, n in enumerate(['INAV', 'LPE', 'EKF2', 'Q']):
            if ev == i:
                want = n
    c.check_eq(p.get_estimator(), want, 'estimator')


def rc_inputs(c):
    """names of the functions mapped to an RC channel"""
    keys = ['RC_MAP_ROLL', 'RC_MAP_FLTMODE', 'RC_MAP_RETURN_SW', 'RC_MAX', 'ARC_MAP_YAW', 'RC_MAP_A_RC_MAP_B']
    vals = {k: c.bytes(k, 4) for k in keys}
    ch = c.int('channel', 0, 17)
    p = px4(c, c.cat(U.header(c), [U.param(c, 'int32_t ' + k, vals[k]) for k in keys]))
    want = []
    for k, n in [('RC_MAP_ROLL', 'Roll'), ('RC_MAP_FLTMODE', 'Fltmode'), ('RC_MAP_RETURN_SW', 'Return_sw'),
                 ('RC_MAP_A_RC_MAP_B', 'A_rc_map_b')]:
        if U.unpack('int32_t', vals[k]) == ch + 1:
            want.append(n)
    c.check_eq(p.get_configured_rc_input_names(ch), want or None, 'names')


def quat(c, name):
    """four float components with magnitudes in [0.125, 0.25)"""
    b = c.bytes(name, 16)
    for i in range(4):
        c.assume(c.and_(b[4 * i + 2] < 0x80, b[4 * i + 3] & 0x7f == 0x3e))
    return b, [U.unpack('float', b[4 * i:4 * i + 4]) for i in range(4)]


def rpy(q):
    w, x, y, z = q
    return (math.atan2(2 * (w * x + y * z), 1 - 2 * (x * x + y * y)), math.asin(2 * (w * y - z * x)),
            math.atan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z)))


def attitude(c):
    """add_roll_pitch_yaw: every instance of every chosen topic gets the Euler angles of its quaternion"""
    fm = {'vehicle_attitude': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q'), ('uint8_t', 0, 'z')],
          'vehicle_attitude_setpoint': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q_d')],
          'vehicle_vision_attitude': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q')],
          'vehicle_attitude_groundtruth': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q')],
          'mine': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q'), ('float', 4, 'q_d')]}
    qs = {n: quat(c, n) for n in ('a0', 'a1', 'b0', 'c0', 's0', 'v0', 'g0', 'm0')}
    third = U.unpack('uint8_t', c.le(c.int('third', 2, 255), 1))
    ts = c.le(c.int('t', 0, 2**50), 8)
    d = [U.data(c, 1, c.cat(ts, qs['a0'][0], b'\5')), U.data(c, 1, c.cat(ts, qs['a1'][0], b'\6')),
         U.data(c, 2, c.cat(ts, qs['b0'][0], b'\7')), U.data(c, 3, c.cat(ts, qs['s0'][0])),
         U.data(c, 5, c.cat(ts, qs['m0'][0], qs['m0'][0])), U.data(c, 6, c.cat(ts, qs['c0'][0], b'\x08'))]
    vision = c.flag('vision')
    if vision:
        d.append(U.data(c, 4, c.cat(ts, qs['v0'][0])))
    if c.flag('truth'):
        d.append(U.data(c, 8, c.cat(ts, qs['g0'][0])))
    core = c.load('pyulog.core')
    u = core.ULog(c.memfile(c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in fm], U.sub(
        c, 0, 1, 'vehicle_attitude'), U.sub(c, 1, 2, 'vehicle_attitude'), U.sub(
            c, third, 6, 'vehicle_attitude'), U.sub(c, 0, 3, 'vehicle_attitude_setpoint'),
        U.sub(c, 0, 4, 'vehicle_vision_attitude'), U.sub(
            c, 0, 5, 'mine'), U.sub(c, 0, 8, 'vehicle_attitude_groundtruth'), d)))
    before = {(x.name, x.multi_id): {k: list(x.data[k]) for k in x.data} for x in u.data_list}
    p = c.load('pyulog.px4').PX4ULog(u)
    msgs = c.choice('messages', [None, ['mine'], ['mine:_d', 'absent'], ['mine', 'mine:_d'], ['mine:_d', 'mine']])
    if msgs is None:
        p.add_roll_pitch_yaw()
    else:
        p.add_roll_pitch_yaw(msgs)
    want = {('vehicle_attitude', 0): {'': ['a0', 'a1']}, ('vehicle_attitude', 1): {'': ['b0']},
            ('vehicle_attitude', third): {'': ['c0']},
            ('vehicle_attitude_setpoint', 0): {'_d': ['s0']}, ('vehicle_vision_attitude', 0): {'': ['v0']},
            ('vehicle_attitude_groundtruth', 0): {'': ['g0']},
            ('mine', 0): {}}
    if msgs is not None:
        want = {('mine', 0): {('_d' if m == 'mine:_d' else ''): ['m0'] for m in msgs if m != 'absent'}}
    c.check_eq(len(u.data_list), len(before), 'datasets')
    for x in u.data_list:
        k = (x.name, x.multi_id)
        new = [n for n in x.data if n not in before[k]]
        sufs = want.get(k, {})
        c.check_eq(sorted(new), sorted([a + s for s in sufs for a in ('roll', 'pitch', 'yaw')]), 'added fields')
        for n in before[k]:
            c.check_eq(list(x.data[n]), before[k][n], 'logged fields are not changed')
        for s in sufs:
            angles = [rpy(qs[n][1]) for n in sufs[s]]
            for j, a in enumerate(('roll', 'pitch', 'yaw')):
                c.check_close(list(x.data[a + s]), [r[j] for r in angles], a)


QUATS = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0.0872, 0, 0, 0.9962), (-0.0872, 0, 0, 0.9962),
         (0.5, 0.5, 0.5, -0.5), (0.2, -0.9, 0.3, 0.25), (-0.6, 0.1, -0.3, 0.74), (0.05, 0.9987, 0, 0), (0.05, -0.9987, 0, 0)]


def attitude_turns(c):
    """two samples of any of a set of attitudes, in all quadrants"""
    fm = {'vehicle_attitude': [('uint64_t', 0, 'timestamp'), ('float', 4, 'q')]}
    many = c.flag('many')
    if many:
        qs = QUATS + QUATS[::-1] + QUATS[::3]
        qs = qs[::-1] if c.flag('back') else qs
    else:
        qs = [c.choice('q%d' % i, QUATS) for i in range(2)]
    raw = [b''.join([U.pack('float', float(x)) for x in q]) for q in qs]
    core = c.load('pyulog.core')
    u = core.ULog(c.memfile(c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 'vehicle_attitude')), U.sub(c, 0, 1, 'vehicle_attitude'),
                                  [U.data(c, 1, c.cat(c.le(7 + i if many else c.int('t%d' % i, 0, 2**50), 8), r)) for i, r in enumerate(raw)])))
    c.load('pyulog.px4').PX4ULog(u).add_roll_pitch_yaw()
    d = u.get_dataset('vehicle_attitude').data
    for j, a in enumerate(('roll', 'pitch', 'yaw')):
        c.check_close(list(d[a]), [rpy(q)[j] for q in qs], a)


# ---------------------------------------------------------------------- KML

class Obj:
    pass


class Line:
    def __init__(self, name, altitudemode):
        self.name = name
        self.altitudemode = altitudemode
        self.style = Obj()
        self.style.linestyle = Obj()
        self.coords = self
        self.points = []
        self.extrude = None

    def addcoordinates(self, pts):
        self.points += [tuple(p) for p in pts]


class Kml:
    made = []

    def __init__(self):
        self.lines, self.points, self.saved = [], [], None
        Kml.made.append(self)

    def newlinestring(self, name=None, altitudemode=None):
        self.lines.append(Line(name, altitudemode))
        return self.lines[-1]

    def newpoint(self, name=None):
        p = Obj()
        p.name = name
        self.points.append(p)
        return p

    def save(self, name):
        self.saved = name


COLORS = ['red', 'green', 'blue', 'violet', 'yellow', 'orange', 'burlywood', 'azure', 'lightblue', 'lawngreen',
          'indianred', 'hotpink', 'bisque', 'cyan', 'darksalmon', 'deepskyblue', 'lime', 'orchid']


def kml_stub(c):
    mod = Obj()
    mod.Kml = Kml
    mod.Color = Obj()
    for k in COLORS:
        setattr(mod.Color, k, k)
    Kml.made.clear()
    c.stub('simplekml', mod)


def position(c, kind, i, t, fix):
    """one position sample and its (lon, lat, alt)"""
    if kind == 'int':
        b = c.bytes('p%d' % i, 12)
        v = [U.unpack('int32_t', b[4 * j:4 * j + 4]) for j in range(3)]
        return c.cat(c.le(t, 8), b, fix), (v[0] / 1e7, v[1] / 1e7, v[2] / 1e3)
    b = c.bytes('p%d' % i, 24)
    v = [U.unpack('double', b[8 * j:8 * j + 8]) for j in range(3)]
    return c.cat(c.le(t, 8), b, fix), tuple(v)


def track(c):
    """ulog2kml: fixes only, thinned, one line per flight mode"""
    kml_stub(c)
    kind = c.choice('kind', c.params.get('kinds', ['int', 'double', 'new']))
    has_fix = kind != 'double'
    names = ('longitude_deg', 'latitude_deg', 'altitude_msl_m') if kind == 'new' else ('lon', 'lat', 'alt')
    ft = 'int32_t' if kind == 'int' else 'double'
    topic = c.choice('topic', c.params.get('topics', ['vehicle_gps_position', 'other']))
    fm = {topic: [('uint64_t', 0, 'timestamp')] + [(ft, 0, n) for n in names] + (
        [('uint8_t', 0, 'fix_type')] if has_fix else []),
          'vehicle_status': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'nav_state')]}
    n, m = c.params.get('n', 2), c.params.get('m', 2)
    body, pts, last = [], [], 1000000
    for i in range(n):
        t = c.int('t%d' % i, 1000000, 2**50)
        c.assume(t >= last)
        last = t
        fix = c.bytes('fix%d' % i, 1) if has_fix else b''
        b, v = position(c, kind, i, t, fix)
        body.append(U.data(c, 1, b))
        if not has_fix or fix[0] > 2:
            pts.append((t, v))
    other = c.flag('other_instance')
    if other:
        body.append(U.data(c, 3, c.cat(c.le(5, 8), b'\x11' * (12 if kind == 'int' else 24), b'\3' if has_fix else b'')))
    changes, prev, s_last = [], None, 0
    n_status = c.choice('statuses', list(range(m + 1)))
    for i in range(n_status):
        t = c.int('s%d' % i, 1, 2**50)
        c.assume(t >= s_last)
        s_last = t
        st = c.choice('mode%d' % i, c.params.get('modes', [0, 4, 17]))
        body.append(U.data(c, 2, c.cat(c.le(t, 8), c.le(st, 1))))
        if st != prev:
            changes.append((t, st))
            prev = st
    if n_status:
        changes.append((c.ite(s_last > last, s_last, last) if n else s_last, -1))
    path = c.put('k.ulg', c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in fm], U.sub(c, 0, 2, 'vehicle_status'),
                                U.sub(c, 1, 3, topic), U.sub(c, 0, 1, topic), body))
    m = c.load('pyulog.ulog2kml')
    gap = c.choice('gap', c.params.get('gaps', [100000, 1500000]))
    if topic == 'other':
        rc = c.cli('pyulog.ulog2kml', [c.path('k.ulg'), '-o', c.path('o.kml'), '--topic', 'other'])
        gap = 100000
        c.check_eq(rc, 0, 'exit status')
    else:
        m.convert_ulog2kml(path, c.path('o.kml'), minimum_interval_s=gap / 1e6)
    # expected lines
    mode = changes[0][1] if changes else 0
    k = 0
    lines = [(mode, [])]
    prev = 0
    for t, v in pts:
        if t - prev > gap:
            lines[-1][1].append(v)
            prev = t
            while k + 1 < len(changes) and changes[k + 1][0] <= t:
                k += 1
                lines.append((changes[k][1], [v]))
    c.check_eq(len(Kml.made), 1, 'one document')
    doc = Kml.made[0]
    c.check_eq(doc.saved, c.path('o.kml'), 'saved to the output file')
    c.check_eq(len(doc.lines), len(lines), 'number of lines')
    c.check_eq(doc.points, [], 'no extra points')
    for ln, (mode, want) in zip(doc.lines, lines):
        c.check_eq(ln.points, want, 'points of a line')
        c.check_eq(ln.name, topic + ':' + str(mode), 'name of a line')
        c.check_eq(ln.altitudemode, 'absolute', 'altitude mode')
        c.check_eq(ln.style.linestyle.width, 3, 'width')
        if mode < len(COLORS):
            c.check_eq(ln.style.linestyle.color, COLORS[max(mode, 0)], 'color')


def track_options(c):
    """several topics with own colors, altitude offset, style, camera triggers"""
    kml_stub(c)
    new = c.flag('new_names')
    lon, lat, alt = ('longitude_deg', 'latitude_deg', 'altitude_msl_m') if new else ('lon', 'lat', 'alt')
    fm = {'pa': [('uint64_t', 0, 'timestamp'), ('double', 0, 'lon'), ('double', 0, 'lat'), ('double', 0, 'alt')],
          'pb': [('uint64_t', 0, 'timestamp'), ('int32_t', 0, 'alt'), ('int32_t', 0, 'lon'), ('int32_t', 0, 'lat')],
          'cam': [('uint64_t', 0, 'timestamp'), ('uint32_t', 0, 'seq'), ('double', 0, lat), ('double', 0, lon),
                  ('double', 0, alt)]}
    n_cam = c.choice('n_cam', [0, 1, 2, 3])
    ab, bb, cbs = c.bytes('a', 24), c.bytes('b', 12), [c.bytes('cam%d' % i, 28) for i in range(n_cam)]
    d = [U.unpack('double', ab[i:i + 8]) for i in (0, 8, 16)]
    e = [U.unpack('int32_t', bb[i:i + 4]) for i in (0, 4, 8)]
    fs = [[U.unpack('uint32_t', cb[:4])] + [U.unpack('double', cb[i:i + 8]) for i in (4, 12, 20)] for cb in cbs]
    t = c.int('t', 1000000, 2**50)
    blob = c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in fm], U.sub(c, 0, 1, 'pa'), U.sub(c, 0, 2, 'pb'),
                 U.sub(c, 0, 3, 'cam'), U.data(c, 1, c.cat(c.le(t, 8), ab)), U.data(c, 2, c.cat(c.le(t, 8), bb)),
                 [U.data(c, 3, c.cat(c.le(t + 7 * i, 8), cb)) for i, cb in enumerate(cbs)])
    path = c.put('k.ulg', blob)
    off = c.choice('offset', [0, 12])
    style = c.choice('style', [None, {'extrude': True}, {'line_width': 7}, {'line_width': 0}])
    cam = c.flag('use_cam')
    m = c.load('pyulog.ulog2kml')
    if off == 0 and style is None and c.flag('cli'):
        argv = [path, '-o', 'x.kml', '--topic', 'pb'] + (['--camera-trigger', 'cam'] if cam else [])
        c.check_eq(c.cli('pyulog.ulog2kml', argv), 0, 'exit status')
        doc = Kml.made[0]
        c.check_eq([(x.name, x.style.linestyle.color) for x in doc.lines], [('pb:0', 'red')], 'lines')
        c.check_close(list(doc.lines[0].points[0]), [e[1] / 1e7, e[2] / 1e7, e[0] / 1e3], 'scaled position')
        c.check_eq(doc.saved, 'x.kml', 'saved to the output file')
        cameras(c, doc, fs if cam else [], 0)
        return
    try:
        m.convert_ulog2kml(path, 'x.kml', ['pa', 'pb'] if not c.flag('missing') else ['pa', 'no'],
                           [lambda x: 'first', lambda x: 'second'], altitude_offset=off, style=style,
                           camera_trigger_topic_name='cam' if cam else None)
        c.check(not c.flag('missing'), 'a missing topic is an error')
    except KeyError:
        c.check(c.flag('missing'), 'no error')
        return
    doc = Kml.made[0]
    c.check_eq([(x.name, x.style.linestyle.color) for x in doc.lines], [('pa:0', 'first'), ('pb:0', 'second')], 'lines')
    c.check_eq([x.style.linestyle.width for x in doc.lines], [style['line_width'] if style and 'line_width' in style else 3] * 2, 'width')
    c.check_eq([x.extrude for x in doc.lines], [1 if style and 'extrude' in style else None] * 2, 'extrude')
    c.check_close(list(doc.lines[1].points[0]), [e[1] / 1e7, e[2] / 1e7, e[0] / 1e3 + off], 'scaled position')
    c.check_eq(doc.lines[0].points, [(d[0], d[1], d[2] + off)], 'position')
    cameras(c, doc, fs if cam else [], off)


def track_topics(c):
    """two topics with positions: each is split at the same flight modes"""
    kml_stub(c)
    fm = {'pa': [('uint64_t', 0, 'timestamp'), ('double', 0, 'lon'), ('double', 0, 'lat'), ('double', 0, 'alt')],
          'pb': [('uint64_t', 0, 'timestamp'), ('double', 0, 'lon'), ('double', 0, 'lat'), ('double', 0, 'alt')],
          'vehicle_status': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'nav_state')]}
    modes = [4, c.choice('mode1', [5, 4]), 6]
    at = [1000000, U.unpack('uint64_t', c.le(c.int('at1', 1000001, 5999999), 8)), 6000000]
    body = [U.data(c, 3, c.cat(c.le(t, 8), c.le(m, 1))) for t, m in zip(at, modes)]
    ts = [2000000, 4000000, 7000000]
    for t in ts:
        for k in (1, 2):
            body.append(U.data(c, k, c.cat(c.le(t, 8), c.bytes('p%d_%d' % (k, t), 24))))
    path = c.put('k.ulg', c.cat(U.header(c), [U.fmt(c, U.fmt_text(fm, k)) for k in fm], U.sub(c, 0, 1, 'pa'),
                                U.sub(c, 0, 2, 'pb'), U.sub(c, 0, 3, 'vehicle_status'), body))
    topics = c.choice('topics', [['pa', 'pb'], ['pb', 'pa']])
    c.load('pyulog.ulog2kml').convert_ulog2kml(path, 'x.kml', topics, [lambda m: 'c' + str(m), lambda m: 'd' + str(m)])
    changes = [x for i, x in enumerate(zip(at, modes)) if i == 0 or modes[i - 1] != x[1]] + [(7000000, -1)]
    doc, k = Kml.made[0], 0
    for i, topic in enumerate(topics):
        lines, j = [(4, [])], 0
        for t in ts:
            b = c.again('p%d_%d' % (1 if topic == 'pa' else 2, t))
            p = tuple(U.unpack('double', b[x:x + 8]) for x in (0, 8, 16))
            lines[-1][1].append(p)
            while j + 1 < len(changes) and changes[j + 1][0] <= t:
                j += 1
                lines.append((changes[j][1], [p]))
        c.check_eq([(x.name, x.style.linestyle.color) for x in doc.lines[k:k + len(lines)]],
                   [(topic + ':' + str(m), 'cd'[i] + str(m)) for m, _ in lines], 'lines of ' + topic)
        for x, (_, want) in zip(doc.lines[k:], lines):
            c.check_eq(x.points, want, 'points')
        k += len(lines)
    c.check_eq(len(doc.lines), k, 'number of lines')


def cameras(c, doc, fs, off):
    c.check_eq(len(doc.points), len(fs), 'camera points')
    for p, f in zip(doc.points, fs):
        c.check_eq(p.name, 'Camera Trigger ' + str(f[0]), 'camera point name')
        c.check_eq([tuple(x) for x in p.coords], [(f[2], f[1], f[3] + off)], 'camera position')
