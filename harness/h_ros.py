"""Conversion to ROS 2 bags, with recorders in place of the ROS packages."""
from . import ulog as U


class Obj:
    pass


FIELDS = {'VehicleStatus': {'timestamp': 'uint64', 'flag': 'boolean', 'small': 'int8', 'arr': 'int16[2]',
                            'flags': 'boolean[12]', 'val': 'float', 'extra': 'uint8'},
          'SensorGps': {'timestamp': 'uint64', 'lat': 'double'}, 'VehicleCommand': {'timestamp': 'uint64'},
          'WheelEncoders': {'timestamp': 'uint64', 'nested': 'px4_msgs/Other'}}
FM = {'vehicle_status': [('uint64_t', 0, 'timestamp'), ('float', 0, 'val'), ('int16_t', 2, 'arr'), ('bool', 0, 'flag'),
                         ('bool', 12, 'flags'), ('int8_t', 0, 'small'), ('uint8_t', 1, '_padding0')],
      'vehicle_gps_position': [('uint64_t', 0, 'timestamp'), ('double', 0, 'lat')],
      'sensor_gps': [('uint64_t', 0, 'timestamp'), ('double', 0, 'lat'), ('uint8_t', 0, 'newer')],
      'wheel_encoders': [('uint64_t', 0, 'timestamp'), ('other', 0, 'nested')], 'other': [('uint8_t', 0, 'x')],
      'gimbal_command': [('uint64_t', 0, 'timestamp')], 'unheard_of': [('uint64_t', 0, 'timestamp')]}
TYPE = {'vehicle_status': 'VehicleStatus', 'vehicle_gps_position': 'SensorGps', 'gimbal_command': 'VehicleCommand'}


class Writer:
    made = []

    def __init__(self):
        self.log = []
        Writer.made.append(self)

    def open(self, storage, conv):
        self.log.append(('open', storage, conv))

    def create_topic(self, meta):
        self.log.append(('topic', meta))

    def write(self, *a):
        self.log.append(('write', a))

    def close(self):
        self.log.append(('close',))


def record(kind):
    def f(*a, **k):
        return (kind, a, k)
    return f


def make_type(name, fields):

    class Msg:
        def __init__(self):
            for k in fields:
                t = fields[k]
                setattr(self, k, [0] * int(t[t.index('[') + 1:-1]) if t.endswith(']') else 0)

        @classmethod
        def get_fields_and_field_types(cls):
            return {k: fields[k] for k in fields}
    Msg.__name__ = name
    return Msg


def typed(m, k, v):
    """the kind of value is part of what is compared; fields that are not in the log stay as made"""
    t = m.get_fields_and_field_types()[k]
    kind = bool if t.startswith('bool') else float if t.startswith(('float', 'double')) else int
    return v if type(v) is kind else (type(v).__name__, v)


def serialize(m):
    out = {}
    for k in m.get_fields_and_field_types():
        v = getattr(m, k)
        out[k] = [typed(m, k, x) for x in v] if isinstance(v, list) else typed(m, k, v)
    return (m.__class__.__name__, out)


def stubs(c, ver, types=FIELDS):
    Writer.made.clear()
    ser, bag, px4, meta = Obj(), Obj(), Obj(), Obj()
    ser.serialize_message = serialize
    bag.SequentialWriter = Writer
    bag.StorageOptions, bag.ConverterOptions, bag.TopicMetadata = record('so'), record('co'), record('tm')
    px4.msg = Obj()
    for n in types:
        setattr(px4.msg, n, make_type(n, types[n]))
    rclpy = Obj()
    rclpy.serialization = ser
    meta.version = lambda name: ver
    meta.PackageNotFoundError = KeyError
    c.stub('rclpy', rclpy)
    c.stub('rclpy.serialization', ser)
    c.stub('rosbag2_py', bag)
    c.stub('px4_msgs', px4)
    c.stub('px4_msgs.msg', px4.msg)
    c.stub('importlib.metadata', meta)


def bag(c):
    """every supported topic instance with all its samples, in nanoseconds; other topics are left out"""
    ver = c.choice('version', c.params.get('versions', ['0.9.1', '0.15.3', '0.25.0', '0.26.1', '0.32.0', '0.33.4']))
    stubs(c, ver)
    names = c.params.get('names', ['vehicle_status', 'vehicle_gps_position', 'gimbal_command', 'sensor_gps',
                                   'wheel_encoders', 'unheard_of'])
    multi = [c.choice('multi%d' % i, c.params.get('multi', [[0], [0, 1], [1]])) for i in range(1)] + [[0]] * len(names)
    parts = [U.header(c)] + [U.fmt(c, U.fmt_text(FM, k)) for k in FM]
    sets, mid = [], 0
    n = c.params.get('n', 2)
    last = 1
    for name, ids in zip(names, multi):
        for m in ids:
            parts.append(U.sub(c, m, mid, name))
            sets.append((name, m, mid, []))
            mid += 1
    sizes = {k: U.size(U.strip_padding(U.flatten(FM, k))) - 8 for k in FM if k != 'other'}
    for i in range(n):
        for name, m, k, samples in sets:
            if name != 'vehicle_status' and i > 0:
                continue
            t = c.int('t%d_%d' % (i, k), 1, 2**50)
            c.assume(t > last)
            last = t
            b = c.bytes('d%d_%d' % (i, k), sizes[name]) if not c.params.get('plain') else bytes([k]) * sizes[name]
            if name == 'vehicle_status':
                b = c.cat(b[:9], b'\0', b[10:11], b'\0\1\2\0\xff\0\0\0\1\0'[:9], b[20:])
            parts.append(U.data(c, k, c.cat(c.le(t, 8), b)))
            samples.append((t, b))
    path = c.put('f.ulg', c.cat(parts))
    msgs = c.choice('messages', [None, 'vehicle_status', 'gimbal_command,sensor_gps'])
    plain = c.params.get('plain')
    out = c.choice('out', [None, 'mybag']) if not plain else None
    mcap = not plain and c.flag('mcap')
    argv = [path] + (['-o', out] if out else []) + (['--mcap'] if mcap else []) + (['-m', msgs] if msgs else []) + (
        ['-v'] if not plain and c.flag('verbose') else [])
    c.check_eq(c.cli('pyulog.ulog2ros2bag', argv), 0, 'exit status')
    c.check_eq(len(Writer.made), 1, 'one bag')
    log = Writer.made[0].log
    c.check_eq(log[0][0], 'open', 'opened first')
    c.check_eq(log[-1][0], 'close', 'closed last')
    so = log[0][1][2]
    c.check_eq((so['uri'], so['storage_id']), (out or 'rosbag_f', 'mcap' if mcap else 'sqlite3'), 'storage')
    new_meta, new_write = ver >= '0.25' and not ver.startswith('0.9'), ver >= '0.32' and not ver.startswith('0.9')
    want = {}
    chosen = [s for s in sets if msgs is None or s[0] in msgs.split(',')]
    for name, m, k, samples in chosen:
        if name not in TYPE:
            continue
        ids = [s[1] for s in chosen if s[0] == name]
        topic = '/px4/' + name + ('' if ids == [0] else '_' + str(m))
        want[topic] = (TYPE[name], [(t * 1000, expected(c, name, t, b)) for t, b in samples])
    got, order = {}, []
    for e in log[1:-1]:
        if e[0] == 'topic':
            a, kw = e[1][1], e[1][2]
            c.check_eq(a, (0,) if new_meta else (), 'topic id argument')
            got[kw['name']] = (kw['type'], [])
        else:
            a = e[1]
            c.check(a[0] in got, 'a topic is created before its messages')
            c.check_eq(len(a), 4 if new_write else 3, 'arguments of write')
            got[a[0]][1].append((a[2], a[1]))
    c.check_eq(sorted(got), sorted(want), 'topics')
    for t in want:
        c.check_eq(got[t][0], 'px4_msgs/msg/' + want[t][0], 'message type')
        c.check_eq(got[t][1], [(ns, (want[t][0], m)) for ns, m in want[t][1]], 'messages of a topic')


def bag_name(c):
    """the name of the bag is that of the file, without the ending of a log"""
    stubs(c, '0.26.1')
    name = c.choice('file', ['f.ulg', 'f.ulg.ulg', 'f.ulg.bak', 'f.ulgx.ulg', 'aulg.ulg', 'f.bin', 'ulg', 'aulg', 'f_ulg.1'])
    path = c.put(name, c.cat(U.header(c), U.fmt(c, U.fmt_text(FM, 'gimbal_command')), U.sub(c, 0, 1, 'gimbal_command'),
                             U.data(c, 1, c.le(c.int('t', 0, 2**50), 8))))
    c.check_eq(c.cli('pyulog.ulog2ros2bag', [path]), 0, 'exit status')
    log = Writer.made[0].log
    c.check_eq(log[0][1][2]['uri'], 'rosbag_' + (name[:-4] if name.endswith('.ulg') else name), 'name')
    c.check_eq([e[1][0] for e in log if e[0] == 'write'], ['/px4/gimbal_command'], 'message')


ROS_TYPES = {'bool': 'boolean', 'char': 'uint8', 'float': 'float', 'double': 'double'}


def types(c):
    """fields of every type, as scalar and as element of an array"""
    names = sorted(U.TYPES)
    fm = {'battery_status': [('uint64_t', 0, 'timestamp')] + [(t, 0, 'f_' + t) for t in names] + [(t, 2, 'g_' + t) for t in names]}
    ros = {'timestamp': 'uint64'}
    for t in names:
        ros['f_' + t] = ROS_TYPES.get(t, t[:-2])
        ros['g_' + t] = ROS_TYPES.get(t, t[:-2]) + '[2]'
    stubs(c, c.choice('version', ['0.15.3', '0.33.4']), {'BatteryStatus': ros})
    pick = c.choice('pick', names)
    ts = c.choice('ts', [77, 2**53 // 1000 * 1000 + 1, 2**53 // 1000 + 1, 9 * 10**15 + 7, 2**32 + 1])
    parts, want = [], {'timestamp': ts}
    for pre in ('f_', 'g_'):
        for t in names:
            n = U.TYPES[t][1]
            vals = []
            for i in range(1 if pre == 'f_' else 2):
                b = c.bytes(pre + str(i), n) if t == pick else b'\1' * n
                if t == pick and t == 'char':
                    c.assume(b[0] < 128)
                parts.append(b)
                vals.append(b[0] != 0 if t == 'bool' else b[0] if t == 'char' else U.unpack(t, b))
            want[pre + t] = vals[0] if pre == 'f_' else vals
    path = c.put('f.ulg', c.cat(U.header(c), U.fmt(c, U.fmt_text(fm, 'battery_status')), U.sub(c, 0, 1, 'battery_status'),
                                U.data(c, 1, c.cat(c.le(ts, 8), parts))))
    c.check_eq(c.cli('pyulog.ulog2ros2bag', [path]), 0, 'exit status')
    log = [e[1] for e in Writer.made[0].log if e[0] == 'write']
    c.check_eq([(a[0], a[1], a[2]) for a in log], [('/px4/battery_status', ('BatteryStatus', want), ts * 1000)], 'message')


def expected(c, name, t, b):
    if name == 'vehicle_status':
        return {'timestamp': t, 'val': U.unpack('float', b[:4]),
                'arr': [U.unpack('int16_t', b[4:6]), U.unpack('int16_t', b[6:8])], 'flag': b[8] != 0,
                'flags': [b[9 + j] != 0 for j in range(12)], 'small': U.unpack('int8_t', b[21:22]), 'extra': 0}
    if name == 'gimbal_command':
        return {'timestamp': t}
    return {'timestamp': t, 'lat': U.unpack('double', b[:8])}


# ----------------------------------------------------------- types of topics

AID1 = ['gnss_yaw', 'ev_yaw', 'fake_hgt', 'airspeed', 'sideslip']
AID2 = ['drag', 'aux_vel', 'optical_flow', 'aux_global_position']
AID3 = ['ev_vel', 'gnss_vel', 'gravity', 'mag']
AID = 'EstimatorAidSource'


def under(s):
    """nothing but underscores"""
    return all(ch == '_' for ch in s)


def only(name):
    return lambda x, s: name if s == '' else None


def always(name):
    return lambda x, s: name


def prefixed(name):
    return lambda x, s: name if x != '' and s == '' else None


# (text before, text behind the symbolic beginning, numbers of symbolic characters before and behind) -> type
FAMILIES = {
    'acs': ('actuator_controls_status_', 0, 2, lambda x, s: 'ActuatorControlsStatus' if under(s) or (
        len(s) == 1 and s[0] >= '0' and s[0] <= '9') else None),
    'outputs': ('actuator_outputs', 0, 2, always('ActuatorOutputs')),
    'overrides': ('config_overrides', 0, 2, always('ConfigOverrides')),
    'evbias': ('estimator_ev_pos_bias', 0, 2, always('EstimatorBias3d')),
    'barobias': ('estimator_baro_bias', 0, 2, always('EstimatorBias')),
    'hgtbias': ('estimator_gnss_hgt_bias', 0, 2, always('EstimatorBias')),
    'innov': ('estimator_innovation', 0, 2, always('EstimatorInnovations')),
    'px4io': ('px4io_status', 0, 2, only('Px4ioStatus')),
    'gps': ('vehicle_gps_position', 0, 2, only('SensorGps')),
    'status': ('sensors_status_', 0, 2, always('SensorsStatus')),
    'angular': ('vehicle_angular_velocity', 0, 2, always('VehicleAngularVelocity')),
    'attitude': ('attitude', 2, 1, prefixed('VehicleAttitude')),
    'attitude_gt': ('attitude_groundtruth', 1, 1, prefixed('VehicleAttitude')),
    'attitude_sp': ('attitude_setpoint', 1, 1, prefixed('VehicleAttitudeSetpoint')),
    'command': ('_command', 1, 2, lambda x, s: 'VehicleCommand' if x != '' else None),
    'control': ('_control_', 1, 2, lambda x, s: 'VehicleControlMode' if x != '' and s != '' else None),
    'global_aux': ('aux_global_position', 1, 1, lambda x, s: 'VehicleGlobalPosition' if x == '' and s == '' else None),
    'global_est': ('estimator_global_position_groundtruth', 1, 1,
                   lambda x, s: 'VehicleGlobalPosition' if x == '' and s == '' else None),
    'global_veh': ('vehicle_global_position_groundtruth', 0, 1, only('VehicleGlobalPosition')),
    'global_ins': ('external_ins_global_position', 0, 1, only('VehicleGlobalPosition')),
    'global_any': ('global_position', 2, 0, lambda x, s: None),
    'local': ('_local_position', 2, 1, prefixed('VehicleLocalPosition')),
    'local_gt': ('_local_position_groundtruth', 1, 1, prefixed('VehicleLocalPosition')),
    'odometry': ('_odometry', 2, 1, prefixed('VehicleOdometry')),
    'flow_est': ('estimator_optical_flow_vel', 0, 1, only('VehicleOpticalFlowVel')),
    'flow_veh': ('vehicle_optical_flow_vel', 1, 1, lambda x, s: 'VehicleOpticalFlowVel' if s == '' and x == '' else
                 'VehicleOpticalFlowVel' if under(x) and under(s) else None),
    'thrust': ('vehicle_thrust_setpoint', 0, 2, always('VehicleThrustSetpoint')),
    'torque': ('vehicle_torque_setpoint', 0, 2, always('VehicleTorqueSetpoint')),
    'wind': ('wind', 1, 2, lambda x, s: 'Wind' if under(x) and under(s) else None),
    'wind_est': ('estimator_wind', 0, 2, only('Wind')),
    'any': ('', 0, 3, lambda x, s: None),
    'aid_any': ('estimator_aid_src_', 0, 2, lambda x, s: None),
    'aid_hgt': ('estimator_aid_src_*_hgt', 1, 1, prefixed(AID + '1d')),
    'aid_pos': ('estimator_aid_src_*_pos', 1, 1, prefixed(AID + '2d')),
}
for _k in AID1:
    FAMILIES['aid_' + _k] = ('estimator_aid_src_' + _k, 0, 1, only(AID + '1d'))
for _k in AID2:
    FAMILIES['aid_' + _k] = ('estimator_aid_src_' + _k, 0, 1, only(AID + '2d'))
for _k in AID3:
    FAMILIES['aid_' + _k] = ('estimator_aid_src_' + _k, 0, 1, only(AID + '3d'))
TYPES = ['ActuatorControlsStatus', 'ActuatorOutputs', 'ConfigOverrides', 'EstimatorAidSource1d', 'EstimatorAidSource2d',
         'EstimatorAidSource3d', 'EstimatorBias3d', 'EstimatorBias', 'EstimatorInnovations', 'Px4ioStatus', 'SensorGps',
         'SensorsStatus', 'VehicleAngularVelocity', 'VehicleAttitude', 'VehicleAttitudeSetpoint', 'VehicleCommand',
         'VehicleControlMode', 'VehicleGlobalPosition', 'VehicleLocalPosition', 'VehicleOdometry', 'VehicleOpticalFlowVel',
         'VehicleThrustSetpoint', 'VehicleTorqueSetpoint', 'Wind']


def msgtype(c):
    """the message type of a topic of any name of the families that PX4 has"""
    stubs(c, '0.26.1', {k: {'timestamp': 'uint64'} for k in TYPES})
    fam = c.choice('family', sorted(FAMILIES))
    mid, nx, ns, want = FAMILIES[fam]
    alphabet = [(0x30, 0x39), (0x5f, 0x5f), (0x61, 0x7a)]
    top = c.params.get('n', 1)
    nx = c.choice('nx', list(range(min(nx, top) + 1)))
    ns = c.choice('ns', list(range(1 if fam == 'any' else 0, min(ns, top) + 1)))
    x = c.str('x', nx, alphabet) if nx else ''
    s = c.str('s', ns, alphabet) if ns else ''
    name = mid.replace('*', x) + s if '*' in mid else x + mid + s
    t = c.int('t', 0, 2**50)
    path = c.put('f.ulg', c.cat(U.header(c), U.msg(c, 'F', c.cat((name + ':uint64_t timestamp;').encode())),
                                U.sub(c, 0, 1, name), U.data(c, 1, c.le(t, 8))))
    c.check_eq(c.cli('pyulog.ulog2ros2bag', [path]), 0, 'exit status')
    log = Writer.made[0].log[1:-1]
    kind = want(x, s)
    if kind is None:
        c.check_eq(log, [], 'a topic without a type is left out')
        return
    c.check_eq(len(log), 2, 'one topic with one message')
    c.check_eq((log[0][1][2]['name'], log[0][1][2]['type']), ('/px4/' + name, 'px4_msgs/msg/' + kind), 'topic and type')
    c.check_eq(log[1][1], ('/px4/' + name, (kind, {'timestamp': t}), t * 1000), 'message')
