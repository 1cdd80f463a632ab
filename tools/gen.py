#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json. Anchors are resolved to line numbers of the current /repo."""
import ast
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, VERIF)
import registry   # noqa: E402


def where(spec):
    """'core.ULog._read_file_data' -> 'pyulog/core.py:1037'"""
    mod, *path = spec.split('.')
    f = 'pyulog/%s.py' % mod
    node = ast.parse(open(os.path.join(REPO, f)).read())
    for name in path:
        node = next(n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name)
    return '%s:%d' % (f, getattr(node, 'lineno', 1))


P = []


def p(pid, title, statement, over, text, why, mech, observe, state=()):
    files, ms = [], []
    for name, spec in mech:
        w = spec if '/' in spec else where(spec)
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
        ms.append({'name': name, 'where': w})
    assert len(title) <= 80, title
    assert pid in registry.PROPS, pid
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': where(w)} for a, b, w in state],
                          'mechanism': ms, 'observe_at': observe, 'hook_needed': None}})


FEW = 'The tests read four sample logs and compare printed output; '

p('C01', 'Topic samples decode to exactly the logged values',
  'For every topic instance in a well-formed log, reading yields one dataset per (topic name, instance) that has data, '
  'ordered by name and then instance, whose columns are the flattened fields of the format (arrays expanded, nested types '
  'to any depth, trailing padding left out) in format order. Column values equal, sample by sample and in file order, '
  'the little-endian values that were logged, for every field type, message id, instance number and interleaving.',
  ['inputs'], 'all payload bytes, message ids, instances, field types, array sizes, nestings and interleavings',
  FEW + 'they see the handful of formats in them and never vary ids, order, padding or nesting.',
  [('format flattening', 'core.ULog._MessageAddLogged'), ('sample collection', 'core.ULog._MessageData'),
   ('conversion to columns', 'core.ULog.Data'), ('dispatch', 'core.ULog._read_file_data')],
  ['ULog.data_list', 'ULog.get_dataset'],
  [('subscriptions', 'message id to topic instance', 'core.ULog._read_file_data')])
p('C02', 'Definitions and metadata are reported exactly as logged',
  'Start time, file version, compatibility flags, information messages of every type, grouped multi-information messages, '
  'initial parameters, parameter defaults per default type, and message formats are reported with exactly the logged keys, '
  'types and values. A file is accepted exactly when it begins with a complete header with the magic bytes and sets no '
  'unknown incompatible flag; text that is not valid UTF-8 loses only its invalid bytes.',
  ['inputs'], 'all header, flag, key, value and text bytes; definitions before and behind the start of the data section',
  FEW + 'they contain no unusual types, long keys, invalid text, unknown flags or multi-bit defaults.',
  [('header', 'core.ULog._read_file_header'), ('definitions', 'core.ULog._read_file_definitions'),
   ('information', 'core.ULog._MessageInfo'), ('defaults', 'core.ULog._add_parameter_default'),
   ('multi information', 'core.ULog._add_message_info_multiple'), ('formats', 'core.ULog.MessageFormat'),
   ('text', 'core.ULog.parse_string')],
  ['ULog.msg_info_dict', 'ULog.msg_info_multiple_dict', 'ULog.initial_parameters', 'ULog.get_default_parameters',
   'ULog.message_formats', 'ULog.start_timestamp'])
p('C03', 'Log messages, dropouts and parameter changes keep order, values and times',
  'Every logged message (plain or tagged), dropout and parameter change is reported once, in file order, with its logged '
  'level, level name, tag, text, duration or value and its own time stamp. Dropouts and parameter changes, which have no '
  'time of their own, carry the largest time of start and data samples read so far, and the last time stamp of the log '
  'is the largest of those.',
  ['inputs', 'histories'], 'all sequences of data, log, tagged log, dropout, parameter and sync messages; all values and times',
  FEW + 'each has one fixed sequence, with times that never decrease.',
  [('event loop', 'core.ULog._read_file_data'), ('log message', 'core.ULog.MessageLogging'),
   ('tagged', 'core.ULog.MessageLoggingTagged'), ('dropout', 'core.ULog.MessageDropout')],
  ['ULog.logged_messages', 'ULog.logged_messages_tagged', 'ULog.dropouts', 'ULog.changed_parameters',
   'ULog.last_timestamp'])
p('C04', 'Writing a log and reading it back gives the same log',
  'For any log that was read without damage and whose streams are ordered in time, writing it and reading the result '
  'yields the same definitions, topic data, messages, dropouts, parameters and changes, and the two logs compare equal '
  '(a written log never announces appended data). Writing does not modify the log object.',
  ['inputs', 'histories'], 'all values, all sequences of events, all kinds of definitions and field types',
  'One test writes three sample logs and compares them; value ranges, types, ties and orders beyond those are not reached.',
  [('writer', 'core.ULog.write_ulog'), ('data items', 'core.ULog._make_data_items'),
   ('info', 'core.ULog._make_info_message_data'), ('parameters', 'core.ULog._make_parameter_data'),
   ('formats', 'core.ULog._write_format_messages'), ('equality', 'core.ULog.__eq__')],
  ['ULog.write_ulog', 'ULog.__eq__'])
p('C05', 'A written log is a well-formed file in time order',
  'A written file is a header with the start time, a flag message that keeps the compatibility flags and announces no '
  'appended data, definitions, one subscription per dataset, then data messages whose sizes match their formats and whose '
  'time stamps do not decrease; nothing else. Every sample is written once with its values, and reading and writing the '
  'file again reproduces it byte for byte (tagged messages of one time but different tags may change places).',
  ['inputs', 'histories'], 'all values and all sequences of events',
  'The tests only read written files back with the same library, which hides errors made alike in both directions.',
  [('flags', 'core.ULog._write_flags'), ('data section order', 'core.ULog._write_data_section'),
   ('subscriptions', 'core.ULog._write_logged_message_subscriptions'), ('header', 'core.ULog._write_file_header')],
  ['bytes written by ULog.write_ulog'])
p('C06', 'A truncated log yields everything that was complete',
  'A log cut at any byte behind its header reads without error and equals the log made of the messages that are complete '
  'before the cut; samples and messages are prefixes of those of the full log, and the cut is not reported as damage. '
  'A file cut inside the header is refused.',
  ['crash_points', 'inputs'], 'every cut position of a log with every kind of message and symbolic payloads',
  'No test truncates a file; a power loss can cut at any byte.',
  [('definition section', 'core.ULog._read_file_definitions'), ('data section', 'core.ULog._read_file_data')],
  ['ULog constructor and all its properties'])
p('C07', 'Unknown messages and bad data messages harm nothing else',
  'A message of an unknown type and plausible size is skipped wherever it appears, and changes nothing in what is read. '
  'A data message of an unknown id or of a wrong size is dropped and the file is flagged as damaged, but every other message '
  'is read as if it were absent. Reading any bytes terminates, with a result whose columns have equal length or with an error.',
  ['inputs', 'fault_sequences'], 'all types, sizes, positions and contents of the foreign message; all short byte strings '
  'behind the header',
  'No test contains a message type the library does not know; two sample files have damage of one kind.',
  [('data loop', 'core.ULog._read_file_data'), ('plausibility', 'core.ULog._check_packet_corruption'),
   ('definition loop', 'core.ULog._read_file_definitions'), ('size check', 'core.ULog._MessageData.initialize')],
  ['ULog.file_corruption and all other properties'])
p('C08', 'Reading resumes at the next sync marker after damage',
  'When the data section contains damage that makes message boundaries unknown, the file is flagged as damaged and every '
  'message before the damage and every message behind the next sync marker is read as if the damage were absent, wherever '
  'that marker lies relative to the search block size.',
  ['fault_sequences', 'inputs'], 'kinds, positions and lengths of damage, with symbolic bytes before the marker',
  'One sample file has one damaged place; the alignment of the marker with search blocks is a matter of chance.',
  [('search', 'core.ULog._find_sync'), ('plausibility', 'core.ULog._check_packet_corruption'),
   ('data loop', 'core.ULog._read_file_data')],
  ['ULog.file_corruption and all other properties'])
p('C09', 'Appended data is read as one log',
  'Data appended to a log behind up to three announced offsets, each behind a fragment of a cut-off message, is read as if '
  'the fragments were absent: all definitions, subscriptions, samples and messages of all sections are there. This also holds '
  'when a section contains damage and a sync marker.',
  ['inputs', 'crash_points'], 'number of sections, where each is cut, and the bytes of the fragments',
  'One sample file has one appended section.',
  [('sections', 'core.ULog._load_file'), ('section end', 'core.ULog._read_file_data'), ('search', 'core.ULog._find_sync')],
  ['ULog.has_data_appended and all other properties'])
p('C10', 'Filtering by topic name selects exactly those topics',
  'Reading with a list of topic names yields exactly the datasets of those topics, each identical to the one read without '
  'a filter, for names that are absent or share a prefix too; no filter means all topics. Everything that is not topic data '
  'is unaffected, except times that derive from the samples read.',
  ['inputs', 'configurations'], 'all subsets of topics, with symbolic payloads',
  'Tests of the filter use one list on one file.',
  [('filter', 'core.ULog._read_file_data'), ('subscription', 'core.ULog._MessageAddLogged')],
  ['ULog(message_name_filter_list=...)'])
p('C11', 'How a log is opened does not change what is read',
  'Reading a path and reading an open file give equal logs and leave the file unmodified; reading only the header gives the '
  'definitions before the data section, equal to those of the full log, and no data. Invalid text is an error exactly when '
  'string exceptions are requested (as every tool does unless told to ignore them), and the choice made for one log does not '
  'affect another.',
  ['inputs', 'configurations', 'histories'], 'all payloads, text bytes, ways of opening and orders of strict and lenient reads',
  'Tests use one mode per file and never alternate the modes.',
  [('opening', 'core.ULog._load_file'), ('constructor', 'core.ULog.__init__'), ('text', 'core.ULog.parse_string')],
  ['ULog constructor arguments'])
p('C12', 'Logs compare equal exactly when their contents agree',
  'Comparison of logs is reflexive and symmetric, != is its negation, and two logs are equal exactly when header, flags, '
  'formats, information, parameters, defaults, changes, messages, tags, dropouts and datasets all agree. A log is unequal to '
  'any other kind of object.',
  ['inputs'], 'pairs of logs that differ in any one component, with symbolic values on both sides',
  'Tests compare a log with its copy; whether a difference in each component is noticed is not tested.',
  [('log', 'core.ULog.__eq__'), ('dataset', 'core.ULog.Data.__eq__'), ('format', 'core.ULog.MessageFormat.__eq__'),
   ('message', 'core.ULog.MessageLogging.__eq__')],
  ['ULog.__eq__'])
p('C13', 'Dataset lookup and value changes are exact',
  'A dataset is found by name and instance and carries the data of that instance; a missing one raises an error. The list of '
  'changes of a field holds the first sample and every later sample whose value differs from the one before, with their '
  'times, where samples at time zero are ignored.',
  ['inputs'], 'all values, times, names and instance numbers',
  'Tests look up existing topics only and do not check value changes against a specification.',
  [('changes', 'core.ULog.Data.list_value_changes'), ('lookup', 'core.ULog.get_dataset')],
  ['ULog.get_dataset', 'ULog.Data.list_value_changes'])
p('C14', 'Version information decodes every version word',
  'The version of a log is the four bytes of its version word (or of the vendor word asked for), absent if the log has '
  'none, and its text is v<major>.<minor>.<patch> with the suffix for alpha, beta or release candidate by type; development versions '
  'have no text.',
  ['inputs'], 'all 32-bit version words, present or absent',
  'Sample logs have one version word.',
  [('tuple', 'core.ULog.get_version_info'), ('text', 'core.ULog.get_version_info_str')],
  ['ULog.get_version_info', 'ULog.get_version_info_str'])
p('C15', 'Message extraction returns exactly the samples of the time window',
  'Extracting a topic yields one row per sample whose time is at or after the start and before the end of the window (all '
  'if a limit is not given, none if the window misses the log), in order, with the time stamp first and every other field '
  'with its logged value. A topic that is not in the log raises an error.',
  ['inputs'], 'all values, times and windows',
  'The tests use no window that begins or ends outside the log, and one topic.',
  [('window', 'extract_message.first_index_from'), ('rows', 'extract_message.extract_message')],
  ['extract_message()'])
p('C16', 'CSV files contain every selected sample with its values',
  'Conversion to CSV writes one file per selected topic instance, named after log, topic and instance, with a header line '
  '(time stamp first, padding left out, character arrays as one text column) and one line per sample in the time window with '
  'its values and texts, using the chosen delimiter and folder. The log itself is not modified, and no other file is written.',
  ['inputs', 'configurations'], 'all values, texts, windows, delimiters, names and options',
  'Tests convert one file and check that nothing fails.',
  [('conversion', 'ulog2csv.convert_ulog2csv'), ('texts', 'ulog2csv.read_string_data'), ('options', 'ulog2csv.main')],
  ['files written by ulog2csv'])
p('C17', 'Parameter export lists every parameter with its values',
  'Exported parameters are sorted by name and have their logged value, followed by the values of later changes (and their '
  'times if asked for) unless only initial values are asked for, in the syntax of the chosen format, on standard output '
  'or in the chosen file. Asking for defaults gives exactly the defaults of that kind, and fails if the log has none.',
  ['inputs', 'configurations'], 'all values, changes, formats and options',
  'The printed parameters of three logs are compared, with default options.',
  [('export', 'params.main'), ('defaults', 'params.get_defaults')],
  ['output of ulog_params'])
p('C18', 'The summary states times, dropouts, version, texts and topics correctly',
  'The summary of a log shows start time and duration as h:mm:ss, number, total, largest and mean length of dropouts, the '
  'software version, information messages (all if verbose), and per topic instance the message size, number of samples and bytes. '
  'Asking for one multi-information message prints all its parts, text joined and bytes in hexadecimal.',
  ['inputs', 'configurations'], 'all times, durations, dropouts, texts and options',
  'The summaries of three logs are compared with recorded output.',
  [('summary', 'info.show_info'), ('options', 'info.main')],
  ['output of ulog_info'])
p('C19', 'Every logged message and event is displayed once, in time order',
  'The message list shows every logged message with time and level; for PX4 logs also every external event, decoded with '
  'the definitions of the log if they are valid and else the default ones, merged by time, where texts that only accompany an '
  'event are left out. Events that cannot be decoded are shown with their id, and definitions are fetched only if needed.',
  ['inputs', 'configurations'], 'all event ids, levels, arguments, times and texts; definitions embedded, default, absent '
  'or failing',
  'Output for three logs is compared; the decoder and its fallbacks are not tested.',
  [('events', 'px4_events.PX4Events.get_logged_events'), ('definitions', 'px4_events.PX4Events._get_event_parser'),
   ('merge', 'messages.main')],
  ['output of ulog_messages', 'PX4Events.get_logged_events'])
p('C20', 'GPS dumps contain exactly the bytes of each direction',
  'Extracting GPS data writes two files for the chosen receiver, one per direction, each the concatenation in order of the '
  'used part of every matching sample. Without such data, or if its format does not fit, no file is written.',
  ['inputs', 'configurations'], 'all lengths, directions, instances and bytes',
  'No test runs this tool on a log with GPS data.',
  [('extraction', 'extract_gps_dump.main')],
  ['files written by ulog_extract_gps_dump'])
p('C21', 'The KML track contains every fixed position in order, coloured by mode',
  'The track contains every position with a fix, thinned only by the minimum interval, in order, with longitude, '
  'latitude and altitude in degrees and metres plus offset; it is split at changes of the flight mode, each part in the colour '
  'of its mode and named after topic and mode. Camera triggers are marked at their positions, and the options for topics, '
  'colours, offset and style take effect.',
  ['inputs', 'configurations'], 'all coordinates, times, fixes, mode changes and options',
  'No test runs this conversion.',
  [('track', 'ulog2kml._kml_add_position_data'), ('triggers', 'ulog2kml._kml_add_camera_triggers'),
   ('options', 'ulog2kml.main'), ('colours', 'ulog2kml._kml_default_colors')],
  ['calls to the KML library'])
p('C22', 'ROS 2 bags contain every sample of the supported topics',
  'Conversion to a ROS 2 bag declares one topic per instance of each selected topic, with the message type of that topic '
  '(its name in camel case or the type that PX4 publishes on topics of that name), and '
  'writes every sample of it once, in order, with its time in nanoseconds and every scalar, boolean and array field set to the '
  'logged value, for every version of the bag library. Topics without a message type, with fields the type lacks, or with '
  'nested fields are left out and change nothing else.',
  ['inputs', 'configurations'], 'all values, instances and library versions',
  'The test needs ROS, which is not installed where the suite runs.',
  [('conversion', 'ulog2ros2bag.convert_ulog2ros2bag'), ('message', 'ulog2ros2bag.ros2_msg_from_ulg_topic'),
   ('type', 'ulog2ros2bag.calc_msgtype'), ('versions', 'ulog2ros2bag.rosbag_version')],
  ['calls to the bag library'])
p('C23', 'Vehicle type, estimator and RC channel names follow the parameters',
  'The vehicle type and the estimator are those the initial parameter values select, for every value, with defined '
  'results for missing or unknown ones. The names of an RC channel are exactly the inputs whose mapping parameter selects it.',
  ['inputs'], 'all parameter values and presence of topics',
  'Sample logs contain a few values each.',
  [('type', 'px4.PX4ULog.get_mav_type'), ('estimator', 'px4.PX4ULog.get_estimator'),
   ('channels', 'px4.PX4ULog.get_configured_rc_input_names')],
  ['PX4ULog methods'])
p('C24', 'Roll, pitch and yaw match the quaternions of every attitude topic',
  'For every instance of the chosen topics (by default all that hold attitude quaternions), adding Euler angles adds roll, '
  'pitch and yaw columns with one angle per sample, computed from the quaternion of that sample, and leaves all logged columns '
  'unchanged. Topics that are absent are ignored.',
  ['inputs'], 'all quaternion components (within magnitude bounds) and sets of topics',
  'The tests check that columns appear in three logs.',
  [('all topics', 'px4.PX4ULog.add_roll_pitch_yaw'), ('one topic', 'px4.PX4ULog._add_roll_pitch_yaw_to_message')],
  ['PX4ULog.add_roll_pitch_yaw'])
p('C25', 'A log saved to a database is loaded unchanged',
  'For any log, saving it to a database and loading it by its key yields the same definitions, values of every type, data, '
  'messages, parameters and flags; it compares equal to the log read from the file and writes the same file. With JSON columns '
  'each field is also stored as an object from time to value in which values that are not finite are null.',
  ['inputs', 'configurations'], 'all values of every kind of content, with and without JSON columns',
  'The tests save three sample logs; types, NaN, empty formats and big values beyond those are not reached.',
  [('save', 'db.DatabaseULog.save'), ('load', 'db.DatabaseULog.load'), ('datasets', 'db.DatabaseULog.get_dataset'),
   ('schema', 'pyulog/sql/pyulog.1.sql:1')],
  ['DatabaseULog.save', 'DatabaseULog(primary_key=...)'])
p('C26', 'The database stores each file once and deletes exactly what is asked',
  'A log is stored once and found by the digest of its contents: saving contents that are already stored is refused '
  'and changes nothing, and different contents never share a key. Deleting a log removes all its rows and no other; '
  'afterwards it can be saved again. Digests depend on all contents and nothing else, and databases of another schema version '
  'or contradictory arguments are refused.',
  ['histories', 'inputs'], 'all contents and orders of saving and deleting',
  'Tests save and delete one log in an otherwise empty database.',
  [('save', 'db.DatabaseULog.save'), ('delete', 'db.DatabaseULog.delete'),
   ('digest', 'db.DatabaseULog.calc_sha256sum'), ('lookup', 'db.DatabaseULog.primary_key_from_sha256sum'),
   ('constructor', 'db.DatabaseULog.__init__')],
  ['DatabaseULog.save/delete/exists_in_db/primary_key_from_sha256sum'])
p('C27', 'Saving and deleting a log is all or nothing',
  'If saving or deleting a log fails at any statement, the database is as it was before, the object knows whether it is stored, '
  'and the operation can be repeated. Another connection sees either the whole log or none of it at any time.',
  ['crash_points', 'fault_sequences'], 'every statement of save, load and delete as the point of failure or observation',
  'No test makes a statement fail.',
  [('transaction', 'db.DatabaseULog.save'), ('handle', 'db.DatabaseULog.get_db_handle'),
   ('delete', 'db.DatabaseULog.delete')],
  ['database contents after a fault'])
p('C28', 'Schema migration runs each step once and can be interrupted',
  'Migration executes every missing migration script once, in order, and records it together with its effect; it stops at the '
  'first script that is missing or faulty, leaving the state before that script. Run again after a failure, or after a stop at '
  'any statement, it completes; it refuses a database of unknown state unless forced and changes nothing in a dry run.',
  ['crash_points', 'histories', 'configurations'], 'starting versions, damaged scripts, options, and every statement as stopping point',
  'The tests run complete migrations from two versions.',
  [('migration', 'migrate_db.migrate_db'), ('script', 'migrate_db._read_migration_file'),
   ('version', 'migrate_db._read_db_schema_version')],
  ['migrate_db()'])
p('C29', 'Migration keeps all stored logs and ends in the current schema',
  'A database of any earlier schema version with logs in it has, after migration, exactly the schema of a new database and '
  'the same logs: every value of every table reads as before, with times as integers, and migrated logs can be deleted completely.',
  ['inputs', 'histories'], 'all values in all tables, from every schema version, also when interrupted in between',
  'The tests migrate an empty database.',
  [('migration', 'migrate_db.migrate_db'), ('scripts', 'pyulog/sql/pyulog.2.sql:1'),
   ('scripts', 'pyulog/sql/pyulog.4.sql:1'), ('scripts', 'pyulog/sql/pyulog.5.sql:1')],
  ['database contents', 'DatabaseULog(primary_key=...)'])
p('C30', 'Lazily loaded datasets are the same, whenever they are requested',
  'A log loaded lazily from a database has all its properties except the data columns, and each dataset requested from it, '
  'in any order, cached or not, equals the eagerly loaded one; a cached dataset is loaded once. Missing datasets raise an '
  'error, and such a log cannot be written to a file before its data is loaded.',
  ['histories', 'inputs'], 'all sequences of requests and all values',
  'Tests request one dataset once.',
  [('lazy load', 'db.DatabaseULog.load'), ('datasets', 'db.DatabaseULog.get_dataset'),
   ('writing', 'db.DatabaseULog.write_ulog')],
  ['DatabaseULog.get_dataset'])
p('C31', 'Concurrent operations on a database behave as if one came after the other',
  'When a second connection saves, deletes or loads a log between any two statements of a save, delete, load or dataset '
  'request, each of the two either has its full effect or is refused with an error and has none, at least one succeeds, and '
  'a refused save or delete can be repeated. The same contents are never stored twice, a log that is read is whole, and the '
  'database then holds exactly the logs that a serial order would leave.',
  ['schedules', 'inputs'], 'all positions between statements, all pairs of operations and all contents within the bounds',
  'Tests use one connection after the other.',
  [('save and delete', 'db.DatabaseULog.save'), ('load', 'db.DatabaseULog.load'), ('datasets', 'db.DatabaseULog.get_dataset')],
  ['database contents', 'exceptions', 'loaded logs'])

TECH = ('symbolic execution of the instrumented Python source with Z3 deciding every branch and assertion within bounds; '
        'counterexamples replayed on the unmodified code')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks = []
    for x in P:
        r = registry.PROPS[x['id']]
        checks.append({
            'property': x['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % x['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % x['id'],
            'technique': TECH, 'level': 'model_checking',
            'level_note': 'Decided for all values within: %s. Not covered: %s. Assumes: %s.' % (
                r['bounds'], r['outside'], '; '.join(r['assumptions'] + ['the engine models agree with the real '
                    'libraries (cross-checked by replay on every run)', 'Z3 is correct']))})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy"', 'checks': checks, 'not_applicable': NA,
         'notes': 'No hooks: the checks instrument the source at import, outside /repo. See DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


NA = []
if __name__ == '__main__':
    main()
