"""Which harnesses decide which property, and within what bounds."""
from symex.explore import Item


def I(fn, **params):
    mod, name = fn.split('.')
    return Item('h_' + mod, name, params)


COMMON_ASSUMPTIONS = [
    'struct, numpy, bytes/str methods, file objects and the modules listed in DESIGN.md are modelled by the engine; '
    'the models are cross-checked by re-running sampled inputs of explored paths on the unmodified code',
    'Z3 4.x decides bit-vector, real and floating-point queries correctly',
    'CPython executes the concrete parts of the code under test as it would without instrumentation',
]

PROPS = {}


def prop(pid, quick, thorough=(), bounds='', outside='', assumptions=(), **kw):
    PROPS[pid] = {'quick': list(quick), 'thorough': list(thorough), 'bounds': bounds, 'outside': outside,
                  'assumptions': list(assumptions), **kw}


# ---------------------------------------------------------------- reading
prop('C01',
     [I('core.topic_types'), I('core.topic_compose'), I('core.topic_nested'), I('core.topic_names'),
      I('core.topic_interleave'), I('core.topic_twins'), I('core.topic_arrays'), I('core.topic_order')],
     [I('core.topic_compose', n=3), I('core.topic_interleave', n=4)],
     bounds='payload bytes, message ids and instance numbers fully symbolic; formats of up to 3 (thorough 4) fields '
            'over all base types, arrays, nesting depth 3, arrays of 1-300 elements; field names of 9 and 12 symbolic characters; two topics alike but for one detail; up to 4 (5) data messages over 3 subscriptions',
     outside='longer formats and logs; formats with cyclic nesting')
prop('C02',
     [I('core.header_fields'), I('core.flag_bits'), I('core.info_values'), I('core.text_bytes'),
      I('core.text_long', where=['info', 'multi']), I('core.info_multiple'), I('core.parameters'), I('core.key_chars'), I('core.formats')],
     [I('core.info_multiple', n=5), I('core.text_bytes', n=4)],
     bounds='all 16 header bytes; all 16 flag bytes, with 0-60 bytes of later flags; every info type with symbolic value, keys of 1/100/max bytes and of symbolic characters; '
            'texts of 3 (4) arbitrary bytes, and of up to 60002 bytes with 2 symbolic; 4 (5) multi-info messages over two keys; 2 parameter messages with '
            'symbolic values and default bits; one format with symbolic names',
     outside='more messages per kind; longer symbolic texts')
prop('C03', [I('core.events'), I('core.text_long', where=['log', 'tag']), I('core.log_levels'), I('core.topic_names')], [I('core.events', n=4)],
     bounds='any sequence of 3 (4) events of 6 kinds; all times, levels, tags, durations and values symbolic; '
            'texts of up to 60002 bytes with 2 symbolic',
     outside='longer sequences')
SMALL = dict(simple=1, latest=4095, kinds=['d0', 'log', 'drop', 'param'])      # times in a small range: any arithmetic on them is decided
LATE = dict(SMALL, base=2**60, latest=7)     # close times beyond the precision of floats
prop('C04',
     [I('write.rt_events', **SMALL), I('write.rt_events'), I('write.rt_types'), I('write.rt_definitions', simple=1), I('write.rt_long'), I('write.rt_exact'), I('core.text_long', write=1),
      I('write.rt_events', **LATE)],
     [I('write.rt_definitions'), I('write.rt_events', n=3, simple=1)],
     bounds='logs with 3 topic instances, 1 sample and any sequence of 2 (3) events of 7 kinds, values and times '
            'symbolic; a topic with every field type; every kind of definition; time stamps within one stream not '
            'decreasing, anywhere in 64 bits, or within 4 ms, or within 7 us beyond 2^60 (arithmetic on them is then decided exactly); numbers that need every digit; texts of up to 60000 bytes',
     outside='longer logs; NaN values, for which equality is not defined by the API')
prop('C05', [I('write.wellformed', **SMALL), I('write.wellformed', **LATE), I('write.wellformed'), I('write.block_sizes')], [I('write.wellformed', n=3, simple=1)],
     bounds='as C04; the written bytes are decoded by an independent reader; sections of exactly 256-65536 bytes, and one less',
     outside='longer logs')
prop('C06', [I('file.truncate'), I('file.truncate', lead='log'), I('file.truncate', lead='tag'), I('file.truncate_long')],
     bounds='a log with one of each message kind (all payloads symbolic), cut at every byte position; data sections that begin with a subscription, a plain or a tagged text; a last message of 300, 3000 or 60000 bytes of 8 kinds of which 1-32768 bytes or all but one are missing',
     outside='longer logs; a file cut inside the 16 byte header is refused')
prop('C07',
     [I('file.unknown_message'), I('file.big_unknown'), I('file.bad_data'), I('file.total', n=5),
      I('file.twice', kinds=['unknown', 'id', 'sync']), I('file.many_bad')],
     [I('file.total', n=6), I('file.total', n=6, pre='data')],
     bounds='foreign messages of 1-11 symbolic bytes, and of 511-10000 bytes with 4 symbolic, of any unknown type at '
            'every position; data of any unknown id, or of a wrong size, at every position; 3, 11 and 300 unusable messages of five mixtures; any 5 (6) bytes behind '
            'the header',
     outside='more than two symbolic foreign messages in one log; a type the definition section and data section treat differently')
prop('C08',
     [I('file.resync', g=[0, 1, 500, 506, 511, 512, 513]), I('file.sync_in_unknown'),
      I('file.twice', kinds=['unknown', 'unknown_sync', 'damage', 'id']),
      I('file.twice', kinds=['unknown', 'damage'], lens=[9]), I('file.twice', kinds=['unknown', 'damage'], more=600), I('file.twice', kinds=['damage'], good=5), I('file.resync', g=[70000]), I('file.resync_far')],
     [I('file.twice'), I('file.resync_far', blocks=[10, 29, 48, 67, 86, 105] + list(range(500, 4200, 19)) + [8165, 8192, 16384, 32768]), I('file.resync', g=[4, 200, 505, 507, 508, 509, 510, 1017, 1018, 1019, 1020, 1023, 1024, 1025])],
     bounds='three kinds of damaged header at 3 positions, followed by 0-513 (1025) bytes of which the last three are '
            'symbolic, and a sync marker; 70000 bytes of garbage, and every length within 9 of 12 block sizes from 505 to 4096 (thorough: every length from 491 to 4200, and near powers of two to 32768); sync marker inside a foreign message with 0-9 symbolic bytes before it; two disturbances of 4 (6) kinds at 8 '
            'pairs of positions, of 3, 9 or 603 bytes, behind 0 or 5000 undamaged bytes',
     outside='more than two damaged regions; garbage that contains a partial marker by itself')
prop('C09', [I('file.appended'), I('file.appended_resync'), I('file.appended_sizes'), I('file.appended', offsets=1),
             I('file.appended', offsets=3, cuts=[0, 1, 9])],
     [I('file.appended', offsets=3)],
     bounds='1-3 appended sections, each behind a fragment cut at 6 (of three: 3, thorough 6) positions with symbolic bytes; the compat '
            'flags symbolic; sections at distances from 60 to 80000 bytes',
     outside='offsets that point into the middle of complete messages')
prop('C10', [I('file.name_filter')],
     bounds='every subset of the topics (and a missing one) of a log with symbolic payloads',
     outside='longer logs')
prop('C11', [I('file.sources'), I('file.strict_strings'), I('tools.ignore')], [I('file.strict_strings', n=3)],
     bounds='one log with symbolic payloads, read by path and by file object, complete and header-only, with and without appended data and with default values of initial parameters; 2 (3) '
            'arbitrary text bytes in each kind of text, both modes; every tool with and without its option',
     outside='other kinds of file objects')
# ---------------------------------------------------------------- derived views
prop('C12', [I('api.equality')],
     bounds='pairs of logs that differ in one of 29 components with symbolic values on both sides',
     outside='NaN values')
prop('C13', [I('api.value_changes'), I('api.close_changes'), I('api.lookup')], [I('api.value_changes', n=5)],
     bounds='4 (5) samples with symbolic values of int16 and float fields; 3 values of the widest types that differ as little as possible; lookups by symbolic name and instance '
            'over 3 datasets',
     outside='longer series; the time stamp 0')
prop('C14', [I('api.version')],
     bounds='the 32 bits of the version word, all symbolic; present or absent',
     outside='nothing')
# ---------------------------------------------------------------- tools
prop('C15', [I('tools.extract'), I('tools.extract_names')],
     [I('tools.extract', n=4), I('tools.extract_names', n=6)],
     bounds='topic names of 3 (6) arbitrary ASCII characters; 3 (4) samples with symbolic values and not decreasing symbolic times, symbolic window or none',
     outside='unsorted time stamps')
prop('C16',
     [I('tools.csv', vary='text'), I('tools.csv', vary='files'), I('tools.csv', vary='window'), I('tools.csv_text'), I('tools.csv_text', n=1), I('tools.csv_text', n=2, rest=9), I('tools.csv_text', n=1, rest=299), I('tools.csv_exact'), I('tools.csv_fields'), I('tools.csv_names'),
      I('tools.csv_cli')],
     [I('tools.csv_text', n=4), I('tools.csv', vary='all', n=1)],
     bounds='three topic instances with 2 samples each, symbolic values, window, names and char arrays; 3 (4) '
            'arbitrary bytes per char array of 2-300; every option; fields named like padding or time stamps; numbers that need every digit',
     outside='the decimal digits that numpy prints for a float (taken as an uninterpreted function of its bits)')
prop('C17', [I('tools.params_out'), I('tools.params_exact'), I('tools.params_many'), I('tools.params_default_missing')],
     bounds='4 parameters, changed or not, with defaults or not, symbolic values; every format and option; 120 and 300 changes',
     outside='-i together with -t')
prop('C18',
     [I('tools.info', vary='times'), I('tools.info', vary='drops'), I('tools.info', vary='texts'),
      I('tools.info_message'), I('tools.info_topics')],
     [I('tools.info', vary='all')],
     bounds='start and last time symbolic to 35 years, 2 dropouts of symbolic length, symbolic texts; five datasets with instance numbers of 1-3 digits; numeric, text and byte multi-information',
     outside='the digits of printed floats')
prop('C19',
     [I('events.events', n=2, meta=['none']), I('events.events'), I('events.no_samples'), I('events.lengths'),
      I('events.several'), I('events.download'), I('events.messages', kinds=['log', 'ev']), I('events.messages', kinds=['log', 'log']), I('events.messages', px4=False, kinds=['log', 'log'])],
     [I('events.messages'), I('events.several', n=4)],
     bounds='2 event samples with symbolic id, levels, arguments and time; 2 (3) messages merged in any order; '
            'definitions embedded in 1-100 pieces, external, fetched or absent, for up to 3 (4) logs in turn; 0-255 arguments',
     outside='the libevents parser itself (a submodule that is not part of this checkout)',
     assumptions=['libevents_parse is replaced by a stand-in that formats id and arguments'])
prop('C20', [I('events.gps'), I('events.gps', size=79, lens=[0, 1, 63, 64, 65, 79]),
           I('events.gps', size=127, lens=[80, 127], n=1), I('events.gps_missing')], [I('events.gps', n=3)],
     bounds='2 (3) samples with symbolic length field and bytes, two instances; 2 of up to 79 bytes with decreasing times; one of up to 127 bytes',
     outside='several receivers in one log')
prop('C21',
     [I('px4.track', kinds=['int'], gaps=[100000], modes=[0, 22]), I('px4.track', kinds=['double'], modes=[4], n=1),
      I('px4.track', kinds=['new'], topics=['other'], modes=[0], gaps=[1500000]), I('px4.track_options'), I('px4.track_topics'),
      I('px4.track', kinds=['double'], topics=['vehicle_gps_position'], gaps=[100000], n=3, m=0)],
     [I('px4.track', modes=[0, 4, 17, 22])],
     bounds='1-3 positions in up to two topics with symbolic coordinates, times and fix, 2 mode changes at symbolic times; every option',
     outside='the digits of printed floats; the simplekml package (replaced by a recorder)',
     assumptions=['simplekml is replaced by a recorder'])
prop('C22',
     [I('ros.msgtype'), I('ros.types'), I('ros.bag_name'), I('ros.bag', multi=[[0]], n=1), I('ros.bag', versions=['0.26.1'], n=1), I('ros.bag', versions=['0.33.4'], n=1, plain=1, multi=[[0, 9], [0, 10], [9, 10, 255], [0, 1, 2, 11]]),
      I('ros.bag', versions=['0.26.1'], multi=[[0], [1]])],
     [I('ros.bag', versions=['0.15.3']), I('ros.msgtype', n=2)],
     bounds='topic names of 38 families with up to 2 symbolic characters in front and behind; 6 topics of which 4 are supported, 1 (2) samples with symbolic values, six versions of rosbag2_py; up to four instances numbered 0-255; five time stamps to 2^53; nine file names',
     outside='characters at or above 0x80 in text fields; the ROS packages themselves',
     assumptions=['rosbag2_py, rclpy and rosidl are replaced by recorders'])
prop('C23', [I('px4.vehicle'), I('px4.rc_inputs')],
     bounds='every parameter value (32 bits) and later changes; the presence of topics',
     outside='nothing')
prop('C24', [I('px4.attitude'), I('px4.attitude_turns')],
     bounds='one sample per instance with quaternion components of magnitude 1/8 to 1/4, over all topics the method '
            'handles; any two of 11 attitudes in all quadrants, and 26 in a row',
     outside='the rounding of the trigonometric functions (compared within a tolerance over uninterpreted functions)')

# ------------------------------------------------------------- database
SQL_ASSUMPTION = ('statements run in the real SQLite library; symbolic values travel through it as unique, equally '
                  'ordered placeholders of the same storage class')
prop('C25',
     [I('db.roundtrip', what=w) for w in ('meta', 'data', 'types', 'msgs', 'info', 'multi', 'params', 'formats')]
     + [I('db.exact'), I('db.nan'), I('db.flag_lost'), I('db.json_columns')],
     [I('db.json_columns', n=3)],
     bounds='8 kinds of logs, each with symbolic values in one part of it (header and flags, data of every type, '
            'messages, information, multi information, parameters, formats), with and without JSON columns; 2 (3) samples; 24 numbers of 7 types that need all digits of their type',
     outside='unsigned values above 2^63-1 in integer columns (refused, as documented in the schema); '
             'two datasets of the same name and instance (refused)',
     assumptions=[SQL_ASSUMPTION])
prop('C26', [I('db.delete'), I('db.stale'), I('db.dedupe'), I('db.digest'), I('db.digest_similar'), I('db.find'), I('db.refused')], [I('db.delete', what='params'), I('db.delete', what='msgs')],
     bounds='three logs, any saved order and any deleted; two files with symbolic contents; files of 16-12300 bytes '
            'read from three positions; 19 texts that are almost a digest; 12 pairs of contents that text processing would make equal; schema versions 0-6',
     outside='more logs; the collision resistance of SHA-256 (taken as injective)',
     assumptions=[SQL_ASSUMPTION, 'SHA-256 is an injective function of the contents'])
prop('C27', [I('db.atomic'), I('db.isolated')],
     bounds='a fault at any statement of save, load and delete, of two kinds; another connection looks between any two '
            'statements',
     outside='faults inside the SQLite library, the operating system or the disk', assumptions=[SQL_ASSUMPTION])
prop('C28', [I('db.sequence'), I('db.no_dir'), I('db.crash')],
     bounds='5 scripts of which any one may be damaged in five ways, starting from versions none, 0, 1, 3, 5, 6, all options, by call and by command line; a '
            'stop at any statement of a migration from versions 1-4',
     outside='faults inside the SQLite library, the operating system or the disk', assumptions=[SQL_ASSUMPTION])
prop('C29', [I('db.upgrade'), I('db.crash')],
     bounds='one row in every table of the schema versions 1-5, with symbolic values',
     outside='larger databases', assumptions=[SQL_ASSUMPTION])
prop('C30', [I('db.lazy'), I('db.no_data')], [I('db.lazy', n=3)],
     bounds='any sequence of 2 (3) requests for two datasets, with and without caching or data; logs without datasets',
     outside='longer sequences', assumptions=[SQL_ASSUMPTION])
prop('C31', [I('db.concurrent', first=['save', 'json', 'delete']), I('db.concurrent', first=['load', 'dataset', 'reread']), I('db.stale')],
     [I('db.concurrent', first=['save', 'json', 'delete', 'load', 'dataset', 'reread'], steps=90)],
     bounds='one complete save, delete or load of a second connection, between any two of the first 60 statements of a save, '
            'delete, load or dataset request (also one from a fully loaded log); contents equal or different (symbolic); three logs; an object whose log '
            'was deleted and stored again by another connection',
     outside='more than one switch between the two; a migration at the same time; failures of the locks of SQLite',
     assumptions=[SQL_ASSUMPTION, 'a connection sees a locked database at once instead of waiting'])
