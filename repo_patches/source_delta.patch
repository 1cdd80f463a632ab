From 333abe3594e0e89ebb26aa0a7d6dc34afaf73b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 01/25] fix: accept data messages that include their trailing
 padding bytes

The maximum size of a data message was computed after the trailing padding
fields had been removed, so a message carrying its padding was dropped and the
file flagged as corrupt.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..4cf5bb2 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -753,7 +753,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -761,6 +760,9 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            for field in self.field_data:
+                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From 1b33459d4dd55ba52b7c6ed1403acebdeb39c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 02/25] fix: index parameter defaults by bit number

A default whose type mask has bit 2 or higher set was stored under 2**bit - 1
instead of the bit number, so writing it back moved it to another bit or failed.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 4cf5bb2..d07faab 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -834,7 +834,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 9e2850fd150de8f5f0a1daec54b23eff88a39cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 03/25] fix: write char fields with values above 0x7f

chr() rejects the negative np.int8 values that stand for bytes 0x80..0xff, so
write_ulog raised a ValueError on such data.
---
 pyulog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index d07faab..6fe1182 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -433,10 +433,10 @@ class ULog(object):
                     field_encoding = self._UNPACK_TYPES[field_type][0]
                     field_data = data_set.data[field_name][i_sample]
 
-                    # For char type, convert np.int8 into single bytes() object
-                    # so that struct.pack can handle it
+                    # char data is stored as np.int8, which struct.pack does
+                    # not accept for 'c'
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_encoding = 'b'
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From dda1c2343a29905cf8deeaedb6041b041109a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 04/25] fix: write info messages of any array or non-basic type

Their values are kept as raw bytes when reading; write_ulog handled only
char[] and uint8_t[] and raised a KeyError for all others.
---
 pyulog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 6fe1182..156960c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,11 +359,11 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
-            data.extend(value)
-        else:
+        elif value_type in self._UNPACK_TYPES:
             code = self._UNPACK_TYPES[value_type][0]
             data.extend(struct.pack('<' + code, value))
+        else: # array or non-basic type: kept as raw bytes
+            data.extend(value)
 
         return data
 
-- 
2.43.0


From bde0b8904bb75400b34aa34847a1281d441fb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 05/25] fix: stop at an incomplete message in the definition
 section

A file cut within the definitions raised struct.error or stored a partial
value, and an oversized message of unknown type made the reader seek to a wrong
position and possibly loop forever. The data section already stops there.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 156960c..dd5f71a 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -900,10 +900,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 5d4dcc6060e17fffbdf7d4338a28cdf077f3eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 06/25] fix: keep track of the file position after searching
 for a sync marker

The position decides where a section ends that is followed by appended data.
---
 pyulog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index dd5f71a..01bfb01 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1117,10 +1117,12 @@ class ULog(object):
                             # try recovery with sync sequence in case of unknown msg_type
                             if self._has_sync:
                                 self._find_sync()
+                                curr_file_pos = self._file_handle.tell()
                         else:
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                                curr_file_pos = self._file_handle.tell()
 
                 except IndexError:
                     if not self._file_corrupt:
-- 
2.43.0


From 1bcdeb700f18b2447aa27b912f46e93a13039d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 07/25] fix: keep subscriptions across sections of appended
 data

They were dropped at the end of each section, so data messages in appended data
were reported as corrupt and lost.
---
 pyulog/core.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 01bfb01..7830722 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -883,6 +883,15 @@ class ULog(object):
         self._file_handle.close()
         del self._file_handle
 
+        # convert into final representation
+        while self._subscriptions:
+            _, value = self._subscriptions.popitem()
+            if len(value.buffer) > 0: # only add if we have data
+                data_item = ULog.Data(value)
+                self._data_list.append(data_item)
+        # Sorting is necessary to be able to compare two ULogs correctly
+        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
+
     def _read_file_header(self):
         header_data = self._file_handle.read(16)
         if len(header_data) != 16:
@@ -1132,15 +1141,6 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
-        while self._subscriptions:
-            _, value = self._subscriptions.popitem()
-            if len(value.buffer) > 0: # only add if we have data
-                data_item = ULog.Data(value)
-                self._data_list.append(data_item)
-        # Sorting is necessary to be able to compare two ULogs correctly
-        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
-
     def _check_packet_corruption(self, header):
         """
         check for data corruption based on an unknown message type in the header
-- 
2.43.0


From 37970211808113b117fd188095f64787dbc1ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 08/25] fix: time limits past the last sample select no or all
 rows

---
 pyulog/extract_message.py | 16 ++++++++++++++--
 pyulog/ulog2csv.py        |  7 +++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..3f17a69 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -6,6 +6,18 @@ from typing import List
 import numpy as np
 from .core import ULog
 
+def first_index_from(timestamps: np.ndarray, time_s: int) -> int:
+    """
+    Get the index of the first row at or after a time
+
+    :param timestamps: (np.ndarray) Timestamps in microseconds
+    :param time_s: (int) Time in seconds
+
+    :return: (int) The index, or the number of rows if all are earlier
+    """
+    indices = np.where(timestamps >= time_s * 1e6)[0]
+    return indices[0] if len(indices) > 0 else len(timestamps)
+
 def extract_message(ulog_file_name: str, message: str,
                     time_s: "int | None" = None, time_e: "int | None" = None,
                     disable_str_exceptions: bool = False) -> List[dict]:
@@ -38,10 +50,10 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    time_s_i = first_index_from(data.data['timestamp'], time_s) \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = first_index_from(data.data['timestamp'], time_e) \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..770a3e9 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -8,9 +8,8 @@ import argparse
 import os
 import re
 
-import numpy as np
-
 from .core import ULog
+from .extract_message import first_index_from
 
 #pylint: disable=too-many-locals, invalid-name, consider-using-enumerate
 
@@ -131,10 +130,10 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            time_s_i = first_index_from(d.data['timestamp'], time_s) \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = first_index_from(d.data['timestamp'], time_e) \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From aa129246ecc1b46b6f10ca013ddb402864a3c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 09/25] fix: convert non-ASCII characters of char arrays to CSV

---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 770a3e9..58a26b5 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -53,13 +53,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff) # chars are stored as signed
+    return ULog.parse_string(s)
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From ab8da39522b6e59c91bfe4c5cd3f4c55ff424fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 10/25] fix: display logs that contain empty messages

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 0badbc4dfa6d48dcc11039bef68ee6cd7a598b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 11/25] fix: convert logs with flight modes above 17 to KML

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From 4e6f1806a057545617a309b395886d550cd988a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 12/25] fix: compare rosbag2_py versions by number

---
 pyulog/ulog2ros2bag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..c3b4ce2 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -285,12 +285,17 @@ def convert_ulog2ros2bag(
     )
 
 
+def rosbag_version() -> tuple[int, ...]:
+    """Get the version of rosbag2_py as numbers, e.g. (0, 9, 1)"""
+    return tuple(int(x) for x in version("rosbag2_py").split("."))
+
+
 def rosbag_topicmetadata_uses_id():
     """
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
     breaking the interface. This attempts to add compability with both versions.
     """
-    return version("rosbag2_py") >= "0.25.0"
+    return rosbag_version() >= (0, 25, 0)
 
 
 def rosbag_write_uses_seqnum():
@@ -299,7 +304,7 @@ def rosbag_write_uses_seqnum():
     topic sequence number, breaking the interface. This attempts to add compatibility
     with both versions.
     """
-    return version("rosbag2_py") >= "0.32.0"
+    return rosbag_version() >= (0, 32, 0)
 
 
 def calc_msgtype(topic_name: str) -> str | None:
-- 
2.43.0


From e3a54e8615d99c3f9c2603a0a583760c8236a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 13/25] fix: migrate databases that contain logs from schema
 version 1

---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..ebbf547 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # The migration scripts replace tables that others refer to. The pragma
+        # has no effect inside of a transaction, such as the one in the scripts.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From 7cd84e74ac47ca731fc2e42696cd8db431ac1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 14/25] fix: change the schema version together with the schema

---
 pyulog/migrate_db.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index ebbf547..2050f37 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,11 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # The version has to change together with the schema: if it was set after
+    # the commit, an interruption in between would leave a database on which
+    # the same migration can neither be repeated nor skipped.
+    migration_lines = (migration_lines.strip()[:-len('COMMIT;')]
+                       + f'PRAGMA user_version = {migration_id};\nCOMMIT;\n')
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 433cfa9f9e6ca443d4457337c590612216a383ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 15/25] fix: a log that could not be saved to the database
 remains unsaved

---
 pyulog/db.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..a8b5e32 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -488,6 +488,17 @@ class DatabaseULog(ULog):
             )
         return dataset
 
+    @contextlib.contextmanager
+    def _unsaved_on_error(self):
+        '''
+        Forget the primary key if the log could not be written to the database.
+        '''
+        try:
+            yield
+        except BaseException:
+            self._pk = None
+            raise
+
     def save(self, append_json=False):
         '''
         Save the DatabaseULog to the database. Throws a KeyError if the primary
@@ -507,7 +518,7 @@ class DatabaseULog(ULog):
             self._pk = pk_from_hash
             raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')
 
-        with self._db() as con:
+        with self._unsaved_on_error(), self._db() as con:
             cur = con.cursor()
 
             # ULog metadata
-- 
2.43.0


From 993b28a0030fef37f86c54dd3aa9b274768aec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 16/25] fix: save negative infinite values to the database with
 append_json

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index a8b5e32..0010634 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -581,7 +581,7 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace('inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From 249fddfdcf1c5dc5388498b99372e433c98c5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 17/25] fix: load message formats without fields from databases

---
 pyulog/db.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 0010634..ac5bd56 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -328,20 +328,20 @@ class DatabaseULog(ULog):
                     field.FieldType,
                     field.ArraySize,
                     field.Name
-                FROM ULogMessageFormat msg JOIN ULogMessageFormatField field
+                FROM ULogMessageFormat msg LEFT JOIN ULogMessageFormatField field
                     ON field.MessageId = msg.Id
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for row in cur.fetchall():
                 msg_name = row[0]
                 field_data = row[1:]
-                if msg_name in self._message_formats:
-                    self._message_formats[msg_name].fields.append(field_data)
-                else:
+                if msg_name not in self._message_formats:
                     self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
                         name=msg_name,
-                        fields=[field_data]
+                        fields=[]
                     )
+                if field_data[0] is not None: # None if the format has no fields
+                    self._message_formats[msg_name].fields.append(field_data)
 
             # msg_info_dict
             cur.execute('''
-- 
2.43.0


From 5fff3715591ec80dfa860a919a53a740683f4247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 18/25] fix: load NaN values from databases

---
 pyulog/db.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index ac5bd56..6aa59ab 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -204,6 +204,13 @@ class DatabaseULog(ULog):
         '''The computed SHA256 digest of the file, stored for later use.'''
         return self._sha256sum
 
+    @staticmethod
+    def _from_column(value):
+        '''
+        Convert a value that was read from a database column. sqlite stores NaN as NULL.
+        '''
+        return float('nan') if value is None else value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -350,7 +357,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = DatabaseULog._from_column(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -384,7 +391,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = DatabaseULog._from_column(value)
 
             # _default_parameters
             cur.execute('''
@@ -395,7 +402,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = DatabaseULog._from_column(value)
 
             # changed_parameters
             cur.execute('''
@@ -404,7 +411,8 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append(
+                    (timestamp, key, DatabaseULog._from_column(value)))
 
             cur.close()
         self._lazy_loaded = lazy
-- 
2.43.0


From 054ba559123d8c081d6006aa375e9479dd37aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 19/25] fix: load numeric multi information values from
 databases as numbers

---
 pyulog/db.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 6aa59ab..f1054c0 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -211,6 +211,31 @@ class DatabaseULog(ULog):
         '''
         return float('nan') if value is None else value
 
+    @staticmethod
+    def _to_text(value):
+        '''
+        Convert a value for a TEXT column, such that numbers do not lose any digits.
+        '''
+        if isinstance(value, bool):
+            value = int(value)
+        if isinstance(value, (int, float)):
+            return repr(value)
+        return value
+
+    @staticmethod
+    def _from_text(typename, value):
+        '''
+        Convert a value of type "typename" that was read from a TEXT column.
+        '''
+        if isinstance(value, str):
+            if typename in ('float', 'double'):
+                return float(value)
+            if typename == 'bool':
+                return value != '0'
+            if 'int' in typename and typename in DatabaseULog._UNPACK_TYPES:
+                return int(value)
+        return DatabaseULog._from_column(value)
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -382,7 +407,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append([
+                        DatabaseULog._from_text(typename, value) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -702,7 +728,7 @@ class DatabaseULog(ULog):
                         (?, ?, ?)
                         ''', [(
                             series_index,
-                            value,
+                            DatabaseULog._to_text(value),
                             list_id,
                         ) for series_index, value in enumerate(message_list)])
 
-- 
2.43.0


From 8bd2ee1cdeb6f7fb63335dff8371de48194e7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 20/25] fix: write logs that are to be stored in a database but
 were read from a file

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index f1054c0..794f396 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -171,7 +171,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From 4dfc8b6f79f39ac0e4f12c778700b26c9e72d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 21/25] fix: read a log from an open file after computing its
 digest

---
 pyulog/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 794f396..7117be6 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -119,6 +119,8 @@ class DatabaseULog(ULog):
             file_context = open(log_file.name, 'rb')
         else:
             file_context = contextlib.nullcontext(log_file)
+            position = log_file.tell()
+            log_file.seek(0)
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
@@ -127,6 +129,8 @@ class DatabaseULog(ULog):
                 file_hash.update(block)
                 if block == b'':
                     break
+            if open_file is log_file:
+                log_file.seek(position) # the caller has yet to read the file
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From 9d7ad0f755d58fc8db298ae8a15fd3b369c8bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 22/25] fix: do not create the database in a dry run of the
 migration

---
 pyulog/migrate_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 2050f37..de9e6c6 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -118,7 +118,8 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
         class_schema_version,
     ))
 
-    db_handle = DatabaseULog.get_db_handle(db_path)
+    # A dry run does not open the database, since that would create a missing file.
+    db_handle = DatabaseULog.get_db_handle(':memory:' if noop else db_path)
     with db_handle() as con:
         cur = con.cursor()
         # The migration scripts replace tables that others refer to. The pragma
-- 
2.43.0


From 18986dd0ef0a60d0fc6110fc7056f7184f26bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 23/25] fix: read a log from the database in one transaction

A log that was deleted by another connection between two statements of
load() or get_dataset() was returned without a part of its contents, or
load() failed with a TypeError.
---
 pyulog/db.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 7117be6..e0423f6 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -258,6 +258,9 @@ class DatabaseULog(ULog):
 
         with self._db() as con:
             cur = con.cursor()
+            # Read everything in one transaction, otherwise parts of the log
+            # can be missing if it is deleted by someone else in the meantime.
+            cur.execute('BEGIN')
 
             # ULog metadata
             cur.execute('''
@@ -273,6 +276,8 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
@@ -483,6 +488,8 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                cur.execute('BEGIN') # as in load()
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From 1509b834ce022e62968ce7943fda9dab4d23cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 24/25] fix: drop the note on a side effect that dry runs no
 longer have

---
 pyulog/migrate_db.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index de9e6c6..4177df0 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -20,11 +20,6 @@ def main():
     parser.add_argument('-d', '--database', dest='db_path', action='store',
                         help='Path to the database file',
                         default='pyulog.sqlite3')
-    # The noop flag actually has a side effect if it is called on an uncreated
-    # database, since the "PRAGMA user_version" command implicitly creates the
-    # database. The created database will have user_version = 0, which will
-    # later confuse the migration tool. however, this edge case will mostly be
-    # relevant for advanced users, and can be handled with the -f flag.
     parser.add_argument('-n', '--noop', dest='noop', action='store_true',
                         help='Only print results, do not execute migration scripts.',
                         default=False)
-- 
2.43.0


From 4e6fda0ba19bb2f14ad36c9a33e18116a603607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 25/25] fix: ulog_info -m failed for multi-information messages
 of a numeric type

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0

