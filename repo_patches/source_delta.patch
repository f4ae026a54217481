From 9f60b3dd76066c71fc2c3b167287fdb84cebe7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 01/16] fix: dump rules whose digit value isn't a 32 bit
 decimal number

---
 procmon_parser/configuration_format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..5783069 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -59,7 +59,12 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 def get_rule_integer_value(column, value):
     if value.isdigit():
-        return int(value)
+        try:
+            int_value = int(value)
+        except ValueError:
+            int_value = None  # digits that are not a decimal number, like superscripts
+        if int_value is not None and int_value <= 0xffffffff:
+            return int_value
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0


From ea8bd1e7900d4a62c93c736baa94383887e883d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 02/16] fix: don't allocate the events offsets by the declared
 number of events

---
 procmon_parser/stream_logs_format.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..44a21bc 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -61,11 +61,9 @@ class EventOffsetsArray(list):
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
         stream = BytesIO(io.read(total_size))
-        offsets = [0] * number_of_events
-        for i in range(number_of_events):
-            offsets[i] = read_u32(stream)
+        for _ in range(number_of_events):
+            self.append(read_u32(stream))
             _ = read_u8(stream)  # Unknown flags
-        self.extend(offsets)
 
 
 class StringsTable(list):
-- 
2.43.0


From 52f563a7caf81ff08cebd351b1898a4e8c2ec3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 03/16] fix: truncate the memory size exactly in the system
 details

---
 procmon_parser/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 113c10b..ffe7de1 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -346,6 +346,6 @@ class PMLStructReader(object):
             "Operating System": self._get_os_name(),
             "System Root": self.header.system_root,
             "Logical Processors": self.header.number_of_logical_processors,
-            "Memory (RAM)": "{} GB".format((self.header.ram_memory_size / (1024.0 ** 3)) // 0.01 / 100),
+            "Memory (RAM)": "{} GB".format(self.header.ram_memory_size * 100 // 1024 ** 3 / 100.0),
             "System Type": "64-bit" if self.header.is_64bit else "32-bit"
         }
-- 
2.43.0


From 2ba0b747f0bb7032fa3068e545f482ad5d3b699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 04/16] fix: don't fail on QueryDirectory events with an empty
 path

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..20cb6d8 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path[-1:] == "\\" else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From 6e68c70ea76a2977756aec073ac478f6b3be3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 05/16] fix: parse the handle tags of RegSetInfoKey events

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 20cb6d8..d1327ca 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From f9e29a16237e102f9a9ac9adca171873874761f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 06/16] fix: read the offset and length of FSCTL_OFFLOAD_READ
 from the right place

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d1327ca..077166d 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -580,7 +580,7 @@ def get_filesystem_ioctl_details(io, metadata, event, details_io, extra_detail_i
         if event.details["Control"] == "FSCTL_PIPE_INTERNAL_WRITE":
             event.details["Length"] = write_length
         elif event.details["Control"] == "FSCTL_OFFLOAD_READ":
-            details_io.seek(0x8, 1)
+            io.seek(0x10, 1)  # the offset and the length are after the size, flags and ttl of FSCTL_OFFLOAD_READ_INPUT
             event.details["Offset"] = read_s64(io)
             event.details["Length"] = read_u64(io)
         elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":
-- 
2.43.0


From 0d714d75583fc15051cb5057c6fa432d52d8dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 07/16] fix: format the details of Process Exit events in the
 csv like Procmon

---
 procmon_parser/logs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index ffe7de1..4320aba 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -203,6 +203,13 @@ class Event(object):
         elif self.operation == ProcessOperation.Thread_Exit.name:
             details["User Time"] = Event._strftime_duration(details["User Time"])
             details["Kernel Time"] = Event._strftime_duration(details["Kernel Time"])
+        elif self.operation == ProcessOperation.Process_Exit.name:
+            exit_status = details["Exit Status"]
+            details["Exit Status"] = exit_status - 2 ** 32 if exit_status >= 2 ** 31 else exit_status  # shown as signed
+            for key in ["User Time", "Kernel Time"]:
+                details[key] = "{} seconds".format(Event._strftime_duration(details[key]))
+            for key in ["Private Bytes", "Peak Private Bytes", "Working Set", "Peak Working Set"]:
+                details[key] = '{:,}'.format(details[key])
         elif self.operation == ProcessOperation.Process_Start.name:
             details["Environment"] = "\n;\t" + "\n;\t".join(details["Environment"])
         elif EventClass.Registry == self.event_class:
-- 
2.43.0


From 1cffa9fc44102a7d9c87a62a4def4aaf1c1846cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 08/16] fix: separate the environment variables in the csv like
 Procmon

---
 procmon_parser/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 4320aba..53fb736 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -211,7 +211,7 @@ class Event(object):
             for key in ["Private Bytes", "Peak Private Bytes", "Working Set", "Peak Working Set"]:
                 details[key] = '{:,}'.format(details[key])
         elif self.operation == ProcessOperation.Process_Start.name:
-            details["Environment"] = "\n;\t" + "\n;\t".join(details["Environment"])
+            details["Environment"] = "\r;\t" + "\r;\t".join(details["Environment"])
         elif EventClass.Registry == self.event_class:
             commas_formatted_keys = ["Length", "SubKeys", "Values", "Index"]
             for key in commas_formatted_keys:
-- 
2.43.0


From 2cc499b30b40de9c37d545f9b6eb24d4825b44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 09/16] fix: don't drop the rest of ColumnMap after an unknown
 column

---
 procmon_parser/construct_helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/construct_helper.py b/procmon_parser/construct_helper.py
index 3200246..c6997b9 100644
--- a/procmon_parser/construct_helper.py
+++ b/procmon_parser/construct_helper.py
@@ -15,7 +15,10 @@ class OriginalEnumAdapter(Enum):
         self.original_enum = enum_class
 
     def _decode(self, obj, context, path):
-        return self.original_enum[super(OriginalEnumAdapter, self)._decode(obj, context, path)]
+        try:
+            return self.original_enum(obj)
+        except ValueError:
+            return obj  # the value doesn't exist in the enum, keep it as it is
 
 
 class ListAdapter(Adapter):
-- 
2.43.0


From 3c0a88599a8a8374e06438ee1c3444e97c4589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 10/16] fix: skip the padding before FileId in
 FileIdFullDirectoryInformation entries

---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 077166d..331021f 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -406,6 +406,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                 continue
             if file_information_class == FileInformationClass.FileIdFullDirectoryInformation:
                 # FILE_ID_FULL_DIR_INFORMATION structure
+                extra_detail_io.seek(4, 1)  # Padding
                 file_id = read_u64(extra_detail_io)
                 event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                 continue
-- 
2.43.0


From 2480e9f4aec21e88ce3ab56ff195f1f707b64a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 11/16] fix: path of QueryDirectory events doesn't depend on
 should_get_details

---
 procmon_parser/stream_logs_detail_format.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 331021f..1a5b7a7 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -345,11 +345,16 @@ def get_filesystem_read_metadata_details(io, metadata, event, details_io, extra_
 
 
 def get_filesystem_query_directory_details(io, metadata, event, details_io, extra_detail_io):
-    event.category = "Read Metadata"
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
         event.path = event.path + directory_name if event.path[-1:] == "\\" else event.path + "\\" + directory_name
+
+    if not metadata.should_get_details:
+        return  # the search filter is a part of the path so it is always read
+
+    event.category = "Read Metadata"
+    if directory_name:
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
@@ -636,7 +641,9 @@ def get_filesystem_event_details(io, metadata, event, extra_detail_io):
     path_info = read_detail_string_info(io)
     io.seek(2, 1)  # Padding
     event.path = read_detail_string(io, path_info)
-    if metadata.should_get_details and event.operation in FilesystemSubOperationHandler:
+    is_detail_needed = metadata.should_get_details or \
+        event.operation == FilesysemDirectoryControlOperation.QueryDirectory.name
+    if is_detail_needed and event.operation in FilesystemSubOperationHandler:
         FilesystemSubOperationHandler[event.operation](io, metadata, event, details_io, extra_detail_io)
 
 
-- 
2.43.0


From 2df68f1a233013c1e432aa800d8ad0e8ebbb44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 12/16] fix: write line feeds of registry data in the csv like
 Procmon

---
 procmon_parser/logs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 53fb736..6fbb412 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -241,9 +241,9 @@ class Event(object):
             elif details.get("Type", '') == "REG_QWORD" and "Data" in details:
                 details["Data"] = ''  # Procmon doesnt print qword in csv, I don't know why
             elif details.get("Type", '') == "REG_MULTI_SZ" and "Data" in details:
-                details["Data"] = ', '.join(details["Data"])
+                details["Data"] = ', '.join(details["Data"]).replace('\n', ';')
             elif "Data" in details and isinstance(details["Data"], string_types):
-                details["Data"] = "\n;".join(details["Data"].split('\r\n'))  # They add ; before a new line
+                details["Data"] = details["Data"].replace('\n', ';')  # They write ; instead of a line feed
 
             if self.operation == "RegQueryValue" and "Name" in details:
                 del details["Name"]
-- 
2.43.0


From ce9f68ac66e87bf21319a8a84d462e7ad6e79073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 13/16] fix: load a configuration from a stream that can only
 be read

load_configuration takes any .read()-supporting file-like object, but loaded
an empty configuration from one that can not tell and seek, like a pipe.
---
 procmon_parser/configuration_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 5783069..cfd3854 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -194,6 +194,7 @@ def load_configuration(stream):
     """Deserialize ``stream`` (a ``.read()``-supporting file-like object) which contains PMC formatted data,
     to a Python dictionary with the parsed configuration records.
     """
+    stream = BytesIO(stream.read())  # parsing needs to seek, which pipes and sockets can not
     records = []
     while True:
         try:
-- 
2.43.0


From f1f3a615f50d85cac800b9b99a1089fc687b5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 14/16] fix: dump a configuration to a stream that can only be
 written

dump_configuration takes any .write()-supporting file-like object, but failed
on one that can not tell and seek, like a pipe, and wrote the sizes of the
records to the end of a file that was opened for appending.
---
 procmon_parser/configuration_format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index cfd3854..46ebfc3 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -219,7 +219,9 @@ def dump_configuration(records, stream):
     in the format of PMC.
     """
     for name, data in records.items():
-        Record.build_stream((name, data), stream)
+        record = Record.build((name, data))
+        if stream.write(record) != len(record):
+            raise StreamError("the stream did not take the whole record of {}".format(name))
 
 
 def dumps_configuration(records):
-- 
2.43.0


From f899bea0725df3e5dea60a929d79bec074ff24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 15/16] fix: write AM and PM in times whatever the locale of
 the program

In a program that sets a German or Persian locale the times in the CSV
columns and in the text of an event had neither, so that morning and evening
looked alike.
---
 procmon_parser/logs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 6fbb412..f58cb16 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -152,10 +152,12 @@ class Event(object):
         hundred_nanoseconds = (date_filetime % HUNDREDS_OF_NANOSECONDS)
         d = datetime.datetime.utcfromtimestamp((date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
 
+        am_pm = "AM" if d.hour < 12 else "PM"  # %p depends on the locale of the program, and may be empty
+
         if show_nanoseconds:
-            time_of_day = d.strftime("%I:%M:%S.{:07d} %p").lstrip('0').format(hundred_nanoseconds)
+            time_of_day = d.strftime("%I:%M:%S.{:07d} {}").lstrip('0').format(hundred_nanoseconds, am_pm)
         else:
-            time_of_day = d.strftime("%I:%M:%S %p").lstrip('0')
+            time_of_day = d.strftime("%I:%M:%S {}").lstrip('0').format(am_pm)
 
         if not show_day:
             return time_of_day
-- 
2.43.0


From 4046f43590a636ebf80b3bf6a5ea2c46bcee60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 16/16] fix: refuse extra details inside their own event when
 assertions are off too

The check was an assert statement, so with python -O such a damaged event was
read with bytes of itself as its extra details instead of raising.
---
 procmon_parser/stream_logs_format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 44a21bc..a4a7961 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -208,7 +208,8 @@ def read_event(io, metadata):
         # The extra details structure surprisingly can be separated from the event structure
         extra_details_offset -= \
             (CommonEventStruct.size + details_size + sizeof_stacktrace)
-        assert extra_details_offset >= 0
+        if extra_details_offset < 0:
+            raise PMLError("PML is corrupt, the extra details of an event overlap the event itself.")
 
         current_offset = io.tell()
         io.seek(extra_details_offset, 1)
-- 
2.43.0

