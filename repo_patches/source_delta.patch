From 8e0ec8820f5a3c7ba5eb99825f07c7570405d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 01/69] fix: safari cookies file without pages

---
 dtformats/safari_cookies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..aae241b 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -130,6 +130,10 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        self._page_sizes = []
+        if file_header.number_of_pages == 0:
+            return
+
         file_offset = file_header_data_size
 
         # TODO: move page sizes array into file header, this will require dtFabric
-- 
2.43.0


From ec768b9e0697a5a86e6ad5e538df3a4bffa8116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 02/69] fix: gzip members without content and corrupt
 compressed data

---
 dtformats/gzipfile.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..2d5af11 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -44,34 +44,37 @@ class GZipFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
-        data_segments = []
-        while compressed_data:
+        try:
             data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
-
-            data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
-
-        return b"".join(data_segments), compressed_data
+        except zlib.error as exception:
+            raise errors.ParseError(
+                f"Unable to decompress data with error: {exception!s}"
+            )
+        return data, zlib_decompressor.unused_data
 
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
 
         Args:
           file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
         compressed_data = file_object.read(self._BUFFER_SIZE)
         while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
+            _, remaining_data = self._ReadCompressedData(
                 zlib_decompressor, compressed_data
             )
-            if compressed_data:
-                file_object.seek(-len(compressed_data), os.SEEK_CUR)
+            if remaining_data:
+                file_object.seek(-len(remaining_data), os.SEEK_CUR)
 
-            if not data:
+            if zlib_decompressor.eof:
                 break
 
             compressed_data = file_object.read(self._BUFFER_SIZE)
-- 
2.43.0


From 939e0424ab764e7345f8cba7e8d02942b7725006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 03/69] fix: utmp entry strings that are not UTF-8 and IP
 address in debug output

---
 dtformats/utmp.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..11a067f 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -64,11 +64,11 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
 
         self._DebugPrintValue("IP address", value_string)
 
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From 856400616b9fe86290c30bbb87b95d9b07a1f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:51 +0000
Subject: [PATCH 04/69] fix: recycler INFO2 header debug output and remnant
 data after the ANSI filename

---
 dtformats/recycler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..b5caaca 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -43,7 +43,8 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
           ParseError: if the string could not be decoded.
         """
         try:
-            return string.decode(self._codepage)
+            # Note that bytes after the end-of-string can contain remnant data.
+            return string.split(b"\x00", maxsplit=1)[0].decode(self._codepage)
         except UnicodeDecodeError as exception:
             raise errors.ParseError(
                 f"Unable to decode ANSI string with error: {exception!s}."
@@ -117,7 +118,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From 9fc0c2c813cf6424789a67f52db79b871b16aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 05/69] fix: restore point log wrote debug output when not in
 debug mode

---
 dtformats/rp_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..2e7903b 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -121,6 +121,7 @@ class RestorePointLogFile(data_format.BinaryDataFile):
 
         data_size = (self._file_size - 8) - file_object.tell()
         data = file_object.read(data_size)
-        self._DebugPrintData("Unknown1", data)
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From b9a61cdc5af27f7fc5174d05124d74d80b876805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 06/69] fix: last character of the process name of a restore
 point change log entry was dropped

---
 dtformats/rp_change_log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..2120a11 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -237,7 +237,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         if self._debug:
             self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
+                "Process name", change_log_entry_record2.process_name
             )
 
             self._DebugPrintText("\n")
@@ -249,7 +249,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 5ddef7058371cad370191c35fddb5b3a8507b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 07/69] fix: volume path of a restore point change log was
 never set

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 2120a11..b95260d 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -479,6 +479,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From be09d759c987fde3671c208799a835a076cb8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 08/69] fix: restore point change log sub records without a
 string were mapped as a record header

---
 dtformats/rp_change_log.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index b95260d..058efaf 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -414,17 +414,17 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From a4e7ba60ae9a588ac58072714e332d1a5503d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 09/69] fix: 64-bit time zone information was read from the
 start of the file

---
 dtformats/tzif.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..ef68ce4 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -110,8 +110,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
+        file_offset = file_object.tell()
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
@@ -127,18 +128,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size=8):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (Optional[int]): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -288,7 +290,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From 667d3b58a8d3a8a2ee59ae4d7df07d8e85d351c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:27 +0000
Subject: [PATCH 10/69] fix: time zone information without transition times

---
 dtformats/tzif.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index ef68ce4..7d86f4c 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -267,8 +267,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self.format_version = file_header.format_version
 
-        self._ReadTransitionTimes32bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes32bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header)
@@ -286,8 +287,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
-        self._ReadTransitionTimes64bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes64bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
-- 
2.43.0


From 71c7e1cce0806a439c0cfe3345a1456bc4a535f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:39 +0000
Subject: [PATCH 11/69] fix: CUPS IPP malformed strings and date-time values
 raise ParseError and the character set is reset per file

---
 dtformats/cups_ipp.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..5d9d691 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -275,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unable to parse date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
@@ -304,6 +311,26 @@ class CupsIppFile(data_format.BinaryDataFile):
                 f"Unable to parse integer value with error: {exception!s}"
             )
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to parse string value with error: {exception!s}"
+            )
+
     def _ReadHeader(self, file_object):
         """Reads the header.
 
@@ -333,6 +360,8 @@ class CupsIppFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._last_charset_attribute = "ascii"
+
         self._ReadHeader(file_object)
         self._ReadAttributesGroup(file_object)
 
-- 
2.43.0


From 7e09957642dfef9b568bc525b70733b761db2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 12/69] fix: USN journal records after zero fill in a block
 were read from the wrong offset

---
 dtformats/usn_journal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..5f56c63 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,11 +64,11 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            self._file_object.seek(file_offset, os.SEEK_SET)
+
+            block_size = min(4096, self._file_size - file_offset)
 
             while block_size > 60:
                 usn_record_header = self._file_object.read(60)
-- 
2.43.0


From a055657649cc3474630e0ae82d3a8ff2351135ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:08 +0000
Subject: [PATCH 13/69] fix: usn_journal script failed on the first record

---
 scripts/usn_journal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..8aea0b9 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -62,13 +62,14 @@ def Main():
     )
     usn_records.Open(options.source)
 
-    output_writer.WriteText("USN journal records information:")
+    output_writer.WriteText("USN journal records information:\n")
     output_writer.WriteText(
         ",".join(["Date and time", "Name", "File reference", "Parent file reference"])
+        + "\n"
     )
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
@@ -82,6 +83,7 @@ def Main():
             ",".join(
                 [date_time, usn_record.name, file_reference, parent_file_reference]
             )
+            + "\n"
         )
 
     usn_records.Close()
-- 
2.43.0


From 6826cffbba25f81883360e691ee00d296fbe5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 14/69] fix: usn_journal script failed to format the date and
 time

---
 scripts/usn_journal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 8aea0b9..8cb7d42 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -69,7 +69,7 @@ def Main():
     )
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
-- 
2.43.0


From 68371b2d2759b1e94cdb6d27897360e7c64262f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 15/69] fix: job product version printed the major version as
 minor version

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From bb3be9ea874c534de0d4a6bca19a3f2748cfa0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 16/69] fix: job strings without characters required data
 beyond the end of the section

---
 dtformats/job.py   | 29 ++++++++++++++++++++++-------
 dtformats/job.yaml |  1 -
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index 6af46a7..fec416a 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -135,7 +135,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         """
         # TODO: print string.number_of_characters on a separate line
         number_of_bytes = string.number_of_characters * 2
-        return f"({number_of_bytes:d} bytes) {string.string:s}"
+        return f"({number_of_bytes:d} bytes) {self._GetString(string):s}"
 
     def _FormatSystemTime(self, systemtime):
         """Formats a SYSTEMTIME structure.
@@ -164,6 +164,17 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         """
         return f"{time.hours:02d}:{time.minutes:02d}"
 
+    def _GetString(self, string):
+        """Retrieves the characters of a string without end-of-string character.
+
+        Args:
+          string (job_string): string.
+
+        Returns:
+          str: characters of the string.
+        """
+        return string.string.split("\x00", maxsplit=1)[0]
+
     def GetWindowsTaskConfiguration(self):
         """Retrieves the Windows task configuration represented by the job file.
 
@@ -207,10 +218,14 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("job_trigger")
                 self._DebugPrintStructureObject(trigger, debug_info)
 
-        self._task_configuration.application_name = data_section.application_name.string
-        self._task_configuration.parameters = data_section.parameters.string
-        self._task_configuration.working_directory = (
-            data_section.working_directory.string
+        self._task_configuration.application_name = self._GetString(
+            data_section.application_name
+        )
+        self._task_configuration.parameters = self._GetString(
+            data_section.parameters
+        )
+        self._task_configuration.working_directory = self._GetString(
+            data_section.working_directory
         )
-        self._task_configuration.author = data_section.author.string
-        self._task_configuration.comment = data_section.comment.string
+        self._task_configuration.author = self._GetString(data_section.author)
+        self._task_configuration.comment = self._GetString(data_section.comment)
diff --git a/dtformats/job.yaml b/dtformats/job.yaml
index fbbe7d1..8c65751 100644
--- a/dtformats/job.yaml
+++ b/dtformats/job.yaml
@@ -104,7 +104,6 @@ members:
   type: string
   encoding: utf-16-le
   element_data_type: wchar16
-  elements_terminator: "\x00\x00"
   number_of_elements: job_string.number_of_characters
 ---
 name: job_user_data
-- 
2.43.0


From 6baa68ef42c5fe1e91487fdb3a20d93a2d131ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 17/69] fix: Firefox cache locations were not formatted due to
 a misspelled format

---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From c45996d15688bd87c93a6f215d735d9f89bebe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 18/69] fix: Firefox cache entries following a block that is
 not a cache entry were skipped, expiration time was not printed

---
 dtformats/firefox_cache1.debug.yaml | 3 +++
 dtformats/firefox_cache1.py         | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index d6d8a1e..e824016 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -20,6 +20,9 @@ attributes:
 - name: last_modified_time
   description: "Last modified time"
   format: custom:posix_time
+- name: expiration_time
+  description: "Expiration time"
+  format: custom:posix_time
 - name: cached_data_size
   description: "Cached data size"
   format: decimal
diff --git a/dtformats/firefox_cache1.py b/dtformats/firefox_cache1.py
index 896ee05..2a6d24a 100644
--- a/dtformats/firefox_cache1.py
+++ b/dtformats/firefox_cache1.py
@@ -184,7 +184,12 @@ class CacheBlockFile(data_format.BinaryDataFile):
             file_object.seek(file_offset + self._block_size, os.SEEK_SET)
             return
 
-        if self._debug and cache_entry.major_format_version == 1:
+        if cache_entry.major_format_version != 1:
+            # Not a cache entry, hence its sizes cannot be relied upon.
+            file_object.seek(file_offset + self._block_size, os.SEEK_SET)
+            return
+
+        if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("firefox_cache1_entry")
             self._DebugPrintStructureObject(cache_entry, debug_info)
 
-- 
2.43.0


From 223bc88f6ee36f1b02f24f4b36413fe9fcec5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 19/69] fix: alias data 64-bit time fraction printed as if in
 milliseconds

---
 dtformats/alias_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 9393f62..d81ecba 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -50,7 +50,9 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
         if not date_time_string:
             return f"0x{integer:08x}"
 
-        return f"{date_time_string:s}.{fraction_of_second:03d} UTC"
+        milliseconds = (fraction_of_second * 1000) // 65536
+
+        return f"{date_time_string:s}.{milliseconds:03d} UTC"
 
     def _ReadRecordHeader(self, file_object, file_offset):
         """Reads a record header.
-- 
2.43.0


From d4b884de633cd8edef7c2f5e766ff896d4e5b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 20/69] fix: bookmark data records with an unexpected type
 raise ParseError

---
 dtformats/bookmark_data.py | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..2496aa7 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,28 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, attribute_name):
+        """Retrieves the value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          attribute_name (str): name of the attribute that contains the value.
+
+        Returns:
+          object: value.
+
+        Raises:
+          ParseError: if the data record does not contain a corresponding value.
+        """
+        value = getattr(data_record, attribute_name, None)
+        if value is None or value == b"":
+            raise errors.ParseError(
+                f"Unsupported data record with type: 0x{data_record.data_type:08x} "
+                f"missing {attribute_name:s} value"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +142,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(self._GetDataRecordValue(data_record, "integer"))
 
         return integers_array
 
@@ -143,7 +165,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -225,7 +247,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 # TODO: change dtFabric to support setting float64be directly in struct
                 data_type_map = self._GetDataTypeMap("float64be")
                 cocoa_timestamp = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Floating-point 64-bit"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Floating-point 64-bit",
                 )
 
                 if self._debug:
@@ -236,7 +261,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -247,7 +274,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -261,7 +290,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Property flags",
                 )
 
                 if self._debug:
-- 
2.43.0


From 1db752e9552fc3380cfa784ea7d163185da53647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:29 +0000
Subject: [PATCH 21/69] fix: BSM exec_args, exec_env, groups, ipc_perm and exit
 tokens could not be read or printed

---
 dtformats/bsm.debug.yaml |  63 ++++++++++++++++++++++++
 dtformats/bsm.py         | 101 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 159 insertions(+), 5 deletions(-)

diff --git a/dtformats/bsm.debug.yaml b/dtformats/bsm.debug.yaml
index d40a6e5..e8d4881 100644
--- a/dtformats/bsm.debug.yaml
+++ b/dtformats/bsm.debug.yaml
@@ -67,6 +67,19 @@ attributes:
   description: "Data"
   format: binary_data
 ---
+# AUT_EXEC_ARGS or AUT_EXEC_ENV token debug information.
+data_type_map: bsm_token_exec_args
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_strings
+  description: "Number of strings"
+  format: decimal
+- name: strings
+  description: "Strings"
+  format: custom:array_of_strings
+---
 # AUT_EXIT, AUT_RETURN32, AUT_RETURN64 token debug information.
 data_type_map: bsm_token_exit
 attributes:
@@ -80,6 +93,19 @@ attributes:
   description: "Return value"
   format: hexadecimal_8digits
 ---
+# AUT_GROUPS or AUT_NEWGROUPS token debug information.
+data_type_map: bsm_token_groups
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_groups
+  description: "Number of groups"
+  format: decimal
+- name: groups
+  description: "Groups"
+  format: custom:array_of_decimals
+---
 # AUT_HEADER32, AUT_HEADER64 token debug information.
 data_type_map: bsm_token_header
 attributes:
@@ -186,6 +212,43 @@ attributes:
   description: "Object identifier"
   format: hexadecimal_8digits
 ---
+# AUT_IPC_PERM token debug information.
+data_type_map: bsm_token_ipc_perm
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: user_identifier
+  description: "User identifier (UID)"
+  format: decimal
+- name: group_identifier
+  description: "Group identifier (GID)"
+  format: decimal
+- name: creator_user_identifier
+  description: "Creator user identifier (UID)"
+  format: decimal
+- name: creator_group_identifier
+  description: "Creator group identifier (GID)"
+  format: decimal
+- name: unknown1
+  description: "Unknown1"
+  format: hexadecimal_4digits
+- name: access_mode
+  description: "Access mode"
+  format: hexadecimal_4digits
+- name: unknown2
+  description: "Unknown2"
+  format: hexadecimal_4digits
+- name: slot_sequence_number
+  description: "Slot sequence number"
+  format: decimal
+- name: unknown3
+  description: "Unknown3"
+  format: hexadecimal_4digits
+- name: key
+  description: "Key"
+  format: hexadecimal_4digits
+---
 # AUT_IPORT token debug information.
 data_type_map: bsm_token_iport
 attributes:
diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..b53b35a 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -1,5 +1,9 @@
 """Basic Security Module (BSM) event auditing files."""
 
+import os
+
+from dtfabric.runtime import data_maps as dtfabric_data_maps
+
 from dtformats import data_format
 from dtformats import errors
 
@@ -14,6 +18,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
     _DEBUG_INFORMATION = data_format.BinaryDataFile.ReadDebugInformationFile(
         "bsm.debug.yaml",
         custom_format_callbacks={
+            "array_of_decimals": "_FormatArrayOfIntegersAsDecimals",
+            "array_of_strings": "_FormatArrayOfStrings",
             "event_type": "_FormatIntegerAsEventType",
             "ip_address": "_FormatArrayOfIntegersAsIPAddress",
             "ipv4_address": "_FormatArrayOfIntegersAsIPv4Address",
@@ -783,6 +789,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
@@ -804,6 +811,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
     _HEADER_TOKEN_TYPES = frozenset([0x14, 0x15, 0x74, 0x79])
 
+    _EXEC_TOKEN_TYPES = frozenset([0x3C, 0x3D])
+
     _TRAILER_TOKEN_TYPE = 0x13
 
     # Name of the debug information per token.
@@ -828,6 +837,11 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x2C: "bsm_token_iport",
         0x2D: "bsm_token_arg",
         0x2F: "bsm_token_seq",
+        0x32: "bsm_token_ipc_perm",
+        0x34: "bsm_token_groups",
+        0x3B: "bsm_token_groups",
+        0x3C: "bsm_token_exec_args",
+        0x3D: "bsm_token_exec_args",
         0x3E: "bsm_token_attr",
         0x52: "bsm_token_exit",
         0x60: "bsm_token_zonename",
@@ -869,6 +883,18 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         return None, False
 
+    def _FormatArrayOfStrings(self, array_of_strings):
+        """Formats an array of strings.
+
+        Args:
+          array_of_strings (list[str]): array of strings.
+
+        Returns:
+          tuple[str, bool]: array of strings formatted as a single line and False
+              to indicate there should be no new line after value description.
+        """
+        return ", ".join(array_of_strings), False
+
     def _FormatIntegerAsEventType(self, integer):
         """Formats an integer as an event type.
 
@@ -924,6 +950,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+        file_offset = file_object.tell()
+
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
@@ -935,6 +963,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
@@ -955,16 +986,23 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
           ParseError: if the record cannot be read.
         """
         token_type = self._ReadTokenType(file_object, file_offset)
-        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "")
+        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "token")
 
-        data_type_map = self._GetDataTypeMap("bsm_token")
+        if token_type in self._EXEC_TOKEN_TYPES:
+            token = self._ReadTokenExec(file_object, file_offset, description)
+        else:
+            data_type_map = self._GetDataTypeMap("bsm_token")
 
-        token, _ = self._ReadStructureFromFileObject(
-            file_object, file_offset, data_type_map, description
-        )
+            token, _ = self._ReadStructureFromFileObject(
+                file_object, file_offset, data_type_map, description
+            )
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", None)
+        if net_type is not None and net_type not in (4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
@@ -972,6 +1010,59 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         return token
 
+    def _ReadTokenExec(self, file_object, file_offset, description):
+        """Reads an exec_args or exec_env token.
+
+        The size of the token is only known after its strings have been read.
+
+        Args:
+          file_object (file): file-like object.
+          file_offset (int): offset of the token relative to the start of
+              the file-like object.
+          description (str): description of the token.
+
+        Returns:
+          bsm_token_exec_args: token.
+
+        Raises:
+          ParseError: if the token cannot be read.
+        """
+        if self._debug:
+            self._DebugPrintText(
+                f"Reading {description:s} at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})\n"
+            )
+
+        data_type_map = self._GetDataTypeMap("bsm_token_exec_args")
+
+        read_size = 4096
+        while True:
+            file_object.seek(file_offset, os.SEEK_SET)
+            data = file_object.read(read_size)
+
+            context = dtfabric_data_maps.DataTypeMapContext()
+            try:
+                token = self._ReadStructureFromByteStream(
+                    data, file_offset, data_type_map, description, context=context
+                )
+                break
+
+            except errors.ParseError:
+                if len(data) < read_size:
+                    raise
+
+            read_size *= 2
+
+        file_object.seek(file_offset + context.byte_size, os.SEEK_SET)
+
+        if self._debug:
+            first_letter = description[0].upper()
+            self._DebugPrintData(
+                f"{first_letter:s}{description[1:]:s} data", data[: context.byte_size]
+            )
+
+        return token
+
     def _ReadTokenType(self, file_object, file_offset):
         """Reads a token type.
 
-- 
2.43.0


From a66d70ffac93b7417c8a89bbfcb439fb6c1d0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 22/69] fix: data range read with a negative size read beyond
 the range

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From 7225fc4b6fa49407f7ce92efd6bccf284d4c9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:40 +0000
Subject: [PATCH 23/69] fix: file that cannot be read was not closed

---
 dtformats/data_format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..4324f76 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -895,7 +895,12 @@ class BinaryDataFile(BinaryDataFormat):
 
         file_object = self._file_system_helper.OpenFileByPath(path)
 
-        self.ReadFileObject(file_object)
+        try:
+            self.ReadFileObject(file_object)
+        except Exception:
+            file_object.close()
+            self._path = None
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From 31b9eaafaa019957049f520b5adaddec5047880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:03 +0000
Subject: [PATCH 24/69] fix: byte value 0xff of a stream was not printed as
 non-printable

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 4324f76..91fac06 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From 4c224996128c940a9593bbad475e0f79f90a7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 25/69] fix: POSIX times far outside the supported years did
 not terminate or raised ValueError

---
 dtformats/data_format.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 91fac06..5004d9f 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -67,6 +67,17 @@ class BinaryDataFormat:
         self._debug = debug
         self._output_writer = output_writer
 
+    def _CheckPosixTime(self, number_of_seconds):
+        """Checks if a POSIX time can be represented as a date and time.
+
+        Args:
+          number_of_seconds (int): number of seconds since January 1, 1970.
+
+        Returns:
+          bool: True if the POSIX time is in the years 1 up to and including 9999.
+        """
+        return -62135596800 <= number_of_seconds <= 253402300799
+
     def _DebugPrintData(self, description, data):
         """Prints data for debugging.
 
@@ -127,6 +138,8 @@ class BinaryDataFormat:
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not self._CheckPosixTime(value):
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
@@ -406,6 +419,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._CheckPosixTime(integer):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -425,6 +441,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._CheckPosixTime(integer // 1000000):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInMicroseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
-- 
2.43.0


From fb48797d0fb5889e4dfc1ec9ae98d207e0d33535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 26/69] fix: Chrome cache directory parsing, entry debug
 output, unsupported addresses and index table reuse

---
 dtformats/chrome_cache.debug.yaml |  2 +-
 dtformats/chrome_cache.py         | 79 ++++++++++++++++++++-----------
 scripts/chrome_cache.py           |  2 +-
 3 files changed, 54 insertions(+), 29 deletions(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..accc303 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.filename is None:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
@@ -265,6 +271,16 @@ class DataBlockFile(data_format.BinaryDataFile):
                 value_32bit >>= 1
                 block_number += 1
 
+        if in_block_range and self._debug:
+            block_range_size = block_range_end - block_range_start
+            self._DebugPrintValue(
+                "Block range",
+                (
+                    f"{block_range_start:d} - {block_range_end:d} "
+                    f"({block_range_size:d})"
+                ),
+            )
+
     def _DebugPrintCacheEntryDataStreamSizes(self, array_of_integers):
         """Prints cache entry data stream sizes debug information.
 
@@ -342,9 +358,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -521,9 +541,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -581,6 +605,8 @@ class IndexFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the index table cannot be read.
         """
+        self.index_table = {}
+
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("uint32le")
 
@@ -665,7 +691,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        index_file_path = self._file_system_helper.JoinPath([path, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -675,9 +701,15 @@ class ChromeCacheParser:
         data_block_files = {}
         have_all_data_block_files = True
         for cache_address in index_file.index_table.values():
-            if cache_address.filename not in data_block_files:
+            if not cache_address.filename:
+                logging.error(
+                    f"Unsupported cache address: 0x{cache_address.value:08x}."
+                )
+                have_all_data_block_files = False
+
+            elif cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    [path, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -716,24 +748,14 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
+                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
-                    date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-                        microseconds=cache_entry.creation_time
-                    )
+                    try:
+                        date_string = datetime.datetime(
+                            1601, 1, 1
+                        ) + datetime.timedelta(microseconds=cache_entry.creation_time)
+                    except OverflowError:
+                        date_string = f"0x{cache_entry.creation_time:08x}"
                     # print(f"Creation time\t: {date_string!s}")
 
                     # print("")
@@ -765,7 +787,10 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
diff --git a/scripts/chrome_cache.py b/scripts/chrome_cache.py
index b92bffd..7aeaed9 100755
--- a/scripts/chrome_cache.py
+++ b/scripts/chrome_cache.py
@@ -63,7 +63,7 @@ def Main():
     )
 
     if os.path.isdir(options.source):
-        parser.ParseDirectory(options.source)
+        parser.ParseDirectory(os.path.abspath(options.source))
 
     else:
         parser.ParseFile(options.source)
-- 
2.43.0


From 28e864a6ffac332a7508411029cb8b11a3c1257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:23 +0000
Subject: [PATCH 27/69] fix: reading data at an offset or of a size that cannot
 be read raised another error than ParseError

---
 dtformats/data_format.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 5004d9f..20b17cb 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -626,11 +626,11 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
         read_error = ""
 
         try:
+            file_object.seek(file_offset, os.SEEK_SET)
+
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -639,8 +639,8 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
-            read_error = f"{exception!s}"
+        except (MemoryError, OSError, OverflowError, ValueError) as exception:
+            read_error = f"{exception!s}" or "not enough memory"
 
         if read_error:
             raise errors.ParseError(
-- 
2.43.0


From 3e8c4a92b2f490a125927e7f3332f0905dbfafb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:18 +0000
Subject: [PATCH 28/69] fix: LevelDB and IndexedDB: sizes that exceed the data
 were accepted or raised another error than ParseError, record data size not
 printed

---
 dtformats/indexeddb.py       | 19 ++++++++++++
 dtformats/leveldb.debug.yaml |  2 +-
 dtformats/leveldb.py         | 60 +++++++++++++++++++++++++++++++++---
 3 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..756864b 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,10 +41,25 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data.")
+
         byte_value = data[0]
         bytes_read = 1
 
+        key_prefix_size = (
+            4
+            + (byte_value >> 5)
+            + ((byte_value & 0x1F) >> 2)
+            + (byte_value & 0x03)
+        )
+        if key_prefix_size > len(data):
+            raise errors.ParseError("Key prefix size value out of bounds.")
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +103,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type.")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..116e481 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,8 +84,13 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
         data_size = len(data)
+        if not data_size:
+            raise errors.ParseError("Missing variable size integer data.")
 
         byte_value = data[0]
         bytes_read = 1
@@ -102,6 +107,9 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
             # TODO: check maximum size
 
+        if byte_value & 0x80:
+            raise errors.ParseError("Missing end of variable size integer data.")
+
         return integer_value, bytes_read
 
     @abc.abstractmethod
@@ -201,6 +209,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_type_map = self._GetDataTypeMap("leveldb_log_value_header")
 
+        if len(data) < 12:
+            raise errors.ParseError("Missing value header data.")
+
         value_header = self._ReadStructureFromByteStream(
             data, file_offset, data_type_map, "Value header"
         )
@@ -226,6 +237,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} size value out of bounds.")
+
         value_data = data[bytes_read : bytes_read + data_size]
 
         if self._debug:
@@ -424,9 +438,19 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(
+                f"{description:s} string size value out of bounds."
+            )
+
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -498,11 +522,18 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 f"Unsupported compression type: {block_trailer.compression_type!s}"
             )
 
-        if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+        try:
+            if block_trailer.compression_type == 1:
+                block_data = snappy.decompress(block_data)
 
-        elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+            elif block_trailer.compression_type == 2:
+                block_data = zstd.decompress(block_data)
+
+        except (snappy.UncompressError, zstd.Error) as exception:
+            raise errors.ParseError(
+                f"Unable to decompress {description:s} block data with error: "
+                f"{exception!s}"
+            )
 
         return block_data
 
@@ -669,6 +700,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("uint32le")
         table_data_end_offset = table_data_size - 4
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError(f"Missing {description:s} table data.")
+
         number_of_restart_values = self._ReadStructureFromByteStream(
             table_data[-4:],
             table_data_end_offset,
@@ -683,6 +717,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError("Number of restart values out of bounds.")
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
         )
@@ -748,6 +785,19 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
 
             key_data_size = non_shared_key_data_size
 
+            if shared_key_data_size > len(shared_key_data):
+                raise errors.ParseError(
+                    f"Unsupported shared key data size: {shared_key_data_size:d}"
+                )
+
+            if (
+                data_offset + non_shared_key_data_size + value_data_size
+                > table_data_end_offset
+            ):
+                raise errors.ParseError(
+                    f"Entry: {entry_index:d} data size value out of bounds."
+                )
+
             key_data_end_offset = data_offset + key_data_size
             key_data = table_data[data_offset:key_data_end_offset]
 
-- 
2.43.0


From b7406da34672d3ecc3be5984f01189d62235ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:37 +0000
Subject: [PATCH 29/69] fix: systemd journal without entries was rejected,
 entry array cycle did not terminate, values printed as tuples

---
 dtformats/systemd.debug.yaml |  2 +-
 dtformats/systemd.py         | 24 +++++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..93864a0 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,13 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +107,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
@@ -353,16 +353,22 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
-        entry_array_object = self._ReadEntryArrayObject(
-            file_object, file_header.entry_array_offset
-        )
+        entry_object_offsets = []
+        entry_array_offset = file_header.entry_array_offset
+        entry_array_offsets = set()
+
+        while entry_array_offset != 0:
+            if entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array offset: 0x{entry_array_offset:08x} already read."
+                )
+            entry_array_offsets.add(entry_array_offset)
 
-        entry_object_offsets = list(entry_array_object.entry_object_offsets)
-        while entry_array_object.next_entry_array_offset != 0:
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
+            entry_array_offset = entry_array_object.next_entry_array_offset
 
         for entry_object_offset in entry_object_offsets:
             if entry_object_offset == 0:
-- 
2.43.0


From cbd3475a059da6af638536e0231c09b1b3c7b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 30/69] fix: threat tracking value that is empty, out of bounds
 or not binary data raised another error than ParseError in debug mode

---
 dtformats/detection_history.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..4ce8a90 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -107,6 +108,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
                 )
             )
 
+        if not threat_tracking_data:
+            return
+
         data_type_map = self._GetDataTypeMap("uint32le")
 
         values_data_size = self._ReadStructureFromByteStream(
@@ -123,6 +127,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
             values_data_end_offset = header.total_data_size
 
         while values_data_offset < values_data_end_offset:
+            if values_data_offset >= len(threat_tracking_data):
+                raise errors.ParseError("Threat tracking data size out of bounds.")
+
             _, data_size = self._ReadThreatTrackingValue(
                 threat_tracking_data[values_data_offset:],
                 file_offset + values_data_offset,
@@ -253,7 +260,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
                         value_index_set += 1
                     value_index = 0
 
-                if (value_index_set, value_index) == (2, 5):
+                if (value_index_set, value_index) == (2, 5) and isinstance(
+                    value_object, bytes
+                ):
                     self._ReadThreatTrackingData(value_object, file_offset + 8)
 
                 else:
-- 
2.43.0


From 9f2e255f32783f1f3500cdb0c6314c943613f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 31/69] fix: jump list: entries accumulated over files,
 category name not printed, invalid OLE compound file raised another error
 than ParseError

---
 dtformats/jump_list.debug.yaml |  2 +-
 dtformats/jump_list.py         | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..e670bce 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -44,8 +44,10 @@ class JumpListEntry:
           file_object (file): file-like object that contains the LNK file
               entry data.
         """
-        self.lnk_file = pylnk.file()
-        self.lnk_file.open_file_object(file_object)
+        lnk_file = pylnk.file()
+        lnk_file.open_file_object(file_object)
+
+        self.lnk_file = lnk_file
 
 
 class AutomaticDestinationsFile(data_format.BinaryDataFile):
@@ -191,7 +193,7 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
           ParseError: if the jump list entry cannot be read.
         """
         if self._debug:
-            self._DebugPrintText(f"Reading LNK file from stream: {olecf_item.name:s}")
+            self._DebugPrintText(f"Reading LNK file from stream: {olecf_item.name:s}\n")
 
         jump_list_entry = JumpListEntry(olecf_item.name)
 
@@ -241,7 +243,12 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         olecf_file = pyolecf.file()
-        olecf_file.open_file_object(file_object)
+        try:
+            olecf_file.open_file_object(file_object)
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to open OLE compound file with error: {exception!s}"
+            )
 
         self._ReadDestList(olecf_file.root_item)
 
@@ -458,6 +465,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._entries = []
+
         file_header, file_offset = self._ReadFileHeader(file_object)
 
         data_type_map = self._GetDataTypeMap("custom_entry_header")
-- 
2.43.0


From 53c16b1b1d03d187ee9308de4723d4cc516a7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:10 +0000
Subject: [PATCH 32/69] fix: custom destinations jump list entries all had
 offset 0 as their identifier

---
 dtformats/jump_list.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index e670bce..a95a7ec 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -414,11 +414,13 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
         return file_header, bytes_read
 
-    def _ReadJumpListEntry(self, file_object):
+    def _ReadJumpListEntry(self, file_object, file_offset):
         """Reads a jump list entry.
 
         Args:
-          file_object (file): file-like object.
+          file_object (file): file-like object of the LNK data.
+          file_offset (int): offset of the LNK data relative to the start of the
+              file.
 
         Returns:
           JumpListEntry: a jump list entry.
@@ -426,7 +428,6 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
@@ -502,7 +503,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         data_offset=file_offset,
                         data_size=remaining_file_size,
                     )
-                    jump_list_entry = self._ReadJumpListEntry(data_range_file_object)
+                    jump_list_entry = self._ReadJumpListEntry(
+                        data_range_file_object, file_offset
+                    )
 
                     self._entries.append(jump_list_entry)
 
-- 
2.43.0


From 6dcb06e4c2d64012e0bb07d2cbf35c8a099135fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:24 +0000
Subject: [PATCH 33/69] fix: keychain: values out of bounds were read from
 other data or raised another error than ParseError, signed integers, values
 printed as tuples or not printed

---
 dtformats/keychain.debug.yaml |   4 +-
 dtformats/keychain.py         | 198 ++++++++++++++++++++++++++--------
 2 files changed, 156 insertions(+), 46 deletions(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..a7cf7f5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,8 +65,8 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
-  description: "Record array offset"
+- name: records_array_offset
+  description: "Records array offset"
   format: hexadecimal_8digits
 - name: unknown1
   description: "Unknown1"
diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..1d2f855 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -104,7 +104,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
     _ATTRIBUTE_DATA_READ_FUNCTIONS = {
         0: "_ReadAttributeValueString",
-        1: "_ReadAttributeValueInteger",
+        1: "_ReadAttributeValueSignedInteger",
         2: "_ReadAttributeValueInteger",
         5: "_ReadAttributeValueDateTime",
         6: "_ReadAttributeValueBinaryData",
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,12 +184,44 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
         return "".join(lines)
 
+    def _GetAttributeValueData(
+        self,
+        attribute_values_data,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Retrieves the data of an attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          bytes: attribute values data starting at the attribute value.
+
+        Raises:
+          ParseError: if the attribute value offset is out of bounds.
+        """
+        data_offset = attribute_value_offset - (attribute_values_data_offset + 1)
+        if data_offset < 0 or data_offset >= len(attribute_values_data):
+            raise errors.ParseError(
+                f"Attribute value: {description:s} offset: "
+                f"0x{attribute_value_offset:08x} value out of bounds."
+            )
+
+        return attribute_values_data[data_offset:]
+
     def _ReadAttributeValueBinaryData(
         self,
         attribute_values_data,
@@ -220,12 +253,14 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         data_type_map = self._GetDataTypeMap("keychain_blob")
 
-        file_offset = (
-            record_offset + attribute_values_data_offset + attribute_value_offset
-        )
+        file_offset = record_offset + attribute_value_offset - 1
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -264,12 +299,14 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         data_type_map = self._GetDataTypeMap("keychain_date_time")
 
-        file_offset = (
-            record_offset + attribute_values_data_offset + attribute_value_offset
-        )
+        file_offset = record_offset + attribute_value_offset - 1
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         date_time_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -308,17 +345,57 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         data_type_map = self._GetDataTypeMap("uint32be")
 
-        file_offset = (
-            record_offset + attribute_values_data_offset + attribute_value_offset
-        )
+        file_offset = record_offset + attribute_value_offset - 1
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         return self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
         )
 
+    def _ReadAttributeValueSignedInteger(
+        self,
+        attribute_values_data,
+        record_offset,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Reads a signed integer attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          record_offset (int): offset of the record relative to the start of
+              the file.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          int: integer value or None if attribute value offset is not set.
+
+        Raises:
+          ParseError: if the attribute value cannot be read.
+        """
+        integer = self._ReadAttributeValueInteger(
+            attribute_values_data,
+            record_offset,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
+        if integer is not None and integer >= 0x80000000:
+            integer -= 0x100000000
+
+        return integer
+
     def _ReadAttributeValueString(
         self,
         attribute_values_data,
@@ -350,12 +427,14 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         data_type_map = self._GetDataTypeMap("keychain_string")
 
-        file_offset = (
-            record_offset + attribute_values_data_offset + attribute_value_offset
-        )
+        file_offset = record_offset + attribute_value_offset - 1
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -419,7 +498,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -437,9 +521,10 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     if offset > record_data_offset
                 ]
                 data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
+                attribute_name = column.attribute_name or "NULL"
+
                 if self._debug:
                     if attribute_value_offsets[index] == 0:
                         attribute_value_offset = 0
@@ -448,17 +533,17 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
-
-                    description = (
-                        f"Attribute value: {index:d} ({column.attribute_name:s}) data"
-                    )
+                        attribute_value_end_offset = min(
+                            (
+                                offset
+                                for offset in data_offsets
+                                if offset > attribute_value_offset
+                            ),
+                            default=attribute_value_offset,
+                        )
 
                     self._DebugPrintData(
-                        description,
+                        f"Attribute value: {index:d} ({attribute_name:s}) data",
                         record_data[attribute_value_offset:attribute_value_end_offset],
                     )
 
@@ -478,7 +563,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         record_offset,
                         record_data_offset,
                         attribute_value_offsets[index],
-                        column.attribute_name,
+                        attribute_name,
                     )
 
                 record[column.attribute_name] = attribute_value
@@ -504,7 +589,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -525,7 +615,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
@@ -583,7 +675,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "attribute values",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
@@ -672,6 +769,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -685,7 +785,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -748,7 +853,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -804,7 +909,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
@@ -821,7 +931,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -885,7 +995,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From 5eafa516e60abc0557cb5e87d258b9acedfbdfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 34/69] fix: WMF and EMF: record data read beyond the record in
 debug mode, zero size record did not terminate, wrong raster operation,
 stretch mode and coordinate values

---
 dtformats/wemf.py  | 155 ++++++++++++++++++++++++++++-----------------
 dtformats/wmf.yaml |  41 +++++++-----
 2 files changed, 120 insertions(+), 76 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..f1a0e15 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -117,6 +117,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
 
+        Returns:
+          emf_file_header: file header.
+
         Raises:
           ParseError: if the file header cannot be read.
         """
@@ -131,10 +134,18 @@ class EMFFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        # The size of the file header without the OpenGL and micrometers values
+        # is 88.
+        if file_header.record_size < 88:
+            raise errors.ParseError(
+                f"Unsupported file header record size: {file_header.record_size:d}"
+            )
+
         # TODO: check record type
-        # TODO: check record size
         # TODO: check signature
 
+        return file_header
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
@@ -151,34 +162,45 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        if record_header.record_size < header_size:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        data_offset = file_offset + header_size
+        data_size = record_header.record_size - header_size
+
+        self._ReadRecordData(
+            file_object, data_offset, record_header.record_type, data_size
+        )
 
         return Record(
             record_header.record_type, record_header.record_size, data_offset, data_size
         )
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
-        """Reads a record.
+    def _ReadRecordData(self, file_object, data_offset, record_type, data_size):
+        """Reads record data.
 
         Args:
           file_object (file): file-like object.
+          data_offset (int): offset of the record data relative to the start of
+              the file-like object.
           record_type (int): record type.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, data_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -190,7 +212,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -221,9 +246,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
         """
-        self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(file_object)
 
-        file_offset = file_object.tell()
+        file_offset = file_header.record_size
         while file_offset < self._file_size:
             record = self._ReadRecord(file_object, file_offset)
 
@@ -327,44 +352,44 @@ class WMFFile(data_format.BinaryDataFile):
     # Reverse Polish wmf_raster_operation_code
     _WMF_RASTER_OPERATIONS = {
         0x00000042: "BLACKNESS",
-        0x00010289: "DPSOO",
-        0x00020C89: "DPSON",
-        0x000300AA: "PSO",
-        0x00040C88: "SDPON",
-        0x000500A9: "DPO",
-        0x00060865: "PDSXNO",
-        0x000702C5: "PDSAO",
-        0x00080F08: "SDPNA",
-        0x00090245: "PDSXO",
-        0x000A0329: "DPN",
-        0x000B0B2A: "PSDNAO",
-        0x000C0324: "SPN",
-        0x000D0B25: "PDSNAO",
-        0x000E08A5: "PDSONO",
-        0x000F0001: "P",
-        0x00100C85: "PDSON",
-        0x001100A6: "NOTSRCERAS",
-        0x00120868: "SDPXNO",
-        0x001302C8: "SDPAO",
-        0x00140869: "DPSXNO",
-        0x001502C9: "DPSAO",
-        0x00165CCA: "PSDPSANAX",
-        0x00171D54: "SSPXDSXAX",
-        0x00180D59: "SPXPDX",
-        0x00191CC8: "SDPSANAX",
-        0x001A06C5: "PDSPAO",
-        0x001B0768: "SDPSXAX",
-        0x001C06CA: "PSDPAO",
-        0x001D0766: "DSPDXAX",
-        0x001E01A5: "PDSO",
-        0x001F0385: "PDSOA",
-        0x00200F09: "DPSNA",
-        0x00210248: "SDPXO",
-        0x00220326: "DSN",
-        0x00230B24: "SPDNAO",
-        0x00240D55: "SPXDSX",
-        0x00251CC5: "PDSPANAX",
-        0x002606C8: "SDPSAO",
+        0x00010289: "DPSOON",
+        0x00020C89: "DPSONA",
+        0x000300AA: "PSON",
+        0x00040C88: "SDPONA",
+        0x000500A9: "DPON",
+        0x00060865: "PDSXNON",
+        0x000702C5: "PDSAON",
+        0x00080F08: "SDPNAA",
+        0x00090245: "PDSXON",
+        0x000A0329: "DPNA",
+        0x000B0B2A: "PSDNAON",
+        0x000C0324: "SPNA",
+        0x000D0B25: "PDSNAON",
+        0x000E08A5: "PDSONON",
+        0x000F0001: "PN",
+        0x00100C85: "PDSONA",
+        0x001100A6: "NOTSRCERASE",
+        0x00120868: "SDPXNON",
+        0x001302C8: "SDPAON",
+        0x00140869: "DPSXNON",
+        0x001502C9: "DPSAON",
+        0x00165CCA: "PSDPSANAXX",
+        0x00171D54: "SSPXDSXAXN",
+        0x00180D59: "SPXPDXA",
+        0x00191CC8: "SDPSANAXN",
+        0x001A06C5: "PDSPAOX",
+        0x001B0768: "SDPSXAXN",
+        0x001C06CA: "PSDPAOX",
+        0x001D0766: "DSPDXAXN",
+        0x001E01A5: "PDSOX",
+        0x001F0385: "PDSOAN",
+        0x00200F09: "DPSNAA",
+        0x00210248: "SDPXON",
+        0x00220326: "DSNA",
+        0x00230B24: "SPDNAON",
+        0x00240D55: "SPXDSXA",
+        0x00251CC5: "PDSPANAXN",
+        0x002606C8: "SDPSAOX",
         0x00271868: "SDPSXNOX",
         0x00280369: "DPSXA",
         0x002916CA: "PSDPSAOXXN",
@@ -437,7 +462,7 @@ class WMFFile(data_format.BinaryDataFile):
         0x006C01E8: "SDPAX",
         0x006D1785: "PDSPDOAXXN",
         0x006E1E28: "SDPSNOAX",
-        0x006F0C65: "PDXNAN",
+        0x006F0C65: "PDSXNAN",
         0x00700CC5: "PDSANA",
         0x00711D5C: "SSDXPDXAXN",
         0x00720648: "SDPSXOX",
@@ -704,7 +729,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,25 +738,34 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        if record_size < header_size:
+            raise errors.ParseError(f"Unsupported record size: {record_size:d}")
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        data_offset = file_offset + header_size
+        data_size = record_size - header_size
+
+        self._ReadRecordData(
+            file_object, data_offset, record_header.record_type, data_size
+        )
 
         return Record(record_header.record_type, record_size, data_offset, data_size)
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
-        """Reads a record.
+    def _ReadRecordData(self, file_object, data_offset, record_type, data_size):
+        """Reads record data.
 
         Args:
           file_object (file): file-like object.
+          data_offset (int): offset of the record data relative to the start of
+              the file-like object.
           record_type (int): record type.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, data_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -743,7 +777,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -757,7 +794,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
diff --git a/dtformats/wmf.yaml b/dtformats/wmf.yaml
index 9bbdcd2..3ce168c 100644
--- a/dtformats/wmf.yaml
+++ b/dtformats/wmf.yaml
@@ -7,6 +7,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: int16
+type: integer
+attributes:
+  format: signed
+  size: 2
+  units: bytes
+---
 name: uint16
 type: integer
 attributes:
@@ -269,7 +276,7 @@ values:
   number: 0x6d
 - name: SDPSNOAX
   number: 0x6e
-- name: PDXNAN
+- name: PDSXNAN
   number: 0x6f
 - name: PDSANA
   number: 0x70
@@ -828,20 +835,20 @@ type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_setwindoworg
 type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_dibstretchblt
 type: structure
@@ -851,19 +858,19 @@ members:
 - name: raster_operation
   data_type: uint32
 - name: source_height
-  data_type: uint16
+  data_type: int16
 - name: source_width
-  data_type: uint16
-- name: source_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: source_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: source_x_coordinate
+  data_type: int16
 - name: destination_height
-  data_type: uint16
+  data_type: int16
 - name: destination_width
-  data_type: uint16
-- name: destination_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: destination_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: destination_x_coordinate
+  data_type: int16
 # TODO: add device_indepent_bitmap stream.
-- 
2.43.0


From bd2f1c8f8fb78a8085ed75c70e89c447fddc0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:23 +0000
Subject: [PATCH 35/69] fix: spotlight store: attributes in the last bytes of a
 record and multi-value integers were not read correctly, padding of
 uncompressed pages was read as records, other errors than ParseError

---
 dtformats/spotlight_storedb.py | 282 ++++++++++++++++++++++++---------
 1 file changed, 208 insertions(+), 74 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..3bc6093 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,7 +174,13 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Unable to read variable size integer.")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -189,6 +195,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if bytes_read + number_of_additional_bytes > len(data):
+            raise errors.ParseError("Unable to read variable size integer.")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
@@ -209,8 +218,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        data = file_object.read(self._data_size)
+        data = self._ReadData(file_object, 0, self._data_size, "stream values")
 
+        self.stream_values = []
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
 
@@ -350,8 +360,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.ranges = []
+
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(file_object, 0, data_size, "array of 32-bit offsets")
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
 
@@ -361,41 +373,32 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
 
-        index = 0
-        last_offset = 0
-
-        for index, offset in enumerate(offsets_array):
-            if index == 0:
-                last_offset = offsets_array[0]
-                continue
-
-            range_size = offset - last_offset
+        end_offsets = list(offsets_array[1:])
+        end_offsets.append(self._data_size)
 
-            if self._debug:
-                self._DebugPrintValue(
-                    f"Range: {index:d}",
-                    (f"0x{last_offset:08x} - 0x{offset:08x} ({range_size:d})"),
+        for index, (offset, end_offset) in enumerate(zip(offsets_array, end_offsets)):
+            range_size = end_offset - offset
+            if range_size < 0:
+                raise errors.ParseError(
+                    f"Invalid range: {index:d} offset: 0x{offset:08x} value out of "
+                    f"bounds."
                 )
 
-            self.ranges.append((last_offset, range_size))
-
-            last_offset = offset
-
-        if last_offset:
-            range_size = self._data_size - last_offset
-
             if self._debug:
                 self._DebugPrintValue(
                     f"Range: {index:d}",
-                    (f"0x{last_offset:08x} - 0x{self._data_size:08x} ({range_size:d})"),
+                    (f"0x{offset:08x} - 0x{end_offset:08x} ({range_size:d})"),
                 )
 
-            self.ranges.append((last_offset, range_size))
+            self.ranges.append((offset, range_size))
 
         if self._debug:
             self._DebugPrintText("\n")
@@ -453,12 +456,16 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if value == 0:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            try:
+                date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
+                date_time_string = date_time.CopyToDateTimeString()
+            except (OverflowError, ValueError):
+                date_time_string = None
+
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string, _ = self._FormatFloatingPoint(value)
 
         self._DebugPrintValue(description, date_time_string)
 
@@ -595,7 +602,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -610,11 +620,22 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (
+                MemoryError,
+                OverflowError,
+                ValueError,
+                lz4.block.LZ4BlockError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -645,6 +666,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         compressed_data_size = len(compressed_page_data)
 
         last_uncompressed_block = None
+        lz4_block_marker = None
 
         uncompressed_blocks = []
         while compressed_data_offset < compressed_data_size:
@@ -733,7 +755,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if self._debug:
-            trailing_data = file_object.read(file_header.map_offset - file_header_size)
+            trailing_data_size = max(0, file_header.map_offset - file_header_size)
+            trailing_data = file_object.read(trailing_data_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
         return file_header
@@ -764,7 +787,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -787,7 +813,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -880,7 +909,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -941,12 +973,20 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
+        page_data_size = page_header.page_size - page_header_size
+        page_data_size -= page_header.number_of_map_values * 16
+        if page_data_size < 0:
+            raise errors.ParseError(
+                f"Invalid map page at offset: 0x{file_offset:08x} number of map values "
+                f"or page size value out of bounds."
+            )
+
         file_offset += page_header_size
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
-            page_data = file_object.read(page_header.page_size - page_header_size)
+            page_data = file_object.read(page_data_size)
             self._DebugPrintData("Page data", page_data)
 
         return page_header
@@ -1007,10 +1047,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Returns:
           tuple[SpotlightStoreMetadataAttribute, int]: metadata attribute and
               number of bytes read.
+
+        Raises:
+          ParseError: if the metadata attribute cannot be read.
         """
         value_type = getattr(metadata_type, "value_type", None)
         if value_type is None:
-            return None, 0
+            raise errors.ParseError("Unable to read attribute of unknown type.")
 
         key_name = getattr(metadata_type, "key_name", None)
         property_type = getattr(metadata_type, "property_type", None)
@@ -1058,6 +1101,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 self._DebugPrintDecimalValue("Data size", data_size)
 
             value = data[bytes_read : bytes_read + data_size]
+            if len(value) != data_size:
+                raise errors.ParseError("Unable to read binary data value.")
+
             bytes_read += data_size
 
             # TODO: decode binary data e.g. UUID
@@ -1111,7 +1157,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1156,7 +1205,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1202,7 +1254,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1259,7 +1314,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1376,7 +1434,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1417,7 +1478,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1454,17 +1518,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        data_end_offset = bytes_read + data_size
+        while bytes_read < data_end_offset:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[bytes_read:data_end_offset]
             )
-            data_offset += integer_value_size
+            bytes_read += integer_value_size
 
             array_of_values.append(integer_value)
 
-        bytes_read += data_size
-
         return array_of_values, bytes_read
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
@@ -1496,13 +1558,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        file_offset += bytes_read
+        page_data = self._ReadData(
+            file_object,
+            file_offset,
+            page_header.page_size - bytes_read,
+            "property page data",
+        )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
         )
-        file_offset += bytes_read
-
         page_values_header = self._ReadStructureFromByteStream(
             page_data, file_offset, data_type_map, "property values header"
         )
@@ -1544,6 +1610,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size <= bytes_read:
+            raise errors.ParseError(
+                f"Invalid property page at offset: 0x{file_offset:08x} page size value "
+                f"out of bounds."
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1572,12 +1644,21 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the property pages cannot be read.
         """
+        block_numbers = set()
+
         file_offset = block_number * 0x1000
         while file_offset != 0:
-            _, next_block_number = self._ReadPropertyPage(
+            if block_number in block_numbers:
+                raise errors.ParseError(
+                    f"Property page block number: {block_number:d} already read."
+                )
+
+            block_numbers.add(block_number)
+
+            _, block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-            file_offset = next_block_number * 0x1000
+            file_offset = block_number * 0x1000
 
     def _ReadRecord(self, page_data, page_value_offset):
         """Reads a record.
@@ -1601,8 +1682,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
         page_data_offset += bytes_read
-        record_data_offset = bytes_read
 
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
@@ -1613,9 +1694,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1626,7 +1705,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_type_index += relative_metadata_type_index
 
@@ -1648,7 +1726,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
@@ -1676,7 +1753,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
@@ -1684,10 +1764,24 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset = context.byte_size
 
+        # Make sure the values do not exceed the record data.
+        data = data[: data_offset + record.data_size]
+        if len(data) != data_offset + record.data_size:
+            raise errors.ParseError(
+                f"Unable to read record at offset: 0x{page_data_offset:08x} data size "
+                f"value out of bounds."
+            )
+
         identifier, bytes_read = self._ReadVariableSizeInteger(data[data_offset:])
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Unable to read record at offset: 0x{page_data_offset:08x} missing "
+                f"flags."
+            )
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1738,11 +1832,18 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
-
         file_offset += bytes_read
+        page_data = self._ReadData(
+            file_object,
+            file_offset,
+            page_header.page_size - bytes_read,
+            "record page data",
+        )
+
+        if page_header.uncompressed_page_size == 0:
+            page_data = page_data[: max(0, page_header.used_page_size - bytes_read)]
 
-        if page_header.uncompressed_page_size > 0:
+        else:
             compressed_page_data = page_data
 
             if page_header.property_table_type & 0x00001000 and compressed_page_data[
@@ -1753,7 +1854,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
@@ -1790,7 +1897,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             if self._debug:
                 record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
+                    page_data_offset
+                    + 4 : page_data_offset
+                    + 4
+                    + record_header.data_size
                 ]
                 self._DebugPrintData("Record data", record_data)
 
@@ -1845,6 +1955,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the streams map cannot be read.
         """
+        if not self._path:
+            raise errors.ParseError(
+                f"Unable to read streams map: {streams_map_number:d} without path."
+            )
+
         path = os.path.abspath(self._path)
         path_segments = self._file_system_helper.SplitPath(path)
 
@@ -1899,7 +2014,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Unable to read variable size integer.")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1914,6 +2035,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if bytes_read + number_of_additional_bytes > len(data):
+            raise errors.ParseError("Unable to read variable size integer.")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
@@ -1970,6 +2094,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._map_values = []
+        self._metadata_lists = {}
+        self._metadata_localized_strings = {}
+        self._metadata_types = {}
+        self._metadata_values = {}
+        self._record_descriptors = {}
+        self._record_pages_cache = {}
+
         file_header = self._ReadFileHeader(file_object)
 
         self._ReadMapPages(file_object, file_header.map_offset, file_header.map_size)
@@ -2028,8 +2160,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                try:
+                    self._GetMetadataItemByIdentifier(file_object, record_identifier)
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read record: {record_identifier:d} with error: "
+                        f"{exception!s}\n"
+                    )
-- 
2.43.0


From 3aa71a16271be224b99a35fd09eb494d5858e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 36/69] fix: unified logging: format string operators with
 width, precision and combinations of flags, negative error codes, IPv6 socket
 addresses, security identifiers and values of unsupported size were not
 formatted correctly or raised another error than ParseError

---
 dtformats/unified_logging.py | 120 +++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 47 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..d306a90 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3,6 +3,7 @@
 import abc
 import base64
 import collections
+import ipaddress
 import os
 import re
 import struct
@@ -239,6 +240,8 @@ class FormatStringOperator:
         "U": "d",
     }
 
+    _SIGNED_SPECIFIERS = frozenset("aAdDeEfFgGim")
+
     def __init__(self, flags=None, precision=None, specifier=None, width=None):
         """Initializes a format string operator.
 
@@ -266,6 +269,10 @@ class FormatStringOperator:
             precision = self.precision or ""
             width = self.width or ""
 
+            # The width is provided as a separate value.
+            if width == "*":
+                width = ""
+
             python_specifier = self._PYTHON_SPECIFIERS.get(
                 self.specifier, self.specifier
             )
@@ -285,31 +292,48 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
+            # Prevent: "ValueError: Precision not allowed in integer format
+            # specifier"
+            if python_specifier in ("c", "d", "o", "x", "X"):
+                precision = ""
 
-                # Prevent: "ValueError: Precision not allowed in integer format
-                # specifier"
+            # Prevent: "%.0s" formatting as an empty string.
+            elif python_specifier == "s" and precision == ".0":
                 precision = ""
 
-            elif python_specifier == "s":
-                if width and not flags:
-                    flags = ">"
+            # A Python format specification requires a specific order of the flags.
+            alignment = ""
+            if "-" in flags:
+                alignment = "<"
+            elif width and python_specifier == "s":
+                alignment = ">"
+
+            sign = ""
+            if self.specifier in self._SIGNED_SPECIFIERS:
+                if "+" in flags:
+                    sign = "+"
+                elif " " in flags:
+                    sign = " "
+
+            alternate_form = ""
+            zero_padding = ""
+            if python_specifier not in ("c", "s") and self.specifier != "p":
+                if "#" in flags:
+                    alternate_form = "#"
+                if "0" in flags and "-" not in flags:
+                    zero_padding = "0"
+
+            prefix = ""
+            if self.specifier == "p":
+                if width:
+                    alternate_form = "#"
                 else:
-                    flags = flags.replace("-", "<")
+                    prefix = "0x"
 
-                # Prevent: "%.0s" formatting as an empty string.
-                if precision == ".0":
-                    precision = ""
-
-            if self.specifier == "p":
-                self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
-                )
-            else:
-                self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
-                )
+            self._format_string = (
+                f"{prefix:s}{{0:{alignment:s}{sign:s}{alternate_form:s}"
+                f"{zero_padding:s}{width:s}{precision:s}{python_specifier:s}}}"
+            )
 
         return self._format_string
 
@@ -563,6 +587,10 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         """
         integer_value = int.from_bytes(value, "little", signed=False)
 
+        # Prevent conversion of a timestamp that exceeds 9999-12-31 23:59:59.
+        if integer_value >= 253402300800:
+            return "<decode: unsupported value>"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         return date_time.CopyToDateTimeString()
 
@@ -584,7 +612,7 @@ class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         return darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -608,7 +636,7 @@ class ExtendedErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         error_message = darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -1100,16 +1128,13 @@ class BaseMDNSDNSStructureFormatStringDecoder(
             if flags & bitmask:
                 flag_names.append(name)
 
-        flag_names = ", ".join(flag_names)
-
         operation = (flags & self._OPERATION_BITMASK) >> 11
         operation_name = self._OPERATION_NAMES.get(operation, "?")
 
         query_or_response = "R" if flags & self._RESPONSE_OR_QUERY_BITMASK else "Q"
 
-        return (
-            f"{query_or_response:s}/{operation_name:s}, {flag_names:s}, "
-            f"{reponse_code:s}"
+        return ", ".join(
+            [f"{query_or_response:s}/{operation_name:s}", *flag_names, reponse_code]
         )
 
 
@@ -1474,6 +1499,9 @@ class OpenDirectoryMembershipDetailsFormatStringDecoder(
         if not data_type_map_name:
             return f"ERROR: unsupported type: 0x{type_indicator:02x}"
 
+        if len(value) < 2:
+            raise errors.ParseError("Missing membership details data.")
+
         data_type_map = self._GetDataTypeMap(data_type_map_name)
 
         membership_details = self._ReadStructureFromByteStream(
@@ -1593,6 +1621,9 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1731,6 +1762,9 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1850,17 +1884,7 @@ class SocketAddressFormatStringDecoder(BaseFormatStringDecoder):
             if address_family == 30 and value_size == 28:
                 ipv6_address = value[8:24]
                 # Note that socket.inet_ntop() is not supported on Windows.
-                octet_pairs = zip(ipv6_address[0::2], ipv6_address[1::2])
-                octet_pairs = [octet1 << 8 | octet2 for octet1, octet2 in octet_pairs]
-                string_segments = [
-                    f"{octet_pair:04x}" if octet_pair else ""
-                    for octet_pair in octet_pairs
-                ]
-                ip_string = ":".join(string_segments)
-                # TODO: find a more elegant solution.
-                if ip_string == ":::::::":
-                    ip_string = "::"
-                return ip_string
+                return ipaddress.IPv6Address(ipv6_address).compressed
 
         return "<decode: unsupported value>"
 
@@ -1918,14 +1942,13 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         if format_string_operator:
-            if (
-                integer_value == 0
-                and format_string_operator.flags == "#"
-                and format_string_operator.specifier == "x"
-            ):
-                return f"{integer_value:x}"
+            specifier = format_string_operator.specifier
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
 
             format_string = format_string_operator.GetPythonFormatString()
+            if integer_value == 0 and specifier in ("x", "X"):
+                format_string = format_string.replace("#", "")
         else:
             format_string = "{0:d}"
 
@@ -1946,6 +1969,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
@@ -1981,15 +2007,15 @@ class WindowsNTSecurityIdentifierFormatStringDecoder(
         authority = security_identifier.authority_lower | (
             security_identifier.authority_upper << 32
         )
-        sub_authorities = "-".join(
+        sub_authorities = "".join(
             [
-                f"{sub_authority:d}"
+                f"-{sub_authority:d}"
                 for sub_authority in security_identifier.sub_authorities
             ]
         )
         return (
             f"S-{security_identifier.revision_number}-"
-            f"{authority:d}-{sub_authorities:s}"
+            f"{authority:d}{sub_authorities:s}"
         )
 
 
-- 
2.43.0


From deb7cd5c4e591b1b45dfc4448d3ace0b56ceb4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:32 +0000
Subject: [PATCH 37/69] fix: unified logging: string reference at the end of a
 range or entry was read from the next, timesync record of size 0 did not
 terminate, invalid UUID descriptor index raised another error than ParseError

---
 dtformats/unified_logging.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d306a90..5954288 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2263,7 +2263,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -2314,6 +2314,11 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"Unsupported UUID descriptor index: {dsc_range.uuid_index:d}."
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
@@ -2417,7 +2422,12 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Unsupported record size: {record.record_size:d}."
+                )
+
             yield record
 
             file_offset += record.record_size
@@ -5274,7 +5284,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From 3917b3018d44fdc3ea665b432c4a1a56809caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:23 +0000
Subject: [PATCH 38/69] fix: read unified log tracepoints, images, catalogs and
 timesync records as documented and reject damaged ones

---
 dtformats/aul_tracev3.debug.yaml |   8 +-
 dtformats/aul_tracev3.yaml       |   4 +-
 dtformats/unified_logging.py     | 325 +++++++++++++++++++------------
 3 files changed, 208 insertions(+), 129 deletions(-)

diff --git a/dtformats/aul_tracev3.debug.yaml b/dtformats/aul_tracev3.debug.yaml
index 564c90f..16f7411 100644
--- a/dtformats/aul_tracev3.debug.yaml
+++ b/dtformats/aul_tracev3.debug.yaml
@@ -263,7 +263,7 @@ attributes:
 - name: unknown3
   description: "Unknown3"
   format: hexadecimal_2digits
-- name: uuids
+- name: identifiers
   description: "Identifiers"
   format: custom:array_of_uuids
 - name: offsets
@@ -380,12 +380,6 @@ attributes:
 - name: number_of_values
   description: "Number of values"
   format: decimal
-- name: value_size
-  description: "Value size"
-  format: decimal
-- name: integer
-  description: "Integer value"
-  format: decimal
 ---
 data_type_map: tracev3_header_chunk
 attributes:
diff --git a/dtformats/aul_tracev3.yaml b/dtformats/aul_tracev3.yaml
index 2aaa8b6..e970279 100644
--- a/dtformats/aul_tracev3.yaml
+++ b/dtformats/aul_tracev3.yaml
@@ -584,7 +584,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: unknown1
   data_type: uint8
@@ -630,7 +630,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: name_string_reference_lower
   data_type: uint32
diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 5954288..b79b524 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2665,6 +2665,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._error_on_warning = error_on_warning
         self._header_timebase = 1.0
         self._header_timestamp = 0
+        self._log_entries_offset = 0
         self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_path = None
@@ -2686,16 +2687,6 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            if process_information_entry.main_uuid_index >= 0:
-                process_information_entry.main_uuid = catalog.uuids[
-                    process_information_entry.main_uuid_index
-                ]
-
-            if process_information_entry.dsc_uuid_index >= 0:
-                process_information_entry.dsc_uuid = catalog.uuids[
-                    process_information_entry.dsc_uuid_index
-                ]
-
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
                     sub_system = self._catalog_strings_map.get(
@@ -2706,7 +2697,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system!s}, Category: {category!s}\n"
                     )
 
                 self._DebugPrintText("\n")
@@ -3090,10 +3081,32 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            map_offset += len(string.encode("utf8")) + 1
 
         return strings_map
 
+    def _GetCatalogUUID(self, catalog, uuid_index):
+        """Retrieves a catalog UUID.
+
+        Args:
+          catalog (tracev3_catalog): catalog.
+          uuid_index (int): index of the UUID in the catalog UUIDs, where -1
+              represents not set.
+
+        Returns:
+          uuid.UUID: UUID or None if not set.
+
+        Raises:
+          ParseError: if the index is out of bounds.
+        """
+        if uuid_index < 0:
+            return None
+
+        try:
+            return catalog.uuids[uuid_index]
+        except IndexError:
+            raise errors.ParseError(f"Catalog UUID index: {uuid_index:d} out of bounds")
+
     def _GetDataItemsAndValuesData(
         self,
         proc_id,
@@ -3192,33 +3205,30 @@ class TraceV3File(data_format.BinaryDataFile):
         image_text_offset = 0
 
         if strings_file_type == 0x0002:
-            strings_file_identifier = process_information_entry.main_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "main_uuid", None
+            )
 
         if strings_file_type in (0x0004, 0x000C):
-            strings_file_identifier = process_information_entry.dsc_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "dsc_uuid", None
+            )
 
         if strings_file_type == 0x0008:
-            load_address_upper = tracepoint_data_object.load_address_upper or 0
-            load_address_lower = tracepoint_data_object.load_address_lower
-
-            for uuid_entry in process_information_entry.uuid_entries:
-                if (
-                    load_address_upper != uuid_entry.load_address_upper
-                    or load_address_lower < uuid_entry.load_address_lower
-                ):
-                    continue
-
-                if load_address_lower <= (
-                    uuid_entry.load_address_lower + uuid_entry.size
-                ):
-                    if self._catalog:
-                        strings_file_identifier = self._catalog.uuids[
-                            uuid_entry.uuid_index
-                        ]
+            load_address = tracepoint_data_object.load_address_lower | (
+                (tracepoint_data_object.load_address_upper or 0) << 32
+            )
+            uuid_entries = getattr(process_information_entry, "uuid_entries", None)
 
-                    image_text_offset = uuid_entry.load_address_lower | (
-                        uuid_entry.load_address_upper << 32
+            for uuid_entry in uuid_entries or []:
+                uuid_entry_offset = uuid_entry.load_address_lower | (
+                    uuid_entry.load_address_upper << 32
+                )
+                if 0 <= load_address - uuid_entry_offset < uuid_entry.size:
+                    strings_file_identifier = self._GetCatalogUUID(
+                        self._catalog, uuid_entry.uuid_index
                     )
+                    image_text_offset = uuid_entry_offset
                     break
 
             if not strings_file_identifier:
@@ -3233,13 +3243,25 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        large_shared_cache_data = getattr(
+            tracepoint_data_object, "large_shared_cache_data", None
+        )
+
+        # Note that the image values do not solely depend on the string reference.
+        lookup_key = (
+            uuid_string,
+            strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES,
+            string_reference,
+            is_dynamic,
+            image_text_offset,
+            large_offset_data,
+            large_shared_cache_data,
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
@@ -3267,9 +3289,6 @@ class TraceV3File(data_format.BinaryDataFile):
                         text_offset=image_text_offset,
                     )
 
-                large_shared_cache_data = getattr(
-                    tracepoint_data_object, "large_shared_cache_data", None
-                )
                 if large_offset_data and large_shared_cache_data:
                     calculated_large_offset_data = large_shared_cache_data >> 1
                     if large_offset_data != calculated_large_offset_data:
@@ -3321,11 +3340,12 @@ class TraceV3File(data_format.BinaryDataFile):
         image_identifier = None
         image_path = None
 
-        if process_information_entry and process_information_entry.main_uuid:
-            uuid_string = process_information_entry.main_uuid.hex.upper()
+        main_uuid = getattr(process_information_entry, "main_uuid", None)
+        if main_uuid:
+            uuid_string = main_uuid.hex.upper()
             uuidtext_file = self._GetUUIDTextFile(uuid_string)
             if uuidtext_file:
-                image_identifier = process_information_entry.main_uuid
+                image_identifier = main_uuid
                 image_path = uuidtext_file.GetImagePath()
 
         if self._debug and image_path:
@@ -3381,9 +3401,9 @@ class TraceV3File(data_format.BinaryDataFile):
         """
         timesync_record = self._GetTimesyncRecord(continuous_time)
         if timesync_record:
-            continuous_time -= timesync_record.kernel_time
+            relative_time = continuous_time - timesync_record.kernel_time
             timestamp = timesync_record.timestamp + int(
-                continuous_time * self._timesync_timebase
+                relative_time * self._timesync_timebase
             )
         elif self._timesync_boot_record:
             timestamp = self._timesync_boot_record.timestamp + int(
@@ -3592,6 +3612,13 @@ class TraceV3File(data_format.BinaryDataFile):
             )
             file_offset += bytes_read
 
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
+
             if self._debug:
                 debug_info = self._DEBUG_INFORMATION.get(
                     "tracev3_catalog_process_information_entry", None
@@ -3681,10 +3708,20 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+
+            # Note that the compression ratio of LZ4 is less than 256:1.
+            if lz4_block_header.uncompressed_data_size > 256 * len(chunk_data):
+                raise errors.ParseError("Unsupported LZ4 block uncompressed data size")
+
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (lz4.block.LZ4BlockError, ValueError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -3699,6 +3736,9 @@ class TraceV3File(data_format.BinaryDataFile):
         if end_of_lz4_block_marker != b"bv4$":
             raise errors.ParseError("Unsupported end of LZ4 block marker")
 
+        if len(uncompressed_data) != lz4_block_header.uncompressed_data_size:
+            raise errors.ParseError("Unsupported LZ4 block uncompressed data size")
+
         data_type_map = self._GetDataTypeMap("tracev3_chunk_header")
 
         data_offset = 0
@@ -3726,6 +3766,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 self._DebugPrintStructureObject(chunkset_chunk_header, debug_info)
 
             data_end_offset = data_offset + chunkset_chunk_header.chunk_data_size
+            if data_end_offset > len(uncompressed_data):
+                raise errors.ParseError("Chunk data size value out of bounds")
+
             chunkset_chunk_data = uncompressed_data[data_offset:data_end_offset]
 
             if chunkset_chunk_header.chunk_tag == self._CHUNK_TAG_FIREHOSE:
@@ -3813,9 +3856,14 @@ class TraceV3File(data_format.BinaryDataFile):
                     "00000000-0000-0000-0000-000000000000"
                 )
             else:
-                backtrace_frame.image_identifier = backtrace_data.identifiers[
-                    identifier_index
-                ]
+                try:
+                    backtrace_frame.image_identifier = backtrace_data.identifiers[
+                        identifier_index
+                    ]
+                except IndexError:
+                    raise errors.ParseError(
+                        f"Identifier index: {identifier_index:d} out of bounds"
+                    )
 
             backtrace_frames.append(backtrace_frame)
 
@@ -3883,31 +3931,31 @@ class TraceV3File(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
-                if data_item.value_type not in (
-                    0x00,
-                    0x01,
-                    0x02,
-                    0x10,
-                    0x12,
-                    0x20,
-                    0x21,
-                    0x22,
-                    0x25,
-                    0x30,
-                    0x31,
-                    0x32,
-                    0x35,
-                    0x40,
-                    0x41,
-                    0x42,
-                    0x45,
-                    0x72,
-                    0xF2,
-                ):
-                    raise errors.ParseError(
-                        f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
-                    )
+            if data_item.value_type not in (
+                0x00,
+                0x01,
+                0x02,
+                0x10,
+                0x12,
+                0x20,
+                0x21,
+                0x22,
+                0x25,
+                0x30,
+                0x31,
+                0x32,
+                0x35,
+                0x40,
+                0x41,
+                0x42,
+                0x45,
+                0x72,
+                0xF2,
+            ):
+                raise errors.ParseError(
+                    f"Unsupported data item value type: "
+                    f"0x{data_item.value_type:02x}."
+                )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
                 precision = int.from_bytes(value_data, "little", signed=False)
@@ -3920,7 +3968,10 @@ class TraceV3File(data_format.BinaryDataFile):
 
             if not value:
                 value = self._DecodeValue(
-                    string_formatter, value_index, value_data, precision=precision
+                    string_formatter,
+                    value_index,
+                    value_data or b"",
+                    precision=precision,
                 )
 
             precision = None
@@ -3977,6 +4028,15 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data_virtual_offset = (
+            firehose_header.private_data_virtual_offset & 0x0FFF
+        )
+        if not private_data_virtual_offset:
+            chunk_private_data = b""
+        else:
+            private_data_size = 4096 - private_data_virtual_offset
+            chunk_private_data = chunk_data[-private_data_size:]
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
@@ -4159,21 +4219,12 @@ class TraceV3File(data_format.BinaryDataFile):
                         tracepoint_data_object, values_data, string_formatter
                     )
                 else:
-                    private_data_virtual_offset = (
-                        firehose_header.private_data_virtual_offset & 0x0FFF
-                    )
-                    if not private_data_virtual_offset:
-                        private_data = b""
-                    else:
-                        private_data_size = 4096 - private_data_virtual_offset
-                        private_data = chunk_data[-private_data_size:]
-
                     data_items, values_data, private_data = (
                         self._GetDataItemsAndValuesData(
                             proc_id,
                             tracepoint_data_object,
                             values_data,
-                            private_data,
+                            chunk_private_data,
                             oversize_chunks,
                         )
                     )
@@ -4306,7 +4357,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
@@ -4336,9 +4387,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             chunk_data_offset += alignment
 
-        private_data_size = len(private_data)
-        if private_data_size:
-            chunk_data_size -= private_data_size
+        chunk_data_size -= len(chunk_private_data)
 
         if self._debug and chunk_data_offset < chunk_data_size:
             self._DebugPrintData(
@@ -4580,6 +4629,11 @@ class TraceV3File(data_format.BinaryDataFile):
         )
         trace.number_of_values = tracepoint_data[-1]
 
+        if context.byte_size + 1 + trace.number_of_values > len(tracepoint_data):
+            raise errors.ParseError(
+                f"Number of values: {trace.number_of_values:d} out of bounds"
+            )
+
         if self._debug:
             debug_info = self._DEBUG_INFORMATION.get(
                 "tracev3_firehose_tracepoint_trace", None
@@ -4621,6 +4675,12 @@ class TraceV3File(data_format.BinaryDataFile):
             value_data = values_data[
                 value_data_offset : value_data_offset + value_data_size
             ]
+            if self._debug:
+                self._DebugPrintDecimalValue("Value size", value_data_size)
+                self._DebugPrintDecimalValue(
+                    "Integer value", int.from_bytes(value_data, "little", signed=False)
+                )
+
             value = self._DecodeValue(string_formatter, value_index, value_data)
 
             values.append(value)
@@ -4707,11 +4767,11 @@ class TraceV3File(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("tracev3_oversize_chunk")
             self._DebugPrintStructureObject(oversize_chunk, debug_info)
 
-        data_offset = context.byte_size
-        data_size = data_offset + oversize_chunk.data_size
-        oversize_chunk.values_data = chunk_data[data_offset:data_size]
+        # Note that the data size includes the data items, which are stored
+        # 32 bytes after the start of the chunk data.
+        data_offset = 32 + oversize_chunk.data_size
+        oversize_chunk.values_data = chunk_data[context.byte_size : data_offset]
 
-        data_offset += oversize_chunk.data_size
         data_size = data_offset + oversize_chunk.private_data_size
         oversize_chunk.private_data = chunk_data[data_offset:data_size]
 
@@ -4843,12 +4903,16 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
-
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            try:
+                library = library_data.decode("utf8")
+                decoder_type = decoder_type_data.decode("utf8")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode StateDump decoder with error: {exception!s}"
+                )
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
@@ -4894,6 +4958,7 @@ class TraceV3File(data_format.BinaryDataFile):
         Args:
           boot_identifier (str): boot identifier (UUID).
         """
+        self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_sync_records = []
 
@@ -4912,19 +4977,26 @@ class TraceV3File(data_format.BinaryDataFile):
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
+
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                        self._timesync_sync_records.append(record)
 
-                    self._timesync_sync_records.append(record)
+                    elif record_boot_identifier == boot_identifier:
+                        self._timesync_boot_record = record
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
+            if not self._timesync_boot_record.timebase_denominator:
+                raise errors.ParseError("Unsupported timesync timebase denominator: 0")
+
             self._timesync_timebase = (
                 self._timesync_boot_record.timebase_numerator
                 / self._timesync_boot_record.timebase_denominator
@@ -4946,10 +5018,15 @@ class TraceV3File(data_format.BinaryDataFile):
             if dsc_file:
                 dsc_file.Close()
 
+        self._cached_dsc_files.clear()
+
         for uuidtext_file in self._cached_uuidtext_files.values():
             if uuidtext_file:
                 uuidtext_file.Close()
 
+        self._cached_uuidtext_files.clear()
+        self._cached_image_values.clear()
+
         super().Close()
 
     def ReadFileObject(self, file_object):
@@ -4966,27 +5043,29 @@ class TraceV3File(data_format.BinaryDataFile):
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
         # * in ../../ for .logarchive/*/*.tracev3
         # * in ../../uuidtext/ for /private/var/db/diagnostics/*/*.tracev3
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+        self._timesync_path = None
+        self._uuidtext_path = None
+
         path_segments = self._file_system_helper.SplitPath(self._path)
 
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
+        for _ in range(2):
+            if not path_segments or path_segments[-1].lower().endswith(".logarchive"):
+                break
 
-        if not lower_last_path_segment.endswith(".logarchive"):
             path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
 
-        if lower_last_path_segment.endswith(".logarchive"):
+        if path_segments and path_segments[-1].lower().endswith(".logarchive"):
             path_segments.append("dsc")
             dsc_path = self._file_system_helper.JoinPath(path_segments)
+            path_segments.pop(-1)
+
             if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
                 self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
@@ -5031,7 +5110,10 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._log_entries_offset = file_offset
+
+        if not header_chunk.timebase_denominator:
+            raise errors.ParseError("Unsupported header timebase denominator: 0")
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
@@ -5090,7 +5172,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        file_offset = self._log_entries_offset
 
         oversize_chunks = {}
 
@@ -5102,6 +5184,9 @@ class TraceV3File(data_format.BinaryDataFile):
             chunk_header = self._ReadChunkHeader(self._file_object, file_offset)
             file_offset += 16
 
+            if chunk_header.chunk_data_size > self._file_size - file_offset:
+                raise errors.ParseError("Chunk data size value out of bounds")
+
             if chunk_header.chunk_tag == self._CHUNK_TAG_CATALOG:
                 self._catalog = self._ReadCatalog(
                     self._file_object, file_offset, chunk_header.chunk_data_size
-- 
2.43.0


From ea5fd5a8bc645dae00656da88e6f5a04b67af9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 39/69] fix: wmi_repository debug output of formatted offsets
 and page numbers failed with ValueError

---
 dtformats/wmi_repository.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..5f6070f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -697,7 +697,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1697,10 +1697,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,18 +2307,18 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2679,7 +2679,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3116,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
-- 
2.43.0


From 754ef29b86c49f2b1393769641c9c918b0728bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 40/69] fix: wmi_repository mapping table, index page and
 objects data reads were not bounded and object data offsets were relative to
 the descriptor

---
 dtformats/wmi_repository.py | 99 +++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 25 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 5f6070f..26412f3 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -5,7 +5,6 @@ import hashlib
 import logging
 import os
 
-from dtfabric import errors as dtfabric_errors
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
@@ -120,6 +119,13 @@ class ClassValueDataMap:
                     property_definition.value_data_offset,
                     value_data_size,
                 )
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 type_qualifier_lower = type_qualifier.lower()
                 if ":" in type_qualifier_lower:
                     type_qualifier_lower, _, _ = type_qualifier_lower.partition(":")
@@ -189,8 +195,16 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if the mapped page number is out of bounds.
         """
-        mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        try:
+            mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        except IndexError:
+            raise errors.ParseError(
+                f"Mapped page number: {mapped_page_number:d} value out of bounds."
+            )
         return mapping_table_entry.page_number
 
 
@@ -298,7 +312,40 @@ class PropertyValueDataMap:
         self.type_qualifier = None
 
 
-class IndexBinaryTreeFile(data_format.BinaryDataFile):
+class StructureReaderMixIn:
+    """Mix-in for reading structures at an offset defined by the data."""
+
+    def _ReadStructureFromByteStream(
+        self, byte_stream, file_offset, data_type_map, description, context=None
+    ):
+        """Reads a structure from a byte stream.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          file_offset (int): offset of the structure data relative to the start
+              of the file-like object.
+          data_type_map (dtfabric.DataTypeMap): data type map of the structure.
+          description (str): description of the structure.
+          context (Optional[dtfabric.DataTypeMapContext]): data type map context.
+
+        Returns:
+          object: structure values object.
+
+        Raises:
+          ParseError: if the structure cannot be read.
+        """
+        if not byte_stream:
+            raise errors.ParseError(
+                f"Missing {description:s} data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})"
+            )
+
+        return super()._ReadStructureFromByteStream(
+            byte_stream, file_offset, data_type_map, description, context=context
+        )
+
+
+class IndexBinaryTreeFile(StructureReaderMixIn, data_format.BinaryDataFile):
     """Index binary-tree (Index.btr) file."""
 
     # Using a class constant significantly speeds up the time required to load
@@ -365,11 +412,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
-        number_of_bytes = page_body.value_data_size * 2
-        self._DebugPrintValue(
-            "Value data size",
-            f"{page_body.value_data_size:d} ({number_of_bytes:d} bytes)",
-        )
+        self._DebugPrintValue("Value data size", f"{page_body.value_data_size:d} bytes")
         self._DebugPrintData("Value data", page_body.value_data)
 
     def _FormatIntegerAsPageNumber(self, integer):
@@ -445,7 +488,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
             if self._debug:
                 self._DebugPrintData(
-                    "Page body data", page_body_data[:page_data_offset]
+                    "Page body data", page_body_data[: context.byte_size]
                 )
 
             if self._debug:
@@ -473,6 +516,12 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Page key segment index: {segment_index:d} value out of "
+                            f"bounds."
+                        )
+
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
@@ -585,15 +634,12 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         ):
             # TODO: determine size
 
-            try:
-                value_string = self._STRING.MapByteStream(
-                    value_data[page_value_offset:]
-                )
-            except dtfabric_errors.MappingError as exception:
-                raise errors.ParseError(
-                    f"Unable to parse page value: {index:d} string with error: "
-                    f"{exception!s}"
-                )
+            value_string = self._ReadStructureFromByteStream(
+                value_data[page_value_offset:],
+                page_value_offset,
+                self._STRING,
+                f"page value: {index:d} string",
+            )
 
             if self._debug:
                 self._DebugPrintValue(f"Page value: {index:d} data", value_string)
@@ -937,7 +983,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
                 f"(0x{file_offset:08x})\n"
             )
 
-        object_descriptor_data = file_object.read(16)
+        object_descriptor_data = self._ReadData(
+            file_object, file_offset, 16, "object descriptor"
+        )
 
         if self._debug:
             self._DebugPrintData("Object descriptor data", object_descriptor_data)
@@ -954,7 +1002,7 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         setattr(
             object_descriptor,
             "data_file_offset",
-            file_offset + object_descriptor.data_offset,
+            file_offset - (file_offset % self._PAGE_SIZE) + object_descriptor.data_offset,
         )
         if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("cim_object_descriptor")
@@ -972,7 +1020,8 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object descriptor cannot be read.
         """
-        while True:
+        page_end_offset = objects_page.page_offset + self._PAGE_SIZE
+        while file_object.tell() < page_end_offset:
             object_descriptor = self._ReadObjectDescriptor(file_object)
             if not object_descriptor:
                 break
@@ -1053,8 +1102,6 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
-        self._file_object.seek(file_offset, os.SEEK_SET)
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading object record data segment at offset: {file_offset:d} "
@@ -1068,10 +1115,12 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        return self._ReadData(
+            self._file_object, file_offset, read_size, "object record data segment"
+        )
 
 
-class RepositoryFile(data_format.BinaryDataFile):
+class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
     """Repository file."""
 
     # Using a class constant significantly speeds up the time required to load
-- 
2.43.0


From 7225b637c6742090ee3c731be7a10d462f647a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 41/69] fix: wmi_repository cim.rep node cycles did not
 terminate and missing class definitions and instances were not handled

---
 dtformats/wmi_repository.py | 110 ++++++++++++++++++++++++++++++------
 1 file changed, 93 insertions(+), 17 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 26412f3..8759bd8 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1166,6 +1166,22 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    def _CheckNodeOffset(self, node_offset, parent_node_offsets):
+        """Checks if a node is not its own parent or predecessor.
+
+        Args:
+          node_offset (int): offset of the node relative to the start of the file.
+          parent_node_offsets (set[int]): offsets of the parent or previous nodes.
+
+        Raises:
+          ParseError: if the node is its own parent or predecessor.
+        """
+        if node_offset in parent_node_offsets:
+            raise errors.ParseError(
+                f"Node at offset: {node_offset:d} (0x{node_offset:08x}) refers to "
+                f"itself"
+            )
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1176,6 +1192,9 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
 
         Yields:
           int: element value offset.
+
+        Raises:
+          ParseError: if the child objects list cannot be read.
         """
         node_cell = self._ReadNodeCell(file_object, list_node_offset - 4)
         list_node = self._ReadChildObjectsListNode(node_cell.data, list_node_offset)
@@ -1183,7 +1202,13 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         list_element = 1
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
+        list_element_node_offsets = set()
         while next_list_element_node_offset > 40:
+            self._CheckNodeOffset(
+                next_list_element_node_offset, list_element_node_offsets
+            )
+            list_element_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1834,17 +1859,25 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=frozenset()
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[set[int]]): offsets of the parent root nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the class definition hierarchy cannot be read.
         """
+        self._CheckNodeOffset(root_node_offset, parent_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1876,7 +1909,8 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1884,7 +1918,9 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        parent_node_offsets=parent_node_offsets | {root_node_offset},
                     )
 
         if self._debug:
@@ -1907,7 +1943,7 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
               of the file.
 
         Returns:
-          Instance: instance.
+          Instance: instance or None if not available.
         """
         node_cell = self._ReadNodeCell(file_object, branch_node_offset - 4)
         instance_branch_node = self._ReadInstanceBranchNode(
@@ -1934,6 +1970,9 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1965,17 +2004,25 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=frozenset()
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[set[int]]): offsets of the parent root nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the instance hierarchy cannot be read.
         """
+        self._CheckNodeOffset(root_node_offset, parent_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -1990,7 +2037,8 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2030,6 +2078,9 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            parent_node_offsets=(
+                                parent_node_offsets | {root_node_offset}
+                            ),
                         )
 
         if self._debug:
@@ -2039,19 +2090,23 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        parent_node_offsets=frozenset(),
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2060,10 +2115,16 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          parent_node_offsets (Optional[set[int]]): offsets of the parent root nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the namespace instance hierarchy cannot be read.
         """
+        self._CheckNodeOffset(root_node_offset, parent_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2071,7 +2132,12 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            name_property = instance.properties.get("Name")
+            name_property = instance.properties.get("Name") if instance else None
+            if not isinstance(name_property, str):
+                raise errors.ParseError(
+                    f"Missing name of namespace at offset: {root_node_offset:d} "
+                    f"(0x{root_node_offset:08x})"
+                )
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
@@ -2098,6 +2164,9 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                parent_node_offsets=(
+                                    parent_node_offsets | {root_node_offset}
+                                ),
                             )
 
     def ReadClassDefinitions(self):
@@ -2106,7 +2175,7 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if self._system_class_definition_root_node_offset is not None:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2117,7 +2186,7 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset is not None:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2128,7 +2197,7 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset is not None:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
@@ -2170,12 +2239,19 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
             if node_cell.size == 0:
                 break
 
+            node_cell_size = node_cell.size & 0x7FFFFFF
+            if node_cell_size < 4:
+                raise errors.ParseError(
+                    f"Unsupported node cell size: {node_cell_size:d} at offset: "
+                    f"{file_offset:d} (0x{file_offset:08x})"
+                )
+
             if file_header.root_namespace_cell_number == cell_number:
                 self._root_namespace_node_offset = file_offset + 4
             elif file_header.system_class_cell_number == cell_number:
                 self._system_class_definition_root_node_offset = file_offset + 4
 
-            file_offset += node_cell.size & 0x7FFFFFF
+            file_offset += node_cell_size
             cell_number += 1
 
             if (
-- 
2.43.0


From 239717f247878e919c5f48e6fde5c70ea77dc3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 42/69] fix: wmi_repository property values of several CIM
 types could not be read and CIM object debug arguments were dropped

---
 dtformats/wmi_repository.py   | 42 +++++++++++++++++------------------
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8759bd8..cf1e3af 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2262,7 +2262,7 @@ class RepositoryFile(StructureReaderMixIn, data_format.BinaryDataFile):
                 break
 
 
-class CIMObject(data_format.BinaryDataFormat):
+class CIMObject(StructureReaderMixIn, data_format.BinaryDataFormat):
     """CIM object."""
 
     # Using a class constant significantly speeds up the time required to load
@@ -2740,7 +2740,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
@@ -2949,7 +2949,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -3015,7 +3015,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
@@ -3091,21 +3091,19 @@ class Instance(CIMObject):
         ("data", "Data", "_FormatDataInHexadecimal"),
     ]
 
-    _FIXED_SIZE_VALUE_DATA_TYPES = frozenset(
-        [
-            0x00000002,
-            0x00000003,
-            0x00000004,
-            0x00000005,
-            0x0000000B,
-            0x00000010,
-            0x00000011,
-            0x00000012,
-            0x00000013,
-            0x00000014,
-            0x00000015,
-        ]
-    )
+    _FIXED_SIZE_VALUE_DATA_TYPES = {
+        0x00000002: "property_value_sint16",
+        0x00000003: "property_value_sint32",
+        0x00000004: "property_value_real32",
+        0x00000005: "property_value_real64",
+        0x0000000B: "property_value_boolean",
+        0x00000010: "property_value_sint8",
+        0x00000011: "property_value_uint8",
+        0x00000012: "property_value_uint16",
+        0x00000013: "property_value_uint32",
+        0x00000014: "property_value_sint64",
+        0x00000015: "property_value_uint64",
+    }
 
     _STRING_VALUE_DATA_TYPES = frozenset([0x00000008, 0x00000065, 0x00000066])
 
@@ -3266,9 +3264,9 @@ class Instance(CIMObject):
             )
             property_value = None
             if property_value_data_map.data_type in self._FIXED_SIZE_VALUE_DATA_TYPES:
-                data_type_map_name = (
-                    f"property_value_{property_value_data_map.type_qualifier:s}"
-                )
+                data_type_map_name = self._FIXED_SIZE_VALUE_DATA_TYPES[
+                    property_value_data_map.data_type
+                ]
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
 
                 property_value = self._ReadStructureFromByteStream(
diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..bd7de2e 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -474,6 +474,14 @@ attributes:
   false_value: 0
   true_value: 0xffff
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
 name: property_value_uint8
 type: integer
 attributes:
@@ -482,6 +490,14 @@ attributes:
   size: 1
   units: bytes
 ---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
 name: property_value_uint16
 type: integer
 attributes:
@@ -506,6 +522,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
 name: property_value_uint64
 type: integer
 attributes:
@@ -514,6 +538,20 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From 953d540ef065276f9cd3e65fa95808aff13acab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 43/69] fix: wmi_repository CIM repository files could not be
 opened by path and broken keys and class chains did not raise ParseError

---
 dtformats/wmi_repository.py | 211 +++++++++++++++++++++---------------
 1 file changed, 124 insertions(+), 87 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index cf1e3af..440cecd 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3579,6 +3579,23 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return "".join(glob_parts)
 
+    def _FindFile(self, path, filename):
+        """Finds a file in the CIM repository.
+
+        Args:
+          path (str): path to the CIM repository.
+          filename (str): name of the file, which is matched case-insensitive.
+
+        Returns:
+          str: path of the file or None if not available.
+        """
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
+        # Note that JoinPath prefixes the path with a path separator.
+        path_with_glob = self._file_system_helper.JoinPath(
+            [glob.escape(os.path.abspath(path)), filename_as_glob]
+        )
+        return min(glob.glob(path_with_glob), default=None)
+
     def _GetActiveMappingFile(self, path):
         """Retrieves the active mapping file.
 
@@ -3615,28 +3632,20 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
-                f"mapping{mapping_file_number:d}.map"
+            # TODO: change to only read limited information.
+            mapping_file = self._OpenMappingFile(
+                path, f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
-            mapping_file_glob = glob.glob(path_with_glob)
-            if not mapping_file_glob:
+            if not mapping_file:
                 continue
 
-            if self._debug:
-                self._DebugPrintText(f"Reading: {mapping_file_glob[0]:s}\n")
-
-            mapping_file = MappingFile(
-                debug=self._debug, output_writer=self._output_writer
-            )
-            # TODO: change to only read limited information.
-            mapping_file.Open(mapping_file_glob[0])
+            # Note that the mapping tables remain available after closing the file.
+            mapping_file.Close()
 
-            if not active_mapping_file:
-                active_mapping_file = mapping_file
-                active_mapping_file_number = mapping_file_number
-            elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
+            if (
+                not active_mapping_file
+                or mapping_file.sequence_number > active_mapping_file.sequence_number
+            ):
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
@@ -3646,7 +3655,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         ):
             logging.warning("Mismatch in active mapping file number.")
 
-        if self._debug:
+        if self._debug and active_mapping_file:
             self._DebugPrintText(
                 f"Active mapping file: mapping{active_mapping_file_number:d}.map\n"
             )
@@ -3691,7 +3700,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ClassValueMap: class value map or None.
 
         Raises:
-          RuntimeError: if a class definition cannot be found.
+          ParseError: if a class definition cannot be found.
         """
         lookup_key = class_name_hash.lower()
 
@@ -3699,24 +3708,24 @@ class CIMRepository(data_format.BinaryDataFormat):
         if not class_value_data_map:
             class_definition = self._GetClassDefinitionByHash(class_name_hash)
             if not class_definition:
-                raise RuntimeError(
-                    (
-                        f"Unable to retrieve definition of class with hash: "
-                        f"{class_name_hash:s}"
-                    )
+                raise errors.ParseError(
+                    f"Unable to retrieve definition of class with hash: "
+                    f"{class_name_hash:s}"
                 )
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
-                    raise RuntimeError(
-                        (
-                            f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
-                        )
+                    raise errors.ParseError(
+                        f"Unable to retrieve definition of class with name: "
+                        f"{super_class_name:s}"
+                    )
+
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        f"Class with name: {super_class_name:s} is derived from itself"
                     )
 
                 class_definitions.append(class_definition)
@@ -3779,19 +3788,19 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreePage: an index binary-tree page or None.
 
         Raises:
-          RuntimeError: if the index first mapped page could not be determined.
+          ParseError: if the index first mapped page could not be determined.
         """
         page_number = self._index_mapping_table.ResolveMappedPageNumber(0)
 
         index_page = self._index_binary_tree_file.GetPage(page_number)
         if not index_page:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unable to determine first mapped index binary-tree page: "
                 f"{page_number:d}."
             )
 
         if index_page.page_type != 0xADDD:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unsupported first mapped index binary-tree page type: "
                 f"0x{index_page.page_type:04x}"
             )
@@ -3825,20 +3834,37 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return self._index_root_page
 
-    def _GetKeysFromIndexPage(self, index_page):
+    def _GetKeysFromIndexPage(self, index_page, parent_page_numbers=()):
         """Retrieves the keys from an index page.
 
+        Args:
+          index_page (IndexBinaryTreePage): an index binary-tree page or None.
+          parent_page_numbers (Optional[tuple[int]]): mapped page numbers of the
+              index page and its parents, excluding the root page.
+
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if an index page is its own parent.
         """
         if index_page:
             yield from index_page.keys
 
             for mapped_page_number in index_page.sub_pages:
+                if mapped_page_number in parent_page_numbers:
+                    raise errors.ParseError(
+                        f"Index binary-tree page: {mapped_page_number:d} is its own "
+                        f"parent."
+                    )
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                yield from self._GetKeysFromIndexPage(
+                    sub_index_page,
+                    parent_page_numbers=(*parent_page_numbers, mapped_page_number),
+                )
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
@@ -3898,6 +3924,11 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to find objects record: {record_identifier:d} with "
+                        f"data size: {data_size:d}."
+                    )
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
@@ -3974,22 +4005,17 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
-        index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
+        index_binary_tree_file_path = self._FindFile(path, "index.btr")
         if not index_binary_tree_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {index_binary_tree_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {index_binary_tree_file_path:s}\n")
 
         index_binary_tree_file = IndexBinaryTreeFile(
             debug=self._debug, output_writer=self._output_writer
         )
-        index_binary_tree_file.Open(index_binary_tree_file_path[0])
+        index_binary_tree_file.Open(index_binary_tree_file_path)
 
         return index_binary_tree_file
 
@@ -4003,18 +4029,15 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
-
-        mapping_file_path = glob.glob(mapping_file_glob)
+        mapping_file_path = self._FindFile(path, filename)
         if not mapping_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {mapping_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {mapping_file_path:s}\n")
 
         mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
-        mapping_file.Open(mapping_file_path[0])
+        mapping_file.Open(mapping_file_path)
 
         return mapping_file
 
@@ -4027,17 +4050,12 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
-        mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        mapping_version_file_path = glob.glob(mapping_version_file_glob)
+        mapping_version_file_path = self._FindFile(path, "mapping.ver")
         if not mapping_version_file_path:
             return None
 
         # pylint: disable=consider-using-with
-        return open(mapping_version_file_path[0], "rb")
+        return open(mapping_version_file_path, "rb")
 
     def _OpenObjectsDataFile(self, path):
         """Opens an objects data file.
@@ -4048,22 +4066,17 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
-        objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        objects_data_file_path = glob.glob(objects_data_file_glob)
+        objects_data_file_path = self._FindFile(path, "objects.data")
         if not objects_data_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {objects_data_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {objects_data_file_path:s}\n")
 
         objects_data_file = ObjectsDataFile(
             debug=self._debug, output_writer=self._output_writer
         )
-        objects_data_file.Open(objects_data_file_path[0])
+        objects_data_file.Open(objects_data_file_path)
 
         return objects_data_file
 
@@ -4076,21 +4089,17 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
-        repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-        repository_file_path = glob.glob(repository_file_glob)
+        repository_file_path = self._FindFile(path, "cim.rep")
         if not repository_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {repository_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {repository_file_path:s}\n")
 
         repository_file = RepositoryFile(
             debug=self._debug, output_writer=self._output_writer
         )
-        repository_file.Open(repository_file_path[0])
+        repository_file.Open(repository_file_path)
 
         return repository_file
 
@@ -4228,23 +4237,28 @@ class CIMRepository(data_format.BinaryDataFormat):
             yield name_hash, object_record
 
     def _ReadNamespacesFromObjectRecords(self):
-        """Reads namespaces from object records."""
+        """Reads namespaces from object records.
+
+        Raises:
+          ParseError: if the namespaces cannot be read.
+        """
         class_name_hash = self._GetHashFromString("__NAMESPACE")
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        # Note that a dictionary is used to preserve the order of the index keys.
+        parent_namespaces = {}
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
             key_segments = key.split(self._KEY_SEGMENT_SEPARATOR)
 
             key_segment = key_segments[1]
-            if not key_segment.startswith("NS_"):
+            if not key_segment.startswith("NS_") or len(key_segments) < 3:
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            parent_namespaces[namespace_hash] = True
 
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
@@ -4276,12 +4290,14 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
-        for _ in range(5):
-            unresolved_namespaces = set()
+        number_of_namespaces = None
+        while number_of_namespaces != len(parent_namespaces):
+            number_of_namespaces = len(parent_namespaces)
+            unresolved_namespaces = {}
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces[parent_namespace_hash] = True
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
@@ -4290,6 +4306,10 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not isinstance(name_property, str):
+                        raise errors.ParseError(
+                            f"Missing name of namespace in: {parent_namespace:s}"
+                        )
 
                     namespace = "\\".join([parent_namespace, name_property])
 
@@ -4319,6 +4339,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4379,6 +4403,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if not data_type:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
@@ -4388,6 +4415,9 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Args:
           path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be read.
         """
         basename = os.path.basename(path).lower()
 
@@ -4399,7 +4429,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             "objects.map",
         ):
             path = os.path.dirname(path)
-            self._OpenMappingFile(path, basename)
+            mapping_file = self._OpenMappingFile(path, basename)
+            if mapping_file:
+                mapping_file.Close()
 
             return
 
@@ -4417,6 +4449,11 @@ class CIMRepository(data_format.BinaryDataFormat):
             if not index_mapping_file:
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
+            else:
+                index_mapping_file.Close()
+
+            if not index_mapping_file:
+                raise errors.ParseError("Missing index mapping file.")
 
             self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
 
@@ -4425,9 +4462,6 @@ class CIMRepository(data_format.BinaryDataFormat):
             else:
                 self.format_version = "2.2"
 
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
 
             if basename == "index.btr":
@@ -4438,10 +4472,13 @@ class CIMRepository(data_format.BinaryDataFormat):
                 if not active_mapping_file:
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
+            else:
+                objects_mapping_file.Close()
 
-            self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
+            if not objects_mapping_file:
+                raise errors.ParseError("Missing objects mapping file.")
 
-            objects_mapping_file.Close()
+            self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             self._objects_data_file = self._OpenObjectsDataFile(path)
 
-- 
2.43.0


From 575c37b4e7dea8eccbd7b33e92a4c85536b807eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:05 +0000
Subject: [PATCH 44/69] fix: wmi_repository opening a CIM repository without
 Index.btr or Objects.data failed with AttributeError or RuntimeError

---
 dtformats/wmi_repository.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 440cecd..75143f1 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4463,6 +4463,8 @@ class CIMRepository(data_format.BinaryDataFormat):
                 self.format_version = "2.2"
 
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
+            if not self._index_binary_tree_file:
+                raise errors.ParseError("Missing index binary-tree file.")
 
             if basename == "index.btr":
                 return
@@ -4481,5 +4483,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             self._objects_data_file = self._OpenObjectsDataFile(path)
+            if not self._objects_data_file:
+                raise errors.ParseError("Missing objects data file.")
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From 4d77361075c1b937acc4ef14b103636c0dd0c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 45/69] fix: wmi_repository debug output of cim.rep instance
 branch nodes failed with TypeError

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..38067d4 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: hexadecimal_8digits
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From f911f4fd13c8694cda21e17ba61d743c0af37f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 46/69] fix: amcache file references, unnamed values, unsigned
 integers and values of another type could not be shown and damaged hives
 raised OSError

---
 dtformats/amcache.py | 71 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..627f932 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -71,7 +71,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
                 value_data = value.get_data_as_string()
 
             elif value.type in (4, 5, 11):
+                # Note that pyregf returns a signed integer.
                 value_data = value.get_data_as_integer()
+                value_data &= 0xFFFFFFFFFFFFFFFF if value.type == 11 else 0xFFFFFFFF
 
             elif value.type == 7:
                 value_data = list(value.get_data_as_multi_string())
@@ -82,13 +84,25 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         except (OSError, OverflowError) as exception:
             raise errors.ParseError(
                 (
-                    f"Unable to read data from value: {value.name:s} with error: "
+                    f"Unable to read data from value: {value.name!s} with error: "
                     f"{exception!s}"
                 )
             )
 
         return value_data
 
+    def _GetValueDescription(self, value, descriptions):
+        """Retrieves the description of a value.
+
+        Args:
+          value (pyregf_value): value.
+          descriptions (dict[str, str]): descriptions per value name.
+
+        Returns:
+          str: description.
+        """
+        return descriptions.get(value.name, value.name) or "(default)"
+
     def _ReadApplicationFileKey(self, application_file_key):
         """Reads an application file key.
 
@@ -99,8 +113,8 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application File: {application_file_key.name:s}\n")
 
         for value in application_file_key.values:
-            description = self._APPLICATION_FILE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+            description = self._GetValueDescription(
+                value, self._APPLICATION_FILE_KEY_DESCRIPTIONS
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -120,7 +134,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application: {application_key.name:s}\n")
 
         for value in application_key.values:
-            description = self._APPLICATION_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._GetValueDescription(
+                value, self._APPLICATION_KEY_DESCRIPTIONS
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
@@ -146,8 +162,8 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
           file_reference_key (pyregf_key): file reference key.
         """
         if self._debug:
-            if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
+            sequence_number, _, mft_entry = file_reference_key.name.partition("0000")
+            try:
                 mft_entry = int(mft_entry, 16)
                 sequence_number = int(sequence_number, 16)
                 self._DebugPrintText(
@@ -156,16 +172,20 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
                         f"({mft_entry:d}-{sequence_number:d})\n"
                     )
                 )
-            else:
+            except ValueError:
                 self._DebugPrintText(f"File: {file_reference_key.name:s}\n")
 
         for value in file_reference_key.values:
-            description = self._FILE_REFERENCE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+            description = self._GetValueDescription(
+                value, self._FILE_REFERENCE_KEY_DESCRIPTIONS
             )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
+                if not isinstance(value_data, int):
+                    self._DebugPrintValue(description, value_data)
+                    continue
+
                 if value.name == "d":
                     major_version = value_data >> 16
                     minor_version = value_data & 0xFFFF
@@ -209,15 +229,17 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Program: {program_key.name:s}\n")
 
         for value in program_key.values:
-            description = self._PROGRAM_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._GetValueDescription(
+                value, self._PROGRAM_KEY_DESCRIPTIONS
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name in ("7", "d", "Files"):
+                if value.name in ("7", "d", "Files") and isinstance(value_data, list):
                     for string_value in value_data:
                         self._DebugPrintValue(description, string_value)
                         description = ""
-                elif value.name in ("a", "b"):
+                elif value.name in ("a", "b") and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
@@ -234,21 +256,22 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         for program_key in programs_key.sub_keys:
             self._ReadProgramKey(program_key)
 
-    def ReadFileObject(self, file_object):
-        """Reads a Windows AMCache file-like object.
+    def _ReadRegistryFile(self, file_object):
+        """Reads a Windows NT Registry file.
 
         Args:
           file_object (file): file-like object.
 
         Raises:
+          OSError: if the Windows NT Registry file cannot be read.
           ParseError: if the file cannot be read.
         """
         regf_file = pyregf.file()
         regf_file.open_file_object(file_object)
 
         root_key = regf_file.get_root_key()
-        root_key_name = root_key.get_name()
-        if root_key_name.lower() not in self._ROOT_KEY_NAMES:
+        root_key_name = root_key.get_name() if root_key else None
+        if not root_key_name or root_key_name.lower() not in self._ROOT_KEY_NAMES:
             return
 
         root_key = regf_file.get_key_by_path("\\Root")
@@ -272,3 +295,19 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             )
             if inventory_application_file_key:
                 self._ReadInventoryApplicationFileKey(inventory_application_file_key)
+
+    def ReadFileObject(self, file_object):
+        """Reads a Windows AMCache file-like object.
+
+        Args:
+          file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the file cannot be read.
+        """
+        try:
+            self._ReadRegistryFile(file_object)
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to read Windows NT Registry file with error: {exception!s}"
+            )
-- 
2.43.0


From 71661fd09350c448f089aca17846760428290172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 47/69] fix: cpio.py --hash raised an exception after the first
 archive, for more than one file entry and in debug mode

---
 scripts/cpio.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..5e99892 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -90,8 +90,11 @@ class CPIOArchiveFileHasher:
             cpio_file_object = None
 
             if file_type == "cpio":
-                file_object.seek(file_offset, os.SEEK_SET)
-                cpio_file_object = file_object
+                cpio_file_object = data_range.DataRange(
+                    file_object,
+                    data_offset=file_offset,
+                    data_size=file_size - file_offset,
+                )
             elif file_type in ("bzip", "gzip", "xz"):
                 compressed_data_size = file_size - file_offset
                 compressed_data_file_object = data_range.DataRange(
@@ -107,10 +110,15 @@ class CPIOArchiveFileHasher:
                 elif file_type == "xz" and lzma:
                     cpio_file_object = lzma.LZMAFile(compressed_data_file_object)
 
-            cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
+            cpio_archive_file = cpio.CPIOArchiveFile(
+                debug=self._debug, output_writer=self._output_writer
+            )
             cpio_archive_file.ReadFileObject(cpio_file_object)
 
-            for file_entry in sorted(cpio_archive_file.GetFileEntries()):
+            for file_entry in sorted(
+                cpio_archive_file.GetFileEntries(),
+                key=lambda file_entry: file_entry.path,
+            ):
                 if file_entry.data_size == 0:
                     continue
 
@@ -123,14 +131,16 @@ class CPIOArchiveFileHasher:
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
+            if file_type != "cpio":
+                # The compressed data takes up the remainder of the file.
+                return
+
             file_offset += cpio_archive_file.size
 
             padding_size = file_offset % 16
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
-
 
 def Main():
     """The main program function.
-- 
2.43.0


From f082de5551b0a1406dc749b36f27cf5b10b1abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 48/69] fix: decode_nskeyedarchiver_plist.py only returned the
 last element of a set and failed on an empty set

---
 scripts/decode_nskeyedarchiver_plist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..5ccb819 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -186,11 +186,14 @@ class NSKeyedArchiverDecoder:
             plist_uid = self._GetPlistUID(value_object)
             referenced_object = objects_list[plist_uid]
 
-            decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            if isinstance(referenced_object, dict):
+                decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            else:
+                decoded_element = self._DecodeObject(referenced_object, objects_list)
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
-- 
2.43.0


From 3ba3242b142ad6b3333c0740c64b853fb4cb879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 49/69] fix: unified_logging.py --format json wrote invalid
 JSON for control characters and unescaped sub systems, categories, signpost
 names and sender paths

---
 scripts/unified_logging.py | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..8ea96f3 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -3,8 +3,8 @@
 
 import argparse
 import heapq
+import json
 import logging
-import re
 import sys
 
 from dfdatetime import posix_time as dfdatetime_posix_time
@@ -59,6 +59,18 @@ class LogEntriesHeap:
         heapq.heappush(self._heap, log_entry)
 
 
+def EscapeJSONString(string):
+    """Escapes a string for JSON output.
+
+    Args:
+      string (str): string.
+
+    Returns:
+      str: escaped string, without enclosing quotes.
+    """
+    return json.dumps(string, ensure_ascii=False)[1:-1].replace("/", "\\/")
+
+
 def GetDateTimeString(timestamp):
     """Determines the date and time string.
 
@@ -241,8 +253,6 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        escape_regex = re.compile(r'([\\/"])', re.MULTILINE)
-
         if options.format == "json":
             print("[{")
         else:
@@ -264,18 +274,16 @@ def Main():
 
             if options.format == "json":
                 boot_identifier = str(log_entry.boot_identifier).upper()
-                category = log_entry.category or ""
+                category = EscapeJSONString(log_entry.category or "")
                 event_type = log_entry.event_type or ""
-                sub_system = log_entry.sub_system or ""
+                sub_system = EscapeJSONString(log_entry.sub_system or "")
 
                 event_message = log_entry.event_message or ""
                 event_message = event_message.rstrip()
                 if len(event_message) >= 1085:
                     event_message = "".join([event_message[:1087], "<…>"])
 
-                event_message = escape_regex.sub(r"\\\1", event_message)
-                event_message = event_message.replace("\n", "\\n")
-                event_message = event_message.replace("\t", "\\t")
+                event_message = EscapeJSONString(event_message)
 
                 creator_activity_identifier = log_entry.creator_activity_identifier
 
@@ -284,10 +292,7 @@ def Main():
                     # is empty.
                     format_string = ""
                 else:
-                    format_string = log_entry.format_string or ""
-                    format_string = escape_regex.sub(r"\\\1", format_string)
-                    format_string = format_string.replace("\n", "\\n")
-                    format_string = format_string.replace("\t", "\\t")
+                    format_string = EscapeJSONString(log_entry.format_string or "")
 
                 process_image_identifier = ""
                 if log_entry.process_image_identifier:
@@ -295,8 +300,9 @@ def Main():
                         log_entry.process_image_identifier
                     ).upper()
 
-                process_image_path = log_entry.process_image_path or ""
-                process_image_path = escape_regex.sub(r"\\\1", process_image_path)
+                process_image_path = EscapeJSONString(
+                    log_entry.process_image_path or ""
+                )
 
                 sender_image_identifier = ""
                 if log_entry.sender_image_identifier:
@@ -304,9 +310,7 @@ def Main():
                         log_entry.sender_image_identifier
                     ).upper()
 
-                sender_image_path = log_entry.sender_image_path or ""
-                sender_image_path = sender_image_path.replace('"', '\\"')
-                sender_image_path = sender_image_path.replace("/", "\\/")
+                sender_image_path = EscapeJSONString(log_entry.sender_image_path or "")
 
                 if event_type == "timesyncEvent":
                     lines = [
@@ -458,7 +462,7 @@ def Main():
                         )
 
                     elif log_entry.signpost_identifier is not None:
-                        signpost_name = log_entry.signpost_name or ""
+                        signpost_name = EscapeJSONString(log_entry.signpost_name or "")
 
                         lines.append(f'  "signpostName" : "{signpost_name:s}",')
 
-- 
2.43.0


From 348a607458ce1f9ca67ae5d5160d4071ce13b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 50/69] fix: show WMI instances with a Name property that is
 not a string

---
 scripts/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index 071b778..f3a0a35 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -23,7 +23,7 @@ def PrintInstance(instance):
     dynasty = instance.dynasty or ""
 
     if name_property:
-        relpath = f'{instance.class_name:s}.Name="{name_property:s}"'
+        relpath = f'{instance.class_name:s}.Name="{name_property!s}"'
     else:
         relpath = f"{instance.class_name:s}=@"
 
-- 
2.43.0


From d2b92512d74880580111f4ad13bf03cbc3739b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 51/69] fix: show missing items, lists, dates and time zones in
 the Spotlight store script

---
 scripts/spotlight_storedb.py | 59 ++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..08cbb94 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -77,13 +77,53 @@ def GetDateTimeString(timestamp):
     if timestamp is None:
         return "YYYY-MM-DD hh:ss:mm +####"
 
-    date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
-    iso8601_string = date_time.CopyToDateTimeStringISO8601()
+    iso8601_string = None
+    # Larger values, such as a date in the distant future, are not a date and time.
+    if timestamp < 7500000000.0:
+        try:
+            date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
+            iso8601_string = date_time.CopyToDateTimeStringISO8601()
+        except (OverflowError, ValueError):
+            pass
+
+    if not iso8601_string:
+        return f"{timestamp!s}"
+
     return "".join(
-        [iso8601_string[:10], " ", iso8601_string[11:26], " ", iso8601_string[33:35]]
+        [
+            iso8601_string[:10],
+            " ",
+            iso8601_string[11:26],
+            " ",
+            iso8601_string[26:29],
+            iso8601_string[30:32],
+        ]
     )
 
 
+def GetValueString(value_type, value):
+    """Determines the string of a metadata attribute value.
+
+    Args:
+      value_type (int): metadata attribute value type.
+      value (object): metadata attribute value.
+
+    Returns:
+      str: string of the value.
+    """
+    if value_type in (0x0B, 0x0C) and isinstance(value, (list, tuple)):
+        value_strings = [GetValueString(value_type, element) for element in value]
+        return "".join(["(", ", ".join(value_strings), ")"])
+
+    if value_type == 0x0B:
+        return f'"{value!s}"'
+
+    if value_type == 0x0C:
+        return GetDateTimeString(value)
+
+    return f"{value!s}"
+
+
 class TableView:
     """Table view."""
 
@@ -335,19 +375,14 @@ def Main():
                     metadata_attribute = metadata_item.attributes.get(lookup_name)
                     if not metadata_attribute:
                         value_string = "(null)"
-
-                    elif metadata_attribute.value_type == 0x0B:
-                        value_string = f'"{metadata_attribute.value:s}"'
-
-                    elif metadata_attribute.value_type == 0x0C:
-                        value_string = GetDateTimeString(metadata_attribute.value)
-
                     else:
-                        value_string = f"{metadata_attribute.value!s}"
+                        value_string = GetValueString(
+                            metadata_attribute.value_type, metadata_attribute.value
+                        )
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From 7e87f4447f2b64869a714fcb80eef932a5dd593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:39 +0000
Subject: [PATCH 52/69] fix: show invalid FAT times and file attribute flags in
 the jump list script

---
 scripts/jump_list.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index d259775..e255645 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -55,8 +55,12 @@ class StdoutWriter(output_writers.StdoutWriter):
         if not value:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_fat_date_time.FATDateTime(fat_date_time=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            try:
+                date_time = dfdatetime_fat_date_time.FATDateTime(fat_date_time=value)
+                date_time_string = date_time.CopyToDateTimeString()
+            except ValueError:
+                date_time_string = None
+
             if not date_time_string:
                 date_time_string = f"0x{value:04x}"
 
@@ -257,7 +261,7 @@ class StdoutWriter(output_writers.StdoutWriter):
         self.WriteValue("\t\t\tModification time", date_time_string)
 
         self.WriteValue(
-            "\t\t\tFile attribute flags", f"0x08{fwsi_item.file_attribute_flags:08x}"
+            "\t\t\tFile attribute flags", f"0x{fwsi_item.file_attribute_flags:08x}"
         )
 
         self.WriteValue("\t\t\tName", fwsi_item.name)
-- 
2.43.0


From 07a8e0dc212f7378b7c3da8c19735a6543c91584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:28 +0000
Subject: [PATCH 53/69] fix: LevelDB script failed for files of less than 8
 bytes

---
 scripts/leveldb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..3efc53f 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -84,7 +84,8 @@ def Main():
         return False
 
     try:
-        file_object.seek(-8, os.SEEK_END)
+        file_object.seek(0, os.SEEK_END)
+        file_object.seek(max(0, file_object.tell() - 8), os.SEEK_SET)
         file_signature = file_object.read(8)
     finally:
         file_object.close()
-- 
2.43.0


From f03d4028c20ac0fbb237284de210715fceba532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 54/69] fix: LevelDB and IndexedDB scripts did not read files
 from a storage media image

---
 scripts/indexeddb.py |  4 +++-
 scripts/leveldb.py   | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 3efc53f..aaf3fc4 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -94,17 +94,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From 6a96e6fc60b79abc460832a3a572254263379caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 55/69] fix: opening a file missing in a storage media image
 raised AttributeError

---
 dtformats/data_format.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 20b17cb..e551790 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -904,15 +904,18 @@ class BinaryDataFile(BinaryDataFormat):
           path (str): path to the file.
 
         Raises:
-          OSError: if the file is already opened.
+          OSError: if the file is already opened or cannot be opened.
         """
         if self._file_object:
             raise OSError("File already opened")
 
         self._file_size = self._file_system_helper.GetFileSizeByPath(path)
-        self._path = path
 
         file_object = self._file_system_helper.OpenFileByPath(path)
+        if not file_object:
+            raise OSError(f"Unable to open file: {path:s}")
+
+        self._path = path
 
         try:
             self.ReadFileObject(file_object)
-- 
2.43.0


From dd053677dd13ef0a7592b7fe6ae732f2b1b63317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:11 +0000
Subject: [PATCH 56/69] fix: gzip member strings without a terminator take
 cubic time to reject

---
 dtformats/gzipfile.py | 52 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 2d5af11..55165b4 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -56,6 +56,44 @@ class GZipFile(data_format.BinaryDataFile):
             )
         return data, zlib_decompressor.unused_data
 
+    def _ReadCString(self, file_object, description):
+        """Reads a string.
+
+        Args:
+          file_object (file): file-like object.
+          description (str): description of the string.
+
+        Returns:
+          str: string.
+
+        Raises:
+          ParseError: if the string cannot be read.
+        """
+        file_offset = file_object.tell()
+
+        data_segments = []
+        terminator_index = -1
+        while terminator_index == -1:
+            data_segment = file_object.read(self._BUFFER_SIZE)
+            if not data_segment:
+                raise errors.ParseError(
+                    f"Unable to read {description:s} at offset: {file_offset:d} "
+                    f"(0x{file_offset:08x}) with error: missing terminator"
+                )
+            terminator_index = data_segment.find(b"\x00")
+            if terminator_index != -1:
+                data_segment = data_segment[: terminator_index + 1]
+            data_segments.append(data_segment)
+
+        data = b"".join(data_segments)
+        file_object.seek(file_offset + len(data), os.SEEK_SET)
+
+        data_type_map = self._GetDataTypeMap("cstring")
+
+        return self._ReadStructureFromByteStream(
+            data, file_offset, data_type_map, description
+        )
+
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
 
@@ -143,23 +181,13 @@ class GZipFile(data_format.BinaryDataFile):
             file_object.seek(extra_field_data_size, os.SEEK_CUR)
 
         if member_header.flags & self._FLAG_FNAME:
-            file_offset = file_object.tell()
-            data_type_map = self._GetDataTypeMap("cstring")
-
-            value_string, _ = self._ReadStructureFromFileObject(
-                file_object, file_offset, data_type_map, "original filename"
-            )
+            value_string = self._ReadCString(file_object, "original filename")
 
             if self._debug:
                 self._DebugPrintValue("Original filename", value_string)
 
         if member_header.flags & self._FLAG_FCOMMENT:
-            file_offset = file_object.tell()
-            data_type_map = self._GetDataTypeMap("cstring")
-
-            value_string, _ = self._ReadStructureFromFileObject(
-                file_object, file_offset, data_type_map, "comment"
-            )
+            value_string = self._ReadCString(file_object, "comment")
 
             if self._debug:
                 self._DebugPrintValue("Comment", value_string)
-- 
2.43.0


From ae1627ee5fb6026036c0327b792d5269b80bf83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 57/69] fix: jump list category footer before the stated number
 of entries repeats without progress

---
 dtformats/jump_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index a95a7ec..af3652c 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -524,6 +524,10 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
                 file_object.seek(file_offset, os.SEEK_SET)
 
+                # The category can contain less entries than the header states.
+                if entry_header.guid[:4] == self._CATEGORY_FOOTER_SIGNATURE:
+                    break
+
             self._ReadCategoryFooter(file_object)
 
             file_offset += 4
-- 
2.43.0


From ad806b1f44567de542a1cdb89b4f5f4534ebb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:19 +0000
Subject: [PATCH 58/69] fix: debug output of a Safari cookie with a timestamp
 that is out of range fails

---
 dtformats/safari_cookies.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index aae241b..94b3a0e 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,25 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        self._DebugPrintTimestamp("Expiration time", record_header.expiration_time)
+        self._DebugPrintTimestamp("Creation time", record_header.creation_time)
         self._DebugPrintText("\n")
 
+    def _DebugPrintTimestamp(self, description, timestamp):
+        """Prints timestamp debug information.
+
+        Args:
+          description (str): description.
+          timestamp (float): number of seconds since January 1, 2001.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+            self._DebugPrintValue(description, f"{date_time!s} ({timestamp:f})")
+        except (OverflowError, ValueError):
+            self._DebugPrintValue(description, f"{timestamp:f}")
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 7649b36e41064effcf0c8194c978ec9803cd8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:02 +0000
Subject: [PATCH 59/69] fix: cpio entries with negative sizes or a path that is
 not ASCII raise an error other than ParseError or do not end

---
 dtformats/cpio.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..a882897 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -211,6 +211,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 8)
+                    if value < 0:
+                        raise ValueError("Invalid negative value")
                 except ValueError:
                     raise errors.ParseError(
                         (
@@ -226,6 +228,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 16)
+                    if value < 0:
+                        raise ValueError("Invalid negative value")
                 except ValueError:
                     raise errors.ParseError(
                         (
@@ -239,15 +243,16 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
 
         file_offset += file_entry.path_size
 
-        # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        path = path_data.decode("utf-8", errors="backslashreplace")
         path, _, _ = path.partition("\x00")
 
         if self._debug:
@@ -384,7 +389,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From beea526014283ea264ffd4634386eea03b1a59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 60/69] fix: restore point logs with a record size smaller than
 the record raise ValueError

---
 dtformats/rp_change_log.py | 8 ++++++--
 dtformats/rp_log.py        | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 058efaf..05a6958 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -335,7 +337,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 2e7903b..7ec5c94 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,9 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
         if self._debug:
             self._DebugPrintData("Unknown1", data)
 
-- 
2.43.0


From aedf93448d0c3a96388d2b78504b5e61140a6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 61/69] fix: fseventsd files that are not valid gzip files
 raise OSError

---
 dtformats/fseventsd.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..980f022 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -103,11 +104,22 @@ class FseventsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         gzipf_file = pygzipf.file()
-        gzipf_file.open_file_object(file_object)
+        try:
+            gzipf_file.open_file_object(file_object)
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to open gzip file with error: {exception!s}"
+            )
 
         try:
             file_offset = 0
-            file_size = gzipf_file.get_uncompressed_data_size()
+            try:
+                file_size = gzipf_file.get_uncompressed_data_size()
+            except OSError as exception:
+                raise errors.ParseError(
+                    f"Unable to retrieve uncompressed data size with error: "
+                    f"{exception!s}"
+                )
 
             while file_offset < file_size:
                 page_header, bytes_read = self._ReadDLSPageHeader(
-- 
2.43.0


From e272e851c5dcb8344aa8b5fb3f13e643a9ae10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:41 +0000
Subject: [PATCH 62/69] fix: sizes of trailing data in the file are not checked
 before reading

---
 dtformats/keychain.py          | 3 +++
 dtformats/safari_cookies.py    | 4 +++-
 dtformats/spotlight_storedb.py | 8 ++++++--
 dtformats/unified_logging.py   | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 1d2f855..4542e94 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -852,6 +852,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
+            trailing_data_size = min(trailing_data_size, self._file_size - file_offset)
 
             if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
@@ -930,6 +931,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
+            trailing_data_size = min(trailing_data_size, self._file_size - file_offset)
 
             if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
@@ -994,6 +996,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
+            trailing_data_size = min(trailing_data_size, self._file_size - file_offset)
 
             if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 94b3a0e..48da691 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -146,7 +146,9 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
-        page_sizes_data = file_object.read(page_sizes_data_size)
+        page_sizes_data = self._ReadData(
+            file_object, file_offset, page_sizes_data_size, "page sizes"
+        )
 
         if self._debug:
             self._DebugPrintData("Page sizes data", page_sizes_data)
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 3bc6093..1da1381 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -755,7 +755,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if self._debug:
-            trailing_data_size = max(0, file_header.map_offset - file_header_size)
+            trailing_data_end_offset = min(file_header.map_offset, self._file_size)
+            trailing_data_size = max(0, trailing_data_end_offset - file_header_size)
             trailing_data = file_object.read(trailing_data_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
@@ -986,7 +987,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
-            page_data = file_object.read(page_data_size)
+            file_offset = file_object.tell()
+            page_data = file_object.read(
+                max(0, min(page_data_size, self._file_size - file_offset))
+            )
             self._DebugPrintData("Page data", page_data)
 
         return page_header
diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b79b524..0837d03 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3631,7 +3631,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         if self._debug:
             file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
+            sub_chunks_data = file_object.read(max(0, chunk_data_size - bytes_read))
             self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
-- 
2.43.0


From 214d27193d71e78407737b4ccb0db79d10e8c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 63/69] fix: reading a structure from an empty byte stream
 raises ValueError instead of ParseError

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index e551790..ac76e1c 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -670,7 +670,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From 6b82b1cbcde8642a3fe73948e384404a193fcf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 64/69] fix: an Apple System Log record that refers to itself
 as next record is read endlessly

---
 dtformats/asl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..b5712f2 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -259,7 +259,14 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         if file_header.first_log_entry_offset > 0:
             file_offset = file_header.first_log_entry_offset
+            record_offsets = set()
             while file_offset < self._file_size:
+                if file_offset in record_offsets:
+                    raise errors.ParseError(
+                        f"Record at offset: 0x{file_offset:08x} already read"
+                    )
+                record_offsets.add(file_offset)
+
                 file_offset = self._ReadRecord(file_object, file_offset)
                 if file_offset == 0:
                     break
-- 
2.43.0


From a83cccc4ccf5924e5bbd8734eb71f68812ab7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 65/69] fix: vhdx header without the format version values

---
 dtformats/vhdx.yaml | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dtformats/vhdx.yaml b/dtformats/vhdx.yaml
index 48ce281..2bcbdac 100644
--- a/dtformats/vhdx.yaml
+++ b/dtformats/vhdx.yaml
@@ -18,6 +18,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: uint16
+type: integer
+attributes:
+  format: unsigned
+  size: 2
+  units: bytes
+---
 name: uint32
 type: integer
 attributes:
@@ -78,6 +85,10 @@ members:
   type: uuid
 - name: log_identifier
   type: uuid
+- name: log_format_version
+  data_type: uint16
+- name: format_version
+  data_type: uint16
 - name: log_size
   data_type: uint32
 - name: log_offset
-- 
2.43.0


From 1f086059006a6898fe3668e2abe13124c4a7042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:23 +0000
Subject: [PATCH 66/69] fix: Close a WMI repository when Open fails so that it
 can be opened again

---
 dtformats/wmi_repository.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 75143f1..1c23dd9 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4413,6 +4413,21 @@ class CIMRepository(data_format.BinaryDataFormat):
     def Open(self, path):
         """Opens the CIM repository.
 
+        Args:
+          path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be read.
+        """
+        try:
+            self._OpenPath(path)
+        except Exception:
+            self.Close()
+            raise
+
+    def _OpenPath(self, path):
+        """Opens the CIM repository files.
+
         Args:
           path (str): path to the CIM repository or an individual file.
 
-- 
2.43.0


From 27d7c0ae8cb6faeb20a4b7507946e85e33748ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:18 +0000
Subject: [PATCH 67/69] fix: report a missing source with --image

---
 scripts/indexeddb.py         | 14 +++++++-------
 scripts/jump_list.py         | 14 +++++++-------
 scripts/leveldb.py           | 14 +++++++-------
 scripts/spotlight_storedb.py | 14 +++++++-------
 scripts/unified_logging.py   | 14 +++++++-------
 5 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 318bfd2..c2b7146 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -48,6 +48,13 @@ def Main():
 
     options = argument_parser.parse_args()
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
     if dfvfs_helpers and getattr(options, "image", None):
@@ -58,13 +65,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index e255645..26d9ae9 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -497,6 +497,13 @@ def Main():
 
     options = argument_parser.parse_args()
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return 1
+
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
     if dfvfs_helpers and getattr(options, "image", None):
@@ -507,13 +514,6 @@ def Main():
             return 1
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return 1
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = StdoutWriter()
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index aaf3fc4..7761cf5 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -49,6 +49,13 @@ def Main():
 
     options = argument_parser.parse_args()
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
     if dfvfs_helpers and getattr(options, "image", None):
@@ -59,13 +66,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 08cbb94..0ff9cc9 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -243,6 +243,13 @@ def Main():
 
     options = argument_parser.parse_args()
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
     if dfvfs_helpers and getattr(options, "image", None):
@@ -253,13 +260,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 8ea96f3..6a29ac3 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -140,6 +140,13 @@ def Main():
     )
     options = argument_parser.parse_args()
 
+    if not options.source:
+        print("Source file missing.")
+        print("")
+        argument_parser.print_help()
+        print("")
+        return False
+
     logging.basicConfig(level=logging.INFO, format="[%(levelname)s] %(message)s")
 
     if dfvfs_helpers and getattr(options, "image", None):
@@ -150,13 +157,6 @@ def Main():
             return False
 
     else:
-        if not options.source:
-            print("Source file missing.")
-            print("")
-            argument_parser.print_help()
-            print("")
-            return False
-
         file_system_helper = file_system.NativeFileSystemHelper()
 
     output_writer = output_writers.StdoutWriter()
-- 
2.43.0


From 5c11050080d6c9b5322b91c0d1d4cb86fb8f1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 68/69] fix: wmi_repository instances and namespaces of a
 mapping file failed with AttributeError

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 1c23dd9..6109b82 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4352,7 +4352,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         if self._repository_file:
             yield from self._repository_file.ReadInstances()
 
-        else:
+        elif self._objects_data_file:
             for _, object_record in self._ReadInstanceObjectRecords():
                 instance_reference = InstanceReference(
                     self.format_version,
@@ -4372,7 +4372,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         if self._repository_file:
             yield from self._repository_file.ReadNamespaces()
 
-        else:
+        elif self._objects_data_file:
             if not self._namespace_instances:
                 self._ReadNamespacesFromObjectRecords()
 
-- 
2.43.0


From 47f793efb770b00058f869af9ae0ddf79b5103f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 69/69] fix: keychain.py schema columns without an identifier,
 name or data type failed with TypeError

---
 scripts/keychain.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scripts/keychain.py b/scripts/keychain.py
index cf0ced9..139490b 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -100,14 +100,21 @@ def Main():
             print("\tColumn\tIdentifier\tName\tType")
 
             for index, column in enumerate(table.columns):
-                if column.attribute_identifier >= number_of_columns:
+                if (
+                    column.attribute_identifier is None
+                    or column.attribute_identifier >= number_of_columns
+                ):
                     attribute_identifier = ""
                 else:
                     attribute_identifier = f"{column.attribute_identifier:d}"
 
-                attribute_data_type = ATTRIBUTE_DATA_TYPES.get(
-                    column.attribute_data_type, f"0x{column.attribute_data_type:08x}"
-                )
+                if column.attribute_data_type is None:
+                    attribute_data_type = "NULL"
+                else:
+                    attribute_data_type = ATTRIBUTE_DATA_TYPES.get(
+                        column.attribute_data_type,
+                        f"0x{column.attribute_data_type:08x}",
+                    )
 
                 attribute_name = column.attribute_name or "NULL"
                 print(
@@ -130,7 +137,11 @@ def Main():
                 )
             )
 
-            print("\t".join([column.attribute_name for column in table.columns]))
+            print(
+                "\t".join(
+                    [column.attribute_name or "NULL" for column in table.columns]
+                )
+            )
 
             for record in table.records:
                 record_values = []
-- 
2.43.0

