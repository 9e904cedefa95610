From 720238c9651183a96460ebc528421ed072d68c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 01/67] fix: end the intersection of window and abs_window at
 the earlier end

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..c5425e2 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
-- 
2.43.0


From 6647231c47d5f755f4a3b69c63d3308d65a3cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 02/67] fix: a window that ends at time 0 is not an open window

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c5425e2..2187bc1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From 2d9c6306db95026ecafe4f22187108b375e248f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 03/67] fix: remove an empty array also at the end of a line

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2187bc1..6f04235 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -437,7 +437,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From e7816d9ad4bcfc0bd0273116b3cd56546f93f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 04/67] fix: find array lengths also when the first line of an
 event has no array

---
 trappy/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..ecf6e90 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -157,10 +157,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From 7366c4de1f05325235af6ae416676b655faf61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 05/67] fix: header values absent from the trace are None also
 when read from the cache

---
 trappy/ftrace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 6f04235..f98863c 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -951,5 +951,5 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
-        for key, value in metadata.items():
-            setattr(self, "_" + key, value)
+        for key in ["version", "cpus"]:
+            setattr(self, "_" + key, metadata.get(key))
-- 
2.43.0


From 6445004ab6e2efaf4dc0ec012b286f6f8defef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 06/67] fix: lines of an event read from the cache do not go to
 another event

---
 trappy/ftrace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f98863c..1a1aadc 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -432,7 +432,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # Now that we know the basetime, we can derive max_window
                     self.max_window = self._calc_max_window()
 
-                if trace_class:
+                # Lines of events that were read from the cache are dispatched
+                # too, otherwise they would end up in the fallback event
+                if trace_class and not trace_class.cached:
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
@@ -483,9 +485,6 @@ is part of the trace.
         cls_for_unique_word = {}
         for trace_name in self.class_definitions.keys():
             trace_class = getattr(self, trace_name)
-            if trace_class.cached:
-                continue
-
             unique_word = trace_class.unique_word
             if unique_word in cls_for_unique_word:
                 # This means TRAPpy has a nasty bug, like the one fixed in
-- 
2.43.0


From 575355f2bd1b979a551388564631eac82430ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 07/67] fix: ignore cache metadata that is missing, damaged or
 from another kind of parser

---
 trappy/ftrace.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1a1aadc..27f898f 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -79,6 +79,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     disable_cache = False
 
+    # What the metadata of a usable cache has
+    _cache_metadata_keys = ["md5sum", "basetime", "endtime", "parser"]
+
     def __init__(self, name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
         super(GenericFTrace, self).__init__(name)
@@ -203,14 +206,27 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         cache_path = self._trace_cache_path()
         metadata_path = os.path.join(cache_path, 'metadata.json')
 
-        metadata = {}
-        with open(metadata_path) as f:
-            metadata = json.load(f)
+        try:
+            with open(metadata_path) as f:
+                metadata = json.load(f)
+        except (OSError, ValueError):
+            # Missing, unreadable or truncated
+            return {}
+
+        # Damaged
+        if not isinstance(metadata, dict) or \
+           metadata.pop("checksum", None) != self._metadata_checksum(metadata):
+            return {}
 
         return metadata
 
+    @staticmethod
+    def _metadata_checksum(metadata):
+        text = json.dumps(metadata, sort_keys=True)
+        return hashlib.md5(text.encode("utf-8")).hexdigest()
+
     def _is_cache_valid(self, cache_metadata):
-        for key in ["md5sum", "basetime", "endtime"]:
+        for key in self._cache_metadata_keys:
             if key not in cache_metadata.keys():
                 warnstr = "Cache metadata is erroneous, invalidating cache"
                 warnings.warn(warnstr)
@@ -219,7 +235,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         with open(self.trace_path, 'rb') as f:
             trace_md5sum = hashlib.md5(f.read()).hexdigest()
 
-        if cache_metadata["md5sum"] != trace_md5sum:
+        if cache_metadata["md5sum"] != trace_md5sum or \
+           cache_metadata["parser"] != self.__class__.__name__:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
             return False
@@ -243,6 +260,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 metadata_path = os.path.join(self._trace_cache_path(), 'metadata.json')
 
                 metadata = self._get_metadata_to_cache()
+                metadata["checksum"] = self._metadata_checksum(metadata)
 
                 with open(metadata_path, 'w') as f:
                     json.dump(metadata, f)
@@ -269,6 +287,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         ).hexdigest()
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
+        metadata["parser"] = self.__class__.__name__
         return metadata
 
     def _load_cache(self):
@@ -279,7 +298,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         metadata = self._get_cache_metadata()
 
         if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+            shutil.rmtree(cache_path, ignore_errors=True)
             return
 
         # Load metadata
@@ -796,6 +815,8 @@ class FTrace(GenericFTrace):
 
     """
 
+    _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ["ftrace"]
+
     def __init__(self, path=".", name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
 
-- 
2.43.0


From 9c7c76530f02db33fb535393a65d47491a831ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 08/67] fix: cached tables are complete, of this trace and of
 this selection of events, with the values parsed

The CSV files of the cache lost the difference between text and numbers, were
trusted when cut short or written for another trace, another event of the same
class name or (fallback events) another selection of events, and concurrent
parses removed each other's cache directory.
---
 trappy/base.py   | 78 ++++++++++++++++++++++++++++++++++++++++++++++
 trappy/ftrace.py | 81 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 131 insertions(+), 28 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index ecf6e90..32322b3 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,9 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import hashlib
+import io
+import json
 import re
 import pandas as pd
 import warnings
@@ -329,6 +332,81 @@ class Base(object):
         )
         self.optimize_dataframe()
 
+    def to_cache(self, key):
+        """Return the table as the text that is kept in the cache
+
+        The first line describes the rest, which is a CSV whose text columns
+        are JSON encoded, so that what looks like a number, is empty or means
+        "missing" to a CSV reader is read back as the text that it is.
+
+        :param key: What identifies the table, see from_cache()
+        :type key: dict
+        """
+        dfr = self.data_frame
+        text_cols = [idx for idx in range(dfr.shape[1])
+                     if dfr.dtypes.iloc[idx].kind not in "iuf"]
+
+        def encode(val):
+            if val is None or val != val:
+                return ""
+            if not isinstance(val, (basestring, int, float)):
+                raise TypeError("cannot keep a {}".format(type(val).__name__))
+            return json.dumps(val)
+
+        columns = [dfr.iloc[:, idx].map(encode) if idx in text_cols
+                   else dfr.iloc[:, idx] for idx in range(dfr.shape[1])]
+        if columns:
+            dfr = pd.concat(columns, axis=1)
+
+        body = dfr.to_csv()
+        header = {"key": key,
+                  "index": dfr.index.name,
+                  "columns": list(dfr.columns),
+                  "text_columns": text_cols,
+                  "md5sum": hashlib.md5(body.encode("utf-8")).hexdigest()}
+
+        return json.dumps(header) + "\n" + body
+
+    def from_cache(self, text, key):
+        """Set the table from what to_cache() returned
+
+        Raises ValueError if the text is damaged or the table is that of
+        another key.
+
+        :param text: The text that was kept in the cache
+        :type text: str
+
+        :param key: What identifies the table
+        :type key: dict
+        """
+        header, body = text.split("\n", 1)
+        header = json.loads(header)
+
+        if header["key"] != key:
+            raise ValueError("the cache has another table")
+        if header["md5sum"] != hashlib.md5(body.encode("utf-8")).hexdigest():
+            raise ValueError("damaged cache")
+
+        if not header["columns"]:
+            self.data_frame = pd.DataFrame()
+            return
+
+        # The times and text are converted the way they were when parsing the
+        # trace, aka python's float() and not numpy's
+        converters = {idx + 1: str for idx in header["text_columns"]}
+        converters[0] = float
+        dfr = pd.read_csv(io.StringIO(body), converters=converters,
+                          float_precision="round_trip", low_memory=False)
+        for idx in header["text_columns"]:
+            dfr[dfr.columns[idx + 1]] = pd.Series(
+                [json.loads(val) if val else None for val in dfr.iloc[:, idx + 1]],
+                index=dfr.index, dtype=object)
+
+        index = pd.Index(dfr.iloc[:, 0], name=header["index"])
+        self.data_frame = dfr.iloc[:, 1:].set_index(index)
+        self.data_frame.columns = header["columns"]
+        self.optimize_dataframe()
+
     def normalize_time(self, basetime):
         """Substract basetime from the Time of the data frame
 
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 27f898f..fab69b8 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -30,6 +30,7 @@ import re
 import pandas as pd
 import hashlib
 import shutil
+import uuid
 import warnings
 import math
 
@@ -232,10 +233,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnings.warn(warnstr)
                 return False
 
-        with open(self.trace_path, 'rb') as f:
-            trace_md5sum = hashlib.md5(f.read()).hexdigest()
-
-        if cache_metadata["md5sum"] != trace_md5sum or \
+        if cache_metadata["md5sum"] != self._trace_md5sum or \
            cache_metadata["parser"] != self.__class__.__name__:
             warnstr = "Cached data is from another trace, invalidating cache."
             warnings.warn(warnstr)
@@ -243,27 +241,45 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         return True
 
-    def _prepare_cache_dir(self):
-        cache_path = self._trace_cache_path()
-
-        if os.path.exists(cache_path):
-            shutil.rmtree(cache_path)
-        os.mkdir(cache_path)
+    def _get_cache_key(self, trace_class):
+        """What the cached table of an event depends on, the table is only used
+        by a trace for which this is the same"""
+        key = {
+            "md5sum": self._trace_md5sum,
+            "parser": self.__class__.__name__,
+            "unique_word": trace_class.unique_word,
+            "parse_raw": bool(trace_class.parse_raw),
+        }
+
+        # A fallback event gets the lines that no other event wants
+        if trace_class.fallback:
+            key["others"] = sorted(c.unique_word for c in self.trace_classes)
+
+        return key
+
+    def _write_cache_file(self, path, text):
+        """Write a file of the cache so that other processes and later parses
+        find either all of it or nothing"""
+        tmp_path = "{}.{}.tmp".format(path, uuid.uuid4().hex)
+        try:
+            with io.open(tmp_path, 'w', encoding='utf-8', newline='') as f:
+                f.write(text)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
 
     def _update_cache(self):
         try:
-            # Recreate basic cache directories only if nothing cached
-            if not any([c.cached for c in self.trace_classes]):
-                self._prepare_cache_dir()
-
-                # Write cache metadata
-                metadata_path = os.path.join(self._trace_cache_path(), 'metadata.json')
+            cache_path = self._trace_cache_path()
+            os.makedirs(cache_path, exist_ok=True)
 
-                metadata = self._get_metadata_to_cache()
-                metadata["checksum"] = self._metadata_checksum(metadata)
-
-                with open(metadata_path, 'w') as f:
-                    json.dump(metadata, f)
+            # Write cache metadata
+            metadata = self._get_metadata_to_cache()
+            metadata["checksum"] = self._metadata_checksum(metadata)
+            self._write_cache_file(os.path.join(cache_path, 'metadata.json'),
+                                   json.dumps(metadata))
 
             # Cache trace data
             for trace_class in self.trace_classes:
@@ -271,8 +287,14 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 if trace_class.cached:
                     continue
 
-                csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+                try:
+                    text = trace_class.to_cache(self._get_cache_key(trace_class))
+                except TypeError as err:
+                    warnings.warn("TRAPpy: {} cannot be cached: {}".format(
+                        trace_class.name, err))
+                    continue
+
+                self._write_cache_file(self._get_csv_path(trace_class), text)
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
@@ -282,9 +304,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        metadata["md5sum"] = self._trace_md5sum
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         metadata["parser"] = self.__class__.__name__
@@ -309,9 +329,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         for trace_class in self.trace_classes:
             try:
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.read_csv(csv_file)
+                with io.open(csv_file, encoding='utf-8', newline='') as f:
+                    trace_class.from_cache(f.read(),
+                                           self._get_cache_key(trace_class))
                 trace_class.cached = True
-            except:
+            except Exception:
                 warnstr = "TRAPpy: Couldn't read {} from cache, reading it from trace".format(trace_class)
                 warnings.warn(warnstr)
 
@@ -333,6 +355,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _do_parse(self):
         if not self.__class__.disable_cache:
+            with open(self.trace_path, 'rb') as f:
+                self._trace_md5sum = hashlib.md5(f.read()).hexdigest()
+
             self._load_cache()
 
             # Check if cache data is enough
-- 
2.43.0


From 8fe23d0ded7f72e1069670789d40e2ef894928fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 09/67] fix: keep the comma inside the device number of f2fs
 events

---
 trappy/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/filesystem.py b/trappy/filesystem.py
index 11cf4cd..775a286 100644
--- a/trappy/filesystem.py
+++ b/trappy/filesystem.py
@@ -73,7 +73,7 @@ register_ftrace_parser(FilesystemExt4SyncFileExit)
 class FilesystemF2FSBase(Base):
     def generate_data_dict(self, data_str):
         data_str = data_str.replace(" = ", "=")
-        data_str = data_str.replace(",", " ")
+        data_str = data_str.replace(", ", " ")
         return super(FilesystemF2FSBase, self).generate_data_dict(data_str)
 
     def finalize_object(self):
-- 
2.43.0


From f91613c80ad90d050d6c8b69f319bb4c1f02b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 10/67] fix: parse systrace pages without task switches

---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..8d84e20 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # No sched_switch, or none in the trace
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From 8124b0326983ae5c6bf45b6272e7bd5328b8c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 11/67] fix: keep the text of systrace markers that are not
 userspace events

---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 8d84e20..6dc8d5d 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From 0732f0f7cd53479b9d3a44f5870343d7a535ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 12/67] fix: nothing after an empty trace section of a systrace
 page is part of the trace

---
 trappy/systrace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 6dc8d5d..fe5e7fb 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -34,6 +34,7 @@ the trace
     def __init__(self, tracer):
         self.before_begin_trace = True
         self.before_actual_trace = True
+        self.after_actual_trace = False
         self.tracer = tracer
 
     def __call__(self, line):
@@ -46,7 +47,11 @@ the trace
                line.startswith("  var linuxPerfData"):
                 self.before_actual_trace = False
 
-        if not self.before_actual_trace:
+        elif line.endswith("</script>\n"):
+            # The trace has no events
+            self.after_actual_trace = True
+
+        if not self.before_actual_trace and not self.after_actual_trace:
             base_call = super(SysTrace, self.tracer).trace_hasnt_started()
             return base_call(line)
         else:
-- 
2.43.0


From 50ab16d310c32f4b33abe11dbf317544b9bb1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 13/67] fix: a trace without events has its base and end time
 also with the cache enabled

---
 trappy/ftrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index fab69b8..a9f5a0b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -361,7 +361,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             self._load_cache()
 
             # Check if cache data is enough
-            if all([c.cached for c in self.trace_classes]):
+            if self.trace_classes and \
+               all([c.cached for c in self.trace_classes]):
                 self._apply_user_parameters()
                 return
 
-- 
2.43.0


From 0b6ff5242d7a632cbfd10aaf453b20b9cde40cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 14/67] fix: expressions and plots of an added event group its
 data by the given pivot

---
 trappy/bare_trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/bare_trace.py b/trappy/bare_trace.py
index 36a8bc2..4c54fc7 100644
--- a/trappy/bare_trace.py
+++ b/trappy/bare_trace.py
@@ -125,14 +125,15 @@ class BareTrace(object):
             "name": name,
         }
 
+        if pivot:
+            kwords["pivot"] = pivot
+
         trace_class = DynamicTypeFactory(name, (Base,), kwords)
         self.class_definitions[name] = trace_class
 
         event = trace_class()
         self.trace_classes.append(event)
         event.data_frame = dfr
-        if pivot:
-            event.pivot = pivot
 
         setattr(self, name, event)
 
-- 
2.43.0


From 4861d6e2dd06f39f6a5efaa5970983f14db9e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 15/67] fix: any callable variable, and functions without
 arguments, in grammar expressions

---
 trappy/stats/grammar.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..71db38a 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -520,13 +519,11 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if callable(self._pvars.get(func_name)):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        return func(*params[1]) if len(params) > 1 else func()
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 2745b95b3955ffe8599e58c5961e7d41accc428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/67] fix: columns of the same name of different events are
 different columns in grammar expressions

---
 trappy/stats/grammar.py | 58 ++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 71db38a..cbc52b4 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -22,7 +22,8 @@ from __future__ import division
 from __future__ import unicode_literals
 from builtins import object
 from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
-    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
+    alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group,\
+    ParseResults
 import importlib
 import pandas as pd
 import numpy as np
@@ -344,6 +345,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # Maps (event name, column) to the column of _agg_df
+        self._agg_columns = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -443,35 +446,46 @@ class Parser(object):
         return pd.concat({StatConf.GRAMMAR_DEFAULT_PIVOT: data_frame[
                          [column]]}, axis=1).swaplevel(0, 1, axis=1)
 
+    def _get_class(self, event):
+        """Return the class of the event in an accessor"""
+
+        if event in self._pvars:
+            return self._pvars[event]
+        elif event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+        else:
+            return str_to_attr(event)
+
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
 
-        params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
+        event, column = tokens[0]
 
-        event = params[0]
-        column = params[1]
+        try:
+            cls = self._get_class(event)
+        except KeyError:
+            raise ValueError(
+                "Can't find parser class for event {}".format(event))
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+        if (cls.name, column) in self._agg_columns:
+            return self._agg_df[self._agg_columns[(cls.name, column)]]
 
         data_frame = self._pivot(cls, column)
+
+        # Columns of different events can have the same name
+        agg_column = column
+        if agg_column in self._agg_df.columns:
+            agg_column = "{}:{}".format(cls.name, column)
+            data_frame = data_frame.rename(columns={column: agg_column}, level=0)
+
         self._agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1)
+        self._agg_columns[(cls.name, column)] = agg_column
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
 
-        return self._agg_df[params[1]]
+        return self._agg_df[agg_column]
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -506,13 +520,15 @@ class Parser(object):
         """
 
         params = tokens[0]
+        if isinstance(params, ParseResults):
+            # A data accessor
+            cls = self._get_class(params[0])
+            return self._agg_df[self._agg_columns[(cls.name, params[1])]]
+
         try:
             return float(params)
         except (ValueError, TypeError):
-            try:
-                return self._pvars[params]
-            except KeyError:
-                return self._agg_df[params[1]]
+            return self._pvars[params]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From dc1fc20edddecf47b2fcdb951555109223448928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 17/67] fix: put the columns of grammar expressions in the
 order of their times before padding

---
 trappy/stats/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index cbc52b4..9b82ab7 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -435,7 +435,7 @@ class Parser(object):
                         method=self._method,
                         limit=self._limit)
 
-            return pd.concat(data, axis=1).swaplevel(0, 1, axis=1)
+            return pd.concat(data, axis=1, sort=True).swaplevel(0, 1, axis=1)
 
         if len(self._agg_df):
             data_frame = data_frame.reindex(
@@ -479,7 +479,7 @@ class Parser(object):
             data_frame = data_frame.rename(columns={column: agg_column}, level=0)
 
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1, sort=True)
         self._agg_columns[(cls.name, column)] = agg_column
 
         if self._fill:
-- 
2.43.0


From bf976df125e52d1592480c2bfe3d10cab95891b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 18/67] fix: inspect accessors of events that are not in the
 trace

---
 trappy/stats/grammar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 9b82ab7..97a3da1 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -510,7 +510,10 @@ class Parser(object):
         info["length"] = len(data_frame)
         if hasattr(cls, "pivot") and cls.pivot:
             info["pivot"] = cls.pivot
-            info["pivot_values"] = list(np.unique(data_frame[cls.pivot]))
+            if data_frame.empty:
+                info["pivot_values"] = []
+            else:
+                info["pivot_values"] = list(np.unique(data_frame[cls.pivot]))
         info["column"] = column
         info["column_present"] = column in data_frame.columns
         return info
-- 
2.43.0


From 7327ca1420147779ef1755ba0028ada9e0fc2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 19/67] fix: filters keep the columns of an event without rows
 in the window

---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 97a3da1..beb808f 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -559,7 +559,7 @@ class Parser(object):
 
         if self._filters:
             criterion = pd.Series([True] * len(data_frame),
-                                  index=data_frame.index)
+                                  index=data_frame.index, dtype=bool)
 
             for filter_col, wanted_vals in self._filters.items():
                 try:
-- 
2.43.0


From 1d67b30dab401ca8360fb9c0f4f0ae86af13e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 20/67] fix: a trigger with a column as its value gives that
 column

---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From 66aa432e9f0d89ec59667b21fcf921c7ab73cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 21/67] fix: a list of values in a trigger's filter means any
 of them

---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 68649464a9a2b8eb5621cbf952c99674fad3bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 22/67] fix: triggers for pivot values that the event does not
 have

---
 trappy/stats/Trigger.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 22bd71f..8296728 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -94,11 +93,11 @@ class Trigger(object):
         data_frame = trappy_event.data_frame
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index, dtype=bool)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
-                mask = mask & (data_frame[key].apply(value))
+                mask = mask & (data_frame[key].apply(value).astype(bool))
             else:
                 mask = apply_filter_kv(key, value, data_frame, mask)
 
-- 
2.43.0


From d8b8889560190f2e82b8a69c9e88129d7a367328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 23/67] fix: aggregating a group leaves the series of its nodes
 as they are

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..ceacb27 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From f5e15662eefa9d948932b477b3a7eb08a322dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 24/67] fix: aggregate a single trigger

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index ceacb27..301bb6d 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From cd403945328fa8076052c0f066185fbd2be6a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 25/67] fix: the level all has one group

---
 trappy/stats/Topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index 82877a3..a8ff0a3 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -168,7 +168,7 @@ class Topology(object):
         :type level_name: str
         """
         if level == "all":
-            return len(self._nodes)
+            return 1
         else:
             return len(self._levels[level])
 
-- 
2.43.0


From bd54a54969a780324691810a502815367d211a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 26/67] fix: missing samples are not non-zero samples when
 aligning and weighting

---
 trappy/stats/Correlator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..abd4ff7 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -91,7 +91,8 @@ class Correlator(object):
 
             series_x, series_y = shift_series(series_x, series_y, self._shift)
             corr_output.append(self._correlate(series_x, series_y))
-            weights.append(len(series_x[series_x != 0]) + len(series_y[series_y != 0]))
+            weights.append(np.count_nonzero(series_x.fillna(0)) +
+                           np.count_nonzero(series_y.fillna(0)))
 
         total = 0
         for weight, corr in zip(weights, corr_output):
@@ -195,8 +196,8 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From d6440135ad937d8dfab418c113599ad56746691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 27/67] fix: align with the same arguments of the aggregation
 function as correlate

---
 trappy/stats/Correlator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index abd4ff7..1404200 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -158,8 +158,8 @@ class Correlator(object):
         implemented in plotter
         """
 
-        result_1 = self._first_agg.aggregate(level="all")
-        result_2 = self._second_agg.aggregate(level="all")
+        result_1 = self._first_agg.aggregate(level="all", **self._agg_kwargs)
+        result_2 = self._second_agg.aggregate(level="all", **self._agg_kwargs)
 
         s_x = self._resample(result_1[0])
         s_y = self._resample(result_2[0])
-- 
2.43.0


From d8694407a1c7dd6ce75d51d00a26f60096ccbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 28/67] fix: plot layouts without a title

---
 trappy/plotter/PlotLayout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..43a3a92 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -81,7 +81,7 @@ class PlotLayout(object):
                 self._attr["width"] * self.cols,
                 self._attr["length"] * self.rows))
 
-        if self._attr['title']:
+        if self._attr.get('title'):
             self._attr["figure"].suptitle(
                     self._attr['title'],
                     fontsize=AttrConf.TITLE_SIZE,
-- 
2.43.0


From 5a763c4f007103f07869c53511f8cf8bbb94838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 29/67] fix: unique index values for any number of duplicates,
 leaving the caller's data as it is

---
 trappy/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..d204dd6 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,10 +78,10 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
+    new_index = index.values.astype(float)
 
     dups = index[index.duplicated()].unique()
 
@@ -103,10 +105,10 @@ def handle_duplicate_index(data,
             delta = max_delta
 
         # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        for i in range(1, num_dups):
+            new_index[dup_index_left + i] = dup + i * delta
 
-    return data.reindex(new_index)
+    data = data.copy()
+    if len(dups):
+        data.index = pd.Index(new_index, name=index.name)
+    return data
-- 
2.43.0


From 61a8b38094d16b20122f4441ec065fcee90f86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 30/67] fix: a plot window without samples on one of its sides
 keeps the samples inside

---
 trappy/plotter/Constraint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..6fe7247 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -110,8 +110,12 @@ class Constraint(object):
         if window:
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            # There is nothing to limit on a side without samples
+            # outside of the window
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From bf43593f7669f5a2d645d2b90b4ed82d01bcd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 31/67] fix: permuted plots take each trace and signal once,
 and every static series goes on its own axis

---
 trappy/plotter/BarPlot.py    | 10 +++++---
 trappy/plotter/Constraint.py | 23 +++++++++++++----
 trappy/plotter/LinePlot.py   |  3 ++-
 trappy/plotter/StaticPlot.py | 50 +++++++++++++++++++++++++-----------
 4 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..11a9d6e 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -102,6 +102,7 @@ class BarPlot(StaticPlot):
 
         for i, (constraint, pivot) in enumerate(series_list):
             result = constraint.result
+            series_index = self._series_index[(constraint, pivot)]
             bar_anchor = np.arange(len(result[pivot].values))
             if not stacked:
                 bar_anchor = bar_anchor + i * bar_width
@@ -109,15 +110,16 @@ class BarPlot(StaticPlot):
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:len(result[pivot])],
                 width=bar_width,
-                color=self._cmap.cmap(i),
+                color=self._cmap.cmap(series_index),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                for bar, value in enumerate(result[pivot].values):
+                    end_of_previous[bar] += value
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-            self.add_to_legend(i, line_2d_list[0], constraint, pivot, concat, permute)
+            self.add_to_legend(series_index, line_2d_list[0], constraint, pivot, concat, permute)
diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 6fe7247..e574e14 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -197,9 +197,18 @@ class Constraint(object):
         if not self._uses_trappy_trace():
             return name + ":" + str(self.column)
 
-        return name + ":" + \
-            self._template.name + ":" + self.column
+        return name + ":" + self.get_signal_name()
 
+    def get_signal_name(self):
+        """Get the name of the event and column, or only that of the
+        column for data without an event
+
+        :returns: The name of the signal
+        """
+        if not self._uses_trappy_trace():
+            return str(self.column)
+
+        return self._template.name + ":" + self.column
 
     def get_data_name(self):
         """Get name for the data member. This method
@@ -325,9 +334,13 @@ class ConstraintManager(object):
         possible.
         """
 
-        for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+        # The inputs are expanded to the same length: take each trace and
+        # each pair of column and template that was given only once
+        num_signals = max(self._lens[1:])
+        signals = list(zip(self._ip_vec[1], self._ip_vec[2]))[:num_signals]
+
+        for trace_idx, trace in enumerate(self._ip_vec[0][:self._lens[0]]):
+            for col, template in signals:
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..449f306 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,8 +158,9 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for constraint, pivot in series_list:
             result = constraint.result
+            i = self._series_index[(constraint, pivot)]
             line_2d_list = axis.plot(
                 result[pivot].index,
                 result[pivot].values,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..6b104a3 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -26,6 +26,7 @@ from trappy.plotter.Constraint import ConstraintManager
 from trappy.plotter.PlotLayout import PlotLayout
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
+from trappy.utils import listify
 from future.utils import with_metaclass
 
 
@@ -119,6 +120,7 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
     def __init__(self, traces, templates, **kwargs):
         self._fig = None
         self._layout = None
+        self._series_index = {}
         super(StaticPlot, self).__init__(traces=traces,
                                          templates=templates)
 
@@ -209,14 +211,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         legend_labels = self._attr["_legend_labels"]
 
         if concat and pivot == AttrConf.PIVOT_VAL:
-            legend_labels[series_index] = self._attr["column"]
+            legend_labels[series_index] = ",".join(listify(self._attr["column"]))
         elif concat:
             legend_labels[series_index] = "{0}: {1}".format(
                 self._attr["pivot"],
                 self._attr["map_label"].get(pivot, pivot)
             )
         elif permute:
-            legend_labels[series_index] = constraint._template.name + ":" + constraint.column
+            legend_labels[series_index] = constraint.get_signal_name()
         else:
             legend_labels[series_index] = str(constraint)
 
@@ -239,16 +241,13 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         # Determine what constraint to plot and the corresponding pivot value
         if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            # One axis for each trace and pivot: the same signal (column) has
+            # the same entry in the legend in all of them
+            legend_len = len(self.c_mgr) // len(listify(self.traces))
         else:
+            # One axis for each constraint and an entry in the legend for each
+            # pivot (concat) or the other way around
             legend_len = len_pivots if concat else len(self.c_mgr)
-            pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -261,9 +260,27 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         # Group constraints/series with the axis they are to be plotted on
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
-            figure_data[axis].append((constraint, pivot))
+        self._series_index = {}
+        for c_idx, constraint in enumerate(self.c_mgr):
+            for p_idx, p_val in enumerate(pivot_vals):
+                if permute:
+                    trace_idx, pivot = p_val
+                    if trace_idx != constraint.trace_index:
+                        continue
+                    axis_idx, series_idx = p_idx, c_idx % legend_len
+                elif concat:
+                    pivot = p_val
+                    axis_idx, series_idx = c_idx, p_idx
+                else:
+                    pivot = p_val
+                    axis_idx, series_idx = p_idx, c_idx
+
+                if pivot not in constraint.result:
+                    continue
+
+                axis = self._layout.get_axis(axis_idx)
+                figure_data[axis].append((constraint, pivot))
+                self._series_index[(constraint, pivot)] = series_idx
 
         # Plot each axis
         for axis, series_list in figure_data.items():
@@ -280,8 +297,11 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        entries = [(h, l) for h, l in zip(self._attr["_legend_handles"],
+                                          self._attr["_legend_labels"])
+                   if h is not None]
+        legend = self._fig.legend([h for h, _ in entries],
+                         [l for _, l in entries],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 0c9c676ec6591d15880b60a99c7c4d6b7ed1c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 32/67] fix: interactive plots of several series keep the
 samples of each series at their times

---
 trappy/plotter/ILinePlot.py | 41 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..7113733 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -32,7 +32,7 @@ from trappy.plotter.ILinePlotGen import ILinePlotGen
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
 from trappy.plotter import IPythonConf
-from trappy.utils import handle_duplicate_index
+from trappy.utils import handle_duplicate_index, listify
 import pandas as pd
 
 if not IPythonConf.check_ipython():
@@ -230,21 +230,21 @@ class ILinePlot(AbstractDataPlotter):
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
                         continue
-                    legend = constraint._template.name + ":" + constraint.column
+                    legend = constraint.get_signal_name()
+                    title = constraint.get_data_name()
                 else:
                     pivot = p_val
                     legend = str(constraint)
 
                 result = constraint.result
                 if pivot in result:
-                    data_dict[legend] = result[pivot]
+                    data_dict[self._new_label(legend, data_dict)] = result[pivot]
 
-            if permute:
-                title = self.traces[plot_index].name
-            elif pivot != AttrConf.PIVOT_VAL:
-                title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
-            else:
-                title = ""
+            if not permute:
+                if pivot != AttrConf.PIVOT_VAL:
+                    title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
+                else:
+                    title = ""
 
             if len(data_dict) > 1:
                 data_frame = self._fix_indexes(data_dict)
@@ -256,6 +256,18 @@ class ILinePlot(AbstractDataPlotter):
 
         self._layout.finish()
 
+    @staticmethod
+    def _new_label(label, data_dict):
+        """Return label, numbered if there is already a series with that
+        label in data_dict"""
+        new_label = label
+        number = 1
+        while new_label in data_dict:
+            number += 1
+            new_label = "{} ({})".format(label, number)
+
+        return new_label
+
     def _plot_concat(self):
         """Plot all lines on a single figure"""
 
@@ -272,11 +284,11 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = ",".join(listify(self._attr["column"]))
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-                    data_dict[key] = result[pivot]
+                    data_dict[self._new_label(key, data_dict)] = result[pivot]
 
             if len(data_dict) > 1:
                 data_frame = self._fix_indexes(data_dict)
@@ -301,8 +313,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1, sort=True)
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
@@ -312,7 +323,7 @@ class ILinePlot(AbstractDataPlotter):
         elif self._attr["drawstyle"] == "steps-mid":
             merged_df = merged_df.ffill()
         else:
-            # default
-            merged_df = merged_df.interpolate()
+            # default: on the line between the samples of the series
+            merged_df = merged_df.interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From 833cf1b028a1759d54bce1e35cbc5ee3526ab8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 33/67] fix: a task with lost switches loses the interval of
 the name it had

---
 trappy/plotter/Utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..a55970a 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
-            del pmap[next_pid]
-            del data[name][-1]
+            # The task may have had another name
+            del data[pmap.pop(next_pid)][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 0b4fed5b027a9b36b8c00589391b90053885f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 34/67] fix: the color of a signal goes to its line also in
 plots without the other signals

---
 trappy/plotter/ILinePlot.py    | 9 +++++++--
 trappy/plotter/ILinePlotGen.py | 9 ++++++++-
 trappy/plotter/js/ILinePlot.js | 4 +++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 7113733..4dbd1c9 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -223,9 +223,11 @@ class ILinePlot(AbstractDataPlotter):
 
         self._layout = ILinePlotGen(len_pivots, **self._attr)
         plot_index = 0
+        signal_colors = self._attr.get("colors")
         for p_val in pivot_vals:
             data_dict = OrderedDict()
-            for constraint in self.c_mgr:
+            colors = []
+            for idx, constraint in enumerate(self.c_mgr):
                 if permute:
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
@@ -239,6 +241,8 @@ class ILinePlot(AbstractDataPlotter):
                 result = constraint.result
                 if pivot in result:
                     data_dict[self._new_label(legend, data_dict)] = result[pivot]
+                    if signal_colors:
+                        colors.append(signal_colors[idx % len(signal_colors)])
 
             if not permute:
                 if pivot != AttrConf.PIVOT_VAL:
@@ -251,7 +255,8 @@ class ILinePlot(AbstractDataPlotter):
             else:
                 data_frame = pd.DataFrame(data_dict)
 
-            self._layout.add_plot(plot_index, data_frame, title, test=test)
+            self._layout.add_plot(plot_index, data_frame, title, test=test,
+                                  colors=colors)
             plot_index += 1
 
         self._layout.finish()
diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..d5726ec 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -213,7 +213,7 @@ class ILinePlotGen(object):
 
         fig_params["pointSize"] = self._attr["point_size"]
 
-    def add_plot(self, plot_num, data_frame, title="", test=False):
+    def add_plot(self, plot_num, data_frame, title="", test=False, colors=None):
         """Add a plot for the corresponding index
 
         :param plot_num: The linear index of the plot
@@ -224,6 +224,10 @@ class ILinePlotGen(object):
 
         :param title: The title for the plot
         :type title: str
+
+        :param colors: The colors of the columns of the DataFrame, if they
+            are not those of the figure
+        :type colors: list of rgb tuples
         """
 
         datapoints = sum(len(v) for v in data_frame.values)
@@ -247,6 +251,9 @@ class ILinePlotGen(object):
         fig_params["per_line"] = self._attr["per_line"]
         fig_params["height"] = self._attr["height"]
 
+        if colors:
+            fig_params["colors"] = json.loads(to_dygraph_colors(colors))
+
         self._check_add_scatter(fig_params)
 
         # Use a hash of this object as a default for the sync group, so that if
diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 309e90d..020a302 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -136,7 +136,9 @@ var ILinePlot = ( function() {
         if (typeof t_info.fill_alpha !== 'undefined')
             options.fillAlpha = t_info.fill_alpha;
 
-        if (typeof colors !== 'undefined')
+        if (typeof t_info.colors !== 'undefined')
+            options["colors"] = t_info.colors;
+        else if (typeof colors !== 'undefined')
             options["colors"] = colors;
 
         var graph = new Dygraph(document.getElementById(t_info.name), tabular.data, options);
-- 
2.43.0


From 5c53664c11ad964e0b7b431018eb7b561ff8d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 35/67] fix: order the times of CPU and devfreq data before
 carrying values forward

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index a9f5a0b..c831dae 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -686,7 +686,8 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1,
+                                     sort=True)
             else:
                 allfreqs = cpu_allfreqs
 
@@ -708,7 +709,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
         except KeyError:
             pass
 
@@ -740,7 +741,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From f77bdc9ce40023cf18d475439dc1a7c956b305c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 36/67] fix: titles of the frequency histograms tell input from
 output, the GPU and the unit

---
 trappy/ftrace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c831dae..73fe810 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -59,7 +59,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
@@ -679,20 +679,20 @@ is part of the trace.
             devfreq_in_all_freqs = None
 
         out_allfreqs = (self.cpu_out_power.get_all_freqs(map_label),
-                        devfreq_out_all_freqs, ax[0:in_base_idx])
+                        devfreq_out_all_freqs, ax[0:in_base_idx], "out")
         in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
-                       devfreq_in_all_freqs, ax[in_base_idx:])
+                       devfreq_in_all_freqs, ax[in_base_idx:], "in")
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for cpu_allfreqs, devfreq_freqs, axis, what in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
-                devfreq_freqs.name = "GPU"
+                devfreq_freqs.columns = ["GPU"]
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1,
                                      sort=True)
             else:
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 5428cd424eb7a8e3f8608415f4bcc753fb3a1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 37/67] fix: temperature plots of thermal zone 0, of runs
 without governor or temperature data, and weights of ten and more actors

---
 trappy/plot_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..5688295 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,10 +157,11 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
-            gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
+            if tz_id is not None:
+                gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
+
             current_temp = gov_dfr["current_temperature"]
             delta_temp = gov_dfr["delta_temperature"]
             control_series = (current_temp + delta_temp) / 1000
@@ -246,9 +247,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         thermal_params = sysfs.get_parameters()
 
         sorted_weights = []
-        for param in sorted(thermal_params):
-            if re.match(r"cdev\d+_weight", param):
-                sorted_weights.append(thermal_params[param])
+        weights = [p for p in thermal_params if re.match(r"cdev\d+_weight$", p)]
+        for param in sorted(weights, key=lambda p: int(p[4:-len("_weight")])):
+            sorted_weights.append(thermal_params[param])
 
         actor_weights.append(list(zip(actor_order, sorted_weights)))
 
@@ -308,10 +309,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From 2d116ee27aa140672f99b194d077b8c5a73d1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 38/67] fix: list the tasks of the load average events

---
 trappy/sched.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..ef116d4 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -56,7 +56,7 @@ class SchedLoadAvgTask(Base):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr[['comm', 'pid']]
 
         return dfr[dfr['comm'].str.contains(key)].values.tolist()
 
-- 
2.43.0


From d689d61b748179d8bfd55cfb030c660e55c6f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 39/67] fix: plot the weighted power of the runs that have
 weights

---
 trappy/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 5688295..4712391 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -264,6 +264,9 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
+        if not weights:
+            continue
+
         run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
                                                        ax=ax)
 
-- 
2.43.0


From 63b598b369df19f42bd080ea9c6134c1456d337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 40/67] fix: the governor's temperature plot is of the thermal
 zone asked for

---
 trappy/plot_utils.py |  3 ++-
 trappy/thermal.py    | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 4712391..5d0ede8 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -173,7 +173,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..a1187a4 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,19 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
-        """Plot the temperature"""
+                         ax=None, legend_label="", tz_id=None):
+        """Plot the temperature
+
+        :param tz_id: only plot this thermal zone
+        :type tz_id: int
+        """
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
+
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 2a84e0b8a12a6931b9b9c67f8b4ca73c3faa3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 41/67] fix: print sysfs parameters with the installed pandas

---
 trappy/wa/sysfs_extractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..0632166 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -90,7 +90,7 @@ class SysfsExtractor(object):
         if len(params) == 0:
             return
 
-        params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        names = sorted(params)
+        dfr = pd.DataFrame({"Value": [params[name] for name in names]},
+                           index=names)
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From 0384541e15e75262aaa116e3d8d7161091503031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 42/67] fix: the last character of a sysfs parameter without a
 final newline was lost

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 0632166..bd3ae60 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From 0f5bdd010b977dbf9e475b666ad73890d430b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 43/67] fix: combining results keeps the benchmarks of every
 input

---
 trappy/wa/results.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..f71bcc6 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -75,7 +75,7 @@ class Result(pd.DataFrame):
         plt.legend(bbox_to_anchor=(1.05, .5), loc=6)
 
     def plot_results(self):
-        for bench in self.columns.levels[0]:
+        for bench in self.columns.get_level_values(0).unique():
             self.plot_results_benchmark(bench)
 
 def get_run_number(metric):
@@ -158,9 +158,12 @@ def combine_results(data):
 
     """
 
-    res_dict = {}
-    for benchmark in data[0].columns.levels[0]:
-        concat_objs = [d[benchmark] for d in data]
+    res_dict = collections.OrderedDict()
+    for benchmark in [b for d in data for b in d.columns.get_level_values(0)]:
+        if benchmark in res_dict:
+            continue
+
+        concat_objs = [d[benchmark] for d in data if benchmark in d.columns]
         res_dict[benchmark] = pd.concat(concat_objs, axis=1)
 
     combined = pd.concat(res_dict.values(), axis=1, keys=res_dict.keys())
-- 
2.43.0


From a6f4b0b13bfa7b916c9efbbde71f641ed513c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 44/67] fix: inline the scripts and libraries in every notebook
 of an export

---
 trappy/nbexport/exporter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..50d645b 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,15 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Filter a notebook.  The files inlined in and the libraries sourced by
+        the notebooks exported before are not part of this one"""
+
+        self.inlined_files = []
+        self.sourced_libs = []
+
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From ff325fbd6fb15b3235dbfc7fbf396ccab706337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 45/67] fix: the last character of an inlined file without a
 final newline was lost

---
 trappy/nbexport/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index 50d645b..5d9ca96 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -91,7 +91,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
                     continue
 
                 with open(import_file) as fin:
-                    final_lines.extend([l[:-1] for l in fin.readlines()])
+                    final_lines.extend([l.rstrip('\n') for l in fin.readlines()])
 
                 self.inlined_files.append(import_file)
                 continue
-- 
2.43.0


From 4801cf133ee43d24dddf7aa7959d82ce784c88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 46/67] fix: a block to remove on a single line removed the
 rest of the output

---
 trappy/nbexport/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index 5d9ca96..ff348f4 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -75,7 +75,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
         multi_line_remove = False
         for line in lines:
             if REMOVE_START in line:
-                multi_line_remove = True
+                multi_line_remove = REMOVE_STOP not in line
                 continue
             if REMOVE_STOP in line:
                 multi_line_remove = False
-- 
2.43.0


From 29b4ecda8404cc8b202204ef9651505cae51d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 47/67] fix: leave no temporary file behind when reading a
 trace.dat fails, say when trace-cmd is not installed

---
 trappy/ftrace.py | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 73fe810..650fe4a 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -366,18 +366,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._apply_user_parameters()
                 return
 
-        self._parsing_setup()
-
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
+        try:
+            self._parsing_setup()
 
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -857,7 +858,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_setup()
 
         if self.read_from_dat:
-            self.file_to_parse = self.__generate_trace_txt(self.trace_path)
+            self.__generate_trace_txt(self.trace_path)
 
         # file_to_parse is already set to trace_path in the superclass,
         # so no "else" is needed here
@@ -868,7 +869,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_teardown()
 
         # Remove the .txt trace if it was generated from a .dat
-        if self.read_from_dat:
+        if self.read_from_dat and self.file_to_parse != self.trace_path:
             os.remove(self.file_to_parse)
 
     def _load_metadata_from_cache(self, metadata):
@@ -923,9 +924,8 @@ class FTrace(GenericFTrace):
     def __generate_trace_txt(self, trace_dat):
         """Run "trace-cmd report [ -r raw_event ]* trace_dat > tempfile"
 
-        The resulting trace is stored in files with extension ".txt". If
-        fname is "my_trace.dat", the trace is stored in "my_trace.txt". The
-        contents of the destination file is overwritten if it exists.
+        The resulting trace is stored in a temporary file, that is the file to
+        parse.
         Trace events which require unformatted output (raw_event == True)
         are added to the command line with one '-r <event>' each event and
         trace-cmd then prints those events without formatting.
@@ -945,19 +945,18 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and exc.filename in (None, cmd[0]):
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
+        with NamedTemporaryFile(delete=False) as fout:
+            self.file_to_parse = fout.name
             fout.write(output.stdout)
 
-        return fout.name
-
     def __get_raw_event_list(self):
         self.raw_events = []
         # Generate list of events which need to be parsed in raw format
-- 
2.43.0


From 2efab4ec5c242877cf11da46d3b20f3f77083f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 48/67] fix: read the text of a trace from a file of any name

---
 trappy/ftrace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 650fe4a..0297560 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -911,6 +911,9 @@ class FTrace(GenericFTrace):
             )
             warnings.warn(warnstr)
             trace_to_read = trace_txt
+        elif os.path.isfile(basepath):
+            # The output of trace-cmd report in a file with another extension
+            trace_to_read = basepath
         elif os.path.isfile(trace_raw_txt):
             # Warn users if raw.txt file is all we have
             warnstr = ".raw.txt trace format is no longer supported"
-- 
2.43.0


From 03f0e1f4d75f974b3dd601957a1901a8fa5fb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 49/67] fix: plots made one after the other were zoomed
 together

---
 trappy/plotter/ILinePlotGen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index d5726ec..f9d5302 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -185,6 +185,7 @@ class ILinePlotGen(object):
         self.num_plots = num_plots
         self._fig_map = {}
         self._fig_index = 0
+        self._default_group = uuid.uuid4().hex
 
         self._single_plot = False
         if self.num_plots == 0:
@@ -256,10 +257,10 @@ class ILinePlotGen(object):
 
         self._check_add_scatter(fig_params)
 
-        # Use a hash of this object as a default for the sync group, so that if
-        # 'sync_zoom=True' then by default (i.e. if 'group' is not specified),
-        # all the plots in a figure are synced.
-        fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))
+        # By default (i.e. if 'group' is not specified), the sync group is one
+        # of this object's own, so that if 'sync_zoom=True' all the plots in a
+        # figure are synced.
+        fig_params["syncGroup"] = self._attr.get("group", self._default_group)
         fig_params["syncZoom"] = self._attr.get("sync_zoom",
                                                 AttrConf.DEFAULT_SYNC_ZOOM)
 
-- 
2.43.0


From 45170a482f7e78a0df415a1f4848473cc804f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 50/67] fix: ask trace-cmd for the raw output of events by
 their names in the trace

---
 trappy/ftrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 0297560..bfd7c70 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -967,9 +967,9 @@ class FTrace(GenericFTrace):
             for trace_class in event_class.values():
                 raw = getattr(trace_class, 'parse_raw', None)
                 if raw:
-                    name = getattr(trace_class, 'name', None)
-                    if name:
-                        self.raw_events.append(name)
+                    # The name of the event in the trace, which is not always
+                    # that of its table
+                    self.raw_events.append(trace_class.unique_word.rstrip(":"))
 
     def __get_trace_metadata(self):
         # Meta Data as expected to be found in the parsed trace header
-- 
2.43.0


From 82e9193164e73c54045188f2548b1e5dbc25f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 51/67] fix: plot_trace() of systraces, parsed events and
 traces without header

---
 trappy/plotter/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..63dad20 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,13 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+
+    num_cpus = getattr(trace, "_cpus", None)
+    if num_cpus is None:
+        # Only traces with a header say how many CPUs there are
+        num_cpus = trace.sched_switch.data_frame["__cpu"].max() + 1
+
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=int(num_cpus))
     trace_graph.view()
-- 
2.43.0


From 38b7e4c98987d73d80ebdd2e0222703d0dbc8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 52/67] fix: a script that was not received completely was
 taken as installed

---
 trappy/plotter/IPythonConf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..2ed42b1 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -23,8 +23,10 @@ from __future__ import print_function
 from future import standard_library
 standard_library.install_aliases()
 import urllib.request, urllib.parse, urllib.error
+import http.client
 import os
 import shutil
+import uuid
 from distutils.version import StrictVersion as V
 
 D3_PLOTTER_URL = "https://cdnjs.cloudflare.com/ajax/libs/d3/3.5.6/d3.min.js"
@@ -64,11 +66,18 @@ def install_http_resource(url, to_path):
     :param to_path: Destination path on the disk
     :type to_path: str
     """
+    # The resource only gets its name when it is complete: a partial one
+    # would be taken as installed from then on
+    part_path = "{}.{}.part".format(to_path, uuid.uuid4().hex)
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
-    except IOError:
+        urllib.request.urlretrieve(url, filename=part_path)
+        os.rename(part_path, to_path)
+    except (IOError, http.client.HTTPException):
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
+    finally:
+        if os.path.isfile(part_path):
+            os.remove(part_path)
 
 
 def install_local_resource(from_path, to_path):
-- 
2.43.0


From f787bf4a670dfd5801935ecb4e84d07eed2838d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 53/67] fix: notebooks showing their first plot at the same
 time failed to make the directory of its scripts

---
 trappy/plotter/IPythonConf.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 2ed42b1..0a93a1c 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -112,6 +112,21 @@ def install_resource(from_path, to_path):
         install_local_resource(from_path, to_path)
 
 
+def make_dir(path):
+    """Make a directory and its parents if it does not exist
+
+    :param path: Path of the directory
+    :type path: str
+    """
+
+    try:
+        os.makedirs(path)
+    except OSError:
+        # It exists, perhaps made by another notebook just now
+        if not os.path.isdir(path):
+            raise
+
+
 def iplot_install(module_name):
     """Install the resources for the module to the Ipython
     profile directory
@@ -131,8 +146,7 @@ def iplot_install(module_name):
             module_name)
 
         # Ensure if the directory exists
-        if not os.path.isdir(resource_dest_dir):
-            os.mkdir(resource_dest_dir)
+        make_dir(resource_dest_dir)
         resource_dest_path = os.path.join(resource_dest_dir, resource_name)
         install_resource(resource, resource_dest_path)
 
@@ -216,6 +230,5 @@ def get_scripts_path(profile=None):
     """
 
     dir_name = os.path.join(get_ipython_dir(profile), PLOTTER_SCRIPTS)
-    if not os.path.isdir(dir_name):
-        os.makedirs(dir_name)
+    make_dir(dir_name)
     return dir_name
-- 
2.43.0


From 711cfb0207634e0d80c126766360a4bef3e1e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 54/67] fix: event plots did not say which interval was clicked
 on

---
 trappy/plotter/js/EventPlot.js | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..0162176 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,21 +63,22 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
 
-            var data = ePlot.items[name];
-            var xMax = ePlot.zoomScale.domain()[1];
-            var right = search_data(data, 0, xMax, 0, data.length - 1);
-            var left = search_data(data, 1, x0, 0, right);
+            // The data of each name is grouped by lane
+            var data = ePlot.items[name][y0];
 
             if (data) {
+                var xMax = ePlot.zoomScale.domain()[1];
+                var right = search_data(data, 0, xMax, 0, data.length - 1);
+                var left = search_data(data, 1, x0, 0, right);
+
                 var candidate = data[left];
                 if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
+                        candidate[1] >= x0)
                     return {
                             name: name,
-                            info: candidate
+                            info: [candidate[0], candidate[1], y0]
                         };
             }
         }
-- 
2.43.0


From dea0c45576af9e822e84642bae68d5c0e2cf3b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 55/67] fix: event plots of one page shared their sizes and
 time axis

---
 trappy/plotter/js/EventPlot.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 0162176..93ae1e9 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -86,8 +86,8 @@ var EventPlot = (function () {
 
     var generate = function (div_name, base, chart_data) {
 
-        var margin, brush, x, ext, yMain, chart, main,
-            mainAxis,
+        var margin, width, mainHeight, brush, brushScale, x, ext,
+            yMain, chart, main, mainAxis,
             itemRects, items, colourAxis, tip, lanes;
 
         var process_chart_data = function (d) {
@@ -377,7 +377,7 @@ var EventPlot = (function () {
                      *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
                      */
 
-                    scale = (width) / x(x.domain()[0] +
+                    scale = ePlot.width / x(x.domain()[0] +
                         new_domain[1] -
                         new_domain[0]);
                     zoom.scale(scale);
@@ -482,7 +482,7 @@ var EventPlot = (function () {
         var width_box_two = ePlot.width - width_box_one;
 
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From d26734977518dbc39ff9da4e6a91e2ed9f0207be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 56/67] fix: event plots without summary were not redrawn when
 the page was resized

---
 trappy/plotter/js/EventPlot.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 93ae1e9..cebcfca 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -436,7 +436,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -459,8 +460,6 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
         ePlot.mini.call(ePlot.miniAxis);
@@ -481,6 +480,8 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
             .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
-- 
2.43.0


From 198a3c430d83dd6577336b8f0cc6aa2a25bb09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 57/67] fix: the summary of a resized event plot got a second
 time axis, its own kept the old size

---
 trappy/plotter/js/EventPlot.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index cebcfca..4c79a0b 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -462,7 +462,7 @@ var EventPlot = (function () {
             .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
-        ePlot.mini.call(ePlot.miniAxis);
+        ePlot.mini.select(".axis").call(ePlot.miniAxis);
         ePlot.mini.selectAll(".miniItem").remove();
         drawMiniPaths(ePlot);
     }
-- 
2.43.0


From da60700caf70a9675373339a733b1bb3fa5d0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 58/67] fix: names of an event plot without a colour of their
 own took those of other names

---
 trappy/plotter/js/EventPlot.js | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 4c79a0b..041ab65 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -117,15 +117,16 @@ var EventPlot = (function () {
             var xMin = x.domain()[0];
             var xMax = x.domain()[1];
 
-            if (!d.colorMap) {
-                // Colour Ordinal scale. Uses Category20 Colors
-                colours = d3.scale.category20().range();
-            } else {
+            // Colour Ordinal scale. Uses Category20 Colors
+            var colours = d3.scale.category20().range();
+
+            if (d.colorMap) {
                 // Use colours provided by user
-                var colours = [];
-                for (var i in names)
-                    if (names[i] in d.colorMap)
-                        colours.push(d.colorMap[names[i]]);
+                colours = names.map(function (name, i) {
+                    if (d.colorMap.hasOwnProperty(name))
+                        return d.colorMap[name];
+                    return colours[i % colours.length];
+                });
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From a7919e0d37663c0ab7d32a63528ac7c6e255b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 59/67] fix: a click on the summary of an event plot left it
 without a time axis

---
 trappy/plotter/js/EventPlot.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 041ab65..c588ec0 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -356,11 +356,11 @@ var EventPlot = (function () {
                 var _brushed_event = function () {
                     main.selectAll("path")
                         .remove();
-                    var brush_xmin = brush.extent()[0];
-                    var brush_xmax = brush.extent()[1];
+                    // An empty selection shows everything
+                    var new_domain = brush.empty() ? x.domain() :
+                        brush.extent();
 
                     var t = zoom.translate(),
-                        new_domain = brush.extent(),
                         scale;
 
                     /*
@@ -387,9 +387,9 @@ var EventPlot = (function () {
                     zoom.translate(t);
 
 
-                    brushScale.domain(brush.extent())
-                    drawMain(ePlot, brush_xmin,
-                        brush_xmax);
+                    brushScale.domain(new_domain)
+                    drawMain(ePlot, new_domain[0],
+                        new_domain[1]);
                     ePlot.main.select('.main.axis')
                         .call(ePlot.mainAxis)
 
-- 
2.43.0


From f9b811109ae8e4b3e715f002a980cd3ec8aa05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 60/67] fix: zooming a resized event plot went off to other
 times

---
 trappy/plotter/js/EventPlot.js | 63 +++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index c588ec0..6c4cd23 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -352,6 +352,36 @@ var EventPlot = (function () {
 
             chart.on("contextmenu", contextMenuHandler);
 
+            /* Make the zoom show the given domain */
+            var zoomTo = function (new_domain) {
+
+                var t = zoom.translate(),
+                    scale;
+
+                /*
+                 *    scale = x.range()[1] - x.range[0]
+                 *          --------------------------
+                 *          x(x.domain()[1] - x.domain()[0])
+                 *
+                 *                             _                                   _
+                 *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
+                 *                            |                 ------------------- |
+                 *                            |_                     z.scale()     _|
+                 *
+                 *
+                 *
+                 *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
+                 */
+
+                scale = ePlot.width / x(x.domain()[0] +
+                    new_domain[1] -
+                    new_domain[0]);
+                zoom.scale(scale);
+                t[0] = x.range()[0] - (x(new_domain[
+                    0]) * scale);
+                zoom.translate(t);
+            };
+
             if (showSummary) {
                 var _brushed_event = function () {
                     main.selectAll("path")
@@ -360,32 +390,7 @@ var EventPlot = (function () {
                     var new_domain = brush.empty() ? x.domain() :
                         brush.extent();
 
-                    var t = zoom.translate(),
-                        scale;
-
-                    /*
-                     *    scale = x.range()[1] - x.range[0]
-                     *          --------------------------
-                     *          x(x.domain()[1] - x.domain()[0])
-                     *
-                     *                             _                                   _
-                     *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
-                     *                            |                 ------------------- |
-                     *                            |_                     z.scale()     _|
-                     *
-                     *
-                     *
-                     *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
-                     */
-
-                    scale = ePlot.width / x(x.domain()[0] +
-                        new_domain[1] -
-                        new_domain[0]);
-                    zoom.scale(scale);
-                    t[0] = x.range()[0] - (x(new_domain[
-                        0]) * scale);
-                    zoom.translate(t);
-
+                    zoomTo(new_domain);
 
                     brushScale.domain(new_domain)
                     drawMain(ePlot, new_domain[0],
@@ -431,10 +436,14 @@ var EventPlot = (function () {
 
                 /* Update scale ranges */
                 x.range([0, width]);
-                zoomScale.range([0, width]);
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
+                /* The zoom keeps a copy of its scale */
+                var domain = zoomScale.domain();
+                zoom.x(zoomScale.domain(x.domain()).range([0, width]));
+                zoomTo(domain);
+
                 resize_main(ePlot);
                 resize_info(ePlot);
                 if (showSummary)
-- 
2.43.0


From 37c193d4d3743b4e9a005cdc093e32b3462b2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 61/67] fix: showing one plot for a test changed the style of
 all later plots

---
 trappy/plotter/StaticPlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 6b104a3..bd59620 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -178,13 +178,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
     def view(self, test=False):
         """Displays the graph"""
 
+        style = AttrConf.MPL_STYLE
         if test:
             self._attr["style"] = True
-            AttrConf.MPL_STYLE["interactive"] = False
+            style = dict(style, interactive=False)
 
         permute = self._attr["permute"] and not self._attr["concat"]
         if self._attr["style"]:
-            with plt.rc_context(AttrConf.MPL_STYLE):
+            with plt.rc_context(style):
                 self._resolve(permute, self._attr["concat"])
         else:
             self._resolve(permute, self._attr["concat"])
-- 
2.43.0


From 39e4e432ac700c8632ce304fe3d5fab151b34468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 62/67] fix: the order of clusters in thermal tables and plots
 changed from run to run

---
 trappy/cpu_power.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..8d86c25 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -70,7 +70,9 @@ def pivot_with_labels(dfr, data_col_name, new_col_name, mapping_label):
 
     # There has to be a more "pandas" way of doing this.
 
-    col_set = set(dfr[new_col_name])
+    # Always in the same order: that of a set of strings changes from one run
+    # of Python to the next
+    col_set = sorted(set(dfr[new_col_name]), key=str)
 
     ret_series = {}
     for col in col_set:
-- 
2.43.0


From a0780a44574acae8d08237d743d1217b71c9e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 63/67] fix: the order of a topology's named nodes changed from
 run to run

---
 trappy/stats/Topology.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index a8ff0a3..ff20f72 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -159,7 +159,11 @@ class Topology(object):
         """Return a flattened list of nodes in the
         topology
         """
-        return list(self._nodes)
+        # A set of names would be in another order in each run of Python
+        try:
+            return sorted(self._nodes)
+        except TypeError:
+            return sorted(self._nodes, key=str)
 
     def level_span(self, level):
         """Return the number of groups in a level
-- 
2.43.0


From 70fc3a9b5f66b587597a9a4deb8ab6c292de37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 64/67] fix: the order of pivots that are the same number
 changed from run to run

---
 trappy/plotter/Constraint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index e574e14..bd11cb7 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -379,7 +379,9 @@ class ConstraintManager(object):
         for constraint in self._constraints:
             pivot_vals += list(constraint.result.keys())
 
-        p_set = set(pivot_vals)
+        # Values that are the same number ("1" and "01") would otherwise be in
+        # the order of the set, that changes from one run of Python to the next
+        p_set = sorted(set(pivot_vals), key=str)
         traces = list(range(self._lens[0]))
 
         try:
-- 
2.43.0


From a69af5956fa5b3759c17d99ec27b74caeec5a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:24 +0000
Subject: [PATCH 65/67] fix: zooming out of a plot that another joined while
 zoomed in did not show all of it

---
 trappy/plotter/js/ILinePlot.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 020a302..abe2a92 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -86,14 +86,17 @@ var ILinePlot = ( function() {
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.unshift(_decoy_elem);
                 }
-                graph.rawData_[0][0] = xRange[0];
+                /* The data, of which only a part is shown if zoomed in, lie
+                 * between the decoys: one can zoom out to all of them */
+                graph.rawData_[0][0] = Math.min(xRange[0], graph.rawData_[1][0]);
 
                 if (graph.padBack_ == undefined) {
                     graph.padBack_ = true;
                     var _decoy_elem = new Array(graph.rawData_[0].length);
                     graph.rawData_.push(_decoy_elem);
                 }
-                graph.rawData_[graph.rawData_.length - 1][0] = xRange[1];
+                var last = graph.rawData_.length - 1;
+                graph.rawData_[last][0] = Math.max(xRange[1], graph.rawData_[last - 1][0]);
             });
         }
     };
-- 
2.43.0


From bdfdffb57e4b4a3eacc442b2eb29fa87dec4a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 66/67] fix: missing values of a cached table were None instead
 of NaN

---
 trappy/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 32322b3..372a8f7 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -347,9 +347,9 @@ class Base(object):
                      if dfr.dtypes.iloc[idx].kind not in "iuf"]
 
         def encode(val):
-            if val is None or val != val:
+            if val != val:
                 return ""
-            if not isinstance(val, (basestring, int, float)):
+            if val is not None and not isinstance(val, (basestring, int, float)):
                 raise TypeError("cannot keep a {}".format(type(val).__name__))
             return json.dumps(val)
 
@@ -399,7 +399,7 @@ class Base(object):
                           float_precision="round_trip", low_memory=False)
         for idx in header["text_columns"]:
             dfr[dfr.columns[idx + 1]] = pd.Series(
-                [json.loads(val) if val else None for val in dfr.iloc[:, idx + 1]],
+                [json.loads(val) if val else float("nan") for val in dfr.iloc[:, idx + 1]],
                 index=dfr.index, dtype=object)
 
         index = pd.Index(dfr.iloc[:, 0], name=header["index"])
-- 
2.43.0


From b547f810141271c2297917fe907045ad29145c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:31 +0000
Subject: [PATCH 67/67] fix: callbacks could not be applied to events added to
 a trace

---
 trappy/ftrace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index bfd7c70..5696009 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -644,12 +644,14 @@ is part of the trace.
             )
         } for event in events}
 
-        def getLine(event):
-            line_col_idx = col_idxs[event]['__line']
-            return next_rows[event][line_col_idx]
+        def getOrder(event):
+            # Events that were added to the trace do not come from its lines
+            line_col_idx = col_idxs[event].get('__line')
+            line = -1 if line_col_idx is None else next_rows[event][line_col_idx]
+            return next_rows[event][0], line
 
         while events:
-            event_name = min(events, key=getLine)
+            event_name = min(events, key=getOrder)
             event_tuple = next_rows[event_name]
 
             event_dict = {
-- 
2.43.0

