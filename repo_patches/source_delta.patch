From e46f9a88dc7c32649b7434be328bf96a39ebcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:55:48 +0000
Subject: [PATCH 1/7] fix: keep the order of morphological aliases

AM alias tables were stored as sets. Their ph: tags feed the REP table,
so the order of suggestions changed with the interpreter's hash seed.
Store the tags of each alias as a list, in file order.
---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..5d625f5 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1109,7 +1109,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..2344461 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -262,7 +262,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..1e19287 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 import re
 
-from typing import List, Dict, Set, Optional
+from typing import List, Dict, Optional
 
 from spylls.hunspell.data import dic
 from spylls.hunspell.data.aff import Aff, RepPattern
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From c8877fa69cdac631667ce74ad07860a2033545b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:09 +0000
Subject: [PATCH 2/7] fix: do not reopen dictionary files by name to change the
 encoding

Changing the encoding reopened the file, or the archive, by its path.
If it had been replaced since, the rest was read from another version,
and the result mixed the two. Rewind the already opened stream instead.
---
 spylls/hunspell/readers/file_reader.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..8163321 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -7,7 +7,6 @@
 """
 
 import io
-import zipfile
 
 
 class BaseReader:
@@ -32,7 +31,11 @@ class BaseReader:
         self.reset_io(obj)
 
     def reset_encoding(self, encoding):
-        raise NotImplementedError
+        # Rewind the stream which is already opened: opening it again by name could get another
+        # version of the file, if it was replaced in the meantime.
+        stream = self.io.detach()
+        stream.seek(0)
+        self.reset_io(io.TextIOWrapper(stream, encoding=encoding, errors='surrogateescape'))
 
     def __iter__(self):
         return self
@@ -63,12 +66,8 @@ class FileReader(BaseReader):
     """
 
     def __init__(self, path, encoding='Windows-1252'):
-        self.path = path
         super().__init__(self._open(path, encoding))
 
-    def reset_encoding(self, encoding):
-        self.reset_io(self._open(self.path, encoding))
-
     def _open(self, path, encoding):  # pylint: disable=no-self-use
         # errors='surrogateescape', because at least hu_HU dictionary of LibreOffice uses invalid
         # in UTF-8 single-bytes as suffix flags
@@ -81,13 +80,7 @@ class ZipReader(BaseReader):
     """
 
     def __init__(self, zip_obj, encoding='Windows-1252'):
-        self.zipfile = (zip_obj._fileobj._file.name, zip_obj.name)
         super().__init__(self._open(zip_obj, encoding))
 
-    def reset_encoding(self, encoding):
-        zipname, path = self.zipfile
-        # FIXME: Like, really?..
-        self.reset_io(self._open(zipfile.ZipFile(zipname).open(path), encoding))
-
     def _open(self, zip_obj, encoding):  # pylint: disable=no-self-use
         return io.TextIOWrapper(zip_obj, encoding=encoding, errors='surrogateescape')
-- 
2.43.0


From 5fad36d8a3b5a56a008da399630e4d1a21d84f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:25 +0000
Subject: [PATCH 3/7] fix: close dictionary files when loading is finished or
 has failed

Loading never closed the files and archives it opened. After a failed
load the reader was kept by a reference cycle, so the file descriptor
stayed open until the next cyclic garbage collection.
---
 spylls/hunspell/dictionary.py          | 20 ++++++++++++--------
 spylls/hunspell/readers/file_reader.py |  7 +++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..7907c02 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -138,8 +138,10 @@ class Dictionary:
         if path in cls.DISTRIBUTED and not os.path.exists(path + '.aff'):
             path = os.path.join(os.path.dirname(os.path.realpath(__file__)), 'data', cls.DISTRIBUTED[path], path)
 
-        aff, context = readers.read_aff(FileReader(path + '.aff'))
-        dic = readers.read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
+        with FileReader(path + '.aff') as source:
+            aff, context = readers.read_aff(source)
+        with FileReader(path + '.dic', encoding=context.encoding) as source:
+            dic = readers.read_dic(source, aff=aff, context=context)
 
         return cls(aff, dic)
 
@@ -155,12 +157,14 @@ class Dictionary:
             path: Path to zip-file/extension.
         """
 
-        file = zipfile.ZipFile(path)
-        # TODO: fail if there are several
-        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
-        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
-        aff, context = readers.read_aff(ZipReader(file.open(aff_path)))
-        dic = readers.read_dic(ZipReader(file.open(dic_path), encoding=context.encoding), aff=aff, context=context)
+        with zipfile.ZipFile(path) as file:
+            # TODO: fail if there are several
+            aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
+            dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
+            with ZipReader(file.open(aff_path)) as source:
+                aff, context = readers.read_aff(source)
+            with ZipReader(file.open(dic_path), encoding=context.encoding) as source:
+                dic = readers.read_dic(source, aff=aff, context=context)
 
         return cls(aff, dic)
 
diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 8163321..c696672 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -27,9 +27,16 @@ class BaseReader:
     """
     def __init__(self, obj):
         self.line_no = 0
+        self.stream = obj.buffer
 
         self.reset_io(obj)
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *_exc):
+        self.stream.close()
+
     def reset_encoding(self, encoding):
         # Rewind the stream which is already opened: opening it again by name could get another
         # version of the file, if it was replaced in the meantime.
-- 
2.43.0


From 2a15ddb7f4bb86a58af076f5043c57a8280eceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:34 +0000
Subject: [PATCH 4/7] fix: ignore BOM in UTF-8 word lists

A byte-order mark was only removed when the file was read as
Windows-1252. In a .dic read as UTF-8 it stayed, so the line with the
number of words, or the first word, became a bogus entry.
---
 spylls/hunspell/readers/file_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index c696672..e348dbb 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -7,6 +7,7 @@
 """
 
 import io
+import re
 
 
 class BaseReader:
@@ -54,8 +55,9 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1:
+                # BOM of UTF-8 file, read as a single-byte encoding or as UTF-8
+                ln = re.sub("^(\xef\xbb\xbf|\ufeff)", '', ln)
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From 42dcf80b39be618b0d6976b63605e96f252cc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:03 +0000
Subject: [PATCH 5/7] fix: verify checksums of archive members before parsing
 them

Changing the encoding rewinds the member and reads it again, and the
checksum of what had been parsed before was never verified. Damage in a
read that happened before could get unnoticed into the result.
---
 spylls/hunspell/dictionary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 7907c02..d6e3eed 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import glob
+import io
 import zipfile
 import os
 
@@ -161,9 +162,10 @@ class Dictionary:
             # TODO: fail if there are several
             aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
             dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
-            with ZipReader(file.open(aff_path)) as source:
+            # Members are read as a whole, so that their checksums are verified before anything is parsed
+            with ZipReader(io.BytesIO(file.read(aff_path))) as source:
                 aff, context = readers.read_aff(source)
-            with ZipReader(file.open(dic_path), encoding=context.encoding) as source:
+            with ZipReader(io.BytesIO(file.read(dic_path)), encoding=context.encoding) as source:
                 dic = readers.read_dic(source, aff=aff, context=context)
 
         return cls(aff, dic)
-- 
2.43.0


From 9a6952fe186075c1ee7634f0a913642ad3718946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:06:32 +0000
Subject: [PATCH 6/7] fix: remove only the extension from the path found in
 system folders

A dictionary whose name contains '.aff' could be found, but not loaded.
---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index d6e3eed..17de3c6 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -183,7 +183,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From e0e1537d663e6d65550a3a17aaa301861eb0515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:38:56 +0000
Subject: [PATCH 7/7] fix: do not add an entry to the phonetic table for every
 unknown letter looked up

---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 77de4f6..de4e969 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -115,7 +115,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
     # http://aspell.net/man-html/Phonetic-Code.html
     while pos < len(word):
         match = None
-        for rule in table.rules[word[pos]]:
+        for rule in table.rules.get(word[pos], ()):
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-- 
2.43.0

