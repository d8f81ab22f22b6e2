From f87b09672e89ca644fa9e02debe10757fdcb9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 001/103] fix: raise instead of looping forever when an SDDS
 header ends early

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..ef72230 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line:
+            raise EOFError('End of file reached before the end of the SDDS header')
     return line
 
 
-- 
2.43.0


From 69c43d734ff859b799cc0f46dcb74fcf035a6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 002/103] fix: do not mistake page data containing a newline
 for the end of an SDDS file

---
 rsbeams/rsdata/SDDS.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..ed82c77 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -286,20 +286,17 @@ class readSDDS:
             if len(self.openf) <= position:
                 return True
         else:
-            # Usually will catch binary end
             pointer = self.openf.tell()
-
-            if not self.openf.read(1):
-                return True
-            while True:
-                line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
-
+            if self._data_mode == 'binary':
+                at_end = not self.openf.read(1)
+            else:
+                # Only blank lines and comments may be left
+                at_end = all(not line.strip() or line.lstrip().startswith(b'!')
+                             for line in iter(self.openf.readline, b''))
             self.openf.seek(pointer)
 
+            return at_end
+
         return False
 
     def _get_ascii_row_count(self, start_position):
-- 
2.43.0


From 06ca6e66124151b804b128edf74ffcfbbf4e5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 003/103] fix: read past the columns of SDDS pages that are not
 selected instead of losing position

---
 rsbeams/rsdata/SDDS.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index ed82c77..1651168 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -359,7 +359,6 @@ class readSDDS:
 
         for page in pages:
             if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
                 if self.verbose:
                     print('stopping here')
                 break
@@ -386,12 +385,10 @@ class readSDDS:
 
             if row_count == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
-                column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            # pages that are not selected must still be read to get to the start of the next page
+            column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if isinstance(user_pages, GeneratorType) or (page in user_pages):
                 self._columns.add(column_data)
-            else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From cdaaef944d734250aa3a7df854d535d8954fe3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 004/103] fix: raise when an unbuffered binary SDDS file is
 truncated instead of returning short data

---
 rsbeams/rsdata/SDDS.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 1651168..6dcb4c7 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -263,6 +263,14 @@ class readSDDS:
 
         return reader
 
+    def _read_binary(self, data_type, count, position):
+        data = self._get_reader()(self.openf, dtype=data_type, count=count, offset=position)
+        if data.size != count:
+            # np.fromfile returns whatever is left when it reaches the end of the file
+            raise ValueError('SDDS file ended before all of its data could be read')
+
+        return data
+
     def _get_column_count(self, position):
         if self.data['&data'][0].fields['mode'] == 'ascii':
             count = self._get_reader()(self.openf, skip_header=position, dtype=np.int32, max_rows=1, comments='!')
@@ -409,7 +417,7 @@ class readSDDS:
                 if self.buffer:
                     position += 1
             else:
-                new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
+                new_array = self._read_binary(dk, 1, position)
                 if self.buffer:
                     position += np.dtype(dk).itemsize
             data_arrays[-1].append(new_array)
@@ -437,7 +445,7 @@ class readSDDS:
                         if self.buffer:
                             position += 1
                     else:
-                        new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
+                        new_array = self._read_binary(dk, 1, position)
                         if self.buffer:
                             position += np.dtype(dk).itemsize
                     data_arrays[-1].append(new_array)
@@ -451,7 +459,7 @@ class readSDDS:
                 if self.buffer:
                     position += 1 * ((0 if not row_count else row_count) + new_array.size)
             else:
-                new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
+                new_array = self._read_binary(dk, row_count, position)
                 if self.buffer:
                     position += np.dtype(dk).itemsize * row_count
             data_arrays[-1].append(new_array)
-- 
2.43.0


From d5a221ece31e78b94106f40ba2b596c2935f0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 005/103] fix: allow SDDS pages to have different numbers of
 rows

---
 rsbeams/rsdata/struct_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..dac48ff 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -42,7 +42,12 @@ class StructData:
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len(set(len(page) for page in self._data)) > 1:
+            # Pages with different numbers of rows: keep each page as its own array
+            self.data = np.empty(len(self._data), dtype=object)
+            self.data[:] = self._data
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From 91659d753b86fe43e8c4d7fbdb0885fa8d083e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 006/103] fix: keep SDDS pages without rows so that columns
 stay aligned with parameters

---
 rsbeams/rsdata/SDDS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6dcb4c7..4f0c4a8 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -392,6 +392,9 @@ class readSDDS:
                 row_count = self._get_ascii_row_count(position)
 
             if row_count == 0:
+                if self._columns and (isinstance(user_pages, GeneratorType) or (page in user_pages)):
+                    # Keep columns aligned with the pages of parameters
+                    self._columns.add([[np.empty(0, dtype=self._columns.data_type)]])
                 continue
             # pages that are not selected must still be read to get to the start of the next page
             column_data, position = self._get_column_data(self._column_keys, position, row_count)
-- 
2.43.0


From 4c665fa7f572b7f4780c14d209e8242319781852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 007/103] fix: read ASCII SDDS pages line by line so that
 several pages, single rows and quoted strings are read

---
 rsbeams/rsdata/SDDS.py | 99 +++++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 36 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4f0c4a8..c0fa739 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -1,3 +1,4 @@
+import re
 from future.builtins import str
 import numpy as np
 from struct import pack
@@ -172,9 +173,9 @@ class readSDDS:
 
         if self.data['&data'][0].fields['mode'] == 'ascii':
             self._data_mode = 'ascii'
-            # need list of lines to use genfromtxt
+            # need list of lines to read page data
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = self.openf[self.header_end_pointer:].splitlines(keepends=True)
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
@@ -290,17 +291,22 @@ class readSDDS:
         return position
 
     def _check_file_end(self, position):
+        if self._data_mode == 'ascii':
+            # Only blank lines and comments may be left
+            pointer = None if self.buffer else self.openf.tell()
+            line, position = self._read_ascii_line(position)
+            while line and not line.strip():
+                line, position = self._read_ascii_line(position)
+            if not self.buffer:
+                self.openf.seek(pointer)
+
+            return not line
         if self.buffer:
             if len(self.openf) <= position:
                 return True
         else:
             pointer = self.openf.tell()
-            if self._data_mode == 'binary':
-                at_end = not self.openf.read(1)
-            else:
-                # Only blank lines and comments may be left
-                at_end = all(not line.strip() or line.lstrip().startswith(b'!')
-                             for line in iter(self.openf.readline, b''))
+            at_end = not self.openf.read(1)
             self.openf.seek(pointer)
 
             return at_end
@@ -308,23 +314,52 @@ class readSDDS:
         return False
 
     def _get_ascii_row_count(self, start_position):
+        # Rows end at a blank line or at the end of the file
+        pointer = None if self.buffer else self.openf.tell()
         line_count = 0
-        if self.buffer:
-            # openf is a list
-            for line in self.openf[start_position:]:
-                if not line:
-                    return line_count
-                else:
-                    line_count += 1
-        else:
-            start_position = self.openf.tell()
-            while True:
+        line, position = self._read_ascii_line(start_position)
+        while line.strip():
+            line_count += 1
+            line, position = self._read_ascii_line(position)
+        if not self.buffer:
+            self.openf.seek(pointer)
+
+        return line_count
+
+    def _read_ascii_line(self, position):
+        # The next line that is not a comment (empty at the end of the file), and the position after it
+        while True:
+            if self.buffer:
+                line = self.openf[position] if position < len(self.openf) else b''
+                position += 1
+            else:
                 line = self.openf.readline()
-                if not line.strip():
-                    self.openf.seek(start_position)
-                    return line_count
-                else:
-                    line_count += 1
+            if not line.lstrip().startswith(b'!'):
+                return line, position
+
+    def _read_ascii(self, data_type, count, position, split=False):
+        # Parameters are on a line of their own while the columns of a row share one (split)
+        kinds = [np.dtype(descr).kind for _, descr in data_type]
+        rows = []
+        while len(rows) < count:
+            line, position = self._read_ascii_line(position)
+            if not line:
+                raise ValueError('SDDS file ended before all of its data could be read')
+            # A comment may follow the data, though not from inside of quotes
+            line = re.match('(?:"[^"]*"|[^!])*', line.decode('latin-1')).group().strip()
+            if not line:
+                continue
+            if split:
+                entries = utils._shlex_split(line) if '"' in line else line.split()
+            else:
+                entries = [line[1:-1] if len(line) > 1 and line[0] == line[-1] == '"' else line]
+            if len(entries) != len(kinds):
+                raise ValueError('Expected {} entries in SDDS data: {}'.format(len(kinds), line))
+            rows.append(tuple(entry.encode('latin-1') if kind == 'S' else
+                              int(float(entry)) if kind == 'i' else float(entry)
+                              for kind, entry in zip(kinds, entries)))
+
+        return np.array(rows, dtype=data_type), position
 
     def read(self, pages=None):
         """
@@ -357,7 +392,8 @@ class readSDDS:
         if self._data_mode == 'binary':
             position = 0 + self.header_end_pointer * self.buffer
         else:
-            position = 0 + self._header_line_count * self.buffer
+            # Buffered lines start after the header
+            position = 0
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
@@ -415,10 +451,7 @@ class readSDDS:
                 except (ValueError, IndexError):
                     pass
             if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                               comments='!', deletechars='', unpack=False, delimiter='\n\t')
-                if self.buffer:
-                    position += 1
+                new_array, position = self._read_ascii(dk, 1, position)
             else:
                 new_array = self._read_binary(dk, 1, position)
                 if self.buffer:
@@ -443,10 +476,7 @@ class readSDDS:
                         except (ValueError, IndexError):
                             pass
                     if self.data['&data'][0].fields['mode'] == 'ascii':
-                        new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
-                                                       comments='!', deletechars='')
-                        if self.buffer:
-                            position += 1
+                        new_array, position = self._read_ascii(dk, 1, position, split=True)
                     else:
                         new_array = self._read_binary(dk, 1, position)
                         if self.buffer:
@@ -457,10 +487,7 @@ class readSDDS:
             data_arrays.append([])
             dk = data_keys[0]
             if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
-                                               comments='!', deletechars='')
-                if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                new_array, position = self._read_ascii(dk, row_count, position, split=True)
             else:
                 new_array = self._read_binary(dk, row_count, position)
                 if self.buffer:
-- 
2.43.0


From b8843f33ca84061ec379889499dd9eb5c8347fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 008/103] fix: read ASCII SDDS files with no_row_counts that
 have no parameters or several pages

---
 rsbeams/rsdata/SDDS.py      | 9 ++++-----
 rsbeams/rsdata/datatypes.py | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index c0fa739..4806c26 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -248,10 +248,6 @@ class readSDDS:
         elif not self.data['&data'][0].fields['no_row_counts'] and len(self.data['&column']) > 0:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
-        else:
-            if len(self._parameter_keys[0]) == 0:
-                # Need empty checks to succeed
-                self._parameter_keys.pop(0)
 
     def _get_reader(self):
         if self._data_mode == 'ascii':
@@ -417,7 +413,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if self._parameters and (page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
@@ -434,6 +430,9 @@ class readSDDS:
                 continue
             # pages that are not selected must still be read to get to the start of the next page
             column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if self.data['&data'][0].fields['no_row_counts']:
+                # Step over the blank line that ends the rows
+                _, position = self._read_ascii_line(position)
             if isinstance(user_pages, GeneratorType) or (page in user_pages):
                 self._columns.add(column_data)
         if self._parameters:
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..2c192ee 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -117,6 +117,7 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        self.fields["no_row_counts"] = int(self.fields["no_row_counts"])
 
 
 class Associate(Datum):
-- 
2.43.0


From f1fbe83e6beb5bb1efc68190a9875fd021220bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 009/103] fix: accept any iterable of SDDS pages, as documented

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4806c26..101172e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -379,7 +379,7 @@ class readSDDS:
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
         if pages is not None:
-            user_pages = pages
+            user_pages = list(pages)
         else:
             user_pages = utils.iter_always()
         pages = utils.iter_always()
-- 
2.43.0


From 2565e778c9daedde176d36d69afcd610e15ff720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 010/103] fix: convert fixed_value of float SDDS parameters to
 a number

---
 rsbeams/rsdata/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 2c192ee..3a4af65 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["double", "float"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
-- 
2.43.0


From 42159f53c069c3957e3d2359126af8be571b5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 011/103] fix: write SDDS parameters with a fixed value of zero

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 101172e..eefe995 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -639,7 +639,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -660,7 +660,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and value not in (None, ''):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From c5721e24b612df7030989aaf7ba5a6e2b799bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 012/103] fix: write SDDS columns with the types declared in
 the header, and row counts of empty columns

Columns of unequal length now raise before the file is opened.
---
 rsbeams/rsdata/SDDS.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index eefe995..64cec08 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -560,7 +560,7 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
@@ -692,19 +692,19 @@ class writeSDDS:
         """
 
         self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
 
         # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
-        else:
-            column_data = np.empty([0])
+        if len(set(len(column['colData']) for column in self.columns)) > 1:
+            raise ValueError('ERROR: All columns on a page must have same length')
+
+        # Each column is stored with the type that is declared for it in the header
+        row_count = len(self.columns[0]['colData']) if self.columns else 0
+        column_data = np.empty(row_count, dtype=[('column_{}'.format(i), utils.data_types[column['colType']])
+                                                 for i, column in enumerate(self.columns)])
+        for name, column in zip(column_data.dtype.names or (), self.columns):
+            column_data[name] = column['colData']
+
+        outputFile = open(fileName, 'wb')
 
         # Begin header writeout
         self._write_header(outputFile)
@@ -727,13 +727,14 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
+            np.savetxt(outputFile, column_data, fmt=['%.18e' if column['colType'] == 'double' else '%d'
+                                                     for column in self.columns])
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 836ffd9b5101ac461cce8ceb8875a19ca7400bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 013/103] fix: read elegant files that hold a single particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..a80ee67 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = read_particle_data.columns.squeeze(axis=0)
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From b62bb478d45b1707294c27505859504ad7f9749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 014/103] fix: honour OPAL step number 0 and a TotalCharge of 0

---
 rsbeams/rsdata/switchyard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index a80ee67..8fa4618 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From f64a69e9b8ccc651447acc040804fbc134bc9966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 015/103] fix: keep precision of gamma for ultrarelativistic
 momentum, beta*gamma and Brho

---
 rsbeams/rsstats/kinematic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..a0c30cc 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -239,12 +239,12 @@ class Converter:
         """
         beta = betagamma / np.sqrt(1 + betagamma**2)
 
-        return beta, 1. / np.sqrt(1 - beta**2)
+        return beta, np.sqrt(1 + betagamma**2)
 
     def start_momentum(self, momentum):
         normalized_momentum = momentum / self.mass
         beta = normalized_momentum / np.sqrt(1 + normalized_momentum**2)
-        gamma = 1 / np.sqrt(1 - beta**2)
+        gamma = np.sqrt(1 + normalized_momentum**2)
 
         return beta, gamma
 
-- 
2.43.0


From 453d152452df2c57c256058e4bc675c97f059cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 016/103] fix: report the mass and input of a kinematic
 conversion in the units they are labelled with

---
 rsbeams/rsstats/kinematic.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index a0c30cc..beb256d 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -83,6 +83,9 @@ class Converter:
                     declaration += 1
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
+        # Values as given by the user, for echoing with the output
+        self._user_args = dict(self.args)
+
         # Convert to eV for internal use
         if self.args['input_unit'] == 'SI':
             self._unit_convert(input_unit='SI', input_dict=self.args)
@@ -121,7 +124,7 @@ class Converter:
             if self.args['mass']:
                 self.mass = self.args['mass'] * (
                             1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self._user_args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
@@ -129,7 +132,7 @@ class Converter:
             if self.args['mass'] is not None:
                 self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
                             self.args['input_unit'] == 'eV'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self._user_args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
@@ -141,7 +144,7 @@ class Converter:
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
+                self.outputs["input"] = self._user_args[key]
                 self.outputs["input_type"] = key
                 self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
 
@@ -178,7 +181,10 @@ class Converter:
         Brho: {brho} T*m
         """
         if self.args['output_unit'] == 'SI':
+            # Mass is always given in the units of mass_unit
+            mass = self.outputs["mass"]
             self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            self.outputs["mass"] = mass
 
         if not silent:
             print(print_string.format(**self.outputs))
-- 
2.43.0


From 497295c36192eaa18a5f21ce4d21ce62e42cc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 017/103] fix: give the same result when a kinematic Converter
 is called more than once

---
 rsbeams/rsstats/kinematic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index beb256d..0d0c017 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -136,11 +136,15 @@ class Converter:
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
+        self._calculators = dict(self.outputs)
 
     def __call__(self, *args, silent=False, **kwargs):
         """Run kinematic conversion.
         silent (bool): If True then suppress printout and just return values in dict.
         """
+        # Start from the methods each time since they are replaced by their results
+        self.outputs = dict(self._calculators)
+
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-- 
2.43.0


From d47ce8989cfcb452df88a12b7aa581f6f6c17be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 018/103] fix: do not overwrite the first particle while
 computing 6D variances

---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..760782f 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].astype(float)
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From 5ac22173746dbc98cc3c620399ba9a758e50905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 019/103] fix: keep interpolated samples inside of the sampling
 interval

---
 rsbeams/rsstats/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..e276437 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -99,7 +99,8 @@ def sample(n: int, distribution: callable, a: int, b: int,
         return x[samples]
     elif invert == 'interpolate':
         icdf = interpolate.interp1d(cdf_vals, x, kind='cubic', fill_value='extrapolate')
-        samples = icdf(y)
+        # extrapolation below the first CDF value may leave the interval
+        samples = np.clip(icdf(y), a, b)
         return samples
     else:
         raise NotImplementedError(f'{invert} is not supported for invert')
-- 
2.43.0


From 467a4b6758443c4b0bea0820a2d6caade739d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 020/103] fix: return a flat array of n points from Halton
 sampling

---
 rsbeams/rsstats/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index e276437..c9290f7 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -90,7 +90,7 @@ def sample(n: int, distribution: callable, a: int, b: int,
         y = np.random.random(n)
     elif method == 'halton':
         sampler = stats.qmc.Halton(d=1, scramble=True)
-        y = sampler.random(n=n)
+        y = sampler.random(n=n).ravel()
     else:
         raise NotImplementedError(f'{method} is not supported for method')
 
-- 
2.43.0


From 60cdc14573c0f37f30115b91c6b55ae1903f93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 021/103] fix: keep the sign of alpha when Twiss beta and gamma
 are equal

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..7dd6251 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if (alphaII < 0.0) == (gMinusB >= 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From 03f9737686c91b1b2852136e0d7343052f26147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 022/103] fix: report the unsupported distrib_type instead of
 an AttributeError

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 7dd6251..77905c1 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -27,7 +27,7 @@ class RsDistrib6D:
         if ( (distrib_type != 'uniform') and
              (distrib_type != 'gaussian') ):
             message = '\n\nERROR --'
-            message += '\n    distrib_type is specified as "' + self.distrib_type + '", which is not supported.'
+            message += '\n    distrib_type is specified as "' + str(distrib_type) + '", which is not supported.'
             message += '\n    Only "uniform" and "gaussian" are allowed.'
             message += '\n'
             raise Exception(message)
-- 
2.43.0


From 677369a87ef2356cc2dc1ade1fee7e30c45fbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 023/103] fix: make bunch betay independent of betax where it
 is read and set

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..29e349d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
@@ -401,13 +401,13 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From 556df72ffe319a5fd4db54a0937166749e6169ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 024/103] fix: NameError when setting the cutoff of a
 NonlinearBunch

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 29e349d..e0af2f9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 1c2a7b90cffb8a2008bcf7ee22cbf86413aa0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 025/103] fix: let NonlinearBunch take the quiet option

---
 rsbeams/rsptcls/bunch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index e0af2f9..a072c76 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -328,7 +328,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -349,7 +349,8 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed,
+                                            quiet)
 
         self._t = t
         self._c = c
-- 
2.43.0


From b03bdeb280b3592eec7bd3afb7eed3de4ee0682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 026/103] fix: keep quiet start particles on the KV shell when
 alpha is not zero

---
 rsbeams/rsptcls/bunch.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index a072c76..8203816 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -294,13 +294,15 @@ class StandardBunch(object):
         translation2 = np.array([-1,-1,-1,-1])
         translation3 = np.array([1,-1,1,-1])
 
-        ptcl1 = ptclCoords * translation1
-        ptcl2 = ptclCoords * translation2
-        ptcl3 = ptclCoords * translation3
-
-        phaseSpaceList.append(ptcl1)
-        phaseSpaceList.append(ptcl2)
-        phaseSpaceList.append(ptcl3)
+        # Reflections are made without the slope from alpha so that they keep the invariant of the particle
+        slope = np.array([self.alphax / self.betax, self.alphay / self.betay])
+        normalCoords = ptclCoords.copy()
+        normalCoords[1::2] += slope * normalCoords[::2]
+
+        for translation in (translation1, translation2, translation3):
+            ptcl = normalCoords * translation
+            ptcl[1::2] -= slope * ptcl[::2]
+            phaseSpaceList.append(ptcl)
 
 
 class NonlinearBunch(StandardBunch):
-- 
2.43.0


From 39c0343a8d65ae847d506d13f1bc3f0ec204cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 027/103] fix: use the seed given to a bunch when generating
 its particles

---
 rsbeams/rsptcls/bunch.py | 46 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 8203816..bb4e785 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -96,8 +96,12 @@ class StandardBunch(object):
         #define seed
         if seed is not None:
             self.seed = seed
+            self._random = random.Random(seed)
+            self._np_random = np.random.RandomState(self._random.getrandbits(32))
         else:
             self.seed = random.seed()
+            self._random = random
+            self._np_random = np.random
 
         #create particles array
         self.particles = np.zeros((npart,7))
@@ -159,8 +163,8 @@ class StandardBunch(object):
         if dpop is not None:
             self.dpop = dpop
 
-        self.particles[:,4] = np.random.randn(self.npart)*self.stdz #set z coordinate
-        self.particles[:,5] = np.random.randn(self.npart)*self.dpop #set dpop coordinate
+        self.particles[:,4] = self._np_random.randn(self.npart)*self.stdz #set z coordinate
+        self.particles[:,5] = self._np_random.randn(self.npart)*self.dpop #set dpop coordinate
 
     def set_transverse_coordinates(self, emitx = None, emity = None, betax = None, alphax = None, betay = None, alphay = None):
         """Define the arrays describing the longitudinal coordinates z, dpop"""
@@ -194,10 +198,10 @@ class StandardBunch(object):
         sigma_y = np.sqrt(self.emity*self._betay)
         sigma_yp = np.sqrt(self.emity*self._gammay)
 
-        self.particles[:,0] = np.random.randn(self.npart)*sigma_x #set x-coordinates
-        self.particles[:,1] = np.random.randn(self.npart)*sigma_xp #set xp-coordinates
-        self.particles[:,2] = np.random.randn(self.npart)*sigma_y #set y-coordinates
-        self.particles[:,3] = np.random.randn(self.npart)*sigma_yp #set yp-coordinates
+        self.particles[:,0] = self._np_random.randn(self.npart)*sigma_x #set x-coordinates
+        self.particles[:,1] = self._np_random.randn(self.npart)*sigma_xp #set xp-coordinates
+        self.particles[:,2] = self._np_random.randn(self.npart)*sigma_y #set y-coordinates
+        self.particles[:,3] = self._np_random.randn(self.npart)*sigma_yp #set yp-coordinates
 
 
     def distribute_KV(self):
@@ -226,13 +230,13 @@ class StandardBunch(object):
 
         while ptclsMade < self.npart:
             #Note that the particle coordinates here are distributed in normal coordinates
-            xTrial = 2.*(0.5 - random.random())*xMax
-            yTrial = 2.*(0.5 - random.random())*yMax
+            xTrial = 2.*(0.5 - self._random.random())*xMax
+            yTrial = 2.*(0.5 - self._random.random())*yMax
             trialValue = self.compute_potential(xTrial, yTrial)
             if trialValue < self.emit:
 
                 pMag = np.sqrt(2.*(self.emit - trialValue))
-                pDir = 2.*np.pi * random.random()
+                pDir = 2.*np.pi * self._random.random()
                 pxHat = pMag * np.cos(pDir)
                 pyHat = pMag * np.sin(pDir)
 
@@ -499,13 +503,13 @@ class NonlinearBunch(StandardBunch):
 
         while ptclsMade < self.npart:
             #Note that the particle coordinates here are distributed in normal coordinates
-            xTrial = 2.*(0.5 - random.random())*xMax
-            yTrial = 2.*(0.5 - random.random())*yMax
+            xTrial = 2.*(0.5 - self._random.random())*xMax
+            yTrial = 2.*(0.5 - self._random.random())*yMax
             trialValue = self.compute_potential(xTrial, yTrial)
             if trialValue < self.emit:
 
                 pMag = np.sqrt(2.*(self.emit - trialValue))
-                pDir = 2.*np.pi * random.random()
+                pDir = 2.*np.pi * self._random.random()
                 pxHat = pMag * np.cos(pDir)
                 pyHat = pMag * np.sin(pDir)
 
@@ -543,7 +547,7 @@ class NonlinearBunch(StandardBunch):
         while ptclsMade < self.npart:
             ranU = 0.0
             while ranU <= 0:
-                ranU = random.random()
+                ranU = self._random.random()
 
             # Generate some bounds on the transverse size to reduce waste in generating the bunch
             # Use the lemming method to find the maximum y
@@ -559,14 +563,14 @@ class NonlinearBunch(StandardBunch):
 
             trialValue = 1e10
             while trialValue >= newH:
-                xTrial = 2.*(0.5 - random.random())*xMax
-                yTrial = 2.*(0.5 - random.random())*yMax
+                xTrial = 2.*(0.5 - self._random.random())*xMax
+                yTrial = 2.*(0.5 - self._random.random())*yMax
                 trialValue = self.compute_potential(xTrial, yTrial)
 
             initialValue = trialValue
             if initialValue < newH:
                 pMag = np.sqrt(2*(newH - initialValue))
-                pDir = 2*np.pi* random.random()
+                pDir = 2*np.pi* self._random.random()
                 pxHat = pMag * np.cos(pDir)
                 pyHat = pMag * np.sin(pDir)
                 xReal = xTrial * np.sqrt(self.betax)
@@ -610,8 +614,8 @@ class NonlinearBunch(StandardBunch):
                 ranU1 = 0.0
                 ranU2 = 0.0
                 while ranU1*ranU2 <= 0:
-                    ranU1 = random.random()
-                    ranU2 = random.random()
+                    ranU1 = self._random.random()
+                    ranU2 = self._random.random()
                 trialH = -1.0*np.log(ranU1*ranU2)   #Generate an Erlang distribution in h
 
 
@@ -630,13 +634,13 @@ class NonlinearBunch(StandardBunch):
 
             trialValue = 1e10
             while trialValue >= newH:
-                xTrial = 2.*(0.5 - random.random())*xMax
-                yTrial = 2.*(0.5 - random.random())*yMax
+                xTrial = 2.*(0.5 - self._random.random())*xMax
+                yTrial = 2.*(0.5 - self._random.random())*yMax
                 trialValue = self.compute_potential(xTrial, yTrial)
             initialValue = trialValue
             if initialValue < newH:
                 pMag = np.sqrt(2*(newH - initialValue))
-                pDir = 2*np.pi* random.random()
+                pDir = 2*np.pi* self._random.random()
                 pxHat = pMag * np.cos(pDir)
                 pyHat = pMag * np.sin(pDir)
                 xReal = xTrial * np.sqrt(self.betax)
-- 
2.43.0


From 58dde715f71c74fefbfa8d0b3d50dc5780a43695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 028/103] fix: define KG_to_EV in rsconst after the constants
 it is made from

---
 rsbeams/rsphysics/rsconst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsphysics/rsconst.py b/rsbeams/rsphysics/rsconst.py
index c1286d5..0ae06e2 100644
--- a/rsbeams/rsphysics/rsconst.py
+++ b/rsbeams/rsphysics/rsconst.py
@@ -10,7 +10,6 @@ import scipy.constants as const
 # DEPRECATED use rsmath.rsconst or scipy
 C_to_STATC = const.c * 10.0
 EV_to_ERG = 1.602e-12
-KG_to_EV = c_SQ / e
 MKS_factor = 1.0 / (4.0 * math.pi * const.epsilon_0)
 RT_2 = math.sqrt(2.0)
 RT_2_OVER_PI = math.sqrt(2 / math.pi)
@@ -21,6 +20,7 @@ c_CGS = const.c * 100
 c_INV = 1.0 / const.c
 c_SQ = const.c**2
 e = const.e
+KG_to_EV = c_SQ / e
 e_CGS = const.e * C_to_STATC
 epsilon_0 = const.epsilon_0
 m_e = const.m_e
-- 
2.43.0


From a13790a5d3d08c260a24ee7c751e34ebb8896764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 029/103] fix: NameError when setting the aperture parameter of
 a NonlinearInsert

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From e97876bebc21bb4f7da1cf97fdeac1f8297db3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 030/103] fix: centroid position is not NaN for zero or
 negative tune dependence coefficients

---
 rsbeams/rsphysics/decoherence.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..77b326b 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -99,6 +99,8 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[0] == 0:
+            return self.Z * np.cos(2 * np.pi * self.nu0 * n)
 
         xN = self.Z / (2. * np.pi * n * self.mu[0]) * \
              (np.cos(2 * np.pi * self.nu0 * n) * np.sin(2 * np.pi * n * self.mu[0]) +
@@ -123,6 +125,13 @@ class CentroidPosition:
             n = self.N
         if n == 0:
             return self.Z
+        if self.mu[1] == 0:
+            return self.integrate_first_order(n)
+        if self.mu[1] < 0:
+            # The centroid does not depend on the overall sign of the tunes
+            return CentroidPosition(
+                self.N, self.Z, -self.nu0, [-m for m in self.mu]
+            ).integrate_second_order(n)
 
         def integrand(u, N):
             fS, fC = fresnel((self.mu[0] * N * np.pi + self.mu[1] * u) / np.sqrt(self.mu[1] * N * np.pi**2))
-- 
2.43.0


From f0c285c95e6e74f2a34db5a667f877a8e7edbbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 031/103] fix: save and load beamlines with the YAML API that
 ruamel.yaml provides

---
 rsbeams/rslattice/Beamline.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..1077c85 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -9,7 +9,7 @@ from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
 from sympy import symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
-from ruamel import yaml
+from ruamel.yaml import YAML
 from collections import UserList
 
 # TODO: Have StructuredBeamline inherit from UserList and remove the sequence attribute and just use self
@@ -127,18 +127,16 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            yaml = YAML(typ="safe", pure=True)
+            yaml.default_flow_style = False
+            yaml.dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
-- 
2.43.0


From 499fbf47ffb52da5b02f29eee08953932553ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 032/103] fix: keep sublines separate and in place when loading
 a beamline

---
 rsbeams/rslattice/Beamline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 1077c85..b290df2 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -151,8 +151,9 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    # Names of sublines are not saved
+                    beamline.add_beamline(name=f"line{len(beamline.lines)}")
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From a5403d2615885029600b7cae3b66c75350b9248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 033/103] fix: edit elements of sublines by name instead of
 failing or skipping them

---
 rsbeams/rslattice/Beamline.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b290df2..5c814a3 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -214,21 +214,21 @@ class StructuredBeamline(object):
             ]
 
         if type(element) == str:
-            eles = [i for i, ele in enumerate(self.sequence) if ele.name == element]
+            eles = [ele for ele in self.get_beamline_elements() if ele.name == element]
         elif type(element) == int:
-            eles = [element]
+            eles = [self.sequence[element]]
 
-        for index in eles:
+        for ele in eles:
             for p, v in zip(parameter, value):
                 try:
-                    self.sequence[index].parameters[p]
-                    self.sequence[index].parameters[p] = v
+                    ele.parameters[p]
+                    ele.parameters[p] = v
                 except KeyError:
-                    self.sequence[index].parameters[p] = v
+                    ele.parameters[p] = v
                     if warnings:
                         print(
                             "WARNING: Creating a new parameter {} for element {}".format(
-                                p, self.sequence[index].name
+                                p, ele.name
                             )
                         )
 
-- 
2.43.0


From e38929f7d6216c6941998e93840cf57d78a74644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 034/103] fix: use the element parameters when generating
 beamline matrices

---
 rsbeams/rslattice/Beamline.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 5c814a3..5ba1ce2 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,6 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
+import numpy as np
 from sympy import symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel.yaml import YAML
@@ -235,14 +236,20 @@ class StructuredBeamline(object):
     def generate_matrix(self, concatenate=True):
         elements = []
         variables = {}
-        for ele in self.sequence:
+        for ele in self.get_beamline_elements():
             elements.append(self.matrices[ele.type])
+            if ele.type == "quadrupole" and ele.parameters["K1"] == 0:
+                elements[-1] = self.matrices["drift"]  # The limit of K1 -> 0
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
+                # Element parameters are stored in lower case
+                key = {"k1": self.K1, "l": self.L}.get(key)
+                if key is None:
+                    continue
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
+                    elements[-1] = elements[-1].subs(key, variables[val])
                 else:
                     elements[-1] = elements[-1].subs(key, val)
 
@@ -253,7 +260,12 @@ class StructuredBeamline(object):
             elements = matrix
 
         if len(variables) > 0:
-            eval_matrix = lambdify([val for val in variables.values()], elements)
+            # Either sign of K1 may be given, so square roots may be imaginary
+            eval_matrix = lambdify(
+                [val for val in variables.values()],
+                elements,
+                modules=[{"sqrt": np.emath.sqrt}, "numpy"],
+            )
             return eval_matrix, elements
         else:
             return elements
-- 
2.43.0


From 1079365a798472735ac0ab849623297ffd430687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 035/103] fix: look up element parameters in any case with get
 and in

---
 rsbeams/rslattice/Element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..87e98d0 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,12 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __contains__(self, key):
+        return dict.__contains__(self, key.lower() if type(key) == str else key)
+
+    def get(self, key, default=None):
+        return dict.get(self, key.lower() if type(key) == str else key, default)
+
 
 class Element(object):
     """
-- 
2.43.0


From b799a3638e9af0f37e67f1e064e7939cc1994338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 036/103] fix: do not duplicate repeated lines, and reverse
 nested lines, when importing Sirepo beamlines

---
 .../rslattice/templates/lattice_importer.py   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..2f49145 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -74,20 +74,19 @@ def parse_json(sirepo_json, beamline):
     def generate_beamline(items, beamline, definition):
         for item in items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
-                    generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
+                name = beamline_definitions[abs(item)]["name"]
+                sub_items = beamline_definitions[abs(item)]["items"]
+                if item < 0:
+                    # A reversed line is distinct from the line and reverses the lines it contains
+                    name = f"-{name}"
+                    sub_items = [
+                        -i if abs(i) in beamline_definitions else i
+                        for i in sub_items[::-1]
+                    ]
+                is_new = name not in beamline.lines
+                beamline.add_beamline(name)
+                if is_new:
+                    generate_beamline(sub_items, beamline.lines[name], definition)
             else:
                 element = element_defitions[item]
                 element_minus_special = {
-- 
2.43.0


From adaeb1a0ee63d85c66bc3fb4afd3fd7410b3905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 037/103] fix: beamline length and element edges of beamlines
 imported from Sirepo, where lengths are strings

---
 rsbeams/rslattice/Beamline.py | 2 +-
 rsbeams/rslattice/Element.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 5ba1ce2..585b5de 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -183,7 +183,7 @@ class StructuredBeamline(object):
         length = 0.0
         for ele in self.get_beamline_elements():
             try:
-                length += ele.parameters["L"]
+                length += float(ele.parameters["L"])
             except KeyError:
                 pass
 
diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 87e98d0..0f215bd 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -118,7 +118,7 @@ class Element(object):
         for ele in self._beamline.get_beamline_elements():
             if ele != self:
                 try:
-                    length += ele.parameters["L"]
+                    length += float(ele.parameters["L"])
                 except KeyError:
                     pass
             else:
-- 
2.43.0


From 90f770dfab8fe4e2334ba0c593b3fd3ada698240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 038/103] fix: magnet strengths and bend radii in elegant to
 Warp conversion

---
 rsbeams/pkcli/lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..9648217 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -18,7 +18,7 @@ def _get_gradient(k1, energy, mass, n=1):
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
@@ -26,9 +26,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'rben', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'sext' or ele.type == 'ksext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
 
 # Public Functions
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From 9cd2e6ecb4d3474697aa6ce76da8a30afa69aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 039/103] fix: define all elements each time a Warp beamline is
 written

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..c568269 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -56,6 +56,7 @@ class WarpWriter:
 
     def write_file(self, filename):
         contents = "import warp as wp\n"
+        self.element_names = []
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
         
-- 
2.43.0


From 40b8354149206403af50007af65169bb9b58d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 040/103] fix: IndexError when a lattice file ends with a
 comment

---
 rsbeams/rslattice/lte_parser.py     | 1 +
 rsbeams/rslattice/trace3d_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..c04a1a7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -283,6 +283,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 78e511d7b1d692e88138ac511fcba8f88a24b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 041/103] fix: parse Trace3D beamlines, up to and including the
 last element

---
 rsbeams/rslattice/trace3d_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..0fbfb44 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -102,6 +102,8 @@ class Trace3d(BeamlineParser):
         10: 'rfca'
     }
 
+    handlers = {}
+
     conversions = {
         # Multiply by to get BeamLine Units (mostly SI)
 
@@ -185,7 +187,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From a61a8b30db09e38e39d6960d2e9fe99e3fb03123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 042/103] fix: keep the sign and exponent of all numbers in
 Trace3D and TraceWin files

---
 rsbeams/rslattice/trace3d_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 0fbfb44..0a1f9a4 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.constants import c
 from re import findall
 
+NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
+
 # lengths: mm
 # quad strength: T/m
 # bend angles: deg
@@ -153,7 +155,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(NUMBER, line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -334,7 +336,7 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = findall(NUMBER, line)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 5534aa868b434c6c3defe637fb674d8a4e1b1333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 043/103] fix: use the frequency set in a TraceWin file

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 0a1f9a4..a16aba8 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -270,7 +270,7 @@ class TraceWin(Trace3d):
         # cavities
         'LQ1': 1e-3,
         'LQ2': 1e-3,
-        'frequency': 1e6
+        'FREQUENCY': 1e6
     }
 
     def handle_dtl_cell(self, name, element, beamline):
@@ -306,7 +306,7 @@ class TraceWin(Trace3d):
                               'frequency': cavity_FREQ})
 
     def handle_freq(self, name, element, beamline):
-        self.global_parameters['frequency'] = element['frequency']
+        self.global_parameters['frequency'] = element['FREQUENCY']
 
     def handle_field_map(self, name, element, beamline):
         # Very crude implementation of this element. We will assume just 1D RF field for now.
-- 
2.43.0


From c4c5d7ac32d0b68307ed440a5136d6e952f3173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 044/103] fix: repeated, nested and quoted lines in elegant
 lattices keep their place and are not duplicated

---
 rsbeams/rslattice/lte_parser.py | 66 +++++++++++++++++----------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c04a1a7..148f05c 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,7 +72,7 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
 
     def find_beamlines(self):
         """
@@ -104,8 +104,8 @@ class BeamlineParser(object):
 
         beamline_string = self.beamline_string[1:]  # Consume opening '('
         coefficient = ''
-        lines_list = []  # Holds beamline definitions if recursion is necessary
-        flag_subline = False  # Set if recursion begins
+        lines_list = []  # Holds beamline definitions, and the lines they belong to, if recursion is necessary
+        current_line = self.beamline  # Line that elements are added to
 
         """
         Order of operations for parsing:
@@ -140,29 +140,29 @@ class BeamlineParser(object):
                 next_element_end = beamline_string.find(')')
 
             element_name = beamline_string[:next_element_end].strip()
-            # If element is a line definition then start recursion process
-            if element_name in self.lines:
-                print("Starting on line:", element_name)
-                if beamline_string.find(',') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(',') + 1:]  # Consume element name and ','
-                elif beamline_string.find(')') > -1:
-                    beamline_string = beamline_string[
-                                      beamline_string.find(')') + 1:]  # Consume element name and ')'
-                if beamline_string.strip():
-                    lines_list.append(beamline_string)
-
-                # Set beamline_string to be new beamline
-                beamline_string = self.lines[element_name]
-                beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
-                flag_subline = True
-                continue
+            beamline_string = beamline_string[next_element_end + 1:]  # Consume element name
+            # Catch dangling bracket
+            if beamline_string.strip() == ')':
+                beamline_string = ''
 
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
             element_name = element_name.replace('\'', '')
             element_name = element_name.replace('"', '')
 
+            # If element is a line definition then start recursion process
+            if element_name in self.lines:
+                is_new = element_name not in current_line.lines
+                current_line.add_beamline(name=element_name)
+                if is_new:
+                    print("Starting on line:", element_name)
+                    lines_list.append((beamline_string, current_line))
+                    # Set beamline_string to be new beamline
+                    beamline_string = self.lines[element_name]
+                    beamline_string = beamline_string[1:]  # Consume opening '('
+                    current_line = current_line.lines[element_name]
+                beamline_string, current_line = self._move_up(beamline_string, current_line, lines_list)
+                continue
+
             # Find definition of element in lattice definition file
             element_definition = None
             for line in self.lattice_definition:
@@ -178,19 +178,21 @@ class BeamlineParser(object):
                 print("\n\nElement Definition for {} not found".format(repr(element_name)))
                 raise
 
-            self.beamline.add_element(element_name, element_type, element_parameters, subline=flag_subline)
-            beamline_string = beamline_string[next_element_end + 1:]  # Consume element name
+            current_line.add_element(element_name, element_type, element_parameters)
+            beamline_string, current_line = self._move_up(beamline_string, current_line, lines_list)
 
-            # Catch dangling bracket
-            if beamline_string.rstrip() == ')':
-                beamline_string = ''
+    def _move_up(self, beamline_string, current_line, lines_list):
+        """
+        Return to the enclosing lines of the lines that have been parsed to their end.
+        :param beamline_string:
+        :param current_line:
+        :param lines_list:
+        :return:
+        """
+        while lines_list and not beamline_string.strip():
+            beamline_string, current_line = lines_list.pop()
 
-            # Move up 1 level in recursion
-            if not beamline_string.strip():
-                if len(lines_list) != 0:
-                    beamline_string = lines_list[-1]
-                    lines_list.pop()
-                    flag_subline = False
+        return beamline_string, current_line
 
     def _expand_line(self, beamline_string, coefficient):
         """
-- 
2.43.0


From b5299a347fdfdb90ab34e8d03206b5c5cdd25d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 045/103] fix: allow white space in the beamlines of elegant
 lattices

---
 rsbeams/rslattice/lte_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 148f05c..9a0948e 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,6 +8,7 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
 digits = '0123456789'
 
@@ -83,7 +84,10 @@ class BeamlineParser(object):
             return "Set Beamline"
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
-            if self.lattice_definition[linenumber].find('line=(') > -1:
+            if re.search(r':\s*line\s*=\s*\(', self.lattice_definition[linenumber]):
+                # Remove optional white space around '=', '(', ')', ',', '*'
+                self.lattice_definition[linenumber] = re.sub(r'\s*([=(),*])\s*', r'\1',
+                                                             self.lattice_definition[linenumber])
                 def_start = self.lattice_definition[linenumber].find('=') + 1
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
                     self.lattice_definition[linenumber][def_start:]
@@ -326,7 +330,7 @@ class BeamlineParser(object):
         if end < 0:
             return -1
 
-        return line[0:end].strip('"')
+        return line[0:end].strip().strip('"')
 
 
 def parse_rpn(expression):
-- 
2.43.0


From a474bb8b2518bcdee853d894741a2e0e1b74fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 046/103] fix: keep the type of elements without parameters at
 the end of an elegant lattice

---
 rsbeams/rslattice/lte_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 9a0948e..b2ea91f 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -245,6 +245,8 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
-- 
2.43.0


From ec1075be1efd722be186d8fa63bc0494b9618b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 047/103] fix: read empty and last non-numeric parameters of
 elegant elements

---
 rsbeams/rslattice/lte_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b2ea91f..3dd9146 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -260,14 +260,14 @@ class BeamlineParser(object):
 
             try:
                 element_parameters[key] = parse_rpn(beamline_string[2])
-            except ValueError:
+            except (ValueError, IndexError):
                 beamline_string = beamline_string[2].partition(',')
                 try:
                     element_parameters[key] = parse_rpn(beamline_string[0])
-                except ValueError:
+                except (ValueError, IndexError):
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
+                    element_parameters[key] = beamline_string[0].strip()
 
             beamline_string = beamline_string[2]
 
@@ -321,10 +321,14 @@ class BeamlineParser(object):
         """
 
         for linenumber in range(len(self.lattice_definition)):
+            # Only replace whole words, in the values of element parameters
+            name, colon, definition = self.lattice_definition[linenumber].partition(':')
+            if not colon or re.match(r'\s*line\s*=', definition):
+                continue
             for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+                definition = re.sub(r'(?<![\w.]){}(?![\w.]|\s*=)'.format(re.escape(key)),
+                                    lambda _: str(self.rpn_variables[key]), definition)
+            self.lattice_definition[linenumber] = name + colon + definition
 
     def _read_name(self, line):
         end = line.find(':')
-- 
2.43.0


From cb7395688495cde6bd2c1e8cc559f2dcd2b3ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 048/103] fix: evaluate RPN variables of elegant lattices in
 the order they are defined

---
 rsbeams/rslattice/lte_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 3dd9146..ad99c35 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -311,9 +311,12 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
-            if self.lattice_definition[linenumber].lstrip()[0] == '%':
-                variable = self.lattice_definition[linenumber].split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
+        # A variable may be defined from those above it
+        for line in self.lattice_definition:
+            if line.lstrip()[0] == '%':
+                variable = line.split()
+                expression = [str(self.rpn_variables.get(v, v)) for v in variable[1:-2]]
+                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(expression))
 
     def _replace_stored_variables(self):
         """
-- 
2.43.0


From bdd276e0838d5e84b4535afd390216ab8b8ed018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 049/103] fix: plot longitudinal phase space of SDDS files
 without Charge

---
 rsbeams/rsplot/beam_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index c71e97a..92cada3 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -175,7 +175,7 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except KeyError:
+        except (KeyError, ValueError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From 9590220bc6b82ba39c54f00d464801b4e7f2ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 050/103] fix: keep characters of SDDS symbols that have no
 greek or special equivalent

---
 rsbeams/rsplot/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..2fbc55a 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -148,6 +148,7 @@ def process_character(char, mapping):
         return mapping[char]
     except KeyError:
         print(f"Could not find {char}")
+        return char
 
 
 def format_symbol(description, matplotlib=True):
-- 
2.43.0


From be3c8248656034ac0509aa165003b09e1d61d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 051/103] fix: scatter and contour plots with the current
 matplotlib and numpy

---
 rsbeams/rsplot/plot_ptcls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..8e9ae1b 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -48,7 +48,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
             shape_x = math.sqrt(points*ratio)
             shape_y = math.sqrt(points/ratio)
             x_mesh, y_mesh = numpy.meshgrid(x_data[0], x_data[1])
-            z_mesh = y_data.reshape([shape_x, shape_y])
+            z_mesh = y_data.reshape([int(round(shape_x)), int(round(shape_y))])
             z_mesh = z_mesh[0:len(x_data[0]), 0:len(x_data[1])]
 
             ref = ax.contourf(x_mesh, y_mesh, z_mesh, levels=levels, \
@@ -109,17 +109,17 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0


From 11abe29f8e2764aa6e08341895b5d8a6a13992af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 052/103] fix: do not cut off axis labels given to
 RsScatterPS6D

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..4cc8e58 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], dtype=object)
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From b18a976d1030514f1403c7180031aa17630aa7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 053/103] fix: write the first registered species by default,
 as documented

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 8fa4618..64e76c9 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -289,7 +289,7 @@ class Switchyard:
         """.format(sn=_DEFAULT_SPECIES_NAME)
 
         if not species_name:
-            species_name = _DEFAULT_SPECIES_NAME
+            species_name = next(iter(self.species), _DEFAULT_SPECIES_NAME)
 
         self._writers[code](filename, species_name, **kwargs)
 
-- 
2.43.0


From 49f0b09ba0c5ade9f81549e67bc30b8f5b59c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 054/103] fix: find the size of KV and nonlinear bunches also
 for emittances below 1e-12

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index bb4e785..210515a 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -220,7 +220,7 @@ class StandardBunch(object):
         # Use the lemming method to find the maximum y
         y0 = np.sqrt(self.emit)
 
-        yMax = newton(self.whatsleft, y0)
+        yMax = newton(self.whatsleft, y0, x1=1.1*y0, tol=1e-8*y0)
         xMax = yMax
 
         # Generate particles by creating trials and finding particles with potential less than emittance,
@@ -491,7 +491,7 @@ class NonlinearBunch(StandardBunch):
         # Use the lemming method to find the maximum y
         y0 = np.sqrt(self.emit)
 
-        yMax = newton(self.whatsleft, y0)
+        yMax = newton(self.whatsleft, y0, x1=1.1*y0, tol=1e-8*y0)
 
         #bounding the horizontal coordinate is difficult, but it should not exceed the pole
         xMax = self.c
@@ -555,7 +555,7 @@ class NonlinearBunch(StandardBunch):
             newH = self.emit*trialH
             y0 = np.sqrt(newH)
             #self.emittance = newH
-            yMax = newton(self.whatsleft, y0)
+            yMax = newton(self.whatsleft, y0, x1=1.1*y0, tol=1e-8*y0)
 
             #bounding the horizontal coordinate is difficult, but it should not exceed the pole
             xMax = self.c
@@ -626,7 +626,7 @@ class NonlinearBunch(StandardBunch):
 
             self.emit = newH #temporarily reset emittance for computing ymax on a particle by particle basis
 
-            yMax = newton(self.whatsleft, y0)
+            yMax = newton(self.whatsleft, y0, x1=1.1*y0, tol=1e-8*y0)
 
             #bounding the horizontal coordinate is difficult, but it should not exceed the pole
             xMax = self.c
-- 
2.43.0


From b0e0b4af9c6da7ec72255eca89d8ec2cbe79343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 055/103] fix: use the emittances given to
 NonlinearBunch.set_transverse_coordinates for waterbag and Gaussian

---
 rsbeams/rsptcls/bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 210515a..94ae26e 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -460,6 +460,8 @@ class NonlinearBunch(StandardBunch):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
+        if emitx is not None or emity is not None:
+            self.emit = self.emitx + self.emity
         if cutoff is not None:
             self.cutoff = cutoff
 
-- 
2.43.0


From 16e6f193e11e58ba80cf821279be134eb983dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 056/103] fix: tune of particle coordinates given as an Nx1
 array, as documented

---
 rsbeams/rsptcls/phases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/phases.py b/rsbeams/rsptcls/phases.py
index 1075368..d23ec2b 100644
--- a/rsbeams/rsptcls/phases.py
+++ b/rsbeams/rsptcls/phases.py
@@ -76,6 +76,8 @@ def tune_fft(x_c, t_i=1, t_f=None):
         t_f (Optional[int]): Index of x_c at which the fft ends. Defaults to None.
     """
     
+    x_c = np.ravel(x_c)
+
     if not t_f:
         # if no end specified, then take interval to end of x_c
         t_f = len(x_c)
-- 
2.43.0


From 675c90961d776017541c50a8ae16b6f2769591d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 057/103] fix: save beamlines that have parameters calculated
 with sqrt

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ad99c35..e3a0d49 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -378,7 +378,7 @@ def parse_rpn(expression):
         elif val in ['sqrt']:
             token1 = stack.pop()
             if val == 'sqrt':
-                result = np.sqrt(token1)
+                result = float(np.sqrt(token1))
             else:
                 raise RuntimeError
             stack.append(result)
-- 
2.43.0


From b6e72f603c898e4ad0bf48257e8753421f608f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 058/103] fix: keep the type of elegant elements whose
 parameters contain a colon

---
 rsbeams/rslattice/lte_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index e3a0d49..99ba1bc 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -243,10 +243,11 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
         if type_end < 0:
             type_end = len(beamline_string)
+        # Parameters may contain ':' too
+        type_start = beamline_string.rfind(':', 0, type_end)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
-- 
2.43.0


From e5eca239a680f07a8d01c8a02baa65eda5697bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 059/103] fix: find elegant elements defined with white space
 in front of the colon

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 99ba1bc..ecd4d9a 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -172,7 +172,7 @@ class BeamlineParser(object):
             for line in self.lattice_definition:
                 line = line.replace('"', '')
                 line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                if re.match(r'\s*{}\s*:'.format(re.escape(element_name)), line):
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
-- 
2.43.0


From 2d5a9c8a4b78a03603620e7e17e230976875c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 060/103] fix: do not replace the type of elegant elements by
 RPN variables

---
 rsbeams/rslattice/lte_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ecd4d9a..29bc1fe 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -326,13 +326,13 @@ class BeamlineParser(object):
 
         for linenumber in range(len(self.lattice_definition)):
             # Only replace whole words, in the values of element parameters
-            name, colon, definition = self.lattice_definition[linenumber].partition(':')
-            if not colon or re.match(r'\s*line\s*=', definition):
+            name, comma, definition = self.lattice_definition[linenumber].partition(',')
+            if ':' not in name or re.search(r':\s*line\s*=', name):
                 continue
             for key in self.rpn_variables:
                 definition = re.sub(r'(?<![\w.]){}(?![\w.]|\s*=)'.format(re.escape(key)),
                                     lambda _: str(self.rpn_variables[key]), definition)
-            self.lattice_definition[linenumber] = name + colon + definition
+            self.lattice_definition[linenumber] = name + comma + definition
 
     def _read_name(self, line):
         end = line.find(':')
-- 
2.43.0


From 09ee58259cd340bc70f5915fd68e2382add26869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 061/103] fix: parse the beamline that is set, from the start,
 when an elegant parser is used again

---
 rsbeams/rslattice/lte_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 29bc1fe..1d7aadf 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
         :return:
         """
         self.find_beamlines()
+        self.beamline = StructuredBeamline(self.beamline.name)
         self.parse_set_beamline()
 
         return self.beamline
@@ -74,6 +75,7 @@ class BeamlineParser(object):
         :return:
         """
         self.beamline_name = beamline_name.lower()
+        self.beamline = StructuredBeamline(beamline_name)
 
     def find_beamlines(self):
         """
@@ -106,6 +108,7 @@ class BeamlineParser(object):
         """
         assert self.beamline_name in self.lines, "The requested beamline is not found"
 
+        self.beamline_string = self.lines[self.beamline_name]
         beamline_string = self.beamline_string[1:]  # Consume opening '('
         coefficient = ''
         lines_list = []  # Holds beamline definitions, and the lines they belong to, if recursion is necessary
-- 
2.43.0


From f4b2b29fd37eff8e24d577ed0cb60f463c065147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:14 +0000
Subject: [PATCH 062/103] fix: parse elegant lines with coefficients inside of
 repeated groups

---
 rsbeams/rslattice/lte_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 1d7aadf..ad0f235 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -141,6 +141,8 @@ class BeamlineParser(object):
             if coefficient:
                 beamline_string = self._expand_line(beamline_string, int(coefficient))
                 coefficient = ''
+                # The first member may have a coefficient too
+                continue
             if beamline_string.find(',') > -1:
                 next_element_end = beamline_string.find(',')
             elif beamline_string.find(')') > -1:
@@ -216,6 +218,8 @@ class BeamlineParser(object):
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
             subline_end = beamline_string.find(')')
+            while beamline_string.count('(', 0, subline_end) > beamline_string.count(')', 0, subline_end):
+                subline_end = beamline_string.find(')', subline_end + 1)
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
-- 
2.43.0


From d5cc3d93708488298a2990edc13d5523f0271061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 063/103] fix: replace RPN variables of elegant lattices only
 where they are words of an expression

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ad0f235..2ff92ae 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -337,7 +337,7 @@ class BeamlineParser(object):
             if ':' not in name or re.search(r':\s*line\s*=', name):
                 continue
             for key in self.rpn_variables:
-                definition = re.sub(r'(?<![\w.]){}(?![\w.]|\s*=)'.format(re.escape(key)),
+                definition = re.sub(r'''(?<![^\s"'=,]){}(?![^\s"',]|\s*=)'''.format(re.escape(key)),
                                     lambda _: str(self.rpn_variables[key]), definition)
             self.lattice_definition[linenumber] = name + comma + definition
 
-- 
2.43.0


From c485f10d6a210fdcd69ece1b8761a86f16c371f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 064/103] fix: keep the phases of all Trace3D cavities

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index a16aba8..12d9c93 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -234,8 +234,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From 2c8c7dfffc65b073096981078b9ef663a36eb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 065/103] fix: refuse TraceWin NCELLS without frequency, their
 length is not known

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 12d9c93..f0533d8 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -295,7 +295,7 @@ class TraceWin(Trace3d):
         beamline.add_element(name + '_q2', 'quadrupole', {'k1': q2_K1, 'l': q2_L})
 
     def handle_ncells(self, name, element, beamline):
-        assert self.global_parameters['frequency'], "NCELL must have a frequency set to determine length"
+        assert self.global_parameters.get('frequency'), "NCELL must have a frequency set to determine length"
         wavelength = c / self.global_parameters['frequency']
         length = element['BETA'] * wavelength * element['N']
         cavity_PHASE = element['PHASE'] + 90.
-- 
2.43.0


From d055535c8c32d2a8a75acbe9bf888ea2ee9f12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 066/103] fix: do not duplicate elements when a Trace3D or
 TraceWin parser is used again

---
 rsbeams/rslattice/trace3d_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index f0533d8..f29436f 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -43,6 +43,8 @@ class BeamlineParser(object):
         """
         self._sanitize_lattice_definition()
         self.find_beamlines()
+        self.beamline = StructuredBeamline(self.beamline.name)
+        self.global_parameters = {}
         self.parse_set_beamline()
 
         return self.beamline
-- 
2.43.0


From 1fc48388afaa2802a43eceac9eb4d367f5862412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 067/103] fix: check the aperture parameter given to the
 constructor of a NonlinearInsert too

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index 807c607..97f421e 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -55,7 +55,7 @@ class NonlinearInsert(object):
         self.length = length
         self.phase = phase
         self.t = t
-        self._c = c
+        self.c = c
         self.num_slices = num_slices
 
     # Define c property which maintains a positive definite value
-- 
2.43.0


From b9601edbdcb08c199d15c039eb46acea9ab210ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 068/103] fix: do not draw lines across the magnet profile when
 it is scaled

---
 rsbeams/rsplot/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 2fbc55a..6077978 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -94,7 +94,7 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
             e1, e2 = s * scale, sdds_columns['s'][i] * scale
-            axes.plot([s, e1], [zp, zp], c=_element_colors[base_type])
+            axes.plot([s * scale, e1], [zp, zp], c=_element_colors[base_type])
             mag = Rectangle((e1, -height / 2.),
                             width=e2 - e1, height=height)
             patch_collection.append(mag)
-- 
2.43.0


From 2d67e0a92964511eb99f6bf77fe00ff0204a9b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 069/103] fix: separate greek symbols from letters that follow
 them

---
 rsbeams/rsplot/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 6077978..3361a7e 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -1,6 +1,7 @@
 from matplotlib.patches import Rectangle
 from matplotlib.collections import PatchCollection
 import numpy as np
+import re
 
 _element_mappings = {'QUAD': ['KQUAD', 'QUAD'],
                      'SBEND': ['SBEND', 'CSBEND', 'CSRCSBEND', 'RBEND', 'SBEN'],
@@ -167,8 +168,9 @@ def format_symbol(description, matplotlib=True):
             mode_set = True
             continue
         if processing:
-            formatted_descr += process_character(char, processing)
-        else:
-            formatted_descr += char
+            char = process_character(char, processing)
+        if char.isalpha() and re.search(r'\\[a-zA-Z]+$', formatted_descr):
+            formatted_descr += ' '  # End of the preceding greek symbol
+        formatted_descr += char
 
     return formatted_descr + '$' * matplotlib
-- 
2.43.0


From ce99373634ed5dd6e92153b7e05309c26b316205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 070/103] fix: contour and combined plots of bunches whose
 density is below the first level

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8e9ae1b..81576da 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -65,7 +65,7 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
             levels = numpy.asarray(levels)
             # if user specified an integer, then populate levels reasonably
             if levels.size == 1:
-                levels = numpy.linspace(threshold, my_hist.max(), levels)
+                levels = numpy.linspace(threshold, max(my_hist.max(), threshold + 1), levels)
 
             # define the 'extent' of the contoured area, using the
             #   the horizontal and vertical arrays generaed by histogram2d()
-- 
2.43.0


From 2fb87d07eb97999721e7ba7d3e4110955d83b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 071/103] fix: name plotted quantities that have neither symbol
 nor description

---
 rsbeams/rsplot/beam_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index 92cada3..bf4c3b5 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -40,7 +40,7 @@ def beamline_profile(sdds, page=0, quantities=None, xlim=None, ylim=None, save=N
             label=(
                 util.format_symbol(sdds.column_symbol(quant))
                 if sdds.column_symbol(quant) != ""
-                else sdds.column_description(quant)
+                else sdds.column_description(quant) or quant
             ),
         )
 
@@ -52,7 +52,7 @@ def beamline_profile(sdds, page=0, quantities=None, xlim=None, ylim=None, save=N
             (
                 util.format_symbol(sdds.column_symbol(quant))
                 if sdds.column_symbol(quant) != ""
-                else sdds.column_description(quant)
+                else sdds.column_description(quant) or quant
             )
             for quant in quantities
         ]
-- 
2.43.0


From 6d42db99b6a468f1ad0c3dea6a457bf8109d41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 072/103] fix: refuse bunches whose beta function is not
 positive

---
 rsbeams/rsptcls/bunch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 94ae26e..56f1c12 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -79,6 +79,9 @@ class StandardBunch(object):
         #it will be adjusted for specific distributions
         self.emit = emitx + emity
 
+        if betax <= 0 or betay <= 0:
+            raise ValueError("Beta must be larger than 0.")
+
         #set Twiss parameters as "private" attributes because setters will be redefined to avoid conflicts
         self._betax  = betax
         self._alphax = alphax
@@ -119,7 +122,7 @@ class StandardBunch(object):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -130,7 +133,7 @@ class StandardBunch(object):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
@@ -400,7 +403,7 @@ class NonlinearBunch(StandardBunch):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -416,7 +419,7 @@ class NonlinearBunch(StandardBunch):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
-- 
2.43.0


From 28932435c303ad6f2231f09dbb66d8de1a92f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 073/103] fix: read escaped quotes in ASCII SDDS strings

A quote in a quoted string is written as \". Rows with a comment character
after such a quote failed, and parameters kept the backslashes.
---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 64cec08..f8fb024 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -342,13 +342,13 @@ class readSDDS:
             if not line:
                 raise ValueError('SDDS file ended before all of its data could be read')
             # A comment may follow the data, though not from inside of quotes
-            line = re.match('(?:"[^"]*"|[^!])*', line.decode('latin-1')).group().strip()
+            line = re.match(r'(?:"(?:[^"\\]|\\.)*"|[^!])*', line.decode('latin-1')).group().strip()
             if not line:
                 continue
             if split:
                 entries = utils._shlex_split(line) if '"' in line else line.split()
             else:
-                entries = [line[1:-1] if len(line) > 1 and line[0] == line[-1] == '"' else line]
+                entries = [re.sub(r'\\(["\\])', r'\1', line[1:-1]) if len(line) > 1 and line[0] == line[-1] == '"' else line]
             if len(entries) != len(kinds):
                 raise ValueError('Expected {} entries in SDDS data: {}'.format(len(kinds), line))
             rows.append(tuple(entry.encode('latin-1') if kind == 'S' else
-- 
2.43.0


From 4b202005e0091ec47f80fd41f671f13d0c724055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 074/103] fix: keep the blanks that separate words at lattice
 continuations

An expression continued on an indented line lost the blank in front of its
next word and was kept as text.
---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 2ff92ae..bc83875 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -312,7 +312,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].rstrip()[-1] == '&':
                     self.lattice_definition[linenumber] = self.lattice_definition[linenumber].rstrip()[:-1] + \
-                        self.lattice_definition[linenumber + 1].strip()
+                        self.lattice_definition[linenumber + 1].rstrip()
                     self.lattice_definition.pop(linenumber + 1)
             except IndexError:
                 print()
-- 
2.43.0


From db359132ec6f8ffe521af47ceeceef6738e0340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 075/103] fix: escape quotation marks in the headers of written
 SDDS files

A quotation mark or backslash in a description, unit, symbol, format string
or string value gave a header that cannot be read.
---
 rsbeams/rsdata/SDDS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index f8fb024..76f6318 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -644,7 +644,7 @@ class writeSDDS:
             if type(parFixedVal) in [float, int]:
                 pass
             elif type(parFixedVal) == str:
-                parFixedVal = '"{}"'.format(parFixedVal)
+                parFixedVal = '"{}"'.format(self._escape(parFixedVal))
 
         parameter_data = {'parName': parName, 'parData': parData, 'parType': parType, 'parUnits': parUnits,
                           'parSymbol': parSymbol, 'parFormatStr': parFormatStr, 'parDescription': parDescription,
@@ -652,6 +652,11 @@ class writeSDDS:
 
         self.parameters.append(parameter_data)
 
+    @staticmethod
+    def _escape(value):
+        # Quotation marks end a string in the header unless they are escaped
+        return str(value).replace('\\', '\\\\').replace('"', '\\"')
+
     def _write_header(self, outputFile):
         columnString = ''
         parameterString = ''
@@ -662,7 +667,7 @@ class writeSDDS:
             for key, value in parameter.items():
                 if (key in parameterAttributeStr.keys()) and value not in (None, ''):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
-                                                                                          value=parameterAttributeStr[key][1].format(value))))
+                                                                                          value=parameterAttributeStr[key][1].format(value if key == 'parFixedVal' else self._escape(value)))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
             parameterString = ''
 
@@ -672,7 +677,7 @@ class writeSDDS:
                     # split logic to avoid the hassle of testing existance of arrays separately
                     if value:
                         columnString = ''.join((columnString, '{field}{value}, '.format(field=columnAttributeStr[key][0],
-                                                                    value=columnAttributeStr[key][1].format(value))))
+                                                                    value=columnAttributeStr[key][1].format(self._escape(value)))))
             outputFile.write('&column {} &end\n'.format(columnString).encode())
             columnString = ''
 
-- 
2.43.0


From b1fd645c03b086540b4150b43491aa8b4b346e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 076/103] fix: separate the fields of SDDS header entries at
 commas, and keep commas inside of quotes

---
 rsbeams/rsdata/datatypes.py | 4 ++--
 rsbeams/rsdata/utils.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 3a4af65..0b1e525 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -17,12 +17,12 @@ class Datum:
         self.parse_namelist()
 
     def parse_namelist(self):
-        namelist = _shlex_split(self.namelist)
+        namelist = _shlex_split(self.namelist, separators=",")
         for name in self.fields.keys():
             for entry in namelist:
                 if name in entry[: len(name)]:
                     start = entry.find("=")
-                    self.fields[name] = entry[start + 1 :].rstrip(",")
+                    self.fields[name] = entry[start + 1 :]
 
     def set_data_type(self):
         data_type = self.fields["type"]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index ef72230..6368759 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -27,12 +27,13 @@ def _read_line(open_file):
     return line
 
 
-def _shlex_split(line):
+def _shlex_split(line, separators=""):
     # Cannot just use shlex.split
     # Need to ignore single-quotes due to their use as common characters in accelerator notation
     lex = shlex.shlex(line, posix=True)
     lex.quotes = '"'
     lex.whitespace_split = True
+    lex.whitespace += separators
     lex.commenters = ''
 
     return list(lex)
-- 
2.43.0


From 4471a833a53a62b47717784ae9b9f0a2fdb56c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 077/103] fix: a second read() of an SDDS file does not add to
 the pages of the first

---
 rsbeams/rsdata/SDDS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 76f6318..94e722e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -391,6 +391,11 @@ class readSDDS:
             # Buffered lines start after the header
             position = 0
 
+        # Each call reads the file anew
+        for store in (self._parameters, self._columns):
+            if store:
+                store._data = []
+
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
             if par[0][0] == 'row_counts':
-- 
2.43.0


From 98a86cddb5d53b68a53e0563d501282b2081051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 078/103] fix: read Trace3D and TraceWin numbers with a Fortran
 d exponent

---
 rsbeams/rslattice/trace3d_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index f29436f..06f8806 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -3,7 +3,12 @@ import numpy as np
 from scipy.constants import c
 from re import findall
 
-NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
+NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eEdD][-+]?\d+)?"
+
+
+def read_number(text):
+    # Fortran may mark the exponent with a d
+    return float(text.lower().replace('d', 'e'))
 
 # lengths: mm
 # quad strength: T/m
@@ -162,7 +167,7 @@ class Trace3d(BeamlineParser):
 
         param_dict = {}
         for param_name, param_val in zip(names, values):
-            param_dict[param_name] = float(param_val)
+            param_dict[param_name] = read_number(param_val)
 
         if len(names) != len(values):
             print("WARNING: Element {} {} had a parameter mismatch".format(self.get_element_name(line),
@@ -343,7 +348,7 @@ class TraceWin(Trace3d):
 
         param_dict = {}
         for param_name, param_val in zip(names, values):
-            param_dict[param_name] = float(param_val)
+            param_dict[param_name] = read_number(param_val)
 
         if len(names) != len(values):
             print("WARNING: Element {} {} had a parameter mismatch".format(self.get_element_name(line),
-- 
2.43.0


From 662172ff4047f099d660b8f732879b5c5a59facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 079/103] fix: evaluate RPN expressions whose tokens are
 separated by tabs

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index bc83875..5fcb0c1 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -362,7 +362,7 @@ def parse_rpn(expression):
 
     stack = []
 
-    for val in expression.split(' '):
+    for val in expression.split():
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-- 
2.43.0


From d0ee8388b62ec9513e36e49614a2e0dfb28fcf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 080/103] fix: keep the file name of TraceWin field maps, with
 or without digits

---
 rsbeams/rslattice/trace3d_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 06f8806..0627f22 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -343,12 +343,13 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(NUMBER, line)
+        values = line.replace(',', ' ').split()[1:]
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
         for param_name, param_val in zip(names, values):
-            param_dict[param_name] = read_number(param_val)
+            # Names of files may have digits in them
+            param_dict[param_name] = param_val if param_name == 'FILE' else read_number(param_val)
 
         if len(names) != len(values):
             print("WARNING: Element {} {} had a parameter mismatch".format(self.get_element_name(line),
-- 
2.43.0


From c0f1b44a82dc7b87a19df951b242fd5c9b11d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 081/103] fix: save and load element parameters that are called
 name or type

---
 rsbeams/rslattice/Beamline.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 585b5de..4385cc9 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -119,8 +119,12 @@ class StructuredBeamline(object):
             the_beamline = []
             for ele in line.sequence:
                 if isinstance(ele, Element):
+                    parameters = ele.parameters
+                    if {"name", "type", "parameters"}.intersection(parameters):
+                        # Keep them apart from the name and type of the element
+                        parameters = {"parameters": dict(parameters)}
                     the_beamline.append(
-                        {"name": ele.name, **ele.parameters, "type": ele.type}
+                        {"name": ele.name, **parameters, "type": ele.type}
                     )
                 else:
                     the_beamline.append(return_elements(ele))
@@ -142,15 +146,14 @@ class StructuredBeamline(object):
         def create_beamline(elements, beamline):
             for element in elements:
                 if isinstance(element, dict):
-                    beamline.add_element(
-                        element["name"],
-                        element["type"],
-                        {
-                            k: v
-                            for k, v in element.items()
-                            if (k != "type") and (k != "name")
-                        },
-                    )
+                    parameters = {
+                        k: v
+                        for k, v in element.items()
+                        if (k != "type") and (k != "name")
+                    }
+                    if isinstance(parameters.get("parameters"), dict):
+                        parameters = parameters["parameters"]
+                    beamline.add_element(element["name"], element["type"], parameters)
                 else:
                     # Names of sublines are not saved
                     beamline.add_beamline(name=f"line{len(beamline.lines)}")
-- 
2.43.0


From bb9ad95d9f79551e4c00c3f55b5288e07d5938da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 082/103] fix: an empty selection of SDDS pages reads no page
 instead of failing

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 94e722e..13af12f 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -403,7 +403,7 @@ class readSDDS:
                 break
 
         for page in pages:
-            if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
+            if not isinstance(user_pages, GeneratorType) and page > max(user_pages, default=-1):
                 if self.verbose:
                     print('stopping here')
                 break
-- 
2.43.0


From fcab1620f79ef67d0fe882fbbf92a3cb9082d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 083/103] fix: keep gamma and beta*gamma given as integers from
 overflowing in a kinematic conversion

---
 rsbeams/rsstats/kinematic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 0d0c017..a3e4793 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -222,7 +222,7 @@ class Converter:
 
         """
 
-        return np.sqrt(1. - 1 / gamma**2), gamma
+        return np.sqrt(1. - (1 / gamma)**2), gamma
 
     @staticmethod
     def start_beta(beta):
@@ -247,9 +247,10 @@ class Converter:
         Returns:
             (beta, gamma)
         """
-        beta = betagamma / np.sqrt(1 + betagamma**2)
+        betagamma = 1. * betagamma
+        gamma = np.hypot(1., betagamma)
 
-        return beta, np.sqrt(1 + betagamma**2)
+        return betagamma / gamma, gamma
 
     def start_momentum(self, momentum):
         normalized_momentum = momentum / self.mass
-- 
2.43.0


From d43edb705ee5471bdf4c3f7ef192353a7c13962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 084/103] fix: pass an argument of zero, or arguments in an
 array, to the density that is sampled

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index c9290f7..7bcdf8a 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,9 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
-            args[0]
+            len(args)
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From 9cbc72273e5ddc20d6eb14c1a9b651a4826cf866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 085/103] fix: tell variables called K1 and L from the symbols
 of the transfer matrices

---
 rsbeams/rslattice/Beamline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 4385cc9..89b2f09 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -8,7 +8,7 @@ from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
 import numpy as np
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import Dummy, symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel.yaml import YAML
 from collections import UserList
@@ -27,7 +27,7 @@ class StructuredBeamline(object):
     """
 
     # TODO: Change main control sequence and beamline object to allow for multiple layers of sublines.
-    K1, L = symbols("K1 L")
+    K1, L = symbols("K1 L", cls=Dummy)  # Distinct from variables of these names
     matrices = {
         # Transverse matrices for elements
         "quadrupole": Matrix(
-- 
2.43.0


From 20e7dbd368af4b7f5d9da885a1e9a965a36c2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 086/103] fix: allow white space around the equals signs of
 SDDS header entries

---
 rsbeams/rsdata/datatypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 0b1e525..f6ab23c 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -8,6 +8,7 @@ from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .utils import data_types, _shlex_split
 import numpy as np
+import re
 
 
 class Datum:
@@ -17,7 +18,13 @@ class Datum:
         self.parse_namelist()
 
     def parse_namelist(self):
-        namelist = _shlex_split(self.namelist, separators=",")
+        # There may be white space around the equals signs outside of quotes
+        namelist = re.sub(
+            r'("(?:[^"\\]|\\.)*")|\s*=\s*',
+            lambda m: m.group(1) or "=",
+            self.namelist,
+        )
+        namelist = _shlex_split(namelist, separators=",")
         for name in self.fields.keys():
             for entry in namelist:
                 if name in entry[: len(name)]:
-- 
2.43.0


From 0e6326a594c5fb24ab934783fe02de0d0a9b456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 087/103] fix: read string columns that give a field length

---
 rsbeams/rsdata/SDDS.py      |  3 +--
 rsbeams/rsdata/datatypes.py | 20 --------------------
 2 files changed, 1 insertion(+), 22 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 13af12f..6c13272 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -204,8 +204,7 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format('{}')))
                 else:
diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index f6ab23c..4c766c7 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -7,7 +7,6 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .utils import data_types, _shlex_split
-import numpy as np
 import re
 
 
@@ -90,25 +89,6 @@ class Column(Datum):
         super().__init__(namelist)
         self.set_data_type()
 
-    def set_data_type(self):
-        # Override to account for field_length setting
-        data_type = self.fields["type"]
-
-        try:
-            type_key = data_types[data_type]
-        except KeyError as error:
-            print(error)
-            print(f"Data type: {data_type} is not supported by readSDDS")
-            raise
-
-        if data_type == "string":
-            if self.fields["field_length"] == 0:
-                self.type_key = type_key
-            else:
-                self.type_key = type_key.format(np.abs(self.fields["field_length"]))
-        else:
-            self.type_key = type_key
-
 
 class Array(Datum):
     def __init__(self, namelist):
-- 
2.43.0


From 724ccfe2694ed510ac869a5bf673ab4e4a34cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 088/103] fix: read SDDS headers that are written in UTF-8

---
 rsbeams/rsdata/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 6368759..ee06381 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -21,7 +21,11 @@ def _return_type(string):
 def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
-        line = str(open_file.readline(), 'latin-1')
+        line = open_file.readline()
+        try:
+            line = line.decode('utf-8')  # As written by writeSDDS
+        except UnicodeDecodeError:
+            line = line.decode('latin-1')
         if not line:
             raise EOFError('End of file reached before the end of the SDDS header')
     return line
-- 
2.43.0


From 70662651b73eeac33c4868a878e3381f5418a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 089/103] fix: show all particles outside of dense regions in
 combined plots

---
 rsbeams/rsplot/plot_ptcls.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 81576da..2e691ed 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -26,6 +26,7 @@ Subsequent mods are due to RadiaSoft,
 
 import math
 import numpy
+from contourpy import contour_generator
 from matplotlib.path import Path
 
 def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10):
@@ -89,12 +90,18 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
         low_density_arr = numpy.hstack([x_data[:, None], y_data[:, None]])
 
         # extract only those particles outside the high-density region
-        if len(outline.allsegs[0]) > 0:
-            outer_poly = outline.allsegs[0][0]
-            points_inside = Path(outer_poly).contains_points(low_density_arr)
-            x_plot = low_density_arr[~points_inside]
-        else:
-            x_plot = low_density_arr
+        #   there may be several such regions, and they may have holes; bins without
+        #   particles are added around the histogram so that all of the outlines are closed
+        x_grid, y_grid = [
+            numpy.linspace(low - step, high + step, num + 2)
+            for low, high, num in zip(extent[::2], extent[1::2], my_hist.shape)
+            for step in [(high - low) / max(num - 1, 1)]
+        ]
+        polygons = contour_generator(x_grid, y_grid, numpy.pad(my_hist, 1).T).lines(levels[i_min])
+        points_inside = numpy.zeros(len(low_density_arr), dtype=bool)
+        for polygon in polygons:
+            points_inside ^= Path(polygon).contains_points(low_density_arr)
+        x_plot = low_density_arr[~points_inside]
 
     if plot_flag.startswith('scatter') or plot_flag.endswith('line'):
         x_plot = numpy.hstack([x_data[:, None], y_data[:, None]])
-- 
2.43.0


From 9b5df07f737008c4e2fdad3c82e3f2cb776565a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 090/103] fix: refuse negative t, c and cutoff of a nonlinear
 bunch at creation too

---
 rsbeams/rsptcls/bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 56f1c12..23edece 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -361,9 +361,9 @@ class NonlinearBunch(StandardBunch):
         super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed,
                                             quiet)
 
-        self._t = t
-        self._c = c
-        self._cutoff = cutoff
+        self.t = t
+        self.c = c
+        self.cutoff = cutoff
 
 
     #Define c property which maintains a positive definite value
-- 
2.43.0


From 739a420d6d7634039808ce41f219d59f11930960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 091/103] fix: change, add and remove element parameters in any
 case with update, setdefault, pop and del

---
 rsbeams/rslattice/Element.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index 0f215bd..832ed55 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -64,6 +64,19 @@ class AgnosticDict(dict):
     def get(self, key, default=None):
         return dict.get(self, key.lower() if type(key) == str else key, default)
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, key.lower() if type(key) == str else key)
+
+    def pop(self, key, *default):
+        return dict.pop(self, key.lower() if type(key) == str else key, *default)
+
+    def setdefault(self, key, default=None):
+        return dict.setdefault(self, key.lower() if type(key) == str else key, default)
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
 
 class Element(object):
     """
-- 
2.43.0


From f5e4e203ba1a791c285c865dd228803e98d44f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 092/103] fix: read SDDS headers whose &data entry is indented

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6c13272..96371e6 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -133,7 +133,7 @@ class readSDDS:
                     namelist.append(new_line)
                     self._header_line_count += 1
                 self.header.append(''.join(namelist))
-            elif new_line.find('&data') == 0:
+            elif new_line.lstrip().find('&data') == 0:
                 # Final entry in the header is always &data
                 namelist.append(new_line)
                 while '&end' not in new_line:
-- 
2.43.0


From e64a377c7c54e37d82be18104cb0dd4dc5ac5cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 093/103] fix: ignore comments at the end of SDDS header lines

---
 rsbeams/rsdata/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index ee06381..92ebee8 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -1,3 +1,4 @@
+import re
 import shlex
 import numpy as np
 # TODO: Find sdds use case with 'short' type
@@ -20,7 +21,7 @@ def _return_type(string):
 
 def _read_line(open_file):
     line = ''
-    while line == '\n' or line == '' or line[0] == '!':
+    while not line.strip():
         line = open_file.readline()
         try:
             line = line.decode('utf-8')  # As written by writeSDDS
@@ -28,6 +29,8 @@ def _read_line(open_file):
             line = line.decode('latin-1')
         if not line:
             raise EOFError('End of file reached before the end of the SDDS header')
+        # A comment ends the line, though not from inside of quotes
+        line = re.match(r'(?:"(?:[^"\\]|\\.)*"|[^!])*', line).group().rstrip('\r\n') + '\n'
     return line
 
 
-- 
2.43.0


From dad56c7d0b594af7c3216e4ba600154bd21f1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 094/103] fix: read the charge of elegant files whose header
 holds it as a fixed value

---
 rsbeams/rsdata/switchyard.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 64e76c9..c481fd4 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -30,8 +30,11 @@ def read_elegant(file_name: str) -> Species:
     read_particle_data.read()
     sdds_data = read_particle_data.columns.squeeze(axis=0)
     try:
-        charge_data = read_particle_data.parameters['Charge'].squeeze()
-    except ValueError:
+        # The charge may be given in the header
+        charge_data = read_particle_data.parameter_fixed_value('Charge')
+        if charge_data is None:
+            charge_data = read_particle_data.parameters['Charge'].squeeze()
+    except KeyError:
         print(f"No Charge in file {file_name}")
         charge_data = 0.0
 
-- 
2.43.0


From f84a6aeb255461d8688b6784844643361f96cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 095/103] fix: use the charge that the header holds as a fixed
 value in current plots

---
 rsbeams/rsplot/beam_plots.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index bf4c3b5..db8f2e8 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -170,7 +170,11 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     normalized_charge = False
     if charge == "auto":
         try:
-            charge = sdds_parameters["Charge"]
+            try:
+                charge = sdds_parameters["Charge"]
+            except ValueError:
+                # It may be given in the header
+                charge = sdds.parameter_fixed_value("Charge")
             if charge == 0.0:
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
-- 
2.43.0


From 3435599ba2fff34903073e6e434b75b380a160b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 096/103] fix: writeSDDS writes single precision and size one
 arrays as parameters in ASCII like in binary

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 96371e6..ba2a13d 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -728,7 +728,7 @@ class writeSDDS:
             # Pass if fixed_value used (parData will be None)
             if parameter['parData'] is not None:
                 if self.dataMode == 'ascii':
-                        outputFile.write('{}\n'.format(parameter['parData']).encode())
+                        outputFile.write('{}\n'.format(parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']).encode())
                 if self.dataMode == 'binary':
                         outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
                                               parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
-- 
2.43.0


From 5c26c71632860f4d10c5965618d6e3c8a719dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 097/103] fix: writeSDDS writes string parameters and columns
 in both modes so that they can be read back

---
 rsbeams/rsdata/SDDS.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index ba2a13d..e96b16b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -661,6 +661,18 @@ class writeSDDS:
         # Quotation marks end a string in the header unless they are escaped
         return str(value).replace('\\', '\\\\').replace('"', '\\"')
 
+    def _format_value(self, value, valueType):
+        # Strings may be empty or hold blanks and exclamation marks
+        if valueType == 'string':
+            return '"{}"'.format(self._escape(value))
+        return value.item() if hasattr(value, 'item') else value
+
+    def _pack_value(self, value, valueType):
+        if valueType == 'string':
+            value = str(value).encode()
+            return pack('=i', len(value)) + value
+        return pack('={}'.format(self.key_indentity[valueType]), value.item() if hasattr(value, 'item') else value)
+
     def _write_header(self, outputFile):
         columnString = ''
         parameterString = ''
@@ -708,10 +720,13 @@ class writeSDDS:
 
         # Each column is stored with the type that is declared for it in the header
         row_count = len(self.columns[0]['colData']) if self.columns else 0
-        column_data = np.empty(row_count, dtype=[('column_{}'.format(i), utils.data_types[column['colType']])
-                                                 for i, column in enumerate(self.columns)])
+        column_types = [column['colType'] for column in self.columns]
+        column_data = np.empty(row_count, dtype=[('column_{}'.format(i), object if t == 'string' else utils.data_types[t])
+                                                 for i, t in enumerate(column_types)])
         for name, column in zip(column_data.dtype.names or (), self.columns):
             column_data[name] = column['colData']
+            if column['colType'] == 'string' and self.dataMode == 'ascii':
+                column_data[name] = [self._format_value(value, 'string') for value in column['colData']]
 
         outputFile = open(fileName, 'wb')
 
@@ -728,10 +743,9 @@ class writeSDDS:
             # Pass if fixed_value used (parData will be None)
             if parameter['parData'] is not None:
                 if self.dataMode == 'ascii':
-                        outputFile.write('{}\n'.format(parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']).encode())
+                        outputFile.write('{}\n'.format(self._format_value(parameter['parData'], parameter['parType'])).encode())
                 if self.dataMode == 'binary':
-                        outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
-                                              parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
+                        outputFile.write(self._pack_value(parameter['parData'], parameter['parType']))
 
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
@@ -742,8 +756,12 @@ class writeSDDS:
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data, fmt=['%.18e' if column['colType'] == 'double' else '%d'
-                                                     for column in self.columns])
+            np.savetxt(outputFile, column_data, fmt=[{'double': '%.18e', 'string': '%s'}.get(t, '%d') for t in column_types],
+                       encoding='utf-8')
+        elif self.dataMode == 'binary' and 'string' in column_types:
+            # Strings make rows of different length
+            for row in column_data:
+                outputFile.write(b''.join(self._pack_value(value, t) for value, t in zip(row, column_types)))
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 1ab72755cface6626226631fee4e2ba0e3af3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 098/103] fix: strings in SDDS data that are not ASCII can be
 read, and ASCII files give text like binary ones

---
 rsbeams/rsdata/SDDS.py        |  8 +++++---
 rsbeams/rsdata/struct_data.py |  9 ++++++---
 rsbeams/rsdata/utils.py       | 12 ++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index e96b16b..0472d7b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -335,22 +335,24 @@ class readSDDS:
     def _read_ascii(self, data_type, count, position, split=False):
         # Parameters are on a line of their own while the columns of a row share one (split)
         kinds = [np.dtype(descr).kind for _, descr in data_type]
+        data_type = [(name, descr.replace('S', 'U') if kind == 'S' else descr) for kind, (name, descr) in zip(kinds, data_type)]
+        blanks = ' \t\r\n\f\v'  # No others, they may be part of strings
         rows = []
         while len(rows) < count:
             line, position = self._read_ascii_line(position)
             if not line:
                 raise ValueError('SDDS file ended before all of its data could be read')
             # A comment may follow the data, though not from inside of quotes
-            line = re.match(r'(?:"(?:[^"\\]|\\.)*"|[^!])*', line.decode('latin-1')).group().strip()
+            line = re.match(r'(?:"(?:[^"\\]|\\.)*"|[^!])*', line.decode('latin-1')).group().strip(blanks)
             if not line:
                 continue
             if split:
-                entries = utils._shlex_split(line) if '"' in line else line.split()
+                entries = utils._shlex_split(line) if '"' in line else re.findall('[^' + blanks + ']+', line)
             else:
                 entries = [re.sub(r'\\(["\\])', r'\1', line[1:-1]) if len(line) > 1 and line[0] == line[-1] == '"' else line]
             if len(entries) != len(kinds):
                 raise ValueError('Expected {} entries in SDDS data: {}'.format(len(kinds), line))
-            rows.append(tuple(entry.encode('latin-1') if kind == 'S' else
+            rows.append(tuple(utils._decode(entry.encode('latin-1')) if kind == 'S' else
                               int(float(entry)) if kind == 'i' else float(entry)
                               for kind, entry in zip(kinds, entries)))
 
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index dac48ff..6c6c4a0 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -1,4 +1,5 @@
 import numpy as np
+from rsbeams.rsdata.utils import _decode
 
 
 class StructData:
@@ -55,9 +56,11 @@ class StructData:
         else:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
-                names = [n for n in arr.dtype.names if n != 'record_length']
-                if names:
-                    new_array[names] = arr[names]
+                for name in arr.dtype.names:
+                    if name == 'record_length':
+                        continue
+                    is_text = arr.dtype[name].kind == 'S'
+                    new_array[name] = [_decode(text) for text in arr[name]] if is_text else arr[name]
             return new_array
 
     def _check_type(self, data): #Next: Need to look at adjusting string size each time up to maximum? Probably just don't merge'
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 92ebee8..e8a22c1 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -19,14 +19,18 @@ def _return_type(string):
     return None
 
 
+def _decode(text):
+    try:
+        return text.decode('utf-8')  # As written by writeSDDS
+    except UnicodeDecodeError:
+        return text.decode('latin-1')
+
+
 def _read_line(open_file):
     line = ''
     while not line.strip():
         line = open_file.readline()
-        try:
-            line = line.decode('utf-8')  # As written by writeSDDS
-        except UnicodeDecodeError:
-            line = line.decode('latin-1')
+        line = _decode(line)
         if not line:
             raise EOFError('End of file reached before the end of the SDDS header')
         # A comment ends the line, though not from inside of quotes
-- 
2.43.0


From 1daa22fd98c39b999867b0c930646d714b08875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 099/103] fix: jacobi_eigen_solver6d leaves the matrix it is
 given alone

---
 rsbeams/rsstats/stats6d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index 760782f..c31b0e2 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -83,6 +83,9 @@ def rm_correlations6d(array6D):
                 array6D[iLoop,nLoop] += eigVecs[jLoop,iLoop] * temp6D[jLoop,nLoop]
 
 def jacobi_eigen_solver6d(sigma6D):
+    # The rotations are applied to a copy
+    sigma6D=numpy.array(sigma6D, dtype=float)
+
     # Setup
     eVecs=scipy.zeros(36).reshape(6,6)
     for ip in range(6): eVecs[ip,ip]=1.0
-- 
2.43.0


From 01b2f47eeff82629c0d05beb3d9991beb4c3b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 100/103] fix: an SDDS page with a negative row count is
 refused

---
 rsbeams/rsdata/SDDS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0472d7b..43d6ee2 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -429,6 +429,8 @@ class readSDDS:
             else:
                 row_count = self._get_ascii_row_count(position)
 
+            if row_count < 0:
+                raise ValueError('SDDS page has a row count of {}'.format(row_count))
             if row_count == 0:
                 if self._columns and (isinstance(user_pages, GeneratorType) or (page in user_pages)):
                     # Keep columns aligned with the pages of parameters
-- 
2.43.0


From 91ed94c3b69ce785d919ffbf997e0596fe0ac064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 101/103] fix: Read SDDS parameters and columns named
 record_length

---
 rsbeams/rsdata/SDDS.py        | 8 ++++----
 rsbeams/rsdata/struct_data.py | 6 +++---
 rsbeams/rsdata/utils.py       | 2 ++
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 43d6ee2..05554ef 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -202,7 +202,7 @@ class readSDDS:
         for col in self.data['&column']:
             if col.fields['type'] == 'string':
                 if self._data_mode == 'binary':
-                    self._column_keys[-1].append(('record_length', np.int32))
+                    self._column_keys[-1].append((utils.RECORD_LENGTH, np.int32))
                     self._column_keys.append([])
                     self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
@@ -231,7 +231,7 @@ class readSDDS:
             if par.fields['fixed_value'] is None:
                 if par.fields['type'] == 'string':
                     if self._data_mode == 'binary':
-                        self._parameter_keys.append([('record_length', np.int32)])
+                        self._parameter_keys.append([(utils.RECORD_LENGTH, np.int32)])
                         self._variable_length_records = True
                         self._parameter_keys.append([(par.fields['name'],
                                                          par.type_key.format('{}'))])
@@ -453,7 +453,7 @@ class readSDDS:
         for dk in data_keys:
             if self._variable_length_records:
                 try:
-                    record_length = data_arrays[0][-1]['record_length']
+                    record_length = data_arrays[0][-1][utils.RECORD_LENGTH]
                     dk = [(dk[0][0], dk[0][1].format(record_length[0]))]
                 except (ValueError, IndexError):
                     pass
@@ -478,7 +478,7 @@ class readSDDS:
                     if self._variable_length_records:
                         dk = dk.copy()
                         try:
-                            record_length = data_arrays[-1][-1]['record_length']
+                            record_length = data_arrays[-1][-1][utils.RECORD_LENGTH]
                             dk[0] = (dk[0][0], dk[0][1].format(record_length[0]))
                         except (ValueError, IndexError):
                             pass
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 6c6c4a0..656aed6 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -1,5 +1,5 @@
 import numpy as np
-from rsbeams.rsdata.utils import _decode
+from rsbeams.rsdata.utils import RECORD_LENGTH, _decode
 
 
 class StructData:
@@ -20,7 +20,7 @@ class StructData:
             self._data_type = []
             merge_hold = [b for a in data_type for b in a]
             for descr in merge_hold:
-                if descr[0] == 'record_length':
+                if descr[0] == RECORD_LENGTH:
                     continue
                 elif type(descr[1]) == str:
                     self._data_type.append((descr[0], 'U{}'.format(self.max_string_length)))
@@ -57,7 +57,7 @@ class StructData:
             new_array = np.empty(1, dtype=self.data_type)
             for arr in data:
                 for name in arr.dtype.names:
-                    if name == 'record_length':
+                    if name == RECORD_LENGTH:
                         continue
                     is_text = arr.dtype[name].kind == 'S'
                     new_array[name] = [_decode(text) for text in arr[name]] if is_text else arr[name]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index e8a22c1..62e1638 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -6,6 +6,8 @@ import numpy as np
 #  therefore int datatypes are hardcoded in size
 data_types = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string': 'S{}', 'char': np.char,
               'float': np.float32}
+# Field for the length that precedes each binary string. It cannot be the name of an SDDS parameter or column.
+RECORD_LENGTH = '\0record_length'
 
 
 def _return_type(string):
-- 
2.43.0


From 383051448a9a74216f8e8016c848df424da84879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 102/103] fix: an SDDS file with a parameter named row_counts
 cannot be read

---
 rsbeams/rsdata/SDDS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 05554ef..2e0af29 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -227,6 +227,10 @@ class readSDDS:
         Returns:
 
         """
+        self._row_counts = 'row_counts'
+        while any(par.fields['name'] == self._row_counts for par in self.data['&parameter']):
+            # A parameter of the file has the name
+            self._row_counts = '_' + self._row_counts
         for par in self.data['&parameter']:
             if par.fields['fixed_value'] is None:
                 if par.fields['type'] == 'string':
@@ -243,10 +247,10 @@ class readSDDS:
 
         if self._data_mode == 'binary':
             # Binary always has count and it is before listed parameters start
-            self._parameter_keys.insert(0, [('row_counts', utils.data_types['long'])])
+            self._parameter_keys.insert(0, [(self._row_counts, utils.data_types['long'])])
         elif not self.data['&data'][0].fields['no_row_counts'] and len(self.data['&column']) > 0:
             # ASCII: count may not be included and will be at the end of the parameters
-            self._parameter_keys.append([('row_counts', utils.data_types['long'])])
+            self._parameter_keys.append([(self._row_counts, utils.data_types['long'])])
 
     def _get_reader(self):
         if self._data_mode == 'ascii':
@@ -399,7 +403,7 @@ class readSDDS:
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
-            if par[0][0] == 'row_counts':
+            if par[0][0] == self._row_counts:
                 rc_index = i
                 break
 
@@ -425,7 +429,7 @@ class readSDDS:
             if len(self.data['&column']) == 0:
                 row_count = 0
             elif not self.data['&data'][0].fields['no_row_counts']:
-                row_count = utils.get_entry_from_parameters(parameter_data, 'row_counts')  #parameter_data[rc_index][0][0][0]
+                row_count = utils.get_entry_from_parameters(parameter_data, self._row_counts)  #parameter_data[rc_index][0][0][0]
             else:
                 row_count = self._get_ascii_row_count(position)
 
-- 
2.43.0


From b53c73924c86b649c655890d51ee319452126a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 103/103] fix: text such as 1_0, nan, inf and 2pi in element
 parameters is taken for a number

---
 rsbeams/rslattice/lte_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 5fcb0c1..d06cc45 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -366,7 +366,7 @@ def parse_rpn(expression):
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-        val = val.replace('pi', str(np.pi))
+        val = re.sub('^([+-]?)pi$', lambda m: m.group(1) + str(np.pi), val)
         val = val.strip()
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
@@ -392,6 +392,9 @@ def parse_rpn(expression):
             stack.append(result)
         else:
             if val:
+                # Python takes more for a number, such as 1_0 and nan
+                if not re.match(r'[-+]?[\d.][-+\d.e]*$', val, re.I | re.A):
+                    raise ValueError('{} is neither a number nor an operator'.format(val))
                 stack.append(float(val))
 
     return stack.pop()
-- 
2.43.0

