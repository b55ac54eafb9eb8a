From c8b59e1035fefa44e4f5bf2fca9a6e3d970c6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 01/58] fix: leave the caller's NASA Ames dictionary unchanged
 when writing

The 2-D and higher writers reversed DX, NX and XNAME in place, so the
dictionary handed in came back altered and writing it again (or writing
a 3010/4010 file with no_header) produced a wrong file.
---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From 2d35daa047e06937d721c31b456ea7e2a2ffe763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 02/58] fix: read bounded axes of different lengths in FFI 3010
 and 4010

NXDEF was reversed before the axis lines, which are in file order, were
read, so a file whose axes define different numbers of values could not
be read back.
---
 nappy/na_file/na_file_2010.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..2471671 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,8 +40,9 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+        # The axes are listed in file order, i.e. the reverse of self.NXDEF
+        for nxdef in reversed(self.NXDEF):
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, nxdef, float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From 60f3d85f780217a630a77d0d3ff8609c00aa8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 03/58] fix: write FFI 2310 data one variable after another

The format (and readData) expect all the values of a variable before
those of the next one; they were interleaved, so any file with more than
one variable was silently scrambled.
---
 nappy/na_file/na_file_2310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..f5e9489 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -109,7 +109,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write second independant variable and dependant variables
             var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            for n in range(self.NV):
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From f258c2439c316b9b17e582d952bec0b18f36be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 04/58] fix: raise an error when a file ends inside its header

Reading values for a list looped for ever at the end of the file, and
missing name or comment lines were silently replaced by empty ones.
---
 nappy/na_file/na_file.py   | 5 ++++-
 nappy/utils/text_parser.py | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..ef4fad4 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -157,7 +157,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("End of file found in header section after reading %s of %s lines." % (i, nlines))
+            lines.append(line.strip())
         return lines
 
     def _checkForBlankLines(self, datalines):
diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..a464b85 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -68,7 +68,8 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     """
 
     rtitems = []
-    lines = []        
+    lines = []
+    extras = []
 
     if type(object) == type([2,3]): 
 
@@ -81,7 +82,10 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextline = object.readline()
+            if nextline == "":
+                raise Exception("End of file found after " + str(len(rtitems)) + " of the required number (" + str(nitems) + ") of items.")
+            items = rightStripCurlyBraces(nextline).strip().split()
             lines.append(items)
             (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
 
-- 
2.43.0


From b3b001523971ed52c35ee7d39c0e4ac1868549f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 05/58] fix: refuse a second write after a failed one

A write that failed part way left the object writable, so a retry
appended a second header and data section to the same file.
---
 nappy/na_file/na_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index ef4fad4..c82266d 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -118,15 +118,15 @@ class NAFile(nappy.na_file.na_core.NACore):
         self._parseDictionary()
         self.header = StringIO()
 
+        # Set flag to make sure cannot try and write more data, even if this attempt fails part way
+        self.data_written = True
+
         if not no_header:
             self.writeHeader()
 
         self.writeData()
         self.file.flush()
-        
-        # Set flag to make sure cannot try and write more data
-        self.data_written = True
-         
+
     def close(self):
         "Wrapper to builtin close file function."
         self.file.close()
-- 
2.43.0


From 83282ee3044ea55b3e9a399a2b0cf5bc696eb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 06/58] fix: report configuration files that cannot be read

ConfigParser.read() silently ignores files it cannot open. The empty
result was then cached, breaking every later call in the process.
---
 nappy/utils/parse_config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/parse_config.py b/nappy/utils/parse_config.py
index 31e826f..4d41f95 100644
--- a/nappy/utils/parse_config.py
+++ b/nappy/utils/parse_config.py
@@ -35,7 +35,8 @@ def makeConfigDict(cf=config_file):
     """
     d = {}
     conf = MyCasePreservingConfigParser()
-    conf.read(cf)
+    with open(cf) as fh:
+        conf.read_file(fh)
 
     # get all sections and content
     for section in conf.sections():
@@ -75,7 +76,8 @@ def makeAnnotationsConfigDict(af):
     """
     ad = {}
     conf = MyCasePreservingConfigParser()
-    conf.read(af)
+    with open(af) as fh:
+        conf.read_file(fh)
 
     # Load up dict
     for item in conf.options("annotations"):
@@ -107,7 +109,8 @@ def makeLocalAttributesConfigDict(laf):
     """
     lad = {}
     conf = MyCasePreservingConfigParser()
-    conf.read(laf)
+    with open(laf) as fh:
+        conf.read_file(fh)
 
     # Load up dict
     for sect in ("nc_attributes", "na_attributes"):
-- 
2.43.0


From 2d442e5e51acd4971bb9169a3177816122c62d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 07/58] fix: report each file of a size-limited output once

The names of files split on size_limit were listed twice in the output
files written.
---
 nappy/nc_interface/xarray_to_na.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..4649433 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -415,8 +415,6 @@ class XarrayToNA:
             letter_count = letter_count + 1
             start = end
 
-            file_names.append(file_name_plus_letter) 
-
         return file_names
 
     def _updateWithColumnHeaders(self, na_dict, delimiter):
-- 
2.43.0


From 91e19cba2fd101efddfe01869b3a577715184757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 08/58] fix: honour no_header when output is split on
 size_limit

---
 nappy/nc_interface/xarray_to_na.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 4649433..19fc969 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -313,7 +313,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -365,7 +365,7 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
@@ -406,7 +406,7 @@ class XarrayToNA:
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation, no_header=no_header)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 44a42772092588fba5fe5e435143f6ba4e44203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 09/58] fix: write the same content each time a converter
 writes its files

The column headers line and any overriding comments were added again to
the converted content on every call to writeNAFiles().
---
 nappy/nc_interface/xarray_to_na.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 19fc969..d739c1e 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -269,6 +269,9 @@ class XarrayToNA:
             # Set up current na dict
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
 
+            # Take a copy - so that the modifications below are not repeated if called again
+            this_na_dict = this_na_dict.copy()
+
             # Override content of NASA Ames if they are permitted
             for key in overriders:
 
@@ -446,7 +449,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
-- 
2.43.0


From 3d339e0774ebc70383284571f9e31bba27f43434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 10/58] fix: keep auxiliary coordinates in dataset order

They were collected in a set, so the order of the variables in the
output file changed from one process to the next.
---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index d739c1e..eca1ba3 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -520,8 +520,8 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
-                                  if coord not in var.dims])
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
+                                            if coord not in var.dims])
 
         # Compile into one list of variable to convert
         xr_variables = [xr_dset[key] for key in main_var_keys]
-- 
2.43.0


From f4ca3780dfe8836184afa8ba68f6ccfd7f38be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 11/58] fix: write to the requested csv_file in convertNCToCSV

When csv_file was given it was ignored, along with the delimiter, and a
".na" file was written next to the input file.
---
 nappy/nappy_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..0e592f5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From 123150bd96166c153cd0206ade87acf25a6c9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 12/58] fix: honour no_header in convertNAToCSV

---
 nappy/nappy_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 0e592f5..49b33c5 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -231,7 +231,7 @@ def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
         csv_file = getFileNameWithNewExtension(na_file, "csv")
 
     fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
     fout.close()
     return True
 
-- 
2.43.0


From b4aa214bf76fad8abc0c097b620400903edd6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 13/58] fix: make convertXarrayObjectsToNA importable and pass
 on size_limit

It imported a module that does not exist, so it could never run.
---
 nappy/nappy_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 49b33c5..f2daf2a 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
-- 
2.43.0


From d31459698fcf935368ff19a83e47d7f413e8a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 14/58] fix: append to the NetCDF file when mode is "a"

The mode was ignored and an existing file always overwritten.
---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..3299cf6 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -106,7 +106,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         # Write to NetCDF
-        ds.to_netcdf(file_name)
+        ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
-- 
2.43.0


From 1e5290c48ea58d3f476967e3df9b5094ecd21117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 15/58] fix: write files that have an empty originator, source
 or mission line

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From 03005c10d2b4e0c76641635a8bfabefb9f0fb263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 16/58] fix: give the same content each time the data section
 is read

Calling readData() again repeated the unbounded axis (FFI 2010, 3010 and
4010) or the increments (FFI 2310), which were also truncated to whole
numbers.
---
 nappy/na_file/na_file_2010.py |  1 +
 nappy/na_file/na_file_2310.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 2471671..b65b3cc 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -92,6 +92,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index f5e9489..c5c0035 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,14 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        super()._setupArrays()
+        # Keep only the header value, the others are read with the data
+        self.DX = self.DX[:1]
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
@@ -72,7 +80,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 87e00c61cbed854e2973af7c24c1989d348ff1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 17/58] fix: do not apply scale factors to missing values

A missing value multiplied by the scale factor no longer equals the
missing value declared in the NetCDF file, so it turned into data.
---
 nappy/nc_interface/na_to_xarray.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..448141b 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -258,10 +258,8 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # Scale the data but leave missing values as they are
+        array = np.where(array == miss, array, array * scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -327,10 +325,8 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # Scale the data but leave missing values as they are
+        array = np.where(array == miss, array, array * scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From d9b25a3ab3980292d6c2a9892e9d21ee2b41ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 18/58] fix: read FFI 2160 character values that contain spaces

Each character-string mark or missing value is a line of its own, but it
was split at white space and a value of several words refused.
---
 nappy/na_file/na_file.py      | 2 +-
 nappy/na_file/na_file_2160.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index c82266d..4e558b4 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -274,7 +274,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..89a8c7c 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -101,7 +101,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        x1 = nappy.utils.text_parser.readItemsFromLines(datalines[:1], 1, str)
+        datalines = datalines[1:]
         self.X.append([])
         self.X[ivar_count].append(x1[0])
         # Set up list to take second changing independent variable
-- 
2.43.0


From b50a9bdb4a3e63106cee79945237655815532b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 19/58] fix: write FFI 2160 files without character auxiliary
 variables

---
 nappy/na_file/na_file_2160.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 89a8c7c..9d57862 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -74,10 +74,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
-            line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+                line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
 
-- 
2.43.0


From c486e4b89d0d1b6caeb9144a5ee47b3f94fd5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 20/58] fix: do not merge variables whose axes only partly
 agree

Two axes counted as identical when at least one of their values was the
same, so variables could be written against the wrong axis.
---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..0be07e6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From c32d785d895025cd766f1cd557e990b52c13af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 21/58] fix: keep variables defined on a regular subset of the
 main axis

A variable whose axis values were every n-th value of the main axis was
taken out of the variables still to be written but not written anywhere.
Write it as an FFI 1020 auxiliary variable, as intended, where that is
possible and to a file of its own otherwise.
---
 nappy/nc_interface/na_content_collector.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..a509452 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -197,9 +197,12 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
                         # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
+                        # All variables in the file must share it and the main axis must be evenly spaced
+                        if nvpm and number_of_dims == 1 and \
+                                self._canUse1020(nvpm, best_var_axes[0]):
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
+                            aux_vars_for_na.append(var)
                         else: # if returned False, i.e. not regular subset axis
                             self.unused_vars.append(var)
 
@@ -239,6 +242,18 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         return vars_for_na, aux_vars_for_na
 
+    def _canUse1020(self, nvpm, axis):
+        """
+        Returns True if FFI 1020 can hold an auxiliary variable defined at every
+        'nvpm'-th value of 'axis', alongside any others already collected.
+        """
+        if nvpm == 1 or self.na_dict.get("NVPM", nvpm) != nvpm:
+            return False
+
+        incr = xarray_utils.get_interval(axis, 0, 1)
+        return incr != 0 and all(xarray_utils.get_interval(axis, i - 1, i) == incr
+                                 for i in range(1, len(axis)))
+
     def _reorderVarsIfPreviouslyNA(self, vars_for_na, aux_vars_for_na):
         """
         Re-order if they previously came from NASA Ames files (i.e. including the 
@@ -309,6 +324,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 ffi = self.requested_ffi 
             else:
                 ffi = 2010
+        elif ffis_limited == [1020]:
+            ffi = 1020
         else:
             if len(aux_vars_for_na) > 0 or ("NAUXV" in self.na_dict and self.na_dict["NAUXV"] > 0):
                 ffi = 1010
-- 
2.43.0


From eb26550be95760a7a9d4a1685f8d774412164965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 22/58] fix: keep variables that share a NASA Ames variable
 number

Variables from several NASA Ames files can have the same number, in which
case only the last of them was written.
---
 nappy/nc_interface/na_content_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index a509452..d0c5f6b 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -266,7 +266,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
-            if hasattr(var, "nasa_ames_var_number"):
+            if hasattr(var, "nasa_ames_var_number") and ordered_vars[var.nasa_ames_var_number] is None:
                 ordered_vars[var.nasa_ames_var_number] = var
             else:
                 other_vars.append(var)
@@ -284,7 +284,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         other_aux_vars = []
 
         for var in aux_vars_for_na:
-            if hasattr(var, "nasa_ames_aux_var_number"):
+            if hasattr(var, "nasa_ames_aux_var_number") and ordered_aux_vars[var.nasa_ames_aux_var_number] is None:
                 ordered_aux_vars[var.nasa_ames_aux_var_number] = var
             else:
                 other_aux_vars.append(var)
-- 
2.43.0


From 170409a85294008dc13736da13636e59ddf4440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 23/58] fix: refuse records with surplus values on a
 continuation line

Only the surplus on a line with more items than the whole record was
noticed. Any other was dropped silently.
---
 nappy/utils/text_parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index a464b85..d12f8c6 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -69,7 +69,6 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
 
     rtitems = []
     lines = []
-    extras = []
 
     if type(object) == type([2,3]): 
 
@@ -78,7 +77,7 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
     else:
         while len(rtitems) < nitems:
@@ -87,9 +86,9 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
                 raise Exception("End of file found after " + str(len(rtitems)) + " of the required number (" + str(nitems) + ") of items.")
             items = rightStripCurlyBraces(nextline).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
 
-    if len(extras) > 0:
+    if len(rtitems) > nitems:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
 
     if rttype is not str:
-- 
2.43.0


From 1cc2a45edb616437385d720e33a16b9fde1c903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 24/58] fix: write FFI 2310 records that have no values

---
 nappy/na_file/na_file_2310.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index c5c0035..c38c3c3 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -120,4 +120,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
             for n in range(self.NV):
                 for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+
+            # No line if there are no values: an empty line is not allowed in the data section
+            if self.NX[m] > 0:
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From 930537bb6470ab5c2532e3203b1636eaf670a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 25/58] fix: replace the extension when making up an output
 file name

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..2d2c21c 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -101,8 +101,8 @@ def getFileNameWithNewExtension(input_file, format):
     base_name = input_file
     last_four = base_name[-4:]
     found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) + found
+    if found > -1 and "/" not in last_four[found:]:
+        idx = len(base_name) - len(last_four) + found
         base_name = base_name[:idx]
     return base_name + "." + format
 
-- 
2.43.0


From cc6f25c4f8ee77389ee3151c65c649652aa7a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 26/58] fix: convert FFI 1020 files to NetCDF

---
 nappy/na_file/na_file_1020.py      | 15 ++++++---------
 nappy/nc_interface/na_to_xarray.py | 12 ++++++++++--
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..c0e8216 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -30,7 +30,6 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         Reads FFI-specifc header section.
         """    
-        self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
         if self.DX == 0:
@@ -69,19 +68,17 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
                 count = count + 1
         return rtlines
 
-    def _normalizeIndVars(self):
+    def _expandIndVar(self):
         """
-        Normalizes the values in the unbounded independent variable for FFIs
-        that store an abbreviated version of this axis.
+        Returns the values of the unbounded independent variable including
+        those that are implied, i.e. not listed in the file.
         """
-        if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
-        self._normalized_X = True
+        return newX
 
     def writeData(self):										
          """   													
diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 448141b..34a24a3 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -336,8 +336,14 @@ class NADictToXarrayObjects:
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
 
+        axis = self.xr_axes[0]
+        if self.na_file_obj.FFI == 1020 and self.na_file_obj.NVPM > 1:
+            # Auxiliary variables are only defined at the values listed in the file
+            axis_name = f"{axis.name}_aux"
+            axis = axis[::self.na_file_obj.NVPM].rename({axis.name: axis_name}).rename(axis_name)
+
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=[axis], 
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
@@ -378,7 +384,9 @@ class NADictToXarrayObjects:
         if not self.na_file_obj._normalized_X:
             self.na_file_obj._normalizeIndVars()
 
-        if self.na_file_obj.NIV == 1:
+        if self.na_file_obj.FFI == 1020:
+            array = self.na_file_obj._expandIndVar()
+        elif self.na_file_obj.NIV == 1:
             array = self.na_file_obj.X
         else:
             array = self.na_file_obj.X[ivar_number]
-- 
2.43.0


From 94f817ab14c5f909c6bf74eb2f192c9f033ab05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 27/58] fix: convert time axes that are not called time

---
 nappy/nc_interface/xarray_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 0be07e6..d468195 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,8 +286,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
+    # Use the units of the values themselves, or of the time axis if they have none
+    encoding = da.encoding if "units" in da.encoding else da.time.encoding
+    units = encoding['units']
+    calendar = encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
     return arr
 
-- 
2.43.0


From 498d223dcb0df23cb38895a9d1b65734c26117c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 28/58] fix: keep variables whose names become the same in
 NetCDF

---
 nappy/nc_interface/na_to_nc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 3299cf6..aabe09a 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -100,8 +100,19 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         # Fix integers in attributes
         [self.fix_attrs(v) for v in combined_var_list]
 
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
+        # Create the Datset, keeping apart any variables that ended up with the same name
+        axis_names = {axis.name for axis in self.xr_axes}
+        variables = {}
+
+        for da in combined_var_list:
+            name, count = da.name, 1
+
+            while name in variables or name in axis_names:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
-- 
2.43.0


From a49f6aa543d1005f0e9dc5324b17218c1a88b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 29/58] fix: always write singleton variables to NASA Ames
 comments

---
 nappy/nc_interface/na_content_collector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index d0c5f6b..0727f49 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -699,6 +699,11 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
+            # Singleton variables have no other place in the file so always write them
+            if spec_comm_flag == None:
+                SCOM = [hp["sc_start"]]
+            SCOM.extend(rank_zero_vars_string)
+
         # Loop through variables and add 
         for var in self.ordered_vars:
             varflag = "unused"
@@ -716,7 +721,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                             var_comm_flag = 1
 
                     if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
+                        if not SCOM:
+                            SCOM = [hp["sc_start"]]
                         SCOM.append(hp["addl_vatts"])
                         SCOM.append(hp["ncatts_start"])
                         varflag = "using" 
@@ -730,7 +736,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         if var_comm_flag == 1:  
             SCOM.append(hp["ncatts_end"])
-        if spec_comm_flag == 1:
+        if len(SCOM) > 0:
             SCOM.append(hp["sc_end"])
 
         # Strip out empty lines (or returns)
-- 
2.43.0


From 498c9caf39ad9bce7a62736ebc6d33d63f4c2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 30/58] fix: keep apart axes whose names become the same in
 NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 34a24a3..60ab360 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -375,6 +375,18 @@ class NADictToXarrayObjects:
 
         for ivar_number in range(self.na_file_obj.NIV):
             axis = self._convertNAIndVarToXarrayAxis(ivar_number)
+
+            # Keep apart any axes that ended up with the same name
+            name, count = axis.name, 1
+
+            while name in [other.name for other in self.xr_axes]:
+                count += 1
+                name = f"{axis.name}_{count}"
+
+            if name != axis.name:
+                axis = axis.rename({axis.name: name}).rename(name)
+                axis.attrs["name"] = name
+
             self.xr_axes.append(axis)
 
     def _convertNAIndVarToXarrayAxis(self, ivar_number):
-- 
2.43.0


From aed79f3ee012bacffef3ba32acf1ebaeee273fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 31/58] fix: select variables whose names start with a digit

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 60ab360..be6526f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -226,7 +226,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.match(r"\d+$", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
-- 
2.43.0


From 88d27979219d582ccbe8dd2146844f2e9f9a6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 32/58] fix: refuse unknown auxiliary variable names instead of
 ignoring them

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index be6526f..b28277b 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -313,8 +313,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception("Auxiliary variable name not known: " + avar_name)
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From 3c885284e01f9fab9d94bc7b9108ceaba3b6929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 33/58] fix: let readFFI be called with a file name only, as
 documented

---
 nappy/utils/common_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 2d2c21c..a72c98b 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -32,7 +32,7 @@ def getNAFileClass(ffi):
     return eval("%s.%s" % (mod, cls))
    
 
-def readFFI(filename, ignore_header_lines):
+def readFFI(filename, ignore_header_lines=0):
     """
     Function to read the top line of a NASA Ames file to extract
     the File Format Index (FFI) and return it as an integer.
-- 
2.43.0


From 140d131f72865661a817d09726fec8975e3c54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 34/58] fix: close the NetCDF input file once it has been read

---
 nappy/nc_interface/nc_to_na.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 364cb4a..5c3d8cf 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -67,7 +67,10 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
         """
         exclude_vars = exclude_vars or []
 
-        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        # Read all the data now so that the file is closed again, whatever happens later
+        with xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False) as ds:
+            ds.load()
+
         xr_variables = []
 
         # Make sure var_ids is a list
-- 
2.43.0


From 28b1a09b8e0d63eb79e6334cfdd12c6c467ce82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 35/58] fix: refuse an unknown file mode before the file is
 opened

---
 nappy/na_file/na_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4e558b4..ee8c70b 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -60,6 +60,11 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         nappy.na_file.na_core.NACore.__init__(self)
         self.filename = filename
+
+        # Refuse before the file is opened, as opening may create or truncate it
+        if mode not in ("r", "w"):
+            raise Exception("Unknown file mode '%s'." % mode)
+
         self._open(mode)
 
         self.mode = mode
@@ -74,8 +79,6 @@ class NAFile(nappy.na_file.na_core.NACore):
         elif self.mode == "w":
             # Self flag to check if data written
             self.data_written = False
-        else:
-            raise "Unknown file mode '%s'." % self.mode
 
     def __enter__(self):
         return self
-- 
2.43.0


From 72de1aa21f5fcd641f0e3bfd63def9c1f1b9587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 36/58] fix: derive the names of numbered output files from any
 name and extension

---
 nappy/nc_interface/xarray_to_na.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index eca1ba3..529de87 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -211,7 +212,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        (base, ext) = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -221,7 +222,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = base + suffix + ext
                 file_names.append(new_name)
 	    
         return file_names
@@ -404,7 +405,8 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
+            (base, ext) = os.path.splitext(file_name)
+            file_name_plus_letter = f"{base}-{ivol:03d}{ext}"
             file_names.append(file_name_plus_letter)
 
             # Write data to output file
-- 
2.43.0


From e4f889a8d25a76be211fe7bd831ef8ccd952aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 37/58] fix: report each written file once and the right number
 of files

---
 nappy/nc_interface/xarray_to_na.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 529de87..f7e3b4e 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -242,10 +242,9 @@ class XarrayToNA:
         file_names = self.constructNAFileNames(na_file)
 
         # Set up some counters: file_counter is the expected number of files.
-        #      full_file_counter includes any files that have been split across multiple output NA files
+        #      file_list includes any files that have been split across multiple output NA files
         #              because size_limit exceeded.
         file_counter = 1
-        full_file_counter = 1
         file_list = []
 
         # Get any NASA Ames dictionary values that should be overwritten with local values
@@ -318,7 +317,6 @@ class XarrayToNA:
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
                                                                         annotation=annotation, no_header=no_header)
-                file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
             else:		
@@ -328,7 +326,9 @@ class XarrayToNA:
                         no_header=no_header, annotation=annotation)
 
                 x.close()
-                file_list.append(file_name)
+                files_written = [file_name]
+
+            file_list.extend(files_written)
 
             # Report on what has been written
             msg = "\nWrote the following variables:" + "\n  " + ("\n  ".join(vars_to_write[0]))
@@ -344,16 +344,15 @@ class XarrayToNA:
             if len(singleton_var_count) > 0:
                 msg = "\nWrote the following Singleton variables:" + "\n  " + ("\n  ".join(singleton_var_count))
 
-            if len(file_list) > 0:
-                msg = msg + ("\n\nNASA Ames file(s) written successfully: \n%s" % "\n".join(file_list))
+            if len(files_written) > 0:
+                msg = msg + ("\n\nNASA Ames file(s) written successfully: \n%s" % "\n".join(files_written))
 
-            full_file_counter += len(file_list)
             file_counter += 1
 
             if DEBUG: log.debug(msg)
             self.output_message.append(msg)
 	    
-        full_file_count = full_file_counter - 1
+        full_file_count = len(file_list)
 
         if full_file_count == 1:
             plural = ""
-- 
2.43.0


From 0e12b4e6f4f624ee08bd013225c2420624df336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 38/58] fix: accept the documented -l option of nc2na and
 nc2csv

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 715c831209266156bd24ad0949c52708bc996680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 39/58] fix: return the names of the split files when only
 names are asked for

---
 nappy/nappy_api.py                 |  2 +-
 nappy/nc_interface/xarray_to_na.py | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f2daf2a..95ff814 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -285,7 +285,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
 
     # If user only wants files then only give them that
     if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
+        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
     else:
         convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
                                size_limit=size_limit, annotation=annotation, no_header=no_header)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index f7e3b4e..8f9d717 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -196,10 +196,11 @@ class XarrayToNA:
 	     
         return ret_variables
 
-    def constructNAFileNames(self, na_file=None):
+    def constructNAFileNames(self, na_file=None, size_limit=None):
         """
         Works out what the file names of the output NA files will be and 
-        returns a list of them.
+        returns a list of them. If size_limit is given then the names are
+        those of the files split on that limit.
         """
         if not self.converted:
             self.convert()
@@ -224,9 +225,26 @@ class XarrayToNA:
                 suffix = f"_{file_counter}"
                 new_name = base + suffix + ext
                 file_names.append(new_name)
+
+        if size_limit is not None:
+            split_names = []
+
+            for (na_dict, var_ids), file_name in zip(self.na_dict_list, file_names):
+                if self._needsSplit(na_dict, size_limit):
+                    (base, ext) = os.path.splitext(file_name)
+                    nvol = -(-len(na_dict["V"][0]) // size_limit)
+                    split_names.extend([f"{base}-{ivol:03d}{ext}" for ivol in range(1, nvol + 1)])
+                else:
+                    split_names.append(file_name)
+
+            file_names = split_names
 	    
         return file_names
 
+    def _needsSplit(self, na_dict, size_limit):
+        "Returns True if na_dict holds too many records for one file, and its format can be split."
+        return na_dict["FFI"] == 1001 and len(na_dict["V"][0]) > size_limit
+
     def writeNAFiles(self, na_file=None, delimiter=default_delimiter, annotation=False,
                      float_format=default_float_format, size_limit=None, no_header=False):
         """
@@ -313,7 +331,7 @@ class XarrayToNA:
         
             # Cope with size limits if specified and FFI is 1001
             # Seems to be writing different chunks of a too long array to different na_dicts to then write to separate files.
-            if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
+            if size_limit is not None and self._needsSplit(this_na_dict, size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
                                                                         annotation=annotation, no_header=no_header)
-- 
2.43.0


From 8b28f4f20792fcba8a2fa2a90867cd3dc9e004f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 40/58] fix: make nc2csv write CSV files

---
 nappy/script/nc2csv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..765e0aa 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -124,7 +124,10 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+
+    # The delimiter of a CSV file is not an option
+    del arg_dict["delimiter"]
+    csv_files = nappy.convertNCToCSV(csv_file=arg_dict.pop("na_file"), **arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
-- 
2.43.0


From 78c910b23d429dc4b052479da74c87edf870aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 41/58] fix: refuse to append to a NetCDF file that holds a
 different axis of the same name

---
 nappy/nc_interface/na_to_nc.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index aabe09a..44f35d7 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -12,6 +12,7 @@ Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
 
 # Imports from python standard library
 import logging
+import os
 from collections.abc import Sequence
 
 # Third-party imports
@@ -116,8 +117,26 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
+        if mode == "a" and os.path.exists(file_name):
+            self._checkAxesMatch(ds, file_name)
+
         # Write to NetCDF
         ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
+
+    def _checkAxesMatch(self, ds, file_name):
+        """
+        Raises an exception if writing 'ds' would replace an axis of the variables
+        that are already in the file by a different one of the same name.
+        """
+        with xr.open_dataset(file_name, decode_cf=False) as existing:
+            for name in existing.dims:
+                if name not in existing.variables or name not in ds.variables:
+                    continue
+
+                old, new = existing[name], ds[name]
+                if old.dims != new.dims or not np.array_equal(old.values, new.values) or \
+                        old.attrs.get("units") != new.attrs.get("units"):
+                    raise Exception(f"Cannot append to '{file_name}' because it holds a different axis named '{name}'.")
-- 
2.43.0


From 2c147eb20ee3d91d5a0bd8308209f7170d591487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 42/58] fix: do not write NaN as the missing value of a
 variable

---
 nappy/nc_interface/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index d468195..239238e 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -77,7 +77,8 @@ def getMissingValue(var):
                 miss = var.encoding[key]
                 break
 
-    if miss is None:
+    # NaN cannot be a missing value in NASA Ames
+    if miss is None or np.any(miss != miss):
         miss = -1.e20
 
     return miss
-- 
2.43.0


From acfea25186100a21c84214d9a336313118eec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 43/58] fix: write missing values in the header as they are
 written in the data

---
 nappy/nc_interface/xarray_to_na.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 8f9d717..51c6759 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -325,6 +325,10 @@ class XarrayToNA:
                         if DEBUG: log.debug(msg)
                         self.output_message.append(msg)
 
+            # Make sure the missing values in the header are those found in the data
+            for key in ("VMISS", "AMISS"):
+                this_na_dict[key] = [self._getMissingAsWritten(miss, float_format) for miss in this_na_dict[key]]
+
             # For certain FFIs create final Normal comments as a list of column headers before data section 
             if add_column_headers:
                 self._updateWithColumnHeaders(this_na_dict, delimiter)
@@ -385,6 +389,14 @@ class XarrayToNA:
 
         return self.output_message
 
+    def _getMissingAsWritten(self, miss, float_format):
+        """
+        Returns the missing value with the precision that it has in the data section
+        when written with float_format.
+        """
+        written = float(float_format % miss)
+        return miss if written == float(miss) else written
+
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
                       float_format, size_limit, annotation, no_header=False):
         """
-- 
2.43.0


From 86e81131a680ad1503843c64180c19bb1775c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 44/58] fix: convert variables with time as their second or
 later axis

---
 nappy/nc_interface/na_content_collector.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 0727f49..2ae9f57 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -503,20 +503,22 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
 
+        values = xarray_utils.getArrayAsList(axis)
+
         # If only one item in axis values
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = xarray_utils.get_interval(values, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(values, i - 1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -526,7 +528,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From 84794896dc18010993d9a31523dcec811a347fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 45/58] fix: convert variables with a time axis to FFI 2110 and
 2310

---
 nappy/nc_interface/na_content_collector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 2ae9f57..40aa144 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -416,9 +416,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -439,10 +439,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
                     incr = xarray_utils.get_interval(ax2_values, 0, 1)
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
-- 
2.43.0


From 15bfb8a8e6037e3e17ffca4658c300bfa15e4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 46/58] fix: use the calendar of the time axis for the date of
 the first data

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 40aa144..b8f4416 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -793,6 +793,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -800,7 +801,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
-- 
2.43.0


From 6c9dfce8819d6e95c926aa745a5b39cf4a923f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:48 +0000
Subject: [PATCH 47/58] fix: write the interval of the first axis in the header
 of FFI 2310

---
 nappy/nc_interface/na_content_collector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index b8f4416..0a3830d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -450,14 +450,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     # Re-assign to new lists
                     self.na_dict["NX"] = new_nx
                     self.na_dict["X"] = new_x
-                    self.na_dict["DX"] = new_dx
+                    # First DX is the interval of the first axis, as used in the header
+                    self.na_dict["DX"] = self.na_dict["DX"][:1] + new_dx
 
                     # Now auxiliary variable info here with independent var info
                     # First three aux vars are NX, X0 and DX
                     self.na_dict["A"] = []
                     self.na_dict["A"].append(self.na_dict["NX"][:])
                     self.na_dict["A"].append([i[1][0] for i in self.na_dict["X"]])
-                    self.na_dict["A"].append(self.na_dict["DX"][:])
+                    self.na_dict["A"].append(new_dx)
 
                     ind_var_name = self.na_dict["XNAME"][0]
                     self.na_dict["ANAME"] = ["Number of '%s' values recorded in subsequent data records" % ind_var_name,
-- 
2.43.0


From d97718b667e4eb35acc61994f020b5684b95c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 48/58] fix: compare missing values in the header and data
 sections as they read

---
 nappy/nc_interface/xarray_to_na.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 51c6759..d0d93e8 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -391,11 +391,11 @@ class XarrayToNA:
 
     def _getMissingAsWritten(self, miss, float_format):
         """
-        Returns the missing value with the precision that it has in the data section
-        when written with float_format.
+        Returns the missing value so that it reads the same in the header, which holds
+        it as a string, as in the data section, where it is written with float_format.
         """
         written = float(float_format % miss)
-        return miss if written == float(miss) else written
+        return miss if written == float(str(miss)) else written
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
                       float_format, size_limit, annotation, no_header=False):
-- 
2.43.0


From 930bfcf72c9775321e102cba7c8c5469d57d462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 49/58] fix: mark missing values in single precision data with
 the exact missing value

---
 nappy/nc_interface/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 239238e..dbca47c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -322,7 +322,8 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
         found_nans = np.isnan(arr).any()
 
         if found_nans:
-            arr = da.fillna(missing_value).data
+            # Use double precision so that the missing value is not changed
+            arr = da.astype("float64").fillna(missing_value).data
         else:
             arr = da.data
 
-- 
2.43.0


From 5e9f1e1049aeec47dd5ca5adcde737a358db0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 50/58] fix: accept a new DATE for a NetCDF file that has
 first_valid_date_of_data

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 0a3830d..987b53f 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -619,7 +619,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    self.na_dict["DATE"] = value
+                    # NetCDF gives an array
+                    self.na_dict["DATE"] = value.tolist() if hasattr(value, "tolist") else value
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From 327184db3317c175cf699bb4e7006a9c19c99d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 51/58] fix: convert xarray objects with a numeric time axis,
 such as those read from NASA Ames

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 nappy/nc_interface/xarray_utils.py         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 987b53f..eef59a6 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -794,7 +794,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if xarray_utils.is_time(self.ax0):
             # Get first date in list
             try:
-                units = self.ax0.encoding["units"]
+                units = self.ax0.encoding.get("units") or self.ax0.attrs["units"]
                 calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index dbca47c..163f36e 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -287,6 +287,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
+    # Times may be given as numbers already
+    if np.issubdtype(da.dtype, np.number):
+        return resolve_array(da.data)
+
     # Use the units of the values themselves, or of the time axis if they have none
     encoding = da.encoding if "units" in da.encoding else da.time.encoding
     units = encoding['units']
-- 
2.43.0


From 6c40cfbe10bf4b1a886a8cd351d61f94c9c9e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 52/58] fix: keep the chosen FFI when the source has the
 attribute file_format_index

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index eef59a6..268ef1d 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -624,7 +624,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
-                else:
+                elif local_nc_to_na_map[key] != "FFI":  # The FFI depends on the variables to write
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From 8acba90fe33b1ea2a042abe77e1b1ccec99cd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 53/58] fix: keep the text of variable names too long for
 NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index b28277b..4f82226 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -274,15 +274,16 @@ class NADictToXarrayObjects:
             var.attrs["units"] =units
     
         if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
+            var_name = long_name = safe_nc_id.sub("_", var_name).lower()
         else:
+            long_name = var_name
             var_name = "naVariable_%s" % (var_number)
 
         # Check if mapping provided for renaming this variable
         if var_name.lower() in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name.lower()]
+            var_name = long_name = self.rename_variables[var_name.lower()]
 
-        var.attrs["long_name"] = var.attrs["title"] = var_name
+        var.attrs["long_name"] = var.attrs["title"] = long_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
 
         # Add a NASA Ames variable number (for mapping correctly back to NASA Ames)
@@ -351,15 +352,16 @@ class NADictToXarrayObjects:
             var.attrs["units"] = units
 
         if len(var_name) < max_id_length:
-            var_name = safe_nc_id.sub("_", var_name).lower()
+            var_name = long_name = safe_nc_id.sub("_", var_name).lower()
         else:
+            long_name = var_name
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
         if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+            var_name = long_name = self.rename_variables[var_name]
 
-        var.attrs["long_name"] = var.attrs["title"] = var_name
+        var.attrs["long_name"] = var.attrs["title"] = long_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
 
         # Add a NASA Ames auxiliary variable number (for mapping correctly back to NASA Ames)
-- 
2.43.0


From 2f586e1a98ba482777b33d7f0a0f5c38d9216081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 54/58] fix: keep an empty source or mission in NetCDF to NASA
 Ames conversion

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 268ef1d..3322abf 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -547,6 +547,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
         for key, value in self.globals.items():
+            # NetCDF gives an empty array for empty text
+            if key in ("institution", "source", "title") and getattr(value, "size", None) == 0:
+                value = ""
+
             if key != "first_valid_date_of_data" and \
                     type(value) not in (str, int, float):
                 continue
-- 
2.43.0


From 1766c1602b04939644e56fce43ce7c41466ddd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 55/58] fix: let a conversion that failed be tried again with
 the same converter

---
 nappy/nc_interface/na_to_xarray.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 4f82226..8c2c4c4 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -110,19 +110,21 @@ class NADictToXarrayObjects:
         # Convert global attribute
         self._mapNACommentsToGlobalAttributes()
 
+        # Forget anything left by an attempt that failed
+        for attr in ('xr_axes', 'xr_variables', 'xr_aux_variables'):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         # Convert axes
-        if not hasattr(self, 'xr_axes'):
-            self._convertXarrayAxes()
+        self._convertXarrayAxes()
 
         # Convert main variables
-        if not hasattr(self, 'xr_variables'):
-            self._convertXarrayVariables()
+        self._convertXarrayVariables()
 
         # Then do auxiliary variables
         if hasattr(self.na_file_obj, "NAUXV") \
              and (type(self.na_file_obj.NAUXV) == type(1) and self.na_file_obj.NAUXV > 0):   # Are there any auxiliary variables?
-            if not hasattr(self, 'xr_aux_variables'):  
-                self._convertXarrayAuxVariables()
+            self._convertXarrayAuxVariables()
         else:
             self.xr_aux_variables = []
             
-- 
2.43.0


From 30dc6e8e12d5b652607317893d9c27fe80254422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 56/58] fix: refuse a number of values that is not a whole
 number

---
 nappy/na_file/na_file.py      | 6 ++++++
 nappy/na_file/na_file_2110.py | 2 +-
 nappy/na_file/na_file_2160.py | 2 +-
 nappy/na_file/na_file_2310.py | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index ee8c70b..aa77e11 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -187,6 +187,12 @@ class NAFile(nappy.na_file.na_core.NACore):
         return rtlines
 
 
+    def _getCount(self, value):
+        "Returns the number of values that follow in a record, as an integer."
+        if value < 0 or value != int(value):
+            raise Exception("Number of values found in data section is not a whole number: %s" % value)
+        return int(value)
+
     def _readCommonHeader(self):
         """
         Reads the header section common to all NASA Ames files.
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index d04a378..acf50ee 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -87,7 +87,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._getCount(aux[0]))
         return rtlines
 
     def _readData2(self, datalines, ivar_count):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 9d57862..ad22f6f 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -111,7 +111,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         # Get NX and Non-character AUX vars
         (aux, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, (self.NAUXV - self.NAUXC), float)
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._getCount(aux[0]))
 
         count = 0
         for a in range(self.NAUXV - self.NAUXC):
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index c38c3c3..b5ea166 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -79,7 +79,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        self.NX.append(self._getCount(aux[0]))
         self.DX.append(aux[2])
         return rtlines
    
-- 
2.43.0


From efba1ace98dde2059ea2e2b652f6fa10006a9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 57/58] fix: refuse to append a variable to a file that holds
 another kind of variable of its name

---
 nappy/nc_interface/na_to_nc.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 44f35d7..b460fd3 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -118,7 +118,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         if mode == "a" and os.path.exists(file_name):
-            self._checkAxesMatch(ds, file_name)
+            self._checkMatches(ds, file_name)
 
         # Write to NetCDF
         ds.to_netcdf(file_name, mode=mode)
@@ -126,10 +126,11 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
 
-    def _checkAxesMatch(self, ds, file_name):
+    def _checkMatches(self, ds, file_name):
         """
         Raises an exception if writing 'ds' would replace an axis of the variables
-        that are already in the file by a different one of the same name.
+        that are already in the file by a different one of the same name, or if the
+        file has a variable that cannot hold the one of the same name in 'ds'.
         """
         with xr.open_dataset(file_name, decode_cf=False) as existing:
             for name in existing.dims:
@@ -140,3 +141,12 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
                 if old.dims != new.dims or not np.array_equal(old.values, new.values) or \
                         old.attrs.get("units") != new.attrs.get("units"):
                     raise Exception(f"Cannot append to '{file_name}' because it holds a different axis named '{name}'.")
+
+            for name in ds.data_vars:
+                if name not in existing.variables:
+                    continue
+
+                old, new = existing[name], ds[name]
+                if old.dims != new.dims or old.dtype != new.dtype or \
+                        old.attrs.get("_FillValue") != new.encoding.get("_FillValue"):
+                    raise Exception(f"Cannot append to '{file_name}' because it holds a different kind of variable named '{name}'.")
-- 
2.43.0


From 825adb718edb791d1eceddc3e8d2c6f23fb578d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 58/58] fix: do not change axes handed out by getNADict() when
 the file object is used further

---
 nappy/na_file/na_file_2010.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index b65b3cc..8ccb96b 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -92,7 +92,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
-        self.X[0] = []
+        self.X = [[]] + self.X[1:]
 
         # Create an array size to request using read routines
         self.arraySize = 1
@@ -155,6 +155,8 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Normalizes the values in the unbounded independent variable for FFIs
         that store an abbreviated version of this axis.
         """
+        self.X = [axis[:] for axis in self.X]
+
         for i in range(self.NIV - 1):
             if self.NXDEF[i] == self.NX[i]:
                 pass
-- 
2.43.0

