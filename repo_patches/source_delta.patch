From f05f89cb6d55040b29a2f12a8dfa8ff63393d78e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 20:52:57 +0000
Subject: [PATCH 01/26] fix: reject out-of-range and negative bit-field values

BitField accepted 2**width (one too many) and negative values, which spilled
into neighbouring bits or made the whole field negative.
---
 h800/bitfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..88d13dc 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -113,6 +113,8 @@ class BitField:
         if self._value > self._maxval:
             raise ValueError("Value is greater than maximum allowed by "
                              "bit-field width!")
+        if self._value < 0:
+            raise ValueError("Value must not be negative!")
         self._numbering = numbering
         if numbering not in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1,
                              self.BIT_SCHEME_MSB_0, self.BIT_SCHEME_MSB_1):
@@ -315,8 +317,8 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
-            raise ValueError("Value is greater than allowed for %d-bit field!"
+        if value < 0 or value > 2 ** width - 1:
+            raise ValueError("Value is out of range for %d-bit field!"
                              % width)
 
     def _bitmask(self, start, end):
-- 
2.43.0


From 48f18b905ee3c4ec27433815791f07c7d5e5a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:52 +0000
Subject: [PATCH 02/26] fix: compute bit-range mask from the least significant
 bit of the range

For LSB-left bit-fields the mask was shifted by the index of the most
significant bit, so range reads and writes touched the wrong bits.
---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 88d13dc..9237241 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -328,7 +328,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From b27561240510abe4c9f84e579515dbd872677f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 03/26] fix: let set(0) and clear(0) address bit 0 of 0-based
 bit-fields

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 9237241..6d7926b 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -412,7 +412,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -420,7 +420,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From 369401af65455bcd1e58dd3bfb840ee3e6cfd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:55 +0000
Subject: [PATCH 04/26] fix: make the bit-range predicates report on exactly
 the range asked about

isRange(..., 1) compared the right-justified sub-field with the unshifted
mask, and isRangeClr was true of any range that was not all ones.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 6d7926b..3726d36 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -444,8 +444,8 @@ class BitField:
         self._checkRange(start, end)
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
-        subfield = self.__getitem__(slice(start, end))
         bitmask = self._bitmask(start, end)
+        subfield = self._value & bitmask
         if value == 0:
             return True if subfield == 0 else False
         else:
@@ -458,4 +458,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 850ead90d211dd008d7618cab6436cf5dc59cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:11 +0000
Subject: [PATCH 05/26] fix: do not write part of a memory range that runs off
 the bank

A slice assignment crossing the end of the bank stored into the words
before the end and only then raised KeyError.
---
 h800/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..d01db22 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -55,8 +55,9 @@ class MemoryBank:
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            for i in range(key.start, key.stop):
-                self._data[i].value = value
+            words = [self._data[i] for i in range(key.start, key.stop)]
+            for word in words:
+                word.value = value
         else:
             self._data[key].value = value
 
-- 
2.43.0


From 679dc8d33f29d15c67f6c6590aea05ae1abb077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:11 +0000
Subject: [PATCH 06/26] fix: start every iteration over a memory bank at its
 first word

The bank was its own iterator and never rewound, so a second loop over it
saw no words and nested loops shared one cursor.
---
 h800/memory.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index d01db22..1d75da7 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -15,7 +15,6 @@ class MemoryBank:
         for addr in range(self.BANK_SIZE):
             self._data[addr] = Word(0)
         self._width = self.MEMORY_WIDTH
-        self._current = 0
 
     def _checkValue(self, value):
         if value < 0 or value > (2 ** self._width - 1):
@@ -65,14 +64,8 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(self._data):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._data[self._current - 1]
+        for addr in range(len(self._data)):
+            yield self._data[addr]
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From e43ed9c111dbeaa1c14904a910907a1ff09abc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:35 +0000
Subject: [PATCH 07/26] fix: make register iteration and clearing repeatable

A register group was its own never-rewound iterator, so a second loop over
it was empty, and clear() on a group (or on all groups) did nothing once
the object had been iterated.
---
 h800/registers.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..fdbc0e8 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -145,7 +145,6 @@ class RegisterGroup:
         for regname in REGISTERS:
             self._registers[REGISTERS[regname]] = \
                 Register(name=regname, width=width)
-        self._current = 0
 
     @property
     def width(self):
@@ -175,14 +174,8 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(REGISTERS):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._registers[self._current - 1]
+        for number in range(len(REGISTERS)):
+            yield self._registers[number]
 
     def __repr__(self):
         text = ""
@@ -249,5 +242,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From cd2045815b224682bd70b3879099e485125e8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:36 +0000
Subject: [PATCH 08/26] fix: replace registers and groups under the key they
 were addressed by

Assigning group['X0'] added a 33rd entry, assigning group[8] raised
KeyError, and assigning registers[8] added a ninth group.
---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index fdbc0e8..bf10136 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -166,9 +166,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -220,6 +224,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From 294e4bc42938c6348e6d74a9113b26059e80379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:04 +0000
Subject: [PATCH 09/26] fix: keep column 9 of P, R and L card remarks

The free text of these cards starts in column 9, but it was taken from
column 10, so text punched from column 9 on lost its first character.
---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From 733f7188f1f3841b0350fbab1504c1f0e37f2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:04 +0000
Subject: [PATCH 10/26] fix: keep the line terminator out of the card fields

Cards read from a file carried the newline in whichever raw field the line
ended in.
---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From dbfea60429ba9910693d614b0f486add931cf5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:05 +0000
Subject: [PATCH 11/26] fix: give comment cards empty fields instead of none at
 all

Constructing an ARGUS card from a '#' line, or reading the fields or the
record of a comment punch card, raised AttributeError.
---
 h800/punchcard.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 4336429..2f49063 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -55,7 +55,13 @@ class PunchCard:
         self._linenum = linenum
         self._verbose = verbose
         self._comment = line.startswith('#')
-        if not self._comment:
+        self._fields = []
+        self._strippedFields = []
+        self._record = {}
+        if self._comment:
+            for name in fieldnames:
+                self._record[name] = None
+        else:
             for i, col in enumerate(fields):
                 fstart = col
                 if i == len(fields) - 1:
@@ -63,11 +69,8 @@ class PunchCard:
                 else:
                     fwidth = fields[i+1] - col
                 self._layout.append((fstart, fwidth))
-            self._fields = []
             for s, w in self._layout:
                 self._fields.append(self._line[s-1:s-1+w])
-            self._strippedFields = []
-            self._record = {}
             if linenum != 0:
                 self._record["linenum"] = linenum
             for i, field in enumerate(self._fields):
-- 
2.43.0


From 03462956f0bd39f02b1d151ecc0605fabeb1e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:11 +0000
Subject: [PATCH 12/26] fix: report symbols that are defined twice in one
 subsegment

The previous definition was looked up one level too high in the table, so
a second definition of the same kind was never noticed and silently
replaced the first.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 2ee729566ef465c2f3358f6dd28d4c426b4a802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:12 +0000
Subject: [PATCH 13/26] fix: treat TAS as a reassignable complex assignment

The ARGUS manual defines TAS as assigning a tag to a complex address, like
ASSIGN, and allows a tag assigned by TAS to be reassigned by another TAS.
---
 h800/symbol_table.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..6c8a557 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -260,7 +260,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 print("Current definition: %s" % symtabEntry, file=sys.stderr)
                 errcount += 1
                 continue
-            if command == "ASSIGN":
+            if command in ("ASSIGN", "TAS"):
                 symtype = "complex"
             else:
                 symtype = "simple"
@@ -289,6 +289,12 @@ def buildSymbolTable(filename, symtab, verbose=False):
                                     and card.addressc == prevcard.addressc:
                                 # Equivalent assignment, ignore.
                                 continue
+                    if command == "TAS":
+                        prevcard = prevdef[symtype]["card"]
+                        if prevcard.operation == "TAS":
+                            # Temporary assignments may be reassigned freely.
+                            prevdef[symtype] = symtabEntry
+                            continue
                     print("*** ERROR: Symbol %s is multiply-defined!" %
                           tagName, file=sys.stderr)
                     print("Previous definitions: %s" %
-- 
2.43.0


From 9c6ab3105a1b8efc1b3f34847da18e5bfe2b4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:13 +0000
Subject: [PATCH 14/26] fix: keep the segments of different source files apart

Everything after the first dot of the path was dropped, so all files named
with a ./ or ../ prefix shared one segment with an empty name.
---
 h800/symbol_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 6c8a557..1381f00 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import os.path
 import sys
 from fuzzywuzzy import fuzz
 from fuzzywuzzy import process
@@ -177,7 +178,7 @@ class SymbolTable:
 
 def buildSymbolTable(filename, symtab, verbose=False):
     """Build the symbol table."""
-    seg = filename.split('.')[0]  # Default: name of the first file.
+    seg = os.path.splitext(filename)[0]  # Default: name of the first file.
     subsegs = []        # List of subsegments.
     subseg = "1"        # Current subsegment, default is 1 (no starting SETLOC)
     d = Deck(file=filename, verbose=verbose)
-- 
2.43.0


From bb81547b0b83ba5ea9264d9ba8d7701152f19af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:14 +0000
Subject: [PATCH 15/26] fix: list every absolute symbol exactly once

The flag that ends the search through a symbol's segments was never reset,
so after the first hit only the first segment of later symbols was
considered.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 1381f00..a22b46a 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -330,8 +330,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From 83a71a13931e0df3fc9eb24763d52cdff9857fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:15 +0000
Subject: [PATCH 16/26] fix: do not number cards past the requested end

With a step greater than one genlines printed one number beyond end
whenever the range was not a multiple of the step.
---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..4b290ed 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end+1, step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From b3854e045db3a3f70873a4f17a7ff997e8a3a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:16 +0000
Subject: [PATCH 17/26] fix: keep a blank column 8 blank in generated page
 headings

For an L card with nothing in column 8 genpages punched the word None
there, which also shifted the rest of the card.
---
 tools/genpages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..1f93e0f 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -37,6 +37,8 @@ def main():
 
     logsection = d.log_section
     logsectioncol8 = d.log_section_col8
+    if logsection is not None and logsectioncol8 is None:
+        logsectioncol8 = ' '
 
     for line in inlines:
         if logsection is None:
-- 
2.43.0


From 1a8b881b5565caf881745d5f0db8539f7062f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:17 +0000
Subject: [PATCH 18/26] fix: report a missing page range instead of crashing

genpages died with UnboundLocalError for a file without a Pages line.
---
 tools/genpages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/genpages.py b/tools/genpages.py
index 1f93e0f..d9d5320 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -40,6 +40,7 @@ def main():
     if logsection is not None and logsectioncol8 is None:
         logsectioncol8 = ' '
 
+    start = end = None
     for line in inlines:
         if logsection is None:
             if line.startswith("# Filename: "):
@@ -60,6 +61,10 @@ def main():
         parser.error("Cannot determine log section!")
         sys.exit(1)
 
+    if start is None:
+        parser.error("Cannot determine page numbers!")
+        sys.exit(1)
+
     if start > end:
         parser.error("Invalid page numbers!")
         sys.exit(1)
-- 
2.43.0


From 0538aa477de9a795e8fade642bd12a77c81252db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:19 +0000
Subject: [PATCH 19/26] fix: count the symbol errors of every file parsed

The total only included the symbol errors of the last file named.
---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..46147e3 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, symerrs = buildSymbolTable(filename, symtab,
+                                           verbose=opts.verbose)
+        errcount += symerrs
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, symerrs), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From 0ea4286c98d9eb3640e3a72fa15a9431054a65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:20 +0000
Subject: [PATCH 20/26] fix: name the listing of a file that has no extension
 after the file

The listing of such a file was written to ".lst", or for a path with a dot
in a directory name to a file outside that directory.
---
 tools/listing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..95285cc 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -28,7 +29,7 @@ def main():
         sys.exit(1)
 
     for filename in args:
-        listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        listfile = os.path.splitext(filename)[0] + ".lst"
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From 2f75eca9f98579c9db8fee1d680a99fe57ed52e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:21 +0000
Subject: [PATCH 21/26] fix: print frequencies of a deck without instructions

check-instructions -c divided by zero when no card had an instruction.
---
 tools/check-instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..f0131ca 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -100,6 +100,7 @@ def main():
                         errcount += 1
 
     if opts.count:
+        total = float(instrcount) or 1.0
         print("\nSource lines: %d" % linecount)
         print("\nInstruction Frequencies:")
         print("%-8s %6d  %6.2f%%" % ("Total", instrcount, 100.0))
@@ -110,13 +111,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From d15f409cbbc2732d915430eed0a3bba982740b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:23 +0000
Subject: [PATCH 22/26] fix: show the source file of symbols defined under ./
 or ../

list-symbols cut the file name at its first dot, leaving it empty for such
paths.
---
 tools/list-symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/list-symbols.py b/tools/list-symbols.py
index 0317b3b..3199a0f 100755
--- a/tools/list-symbols.py
+++ b/tools/list-symbols.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 from __future__ import print_function
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -46,7 +47,7 @@ def main():
                     print("        %-9s %1s %-38s      %s" %
                           ("<%s>" % symtype,
                            symdata["tagtype"],
-                           "%s:%s" % (symdata["file"].split('.')[0],
+                           "%s:%s" % (os.path.splitext(symdata["file"])[0],
                                       symdata["line"]),
                            symdata["card"]))
 
-- 
2.43.0


From 5371185666567ce1505dc6bf3ffff5fadb5d8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:48 +0000
Subject: [PATCH 23/26] fix: let a symbol table entry report its value

The value property read an attribute that no entry has.
---
 h800/symbol_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index a22b46a..a0aa7ea 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -33,7 +33,9 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self._absoluteValue is not None:
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
-- 
2.43.0


From d4ec6c7cb76701e7ded284c2cacafa3556729d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:49 +0000
Subject: [PATCH 24/26] fix: prune every resolved symbol from the undefined
 list

Entries were deleted from the list while it was being enumerated, so the
entry after each pruned one was skipped.
---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index a0aa7ea..117f416 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -132,11 +132,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From ca6352a38c76d4ceeb20e0f01003d8b37b0466d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:51 +0000
Subject: [PATCH 25/26] fix: make updating a symbol possible

SymbolTable.update assigned to a read-only property, and reported unknown
symbols through a context object the table does not have.
---
 h800/symbol_table.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 117f416..81cbf8d 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -70,6 +70,14 @@ class SymbolTableEntry:
     def isMultiple(self):
         return self.isAbsolute() and self.isComplex()
 
+    def define(self, value, symtype=None):
+        self._absoluteValue = self._complexValue = None
+        self._symtype = symtype
+        if symtype == "absolute":
+            self._absoluteValue = value
+        else:
+            self._complexValue = value
+
     def addReference(self, ref):
         self._references.append(ref)
 
@@ -103,12 +111,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].define(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From bfeb3147af63feb1b440c9697c0ea495e7466d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:59 +0000
Subject: [PATCH 26/26] fix: return no fuzzy matches when there is nothing to
 match

With no absolute symbols in the table the matcher raised RuntimeError,
which also ended check-symbols -c with a traceback.
---
 h800/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 81cbf8d..93f1e05 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -377,6 +377,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
+            if len(absSyms) == 0:
+                return []
             matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
-- 
2.43.0

