From 6b20f7fb165577d493b7db56c1e2571422200e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:06 +0000
Subject: [PATCH 01/51] fix: don't crash when decompressing code data of 5-7
 bytes

Data too short to hold a code compression trailer is not compressed, and
should be returned unmodified. The length check only looked at the first
byte of the trailer that it needs, so reading the trailer itself could
fail.
---
 ndspy/codeCompression.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..cae37b7 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,9 +36,7 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        if len(data) < possibleAmt + 8:
             return None
 
         compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
-- 
2.43.0


From 03e7a367904b05e0c1a2fc4f8832bd30f21d51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:33 +0000
Subject: [PATCH 02/51] fix: store code data raw if compressing it wouldn't
 make it smaller

The check for this used a wrong mask when aligning the compressed size,
and didn't account for the trailer properly. For data which barely
compresses, compress() crashed because of a negative size, or wrote a
trailer which announces that the data isn't compressed.
---
 ndspy/codeCompression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index cae37b7..79d2f54 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -254,7 +254,10 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    # Size of the output file, if the compressed data is used
+    outputLen = ((ignorableD + len(compressed) - ignorableC + 3) & ~3) + 8
+
+    if not compressed or len(data) <= outputLen:
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 382451eb937544d0900896c4e50c4f393a5d85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:57 +0000
Subject: [PATCH 03/51] fix: return data without a valid code compression
 trailer unmodified

The search for the trailer meant to skip candidates whose padding isn't
0xFF, but the "continue" for that was in an inner loop and had no
effect. It also accepted compressed lengths which don't fit in the data
before the candidate, or are shorter than the trailer itself. As a result,
decompress() raised an error for some data that isn't compressed.
---
 ndspy/codeCompression.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 79d2f54..16f7f6d 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -44,10 +44,12 @@ def _detectAppendedData(data: bytes) -> int | None:
         compressedLen = compLenHeaderLen & 0xFFFFFF
 
         if headerLen < 8: continue
-        if compressedLen > len(data): continue
-        for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
-            if byte != 0xFF:
-                continue
+        if compressedLen < headerLen: continue
+        if compressedLen > len(data) - possibleAmt: continue
+
+        headerEnd = len(data) - possibleAmt
+        if any(byte != 0xFF for byte in data[headerEnd - headerLen : headerEnd - 8]):
+            continue
 
         return possibleAmt
 
-- 
2.43.0


From fad9c82a5d40042d73bb49758871e273b7b962e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:57 +0000
Subject: [PATCH 04/51] fix: keep appended data if code data turns out not to
 be compressed

When a trailer announcing that the data isn't compressed was found before
some appended data, decompress() returned the data without the appended
part.
---
 ndspy/codeCompression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 16f7f6d..ee55dd5 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -82,7 +82,7 @@ def decompress(data: bytes) -> bytes:
     # If extraSize (the last value in the header) is 0, the data is not
     # actually compressed
     if data[-4:] == b'\0\0\0\0':
-        return data
+        return data + appendedData
 
     # Read the header
     compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - 8)
-- 
2.43.0


From 2eca28a7527e1129faedb45362f45251b012e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:32 +0000
Subject: [PATCH 05/51] fix: return None when looking up an empty path in a
 Folder

idOf() and subfolder() return None if the path can't be found, but raised
IndexError for paths which are empty or consist only of slashes.
---
 ndspy/fnt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index c6fb53e..98ef6b4 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -120,8 +120,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
@@ -150,8 +151,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
-- 
2.43.0


From bae813df88e767b98b1c012310965065ccb26b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:26 +0000
Subject: [PATCH 06/51] fix: allow saving main code files without code settings

MainCodeFile.codeSettingsOffs is None for files without a code settings
structure, and for objects created with fromSections(). Saving those
always failed with a TypeError.
---
 ndspy/code.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..6f53343 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,8 +246,9 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
+            if cso is not None:
+                setInt(cso + 0x14, self.ramAddress + len(data))
+        elif cso is not None:
             setInt(cso + 0x14, 0)
 
         return data
-- 
2.43.0


From 2a8ecfe61c6a72ed6b9d5da33acf622fc15df49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:26 +0000
Subject: [PATCH 07/51] fix: write the right start of the section data in main
 code files

If the length of the first section isn't a multiple of 4, padding follows
it in the saved file, but the code settings didn't include that padding in
the address of the section data. All sections were misplaced as a result.
---
 ndspy/code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 6f53343..5ac3bc9 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -239,7 +239,8 @@ class MainCodeFile:
         if cso is not None:
             setInt(cso + 0x00, sectionTableAddr)
             setInt(cso + 0x04, sectionTableEnd)
-            setInt(cso + 0x08, self.ramAddress + len(self.sections[0].data))
+            dataBegin = (len(self.sections[0].data) + 3) & ~3
+            setInt(cso + 0x08, self.ramAddress + dataBegin)
         else:
             # Welp, hopefully we only have one section :P
             pass
-- 
2.43.0


From 9a0df3c583aaf0b41b057ee09766996c539b0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:26 +0000
Subject: [PATCH 08/51] fix: consider padding between sections when loading
 main code files

Sections with a length that isn't a multiple of 4 are followed by padding
in saved files, but loading didn't skip that. All sections after such a
section contained wrong data.
---
 ndspy/code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 5ac3bc9..a86c32a 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -158,7 +158,8 @@ class MainCodeFile:
 
             makeSection(secRamAddr, secSize, dataBegin, bssSize)
 
-            dataBegin += secSize
+            # Sections are padded to a multiple of 4
+            dataBegin += (secSize + 3) & ~3
 
 
     @classmethod
-- 
2.43.0


From 1975cef87bfcf4123d5f369270846b3bf4a958a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:21 +0000
Subject: [PATCH 09/51] fix: save small ROMs when updating the device capacity

ROMs smaller than 64 KiB led to a negative capacity value, which cannot be
stored, so save(updateDeviceCapacity=True) raised ValueError.
---
 ndspy/rom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..6606c03 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -458,7 +458,9 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            # (the smallest cartridges are 128 KiB)
+            self.deviceCapacity = \
+                max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From 18cc51531010df9ed0857ce1458ba14d511474d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:21 +0000
Subject: [PATCH 10/51] fix: keep the order of files that share an offset in a
 ROM

An empty file starts at the same offset as the file after it, and only one
of the two ended up in sortedFileIds. The other one was moved to the end of
the ROM when saving.
---
 ndspy/rom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 6606c03..fd92e14 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,14 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            offsets = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                offsets.append((startOffset, endOffset))
+            # Empty files can share their offset with other files
+            self.sortedFileIds.extend(
+                sorted(range(len(offsets)), key=offsets.__getitem__))
 
 
     @classmethod
-- 
2.43.0


From 8dd486ed6a00544c05d3b5814804d59042ddae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:21 +0000
Subject: [PATCH 11/51] fix: save script indices of big-endian BMGs where they
 are read

Loading reads a 16-bit index followed by two bytes of padding, but saving
wrote a 32-bit index. In big-endian files that put the index into the
padding, and it was read back as 0.
---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..69b708b 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -299,7 +299,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From 07b0b09c44e50cf9e3286231049700d4c64c1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:21 +0000
Subject: [PATCH 12/51] fix: only drop padding when loading BMG instructions
 and labels

All-zero instructions and (0, 0) labels were dropped wherever they were in
the table, which shifted everything after them, so that labels and scripts
referred to the wrong entries. Only the end of a table can be padding.
---
 ndspy/bmg.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 69b708b..52be4a8 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -128,17 +128,23 @@ class BMG:
             instructionsTableOffset = offset + 16
             for i in range(instructionsCount):
                 instOff = instructionsTableOffset + i * 8
-                cmd = data[instOff : instOff + 8]
-                if cmd != b'\0\0\0\0\0\0\0\0':
-                    self.instructions.append(cmd)
+                self.instructions.append(data[instOff : instOff + 8])
+            # The table is padded to a multiple of 2 instructions
+            if self.instructions and instructionsCount % 2 == 0 \
+                    and self.instructions[-1] == b'\0\0\0\0\0\0\0\0':
+                del self.instructions[-1]
 
             indicesTableOffset = instructionsTableOffset + instructionsCount * 8
             bmgIDsTableOffset = indicesTableOffset + labelsCount * 2
             for i in range(labelsCount):
                 index, = struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)
                 bmgID, = struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)
-                if bmgID != 0 or index != 0:
-                    self.labels.append((bmgID, index))
+                self.labels.append((bmgID, index))
+            # The table is padded to a multiple of 8 labels
+            if labelsCount % 8 == 0:
+                for _ in range(7):
+                    if self.labels and self.labels[-1] == (0, 0):
+                        del self.labels[-1]
 
         self.scripts = []
         def parseFLI1(offset: int, length: int) -> None:
-- 
2.43.0


From 379ba69a09aa4a599eae62a8e6ece55133645eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:21 +0000
Subject: [PATCH 13/51] fix: detect the byte order of large BMG files correctly

The file length of files larger than 64 KiB can be smaller when read in
the wrong byte order, or equal in both, for example 131328 or 65792. Such
files could not be loaded. The section count is always small.
---
 ndspy/bmg.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 52be4a8..0179033 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,13 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
-        # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        # reading the section count value both ways and seeing which one
+        # seems to make more sense (large file length values can make
+        # sense both ways, so that's only used if there are no sections):
+        dataLenLE, sectionCountLE = struct.unpack_from('<II', data, 8)
+        dataLenBE, sectionCountBE = struct.unpack_from('>II', data, 8)
+        self.endianness = se = '<' if (sectionCountLE, dataLenLE) \
+            < (sectionCountBE, dataLenBE) else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From dcbbe691ba3d3a20a00472f65b2fe2c33c463373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:01 +0000
Subject: [PATCH 14/51] fix: use the right size for the variable ID of
 FromVariable events

The event has 3 or 4 bytes, but loading and saving treated the
variable ID as a 2-byte value (or added 2 padding bytes). Loading thus
mixed the type of the next event into the ID. Saving produced data that
did not match the event's dataLength.
---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..7b99730 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -586,14 +586,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<Bb',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -607,7 +607,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<b', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From df943f314a1513e4710913d7ac32519828f7524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:01 +0000
Subject: [PATCH 15/51] fix: use the right size for Random events with two-byte
 arguments

The minimum and maximum replace the last argument of the sub-event.
The size was calculated as if that argument always had one byte, which
is wrong for the variable operations, tempo and sweep pitch.
---
 ndspy/soundSequence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 7b99730..7e56795 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -518,8 +518,13 @@ class RandomSequenceEvent(SequenceEvent):
 
     @staticmethod
     def _dataLength_for_subtype(subType):
-        if subType <= 0x7F:
+        if subType <= 0x7F or 0xB0 <= subType <= 0xBD:
+            # One argument (velocity or variable ID) before the random
+            # one
             return 7
+        if subType in (0xE1, 0xE3):
+            # The only argument is random, even though it's two bytes
+            return 6
 
         # This is really really hacky, but... works
         for i in range(5):
-- 
2.43.0


From 58c07afebbf4d8a3c86d3e1e2ba728c623170fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:01 +0000
Subject: [PATCH 16/51] fix: save sequence events that are in the list more
 than once

Only the last occurrence of such an event was written. The space of the
earlier ones was filled with zeros, which are note events.
---
 ndspy/soundSequence.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 7e56795..060c5e1 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1422,11 +1422,10 @@ def saveSequenceEvents(events, notableEvents=None):
     for e in events:
         events2Offsets[e] = off
         off += e.dataLength
-    data = bytearray(off)
 
-    for event, offset in events2Offsets.items():
-        eData = event.save(events2Offsets)
-        data[offset : offset + len(eData)] = eData
+    data = bytearray()
+    for e in events:
+        data.extend(e.save(events2Offsets))
 
     notableOffsets = [events2Offsets[e] for e in notableEvents]
 
-- 
2.43.0


From f1fab3017d7dd84b994a9a2a5a2c768e2a0f5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:01 +0000
Subject: [PATCH 17/51] fix: parse SSAR sequences that have no first event

SSAR.parse() left them in the unparsed state, so a parsed SSAR with
such a sequence could not be saved.
---
 ndspy/soundSequenceArchive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..0937db5 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -148,6 +148,7 @@ class SSAR:
 
         startOffs = []
         startOffs2Seq = {}
+        sequencesWithoutEvents = []
         for i, (seqName, seq) in enumerate(self.sequences):
             if seq.firstEventOffset not in [-1, None]:
                 startOffs.append(seq.firstEventOffset)
@@ -158,6 +159,10 @@ class SSAR:
                     startOffs2Seq[seq.firstEventOffset] = []
                 startOffs2Seq[seq.firstEventOffset].append(seq)
 
+            else:
+                # Nothing to look up (._firstEvent is already None)
+                sequencesWithoutEvents.append(seq)
+
         self.events, startEvents = soundSequence.readSequenceEvents(
             eventsData, startOffs)
 
@@ -167,6 +172,9 @@ class SSAR:
                 seq.parsed = True
                 seq.firstEvent = event
 
+        for seq in sequencesWithoutEvents:
+            seq.parsed = True
+
 
     def save(self):
         """
-- 
2.43.0


From 14d5bb2d43c426546547c29305503adcb13693af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:36 +0000
Subject: [PATCH 18/51] fix: save SDATs with an unnamed empty sequence archive
 entry

Looking for symbols dereferenced the entry without checking for None.
---
 ndspy/soundArchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..a5b25f5 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,8 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None:
+                        continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From 486ad9a2d7a3ec93dff23b76ef80dbc11275cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:22 +0000
Subject: [PATCH 19/51] fix: render tile lists whose last row is incomplete

renderImageTiles() and renderTilemapTiles() allocate a whole last row for
a tile count which is not a multiple of the width, but then raised
StopIteration when they ran out of tiles.
---
 ndspy/graphics2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..2bb37e5 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -410,7 +410,9 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
     tileIter = iter(tiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
+            tile = next(tileIter, None)
+            if tile is None: break # the last row may be incomplete
+            tilePixels = tile.render(colors, paletteNum)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
@@ -445,7 +447,9 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
     tilemapIter = iter(tilemapTiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
+            tile = next(tilemapIter, None)
+            if tile is None: break # the last row may be incomplete
+            tilePixels = tile.render(imageTiles, colors, tileNumOffset)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
-- 
2.43.0


From b2b5c82c74a43cc2dc065d5477e8e8b4a2c27f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:22 +0000
Subject: [PATCH 20/51] fix: let tileAt() and putTile() reach all rows

The y coordinate was checked against the width, so that tiles in lists
with more rows than columns were treated as out of bounds.
---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 2bb37e5..6cd548d 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -478,7 +478,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -496,7 +496,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From e811b229bf98b999911fb92952ec6645907aa64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:22 +0000
Subject: [PATCH 21/51] fix: load palettes with equal names and values
 separately

Palette data offsets were kept in a dict by name and values, so that
palettes equal in those all got the colors of the last of them.
---
 ndspy/texture.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 075edd5..9aefc7e 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -422,7 +422,6 @@ def _readTEX0(data):
     # positions (and metadata), then we sort the data start positions,
     # and then we make the actual Palette objects with the palette data.
     paletteStartOffsets = []
-    palette2StartOffset = {}
 
     paletteTuples = []
     returnVal['palettes'] = []
@@ -432,21 +431,16 @@ def _readTEX0(data):
         thisPalOff <<= 3
         thisPalOff += palDataOff
 
-        pt = (name, unk00, unk02, unkHeader02)
-
         paletteStartOffsets.append(thisPalOff)
-        palette2StartOffset[pt] = thisPalOff
-        paletteTuples.append(pt)
+        paletteTuples.append((name, unk00, unk02, unkHeader02, thisPalOff))
 
     paletteStartOffsets.append(palDataOff + palDataLen)
     paletteStartOffsets.sort()
 
-    for pt in paletteTuples:
-        startOff = palette2StartOffset[pt]
+    for name, unk00, unk02, unkHeader02, startOff in paletteTuples:
         endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
         palData = data[startOff : endOff]
 
-        name, unk00, unk02, unkHeader02 = pt
         pal = Palette(unk00, unk02, unkHeader02, palData)
         returnVal['palettes'].append((name, pal))
 
-- 
2.43.0


From 36b4340624a77b009c7ac86bff0a351cb5cebb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:22 +0000
Subject: [PATCH 22/51] fix: load palettes that share their data

The end of a palette was taken from the next entry in the sorted list of
start offsets, which is the same offset if palettes share their data.
Such palettes were loaded without colors.
---
 ndspy/texture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 9aefc7e..747c161 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -435,10 +435,11 @@ def _readTEX0(data):
         paletteTuples.append((name, unk00, unk02, unkHeader02, thisPalOff))
 
     paletteStartOffsets.append(palDataOff + palDataLen)
-    paletteStartOffsets.sort()
+    # (palettes can share their data)
+    paletteStartOffsets = sorted(set(paletteStartOffsets))
 
     for name, unk00, unk02, unkHeader02, startOff in paletteTuples:
-        endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
+        endOff = next((o for o in paletteStartOffsets if o > startOff), startOff)
         palData = data[startOff : endOff]
 
         pal = Palette(unk00, unk02, unkHeader02, palData)
-- 
2.43.0


From d68e1cfeef3b8ede78a4ab43c34fb1fcc5573897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:22 +0000
Subject: [PATCH 23/51] fix: render textures with palettes as loaded

Rendering used the color lookup table without preparing it, and looked
colors up as integers although Palette.colors contains tuples.
---
 ndspy/texture.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 747c161..56f6031 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -542,6 +542,10 @@ def renderTextureData(data1, data2, format, width, height, palette=None, isColor
     palette should be a list of colors (or None, if the texture format
     doesn't require one).
     """
+    ndspyColor.prepareLUTs()
+    if palette is not None:
+        palette = [c if isinstance(c, int) else ndspyColor.pack(*c) for c in palette]
+
     if format == TextureFormat.A3I5:
         return _renderA3I5(data1, width, height, palette)
     elif format == TextureFormat.I2:
-- 
2.43.0


From 99bb420f7254bfa39cbc97efcd10763688de8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:54 +0000
Subject: [PATCH 24/51] fix: parse the sequence in minifyBySseq()

For a sequence that was not parsed yet, the event list is empty, so that
all instruments were considered unused and deleted. minifyBySseqs() does
parse its sequences.
---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 2216cf9..047d20d 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -173,7 +173,7 @@ def minifyBySseq(sseq, sbnk, swars=None):
     this function isn't for me." In most cases, what you actually have
     are three songs using three different copies of HGSS.
     """
-    minifyByEvents(sseq.events, sbnk, swars)
+    minifyBySseqs([sseq], sbnk, swars)
 
 
 def minifyBySseqs(sseqs, sbnk, swars=None):
-- 
2.43.0


From 3847d00c52a6a2a9cd2e88471e6b2e816a549c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:55 +0000
Subject: [PATCH 25/51] fix: allow SSEQMusic without wave archives

The swars parameter is optional, but its default value was refused.
---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 047d20d..517a962 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -656,7 +656,7 @@ class SSEQMusic:
         self.sseq = sseq
         self.sbnk = sbnk
         self.swars = swars
-        if not _common.isIterable(self.swars):
+        if self.swars is not None and not _common.isIterable(self.swars):
             raise TypeError('SWAR list is not iterable (did you'
                 ' accidentally pass a SWAR to the constructor instead'
                 ' of a list of SWARs?)')
-- 
2.43.0


From 5a8ec8e3a3d936d16993e0658d2e968c4bc78b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:55 +0000
Subject: [PATCH 26/51] fix: minify banks without wave archives

The swars parameter is optional, but the default value caused a
TypeError after the instruments had been changed.
---
 ndspy/extras/music.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 517a962..e435b8a 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -101,6 +101,9 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     # (and instruments that were useless in the first place)
     sbnk.inaccessibleInstruments.clear()
 
+    if swars is None:
+        return
+
     # Remove unused entries in SWAR relative to SBNK
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
-- 
2.43.0


From a2dea94f4abef9a62216fe1f6638fb6669c71547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 27/51] fix: minify banks that use several wave archives

The new wave IDs were positions in the list of used waves of all wave
archives together, instead of positions in the respective wave archive.
---
 ndspy/extras/music.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index e435b8a..50565cd 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -131,23 +131,27 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
+    newWaveIDs = {}
     for swarNum, swar in enumerate(swars):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
+            newWaveIDs[(swarNum, swavNum)] = len(newWaves)
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
+    def updateWaveID(d):
+        d.waveID = newWaveIDs.get((d.waveArchiveIDID, d.waveID), d.waveID)
+
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = usedWaves.index(
-                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            updateWaveID(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
                 if (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = usedWaves.index((d.waveArchiveIDID, d.waveID))
+                    updateWaveID(d)
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -156,8 +160,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredRegions = []
             for reg in inst.regions:
                 if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
-                    reg.noteDefinition.waveID = usedWaves.index(
-                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                    updateWaveID(reg.noteDefinition)
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
-- 
2.43.0


From 9f315311faf64885654cb3903bf20d2b03bcfb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 28/51] fix: leave PSG notes alone when minifying

The wave ID of square wave notes is a duty cycle and that of noise notes
has no meaning, but both were treated as waves and renumbered.
---
 ndspy/extras/music.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 50565cd..7221d2f 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -104,18 +104,24 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     if swars is None:
         return
 
+    # (PSG notes don't use any)
+    def usesWave(d):
+        return d.type == soundBank.NoteType.PCM
+
     # Remove unused entries in SWAR relative to SBNK
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            if usesWave(inst.noteDefinition):
+                usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
         elif isinstance(inst, soundBank.RangeInstrument):
             noteNum = inst.firstPitch - 1
             for d in inst.noteDefinitions:
                 noteNum += 1
                 if MINIFY_INSTRUMENTS and (noteNum not in notes):
                     continue
-                usedWaves.add((d.waveArchiveIDID, d.waveID))
+                if usesWave(d):
+                    usedWaves.add((d.waveArchiveIDID, d.waveID))
         elif isinstance(inst, soundBank.RegionalInstrument):
             low = 0
             for reg in inst.regions:
@@ -127,7 +133,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                             break
                     else:
                         continue
-                usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                if usesWave(reg.noteDefinition):
+                    usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
@@ -141,7 +148,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         swar.waves = newWaves
 
     def updateWaveID(d):
-        d.waveID = newWaveIDs.get((d.waveArchiveIDID, d.waveID), d.waveID)
+        if usesWave(d):
+            d.waveID = newWaveIDs.get((d.waveArchiveIDID, d.waveID), d.waveID)
 
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
@@ -150,7 +158,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if (d.waveArchiveIDID, d.waveID) in usedWaves:
+                if not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves:
                     updateWaveID(d)
                     filteredDefinitions.append(d)
                 else:
@@ -159,7 +167,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
+                if (not usesWave(reg.noteDefinition)
+                        or (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves):
                     updateWaveID(reg.noteDefinition)
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
-- 
2.43.0


From 22be7f1dd7ed56a48e5546ca06b403161c6cb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 29/51] fix: minify note definitions that are used more than
 once

If an instrument or several instruments used the same note definition
object in several places, its wave ID was replaced once for each.
---
 ndspy/extras/music.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 7221d2f..86237f6 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -147,8 +147,15 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
+    # Note definitions can be used more than once, but should only be
+    # updated once
+    updated = {}
+    def isUsed(d):
+        if id(d) in updated: return True
+        return not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves
     def updateWaveID(d):
-        if usesWave(d):
+        if usesWave(d) and id(d) not in updated:
+            updated[id(d)] = d
             d.waveID = newWaveIDs.get((d.waveArchiveIDID, d.waveID), d.waveID)
 
     for inst in sbnk.instruments:
@@ -158,7 +165,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if not usesWave(d) or (d.waveArchiveIDID, d.waveID) in usedWaves:
+                if isUsed(d):
                     updateWaveID(d)
                     filteredDefinitions.append(d)
                 else:
@@ -167,8 +174,7 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (not usesWave(reg.noteDefinition)
-                        or (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves):
+                if isUsed(reg.noteDefinition):
                     updateWaveID(reg.noteDefinition)
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
-- 
2.43.0


From 14479961b8197a7d16c70059e0af0f4d6cb73e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 30/51] fix: minify with instrument switches that are used more
 than once

An event object that is in several places was renumbered once for each.
---
 ndspy/extras/music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 86237f6..7967fee 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -94,7 +94,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     usedInsts = sorted(usedInsts)
     sbnk.instruments = [sbnk.instruments[num] for num in usedInsts]
     playedNotesPerInst = [playedNotes[num] for num in usedInsts]
-    for e in events:
+    # (events can be in the list more than once)
+    for e in {id(e): e for e in events}.values():
         if isinstance(e, soundSequence.InstrumentSwitchSequenceEvent):
             e.instrumentID = usedInsts.index(e.instrumentID)
 
-- 
2.43.0


From dff24eb4799a2e36fe2aa55abee95ce3010ec11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 31/51] fix: save music whose only track is empty

---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 7967fee..725fa40 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -796,7 +796,7 @@ class SSEQMusic:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
             self.sseq.events = list(self.tracks[0].events)
-            if not (isinstance(self.sseq.events[-1],
+            if not self.sseq.events or not (isinstance(self.sseq.events[-1],
                                soundSequence.EndTrackSequenceEvent)
                     or isinstance(self.sseq.events[-1],
                                   soundSequence.JumpSequenceEvent)):
-- 
2.43.0


From 3ff1b69ca74e5e69948e4aa868dbd50c89cc382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:38 +0000
Subject: [PATCH 32/51] fix: end track 0 if it is empty and there are other
 tracks

Nothing was written for an empty track 0, so that it continued with the
events of the next track.
---
 ndspy/extras/music.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 725fa40..a1d4250 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -812,7 +812,9 @@ class SSEQMusic:
             for trackNum in sorted(self.tracks):
                 track = self.tracks[trackNum]
                 if not track.events:
-                    # Um.
+                    if trackNum == 0:
+                        # Track 0 must not continue into another track
+                        contents.append(soundSequence.EndTrackSequenceEvent())
                     continue
 
                 if trackNum != 0:
-- 
2.43.0


From 72d20016393e134624f5311096c1acf0d34d6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:00 +0000
Subject: [PATCH 33/51] fix: keep a region when minifying regional instruments
 without notes

An instrument that is selected but plays no notes was left without any
regions. Banks with such an instrument cannot be loaded.
---
 ndspy/extras/music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index a1d4250..1ac0893 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -180,7 +180,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
-            inst.regions = filteredRegions
+            # (at least one region is required, too)
+            inst.regions = filteredRegions or inst.regions[:1]
             if inst.regions:
                 inst.regions[-1].lastPitch = 127 # required
 
-- 
2.43.0


From 28b81ac2fa84433801299ad7a0651e13c9d8e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:24 +0000
Subject: [PATCH 34/51] fix: return a copy of the data from Overlay.save()

---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index a86c32a..de1508e 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -391,7 +391,7 @@ class Overlay:
         if compress:
             data = codeCompression.compress(self.data, False)
         else:
-            data = self.data
+            data = bytes(self.data)
         self.compressedSize = len(data)
         self.compressed = compress
         return data
-- 
2.43.0


From 1013ca3ec218bf6de8874dc13ebb4ad4fb58fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:59 +0000
Subject: [PATCH 35/51] fix: do not recurse forever when printing jumps that
 form a loop

---
 ndspy/soundSequence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 060c5e1..0662b48 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -19,6 +19,7 @@ Support for SSEQs and their sequence events.
 """
 
 import enum
+import reprlib
 import struct
 
 from . import _common
@@ -450,6 +451,7 @@ class BeginTrackSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<begin track {self.trackNumber} id={id(self.firstEvent)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.trackNumber!r}, {self.firstEvent!r} at {id(self.firstEvent)})'
 
@@ -472,6 +474,7 @@ class JumpSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<jump id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
@@ -495,6 +498,7 @@ class CallSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<call id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
-- 
2.43.0


From 4ac5924932598695933ee985511b42ad3ac734e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:06 +0000
Subject: [PATCH 36/51] fix: pass unk02 on in SWAR.fromFile()

---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..70d179c 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02)
 
 
     def save(self):
-- 
2.43.0


From f338c0d63250b1d11c1d49a2c9e4d1230dcbc097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 37/51] fix: show the channels in the representation of stream
 players

---
 ndspy/soundStreamPlayer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundStreamPlayer.py b/ndspy/soundStreamPlayer.py
index cef7053..7e0c627 100644
--- a/ndspy/soundStreamPlayer.py
+++ b/ndspy/soundStreamPlayer.py
@@ -41,6 +41,6 @@ class StreamPlayer:
 
     def __repr__(self):
         if self.channels:
-            return f'{type(self).__name__}()'
-        else:
             return f'{type(self).__name__}({self.channels!r})'
+        else:
+            return f'{type(self).__name__}()'
-- 
2.43.0


From f9145217bc21b40dbd9d3e4b01f405f2f11c646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:24 +0000
Subject: [PATCH 38/51] fix: show in the representation of messages whether
 they are null

---
 ndspy/bmg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 0179033..14914ec 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -466,7 +466,8 @@ class Message:
         return data
 
     def __repr__(self) -> str:
-        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r})'
+        isNull = ', isNull=True' if self.isNull else ''
+        return f'{type(self).__name__}({self.info!r}, {self.stringParts!r}{isNull})'
 
     def __str__(self) -> str:
         return ''.join(str(s) for s in self.stringParts)
-- 
2.43.0


From 3db51736c0c337ef443f76107f7bbc026ad88006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:12 +0000
Subject: [PATCH 39/51] fix: refuse to save empty filenames

---
 ndspy/fnt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index 98ef6b4..7ab29cd 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -348,6 +348,9 @@ def save(root: Folder) -> bytes:
             # Each file entry is preceded by a 1-byte length value.
             # Top bit must be 0 or else it'll be interpreted as a
             # folder.
+            # (And a length of 0 would mark the end of the table.)
+            if not file:
+                raise ValueError('Filenames cannot be empty!')
             if len(file) > 127:
                 raise ValueError(f'Filename "{file}" is {len(file)}'
                     ' characters long (maximum is 127)!')
-- 
2.43.0


From a7fdc33bcd2b701e4cb77634628baa29565db20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:09 +0000
Subject: [PATCH 40/51] fix: keep track 0 silent when saving music that has no
 track 0

---
 ndspy/extras/music.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 1ac0893..6b87e98 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -810,12 +810,13 @@ class SSEQMusic:
             dfse = soundSequence.DefineTracksSequenceEvent(set(self.tracks))
             beginning.append(dfse)
 
+            if 0 not in self.tracks or not self.tracks[0].events:
+                # Track 0 must not continue into another track
+                contents.append(soundSequence.EndTrackSequenceEvent())
+
             for trackNum in sorted(self.tracks):
                 track = self.tracks[trackNum]
                 if not track.events:
-                    if trackNum == 0:
-                        # Track 0 must not continue into another track
-                        contents.append(soundSequence.EndTrackSequenceEvent())
                     continue
 
                 if trackNum != 0:
-- 
2.43.0


From a896f264e9167cbc11e009d86c29d4ff6b43259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:38 +0000
Subject: [PATCH 41/51] fix: refuse texture and palette names of more than 16
 characters

Such a name was written in full, which shifted all the names after it.
---
 ndspy/_common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index c3cc59d..d7c7c14 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -217,7 +217,11 @@ def saveInfoBlock(entries, entryLengths):
         if e[0] is None:
             data.extend(b'\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0')
         else:
-            data.extend(e[0].encode('latin-1').ljust(16, b'\0'))
+            name = e[0].encode('latin-1')
+            if len(name) > 16:
+                raise ValueError(f'Name "{e[0]}" is {len(name)} bytes long'
+                    ' (maximum is 16)!')
+            data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
     struct.pack_into('<H', data, 2, len(data))
-- 
2.43.0


From 20f2b0b999ecd425998253acfd060fb0952aab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:08 +0000
Subject: [PATCH 42/51] fix: return a copy of the channels from
 SequencePlayer.save()

The set itself was returned, so that a sequence player made from the
saved values shared its channels with the first one.
---
 ndspy/soundSequencePlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundSequencePlayer.py b/ndspy/soundSequencePlayer.py
index af79d58..7955d0d 100644
--- a/ndspy/soundSequencePlayer.py
+++ b/ndspy/soundSequencePlayer.py
@@ -34,7 +34,7 @@ class SequencePlayer:
         .heapSize as a triple. This matches the parameters of the
         default class constructor.
         """
-        return (self.maxSequences, self.channels, self.heapSize)
+        return (self.maxSequences, set(self.channels), self.heapSize)
 
 
     def __str__(self):
-- 
2.43.0


From 5912f2403b1b3e8d022a7576060c9b946c0050e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:08 +0000
Subject: [PATCH 43/51] fix: return a copy of the wave archive IDs from
 SBNK.save()

The list itself was returned, so that a bank made from the saved values
shared its list of wave archives with the first one.
---
 ndspy/soundBank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundBank.py b/ndspy/soundBank.py
index 64376e9..909130f 100644
--- a/ndspy/soundBank.py
+++ b/ndspy/soundBank.py
@@ -779,7 +779,7 @@ class SBNK:
         struct.pack_into('<4sI32xI', data, 0x10,
             b'DATA', len(data) - 0x10, len(self.instruments))
 
-        return (data, self.unk02, self.waveArchiveIDs)
+        return (data, self.unk02, list(self.waveArchiveIDs))
 
 
     def saveToFile(self, filePath):
-- 
2.43.0


From deccd91027b4801245d5788dc02a5e3791f1741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:33 +0000
Subject: [PATCH 44/51] fix: parse events after a second call of a routine that
 begins with a jump

The fate of an unconditional jump was never recorded, so whatever led to
the same jump again was taken for an endless loop, and the events after
it were kept as raw data.
---
 ndspy/soundSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 0662b48..d11de12 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1328,6 +1328,7 @@ def readSequenceEvents(data, notableOffsets=None):
                         partOfIfStatement = (events[x].type == 0xA2)
 
                     if not partOfIfStatement:
+                        fates[off] = fate
                         return fate
 
                 elif type == 0x95: # Call
-- 
2.43.0


From 83336afc9c7a5c3198427235c0e6c351eda9fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:21 +0000
Subject: [PATCH 45/51] fix: keep parsing after conditional calls, returns and
 track ends

Only jumps were recognized as possibly being skipped due to an "if"
event before them.  The events after a conditional return, a conditional
end of track or a conditional call of something that never returns were
kept as raw data, so their jumps were not updated upon saving.
---
 ndspy/soundSequence.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index d11de12..b174f4c 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1278,6 +1278,14 @@ def readSequenceEvents(data, notableOffsets=None):
     FATE_EOT = 3
     fates = {}
 
+    def isPartOfIfStatement(off):
+        # Does the event at this offset immediately follow an "if"
+        # event (and thus might be skipped)?
+        x = off - 1
+        while x not in events and x >= 0:
+            x -= 1
+        return x != -1 and events[x].type == 0xA2
+
     def parse_at(off):
         offsetsOfMySequentialEvents = []
 
@@ -1319,15 +1327,7 @@ def readSequenceEvents(data, notableOffsets=None):
                     # Should we keep parsing past here? Only if this
                     # is part of an if statement (and thus might be
                     # skipped).
-                    x = off - 1
-                    while x not in events and x >= 0:
-                        x -= 1
-                    if x == -1:
-                        partOfIfStatement = False
-                    else:
-                        partOfIfStatement = (events[x].type == 0xA2)
-
-                    if not partOfIfStatement:
+                    if not isPartOfIfStatement(off):
                         fates[off] = fate
                         return fate
 
@@ -1340,7 +1340,9 @@ def readSequenceEvents(data, notableOffsets=None):
                     fate = parse_at(destination)
                     event.destination = events[destination]
 
-                    if fate == FATE_EOT:
+                    if isPartOfIfStatement(off):
+                        pass
+                    elif fate == FATE_EOT:
                         fates[off] = fate
                         for off_ in offsetsOfMySequentialEvents:
                             fates[off_] = fate
@@ -1358,14 +1360,18 @@ def readSequenceEvents(data, notableOffsets=None):
                     fates[off] = FATE_RETURN
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = FATE_RETURN
+                    if off + 1 < len(data) and isPartOfIfStatement(off):
+                        parse_at(off + 1)
                     return FATE_RETURN
 
                 elif type == 0xFF: # EoT
                     events[off] = EndTrackSequenceEvent()
-                    fates[off] = FATE_EOT
+                    fates[off] = fate = FATE_EOT
+                    if off + 1 < len(data) and isPartOfIfStatement(off):
+                        fate = parse_at(off + 1)
                     for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = FATE_EOT
-                    return FATE_EOT
+                        fates[off_] = fate
+                    return fate
 
                 else:
 
-- 
2.43.0


From fcd754ddb56b1d2bf7d9a69bd6c440bca41e12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:31 +0000
Subject: [PATCH 46/51] fix: allow parsing sequences and sequence archives
 without any events

An SSEQ or SSAR without events could be created and saved, but parsing
it after loading it again failed with an EOFError.
---
 ndspy/soundSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index b174f4c..6814e1b 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1394,7 +1394,7 @@ def readSequenceEvents(data, notableOffsets=None):
         raise EOFError('Reached EoF of sequence.')
 
     starts = notableOffsets
-    if not starts: starts = [0]
+    if not starts and data: starts = [0]
     for start in starts:
         ultimateFate = parse_at(start)
         assert ultimateFate in (FATE_EOT, FATE_LOOP), f'Starting point {hex(start)} results in fate {ultimateFate}'
-- 
2.43.0


From 25c51461055f82aaec61109d39170f4e530ffe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:34 +0000
Subject: [PATCH 47/51] fix: do not fail on code files with the address of
 their end near either end

The search for the code settings looks for the address of the end of the
file. If the first word, or one of the last ones, had that value, the
settings were read from outside of the file.
---
 ndspy/code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index de1508e..dcbc8c1 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -286,12 +286,13 @@ class MainCodeFile:
         expectedTableEndBytes = struct.pack('<I', expectedTableEnd)
         if expectedTableEndBytes in data:
             try:
-                match = data.index(expectedTableEndBytes, 0)
+                match = data.index(expectedTableEndBytes, 4)
             except ValueError:
                 match = None
             while match is not None:
                 possibleTableStart, = struct.unpack_from('<I', data, match - 4)
                 if (possibleTableStart % 4 == 0
+                        and match + 0x14 <= len(data)
                         and (expectedTableEnd - possibleTableStart) % 12 == 0
                         and expectedTableEnd - possibleTableStart < 0x100):
                     # Probably a match
-- 
2.43.0


From bd7a1e8f75aebe2d1e430b003f7f477cb7ee2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:34 +0000
Subject: [PATCH 48/51] fix: do not take words before section tables that end
 before they begin for code settings

---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index dcbc8c1..c01bb0a 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -294,7 +294,7 @@ class MainCodeFile:
                 if (possibleTableStart % 4 == 0
                         and match + 0x14 <= len(data)
                         and (expectedTableEnd - possibleTableStart) % 12 == 0
-                        and expectedTableEnd - possibleTableStart < 0x100):
+                        and 0 <= expectedTableEnd - possibleTableStart < 0x100):
                     # Probably a match
                     return match - 4
                 try:
-- 
2.43.0


From 6539d23113a9d00e76006a50f50ff0dae6b23a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:34 +0000
Subject: [PATCH 49/51] fix: search for the code settings if the pointer leads
 to the last bytes of the file

---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index c01bb0a..b0740a4 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -112,7 +112,7 @@ class MainCodeFile:
                 codeSettingsAddr, = struct.unpack_from(
                     '<I', data, codeSettingsPointerAddress - ramAddress - 4)
                 self.codeSettingsOffs = codeSettingsAddr - ramAddress
-                assert 0 <= self.codeSettingsOffs < len(data) - 4
+                assert 0 <= self.codeSettingsOffs <= len(data) - 0x18
 
             except Exception:
                 # Something was probably out of range. Fall back to the
-- 
2.43.0


From 1f89efd67cf6cac039cb7cac0e0073ddfdc19d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:06 +0000
Subject: [PATCH 50/51] fix: do not look for code settings before the beginning
 of the file

---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index b0740a4..312a494 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -273,7 +273,7 @@ class MainCodeFile:
         """
 
         # Simple heuristic that works in most arm9.bin's:
-        for i in range(0, 0x8000, 4):
+        for i in range(0x1C, 0x8000, 4):
             if data[i:i+8] == b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21':
                 return i - 0x1C
 
-- 
2.43.0


From f700dcfcf243d5b43b1326fc9b1ba5ee177f1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:24 +0000
Subject: [PATCH 51/51] fix: escape quotes in shortened bytes representations

---
 ndspy/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index d7c7c14..58c764f 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -110,6 +110,9 @@ def shortBytesRepr(data, maxLen=None):
         # so we don't shorten if the following byte is an ASCII digit
         if b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
             r.append(f'\\{b}')
+        elif b == 0x27:
+            # repr() would change the quotes instead of escaping this
+            r.append("\\'")
         else:
             r.append(repr(b.to_bytes(1, 'big'))[2:-1])
     r.append("'")
-- 
2.43.0

