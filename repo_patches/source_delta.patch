From 963992907c1fb9544178f307d7f3d495a71ae515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:02 +0000
Subject: [PATCH 01/43] fix: read columns from the stripped line

Leading whitespace passed validation but every column was then sliced
from the unstripped line, shifting all fields.
---
 src/arinc424/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..80637c2 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -121,7 +121,8 @@ class Record():
       return False
 
     # remove any surrounding whitespace
-    self.raw = line.strip()
+    line = line.strip()
+    self.raw = line
 
     identifier_1 = line[4:6]
     identifier_2 = line[4] + line[12]
-- 
2.43.0


From be23c33970c45b651f52c47ab9bb05bcce46d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:05 +0000
Subject: [PATCH 02/43] fix: only accept decimal digits in the file record and
 cycle columns
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isnumeric also accepts characters such as '²' and '½', which made
decode fail later with a malformed cycle date.
---
 src/arinc424/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 80637c2..2c10d82 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -111,7 +111,7 @@ class Record():
       return False
     if len(line) != 132:
       return False
-    if line[-9:].isnumeric() is False:
+    if (line[-9:].isascii() and line[-9:].isdigit()) is False:
       return False
     return True
 
-- 
2.43.0


From 512581672d1df61d7aab1a3829570f161b449db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:33 +0000
Subject: [PATCH 03/43] fix: do not carry state from one read into the next

A Record that was read twice kept the continuation number and fields of
the earlier line when the later one was rejected or has no continuation
column, so it reported a mixture of two lines.
---
 src/arinc424/record.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 2c10d82..2e2a8f6 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -89,6 +89,9 @@ records['UR'] = RestrictiveAirspace()
 class Record():
 
   def __init__(self):
+    self.reset()
+
+  def reset(self):
     self.ident = ''
     self.raw = ''
     self.continuation = ''
@@ -117,6 +120,9 @@ class Record():
 
   def read(self, line) -> bool:
 
+    # forget anything read previously
+    self.reset()
+
     if self.validate(line) is False:
       return False
 
@@ -132,6 +138,7 @@ class Record():
     elif identifier_2 in records:
       self.ident = identifier_2
     else:
+      self.reset()
       return False
 
     self.definition = records[self.ident]
@@ -143,6 +150,7 @@ class Record():
         print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
         print(f'Record: {self.raw}')
+        self.reset()
         return False
 
       # validate the continuation record type
@@ -153,6 +161,7 @@ class Record():
             print(f'Unsupported {self.definition.name} Application Type: "{application_type}"')
             print(f'Supported application types for {self.definition.name} are: {self.definition.continuations}')
             print(f'Record: {self.raw}')
+            self.reset()
             return False
         else:
           raise ValueError("no hasattr(self.definition, 'app_idx')")
@@ -160,6 +169,7 @@ class Record():
     # read the record into a record object based on identifier
     self.fields = self.definition.read(line, self.primary())
     if not self.fields:
+      self.reset()
       return False
 
     return True
-- 
2.43.0


From eb536ef9e256dd71a05f3b2aaf59c3a8aeddf376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:36 +0000
Subject: [PATCH 04/43] fix: only accept the documented continuation record
 numbers

isalnum also let through lower case and non-ASCII letters, contradicting
the message printed for an unsupported number.
---
 src/arinc424/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 2e2a8f6..530b885 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -1,4 +1,5 @@
 import json
+import string
 from collections import defaultdict
 from prettytable import PrettyTable
 
@@ -146,7 +147,7 @@ class Record():
     # validate the continuation record number
     if hasattr(self.definition, 'cont_idx'):
       self.continuation = self.raw[self.definition.cont_idx]
-      if self.continuation.isalnum() == False:
+      if self.continuation not in string.digits + string.ascii_uppercase:
         print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
         print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
         print(f'Record: {self.raw}')
-- 
2.43.0


From def2ed821f7be96705fe1e0feca212f012507a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:17 +0000
Subject: [PATCH 05/43] fix: honour the continuation record number of airway
 restrictions

Without a continuation column every EU record, primaries included, was
read with the continuation layout and lost its fixes and dates.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..6682332 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 15
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
-- 
2.43.0


From 17a3ef4c2a0e4ce5665408cc941dd3a3f1d7e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:21 +0000
Subject: [PATCH 06/43] fix: read all columns of EU note restriction keys

---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 6682332..abab730 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
-- 
2.43.0


From be18896c73ee2d709975d60dac209590618806de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 07/43] fix: give repeated EU altitude exclusion fields
 distinct names

The JSON output kept only the last of several fields of the same name.
---
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index abab730..02e8d30 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
-- 
2.43.0


From 62e61e3bbb99b11dff35f5da91a1396067925603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:29 +0000
Subject: [PATCH 08/43] fix: reject continuations of unsupported application
 type

Five definitions raised ValueError out of Record.read for an unsupported
type, aborting read_file, where all others make read return False.
---
 src/arinc424/definitions/EnrouteAirways.py            | 2 +-
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 4 ++--
 src/arinc424/definitions/EnrouteCommunications.py     | 2 +-
 src/arinc424/definitions/HeliportCommunications.py    | 2 +-
 src/arinc424/definitions/PathPoint.py                 | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 02e8d30..2f0ac52 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -28,7 +28,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -38,7 +38,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From f46a828f784c197e5e93ac54661169dab86ee966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:25 +0000
Subject: [PATCH 09/43] fix: do not exit the process on an unsupported
 frequency

Decoding one bad record ended the caller's interpreter; raise ValueError
like the other validating decoders.
---
 src/arinc424/decoder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..210b9a9 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -492,9 +492,7 @@ def field_034(value, record):
   value = value.strip()
   if len(value) > 0:
     if value.isnumeric() is False:
-      print(f'Unsupported VOR/NDB Frequency: "{value}"')
-      print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError('Unsupported VOR/NDB Frequency', value)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From 1c6084bd711f6b98f64e713afeb4f12b168a1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 10/43] fix: decode zero altitudes and distances as 0 ft

Stripping the leading zeros of an all-zero value left nothing but the
unit.
---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 210b9a9..bb1fd9c 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -463,12 +463,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -649,7 +649,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -668,7 +668,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -683,13 +683,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return (value.lstrip('0')+"00" if value.strip('0') else '0') + " ft"
   else:
     return value
 
@@ -801,7 +801,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -879,7 +879,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -937,7 +937,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1217,7 +1217,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1237,7 +1237,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1340,7 +1340,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1410,7 +1410,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1561,7 +1561,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1734,7 +1734,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1889,7 +1889,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 9fee3188b2aea30def9890a0aba2a3912d3d2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 11/43] fix: decode time zones A to M and Z

The zones east of Greenwich and Z came out as e.g. 'GMT --12:00' and
'GMT +13:00', and a lower case letter raised an unrelated error.
---
 src/arinc424/decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index bb1fd9c..2e62e5b 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1,6 +1,5 @@
 from collections import defaultdict
 import io
-import string
 
 
 class Field():
@@ -1509,10 +1508,11 @@ def field_177(value, record):
 
 # 5.178 Time Zone
 def field_178(value, record):
-  if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
-    return y + ':' + str(value[1:])
+  # hours to GMT: A to M (without J) are -1 to -12, N to Y are +1 to +12, Z is 0
+  if value[0] in 'ZNOPQRSTUVWXY' and value[1:].isnumeric():
+    return 'GMT +' + str('ZNOPQRSTUVWXY'.index(value[0])) + ':' + value[1:]
+  elif value[0] in 'ABCDEFGHIKLM' and value[1:].isnumeric():
+    return 'GMT -' + str('ABCDEFGHIKLM'.index(value[0]) + 1) + ':' + value[1:]
   else:
     return f'Unsupported Value: "{value}"'
 
-- 
2.43.0


From fd87e02fbc170636d226270235a8c9f76c6ac5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:36 +0000
Subject: [PATCH 12/43] fix: decode SID/STAR/Approach idents with symbols and
 blank leg times

Identifiers such as 'VOR-A' and an empty leg time decoded to None.
---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 2e62e5b..86bbd95 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -203,8 +203,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -749,7 +748,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0


From 2b55c3a872ddae192449db1dd5b69d9abff270ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:40 +0000
Subject: [PATCH 13/43] fix: accept blank route identifiers

The geographical reference table has optional route identifiers, so its
records could not be decoded unless all six were filled in.
---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 86bbd95..9cbe717 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -195,7 +195,7 @@ def field_007(value, record):
 
 # 5.8 Route Identifier (ROUTE IDENT)
 def field_008(value, record):
-  if value.strip().isalnum():
+  if value.strip() == '' or value.strip().isalnum():
     return value
   else:
     raise ValueError("Route Identifier not alphanumeric", value)
-- 
2.43.0


From c0653f4d4fe703df3b7892eb74f968cb7ba9614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:43 +0000
Subject: [PATCH 14/43] fix: only decode digits as numbers

float and int also read '1E03', 'nan', 'inf', '-120' and '1_00', which
turned malformed columns into plausible courses and distances.
---
 src/arinc424/decoder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 9cbe717..0b4328d 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -437,6 +437,8 @@ def field_026(value, record):
   # Handle the 'T' in the tenths position for degrees true
   if value.endswith('T'):
     return value
+  elif value.isdigit() is False:
+    raise ValueError('Invalid Outbound Magnetic Course', value)
   else:
     return "{:.1f}".format(float(value) / 10)
 
@@ -446,6 +448,8 @@ def field_027(value, record):
   value = value.strip()
 
   if len(value) > 0:
+    if value.removeprefix('T').isdigit() is False:
+      raise ValueError('Invalid Distance or Time', value)
     if value[0] == 'T':
       return "{:.1f} min".format(float(value[1:]) / 10)
     else:
@@ -548,7 +552,11 @@ def field_038(value, record):
 
 # 5.39 Magnetic Variation (MAG VAR, D MAG VAR)
 def field_039(value, record):
-  return value if value.strip() == '' else "{:03} {}".format(int(value[1:]), value[0])
+  if value.strip() == '':
+    return value
+  if value[1:].strip().isdigit() is False:
+    raise ValueError('Invalid Magnetic Variation', value)
+  return "{:03} {}".format(int(value[1:]), value[0])
 
 
 # 5.40 DME Elevation (DME ELEV)
@@ -2034,6 +2042,8 @@ def field_268(value, record):
 # 5.269 Helicopter Procedure Course (HPC)
 def field_269(value, record):
   if value.strip() != '': # this is allowed to be empty for non-heli records?
+    if value.strip().isdigit() is False:
+      raise ValueError('Invalid Helicopter Procedure Course', value)
     return float(value)/10
   return value
 
-- 
2.43.0


From 18e1f48209f53f69a55f6ad92e216df190b5fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:14 +0000
Subject: [PATCH 15/43] fix: decode NDB frequencies in tenths of a kHz

Column '02150' is 215.0 kHz; it was decoded with the VOR scale as 21.50.
---
 src/arinc424/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 0b4328d..d25b5f5 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -495,6 +495,9 @@ def field_034(value, record):
   if len(value) > 0:
     if value.isnumeric() is False:
       raise ValueError('Unsupported VOR/NDB Frequency', value)
+    elif record.ident in ('DB', 'PN', 'PM'):
+      # NDB and locator frequencies are in tenths of a kHz
+      return "{:.1f}".format(float(value)/10)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From 9c2bc0ab7327a5899b48d631d37a4ac573c903b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 16/43] fix: records of types without continuations are primary
 records

---
 src/arinc424/record.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 530b885..6d3b1bd 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -167,6 +167,10 @@ class Record():
         else:
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
+    # record types without continuations only have primary records
+    else:
+      self.continuation = '0'
+
     # read the record into a record object based on identifier
     self.fields = self.definition.read(line, self.primary())
     if not self.fields:
-- 
2.43.0


From 80ec3354bc29606ed3504fdd631a19e989a4512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:21 +0000
Subject: [PATCH 17/43] fix: skip sub-folders in read_folder

Opening a directory entry that is not a file raised IsADirectoryError and
dropped the remaining files.
---
 src/arinc424/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 9f9395b..714eb2d 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -51,4 +51,5 @@ def read_folder(path):
   Parse all ARINC-424 records for every file in a given folder.
   """
   for file in os.scandir(path):
-    read_file(os.path.join(path, file.name))
+    if file.is_file():
+      read_file(os.path.join(path, file.name))
-- 
2.43.0


From 3f1f8aa91c8d02e2df0d11951e4da19a45cb491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 18/43] fix: read the UIR and start/end columns of navaid
 flight planning records

---
 src/arinc424/definitions/NDBNavaid.py | 4 ++--
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..ec30d70 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..3fcabd1 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
-- 
2.43.0


From ad648003ae04491ee49f0a298f449bd6425564de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 19/43] fix: read all five columns of the VHF navaid class

---
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 3fcabd1..de67584 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -139,7 +139,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
-- 
2.43.0


From ca9f6823d854dd203aa841e3937168e15829889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:14 +0000
Subject: [PATCH 20/43] fix: read all five columns of the NDB navaid class

---
 src/arinc424/definitions/NDBNavaid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index ec30d70..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
-- 
2.43.0


From 76a9a9c6e9caa3ccdd96111886d6fae38f9a0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:17 +0000
Subject: [PATCH 21/43] fix: read the VHF navaid limitation groups 4 and 5 from
 their columns

---
 src/arinc424/definitions/VHFNavaid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index de67584..f5b006a 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From f37c355741da4fdc09aa209f0992a04f366d6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:21 +0000
Subject: [PATCH 22/43] fix: read the holding pattern application type from its
 column

---
 src/arinc424/definitions/HoldingPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From 29750c61dbd8d89051c9be7cd421c2f6ca59de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:24 +0000
Subject: [PATCH 23/43] fix: read the controlled airspace type from its column

It repeated the first column of the airspace center.
---
 src/arinc424/definitions/ControlledAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
-- 
2.43.0


From 502edb0c2c28bf4e724276dea110e50b7b13fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 24/43] fix: read the restrictive airspace time indicator from
 its column

It repeated the NOTAM column.
---
 src/arinc424/definitions/RestrictiveAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..1c8da2f 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
-- 
2.43.0


From 3d5a39126ce6bc22d0d2d86853f36bf636ea74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:30 +0000
Subject: [PATCH 25/43] fix: read all five columns of the restrictive airspace
 lower limit

---
 src/arinc424/definitions/RestrictiveAirspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index 1c8da2f..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
-- 
2.43.0


From 841b4e122e5215c5b16632ef10649e6a43a0caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 26/43] fix: read the GLS continuation record number from its
 column

---
 src/arinc424/definitions/GLS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From b0df1e078f04dee6ee6cf0d8294e465051792c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 27/43] fix: read all columns of the SID/STAR/Approach center
 fix ICAO code and dates

---
 src/arinc424/definitions/SIDSTARApproach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
-- 
2.43.0


From 5ecfed34a75a105c98b8dc96cfa8b9d3867b4576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 28/43] fix: read all five columns of the MSA center

---
 src/arinc424/definitions/MSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/MSA.py b/src/arinc424/definitions/MSA.py
index 35f1c92..052652d 100644
--- a/src/arinc424/definitions/MSA.py
+++ b/src/arinc424/definitions/MSA.py
@@ -38,7 +38,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
@@ -76,7 +76,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
-- 
2.43.0


From 914d709768e7f6f2d394711395d7cc759f9809d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 29/43] fix: read all five columns of the MLS back azimuth true
 bearing

---
 src/arinc424/definitions/MLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
-- 
2.43.0


From e8243787c6afd1ccc458c4a8ba23ad76553e06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:49 +0000
Subject: [PATCH 30/43] fix: give repeated alternate record fields distinct
 names

The JSON output kept only the last of several fields of the same name.
---
 src/arinc424/definitions/Alternate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..49e2eb3 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
       Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
-- 
2.43.0


From f181326707aeb0c8f64ebeacd0c84f4747b7f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:53 +0000
Subject: [PATCH 31/43] fix: give repeated geographical reference fields
 distinct names

The JSON output kept only the last of several fields of the same name.
---
 src/arinc424/definitions/GeoReferenceTable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
-- 
2.43.0


From ae455aae388c2dbb5ff70545e2ddaffa46bc912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 32/43] fix: give repeated preferred route fields distinct
 names

The JSON output kept only the last of several fields of the same name.
---
 src/arinc424/definitions/PreferredRoute.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From 435d243e804864a65bed38d68ac7f2749d9cf2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:54 +0000
Subject: [PATCH 33/43] fix: decode restrictive airspace types as such, not as
 sequence numbers

---
 src/arinc424/definitions/EnrouteAirways.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..f6e6fc3 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,15 +102,15 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
-- 
2.43.0


From 6333fc3cc888d84f1a99709601a0190dd349cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:58 +0000
Subject: [PATCH 34/43] fix: read the fourth multiple code of airway flight
 planning records

---
 src/arinc424/definitions/EnrouteAirways.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index f6e6fc3..a02aae4 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -112,6 +112,7 @@ class EnrouteAirways():
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
       Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
+      Field("Restr. Air Multiple Code (4)",            r[121],        decoder.field_130),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
-- 
2.43.0


From cd2e7e52d4c8fb4657ad226af79c092f7973bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 35/43] fix: read the four intermediate fixes of flight
 planning continuations

The layout had lost most of the second and third fix, took the section
code and distance of the first from them, and reused field names so that
the JSON output dropped the first fix.
---
 src/arinc424/definitions/FlightPlanning.py | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..7cec346 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -102,14 +102,24 @@ class FlightPlanning():
       Field("Application Type",                       r[70],          decoder.field_091),
       Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
       Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Section Code (5)",                       r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                  r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",            r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",        r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                          r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                       r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",              r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",        r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",        r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                          r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                       r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",              r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",        r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",        r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                          r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                       r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",              r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",        r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From 10fb92f523293a1e844933ec20f37d180b0e676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:05 +0000
Subject: [PATCH 36/43] fix: number the thirty grid MORA values consecutively

The labels skipped 20, so values 20 to 30 were reported one square off.
---
 src/arinc424/definitions/GridMORA.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/arinc424/definitions/GridMORA.py b/src/arinc424/definitions/GridMORA.py
index 99e276a..9cc4552 100644
--- a/src/arinc424/definitions/GridMORA.py
+++ b/src/arinc424/definitions/GridMORA.py
@@ -36,17 +36,17 @@ class GridMORA():
       Field("MORA (17)",                           r[78:81],      decoder.field_143),
       Field("MORA (18)",                           r[81:84],      decoder.field_143),
       Field("MORA (19)",                           r[84:87],      decoder.field_143),
-      Field("MORA (21)",                           r[87:90],      decoder.field_143),
-      Field("MORA (22)",                           r[90:93],      decoder.field_143),
-      Field("MORA (23)",                           r[93:96],      decoder.field_143),
-      Field("MORA (24)",                           r[96:99],      decoder.field_143),
-      Field("MORA (25)",                           r[99:102],     decoder.field_143),
-      Field("MORA (26)",                           r[102:105],    decoder.field_143),
-      Field("MORA (27)",                           r[105:108],    decoder.field_143),
-      Field("MORA (28)",                           r[108:111],    decoder.field_143),
-      Field("MORA (29)",                           r[111:114],    decoder.field_143),
-      Field("MORA (30)",                           r[114:117],    decoder.field_143),
-      Field("MORA (31)",                           r[117:120],    decoder.field_143),
+      Field("MORA (20)",                           r[87:90],      decoder.field_143),
+      Field("MORA (21)",                           r[90:93],      decoder.field_143),
+      Field("MORA (22)",                           r[93:96],      decoder.field_143),
+      Field("MORA (23)",                           r[96:99],      decoder.field_143),
+      Field("MORA (24)",                           r[99:102],     decoder.field_143),
+      Field("MORA (25)",                           r[102:105],    decoder.field_143),
+      Field("MORA (26)",                           r[105:108],    decoder.field_143),
+      Field("MORA (27)",                           r[108:111],    decoder.field_143),
+      Field("MORA (28)",                           r[111:114],    decoder.field_143),
+      Field("MORA (29)",                           r[114:117],    decoder.field_143),
+      Field("MORA (30)",                           r[117:120],    decoder.field_143),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 4fa20a8856df82812ab4e1e0b3335d4e483485b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:36 +0000
Subject: [PATCH 37/43] fix: name the airport identifier of flight planning
 records as such

---
 src/arinc424/definitions/Airport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/Airport.py b/src/arinc424/definitions/Airport.py
index e94705b..ce688db 100644
--- a/src/arinc424/definitions/Airport.py
+++ b/src/arinc424/definitions/Airport.py
@@ -89,7 +89,7 @@ class Airport():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4]+r[12],    decoder.field_004),
-      Field("Heliport Identifier",                     r[6:10],       decoder.field_006),
+      Field("Airport ICAO Identifier",                 r[6:10],       decoder.field_006),
       Field("ICAO Code",                               r[10:12],      decoder.field_014),
       Field("ATA/IATA Designator",                     r[13:16],      decoder.field_107),
       Field("Continuation Record No",                  r[21],         decoder.field_016),
-- 
2.43.0


From c6d973bafeb27c4cee0d031130bb75576f98a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 38/43] fix: drop the airspace center from company routes

Company routes have no such field; it repeated columns of the from fix.
---
 src/arinc424/definitions/CompanyRoute.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..3e5bd06 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
-- 
2.43.0


From 3eaefd5af4eae86fb4b5f35646c47cc035fe820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 39/43] fix: decode company route fields by their own
 definitions

The second half of the layout used the decoders of unrelated fields; for
one, every ICAO code was reported as an unsupported boundary.
---
 src/arinc424/definitions/CompanyRoute.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 3e5bd06..a376163 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -25,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code",                          r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("RUnway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code",                          r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 1de2c00034fffd31a4f8a8f39fe776d069cd2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 40/43] fix: give repeated company route fields distinct names

The JSON output kept only the last of several fields of the same name.
---
 src/arinc424/definitions/CompanyRoute.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index a376163..692511d 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -26,13 +26,13 @@ class CompanyRoute():
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
       Field("To Fix",                             r[51:57],       decoder.field_083),
-      Field("ICAO Code",                          r[57:59],       decoder.field_014),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
       Field("Section Code (4)",                   r[59:61],       decoder.field_004),
       Field("RUnway Trans",                       r[61:66],       decoder.field_084),
       Field("ENRT Trans",                         r[66:71],       decoder.field_085),
       Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
       Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
-      Field("ICAO Code",                          r[81:83],       decoder.field_014),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
       Field("Alternate Distance",                 r[83:87],       decoder.field_088),
       Field("Cost Index",                         r[87:90],       decoder.field_089),
       Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
-- 
2.43.0


From 4f78a8a93907b32cc9b07e690b1eae8c73756732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 41/43] fix: decode sector altitudes in hundreds of feet

A minimum sector altitude of '062' is 6200 ft; it was decoded as 62 ft.
---
 src/arinc424/decoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index d25b5f5..4e54b3c 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1349,7 +1349,11 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  # in hundreds of feet
+  if value.isnumeric():
+    return (value.lstrip('0')+"00" if value.strip('0') else '0') + " ft"
+  else:
+    return value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
-- 
2.43.0


From c143da372769a3b62fcb1c5e520c38c7f0d6a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:13 +0000
Subject: [PATCH 42/43] fix: report the application type of runway and
 localizer continuations

---
 src/arinc424/definitions/LocalizerGlideslope.py | 1 +
 src/arinc424/definitions/Runway.py              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/arinc424/definitions/LocalizerGlideslope.py b/src/arinc424/definitions/LocalizerGlideslope.py
index 6e8f6b8..f7f29c2 100644
--- a/src/arinc424/definitions/LocalizerGlideslope.py
+++ b/src/arinc424/definitions/LocalizerGlideslope.py
@@ -71,6 +71,7 @@ class LocalizerGlideslope():
       Field("Localizer Identifier",                       r[13:17],       decoder.field_044),
       Field("ILS Category",                               r[17],          decoder.field_080),
       Field("Continuation Record No",                     r[21],          decoder.field_016),
+      Field("Application Type",                           r[22],          decoder.field_091),
       Field("Notes",                                      r[23:92],       decoder.field_061),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
diff --git a/src/arinc424/definitions/Runway.py b/src/arinc424/definitions/Runway.py
index 01f3e95..41845b3 100644
--- a/src/arinc424/definitions/Runway.py
+++ b/src/arinc424/definitions/Runway.py
@@ -66,6 +66,7 @@ class Runway():
       Field("ICAO Code",                              r[10:12],       decoder.field_014),
       Field("Runway Identifier",                      r[13:18],       decoder.field_046),
       Field("Continuation Record No",                 r[21],          decoder.field_016),
+      Field("Application Type",                       r[22],          decoder.field_091),
       Field("Notes",                                  r[23:92],       decoder.field_061),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
-- 
2.43.0


From 9bc43db9c473c1e2a2e6992246452e78f2baba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:31 +0000
Subject: [PATCH 43/43] fix: only take the digits 0 to 9 for numbers

isnumeric, isdigit and int also take superscripts, fractions and the
digits of other scripts, so that columns such as '1\u00b23' decoded to
a number of feet, or raised where other malformed columns do not.
---
 src/arinc424/decoder.py | 63 +++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 4e54b3c..b7833cf 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -20,6 +20,11 @@ def def_val():
   return "<UNKNOWN>"
 
 
+# isnumeric and isdigit also take characters such as superscripts for digits
+def is_number(value):
+  return value.isascii() and value.isdigit()
+
+
 # 5.2 Record Type
 def field_002(value, record):
   if value == 'S':
@@ -437,7 +442,7 @@ def field_026(value, record):
   # Handle the 'T' in the tenths position for degrees true
   if value.endswith('T'):
     return value
-  elif value.isdigit() is False:
+  elif is_number(value) is False:
     raise ValueError('Invalid Outbound Magnetic Course', value)
   else:
     return "{:.1f}".format(float(value) / 10)
@@ -448,7 +453,7 @@ def field_027(value, record):
   value = value.strip()
 
   if len(value) > 0:
-    if value.removeprefix('T').isdigit() is False:
+    if is_number(value.removeprefix('T')) is False:
       raise ValueError('Invalid Distance or Time', value)
     if value[0] == 'T':
       return "{:.1f} min".format(float(value[1:]) / 10)
@@ -465,12 +470,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.31 File Record Number (FRN)
@@ -493,7 +498,7 @@ def field_033(value, record):
 def field_034(value, record):
   value = value.strip()
   if len(value) > 0:
-    if value.isnumeric() is False:
+    if is_number(value) is False:
       raise ValueError('Unsupported VOR/NDB Frequency', value)
     elif record.ident in ('DB', 'PN', 'PM'):
       # NDB and locator frequencies are in tenths of a kHz
@@ -557,7 +562,7 @@ def field_038(value, record):
 def field_039(value, record):
   if value.strip() == '':
     return value
-  if value[1:].strip().isdigit() is False:
+  if is_number(value[1:].strip()) is False:
     raise ValueError('Invalid Magnetic Variation', value)
   return "{:03} {}".format(int(value[1:]), value[0])
 
@@ -640,7 +645,7 @@ def field_044(value, record):
 
 # 5.45 Localizer Frequency (FREQ)
 def field_045(value, record):
-  if (value.isnumeric()):
+  if (is_number(value)):
     return "{:.2f}".format(float(value)/100)
   else:
     return "BAD VALUE"
@@ -658,7 +663,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -677,7 +682,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -692,12 +697,12 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
-  if value.isnumeric():
+  if is_number(value):
     return (value.lstrip('0')+"00" if value.strip('0') else '0') + " ft"
   else:
     return value
@@ -740,7 +745,7 @@ def field_061(value, record):
 
 # 5.62 Inbound Holding Course (IB HOLD CRS)
 def field_062(value, record):
-  if (value.isnumeric()):
+  if (is_number(value)):
     return float(value)/10
   else:
     return "BAD VALUE"
@@ -762,6 +767,8 @@ def field_065(value, record):
     return value
 
   try:
+    if is_number(value) is False:
+      raise ValueError('not a number')
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
   except (ValueError, IndexError) as e:
     print(f'Error: Invalid value passed to format_time. Value: "{value}". Error: {str(e)}')
@@ -800,7 +807,7 @@ def field_071(value, record):
 
 # 5.72 Speed Limit (SPEED LIMIT)
 def field_072(value, record):
-  if value.isnumeric():
+  if is_number(value):
     return value + " knots (IAS)"
   elif value.strip() == '':
     return value
@@ -810,7 +817,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -888,7 +895,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -946,7 +953,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1050,7 +1057,7 @@ def field_102(value, record):
 
 # 5.103 ‘Communications Frequency (COMM FREQ)
 def field_103(value, record):
-  if (value.isnumeric()):
+  if (is_number(value)):
     return "{:.2f}".format(float(value)/100)
   else:
     return "BAD VALUE"
@@ -1226,7 +1233,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1246,7 +1253,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1286,7 +1293,7 @@ def field_134(value, record):
 
 # 5.135 Course FROM/TO.
 def field_135(value, record):
-  if (value.isnumeric()):
+  if (is_number(value)):
     return float(value)/10
   else:
     return "BAD VALUE"
@@ -1350,7 +1357,7 @@ def field_146(value, record):
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
   # in hundreds of feet
-  if value.isnumeric():
+  if is_number(value):
     return (value.lstrip('0')+"00" if value.strip('0') else '0') + " ft"
   else:
     return value
@@ -1423,7 +1430,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1523,9 +1530,9 @@ def field_177(value, record):
 # 5.178 Time Zone
 def field_178(value, record):
   # hours to GMT: A to M (without J) are -1 to -12, N to Y are +1 to +12, Z is 0
-  if value[0] in 'ZNOPQRSTUVWXY' and value[1:].isnumeric():
+  if value[0] in 'ZNOPQRSTUVWXY' and is_number(value[1:]):
     return 'GMT +' + str('ZNOPQRSTUVWXY'.index(value[0])) + ':' + value[1:]
-  elif value[0] in 'ABCDEFGHIKLM' and value[1:].isnumeric():
+  elif value[0] in 'ABCDEFGHIKLM' and is_number(value[1:]):
     return 'GMT -' + str('ABCDEFGHIKLM'.index(value[0]) + 1) + ':' + value[1:]
   else:
     return f'Unsupported Value: "{value}"'
@@ -1575,7 +1582,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1748,7 +1755,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1903,7 +1910,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if is_number(value) else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
@@ -2049,7 +2056,7 @@ def field_268(value, record):
 # 5.269 Helicopter Procedure Course (HPC)
 def field_269(value, record):
   if value.strip() != '': # this is allowed to be empty for non-heli records?
-    if value.strip().isdigit() is False:
+    if is_number(value.strip()) is False:
       raise ValueError('Invalid Helicopter Procedure Course', value)
     return float(value)/10
   return value
-- 
2.43.0

