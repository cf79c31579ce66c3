From 4506bc7b203467b97f71c965828c30d5b3647f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 1/8] fix: count the waits of the 0x80-0x8F commands

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..8bc5404 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 sample write, then wait n samples (0x8n)
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From 9387ff47acf04d16dc54323250c039ca6eb29f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 2/8] fix: keep all five bits of the second decay rate

---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..8119a23 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From fd39f7dc9bff9a65288e44434417c7121782229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 3/8] fix: stop processing at the end of sound data

---
 src/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..b83c874 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
-- 
2.43.0


From e7b0b7fa002c578f3bbec8d9760af732ee1119df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 4/8] fix: log key events of songs whose first key-on is at
 sample 0

---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 8119a23..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From b096c6c0c52f39d23c8ff2c69011023678e741d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 5/8] fix: write the last row of the text track export

---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..13803f9 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -112,6 +112,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From ae45c26a8c5af84b9fb81905d717f3c3a535ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 6/8] fix: keep the clocks of every opened file apart

---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 8bc5404..5f293fd 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 41b14b48b8f8b6b351d6de88cf248203f5e009ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 7/8] fix: give the byte streams for binary modes and never
 close a standard stream

---
 src/tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..5300f45 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -4,17 +4,19 @@ import sys
 
 @contextlib.contextmanager
 def smart_open(filename: str, mode: str):
+    close = False
     if filename and filename != "-":
         fh = open(filename, mode)
+        close = True
     elif mode.startswith("w"):
-        fh = sys.stdout
+        fh = sys.stdout.buffer if "b" in mode else sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        fh = sys.stdin.buffer if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
     try:
         yield fh
     finally:
-        if fh is not sys.stdout and fh is not sys.stdin:
+        if close:
             fh.close()
-- 
2.43.0


From edf7d0fc41c2323c3d81c7fdcffeb5ec008ab598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 8/8] fix: report the file given to main() instead of a global

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index b83c874..d73de82 100644
--- a/src/main.py
+++ b/src/main.py
@@ -29,7 +29,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0

