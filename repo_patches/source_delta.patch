From e42c31813e9428a1ae438d56ef9fd0468a60bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 01/39] fix: emit attributes of the generic bottom row in
 AnySoftKeyboard layouts

Return, space and backspace were written as empty <Key/> elements.
---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..38f8d96 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib=attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From f3ea8439333627ff44c26e09c255c654ae1c08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 02/39] fix: pickle buttons by name

Button ids depend on the order in which buttons are created, so statistics
unpickled in a process that loaded another keyboard first named the wrong
buttons.
---
 lulua/keyboard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..f8fdf2d 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -63,6 +63,11 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # ids depend on the order buttons are created in and are valid inside
+        # this process only, so pickle the name instead
+        return self.__class__, (self.name, self.width, self.isMarked, self.scancode)
+
     @property
     def name (self):
         return Button._idToName[self.i]
@@ -115,6 +120,9 @@ class MultiRowButton (Button):
         super ().__init__ (name, width=width, isMarked=isMarked, scancode=scancode)
         self.span = span
 
+    def __reduce__ (self):
+        return self.__class__, (self.name, self.span, self.width, self.isMarked, self.scancode)
+
     def __repr__ (self): # pragma: no cover
         return f'MultiRowButton({self.name!r}, {self.span!r}, {self.isMarked!r})'
 
-- 
2.43.0


From 0006948dadbfc9397f0699fc402f76efd2297959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 03/39] fix: do not modify buttons or input data when
 (de)serializing keyboards

Serializing a keyboard turned its windows scancodes into lists and
deserializing removed the kind from the source data.
---
 lulua/keyboard.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index f8fdf2d..07c5ab6 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -50,6 +50,7 @@ class Button:
         self.scancode = scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
+            self.scancode = dict (self.scancode)
             self.scancode['windows'] = tuple (self.scancode['windows'])
 
     def __repr__ (self): # pragma: no cover
@@ -76,11 +77,9 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
-        try:
-            kind = data['kind']
-            del data['kind']
-        except KeyError:
-            kind = 'standard'
+        # do not modify the caller’s data
+        data = dict (data)
+        kind = data.pop ('kind', 'standard')
         return kindMap[kind] (**data)
 
     def serialize (self):
@@ -91,6 +90,7 @@ class Button:
             d['isMarked'] = self.isMarked
         # turn the tuple back into a list
         if d['scancode'] and 'windows' in d['scancode']:
+            d['scancode'] = dict (d['scancode'])
             d['scancode']['windows'] = list (d['scancode']['windows'])
         return d
 
-- 
2.43.0


From 95ea54f4314fa18cd9240a513e8d718a76253f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 04/39] fix: KeyboardLayout.copy() misses keyboard argument

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..81b7c7c 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name[:], layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From 7e1a4f9f4c175c0093addccf7844b52e35b62d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 05/39] fix: attribute finger run length to the finger that
 typed the run

It was counted for the finger that ended it.
---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..aeed7ea 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -90,7 +90,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
-- 
2.43.0


From b819c5fca4f3aabde26107038d2001d3a60d5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 06/39] fix: merge finger run lengths when combining statistics

---
 lulua/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index aeed7ea..c90da04 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -76,7 +76,8 @@ class RunlenStats (Stats):
     def __eq__ (self, other):
         if not isinstance (other, RunlenStats):
             return NotImplemented
-        return self.perHandRunlenDist == other.perHandRunlenDist
+        return self.perHandRunlenDist == other.perHandRunlenDist and \
+                self.fingerRunlenDist == other.fingerRunlenDist
         
     def process (self, event):
         if isinstance (event, ButtonCombination):
@@ -106,6 +107,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From 07c24472f21394d80b979926721a460dca4f5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 07/39] fix: report energy of the layout written by
 lulua-optimize

The energy of the last state was reported, but the best one is written.
---
 lulua/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..2083116 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,8 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        # run() ends with the last state, which is not necessarily the best
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From 961ffa69458b806166b5e2d1c50330a07c2a7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 08/39] fix: only extract regular files from tar archives

GNU long name/link entries were returned as if they were files and a long
link target was considered an invalid header.
---
 lulua/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..c968b76 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -155,13 +155,16 @@ def filterTar (fd):
         pos += blocksize
         if header == b'' or header == emptyblock:
             break
-        assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
+        assert header[257:257+8] == b'ustar  \0', (header[257:257+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
 
         # read body
         if size > 0:
-            yield BytesIO (fd.read (size))
+            body = fd.read (size)
             pos += size
+            # regular files only, not GNU’s long name entries for example
+            if header[156:157] in (b'0', b'\0'):
+                yield BytesIO (body)
 
         # align to next 512 byte block
         into = pos%blocksize
-- 
2.43.0


From 3f30486c98ddf702eff67d15478852b7565b3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 09/39] fix: raise instead of looping forever for truncated
 brotli streams

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index c968b76..5430d16 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,10 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            chunk = self.fd.read (self.readchunk)
+            if not chunk:
+                raise EOFError ('truncated brotli stream')
+            self.buf += self.decompressor.process (chunk)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 31303aae417adca9ed099c83d3939ade69361694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 10/39] fix: select the entire element if a matching or script
 element is nested

A nested match reset the depth counter, so text following it was lost.
---
 lulua/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 5430d16..c2b949b 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,12 +61,14 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                if self.inside is None and self.f (token):
                     self.inside = 0
-                if tname in {'script', 'style'}:
+                if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
 
             if isScript is not None:
+                if ttype == 'StartTag':
+                    isScript += 1
                 if ttype == 'EndTag':
                     isScript -= 1
                     if isScript <= 0:
-- 
2.43.0


From e93b9cd2f8ee88713bb20a4527c06ceb937b3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 11/39] fix: lulua-write hangs if all workers failed and the
 queue is full

---
 lulua/text.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index c2b949b..e3cadc5 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -440,12 +440,20 @@ def write ():
             name=f'status')
     statusp.start()
 
+    def put (item):
+        """ Enqueue item, unless a worker failed. Return True if successful. """
+        while outq.empty ():
+            try:
+                inq.put (item, timeout=1)
+                return True
+            except queue.Full:
+                pass
+        return False
+
     try:
         for l in sys.stdin:
-            inq.put (l)
-
             # something is wrong
-            if not outq.empty ():
+            if not put (l):
                 break
     except KeyboardInterrupt:
         pass
@@ -453,7 +461,7 @@ def write ():
     # exit workers
     # every one of them will consume exactly one item and write one in return
     for w in workers:
-        inq.put (None)
+        put (None)
         item = outq.get ()
         if isinstance (item, Exception):
             raise item
-- 
2.43.0


From 93908619521a5ea1238654ddcc6836e78074622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 12/39] fix: terminate prefixed scancode tables in Windows
 keyboard driver

These have no length and end with a zero scancode.
---
 lulua/winkbd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..f47d72f 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,6 +450,8 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
+        # end of table marker
+        ret.append ('\t{ 0, 0 },')
         ret.append ('\t};\n')
 
     return '\n'.join (ret)
-- 
2.43.0


From 6eb2a49210f966bfb2c7c1dcd381040573a0fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 13/39] fix: letterfreq and triadeffortplot fail with current
 bokeh

plot_width/plot_height have been removed, width/height are available since
bokeh 2.4.
---
 lulua/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 9fb5cf1..1382559 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -95,8 +95,8 @@ def letterfreq (args):
 
     source = ColumnDataSource(data=dict(x=xdata, letters=xlabel, rel=ydata, abs=ydataAbs, cum=ydataCumAbs, cumRel=ydataCumRel))
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             x_range=xlabel,
             y_range=(0, 1),
             sizing_mode='scale_both',
@@ -234,8 +234,8 @@ def triadEffortPlot (args):
     from bokeh.layouts import column
 
     p = figure(
-            plot_width=1000,
-            plot_height=500,
+            width=1000,
+            height=500,
             sizing_mode='scale_both',
             x_range=(0, 1),
             y_range=(0, 1),
-- 
2.43.0


From 66f91a9243a51b076139216512017aa28be8eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 14/39] fix: ignore directories when looking for layouts and
 keyboards

---
 lulua/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/util.py b/lulua/util.py
index 0245275..f1a48d6 100644
--- a/lulua/util.py
+++ b/lulua/util.py
@@ -58,7 +58,7 @@ class YamlLoader:
             try:
                 with f (k) as fd:
                     return self.deserialize (yaml.safe_load (fd))
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError):
                 pass
             except yaml.reader.ReaderError:
                 pass
-- 
2.43.0


From c8128284e9c19d23da09fe58458b9810d347ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:48 +0000
Subject: [PATCH 15/39] fix: skip every character if the layout is empty

Nothing was read at all before.
---
 lulua/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/writer.py b/lulua/writer.py
index a186315..16489e2 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -188,8 +188,10 @@ class Writer:
 
     def type (self, fd):
         buf = ''
+        # layouts without any text have bufferLen zero
+        bufferLen = max (self.layout.bufferLen, 1)
         while True:
-            buf += fd.read (self.layout.bufferLen-len (buf))
+            buf += fd.read (bufferLen-len (buf))
             if not buf:
                 break
 
-- 
2.43.0


From f171c7b941b71168f0d1bccb4e364f0a562e79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 16/39] fix: wrong and unknown buttons in imported KLC layouts

OEM_3 is the button left of 1 and overwrote it, OEM_5 and AltGr were
assigned to buttons that do not exist.
---
 lulua/layout.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 81b7c7c..847aaf1 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -245,7 +245,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
@@ -271,7 +271,6 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
 
             'A': 'Dl1',
             'S': 'Dl2',
@@ -284,7 +283,7 @@ class GenericLayout:
             'L': 'Dr4',
             'OEM_1': 'Dr3',
             'OEM_7': 'Dr2',
-            #Dr1
+            'OEM_5': 'Dr1',
 
             'OEM_102': 'El1',
             'Z': 'El2',
@@ -336,8 +335,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From a6cbefe89edd4c83d911902ae4a6ceb38388a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 17/39] fix: literal characters in KLC files

These were parsed as hexadecimal codepoint.
---
 lulua/layout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lulua/layout.py b/lulua/layout.py
index 847aaf1..6240c31 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -239,6 +239,9 @@ class GenericLayout:
             # two symbols for NULL? Seriously Microsoft?
             if c == '%%':
                 return None
+            # letters and numbers may be written as-is
+            if len (c) == 1:
+                return c
             n = int (c, 16)
             if n == -1:
                 return None
-- 
2.43.0


From 4066d7701317aa50f6120ddd70d8ebdf75938c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 18/39] fix: import KLC files without ligature section

The sections following the layout were parsed as layout.
---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 6240c31..6c89bf4 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -316,7 +316,7 @@ class GenericLayout:
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif line.startswith (('LIGATURE', 'DEADKEY', 'KEYNAME', 'DESCRIPTIONS', 'LANGUAGENAMES', 'ENDKBD')):
                     mode = None
                 elif mode == 'layout':
                     try:
-- 
2.43.0


From 6d661ea047f355b3bf91c3acd03b921ac7c8b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 19/39] fix: respect shift states declared in KLC files

Columns were assigned to layers by position, so AltGr ended up on
Shift+Control for the default set of shift states.
---
 lulua/layout.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 6c89bf4..f93f229 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -306,6 +306,9 @@ class GenericLayout:
         with fd:
             mode = None
             layers = [{} for i in range (6)]
+            # shift state bitfield (1: shift, 2: ctrl, 4: alt) to layer
+            stateToLayer = {0: 0, 1: 1, 2: 2, 3: 3, 6: 4, 7: 5}
+            columnToLayer = []
             for line in fd:
                 # strip comments
                 try:
@@ -314,10 +317,16 @@ class GenericLayout:
                 except ValueError:
                     pass
                 line = line.strip ()
-                if line.startswith ('LAYOUT'):
+                if line == 'SHIFTSTATE':
+                    mode = 'shiftstate'
+                elif line.startswith ('LAYOUT'):
                     mode = 'layout'
+                    # no shift states declared
+                    columnToLayer = columnToLayer or list (range (len (layers)))
                 elif line.startswith (('LIGATURE', 'DEADKEY', 'KEYNAME', 'DESCRIPTIONS', 'LANGUAGENAMES', 'ENDKBD')):
                     mode = None
+                elif mode == 'shiftstate' and line:
+                    columnToLayer.append (stateToLayer[int (line)])
                 elif mode == 'layout':
                     try:
                         scancode, virtKey, cap, *code = re.split (r'\s+', line)
@@ -328,7 +337,7 @@ class GenericLayout:
                         button = vkToButton[virtKey]
                         for i, c in enumerate (code):
                             if c is not None:
-                                layers[i][button] = c
+                                layers[columnToLayer[i]][button] = c
                     except KeyError:
                         assert virtKey == 'DECIMAL'
                         pass
-- 
2.43.0


From 338ebdb0d163d6e4cfd8f1dc355a1e85de507192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 20/39] fix: escape control characters in macOS keylayout

The document was not well-formed for layouts with a backspace button.
---
 lulua/render.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 38f8d96..67c9176 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -18,7 +18,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 # THE SOFTWARE.
 
-import argparse, sys, logging, pkg_resources, base64, unicodedata
+import argparse, sys, logging, pkg_resources, base64, unicodedata, re
 from collections import namedtuple, defaultdict
 from itertools import chain
 from operator import attrgetter
@@ -548,12 +548,16 @@ def renderKeylayout (args):
     layouts = ET.SubElement (docroot, 'layouts')
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
-    decl = b"""<?xml version="1.0" encoding="utf-8"?>
+    # control characters must be references, which are valid in XML 1.1 only
+    data = re.sub (rb'[\x01-\x08\x0b\x0c\x0e-\x1f]',
+            lambda x: b'&#x%04X;' % ord (x.group ()),
+            ET.tostring (docroot, encoding='utf-8'))
+    decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        fd.write (ET.tostring (docroot, encoding='utf-8'))
+        fd.write (data)
 
 def renderKlavaro (args):
     keyboard = defaultKeyboards[args.keyboard]
-- 
2.43.0


From 54b0d436cce611d7800e4b84cd0f0d57e39b419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 21/39] fix: render layouts with a single layer for Klavaro

---
 lulua/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index 67c9176..ca27686 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -579,7 +579,8 @@ def renderKlavaro (args):
             # only two layers supported
             for i in (0, 1):
                 # empty buttons must be spaces
-                layers[i].append (buttonText[i] or ' ')
+                text = buttonText[i] if i < len (buttonText) else ''
+                layers[i].append (text or ' ')
         for i in (0, 1):
             layers[i].append ('\n')
 
-- 
2.43.0


From 4a2385409c9f72e0241f40e57319060388685609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 22/39] fix: ignore backspace in triads

There is no effort defined for it, so neither analyzing nor optimizing was
possible with a corpus that contains a backspace character.
---
 lulua/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index c90da04..e9b4fe7 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -147,7 +147,7 @@ class TriadStats (Stats):
     """
     Button triad stats with an overlap of two.
 
-    Whitespace buttons are ignored.
+    Whitespace and backspace buttons are ignored.
     """
 
     __slots__ = ('_triad', 'triads', '_writer', '_ignored')
@@ -160,7 +160,7 @@ class TriadStats (Stats):
         self._triad = []
         self.triads = defaultdict (int)
         keyboard = self._writer.layout.keyboard
-        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'))
+        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'))
 
     def __eq__ (self, other):
         if not isinstance (other, TriadStats):
-- 
2.43.0


From 807f2ffac8ded38e209fe42859efd1f67b3f92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:00 +0000
Subject: [PATCH 23/39] fix: lulua-write hangs on exit after a worker failed
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The queue’s thread waited for items to be read, which nobody does any more.
---
 lulua/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index e3cadc5..35787a5 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -464,6 +464,8 @@ def write ():
         put (None)
         item = outq.get ()
         if isinstance (item, Exception):
+            # nobody is going to read the remaining items
+            inq.cancel_join_thread ()
             raise item
         if item is not None:
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 05fb1514e120ee42018a1a9562f2a1fe2d2d1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 24/39] fix: keycodes shared by different buttons

Right win used the keycode of right ctrl/left command and left shift that of
caps lock.
---
 lulua/data/keyboards/ibmpc105.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index 0938262..b2453ed 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -372,7 +372,7 @@ rows:
 - - - name: El_shift
       scancode:
         keyman: SHIFT
-        macos: 57
+        macos: 56
         windows:
         - 42
         xorg: 50
@@ -536,11 +536,11 @@ rows:
     - name: Fr_win
       scancode:
         keyman: K_?5C
-        macos: 55
+        macos: 54
         windows:
         - 224
         - 92
-        xorg: 105
+        xorg: 134
       width: 1.25
     - name: Fr_menu
       scancode:
-- 
2.43.0


From c6dd2eba4999455f726980b92d38d98666b7650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:46 +0000
Subject: [PATCH 25/39] fix: copying a layout without name

The packaged null layout has no name.
---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index f93f229..fd5c4c7 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers, self.keyboard)
+        return self.__class__ (self.name, layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From 83b75651472f5d596987203a20113d1bcc8f6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 26/39] fix: do not lose CDATA sections of XML documents

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 35787a5..cf61524 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -230,7 +230,7 @@ def getText (nodelist):
     """ Helper to retrieve text from an XML node list """
     rc = []
     for node in nodelist:
-        if node.nodeType == node.TEXT_NODE:
+        if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
             rc.append(node.data)
     return ''.join(rc)
 
-- 
2.43.0


From 80c27bf25812c15d89d93fcfc805949d3b72848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:40 +0000
Subject: [PATCH 27/39] fix: ignore matching elements inside of scripts

---
 lulua/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index cf61524..7b584a8 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,10 +61,11 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.inside is None and self.f (token):
-                    self.inside = 0
                 if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
+                # nothing inside a script can match
+                if isScript is None and self.inside is None and self.f (token):
+                    self.inside = 0
 
             if isScript is not None:
                 if ttype == 'StartTag':
-- 
2.43.0


From 5c8e3962caa40f28eb493646d5b252e37a4f98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:07 +0000
Subject: [PATCH 28/39] fix: text of the left half of the space bar only in
 xmodmap

---
 lulua/render.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index ca27686..d879050 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -331,7 +331,9 @@ def renderXmodmap (args):
             # space button shares the same keycode and must be removed
             for btn in unique (keyboard.keys (), key=xorgGetter):
                 if not layout.isModifier (frozenset ([btn])):
-                    text = l.layout.get (btn)
+                    # only one of the halves may have text
+                    text = l.layout.get (btn) or next ((t for x, t in l.layout.items ()
+                            if xorgGetter (x) == xorgGetter (btn)), None)
                     if not text:
                         text = 'NoSymbol'
                     else:
-- 
2.43.0


From 8f6d5afbdbbd9759483f8cac528897dcac45b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:25 +0000
Subject: [PATCH 29/39] fix: escape delete, C1 controls and line separators in
 macOS keylayout

---
 lulua/render.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index d879050..8b1c830 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -551,9 +551,10 @@ def renderKeylayout (args):
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
     # control characters must be references, which are valid in XML 1.1 only
-    data = re.sub (rb'[\x01-\x08\x0b\x0c\x0e-\x1f]',
-            lambda x: b'&#x%04X;' % ord (x.group ()),
-            ET.tostring (docroot, encoding='utf-8'))
+    # (and so must be its additional line breaks)
+    data = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\u2028]',
+            lambda x: f'&#x{ord (x.group ()):04X};',
+            ET.tostring (docroot, encoding='unicode')).encode ('utf-8')
     decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
-- 
2.43.0


From b2a2bb472492f9f434095cd1a45c96d592d0bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:10 +0000
Subject: [PATCH 30/39] fix: triad effort plot with less than three or more
 than twelve layouts

---
 lulua/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 1382559..ec02e1c 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -20,6 +20,7 @@
 
 import sys, argparse, json, unicodedata, pickle, logging, math
 from operator import itemgetter
+from itertools import cycle
 
 from .layout import *
 from .keyboard import defaultKeyboards
@@ -242,7 +243,8 @@ def triadEffortPlot (args):
             output_backend="webgl",
             )
     data = list (unpickleAll (sys.stdin.buffer))
-    colors = Set3[len(data)]
+    # the palette is available for three to twelve colors only
+    colors = cycle (Set3[min (max (len (data), 3), 12)])
     lines = dict ()
     for o, color in zip (data, colors):
         name = o['layout'].name
-- 
2.43.0


From 33d44af050ee8b1ea89792c7ca49285d414a8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:49 +0000
Subject: [PATCH 31/39] =?UTF-8?q?fix:=20triad=20effort=20plot=E2=80=99s=20?=
 =?UTF-8?q?preset=20buttons=20fail=20with=20current=20bokeh?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

js_on_click is gone and only dicts with string keys are objects in bokehjs.
---
 lulua/plot.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index ec02e1c..5a010c1 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -263,19 +263,20 @@ def triadEffortPlot (args):
         axis.major_label_text_font = font
 
     LABELS = ["All", "Standard", "Usable"]
-    visible = {
-            0: list (lines.keys ()),
-            1: ['ar-asmo663', 'ar-linux', 'ar-osx'],
-            2: ['ar-lulua', 'ar-ergoarabic', 'ar-malas', 'ar-linux', 'ar-osx'],
-            }
-    ranges = {
-            0: [(0, 1), (0, 1)],
-            1: [(0, 0.5), (0, 0.4)],
-            2: [(0, 0.5), (0, 0.4)],
-            }
+    # one entry per label
+    visible = [
+            list (lines.keys ()),
+            ['ar-asmo663', 'ar-linux', 'ar-osx'],
+            ['ar-lulua', 'ar-ergoarabic', 'ar-malas', 'ar-linux', 'ar-osx'],
+            ]
+    ranges = [
+            [(0, 1), (0, 1)],
+            [(0, 0.5), (0, 0.4)],
+            [(0, 0.5), (0, 0.4)],
+            ]
     presets = RadioButtonGroup (labels=LABELS, active=0)
     # Set visibility and x/yranges on click. Not sure if there’s a more pythonic way.
-    presets.js_on_click(CustomJS(
+    presets.js_on_change('active', CustomJS(
             args=dict(lines=lines, plot=p, visible=visible, ranges=ranges),
             code="""
             for (const [k, line] of Object.entries (lines)) {
-- 
2.43.0


From 225f682b484cd783cb2745af79f71f34091355e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 32/39] fix: report of layouts with unused fingers

---
 lulua/data/report/index.html | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lulua/data/report/index.html b/lulua/data/report/index.html
index e2108cd..3ba1604 100644
--- a/lulua/data/report/index.html
+++ b/lulua/data/report/index.html
@@ -406,14 +406,17 @@
 {% set fingers = stats.fingers %}
 <div class="fingerhandstats" dir="ltr" lang="en">
 {% for hand in Direction %}
-	{% set handpct = hands[hand]/stats.buttonPresses*100 %}
+	{# hands and fingers which are not used at all have no entry #}
+	{% set handcount = hands.get(hand, 0) %}
+	{% set handpct = handcount/stats.buttonPresses*100 %}
 	<div class="{{ hand.name.lower() }}" style="width: {{ '%.3f'|format(handpct) }}%;">
 	<div class="hand">{{ '%.2f'|format(handpct) }}%</div>
 	<div class="fingers">
 	{% for finger in fingerOrder[hand] %}
-		{% set fingerpct = fingers[(hand, finger)]/stats.buttonPresses*100 %}
+		{% set fingercount = fingers.get((hand, finger), 0) %}
+		{% set fingerpct = fingercount/stats.buttonPresses*100 %}
 		{# finger width is relative to parent (i.e. hand) #}
-		{% set fingerwidth = fingers[(hand, finger)]/hands[hand]*100 %}
+		{% set fingerwidth = fingercount/handcount*100 if handcount else 0 %}
 		<div class="{{ finger.name.lower() }}" style="width: {{ '%.3f'|format(fingerwidth) }}%;">{{ '%.2f'|format(fingerpct) }}</div>
 	{% endfor %}
 	</div>
-- 
2.43.0


From 60044a3231555ec63dce807092ab6b58b0847911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:55 +0000
Subject: [PATCH 33/39] fix: decompose literal characters in KLC files

---
 lulua/layout.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index fd5c4c7..3b898ab 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -240,12 +240,12 @@ class GenericLayout:
             if c == '%%':
                 return None
             # letters and numbers may be written as-is
-            if len (c) == 1:
-                return c
-            n = int (c, 16)
-            if n == -1:
-                return None
-            return unicodedata.normalize ('NFD', chr (n))
+            if len (c) != 1:
+                n = int (c, 16)
+                if n == -1:
+                    return None
+                c = chr (n)
+            return unicodedata.normalize ('NFD', c)
 
         vkToButton = {
             'OEM_3': 'Bl1',
-- 
2.43.0


From 31f5cfd18e1f0972e2d181a0ecc0d80758996173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:55 +0000
Subject: [PATCH 34/39] fix: semicolon comments in KLC files

---
 lulua/layout.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 3b898ab..2085998 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -311,12 +311,7 @@ class GenericLayout:
             columnToLayer = []
             for line in fd:
                 # strip comments
-                try:
-                    line = line[:line.index ('//')]
-                    line = line[:line.index (';')]
-                except ValueError:
-                    pass
-                line = line.strip ()
+                line = line.partition ('//')[0].partition (';')[0].strip ()
                 if line == 'SHIFTSTATE':
                     mode = 'shiftstate'
                 elif line.startswith ('LAYOUT'):
-- 
2.43.0


From 767dd4b99ec9019133ccb472b13a23051c9ae759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 35/39] fix: combine ignores statistics files cut off at the
 end

---
 lulua/stats.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index e9b4fe7..8fdbcc2 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -22,7 +22,7 @@ import sys, operator, pickle, argparse, logging, yaml, math, time
 from operator import itemgetter
 from itertools import chain, groupby, product
 from collections import defaultdict
-from io import StringIO
+from io import BufferedReader, StringIO
 
 from .layout import *
 from .keyboard import defaultKeyboards
@@ -233,11 +233,13 @@ class WordStats (Stats):
 allStats = [SimpleStats, RunlenStats, TriadStats, WordStats]
 
 def unpickleAll (fd):
-    while True:
-        try:
+    fd = BufferedReader (fd)
+    try:
+        # the end of file is expected between objects only
+        while fd.peek (1):
             yield pickle.load (fd)
-        except EOFError:
-            break
+    finally:
+        fd.detach ()
 
 def makeCombined (keyboard):
     """ Create a dict which contains initialized stats, ready for combining (not actual writing!) """
-- 
2.43.0


From 2f5830cea844090808b2ea76d7c15e1d356efe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 36/39] fix: raise instead of shortening files of truncated tar
 archives

---
 lulua/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/text.py b/lulua/text.py
index 7b584a8..4bbc4e6 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -167,6 +167,8 @@ def filterTar (fd):
         # read body
         if size > 0:
             body = fd.read (size)
+            if len (body) != size:
+                raise EOFError ('truncated tar archive')
             pos += size
             # regular files only, not GNU’s long name entries for example
             if header[156:157] in (b'0', b'\0'):
-- 
2.43.0


From f708afbc18a5e34cc44339502b6abfe8377d20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 37/39] fix: text in square brackets is drawn as if it was an
 abbreviation

---
 lulua/render.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 8b1c830..f006321 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -88,7 +88,7 @@ class Renderer:
                 i, layer = self.layout.modifierToLayer (mod)
                 buttonText = [layerToArrow[i]]
             else:
-                buttonText = list (map (displayText, self.layout.getButtonText (btn)))
+                buttonText = list (self.layout.getButtonText (btn))
 
             btnWidth = self.buttonWidth (btn)
             btnPos = btnToPos[btn]
@@ -223,9 +223,10 @@ class Renderer:
         for extraclass, morexoff, moreyoff in [(['shadow'], settings.shadowOffset, settings.shadowOffset), ([], 0, 0)]:
             class_ = ['label'] + extraclass
             controlclass_ = ['controllabel'] + extraclass
-            for text, (txoff, tyoff, style) in zip (buttonText, textParam):
-                if text is None:
+            for rawText, (txoff, tyoff, style) in zip (buttonText, textParam):
+                if rawText is None:
                     continue
+                text = displayText (rawText)
                 txoff = txoff*settings.buttonWidth + morexoff
                 tyoff = tyoff*settings.buttonWidth + moreyoff
                 # actual text must be inside tspan, so we can apply smaller font size
@@ -235,7 +236,8 @@ class Renderer:
                         text_anchor='middle',
                         direction='rtl',
                         class_=' '.join (class_))
-                if text.startswith ('[') and text.endswith (']'):
+                # not the layout’s own brackets
+                if text != rawText and text.startswith ('[') and text.endswith (']'):
                     # XXX: should find us a font which has glyphs for control chars
                     t.add (svgwrite.text.TSpan (text[1:-1],
                             class_='controlchar',
-- 
2.43.0


From 8ba515ab46f77aef3d14b64e1bd935bded097ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:42 +0000
Subject: [PATCH 38/39] fix: do not hide errors while reading brotli streams

Leaving the context of a BrotliFile suppressed every exception, including
the one raised for truncated streams.
---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 4bbc4e6..f4d2309 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -125,7 +125,7 @@ class BrotliFile:
         return self
 
     def __exit__ (self, exc_type, exc_val, exc_tb):
-        return True
+        return False
 
     def read (self, num=None):
         while not self.decompressor.is_finished ():
-- 
2.43.0


From 6d2b16c3de92c5d43e4e2c2214b27d97802a34d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:56 +0000
Subject: [PATCH 39/39] fix: documents which cannot be read are not invalid xml
 documents

Truncated compressed streams and read errors were logged as invalid
document and the item was dropped, although the command must fail.
---
 lulua/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index f4d2309..c347f4a 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -224,8 +224,10 @@ def filterFile (item):
         yield fd
 
 def filterXml (fd):
+    # errors reading the document are not the document’s fault
+    data = fd.read ()
     try:
-        yield xml.dom.minidom.parse (fd)
+        yield xml.dom.minidom.parseString (data)
     except Exception:
         logging.error (f'invalid xml document {fd}')
 
-- 
2.43.0

