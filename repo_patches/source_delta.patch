From e95bcf32df121f7dbd084bd69794f32ea59d6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 01/83] fix: reset hold state when the release detects the
 elapsed hold time

With holdRepeat set, a hold which was first detected at release left the
switch in held state: The next press fired the hold actions at once and
a short press was swallowed.
---
 content/lib/pyswitch/controller/inputs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..b9dc1a4 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -81,6 +81,8 @@ class SwitchController:
                             return
                                                 
                         if self.__check_hold():
+                            self.__hold_active = False
+                            self.__hold_was_active = False
                             return
 
                         if self.__hold_was_active:
-- 
2.43.0


From b522763bb6258eb96ece49b763a9a74668a1aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 02/83] fix: PagerAction accepts 0 as page ID for select_page

---
 content/lib/pyswitch/clients/local/actions/pager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..2c008eb 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page != None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
-- 
2.43.0


From e9d8dc20e364398cc2ca0f2a84fc5d25dc0268ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 03/83] fix: PagerAction with mappings crashed on the first
 update (callback part was not initialized)

---
 content/lib/pyswitch/clients/local/actions/pager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 2c008eb..d49a178 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -94,6 +94,7 @@ class PagerAction(Callback, Action):
 
     # Must be called before usage
     def init(self, appl, switch):
+        Callback.init(self, appl)
         Action.init(self, appl, switch)
 
         self.current_page_index = 0
-- 
2.43.0


From 4a5d8289e5f6c7cf9301f1a18fdcae7d38acf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 04/83] fix: redraw a PagerAction when it gets enabled by
 another pager

---
 content/lib/pyswitch/clients/local/actions/pager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index d49a178..5aa1361 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -100,6 +100,11 @@ class PagerAction(Callback, Action):
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly: Request the mappings, and redraw if the pager itself got enabled or disabled
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From 884096604b8a6c3c3f29b460dca2cefa6901e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 05/83] fix: update select page buttons also while their pager
 is disabled

---
 content/lib/pyswitch/clients/local/actions/pager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5aa1361..ae1682e 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -135,6 +135,7 @@ class PagerAction(Callback, Action):
             return 
         
         if not self.enabled:
+            self.__update_proxies()
             return
         
         page_current = self.pages[self.current_page_index]
@@ -170,7 +171,10 @@ class PagerAction(Callback, Action):
                 else:
                     self.label.back_color = (255, 255, 255)
         
-        # Update all proxies, too
+        self.__update_proxies()
+
+    # Update all proxies, too
+    def __update_proxies(self):
         for proxy in self.__proxies:
             proxy.update_displays()
 
-- 
2.43.0


From ecc684c08561de1d66324452be198f1ad0d52a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 06/83] fix: redraw pagers and select page buttons when actions
 are reset

---
 content/lib/pyswitch/clients/local/actions/pager.py        | 4 ++++
 content/lib/pyswitch/clients/local/actions/pager_direct.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index ae1682e..1ae3046 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -105,6 +105,10 @@ class PagerAction(Callback, Action):
         Callback.update(self)
         Action.update(self)
 
+    # Redraw on reset (the LEDs of the switch might be distributed differently now)
+    def reset(self):
+        self.update_displays()
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
diff --git a/content/lib/pyswitch/clients/local/actions/pager_direct.py b/content/lib/pyswitch/clients/local/actions/pager_direct.py
index 353ad53..165ecbb 100644
--- a/content/lib/pyswitch/clients/local/actions/pager_direct.py
+++ b/content/lib/pyswitch/clients/local/actions/pager_direct.py
@@ -28,6 +28,10 @@ class DirectPagerProxy(Action):
         self.__pager.appl.reset_actions()
         self.__pager.update_displays()
 
+    # Redraw on reset (the LEDs of the switch might be distributed differently now)
+    def reset(self):
+        self.update_displays()
+
     def update_displays(self):
         if not hasattr(self, "switch"):
             return 
-- 
2.43.0


From 6f786575d8721cc02357f9ee9479e519da7b8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 07/83] fix: auto-calibrated pedal values stay in the range
 [0..65535] of transfer functions

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..f92e281 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -99,7 +99,7 @@ class AnalogAction(Updateable):
                     return
                 
                 # Scale the input value up
-                value = int((value - self.__cal_min) * self.__cal_factor)
+                value = min(int((value - self.__cal_min) * self.__cal_factor), 65535)
 
             # Determine the output value to be sent from the (possibly calibrated) input
             # value in range [0..65535]
-- 
2.43.0


From a218f4a4e95cc86696bd14edff7de8b5b4f982e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 08/83] fix: auto-calibrating pedal without minimum window
 crashed on the first reading

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index f92e281..8f8b39f 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -49,6 +49,7 @@ class AnalogAction(Updateable):
         self.__calibrate = auto_calibrate
         self.__cal_min = None
         self.__cal_max = None
+        self.__cal_factor = 1
         self.__cal_min_window = int(65536 * cal_min_window)
 
         self.__min_raw_value = min_raw_value   # store the custom min raw value
-- 
2.43.0


From 9c9e301daf03bb9575fa2568d58faad345a247dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 09/83] fix: encoder position -1 swallowed the following
 movement

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..e62a544 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From c6c9bf3b022e2b07c235e26d6bcafa148340a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 10/83] fix: encoder movements start from the value last
 reported by the device

---
 .../pyswitch/controller/actions/EncoderAction.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index e62a544..f39677d 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -130,7 +130,8 @@ class EncoderAction(Updateable):
             return
 
         # No value yet
-        if self._get_value() == None:
+        value_unknown = (self._get_value() == None)
+        if value_unknown:
             self._set_value(0)
             
         # Get the delta value
@@ -139,11 +140,13 @@ class EncoderAction(Updateable):
 
         self.__last_pos = position
 
-        # Get value to set
-        if not self.__preselect:
-            v = self._get_value() + add_value
+        # Get value to set (starting from the current value, or from the preselected one if any)
+        if self.__preselect and (self.__preselect_active or value_unknown):
+            last_value = self._last_value
         else:
-            v = self._last_value + add_value
+            last_value = self._get_value()
+
+        v = last_value + add_value
 
         if v < self.__min_value:
             v = self.__min_value
@@ -151,7 +154,7 @@ class EncoderAction(Updateable):
             v = self.__max_value
 
         # If changed, set or preview the value
-        if self._last_value != v:
+        if last_value != v:
             self._last_value = v
             
             if not self.__preselect:
-- 
2.43.0


From 73333695da6631187a0dcdbc1a546fbecbcb6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 11/83] fix: bank select encoder crashed when moved before the
 rig is known

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..65dcabc 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From 61c453c868cafb149bf01d24bd89bbfb8a36ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 12/83] fix: encoder movements made while an encoder action is
 disabled are not applied when it gets enabled again

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 5 +++++
 content/lib/pyswitch/controller/inputs.py                | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f39677d..c09afd9 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -108,6 +108,11 @@ class EncoderAction(Updateable):
     def _set_value(self, value):
         self._mapping.value = value
 
+    # Called with the current encoder position while the action is disabled: Movements 
+    # made in the meantime must not be applied later.
+    def skip(self, position):
+        self.__last_pos = int(position * self.__step_width)
+
     # Process the current encoder position
     def process(self, position):
         # Scale by step width
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index b9dc1a4..0ad1731 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -282,6 +282,8 @@ class ContinuousController:
 
         for action in self.actions:
             if not action.enabled:
+                if hasattr(action, "skip"):
+                    action.skip(value)
                 continue
 
             action.process(value)
-- 
2.43.0


From 8157727eb26d98d5a2b04d894fa75ad8e83c8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 13/83] fix: encoder button used to accept one encoder and
 cancel another one did the same for both

---
 .../lib/pyswitch/clients/local/actions/encoder_button.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..c903478 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -22,16 +22,14 @@ class _EncoderButtonCallback(Callback):
         super().__init__()
         
         self.__encoders = []
-        self.__cancel_mode = False
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for (encoder, cancel_mode) in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From e0810cf30e29425f3d15cf8d8152c10bf0a01e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 14/83] fix: labels without callback get their text back after
 a value preview

---
 content/lib/pyswitch/controller/preview.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 465cda6..dead466 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -32,6 +32,7 @@ class ValuePreview:
 
         self.__blink_state = False
         self.__orig_color = label.text_color
+        self.__orig_text = None   # Text before the preview (only used for labels without callback)
 
         self.__clients = None # List of clients to be canceled when another client enters. Each one must have a cancel() method.
 
@@ -54,6 +55,10 @@ class ValuePreview:
 
         self.__stay = stay
 
+        # Labels without a callback cannot restore their text, so we have to remember it
+        if not self.label.override_text or self.label.text != str(self.label.override_text):
+            self.__orig_text = self.label.text
+
         self.label.override_text = text
         self.label.update_label()
 
@@ -124,8 +129,7 @@ class ValuePreview:
             immediately = True
 
         if immediately:
-            self.label.override_text = None
-            self.label.update_label()
+            self.__restore_text()
             self.__period = None
         else:
             self.__period.reset()
@@ -135,8 +139,7 @@ class ValuePreview:
         if self.label.override_text:
             # Free preview display after a period
             if not self.__stay and self.__period and self.__period.exceeded:
-                self.label.override_text = None
-                self.label.update_label()
+                self.__restore_text()
 
             # Blink
             if self.__blink_period and self.__blink_period.exceeded:
@@ -147,3 +150,12 @@ class ValuePreview:
                 else:
                     self.label.text_color = self.__orig_color
 
+    # Ends showing the preview text
+    def __restore_text(self):
+        preview_text = self.label.override_text
+
+        self.label.override_text = None
+        self.label.update_label()
+
+        if preview_text and not self.label.callback and self.label.text == str(preview_text):
+            self.label.text = self.__orig_text
-- 
2.43.0


From 93a64fe54c908a966f4df2c54c4a08e155ae69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 15/83] fix: text color is restored when a blinking preview
 times out or is followed by a steady one

---
 content/lib/pyswitch/controller/preview.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index dead466..8094e35 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -78,7 +78,7 @@ class ValuePreview:
             else:
                 self.__blink_period.interval = blink_interval_millis
         else:
-            self.__blink_period = None
+            self.__stop_blinking()
 
         self.__blink_color = blink_color
 
@@ -120,10 +120,8 @@ class ValuePreview:
 
     # Reset the display label to its default behaviour, either immediately or after the timeout period.
     def reset(self, immediately = False):
-        self.__blink_period = None
         self.__stay = False
-
-        self.label.text_color = self.__orig_color
+        self.__stop_blinking()
 
         if not self.__period:
             immediately = True
@@ -139,6 +137,7 @@ class ValuePreview:
         if self.label.override_text:
             # Free preview display after a period
             if not self.__stay and self.__period and self.__period.exceeded:
+                self.__stop_blinking()
                 self.__restore_text()
 
             # Blink
@@ -159,3 +158,11 @@ class ValuePreview:
 
         if preview_text and not self.label.callback and self.label.text == str(preview_text):
             self.label.text = self.__orig_text
+
+    # Ends blinking (if so) and restores the text color
+    def __stop_blinking(self):
+        if not self.__blink_period:
+            return
+
+        self.__blink_period = None
+        self.label.text_color = self.__orig_color
-- 
2.43.0


From 612f33fed57fdfa4923038fa2768b9762fe17185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 16/83] fix: messages of sources routed to the application and
 to other targets reach all of them

---
 content/lib/pyswitch/controller/midi.py | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..f021a43 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,9 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Messages of sources which are routed both to the application and to other targets, waiting for the application: Tuples (source, message)
+        self.__pending = []
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -70,8 +73,15 @@ class MidiController:
         # Process routings without APPLICATION involved 
         self.__process_external_routings()
 
+        # Messages already received (and distributed to the other targets of their source)
+        if self.__pending:
+            return self.__pending.pop(0)[1]
+
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
+            if self.__has_source(self.__routings_external, r.source):
+                continue
+
             msg = r.source.receive()
 
             if msg:
@@ -92,8 +102,17 @@ class MidiController:
             if r.source in sources:
                 continue
 
+            # Sources which are also routed to the application have to wait until it has taken the last message
+            if [x for x in self.__pending if x[0] == r.source]:
+                continue
+
+            msg = r.source.receive()
+
             sources.append(r.source)
-            results.append(r.source.receive())
+            results.append(msg)
+
+            if msg and self.__has_source(self.__routings_to_appl, r.source):
+                self.__pending.append((r.source, msg))
             
         # Distribute messages
         for r in routings:
@@ -115,3 +134,10 @@ class MidiController:
                 r.target.send(msg)
 
                 break
+
+    # Returns if the source is used by one of the routings
+    def __has_source(self, routings, source):
+        for r in routings:
+            if r.source == source:
+                return True
+        return False
-- 
2.43.0


From c3af47ecfe889df9b900cc4f6fb3e3257f4fb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 17/83] fix: all consumers of a dependent parameter get its
 answer, not just the first one

---
 content/lib/pyswitch/controller/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..dd85d5e 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -237,17 +237,22 @@ class Client: #(ClientRequestListener):
 
     # Listener for dependency mappings
     class _DependencyListener:
-        def __init__(self, client, orig_mapping, listener = None):
+        def __init__(self, client, orig_mapping):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = []
+
+        def add_listener(self, listener):
+            if not listener in self.__listeners:
+                self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -317,7 +322,9 @@ class Client: #(ClientRequestListener):
         
         if mapping.depends:
             if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+                self.__dependencies[mapping] = self._DependencyListener(self, mapping)
+
+            self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From b8357ba8de0f16da52eb781a51ffb005c9616fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 18/83] fix: consumers of dependent parameters are notified
 when the parameter they depend on is lost

---
 content/lib/pyswitch/controller/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index dd85d5e..944475b 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -255,7 +255,11 @@ class Client: #(ClientRequestListener):
                     self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
-            pass
+            self.__last_value = None
+
+            for listener in self.__listeners:
+                if listener:
+                    listener.request_terminated(self.__orig_mapping)
 
     ##########################################################################################################
 
-- 
2.43.0


From 6902cc0299dc8cda9fbe1ebd31bd4ef86c1feb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 19/83] fix: encoder moved after its preselection was cancelled
 while the value is unknown crashed

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index c09afd9..841e4df 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -151,6 +151,10 @@ class EncoderAction(Updateable):
         else:
             last_value = self._get_value()
 
+        # The last value is also unknown if preselection has been cancelled while the value was unknown
+        if last_value == None:
+            last_value = self._get_value()
+
         v = last_value + add_value
 
         if v < self.__min_value:
-- 
2.43.0


From 34ae199d9186407da475e873cfb2b13ba1304639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 20/83] fix: rig up/down crashed when pushed after an invalid
 rig ID has been received

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..a72cc84 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -110,7 +110,8 @@ class _KemperRigChangeCallback(Callback):
         self.__appl = appl
 
     def push(self):
-        if self.__mapping.value == None:
+        # Also ignore rig IDs which do not exist (invalid messages): There is no next rig for them
+        if self.__mapping.value == None or self.__mapping.value >= NUM_RIGS_PER_BANK * NUM_BANKS:
             return
         
         curr_bank = int(self.__mapping.value / NUM_RIGS_PER_BANK)
-- 
2.43.0


From d1ade652ff667bc51712825c60fa27b806c7feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 21/83] fix: after a lost connection, state is requested again
 before going online (changes made in between were never shown)

---
 content/lib/pyswitch/clients/kemper/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..f28b1a3 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -651,6 +651,9 @@ class KemperBidirectionalProtocol: #(BidirectionalProtocol):
             if self.sensing_period.exceeded:
                 self.state = self._STATE_OFFLINE
 
+                # Do not get online again without init: Changes might have been missed in the meantime
+                self.__init_sent = False
+
                 if self.debug:                     # pragma: no cover
                     self.__print("Lost connection")                
 
-- 
2.43.0


From f303c371a0acccede02a40d22a173632ce1a3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 22/83] fix: rig ID displays are cleared when the connection is
 lost

---
 content/lib/pyswitch/controller/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 944475b..add77dd 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -589,10 +589,11 @@ class BidirectionalClient(Client, Updateable):
     def update(self):
         self.protocol.update()
 
-    # Calls request_terminated() on all listeners of requests with bidirectional mappings
+    # Calls request_terminated() on all listeners of requests with bidirectional mappings, and of all others 
+    # which are only received (like the rig ID) and can therefore never time out by themselves
     def notify_connection_lost(self):
         for r in self.requests:
-            if self.protocol.is_bidirectional(r.mapping):
+            if self.protocol.is_bidirectional(r.mapping) or not r.mapping.request:
                 r.notify_terminated()
         
 
-- 
2.43.0


From c9f1cbc4dd9e0cdf4cf4497cd15badd085cc78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:27 +0000
Subject: [PATCH 23/83] fix: bank select display stays empty when the same rig
 is reported again after a lost connection

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..bb5f23b 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -158,6 +158,9 @@ class KemperBankSelectCallback(Callback):
 
     def update_displays(self):
         if self.__mapping.value == None:
+            # Redraw when the value comes back, even if it did not change
+            self.__current_value = -1
+
             if self.action.label:
                 self.action.label.text = ""
                 self.action.label.back_color = dim_color(Colors.WHITE, self.__default_dim_factor_off)
-- 
2.43.0


From 4b79ee0bf952fc58663f2bfa8c7ed759bf10afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 24/83] fix: effect state display depends on the order in which
 type and state are received

---
 .../pyswitch/controller/callbacks/effect_enable.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..455971d 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -33,10 +33,14 @@ class EffectEnableCallback(BinaryParameterCallback):
         self.__current_kpp_type = None
 
     def update_displays(self):
+        was_none = (self.__effect_category == self.CATEGORY_NONE)
         self.__effect_category = self.get_effect_category(self.mapping_fxtype.value) if self.mapping_fxtype.value != None else self.CATEGORY_NONE
         
         if self.__effect_category == self.CATEGORY_NONE:
             self.action.feedback_state(False)
+        elif was_none:
+            # The state might have been received before the type
+            self.evaluate_value(self.mapping.value)
 
         if self.__current_kpp_type == self.mapping_fxtype.value:
             super().update_displays()
@@ -50,6 +54,14 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         super().update_displays()
 
+    # Evaluate a new value. Empty slots are always off.
+    def evaluate_value(self, value):
+        if self.__effect_category == self.CATEGORY_NONE:
+            self.action.feedback_state(False)
+            return
+        
+        super().evaluate_value(value)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 19f1f8a81f971de8e5ad208dc73fac5985b063eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 25/83] fix: rig ID label keeps the last ID when the rig is not
 known anymore

---
 content/lib/pyswitch/clients/kemper/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index f28b1a3..23f8d28 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -133,6 +133,9 @@ class KemperRigNameCallback(Callback):
         elif self.__show_name:
             label.text = name
 
+        else:
+            label.text = ""
+
 
 ####################################################################################################################
 
-- 
2.43.0


From 9fd9996c4a9d7cce38e2eb6f02a188e360a8a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 26/83] fix: LEDs of bank and rig change actions stay dark
 after leaving tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 23f8d28..73758ca 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -238,6 +238,7 @@ class TunerDisplayCallback(Callback):
 
                     for action in input.actions:
                         action.reset()
+                        action.update_displays()
 
     def push(self):
         self.__pushed_before = True
-- 
2.43.0


From 0c49d900f9022056d30521c3def02142a53274d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 27/83] fix: state is requested again when the device
 re-appears before its time lease is over

---
 content/lib/pyswitch/clients/kemper/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 73758ca..6c830b5 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -619,6 +619,7 @@ class KemperBidirectionalProtocol: #(BidirectionalProtocol):
         self.__count_relevant_messages = 0
         self.__has_been_running = False
         self.__init_sent = False
+        self.__repeat_init = False
         
     # Called before usage, with a midi handler.
     def init(self, midi, client):
@@ -661,6 +662,10 @@ class KemperBidirectionalProtocol: #(BidirectionalProtocol):
                 if self.debug:                     # pragma: no cover
                     self.__print("Lost connection")                
 
+            elif self.__repeat_init and self.init_period.exceeded:
+                self.__repeat_init = False
+                self.__send_beacon(init = True)
+
             elif self.resend_period.exceeded:
                 if self.debug:                     # pragma: no cover
                     self.__print("Send keep-alive message")
@@ -698,6 +703,10 @@ class KemperBidirectionalProtocol: #(BidirectionalProtocol):
             if self.debug:                     # pragma: no cover
                self.__print("Connection established")
 
+            # When re-connecting, the last init message might have been lost, too (the device still sends
+            # sensing messages until its time lease is over), so the state has to be requested again
+            self.__repeat_init = self.__has_been_running
+
             self.__has_been_running = True
             self.state = self._STATE_RUNNING
 
-- 
2.43.0


From 468b8dd37325fa90f6846b6016bd48513af18708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 28/83] fix: effect type Dual Chromatic (137) is shown as empty
 slot

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From 0f6736bfb2ad22020eef5b57527dbfc5988ec78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 29/83] fix: dim_factor "on" of bank up/down actions

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From 9e95b9fd493421d034a14f48ab9dffc7ced4e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 30/83] fix: automatic rig and bank off values remember the
 last place that is not selected

---
 .../lib/pyswitch/clients/kemper/actions/rig_select.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..3703aa9 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -235,12 +235,13 @@ class _KemperRigSelectCallback(Callback):
         if self.__mapping.value != self.__current_value:
             self.__current_value = self.__mapping.value
 
-            # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
-                self.__rig_off = curr_rig + 1
+            # Auto rig off: If we are not on the "on" rig, set the current rig (and bank) as "off" rig
+            if not self.state and not (self.__rig_off_auto and self.__auto_exclude_rigs and (curr_rig + 1) in self.__auto_exclude_rigs):
+                if self.__rig_off_auto and self.__rig != None:
+                    self.__rig_off = curr_rig + 1
                 
-            if self.__bank_off_auto and curr_bank != self.__bank - 1:
-                self.__bank_off = curr_bank + 1
+                if self.__bank_off_auto:
+                    self.__bank_off = curr_bank + 1
 
         is_current = self.state
             
-- 
2.43.0


From 398f2efdfb56c35486061cda6f95ecc16acaf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 31/83] fix: target text of rig select with an off bank only

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 3703aa9..1bd2bd2 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -264,8 +264,8 @@ class _KemperRigSelectCallback(Callback):
                     self.action.label.back_color = bank_color if is_current else dim_color(bank_color, self.__default_dim_factor_off) 
 
                     if self.__bank != None:
-                        if is_current and self.__rig_off != None and self.__bank_off != None:
-                            self.action.label.text = self.__get_text(self.__bank_off - 1, self.__rig_off - 1)
+                        if is_current and self.__bank_off != None:
+                            self.action.label.text = self.__get_text(self.__bank_off - 1, (self.__rig_off if self.__rig_off != None else self.__rig) - 1)
                         elif self.__rig != None:
                             self.action.label.text = self.__get_text(self.__bank - 1, self.__rig - 1)
                         else:
-- 
2.43.0


From 5beab7a3d99f039e09559b90cb9d1797af08c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 32/83] fix: bank encoder keeps the rig slot

---
 .../pyswitch/clients/kemper/actions/bank_select_encoder.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 65dcabc..4bb4c58 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -68,7 +68,10 @@ class _BankSelectEncoderAction(EncoderAction):
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        # Keep the current rig inside the bank
+        rig = self._mapping.value % NUM_RIGS_PER_BANK if self._mapping.value != None else 0
+
+        self._mapping.value = value * NUM_RIGS_PER_BANK + rig
 
 
 def _convert_value(value):
-- 
2.43.0


From b38c600b65490e863a67f5fb62eb4986ac5113ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 33/83] fix: rig up/down ends bank preselection

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index a72cc84..9ac3722 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -129,6 +129,10 @@ class _KemperRigChangeCallback(Callback):
         self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)
         self.__appl.client.set(self.__sent_rig_mapping, 1)
         
+        # End preselect display
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
+
         self.__appl.shared["morphStateOverride"] = 0
 
     def release(self):
-- 
2.43.0


From d463e5ea1e419c5092a67d8fad9b26a52d9dc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:04 +0000
Subject: [PATCH 34/83] fix: preselection displays: no drawing of disabled
 actions, one blink rhythm, redraw when preselection ends

---
 .../lib/pyswitch/clients/kemper/__init__.py    | 18 +++++++++---------
 .../clients/kemper/actions/bank_select.py      | 17 +++++++++++++++--
 .../clients/kemper/actions/bank_up_down.py     | 10 +++++++++-
 .../clients/kemper/actions/rig_select.py       | 10 ++++++----
 4 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6c830b5..140c255 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -95,16 +95,16 @@ class KemperRigNameCallback(Callback):
     def update(self):
         super().update()
 
-        if "preselectedBank" in self.__appl.shared:
-            if self.__preselect_initialized != self.__appl.shared["preselectedBank"]:
-                self.__preselect_initialized = self.__appl.shared["preselectedBank"]
+        preselected = self.__appl.shared["preselectedBank"] if "preselectedBank" in self.__appl.shared else None
 
-                if self.__show_name:
-                    self.parameter_changed(self.__mapping_name)
-                elif self.__show_rig_id:
-                    self.parameter_changed(self.__mapping_id)
-        else:
-            self.__preselect_initialized = None
+        # Also redraw after the preselection has ended
+        if self.__preselect_initialized != preselected:
+            self.__preselect_initialized = preselected
+
+            if self.__show_name:
+                self.parameter_changed(self.__mapping_name)
+            elif self.__show_rig_id:
+                self.parameter_changed(self.__mapping_id)
 
     def update_label(self, label):
         if "preselectedBank" in self.__appl.shared:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index bb5f23b..b458403 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -70,6 +70,7 @@ class KemperBankSelectCallback(Callback):
 
         self.__current_value = -1
         self.__last_state = -1
+        self.__last_blink_state = None
         self.__sent_rig_mapping = None
 
         self.__preselect = preselect
@@ -106,9 +107,21 @@ class KemperBankSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
+        if not self.__preselect or not "preselectBlinkState" in self.__appl.shared:
+            return
+
+        # The blink state is toggled by the callback which made the preselection
+        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+
+        # Redraw when the blink state changed, also after preselection has ended
+        bs = None
+        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1:
+            bs = self.__appl.shared["preselectBlinkState"]
+
+        if self.__last_blink_state != bs:
+            self.__last_blink_state = bs
+            self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..7992bc2 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -111,6 +111,7 @@ class KemperBankChangeCallback(Callback):
         self.__text_callback = text_callback
         self.__preselect = preselect
         self.__max_bank = max_bank
+        self.__last_blink_state = None
 
         if preselect:
             self.__preselect_blink_period = PeriodCounter(preselect_blink_interval)
@@ -165,7 +166,14 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+        # Redraw when the preselected bank or the blink state changed, also after preselection has ended
+        bs = None
+        if "preselectedBank" in self.__appl.shared:
+            bs = (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectCallback"] == self and self.__appl.shared["preselectBlinkState"])
+
+        if self.__last_blink_state != bs:
+            self.__last_blink_state = bs
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 1bd2bd2..44073d0 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -210,12 +210,14 @@ class _KemperRigSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
+        # Redraw when the preselected bank or the blink state changed, also after preselection has ended
+        bs = None
         if "preselectedBank" in self.__appl.shared and "preselectBlinkState" in self.__appl.shared:
-            bs = self.__appl.shared["preselectBlinkState"]
+            bs = (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectBlinkState"])
     
-            if self.__last_blink_state != bs:
-                self.__last_blink_state = bs
-                self.update_displays()
+        if self.__last_blink_state != bs:
+            self.__last_blink_state = bs
+            self.action.update_displays()
 
 
     def update_displays(self):
-- 
2.43.0


From 9690edf1f46864503f7bb9d9031e8700dd962b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:48 +0000
Subject: [PATCH 35/83] fix: effect buttons do not draw while they are disabled
 when the rig changes

---
 content/lib/pyswitch/clients/kemper/actions/effect_button.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_button.py b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
index e996010..b5d7e49 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_button.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
@@ -71,7 +71,7 @@ class _KemperEffectButtonCallback(BinaryParameterCallback):
 
         if self.action.state:
             self.action.feedback_state(False)
-            self.update_displays()
+            self.action.update_displays()
 
 
 
-- 
2.43.0


From 13c8919e7729bf01ea55f6b18cc84c5998e1f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 36/83] fix: tempo LED and text are drawn again when the tempo
 action gets enabled

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..3a6dd25 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -98,6 +98,7 @@ class _KemperShowTempoCallback(Callback):
         self.__current_value = None
         self.__last_bpm = None
         self.__last_rig = None
+        self.__redraw_text = False
 
     def push(self):
         pass
@@ -105,6 +106,11 @@ class _KemperShowTempoCallback(Callback):
     def release(self):
         pass
 
+    def reset(self):
+        # Redraw LEDs and text
+        self.__current_value = None
+        self.__redraw_text = True
+
     def update(self):
         super().update()
 
@@ -127,10 +133,14 @@ class _KemperShowTempoCallback(Callback):
         # Text to show
         text = None
         if self.__bpm_mapping and self.__bpm_mapping.value != None:
-            if self.__bpm_mapping.value != self.__last_bpm:
+            changed = (self.__bpm_mapping.value != self.__last_bpm)
+
+            if changed or self.__redraw_text:
                 bpm = convert_bpm(self.__bpm_mapping.value)
                 text = self._text.replace('{bpm}', bpm)
+                self.__redraw_text = False
 
+            if changed:
                 # Show in preview display? Dont do this for the first value that comes in.
                 if self.__preview and self.__last_bpm != None and self.__rig_id_mapping.value == self.__last_rig:
                     self.__preview.preview(
-- 
2.43.0


From aab13c6183c5564c4fcdf4cff6452d5d16038672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:43 +0000
Subject: [PATCH 37/83] fix: a release belongs to whoever got the push, also
 when the tuner mode changed in between

---
 content/lib/pyswitch/controller/inputs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 0ad1731..57d34ae 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -34,6 +34,8 @@ class SwitchController:
 
         self.__appl = appl
         self.__pushed_state = False
+        self.__pushed_override = None      # Override action which got the current push, if any
+        self.__pushed_actions = False      # Did the actions get the current push?
 
         self.__colors = [(0, 0, 0) for i in range(len(self.pixels))]
         self.__brightnesses = array('f', (0 for i in range(len(self.pixels))))
@@ -102,10 +104,11 @@ class SwitchController:
                     self.__hold_active = False
                     self.__hold_was_active = False
                     
-                if self.override_action:
-                    if self.override_action.release():
-                        release()
-                else:
+                # The release belongs to whoever got the push, also if the override has been set or removed in between
+                if self.__pushed_override and self.__pushed_override == self.override_action:
+                    self.override_action.release()
+
+                if self.__pushed_actions:
                     release()
 
             return
@@ -119,8 +122,12 @@ class SwitchController:
         # Mark as pushed (prevents redundant messages in the following ticks, when the switch can still be down)
         self.__pushed_state = True
 
+        self.__pushed_override = self.override_action
+        self.__pushed_actions = True
+
         if self.override_action:
             if not self.override_action.push():
+                self.__pushed_actions = False
                 return
 
         # Process all push actions assigned to the switch     
-- 
2.43.0


From 7a640c85521433bf65a76dcde6b2bd98b84ec91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 38/83] fix: no blink step is lost when displays are redrawn
 while a bank is preselected

---
 .../pyswitch/clients/kemper/actions/bank_select.py   | 12 +++++++++---
 .../pyswitch/clients/kemper/actions/bank_up_down.py  | 12 +++++++++---
 .../pyswitch/clients/kemper/actions/rig_select.py    | 11 ++++++++---
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index b458403..5991d37 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -115,14 +115,17 @@ class KemperBankSelectCallback(Callback):
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
 
         # Redraw when the blink state changed, also after preselection has ended
-        bs = None
-        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1:
-            bs = self.__appl.shared["preselectBlinkState"]
+        bs = self.__get_blink_state()
 
         if self.__last_blink_state != bs:
             self.__last_blink_state = bs
             self.action.update_displays()
 
+    # Blink state shown on the displays (None if the bank is not preselected)
+    def __get_blink_state(self):
+        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1:
+            return self.__appl.shared["preselectBlinkState"]
+
     def push(self):
         if self.__mapping.value == None:
             return
@@ -170,6 +173,9 @@ class KemperBankSelectCallback(Callback):
         self.__sent_rig_mapping = None
 
     def update_displays(self):
+        # Remember what is drawn (this can also be called in between updates)
+        self.__last_blink_state = self.__get_blink_state()
+
         if self.__mapping.value == None:
             # Redraw when the value comes back, even if it did not change
             self.__current_value = -1
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 7992bc2..0e0d6c0 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -167,20 +167,26 @@ class KemperBankChangeCallback(Callback):
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
         # Redraw when the preselected bank or the blink state changed, also after preselection has ended
-        bs = None
-        if "preselectedBank" in self.__appl.shared:
-            bs = (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectCallback"] == self and self.__appl.shared["preselectBlinkState"])
+        bs = self.__get_blink_state()
 
         if self.__last_blink_state != bs:
             self.__last_blink_state = bs
             self.action.update_displays()
 
+    # All preselection data shown on the displays
+    def __get_blink_state(self):
+        if "preselectedBank" in self.__appl.shared:
+            return (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectCallback"] == self and self.__appl.shared["preselectBlinkState"])
+
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
         if self.action.enabled:
             self.update_displays()
 
     def update_displays(self):
+        # Remember what is drawn (this can also be called in between updates)
+        self.__last_blink_state = self.__get_blink_state()
+
         if self.__mapping.value == None:
             if self.action.label:
                 self.action.label.text = self.__text
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 44073d0..ef1a06d 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -211,16 +211,21 @@ class _KemperRigSelectCallback(Callback):
         Callback.update(self)
 
         # Redraw when the preselected bank or the blink state changed, also after preselection has ended
-        bs = None
-        if "preselectedBank" in self.__appl.shared and "preselectBlinkState" in self.__appl.shared:
-            bs = (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectBlinkState"])
+        bs = self.__get_blink_state()
     
         if self.__last_blink_state != bs:
             self.__last_blink_state = bs
             self.action.update_displays()
 
+    # All preselection data shown on the displays
+    def __get_blink_state(self):
+        if "preselectedBank" in self.__appl.shared and "preselectBlinkState" in self.__appl.shared:
+            return (self.__appl.shared["preselectedBank"], self.__appl.shared["preselectBlinkState"])
 
     def update_displays(self):
+        # Remember what is drawn (this can also be called in between updates)
+        self.__last_blink_state = self.__get_blink_state()
+
         if self.__mapping.value == None:
             if self.action.label:
                 self.action.label.text = ""
-- 
2.43.0


From 265c9a8a88a9b61dc98c65002d9e677044248ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 39/83] fix: tuner deviance marker stays inside the display at
 the low end

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..de5b237 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -290,7 +290,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8191, min(int((value - 8192) * self.__zoom), 8192)) + 8191
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From 06aea1cb0fb9693f8ad9761f2e29a8edefcf9189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 40/83] fix: strobe tuner sets all LEDs again when a tuner
 session starts

---
 content/lib/pyswitch/controller/strobe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..4b644a2 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -68,8 +68,9 @@ class StrobeController:
 
         if mapping == self.__mapping_state:
             if value == 1:
-                # Tuner on
+                # Tuner on: Other actions have been using the LEDs since the last frame, so set all of them again
                 self.__enabled = True
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
                 self.__period.reset()
             else:
                 # Tuner off
-- 
2.43.0


From a8709d9a732d98ab03ebda8907ffad964f75d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:07 +0000
Subject: [PATCH 41/83] fix: consumers which join later get the value of a
 dependent parameter, too

---
 content/lib/pyswitch/controller/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index add77dd..ec98f25 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -247,6 +247,9 @@ class Client: #(ClientRequestListener):
             if not listener in self.__listeners:
                 self.__listeners.append(listener)
 
+                # The new listener needs the value, too, even if the dependency does not change anymore
+                self.__last_value = None
+
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
-- 
2.43.0


From 275e14b81fb618ca2db8cfa307af0cb921c9a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:31 +0000
Subject: [PATCH 42/83] fix: virtual Kemper answers and stores unknown string
 parameters as strings

---
 .../clients/kemper/virtual/VirtualKemperParameterDefault.js | 4 ++--
 .../clients/kemper/virtual/VirtualKemperParameters.js       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
index 37f9b05..8e9a9b5 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
@@ -19,7 +19,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Requested an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
 
         // Send parameter value
         newParam.send();
@@ -35,7 +35,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Set an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
         if (!newParam.parse(message)) throw new Error("Failed to create parameter for message: ", message);
 
         return true;
diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
index 92f811e..ab6485f 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
@@ -79,15 +79,15 @@ class VirtualKemperParameters {
     }
 
     /**
-     * Returns the entry of the parameter (if known). Will be created if not present.
+     * Returns the entry of the parameter (if known). Will be created (with the passed default value) if not present.
      */
-    get(key) {
+    get(key, defaultValue = 0) {
         const jsonKey = key.getId();
 
         if (!this.#data.has(jsonKey)) {
             return this.init({ 
                 keys: new VirtualKemperParameterKeys({ send: key }), 
-                value: 0,
+                value: defaultValue,
                 // initiator: "auto"
             });
         }
-- 
2.43.0


From 6cde52005f481481f9a5b5b6fb68b27a90f4c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 43/83] fix: virtual Kemper does not store the null termination
 of strings

---
 .../clients/kemper/virtual/VirtualKemperParameterKeys.js       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterKeys.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterKeys.js
index f806c26..59e49c5 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterKeys.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterKeys.js
@@ -121,7 +121,8 @@ class NRPNKey extends ParameterKey {
                 return data[0] * 128 + data[1];
 
             case "string":
-                return Tools.data2string(data);
+                // Strip the null termination
+                return Tools.data2string(data).split("\0")[0];
 
             default:
                 throw new Error("Invalid value type: " + valueType);
-- 
2.43.0


From dbc0fddd1c6242dd666dfc69803225dec70a6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:17 +0000
Subject: [PATCH 44/83] fix: parameter up/down lost steps when pushed faster
 than the device reports its value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..8688dbd 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -95,14 +95,15 @@ class _ParameterChangeCallback(Callback):
         self.__last_value = -1
 
     def update(self):
-        super().update()
-
         if self.__preview:
             self.__preview.update()
 
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
+        # After repeating, so a requested value does not overwrite the one just set
+        super().update()
+
     def push(self):
         if self._mapping.value is None:
             return
@@ -115,6 +116,7 @@ class _ParameterChangeCallback(Callback):
             v = self._max_value
         
         self.__appl.client.set(self._mapping, v)
+        self._mapping.value = v           # Next step starts from here, even if the device did not report the value yet
 
         if self.__preview:
             self.__preview.preview_mapping(
-- 
2.43.0


From 3dc93a3acfccc06c6ffbb0342d5e10923a6b82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 45/83] fix: parameter up/down kept repeating after release
 when disabled while held

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 8688dbd..d7880d7 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -98,6 +98,10 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+        # Disabled actions do not get the release
+        if self.__pushed and not self.action.enabled:
+            self.__pushed = False
+
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
-- 
2.43.0


From 0355ff824c44c988cb0c0ff296a52753130b251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 46/83] fix: preview text callbacks get the value in mapping
 range as documented

---
 content/lib/pyswitch/controller/preview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 8094e35..ab18858 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -104,7 +104,7 @@ class ValuePreview:
         val = round(value * 100 / max_value)
 
         if text_callback:
-            text = text_callback(val)
+            text = text_callback(value)
         else:
             prefix = f"{ mapping.name }: " if mapping.name else ""
             text = f"{ prefix }{ str(val) }%"
-- 
2.43.0


From adabe72dc4ea7180a27b18eb8e936895a041a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:55 +0000
Subject: [PATCH 47/83] fix: the text color of fixed texts was never shown

---
 content/lib/pyswitch/ui/elements.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index de5b237..410d6ca 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -177,6 +177,15 @@ class DisplayLabel(DisplayElement):
         if self.__label:
             self.__label.color = text_color
 
+    # Alias for text_color (used by actions setting the color of the text)
+    @property
+    def color(self):
+        return self.text_color
+
+    @color.setter
+    def color(self, color):
+        self.text_color = color
+
     @property
     def text(self):
         return self.__layout.text
-- 
2.43.0


From 330ba519b5a866adb4db20fb39b76f6a5b26a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:59 +0000
Subject: [PATCH 48/83] fix: parameter up/down used colors out of range when
 the device's value exceeds max_value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index d7880d7..9c69de7 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -145,6 +145,7 @@ class _ParameterChangeCallback(Callback):
         self.__last_value = self._mapping.value
         
         dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        dim_factor = min(max(dim_factor, 0), 1)   # The device's value can exceed max_value
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From 46e763062b3c1227e8d4b861aebc8dc8a67fc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 49/83] fix: split containers did not lay out children passed
 at construction

---
 content/lib/pyswitch/ui/DisplaySplitContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/ui/DisplaySplitContainer.py b/content/lib/pyswitch/ui/DisplaySplitContainer.py
index 9da85e9..e49152e 100755
--- a/content/lib/pyswitch/ui/DisplaySplitContainer.py
+++ b/content/lib/pyswitch/ui/DisplaySplitContainer.py
@@ -11,6 +11,7 @@ class DisplaySplitContainer(DisplayElement):
         DisplayElement.__init__(self, bounds = bounds, name = name, id = id, children = children)
 
         self.direction = direction        
+        self.update_bounds()
     
     # Add a child element
     def add(self, child):
-- 
2.43.0


From 04b1206b3017521421b88559d059228376be8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:12 +0000
Subject: [PATCH 50/83] fix: labels raised an error when set to multiple
 background colors

---
 content/lib/pyswitch/ui/elements.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 410d6ca..aa4239e 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -98,7 +98,7 @@ class DisplayLabel(DisplayElement):
                 y = self.bounds.y + self.__layout.stroke,
                 width = self.bounds.width - self.__layout.stroke * 2, 
                 height = self.bounds.height - self.__layout.stroke * 2, 
-                fill = self.__layout.back_color
+                fill = self.__single_back_color()
             )
             ui.splash.append(self.__background)
 
@@ -154,7 +154,7 @@ class DisplayLabel(DisplayElement):
         self.__layout.back_color = color
 
         if self.__background:
-            self.__background.fill = color
+            self.__background.fill = self.__single_back_color()
 
         # Update text color, too (might change when no initial color has been set)
         self.text_color = self.__initial_text_color
@@ -222,13 +222,23 @@ class DisplayLabel(DisplayElement):
         else:
             return text
 
+    # Background color to draw: For multiple colors, this is the middle one (like for single LEDs)
+    def __single_back_color(self):
+        color = self.__layout.back_color
+
+        if isinstance(color[0], tuple):
+            return color[len(color) // 2]
+        
+        return color
+
     # Determines a matching text color to the current background color.
     # Algorithm adapted from https://nemecek.be/blog/172/how-to-calculate-contrast-color-in-python
     def __determine_text_color(self):
         if not self.back_color:
             return Colors.WHITE
         
-        luminance = self.back_color[0] * 0.2126 + self.back_color[1] * 0.7151 + self.back_color[2] * 0.0721
+        color = self.__single_back_color()
+        luminance = color[0] * 0.2126 + color[1] * 0.7151 + color[2] * 0.0721
 
         if luminance < 140:
             return Colors.WHITE
-- 
2.43.0


From 92ab2bf0872c03d2142c5f6d77db7bc50fc1f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:05 +0000
Subject: [PATCH 51/83] fix: labels on splashes shown later did not show values
 already known

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 9 +++++++++
 content/lib/pyswitch/ui/elements.py                   | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 9f68186..f2fd173 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -35,6 +35,15 @@ class Callback(Updateable):
 
         self.__initialized = True
 
+    # Returns if any of the mappings already has a value (for example because it has been received 
+    # before the callback was initialized)
+    def has_value(self):
+        for m in self.__mappings:
+            if m.value != None:
+                return True
+            
+        return False
+
     # Reset state
     def reset(self):
         pass                   # pragma: no cover
diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index aa4239e..b96dd01 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -132,6 +132,10 @@ class DisplayLabel(DisplayElement):
 
         super().init(ui, appl)
 
+        # If the value to be shown is already known, show it (it might not be received again)
+        if self.callback and self.callback.has_value():
+            self.update_label()
+
     # Update font according to layout
     def __update_font(self):
         self.__font = self.__ui.font_loader.get(self.__layout.font_path)
-- 
2.43.0


From af5aea2c3530327b67342cd66076109bb239c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 52/83] fix: multi boot script did not start anything when the
 remembered firmware ID was unreadable

---
 examples/Multiboot/Super and Geek (remember last)/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/Multiboot/Super and Geek (remember last)/code.py b/examples/Multiboot/Super and Geek (remember last)/code.py
index 9fbbe6b..8ccf4d8 100755
--- a/examples/Multiboot/Super and Geek (remember last)/code.py	
+++ b/examples/Multiboot/Super and Geek (remember last)/code.py	
@@ -55,7 +55,7 @@ else:
             with open(_FIRMWARE_FILE) as fp:
                 _firmware_id = int(fp.read())
                 del fp    
-    except OSError as ex:
+    except (OSError, ValueError) as ex:
         print(ex)
 
 # Clean up
-- 
2.43.0


From b56357c447af6b2b2e7b6caa91851eda2c4c6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 53/83] fix: configuration parser fails on assignments to
 tuples, attributes or items

---
 web/htdocs/python/parser/misc/AddAssignmentTransformer.py     | 2 +-
 web/htdocs/python/parser/misc/AssignmentExtractor.py          | 3 +++
 web/htdocs/python/parser/misc/AssignmentNameExtractor.py      | 2 +-
 web/htdocs/python/parser/misc/CodeExtractor.py                | 2 +-
 web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py | 3 ++-
 5 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..8be9026 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -34,7 +34,7 @@ class AddAssignmentTransformer(TransformerWithStack):
             assign = updated_node.body[0]
             
             for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
+                if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..61641c3 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -21,6 +21,9 @@ class AssignmentExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 ret.append({
                     "name": target.target.value,
                     "node": assign.value
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..da79258 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -17,7 +17,7 @@ class AssignmentNameExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
-                if target.target.value.startswith("_"):
+                if not isinstance(target.target, libcst.Name) or target.target.value.startswith("_"):
                     continue
 
                 ret.append(target.target.value)
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..2a7e705 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -27,7 +27,7 @@ class CodeExtractor:
 
             assign = statement.body[0]
             for target in assign.targets:
-                if target.target.value != assign_name:
+                if not isinstance(target.target, libcst.Name) or target.target.value != assign_name:
                     continue
 
                 ret = self._parse_node(assign.value)
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..d620bd5 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,4 @@
+import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +13,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From bcd8e183c097774bffc59faaad3394e6c082c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:26 +0000
Subject: [PATCH 54/83] fix: configuration parser garbles dicts with other than
 double quoted string keys

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 2a7e705..43e5de2 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -54,6 +54,10 @@ class CodeExtractor:
             return self._parse_list(node)
 
         # Simple statement
+        return self._code_for_node(node)
+
+    # Returns the source code for a node
+    def _code_for_node(self, node):
         return libcst.parse_module("").code_for_node(node)
 
     def _parse_call(self, call_node):
@@ -92,12 +96,16 @@ class CodeExtractor:
         return new_value
         
     def _parse_dict(self, dict_node):
+        # Only dicts with plain string keys can be represented, all others are kept as code
+        if not all([self._is_plain_key(element) for element in dict_node.elements]):
+            return self._code_for_node(dict_node)
+
         new_value = {
             "arguments": []
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = dict_element.key.evaluated_value
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
@@ -107,6 +115,13 @@ class CodeExtractor:
 
         return new_value
     
+    def _is_plain_key(self, dict_element):
+        if not isinstance(dict_element, libcst.DictElement) or not isinstance(dict_element.key, libcst.SimpleString):
+            return False
+        
+        key = dict_element.key.evaluated_value
+        return isinstance(key, str) and key.isprintable() and not any([char in key for char in ('"', '\\')])
+
     def _parse_list(self, list_node):
         new_value = []
 
-- 
2.43.0


From 179198a8a20f877f986d9089ae2cff691fdf4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:30 +0000
Subject: [PATCH 55/83] fix: configuration parser cannot write back values
 spanning several lines

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 43e5de2..550d34c 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -58,7 +58,16 @@ class CodeExtractor:
 
     # Returns the source code for a node
     def _code_for_node(self, node):
-        return libcst.parse_module("").code_for_node(node)
+        code = libcst.parse_module("").code_for_node(node)
+
+        if "\n" in code:
+            # Expressions spanning several lines need parentheses to be valid on their own
+            try:
+                libcst.parse_expression(code)
+            except libcst.ParserSyntaxError:
+                return "(" + code + ")"
+            
+        return code
 
     def _parse_call(self, call_node):
         new_value = {
-- 
2.43.0


From 61c75444010e7ec8be451b97738f5c0e71af3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:35 +0000
Subject: [PATCH 56/83] fix: configuration parser loses the stars of unpacked
 arguments and list elements

---
 web/htdocs/python/parser/misc/CodeExtractor.py |  4 ++--
 web/htdocs/python/parser/misc/CodeGenerator.py | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 550d34c..bd416b8 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -88,7 +88,7 @@ class CodeExtractor:
 
         for argument in call_node.args:
             new_arg = {
-                "value": self._parse_node(argument.value)
+                "value": argument.star + self._code_for_node(argument.value) if argument.star else self._parse_node(argument.value)
             }
 
             if argument.keyword:
@@ -136,7 +136,7 @@ class CodeExtractor:
 
         for element in list_node.elements:
             new_value.append(
-                self._parse_node(element.value)
+                "*" + self._code_for_node(element.value) if isinstance(element, libcst.StarredElement) else self._parse_node(element.value)
             )
 
         return new_value
diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..514b0cb 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -54,8 +54,8 @@ class CodeGenerator:
 
         return libcst.List(
             elements = [
-                libcst.Element(
-                    value = self._generate(item, level + 1),
+                (libcst.StarredElement if self._get_star(item) else libcst.Element)(
+                    value = self._generate(self._strip_star(item), level + 1),
                     comma = self._generate_whitespaced_node(libcst.Comma, libcst.MaybeSentinel.DEFAULT, level + 1) if format else libcst.MaybeSentinel.DEFAULT
                 )
                 for item in data
@@ -98,7 +98,8 @@ class CodeGenerator:
             args = [
                 libcst.Arg(
                     keyword = libcst.parse_expression(arg["name"]) if ("name" in arg and arg["name"]) else None,
-                    value = self._element_value(arg, level + 1),
+                    star = self._get_star(arg["value"]) if "value" in arg else "",
+                    value = self._element_value({ "value": self._strip_star(arg["value"]) } if "value" in arg else arg, level + 1),
                     whitespace_after_arg = self._generate_parenthesized_whitespace(libcst.SimpleWhitespace(""), (level + 1) if arg != last_arg else level)
                 )
                 for arg in args
@@ -135,6 +136,17 @@ class CodeGenerator:
         
         return level
 
+    # Returns the star(s) of unpacked values (*args, **kwargs)
+    def _get_star(self, value):
+        if not isinstance(value, str) or not value.startswith("*"):
+            return ""
+        
+        return "**" if value.startswith("**") else "*"
+    
+    # Returns the value without star(s)
+    def _strip_star(self, value):
+        return value[len(self._get_star(value)):] if isinstance(value, str) else value
+
     # Returns the value of an element
     def _element_value(self, element, level):
         if "value" in element and element["value"] != None:
-- 
2.43.0


From 33265eb0821837f67981c0dea39f62af36f4537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:37 +0000
Subject: [PATCH 57/83] fix: configuration parser fails for names assigned to
 empty lists

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index 514b0cb..e26b265 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] != None else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 3e9ee58fadb7bdf834a421643196712227084279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:41 +0000
Subject: [PATCH 58/83] fix: configuration parser creates copies for names
 assigned to other names

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index bd416b8..a865a11 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -157,7 +157,10 @@ class CodeExtractor:
                 "assign": assign
             }
         
-        value["assign"] = assign
+        # Names assigned to other names refer to the same object
+        if not "assign" in value:
+            value["assign"] = assign
+
         return value
     
     # Searches for an Assign with the given name and returns its node, or None if not found
-- 
2.43.0


From 7a2dc8fb6517794f18f71aa6e81677703a1bbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:44 +0000
Subject: [PATCH 59/83] fix: configuration parser adds imports inside functions
 or classes

---
 web/htdocs/python/parser/misc/AddImportsTransformer.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..04047bc 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -4,18 +4,12 @@ class AddImportsTransformer(libcst.CSTTransformer):
     
     def __init__(self, import_paths):
         self.import_paths = import_paths
-        self.__done = False
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if self.__done:
-            return updated_node
-        
-        self.__done = True
-        
+    def leave_Module(self, original_node, updated_node):
         new_statements = [
             libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
             for definition in self.import_paths
         ]
 
-        return libcst.FlattenSentinel(new_statements + [updated_node])
+        return updated_node.with_changes(body = new_statements + list(updated_node.body))
         
\ No newline at end of file
-- 
2.43.0


From 0f2eda99c342ee99f25268be616cbd995bfd3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:48 +0000
Subject: [PATCH 60/83] fix: configuration parser drops arbitrary ones of
 several imports of the same name

---
 .../misc/RemoveUnusedImportTransformer.py     | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
index 35b466a..e7ec489 100644
--- a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
+++ b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
@@ -8,16 +8,52 @@ class RemoveUnusedImportTransformer(libcst.CSTTransformer):
 
         self.unused_imports = defaultdict(set)
         
-        imported = []
+        used_imports = defaultdict(list)
         for scope in scopes:
             for assignment in scope.assignments:
                 node = assignment.node
 
                 if isinstance(assignment, libcst.metadata.Assignment) and isinstance(node, (libcst.Import, libcst.ImportFrom)):                    
-                    if len(assignment.references) == 0 or assignment.name in imported:                        
+                    if len(assignment.references) == 0:
                         self.unused_imports[node].add(assignment.name)
                     else:
-                        imported.append(assignment.name)
+                        used_imports[assignment.name].append(node)
+
+        self._find_duplicates(wrapper.module, used_imports)
+
+    # Finds duplicate imports on module level
+    def _find_duplicates(self, module, used_imports):
+        last_imports = {}
+        block = 0
+
+        for statement in module.body:
+            for node in statement.body if isinstance(statement, libcst.SimpleStatementLine) else [statement]:
+                if not isinstance(node, (libcst.Import, libcst.ImportFrom)):
+                    block += 1
+                    continue
+
+                for name in [name for name in used_imports if node in used_imports[name]]:
+                    last = last_imports.get(name)
+
+                    if last and last["block"] == block:
+                        # Overridden before it could have been used
+                        self.unused_imports[last["node"]].add(name)
+                    elif last and self._get_source(last["node"], name) == self._get_source(node, name):
+                        # Same import again
+                        self.unused_imports[node].add(name)
+                        continue
+
+                    last_imports[name] = { "node": node, "block": block }
+
+    # Returns a comparable representation of where a name is imported from
+    def _get_source(self, node, name):
+        for item in node.names:
+            if (item.evaluated_alias or item.evaluated_name) == name:
+                return (
+                    libcst.parse_module("").code_for_node(node.module) if isinstance(node, libcst.ImportFrom) and node.module else None,
+                    item.evaluated_name
+                )
+        return None
 
     def _leave_import_alike(self, original_node, updated_node):
         if original_node not in self.unused_imports:
-- 
2.43.0


From 028c418f02427c5f1f77893eff95e7235645ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:52 +0000
Subject: [PATCH 61/83] fix: editor does not import the hardware definition of
 new inputs if they are imported by name

---
 web/htdocs/python/parser/PySwitchParser.py | 27 +++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 8e3e8bd..b33afca 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -181,7 +181,7 @@ class PySwitchParser:
         ]
 
         # Add all imports
-        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments)
+        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments + self._generate_hardware_imports())
         self.__csts["inputs_py"] = self.__csts["inputs_py"].visit(visitor)
 
     def _add_all_possible_imports_display(self):
@@ -344,6 +344,31 @@ class PySwitchParser:
             }
         ]
     
+    # Generates imports for the hardware definitions used in Inputs (only necessary if they are not all imported using *)
+    def _generate_hardware_imports(self):
+        cst = self.__csts["inputs_py"]
+
+        for statement in cst.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+            
+            if isinstance(statement.body[0], libcst.ImportFrom) and isinstance(statement.body[0].names, libcst.ImportStar):
+                return []
+
+        inputs = InputsExtractor(self, cst).get("Inputs")
+        if not isinstance(inputs, list):
+            return []
+
+        return [
+            {
+                "name": argument["value"],
+                "importPath": self.hw_import_path
+            }
+            for input in inputs if isinstance(input, dict)
+            for argument in input.get("arguments", []) if argument.get("name") == "assignment"
+            if isinstance(argument["value"], str) and argument["value"].isidentifier() and not self._determine_import_statement(argument["value"], cst)
+        ]
+
     # Generates all imports for mappings
     def _generate_mapping_imports(self):
         # Load actions definitions from file
-- 
2.43.0


From fa4fe46255ca9256ba776bca7a8c25105b1d5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:56 +0000
Subject: [PATCH 62/83] fix: editor input handlers deliver outdated hold
 actions or fail after changes

---
 web/htdocs/js/model/parser/ParserInput.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 2d1c46e..66c1b31 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -26,6 +26,9 @@ class ParserInput extends ParserTreeElement {
                 throw new Error("The input is invalid and cannot be reactivated again: " + this.assignment.name);
             }
 
+            this.#actions = null;
+            this.#actionsHold = null;
+
             this.setValid();
             super.checkValid();
         }
@@ -136,6 +139,7 @@ class ParserInput extends ParserTreeElement {
         })
         
         this.#actions = null;
+        this.#actionsHold = null;
         this.setArgument(hold ? "actionsHold" : "actions", prepped);
 
         if (!noUpdate) {
-- 
2.43.0


From 14da406aaa3486e2a8a1ad98b8981f7e67fb62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 63/83] fix: editor fails on lists of actions or pages which
 are assigned to a name

---
 web/htdocs/js/model/parser/ParserInput.js       | 5 ++++-
 web/htdocs/js/model/parser/ParserInputAction.js | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 66c1b31..16e0838 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -93,7 +93,10 @@ class ParserInput extends ParserTreeElement {
         const actions = this.getArgument(hold ? "actionsHold" : "actions");
         if (!actions) return []
 
-        const ret = actions.value
+        // The list can also be assigned to a name
+        const list = Array.isArray(actions.value) ? actions.value : (actions.value.value || []);
+
+        const ret = list
             .filter((item) => item != "None")
             .map((item) => new ParserInputAction(this.parser, this, item));
 
diff --git a/web/htdocs/js/model/parser/ParserInputAction.js b/web/htdocs/js/model/parser/ParserInputAction.js
index c028871..0b38f28 100644
--- a/web/htdocs/js/model/parser/ParserInputAction.js
+++ b/web/htdocs/js/model/parser/ParserInputAction.js
@@ -119,7 +119,10 @@ class ParserInputAction extends ParserTreeElement {
      * Converts the nternal parser raw format to the pages array format used in the UI
      */
     #decodePages(arg) {
-        return arg.value.map((page) => {
+        // The list can also be assigned to a name
+        const pages = Array.isArray(arg.value) ? arg.value : (arg.value.value || []);
+
+        return pages.map((page) => {
             function getPageArg(name) {
                 for (const a of page.arguments) {
                     if (a.name == name) {
-- 
2.43.0


From 589d3c878ecbc4df7300f40f040c845b4cf7a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:48 +0000
Subject: [PATCH 64/83] fix: Offer the rig indices MAPPING_RIG_SELECT expects
 (0 to 4) in the editor

---
 web/htdocs/definitions/meta.json | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/web/htdocs/definitions/meta.json b/web/htdocs/definitions/meta.json
index cb4d8eb..b2ebb32 100644
--- a/web/htdocs/definitions/meta.json
+++ b/web/htdocs/definitions/meta.json
@@ -735,6 +735,20 @@
                 ]
             },
 
+            {
+                "entityName": "MAPPING_RIG_SELECT",
+                "parameters": [
+                    {
+                        "name": "rig",
+                        "type": "int",
+                        "range": {
+                            "min": 0,
+                            "max": 4
+                        }
+                    }
+                ]
+            },
+
             {
                 "entityName": "TunerDisplayCallback",
                 "splashRootParameter": "splash_default",
-- 
2.43.0


From 5affc9b8dbdc82eaf75ea7d51d9d53c250bdde04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:52 +0000
Subject: [PATCH 65/83] fix: Setting a bidirectional mapping nobody listens to
 must not raise

---
 content/lib/pyswitch/controller/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index ec98f25..669cd9b 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -583,7 +583,8 @@ class BidirectionalClient(Client, Updateable):
         if self.protocol.feedback_value(mapping):
             req = self.get_matching_request(mapping)
             if not req:
-                raise Exception() #"No request for mapping: " + repr(mapping))
+                # No listeners
+                return
             
             req.mapping.value = value
             req.notify_listeners()
-- 
2.43.0


From 799efc9b6c230135ca979fcb37862ce02642dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:31 +0000
Subject: [PATCH 66/83] fix: routing queue is not blocked forever by a failed
 callback

---
 web/htdocs/js/routing/CallbackQueue.js | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/js/routing/CallbackQueue.js b/web/htdocs/js/routing/CallbackQueue.js
index c8fe196..db8432b 100644
--- a/web/htdocs/js/routing/CallbackQueue.js
+++ b/web/htdocs/js/routing/CallbackQueue.js
@@ -48,10 +48,16 @@ class CallbackQueue {
 		this.#queue.push({
 			callback: async function(context) {
 				that.#running = true;
-				await callback.call(context);
-				that.#running = false;
+
+				try {
+					await callback.call(context);
+
+				} finally {
+					// Also continue with the queue if the callback failed
+					that.#running = false;
 				
-				that.#trigger();
+					that.#trigger();
+				}
 			},
 			context: context
 		});
-- 
2.43.0


From 99665073a3cc621d212dd900685f9396f9a0bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 67/83] fix: presets and controllers can be opened from the web
 app whatever their name is

---
 web/htdocs/js/Controller.js      | 2 +-
 web/htdocs/js/routing/Routing.js | 6 +++---
 web/htdocs/js/ui/PySwitchUI.js   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/web/htdocs/js/Controller.js b/web/htdocs/js/Controller.js
index 046111a..5b80fdf 100644
--- a/web/htdocs/js/Controller.js
+++ b/web/htdocs/js/Controller.js
@@ -251,6 +251,6 @@ class Controller {
      */
     getControllerUrl(portName) {
         if (!portName) portName = this.device.portName();
-        return encodeURI("controller/" + portName);
+        return "controller/" + encodeURIComponent(portName);
     }
 }
\ No newline at end of file
diff --git a/web/htdocs/js/routing/Routing.js b/web/htdocs/js/routing/Routing.js
index f696284..926ebbc 100644
--- a/web/htdocs/js/routing/Routing.js
+++ b/web/htdocs/js/routing/Routing.js
@@ -50,7 +50,7 @@ class Routing {
 
             // Load controller config
             this.get(/\#controller\/(.*)/, that.#queue.add(that.#executeRoute(async function() {
-                const portName = decodeURI(this.params['splat'][0]);
+                const portName = decodeURIComponent(this.params['splat'][0]);
                 
                 if (portName != "pyswitch-default") {
                     await that.#controller.loadConfiguration(
@@ -81,9 +81,9 @@ class Routing {
 
             // Load/browse preset configs
             this.get(/\#preset\/(.*)/, that.#queue.add(that.#executeRoute(async function() {
-                const id = decodeURI(this.params['splat'][0]);                    
+                const id = decodeURIComponent(this.params['splat'][0]);                    
                 await that.#controller.loadConfiguration(
-                    new PresetConfiguration(that.#controller, decodeURI(id))
+                    new PresetConfiguration(that.#controller, id)
                 );
             })));
 
diff --git a/web/htdocs/js/ui/PySwitchUI.js b/web/htdocs/js/ui/PySwitchUI.js
index 924d4dc..6ae23ca 100644
--- a/web/htdocs/js/ui/PySwitchUI.js
+++ b/web/htdocs/js/ui/PySwitchUI.js
@@ -373,7 +373,7 @@ class PySwitchUI {
                 new LocalPresetsProvider(this.#controller, {
                     onSelect: async function(entry) {
                         // Open existing preset
-                        that.#controller.routing.call(encodeURI("preset/" + entry.value));
+                        that.#controller.routing.call("preset/" + encodeURIComponent(entry.value));
                     }
                 }),
 
@@ -487,7 +487,7 @@ class PySwitchUI {
                         that.#controller.currentConfig.resetDirtyState();
 
                         that.notifications.message("Successfully saved preset " + presetId, "S");
-                        that.#controller.routing.call(encodeURI("preset/" + presetId));
+                        that.#controller.routing.call("preset/" + encodeURIComponent(presetId));
                     }
                 }),
 
-- 
2.43.0


From 0acb6eb549cb52a1e4d2c112110a2fbdd00d34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 68/83] fix: old bridge connection is detached when another
 controller is connected

---
 web/htdocs/js/DeviceController.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/htdocs/js/DeviceController.js b/web/htdocs/js/DeviceController.js
index e419975..4ae4067 100644
--- a/web/htdocs/js/DeviceController.js
+++ b/web/htdocs/js/DeviceController.js
@@ -56,6 +56,9 @@ class DeviceController {
      */
     async connect(portName) {
         if (this.#connection && this.#connection.name == portName) return;   // Already connected to the bridge
+
+        // Detach the old bridge (if any), or it will still receive messages when its port is connected again
+        if (this.#connection) this.bridge.detach(this.#connection.bridge);
         this.#connection = null;
         
         this.#controller.ui.progress(0, "Connecting to controller " + portName);
-- 
2.43.0


From bd59f656c749b4eafdc653cc0ce85626b8415acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 69/83] fix: saving to a controller is successful only when the
 last chunk has been acknowledged

---
 web/htdocs/js/DeviceController.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/js/DeviceController.js b/web/htdocs/js/DeviceController.js
index 4ae4067..7e4394e 100644
--- a/web/htdocs/js/DeviceController.js
+++ b/web/htdocs/js/DeviceController.js
@@ -173,11 +173,12 @@ class DeviceController {
                 if (data.type == "error") return;
 
                 that.#controller.ui.progress((data.chunk + 1) / data.numChunks, "Writing " + data.path); // + ": Writing chunk " + data.chunk + " of " + data.numChunks);
+            };
 
-                if (data.chunk + 1 == data.numChunks) {
-                    // that.#controller.ui.notifications.message("Successfully saved " + data.path, "S");
-                    resolve();
-                }
+            // The last chunk has been acknowledged
+            bridge.onReceiveAck = async function(/*data*/) {
+                // that.#controller.ui.notifications.message("Successfully saved " + data.path, "S");
+                resolve();
             };
 
             bridge.onError = async function(message) {
-- 
2.43.0


From cb21ba7aed46513ce8cf4c6c2eac8af064ec9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 70/83] fix: characters outside of the BMP are not destroyed at
 chunk boundaries when transferring files

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 34 ++++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index adf6c05..100bd5a 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -241,9 +241,7 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(data.length / chunkSize),
-            chunkSize: chunkSize, 
-            message: data,
+            message: this.#splitMessage(data, chunkSize),
             type: JMB_TRANSMISSION_TYPE_FILE
         });
     }
@@ -263,19 +261,40 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(message.length / chunkSize),
-            chunkSize: chunkSize,             
-            message: message,
+            message: this.#splitMessage(message, chunkSize),
             type: transmission_type
         });
     }
 
 
+    /**
+     * Splits the message into chunks of the given size, without separating surrogate pairs (these can only be encoded together)
+     */
+    #splitMessage(message, chunkSize) {
+        const chunks = [];
+        let pos = 0;
+
+        while (pos < message.length) {
+            let end = Math.min(pos + chunkSize, message.length);
+
+            if (end < message.length && message.codePointAt(end - 1) > 0xffff) {
+                end += (end - pos > 1) ? -1 : 1;
+            }
+
+            chunks.push(message.slice(pos, end));
+            pos = end;
+        }
+
+        return chunks;
+    }
+
+
     /**
      * Adds a send transmission definition and sends the start message
      */
     async #startSendTransmission(transmission) {
         transmission.nextChunk = 0;
+        transmission.amountChunks = transmission.message.length;
         transmission.id = this.generateTransmissionId();
 
         this.#cleanupTransmissions();
@@ -295,8 +314,7 @@ class JsMidiBridge {
      */
     async #sendNextChunk(transmission) {
         // Read data        
-        const chunk = transmission.message.slice(0, transmission.chunkSize);
-        transmission.message = transmission.message.slice(transmission.chunkSize);
+        const chunk = transmission.message.length ? transmission.message.shift() : "";
         
         await this.#sendChunk(transmission, chunk);
 
-- 
2.43.0


From 9cede0c4188f546f35145e70785928c4af30696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 71/83] fix: renaming a preset does not overwrite another one

---
 web/htdocs/js/ui/presets/LocalPresetsProvider.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/ui/presets/LocalPresetsProvider.js b/web/htdocs/js/ui/presets/LocalPresetsProvider.js
index c72ea45..faa08e1 100644
--- a/web/htdocs/js/ui/presets/LocalPresetsProvider.js
+++ b/web/htdocs/js/ui/presets/LocalPresetsProvider.js
@@ -68,7 +68,9 @@ class LocalPresetsProvider extends BrowserProvider {
                                 .on('click', async function() {
                                     try {
                                         const newName = prompt("New name for " + entry.text + ":", entry.value);
-                                        if (!newName) return;
+                                        if (!newName || newName == entry.value) return;
+
+                                        if (that.#controller.presets.has(newName)) throw new Error("Preset " + newName + " already exists");
 
                                         const data = that.#controller.presets.get(entry.value);
                                         that.#controller.presets.delete(entry.value);
-- 
2.43.0


From 0aae6de27304efcc0635aae5c6661603cd2b1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 72/83] fix: external changes of local files do not drop
 unsaved changes

---
 web/htdocs/js/model/configurations/LocalFolderConfiguration.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
index fc5d042..74f4f87 100644
--- a/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
+++ b/web/htdocs/js/model/configurations/LocalFolderConfiguration.js
@@ -140,6 +140,8 @@ class LocalFolderConfiguration extends Configuration {
         try {
             const that = this;
             this.#observer = new FileSystemObserver(async (records, observer) => {
+                if (that.isDirty()) return;
+
                 await that.#unobserve();
 
                 try {
-- 
2.43.0


From 9a44bb48df42d3855d4e9c25dbce2ca1ac419f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 73/83] fix: ask before dropping unsaved changes when opening
 another local folder

---
 web/htdocs/js/ui/localfolder/LocalFolderSelection.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/htdocs/js/ui/localfolder/LocalFolderSelection.js b/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
index 1eda2be..87341d4 100644
--- a/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
+++ b/web/htdocs/js/ui/localfolder/LocalFolderSelection.js
@@ -36,6 +36,8 @@ class LocalFolderSelection {
     async call(controller) {
         if (controller.currentConfig instanceof LocalFolderConfiguration) {
             // Already at local folder config
+            if (!controller.ui.confirmIfDirty()) return;
+
             await controller.loadConfiguration(
                 new LocalFolderConfiguration(controller)
             )
-- 
2.43.0


From 8b169af2fba3382a9ca2c65ba4274bdaa81b26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 74/83] fix: stop watching the local folder after saving a copy
 of the configuration there

---
 web/htdocs/js/ui/PySwitchUI.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/htdocs/js/ui/PySwitchUI.js b/web/htdocs/js/ui/PySwitchUI.js
index 6ae23ca..5f81940 100644
--- a/web/htdocs/js/ui/PySwitchUI.js
+++ b/web/htdocs/js/ui/PySwitchUI.js
@@ -513,6 +513,9 @@ class PySwitchUI {
                         dummyConfig.set(data);
                         await dummyConfig.save();
 
+                        // Stop watching the files (this is done by the config which is loaded below)
+                        await dummyConfig.destroy();
+
                         that.#controller.currentConfig.resetDirtyState();
 
                         that.notifications.message("Successfully saved the configuration to the local folder", "S");
-- 
2.43.0


From 0cc916946db5709d585544680faab15bf5391e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:13 +0000
Subject: [PATCH 75/83] fix: emulator does not lose MIDI messages when the
 input buffer is nearly full

---
 web/htdocs/python/wrappers/wrap_adafruit_midi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/wrappers/wrap_adafruit_midi.py b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
index d5c6a66..9845271 100644
--- a/web/htdocs/python/wrappers/wrap_adafruit_midi.py
+++ b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
@@ -5,15 +5,16 @@ class WrapMidiInput:
         if not "midiWrapper" in externalRefs.to_py() or not externalRefs.midiWrapper:
             return None
         
-        cnt = 0
         buf = []
         while len(externalRefs.midiWrapper.messageQueue) > 0:
-            m = externalRefs.midiWrapper.messageQueue.pop(0)
-            msg = list(m)
+            msg = list(externalRefs.midiWrapper.messageQueue[0])
 
-            if cnt + len(msg) > num_bytes:
+            # Messages which do not fit anymore stay in the queue (messages are never split, so the first one is always delivered)
+            if buf and len(buf) + len(msg) > num_bytes:
                 return buf
             
+            externalRefs.midiWrapper.messageQueue.pop(0)
+
             self._monitor(msg)
             buf += msg
 
-- 
2.43.0


From 5dc015863901f27233f14097045c9791cfa73300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:47 +0000
Subject: [PATCH 76/83] Revert the change of an example file (multi boot
 script); the defect is recorded as a known finding instead

---
 examples/Multiboot/Super and Geek (remember last)/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/Multiboot/Super and Geek (remember last)/code.py b/examples/Multiboot/Super and Geek (remember last)/code.py
index 8ccf4d8..9fbbe6b 100755
--- a/examples/Multiboot/Super and Geek (remember last)/code.py	
+++ b/examples/Multiboot/Super and Geek (remember last)/code.py	
@@ -55,7 +55,7 @@ else:
             with open(_FIRMWARE_FILE) as fp:
                 _firmware_id = int(fp.read())
                 del fp    
-    except (OSError, ValueError) as ex:
+    except OSError as ex:
         print(ex)
 
 # Clean up
-- 
2.43.0


From 6174a5160c4492dca9779de7e2735ef03629ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 77/83] fix: label of the request lifetime field in the
 emulator settings

---
 web/htdocs/js/ui/misc/EmulatorSettings.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/js/ui/misc/EmulatorSettings.js b/web/htdocs/js/ui/misc/EmulatorSettings.js
index abe8453..ea39db6 100644
--- a/web/htdocs/js/ui/misc/EmulatorSettings.js
+++ b/web/htdocs/js/ui/misc/EmulatorSettings.js
@@ -139,7 +139,7 @@ class EmulatorSettings extends Tab {
 
             // Max. request lifetime (ms)
             $('<div class="label" />')
-            .text("Max. consecutive MIDI messages"),
+            .text("Max. request lifetime (ms)"),
 
             $('<input type="number" min=1 />')
             .val(this.#controller.configFile.getAttribute("maxRequestLifetimeMillis"))
-- 
2.43.0


From 7a620f9d98508530b738a253b3b3a121d906b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:34 +0000
Subject: [PATCH 78/83] fix: emulator settings ignore inputs which are no
 numbers or MIDI channels

---
 web/htdocs/js/ui/misc/EmulatorSettings.js | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/js/ui/misc/EmulatorSettings.js b/web/htdocs/js/ui/misc/EmulatorSettings.js
index ea39db6..c382bc9 100644
--- a/web/htdocs/js/ui/misc/EmulatorSettings.js
+++ b/web/htdocs/js/ui/misc/EmulatorSettings.js
@@ -349,6 +349,11 @@ class EmulatorSettings extends Tab {
                     } else {
                         value = parseInt(input.val());
                     }
+                    if (isNaN(value)) {
+                        // No number entered: Keep the current value
+                        input.val(this.#controller.configFile.getAttribute(name));
+                        return;
+                    }
                     break;
                 default:
                     value = input.val();
@@ -371,10 +376,18 @@ class EmulatorSettings extends Tab {
                 this.#controller.commSettings.setAttribute(name, value);
             } else {
                 const value = input.val();
-                if (value == "All") {
+                if (name == "inChannel" && value == "All") {
                     this.#controller.commSettings.setAttribute(name, null);
                 } else {
-                    this.#controller.commSettings.setAttribute(name, parseInt(value) - 1);
+                    const channel = parseInt(value) - 1;
+
+                    if (!(channel >= 0 && channel <= 15)) {
+                        // No valid channel entered: Keep the current value
+                        const current = this.#controller.commSettings.getAttribute(name);
+                        input.val((current != null) ? (current + 1) : "All");
+                        return;
+                    }
+                    this.#controller.commSettings.setAttribute(name, channel);
                 }
             }
 
-- 
2.43.0


From 720baa50fd45e4f3d16ee66821d7306278c38bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 79/83] fix: always set debugStatsInterval as shown in the
 emulator settings

---
 web/htdocs/js/model/ConfigFile.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/model/ConfigFile.js b/web/htdocs/js/model/ConfigFile.js
index 9159c7e..e22bf6f 100644
--- a/web/htdocs/js/model/ConfigFile.js
+++ b/web/htdocs/js/model/ConfigFile.js
@@ -35,7 +35,8 @@ class ConfigFile {
      * Get the configuration
      */
     get() {
-        return this.#state.get("config.py") || {}
+        // The firmware has no fixed default for debugStatsInterval, so this is always included
+        return Object.assign({ debugStatsInterval: this.#defaults.debugStatsInterval }, this.#state.get("config.py"));
     }
 
     /**
@@ -83,6 +84,7 @@ class ConfigFile {
          */
         function isDefault(parameter, value) {
             if (!that.#defaults.hasOwnProperty(parameter)) return false;
+            if (parameter == "debugStatsInterval") return false;
             return that.#defaults[parameter] == value;
         }
 
-- 
2.43.0


From fbd660e95d931fab31c369f6291db1f8c8a03323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:07 +0000
Subject: [PATCH 80/83] fix: redraw actions after changing pages back and forth
 within one update interval

---
 content/lib/pyswitch/controller/actions/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index e3c91db..96b5a7a 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -148,6 +148,9 @@ class Action(Updateable):
     
     # Reset the action
     def reset(self):
+        # Redraw on the next update, even if the enabled state has changed back and forth in the meantime
+        self.__last_enabled = -1
+
         if self.callback:
             self.callback.reset()
 
-- 
2.43.0


From 12cec686874c5db3344a0f8f5a89525753fa8f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:49 +0000
Subject: [PATCH 81/83] fix: page changes redraw only those actions which have
 been disabled in between

---
 content/lib/pyswitch/controller/actions/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index 96b5a7a..6f2fd46 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -148,8 +148,9 @@ class Action(Updateable):
     
     # Reset the action
     def reset(self):
-        # Redraw on the next update, even if the enabled state has changed back and forth in the meantime
-        self.__last_enabled = -1
+        # Remember that the action has been disabled, to be redrawn even if it gets enabled again before the next update
+        if not self.enabled:
+            self.__last_enabled = False
 
         if self.callback:
             self.callback.reset()
-- 
2.43.0


From 82d0bd8f70dfb527fd3bff951b2ad7ce7e37ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:21 +0000
Subject: [PATCH 82/83] fix: displays passed by position no longer break the
 checks of the editor

---
 web/htdocs/js/model/parser/ParserChecks.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/js/model/parser/ParserChecks.js b/web/htdocs/js/model/parser/ParserChecks.js
index d6922a4..f2081c3 100644
--- a/web/htdocs/js/model/parser/ParserChecks.js
+++ b/web/htdocs/js/model/parser/ParserChecks.js
@@ -158,7 +158,7 @@ class ParserChecks {
                         if (all) {
                             ret.push(action);
                         } else {
-                            if (!arg.name.includes("preview") && !arg.name.includes("change")) {  // TODO put to Meta
+                            if (!arg.name || (!arg.name.includes("preview") && !arg.name.includes("change"))) {  // TODO put to Meta
                                 ret.push(action);
                             }
                         }
-- 
2.43.0


From e283f302db6a134467013dae9871a914e4ef9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:07 +0000
Subject: [PATCH 83/83] fix: an outdated scan for clients does not override a
 client selected meanwhile

---
 web/htdocs/js/ClientController.js | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/js/ClientController.js b/web/htdocs/js/ClientController.js
index a1b9dcb..abc54b5 100644
--- a/web/htdocs/js/ClientController.js
+++ b/web/htdocs/js/ClientController.js
@@ -4,6 +4,7 @@
 class ClientController {
 
     #controller = null;
+    #initCount = 0;     // Counts initializations: Results of outdated scans are ignored
 
     state = null;
     current = null;     // Name of the currently connected client
@@ -20,10 +21,12 @@ class ClientController {
     async init(config) {
         if (!config) return;
 
+        const initId = ++this.#initCount;
+
         const savedClient = this.state.get("selectedClient");
 
         if (savedClient == "auto" || !savedClient) {
-            await this.#scan(config);
+            await this.#scan(config, initId);
         } else {
             await this.#connect(savedClient);
         }
@@ -32,7 +35,7 @@ class ClientController {
     /**
      * Scans for clients of the given Configuration instance.
      */
-    async #scan(config) {
+    async #scan(config, initId) {
         const that = this;
 
         await this.#controller.midi.scan(
@@ -48,13 +51,21 @@ class ClientController {
                     await attempt.reject();
                 });
 
+                // Meanwhile, something else has been selected
+                if (initId != that.#initCount) return;
+
                 //console.log("Found client: ", connection);
                 await that.#connect(connection.name, config);
             },
 
             // onFailure
             async function() {
-                await that.#connect("virtual-" + (await ClientFactory.estimateClient(config)), config);
+                const clientId = await ClientFactory.estimateClient(config);
+
+                // Meanwhile, something else has been selected
+                if (initId != that.#initCount) return;
+
+                await that.#connect("virtual-" + clientId, config);
             }
         );
     }
-- 
2.43.0

