From 0e77955c0e15e62c32769f01afbae9974b147c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 01/82] fix: do not emit an empty unknown command when a stream
 starts with text

---
 thermal_parser/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..36a0446 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -166,9 +166,6 @@ impl Parser {
                 if new_cmd.is_some() {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
                 }
                 return;
             }
-- 
2.43.0


From 07522532139b368b06fd89226acaeaf79a5ef5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 02/82] fix: finish the last command when the stream ends

---
 thermal_parser/src/command.rs          |  4 ++++
 thermal_parser/src/commands/barcode.rs |  8 ++++++++
 thermal_parser/src/parser.rs           |  2 ++
 thermal_parser/src/subcommands/mod.rs  | 17 +++++++++++++++++
 4 files changed, 31 insertions(+)

diff --git a/thermal_parser/src/command.rs b/thermal_parser/src/command.rs
index a076d6f..5399977 100644
--- a/thermal_parser/src/command.rs
+++ b/thermal_parser/src/command.rs
@@ -209,6 +209,10 @@ pub trait CommandHandler: CloneCommandHandler {
         return false;
     }
 
+    //Called once when no more bytes will be pushed, either because the next
+    //command started or because the stream ended
+    fn finish(&mut self, _command: &mut Vec<u8>) {}
+
     //Returns the subcommand for a command, see subcommand module
     fn get_subcommand(&mut self) -> Option<Command> {
         None
diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..af5d172 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -353,6 +353,14 @@ impl CommandHandler for BarcodeHandler {
             EncodingFunction::Unknown => false,
         };
     }
+
+    /// The terminating NUL is still part of the data when the barcode
+    /// is the last command of the stream
+    fn finish(&mut self, data: &mut Vec<u8>) {
+        if self.encoding == EncodingFunction::NulTerminated && data.last() == Some(&NUL) {
+            data.pop();
+        }
+    }
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 36a0446..9fa1d9b 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -54,6 +54,8 @@ impl Parser {
     }
 
     fn emit_command(&mut self, mut cmd: Command) {
+        cmd.handler.finish(&mut cmd.data);
+
         if cmd.kind == CommandType::Subcommand {
             let command = &mut cmd;
 
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..e2ede81 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -151,6 +151,23 @@ impl CommandHandler for SubCommandHandler {
         false
     }
 
+    //A subcommand at the end of the stream never gets a rejected byte,
+    //so its meta and data have to be settled here
+    fn finish(&mut self, data: &mut Vec<u8>) {
+        let meta_len = if self.is_large { 6 } else { 4 };
+
+        if !self.accept_data && data.len() == meta_len {
+            self.parse_meta(&data[0..meta_len]);
+            data.clear();
+        }
+
+        if let Some(sub) = &mut self.subcommand {
+            if sub.data.is_empty() {
+                mem::swap(&mut sub.data, data);
+            }
+        }
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
-- 
2.43.0


From f1fc9bebda56781c2859e939de6d46f1cc5369f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 03/82] fix: a subcommand length below two must not underflow

---
 thermal_parser/src/subcommands/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index e2ede81..6dde1ff 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -54,7 +54,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +62,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
-- 
2.43.0


From 580c684fea4559f5ca01e9ca05f4ee60461909c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 04/82] fix: keep the bytes of commands that are only partially
 matched

---
 thermal_parser/src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 9fa1d9b..5942733 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -41,6 +41,13 @@ impl Parser {
             self.emit_command(new_cmd_unwrapped);
         }
 
+        //A command that was cut off before it could be matched
+        if !self.command_buffer.is_empty() {
+            let mut unknown_command = self.cmd_set.unknown.clone();
+            unknown_command.data = self.command_buffer.clone();
+            self.emit_command(unknown_command);
+        }
+
         self.emit_command(self.cmd_set.end_parsing.clone());
 
         self.match_depth = 0;
@@ -151,11 +158,15 @@ impl Parser {
                 new_cmd = Some(unknown_command);
             } else if self.current_command_is_default {
                 if let Some(cmd) = &mut self.current_command {
-                    cmd.push(*byte);
+                    for buffered in &self.command_buffer {
+                        cmd.push(*buffered);
+                    }
                 }
             } else {
                 let mut default_command = self.cmd_set.default.clone();
-                default_command.push(*byte);
+                for buffered in &self.command_buffer {
+                    default_command.push(*buffered);
+                }
                 new_cmd = Some(default_command);
             }
 
-- 
2.43.0


From e7d267100b560929f7d1dbda42882d05b00b4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 05/82] fix: out of range 2D code options must not overflow

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs       | 2 +-
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs     | 2 +-
 .../src/subcommands/gs_code2d/pdf417_set_correction_level.rs  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
-- 
2.43.0


From 1a776ad115a49a2de91743c23f8a486358525eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 06/82] fix: motion units finer than a dot must not become zero

---
 thermal_parser/src/commands/set_motion_units.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..5271b12 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,9 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        //A motion unit is never smaller than a dot
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, u8::MAX as u16);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, u8::MAX as u16);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From bc2cf2598ce7e188f13d4706b2953ff0d4ba567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 07/82] fix: graphics definitions with missing parameters must
 not panic

---
 .../subcommands/gs_graphics/define_download_graphics_column.rs  | 1 +
 .../src/subcommands/gs_graphics/define_nv_graphics_column.rs    | 1 +
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..40b6b61 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..ebf7478 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From eb39a6a3b87fd3834cb0f6d39bad28725139edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 08/82] fix: truncated or oversized images must be reported
 instead of panicking

---
 thermal_parser/src/graphics.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..11b438b 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -166,6 +166,11 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
+        //Ensure there are enough bytes for every column
+        if data.len() != column_byte_len(width, height) {
+            return GraphicsCommand::Error("Not enough data to parse column image".into());
+        }
+
         let raster = column_to_bytes(data, width, height);
         Self::image_from_raster_bytes_single_color(
             width, height, stretch, color, flow, &raster, false,
@@ -246,10 +251,10 @@ impl GraphicsCommand {
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        if unpacked.len() != width as usize * height as usize {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                width as usize * height as usize,
                 unpacked.len()
             ));
         }
@@ -407,6 +412,12 @@ fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
     bytes
 }
 
+/// Number of bytes that encode an image in column format, every column
+/// is padded to a whole number of bytes
+fn column_byte_len(width: u32, height: u32) -> usize {
+    width as usize * ((height as usize + 7) / 8)
+}
+
 /// Column format is weird and needs to have some special operations
 /// done on the unpacked bytes to get the image in the correct orientation.
 fn column_to_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-- 
2.43.0


From 879ba2582d574198131dae5cc1336115a83a332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 09/82] fix: a color with a new alpha must keep its blue
 channel

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 11b438b..42e7daa 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From 277936fb2dbbc1ea985beb6e13460d50547a9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 10/82] fix: raster bit image mode 51 is the quadruple size

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From 3c8b7de84777bc411f8f54a4926a226b3578f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 11/82] fix: color number 48 selects no color

---
 thermal_parser/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..313abec 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -117,7 +117,7 @@ pub struct RenderColors {
 impl RenderColors {
     pub fn color_for_number(&self, number: u8) -> &RGBA {
         match number {
-            0 => &self.paper_color,
+            0 | 48 => &self.paper_color,
             1 | 49 => &self.color_1,
             2 | 50 => &self.color_2,
             3 | 51 => &self.color_3,
-- 
2.43.0


From 3fe102982b1b6f865078604f98bc2dae113340c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 12/82] fix: turning double strike off must remove it

---
 thermal_parser/src/commands/set_double_strike.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/thermal_parser/src/commands/set_double_strike.rs b/thermal_parser/src/commands/set_double_strike.rs
index 0ad0e4b..b317177 100644
--- a/thermal_parser/src/commands/set_double_strike.rs
+++ b/thermal_parser/src/commands/set_double_strike.rs
@@ -8,17 +8,12 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
         let enable = (n & 0x00000001) == 1;
-        let mut strike = context.text.strikethrough.clone();
 
-        if enable {
-            strike = TextStrikethrough::Double
-        } else if strike == TextStrikethrough::Double {
-            strike = TextStrikethrough::On
+        context.text.strikethrough = if enable {
+            TextStrikethrough::Double
         } else {
-            strike = TextStrikethrough::Off
-        }
-
-        context.text.strikethrough = strike;
+            TextStrikethrough::Off
+        };
     }
 }
 
-- 
2.43.0


From 8e9ed9975d60cf71849f23f5740cfdc97d7c569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 13/82] fix: out of range scales of buffer graphics must be
 reported

---
 .../subcommands/gs_graphics/store_buffer_graphics_column.rs | 6 ++++++
 .../subcommands/gs_graphics/store_buffer_graphics_raster.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 0f2b39b..5322409 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -20,6 +20,12 @@ impl CommandHandler for Handler {
 
         let stretch = (*bx, *by);
 
+        //Only normal and double size exist
+        if *bx > 2 || *by > 2 {
+            context.graphics.buffer_graphics.push(GraphicsCommand::Error("Scale of buffer graphics is out of range".to_owned()));
+            return;
+        }
+
         let graphics = GraphicsCommand::image_from_column_bytes_single_color(
             width,
             height,
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 759d0ba..4be2399 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -19,6 +19,12 @@ impl CommandHandler for Handler {
         let height = parse_u16(&command.data, 6) as u32;
         let stretch = (*bx, *by);
 
+        //Only normal and double size exist
+        if *bx > 2 || *by > 2 {
+            context.graphics.buffer_graphics.push(GraphicsCommand::Error("Scale of buffer graphics is out of range".to_owned()));
+            return;
+        }
+
         let graphics = GraphicsCommand::image_from_raster_bytes_single_color(
             width,
             height,
-- 
2.43.0


From bb825e9d5d2f8a5a9453fbc0a495d5b27ff48f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/82] fix: EAN13 data with multi byte characters must not
 panic

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index af5d172..8c60a3a 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -189,7 +189,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From 3a19c3ec732ccbdd9ef5740b4c5e16252cbe6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 15/82] fix: UPC-E must reject product codes it can not hold

---
 thermal_parser/src/utils/barcodes/upce.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..3d86929 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,7 +199,7 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From f3e98e6ac8f63700a552c851a49d7351d109b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 16/82] fix: the m parameter is not part of the QR symbol data

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..544dd4d 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        //The first byte is the m parameter, it is not part of the symbol
+        let data = command.data.get(1..).unwrap_or(&[]).to_vec();
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
-- 
2.43.0


From 808c19797ba63a7fbbe14230e57f1816f6705e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 17/82] fix: QR error correction levels are numbered from 48

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From e11aaa1645f054dbd913f7bc9edb601c3701db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 18/82] fix: QR data must be stored in a version which can hold
 it

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 544dd4d..58c56f8 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,6 +2,7 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
+use qr_code::types::QrError;
 use qr_code::{EcLevel, QrCode, Version};
 
 #[derive(Clone)]
@@ -47,11 +48,9 @@ impl CommandHandler for Handler {
         //Minimum number of modules required to encode the binary length
         let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
         
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
+        //Micro codes have a much lower capacity
+        let is_micro = matches!(context.code2d.qr_model, Micro);
+        let first_version = if is_micro { 1 } else { min_modules };
 
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
@@ -60,7 +59,19 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //The minimum version doesn't account for error correction,
+        //higher levels may need a bigger version
+        let mut result = Err(QrError::DataTooLong);
+
+        for v in first_version..=max_modules {
+            let version = if is_micro { Version::Micro(v) } else { Version::Normal(v) };
+
+            result = QrCode::with_version(&data, version, error_correction);
+
+            if result.is_ok() {
+                break;
+            }
+        }
 
         match result {
             Ok(qr) => {
@@ -82,6 +93,8 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                //An older symbol must not be printed in its place
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From a0aa4830cb444ce4d5af90340d28c60cb093f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 19/82] fix: reverse feeding lines must not overflow

---
 thermal_parser/src/context.rs    | 13 +++++++++++++
 thermal_renderer/src/renderer.rs |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 313abec..c502da6 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,19 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    pub fn reverse_newline(&mut self, count: u32) {
+        let distance = self.text.line_spacing as u32 * count;
+        self.reset_x();
+
+        if self.page_mode.enabled {
+            let y = &mut self.page_mode.render_area.y;
+            *y = y.saturating_sub(distance);
+        } else {
+            let y = &mut self.graphics.render_area.y;
+            *y = y.saturating_sub(distance);
+        }
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..386680c 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -255,7 +255,13 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        //Negative lines are fed in reverse
+                        if *num_lines < 0 {
+                            self.context
+                                .reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 132c87bab1efbbee7f9cb0f0be0c9e55321f8501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 20/82] fix: long words must be broken at the print width

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 386680c..01523f2 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -500,7 +500,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 5e50bc48a8be78c5efb0b7d65eaece94e1268524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 21/82] fix: tabs must advance to the next tab position,
 carriage returns take no space

---
 thermal_renderer/src/renderer.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 01523f2..0e6f2b5 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -476,16 +476,24 @@ impl<'a, Output> Renderer<'a, Output> {
                 continue;
             }
 
-            //Tabs have a special behavior
+            //Carriage returns are not printed, line feeds advance the line
+            if word.text.eq("\r") {
+                continue;
+            }
+
+            //Tabs advance to the next tab position
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                let current_x = self
+                    .context
+                    .get_x()
+                    .saturating_sub(self.context.get_base_x());
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    current_tab_pos += *tab_len as u32 * word.character_width;
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-                    current_tab_pos += *tab_len as u32 * word.character_width;
                 }
                 continue;
             }
-- 
2.43.0


From 10967b0a5df062ceec46b9ce7757480e73e3b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 22/82] fix: justified lines must stay inside of the print area

---
 thermal_renderer/src/renderer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 0e6f2b5..6d4b307 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -562,17 +562,21 @@ impl<'a, Output> Renderer<'a, Output> {
 
             let max_width = self.context.get_width();
             let mut max_height = 0;
-            let mut line_width = 0;
+            let mut line_width: u32 = 0;
             let mut line_offset = 0;
 
             for span in line {
-                line_width += span.get_width();
+                //The width includes any space from tabs or absolute positions
+                if let Some(dimensions) = &span.dimensions {
+                    let line_end = dimensions.x + dimensions.w;
+                    line_width = line_width.max(line_end.saturating_sub(self.context.get_base_x()));
+                }
                 max_height = max_height.max(span.character_height);
             }
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From 35821561fd0fe09d57ade23aab45791cd4cd8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 23/82] fix: clipped 2D codes must keep their shape and advance
 past the last row

---
 thermal_renderer/src/renderer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 6d4b307..1b85e9b 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -323,12 +323,8 @@ impl<'a, Output> Renderer<'a, Output> {
                 context.offset_y(code_2d.point_height as u32);
             }
 
-            if *p > 0 {
-                //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
-                }
-
+            //Prevent rendering outside of print area
+            if *p > 0 && context.get_available_width() >= code_2d.point_width as u32 {
                 graphics.push(VectorGraphic::Rectangle(Rectangle {
                     x: context.get_x(),
                     y: context.get_y(),
@@ -340,6 +336,11 @@ impl<'a, Output> Renderer<'a, Output> {
             i += 1;
         }
 
+        //Advance past the last row
+        if !code_2d.points.is_empty() {
+            context.offset_y(code_2d.point_height as u32);
+        }
+
         context.reset_x();
 
         self.renderer.render_graphics(context, &graphics);
-- 
2.43.0


From 71a1db025a0fbf7ac4a5513d9648bca0af5f4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 24/82] fix: rows of multi color images are padded to whole
 bytes

---
 thermal_parser/src/graphics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 42e7daa..e78e88e 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -301,7 +301,8 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            //Every row is padded to a whole number of bytes
+            (((width as usize + 7) / 8) * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From b406d4f6b3eec226c33d827e45f90446eba27a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 25/82] fix: only image layers of the same size can be merged

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index e78e88e..88074dc 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -367,7 +367,7 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 
     //For the moment, we only merge if all images have the same width and height
     for merge_img in layers.iter().skip(1) {
-        if merge_img.w > image.w || merge_img.h > image.h {
+        if merge_img.w != image.w || merge_img.h != image.h {
             return Err("Can't merge image layers with different w and h".into());
         }
 
-- 
2.43.0


From 4a54d53ebb84294b3c5a19f7bac51eb65260b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 26/82] fix: graphics that are defined in column format must be
 decoded as columns

---
 thermal_parser/src/graphics.rs                           | 9 +++++----
 .../gs_graphics/define_download_graphics_column.rs       | 3 +--
 .../subcommands/gs_graphics/define_nv_graphics_column.rs | 3 +--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 88074dc..d21b872 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -196,20 +196,21 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        //One byte for the color followed by the columns
+        let bytes_per_layer = column_byte_len(width, height) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
+        if data.len() != bytes_per_layer * num_colors as usize {
             return GraphicsCommand::Error("Not enough data to parse raster image".into());
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
+        for layer in 0..num_colors as usize {
             let layer_start = layer * bytes_per_layer;
             let color_number = data[layer_start];
             let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
+            let image_data = &data[layer_start + 1..layer_start + bytes_per_layer];
             let raster = column_to_bytes(image_data, width, height);
             let layer = Self::image_from_raster_bytes_single_color(
                 width, height, stretch, color, flow, &raster, false,
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 40b6b61..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index ebf7478..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -30,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From e4bea9485be01fb0faa56829318e7781b61a514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 27/82] fix: pixel data of the wrong size must be reported

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..04d6ae4 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -500,7 +500,7 @@ impl ThermalImage {
         let mut cur_y = y;
 
         //Bad pixel data
-        if width * height < pixels.len() as u32 {
+        if width as usize * height as usize != pixels.len() {
             self.errors
                 .push("Bad pixel data, not enough bytes".to_string());
             return false;
-- 
2.43.0


From f1a92f9a4a974db06a84a8738e424b3f93417ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 28/82] fix: pixels that exceed the height of a fixed canvas
 must be cropped

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 04d6ae4..c16ca45 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From c0a026997782778743f77529799e08f816408f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 29/82] fix: flipping pixels must not grow a fixed canvas

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index c16ca45..6113d11 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -424,6 +424,11 @@ impl ThermalImage {
             return;
         };
 
+        //Fixed canvases can't grow
+        if !self.auto_grow && y + height > self.get_height() {
+            return;
+        }
+
         self.expand_to_height(y + height);
 
         // Vector to store rows
-- 
2.43.0


From 3b99df2e73044a30cca9c31630b8a09705a937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 30/82] fix: page mode areas must keep their place on the page
 in every direction

---
 thermal_parser/src/context.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index c502da6..2285a30 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -263,6 +263,19 @@ impl PageModeContext {
             mem::swap(&mut self.page_area.w, &mut self.page_area.h);
         }
 
+        //Grow the page before translating, directions that start at the
+        //right or bottom of the page are relative to its final size
+        let area_max_width = self.logical_area.x + self.logical_area.w;
+        let area_max_height = self.logical_area.y + self.logical_area.h;
+
+        if should_swap {
+            self.page_area.w = area_max_height.max(self.page_area.w);
+            self.page_area.h = area_max_width.max(self.page_area.h);
+        } else {
+            self.page_area.w = area_max_width.max(self.page_area.w);
+            self.page_area.h = area_max_height.max(self.page_area.h);
+        }
+
         //Translate logical area to render area
         match self.direction {
             PrintDirection::TopLeft2Right => self.translate_top_left_to_right(),
@@ -275,11 +288,8 @@ impl PageModeContext {
         self.page_area.x = self.render_area.x;
         self.page_area.y = self.render_area.y;
 
-        let render_max_width = self.render_area.x + self.render_area.w;
-        let render_max_height = self.render_area.y + self.render_area.h;
-
-        self.page_area.w = render_max_width.max(self.page_area.w);
-        self.page_area.h = render_max_height.max(self.page_area.h);
+        //The page has this direction now, applying again must not rotate again
+        self.previous_direction = self.direction.clone();
 
         (rotation, self.page_area.w, self.page_area.h)
     }
@@ -303,7 +313,7 @@ impl PageModeContext {
         match self.direction {
             PrintDirection::TopLeft2Right => r.x = p.x + x, //g
             PrintDirection::BottomRight2Left => r.x = (p.x + r.w).saturating_sub(x), //g
-            PrintDirection::TopRight2Bottom => r.y = r.h.saturating_sub(x), //?
+            PrintDirection::TopRight2Bottom => r.y = p.y + r.h.saturating_sub(x),
             PrintDirection::BottomLeft2Top => r.y = p.y + x, //g
         }
     }
@@ -368,8 +378,8 @@ impl PageModeContext {
 
         r.w = l.w;
         r.h = l.h;
-        r.y = l.y;
         r.x = p.w.saturating_sub(l.x + l.w);
+        r.y = p.h.saturating_sub(l.y + l.h);
     }
 
     fn translate_top_right_to_bottom(&mut self) {
@@ -379,7 +389,7 @@ impl PageModeContext {
 
         r.w = l.h;
         r.h = l.w;
-        r.x = p.w.saturating_sub(l.y + l.h);
+        r.x = l.y;
         r.y = p.h.saturating_sub(l.x + l.w);
     }
 
-- 
2.43.0


From 129dde88e7299e8cbc98e99daa8ea54f3037743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 31/82] fix: content must stay in place when a page grows

---
 thermal_renderer/src/html_renderer/mod.rs     | 19 +-----
 thermal_renderer/src/image_renderer/mod.rs    | 19 +-----
 .../src/image_renderer/thermal_image.rs       | 63 ++++++++++++++++++-
 3 files changed, 68 insertions(+), 33 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..a453294 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -127,26 +127,13 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
     ) {
-        let img = &mut self.page_image;
-
-        match rotation {
-            Rotation::R90 => img.rotate_90(),
-            Rotation::R180 => img.rotate_180(),
-            Rotation::R270 => img.rotate_270(),
-            _ => {}
-        }
-
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height)
-        }
+        self.page_image
+            .change_page(context, &rotation, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..77455b2 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -90,26 +90,13 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
     ) {
-        let img = &mut self.page_image;
-
-        match rotation {
-            Rotation::R90 => img.rotate_90(),
-            Rotation::R180 => img.rotate_180(),
-            Rotation::R270 => img.rotate_270(),
-            _ => {}
-        }
-
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height);
-        }
+        self.page_image
+            .change_page(context, &rotation, width, height);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 6113d11..0013cd8 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -4,7 +4,7 @@ extern crate png;
 use crate::renderer::DebugProfile;
 use fontdue::layout::CharacterData;
 use std::rc::Rc;
-use thermal_parser::context::Font;
+use thermal_parser::context::{Context, Font, PrintDirection, Rotation};
 use thermal_parser::graphics::{Image, Rectangle, RGBA};
 use thermal_parser::text::TextSpan;
 
@@ -642,6 +642,67 @@ impl ThermalImage {
             .splice(0..0, vec![self.paper_color; (self.width * height) as usize]);
     }
 
+    /// Grows the width to the right, existing pixels stay in place
+    pub fn expand_right(&mut self, new_width: u32) {
+        if new_width <= self.width {
+            return;
+        }
+        let old_width = self.width as usize;
+        let height = self.get_height() as usize;
+        let mut expanded = vec![self.paper_color; new_width as usize * height];
+
+        for y in 0..height {
+            let row = &self.bytes[y * old_width..(y + 1) * old_width];
+            let start = y * new_width as usize;
+            expanded[start..start + old_width].copy_from_slice(row);
+        }
+
+        self.bytes = expanded;
+        self.width = new_width;
+    }
+
+    pub fn rotate(&mut self, rotation: &Rotation) {
+        match rotation {
+            Rotation::R90 => self.rotate_90(),
+            Rotation::R180 => self.rotate_180(),
+            Rotation::R270 => self.rotate_270(),
+            Rotation::R0 => {}
+        }
+    }
+
+    /// Rotates the page to a new direction and grows it to the new size.
+    ///
+    /// The origin of a page is always the top left in the standard direction,
+    /// so pages grow to the right and to the bottom of the standard direction.
+    pub fn change_page(
+        &mut self,
+        context: &Context,
+        rotation: &Rotation,
+        width: u32,
+        height: u32,
+    ) {
+        self.rotate(rotation);
+
+        if width <= self.width && height <= self.get_height() {
+            return;
+        }
+
+        let page = &context.page_mode;
+        let standard = PrintDirection::TopLeft2Right;
+        let to_standard = page.calculate_directional_rotation(&page.direction, &standard);
+        let to_direction = page.calculate_directional_rotation(&standard, &page.direction);
+
+        let (standard_width, standard_height) = match to_standard {
+            Rotation::R90 | Rotation::R270 => (height, width),
+            _ => (width, height),
+        };
+
+        self.rotate(&to_standard);
+        self.expand_right(standard_width);
+        self.expand_to_height(standard_height);
+        self.rotate(&to_direction);
+    }
+
     pub fn expand_to_width(&mut self, new_width: u32) {
         let old_width = self.width;
         if new_width < old_width {
-- 
2.43.0


From 9d69e33b4b2f09ad4df23d76feaae1d8d7cf8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 32/82] fix: a new page must not keep the area of the previous
 page

---
 thermal_parser/src/context.rs    | 14 ++++++++++++++
 thermal_renderer/src/renderer.rs |  1 +
 2 files changed, 15 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2285a30..acdab9a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -294,6 +294,20 @@ impl PageModeContext {
         (rotation, self.page_area.w, self.page_area.h)
     }
 
+    //Every page starts out empty, the print direction is kept
+    pub fn reset_area(&mut self) {
+        let empty = RenderArea {
+            x: 0,
+            y: 0,
+            w: 0,
+            h: 0,
+        };
+        self.logical_area = empty.clone();
+        self.render_area = empty.clone();
+        self.page_area = empty;
+        self.previous_direction = self.direction.clone();
+    }
+
     pub fn set_x(&mut self, x: u32) {
         let r = &mut self.render_area;
         let p = &mut self.page_area;
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 1b85e9b..ba54007 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -271,6 +271,7 @@ impl<'a, Output> Renderer<'a, Output> {
                     }
                     DeviceCommand::BeginPageMode => {
                         self.context.page_mode.enabled = true;
+                        self.context.page_mode.reset_area();
                         self.renderer.page_begin(&mut self.context);
                     }
                     DeviceCommand::EndPageMode => {
-- 
2.43.0


From 6ab64f7f8eda4111dd3fbab811d1b2b728bf08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 33/82] fix: printing a rotated page must advance by its
 printed height

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index acdab9a..cd69a83 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -368,6 +368,15 @@ impl PageModeContext {
         self.render_area.y = new_y as u32;
     }
 
+    //The height of the page when it is printed
+    pub fn standard_page_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     fn should_dimension_swap(direction: &PrintDirection) -> bool {
         match direction {
             PrintDirection::TopLeft2Right | PrintDirection::BottomRight2Left => false,
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index ba54007..972b666 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -282,7 +282,8 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
+                        self.context.graphics.render_area.y +=
+                            self.context.page_mode.standard_page_height();
                         self.context.graphics.render_area.x = 0;
                     }
                     DeviceCommand::ChangePageArea => {
-- 
2.43.0


From f7a35fd2473f77a86441bc46d47903d7b597c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 34/82] fix: page mode areas are clipped to the receipt width

---
 thermal_parser/src/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index cd69a83..283e4b9 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -830,6 +830,11 @@ impl Context {
             .h
             .saturating_div(self.graphics.v_motion_unit as u32);
 
+        //Clip to the max receipt width
+        let max_width = self.graphics.render_area.w;
+        adj_area.x = adj_area.x.min(max_width);
+        adj_area.w = adj_area.w.min(max_width - adj_area.x);
+
         self.page_mode.logical_area = adj_area;
     }
 
-- 
2.43.0


From 6b995da9bbd6b3e3e67b7fa2236005e2e9722d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 35/82] fix: a form feed must start a new document

---
 thermal_parser/src/commands/formfeed.rs    | 5 +++--
 thermal_parser/src/context.rs              | 7 +++++++
 thermal_renderer/src/image_renderer/mod.rs | 4 ++++
 thermal_renderer/src/renderer.rs           | 1 +
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/formfeed.rs b/thermal_parser/src/commands/formfeed.rs
index 9972471..f873e19 100644
--- a/thermal_parser/src/commands/formfeed.rs
+++ b/thermal_parser/src/commands/formfeed.rs
@@ -1,4 +1,4 @@
-use crate::command::DeviceCommand::{EndPageMode, EndPrint, PrintPageMode};
+use crate::command::DeviceCommand::{BeginPrint, EndPageMode, EndPrint, PrintPageMode};
 use crate::{command::*, constants::*, context::*};
 
 #[derive(Clone)]
@@ -14,7 +14,8 @@ impl CommandHandler for Handler {
         if context.page_mode.enabled {
             return Some(vec![EndPageMode, PrintPageMode]);
         }
-        Some(vec![EndPrint])
+        //Anything that follows is printed on a new document
+        Some(vec![EndPrint, BeginPrint])
     }
 }
 
diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 283e4b9..beea0f1 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -620,6 +620,13 @@ impl Context {
         }
     }
 
+    //Every document starts at the top of the paper
+    pub fn reset_render_area(&mut self) {
+        if let Some(default) = &self.default {
+            self.graphics.render_area = default.graphics.render_area.clone();
+        }
+    }
+
     pub fn font_size_pixels(&self) -> u32 {
         //1 point = 72 pixels
         let pixels_per_point = self.graphics.dots_per_inch as f32 / 96f32;
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 77455b2..768d755 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -66,6 +66,10 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
     }
 
     fn begin_render(&mut self, context: &mut Context) {
+        //Errors belong to a single document
+        self.paper_image.errors.clear();
+        self.page_image.errors.clear();
+
         self.paper_image.debug_profile = self.debug_profile;
         self.page_image.debug_profile = self.debug_profile;
         self.paper_image.paper_color = context.graphics.render_colors.paper_color;
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 972b666..f3f0799 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -241,6 +241,7 @@ impl<'a, Output> Renderer<'a, Output> {
                     }
                     DeviceCommand::BeginPrint => {
                         //Start the render at two newlines worth of height
+                        self.context.reset_render_area();
                         self.context.newline(2);
                         self.renderer.begin_render(&mut self.context)
                     }
-- 
2.43.0


From f2499ee7efa799bfab5b6c60c8ab3f56af34c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 36/82] fix: initialize must keep the paper position and NV
 graphics

---
 thermal_parser/src/context.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index beea0f1..edb806a 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -1,6 +1,6 @@
 use crate::decoder::{get_codepage, Codepage};
 use crate::graphics;
-use crate::graphics::{GraphicsCommand, ImageRef, RGBA};
+use crate::graphics::{GraphicsCommand, ImageRef, ImageRefStorage, RGBA};
 use crate::text::TextSpan;
 use std::collections::HashMap;
 use std::mem;
@@ -616,7 +616,17 @@ impl Context {
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
-            self.graphics = default.graphics.clone();
+            self.page_mode = default.page_mode.clone();
+
+            //Graphics that were already printed stay on the paper and
+            //graphics in non volatile memory are kept
+            let mut graphics = default.graphics.clone();
+            graphics.render_area = self.graphics.render_area.clone();
+            graphics.stored_graphics = mem::take(&mut self.graphics.stored_graphics);
+            graphics
+                .stored_graphics
+                .retain(|image_ref, _| image_ref.storage == ImageRefStorage::Disc);
+            self.graphics = graphics;
         }
     }
 
-- 
2.43.0


From a33865bf7d7d9352ea6173d04fe4325296be57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 37/82] fix: printed text must be escaped in html

---
 .../src/html_renderer/thermal_html.rs         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..8460e29 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,29 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+/// Text must never be interpreted as html
+fn escape_html(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From 899b6b891af25ea5e5ef3e46f6e4a0c501afc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 38/82] fix: template placeholders in printed text must not be
 replaced

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index a453294..8aa8fae 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -246,7 +246,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -256,7 +255,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            //Content goes last so that placeholders in printed text are not replaced
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From faef559043c37940b2b7c8328033121a517f408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 39/82] fix: html rows must be placed at their position on the
 paper

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 8aa8fae..0b14571 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -84,7 +84,8 @@ impl HtmlRenderer {
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-            row.y.saturating_sub(self.last_y),
+            //Negative when the row starts above the end of the previous row
+            row.y as i64 - self.last_y as i64,
             row.content
         ));
         self.last_y = row.y + row.height;
@@ -111,7 +112,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
-- 
2.43.0


From f147ed8d7ab49e45cba6801055886e73d7846360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 40/82] fix: empty images and graphics must not be rendered to
 html

---
 thermal_renderer/src/html_renderer/mod.rs          | 5 +++++
 thermal_renderer/src/html_renderer/thermal_html.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 0b14571..8390d49 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -81,6 +81,11 @@ impl HtmlRenderer {
     }
 
     fn push_row(&mut self, row: HtmlRow) {
+        //Rows without content have no position on the paper
+        if row.content.is_empty() && row.y == 0 && row.height == 0 {
+            return;
+        }
+
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 8460e29..fe854c2 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,11 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    //Images without pixels can't be encoded as png
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow::empty();
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From 38ea27894eaacc34fe90e7b24f2b4ce3e2c4d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 41/82] fix: drawing the debug border of an empty image must
 not panic

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 0013cd8..5257b3f 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -187,6 +187,10 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From e5234af02637c806339bbf78952797f686e37e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 42/82] fix: text must survive the conversion to the thermal
 file format

---
 thermal_parser/src/thermal_file.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..43a78b1 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -36,7 +36,6 @@
 //!
 //! ```
 use crate::command::{Command, CommandType};
-use crate::constants;
 use crate::constants::*;
 
 pub static COMMENT_PREFIX: &str = "'//";
@@ -210,12 +209,26 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
     let (commands,data) = cmd.handler.get_command_bytes(&cmd);
 
     if cmd.kind == CommandType::Text {
-        if commands.len() > 0 && commands[0] == constants::LF {
-            return "LF \n".to_string();
+        //Line feed, carriage return and tab
+        if let Some(control) = commands.first() {
+            return format!("{} \n", try_const(control));
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        return match String::from_utf8(data) {
+            Ok(text) => {
+                let escaped = text.replace('\\', "\\\\").replace('"', "\\\"");
+                format!("\"{}\"\n", escaped)
+            }
+            //Text that uses a code page can't be expressed as a string
+            Err(error) => {
+                let hex: Vec<String> = error
+                    .as_bytes()
+                    .iter()
+                    .map(|byte| format!("0x{:02X}", byte))
+                    .collect();
+                format!("{}\n", hex.join(" "))
+            }
+        };
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
@@ -255,6 +268,8 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
 
 pub fn try_const(byte: &u8) -> String {
     match byte {
+        0x09 => "HT".to_string(),
+        0x0A => "LF".to_string(),
         0x1B => "ESC".to_string(),
         0x1D => "GS".to_string(),
         0x1C => "FS".to_string(),
-- 
2.43.0


From 7b2907f3a176a29fe6c1b05a719adf4a9c89b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 43/82] fix: unknown subcommands must be reported as unknown
 commands

---
 thermal_parser/src/parser.rs          |  8 ++++++++
 thermal_parser/src/subcommands/mod.rs | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 5942733..a3289c6 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -80,6 +80,14 @@ impl Parser {
                 subcommand.commands = Rc::new(expanded_cmds);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //Subcommands that are not known must not be lost
+                let (mut bytes, data) = command.handler.get_command_bytes(command);
+                bytes.extend(data);
+
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = bytes;
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 6dde1ff..dc38534 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -18,6 +18,7 @@ pub struct SubCommandHandler {
     capacity: u32,
     accept_data: bool,
     use_m: bool,
+    meta: Vec<u8>,
 }
 
 impl SubCommandHandler {
@@ -79,6 +80,7 @@ impl SubCommandHandler {
             sub.commands = Rc::new(data.to_vec());
         }
 
+        self.meta = data.to_vec();
         self.accept_data = true;
     }
 }
@@ -168,6 +170,13 @@ impl CommandHandler for SubCommandHandler {
         }
     }
 
+    //The meta bytes are not part of the data
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut data = self.meta.clone();
+        data.extend(&command.data);
+        (command.commands.to_vec(), data)
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -186,6 +195,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         capacity: 0,
         accept_data: false,
         use_m,
+        meta: vec![],
     })
 }
 
-- 
2.43.0


From a57f21940a9c4fdaa1cfe39e93a2bc2a30ccd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 44/82] fix: a barcode without a terminator must not gain one
 when converted

---
 thermal_parser/src/commands/barcode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 8c60a3a..2604314 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -52,6 +52,7 @@ struct BarcodeHandler {
     has_capacity: bool,
     accept_data: bool,
     raw_params: Vec<u8>,
+    terminated: bool,
 }
 
 impl BarcodeHandler {
@@ -279,7 +280,7 @@ impl CommandHandler for BarcodeHandler {
         params.extend(self.raw_params.clone());
         let mut data = command.data.to_vec();
 
-        if self.encoding == EncodingFunction::NulTerminated {
+        if self.terminated {
             data.push(NUL);
         }
 
@@ -333,6 +334,7 @@ impl CommandHandler for BarcodeHandler {
             EncodingFunction::NulTerminated => {
                 if *data.last().unwrap_or(&0x01) == NUL {
                     data.pop();
+                    self.terminated = true;
                     return false;
                 }
                 data.push(byte);
@@ -359,6 +361,7 @@ impl CommandHandler for BarcodeHandler {
     fn finish(&mut self, data: &mut Vec<u8>) {
         if self.encoding == EncodingFunction::NulTerminated && data.last() == Some(&NUL) {
             data.pop();
+            self.terminated = true;
         }
     }
 }
@@ -377,6 +380,7 @@ pub fn new() -> Command {
             has_capacity: false,
             accept_data: false,
             raw_params: vec![],
+            terminated: false,
         }),
     )
 }
-- 
2.43.0


From 261adb3e2bd593329b78354d3fa2672c37432a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 45/82] fix: tokens that are directly followed by a quoted
 string must not be lost

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index 43a78b1..65cf1f7 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -154,6 +154,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
 
         //Start gobbling quoted string
         if c == '"' {
+            //A token can be directly followed by a quoted string
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1]);
+            }
+
             gobble_quoted = true;
             esc_quoted = false;
 
-- 
2.43.0


From 01fe968fabb56d7a793ad666497e7241d8f4217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 46/82] fix: code 128 function characters and braces must be
 encoded

---
 thermal_parser/src/commands/barcode.rs | 49 ++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 2604314..15c17ff 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -112,6 +112,48 @@ impl BarcodeHandler {
     }
 }
 
+/// Converts the two byte code sets and special characters of ESC/POS
+/// into the barcoders format. Also returns the human readable text.
+fn convert_code128_data(data: &str) -> (String, String) {
+    let mut adjusted = String::with_capacity(data.len());
+    let mut hri = String::with_capacity(data.len());
+    let mut chars = data.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        if c != '{' {
+            adjusted.push(c);
+            hri.push(c);
+            continue;
+        }
+
+        let special = match chars.peek() {
+            Some('A') => 'À',
+            Some('B') => 'Ɓ',
+            Some('C') => 'Ć',
+            //Function characters
+            Some('1') => 'Ź',
+            Some('2') => 'ź',
+            Some('3') => 'Ż',
+            Some('4') => 'ż',
+            //Two braces are one brace in the data
+            Some('{') => {
+                hri.push('{');
+                '{'
+            }
+            _ => {
+                adjusted.push(c);
+                hri.push(c);
+                continue;
+            }
+        };
+
+        adjusted.push(special);
+        chars.next();
+    }
+
+    (adjusted, hri)
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -128,12 +170,7 @@ impl CommandHandler for BarcodeHandler {
         match self.kind {
             BarcodeType::Code128 => {
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
-                let adjusted_data = data
-                    .replace("{A", "À")
-                    .replace("{B", "Ɓ")
-                    .replace("{C", "Ć");
-
-                let hri_data: String = data.replace("{A", "").replace("{B", "").replace("{C", "");
+                let (adjusted_data, hri_data) = convert_code128_data(data);
 
                 return match Code128::new(adjusted_data.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From 35abf4c01100eb06b5dc57f6ad461144e0f989aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 47/82] fix: the data matrix width belongs to the data matrix
 functions

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From 0f465882fc64f228d57203dd554ea0d6e0e85cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 48/82] fix: code pages 850 and 865 must use their own
 characters

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From 78f3f7ffd21a96d73294b0e3f941860aec38f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 49/82] fix: the french and german character sets must match
 their standards

---
 thermal_parser/src/decoder/international.rs | 24 ++++++++++-----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index 0fa3ac7..bae943d 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -6,15 +6,13 @@ pub static FRANCE: Language = (
     "French",
     &[
         (0x40, "à"),
-        (0x5B, "ç"),
-        (0x5C, "§"),
-        (0x5D, "^"),
-        (0x5E, "é"),
-        (0x60, "ù"),
-        (0x7B, "è"),
-        (0x7C, "¨"),
-        (0x7D, "û"),
-        (0x7E, "ü"),
+        (0x5B, "°"),
+        (0x5C, "ç"),
+        (0x5D, "§"),
+        (0x7B, "é"),
+        (0x7C, "ù"),
+        (0x7D, "è"),
+        (0x7E, "¨"),
     ],
 );
 
@@ -25,10 +23,10 @@ pub static GERMANY: Language = (
         (0x5B, "Ä"),
         (0x5C, "Ö"),
         (0x5D, "Ü"),
-        (0x60, "ä"),
-        (0x7B, "ö"),
-        (0x7C, "ü"),
-        (0x7D, "ß"),
+        (0x7B, "ä"),
+        (0x7C, "ö"),
+        (0x7D, "ü"),
+        (0x7E, "ß"),
     ],
 );
 
-- 
2.43.0


From f08b3f2a373ffe049bac90f96b4815b87fc3732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 50/82] fix: commands without effect do not split a line of
 text

---
 thermal_renderer/src/renderer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index f3f0799..bc49a04 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -146,7 +146,6 @@ impl<'a, Output> Renderer<'a, Output> {
     fn process_command(&mut self, command: &Command) {
         match command.kind {
             CommandType::Unknown => {
-                self.process_text();
                 self.log_error(
                     RenderErrorKind::UnknownCommand,
                     command.handler.debug(command, &self.context),
@@ -206,7 +205,11 @@ impl<'a, Output> Renderer<'a, Output> {
                 let device_commands = &command
                     .handler
                     .get_device_command(command, &mut self.context);
-                self.process_text();
+
+                //Commands that do nothing must not split a line of text
+                if device_commands.is_some() {
+                    self.process_text();
+                }
                 self.process_device_commands(device_commands);
             }
             //This is a ContextControl but with the additional
-- 
2.43.0


From f3cda14552028eabd5129ddcdf6c065e5158d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 51/82] fix: html bar codes and qr codes use the selected color

---
 thermal_renderer/src/html_renderer/mod.rs          |  2 +-
 thermal_renderer/src/html_renderer/thermal_html.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 8390d49..f8f15c6 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -194,7 +194,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 }
             }
         } else {
-            self.push_row(graphics_to_svg(graphics));
+            self.push_row(graphics_to_svg(graphics, &context.text.color));
         }
     }
 
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index fe854c2..91f5059 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -38,7 +38,7 @@ pub fn encode_html_image(image: &Image) -> HtmlRow {
     }
 }
 
-pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
+pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>, color: &RGBA) -> HtmlRow {
     if graphics.is_empty() {
         return HtmlRow::empty();
     }
@@ -67,8 +67,12 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
                 height = height.max(y + rectangle.h);
 
                 svg.push(format!(
-                    "<rect width='{}' height='{}' x='{}' y='{}' fill='black' />",
-                    rectangle.w, rectangle.h, x, y
+                    "<rect width='{}' height='{}' x='{}' y='{}' fill='{}' />",
+                    rectangle.w,
+                    rectangle.h,
+                    x,
+                    y,
+                    color.as_hex()
                 ));
             }
         }
-- 
2.43.0


From e5b0d2876eccf2d29f6630826d426eed89bfd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 52/82] fix: a word moved to the next line does not make the
 line before taller

---
 thermal_renderer/src/renderer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index bc49a04..d34bcc7 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -521,8 +521,13 @@ impl<'a, Output> Renderer<'a, Output> {
                 let broken_len = broken.len() - 1;
                 for (i, broke) in broken.iter_mut().enumerate() {
                     let last = broken_len == i;
-                    broke.get_dimensions(&self.context);
-                    current_line.push(broke.clone()); //ugg
+
+                    //The first part is empty when there is no room left in the line,
+                    //it must not make that line any taller
+                    if !broke.text.is_empty() {
+                        broke.get_dimensions(&self.context);
+                        current_line.push(broke.clone()); //ugg
+                    }
 
                     if last {
                         //Last word doesn't geta a forced newline
-- 
2.43.0


From 78dd8659e97c7f4565c22bd1fd9c58fc6ddb5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 53/82] fix: the print mode underlines with its highest bit

---
 thermal_parser/src/commands/set_print_mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_print_mode.rs b/thermal_parser/src/commands/set_print_mode.rs
index 076aecc..95a1f02 100644
--- a/thermal_parser/src/commands/set_print_mode.rs
+++ b/thermal_parser/src/commands/set_print_mode.rs
@@ -5,7 +5,7 @@ struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         context.set_font(if font_b { Font::B } else { Font::A });
@@ -22,7 +22,7 @@ impl CommandHandler for Handler {
     fn debug(&self, command: &Command, _context: &Context) -> String {
         let mut changes = vec![];
 
-        let (font_b, _, _, bold, tall, wide, underline, _) =
+        let (font_b, _, _, bold, tall, wide, _, underline) =
             bitflags_lsb(command.data.get(0).unwrap_or(&0u8));
 
         changes.push(if font_b { "Font B" } else { "Font A" });
-- 
2.43.0


From 777ebfc7b2f31f90d5d33475e3094ac1c444b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 54/82] fix: the lowest bit of the black white invert parameter
 turns it on

---
 thermal_parser/src/commands/set_black_white_invert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..b08e17f 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,7 +7,9 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        if n == 1 {
+        let invert = (n & 1) == 1;
+
+        if invert {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +17,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = invert;
     }
 }
 
-- 
2.43.0


From f6d22dca0c4caee0b7d722bb8676b927236244f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 55/82] fix: UPC-A must be encoded with its own number system
 digit and check digit

---
 thermal_parser/src/commands/barcode.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 15c17ff..016656c 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -112,6 +112,16 @@ impl BarcodeHandler {
     }
 }
 
+/// The digits of a product number without the check digit that can follow,
+/// the check digit is always calculated. Data which isn't a number is not
+/// changed, it has to be rejected as a whole.
+fn product_digits(data: &str, len: usize) -> &str {
+    if data.len() > len && data.bytes().all(|byte| byte.is_ascii_digit()) {
+        return &data[..len];
+    }
+    data
+}
+
 /// Converts the two byte code sets and special characters of ESC/POS
 /// into the barcoders format. Also returns the human readable text.
 fn convert_code128_data(data: &str) -> (String, String) {
@@ -227,8 +237,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = data.get(..12).unwrap_or(data);
-                return match EAN13::new(data_sp.to_string()) {
+                return match EAN13::new(product_digits(data, 12).to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
@@ -240,7 +249,10 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //UPC A is EAN 13 with a leading zero, the check digit is
+                //the last one and gets calculated
+                let upca = format!("0{}", product_digits(data, 11));
+                return match UPCA::new(upca) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From 3ad4dd10b7e3b16bb82c4629c612e80a3df1443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 56/82] fix: Codabar characters B, C and + have the wrong bars

---
 thermal_parser/src/commands/barcode.rs       |  2 +-
 thermal_parser/src/utils/barcodes/codabar.rs | 61 ++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs     |  3 +-
 3 files changed, 64 insertions(+), 2 deletions(-)
 create mode 100644 thermal_parser/src/utils/barcodes/codabar.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 016656c..4cb1a02 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -3,7 +3,6 @@ extern crate barcoders;
 use std::cmp::PartialEq;
 use std::str::from_utf8;
 
-use barcoders::sym::codabar::Codabar;
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
 use barcoders::sym::code93::Code93;
@@ -13,6 +12,7 @@ use barcoders::sym::ean8::EAN8;
 use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
+use crate::utils::barcodes::codabar::Codabar;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
 
diff --git a/thermal_parser/src/utils/barcodes/codabar.rs b/thermal_parser/src/utils/barcodes/codabar.rs
new file mode 100644
index 0000000..0d15e14
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/codabar.rs
@@ -0,0 +1,61 @@
+/// Characters and which of their seven elements (bars and spaces in turn) are wide
+const CHARS: [(char, [u8; 7]); 20] = [
+    ('0', [0, 0, 0, 0, 0, 1, 1]),
+    ('1', [0, 0, 0, 0, 1, 1, 0]),
+    ('2', [0, 0, 0, 1, 0, 0, 1]),
+    ('3', [1, 1, 0, 0, 0, 0, 0]),
+    ('4', [0, 0, 1, 0, 0, 1, 0]),
+    ('5', [1, 0, 0, 0, 0, 1, 0]),
+    ('6', [0, 1, 0, 0, 0, 0, 1]),
+    ('7', [0, 1, 0, 0, 1, 0, 0]),
+    ('8', [0, 1, 1, 0, 0, 0, 0]),
+    ('9', [1, 0, 0, 1, 0, 0, 0]),
+    ('-', [0, 0, 0, 1, 1, 0, 0]),
+    ('$', [0, 0, 1, 1, 0, 0, 0]),
+    (':', [1, 0, 0, 0, 1, 0, 1]),
+    ('/', [1, 0, 1, 0, 0, 0, 1]),
+    ('.', [1, 0, 1, 0, 1, 0, 0]),
+    ('+', [0, 0, 1, 0, 1, 0, 1]),
+    ('A', [0, 0, 1, 1, 0, 1, 0]),
+    ('B', [0, 1, 0, 1, 0, 0, 1]),
+    ('C', [0, 0, 0, 1, 0, 1, 1]),
+    ('D', [0, 0, 0, 1, 1, 1, 0]),
+];
+
+/// Codabar (NW-7). barcoders has the wrong patterns for B, C and +
+pub struct Codabar(Vec<[u8; 7]>);
+
+impl Codabar {
+    pub fn new(data: String) -> Result<Codabar, String> {
+        let mut patterns = vec![];
+
+        for char in data.chars() {
+            match CHARS.iter().find(|entry| entry.0 == char) {
+                Some(entry) => patterns.push(entry.1),
+                None => return Err(format!("Invalid Codabar: {:?} can't be encoded.", char)),
+            }
+        }
+
+        Ok(Codabar(patterns))
+    }
+
+    /// Encodes the barcode.
+    /// Returns a Vec<u8> of binary digits.
+    pub fn encode(&self) -> Vec<u8> {
+        let mut encoded = vec![];
+
+        for pattern in &self.0 {
+            //Narrow space between characters
+            if !encoded.is_empty() {
+                encoded.push(0);
+            }
+
+            for (i, wide) in pattern.iter().enumerate() {
+                let point = if i % 2 == 0 { 1 } else { 0 };
+                encoded.extend(vec![point; 1 + *wide as usize]);
+            }
+        }
+
+        encoded
+    }
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 88a178b..35113cd 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1 +1,2 @@
-pub mod upce;
\ No newline at end of file
+pub mod codabar;
+pub mod upce;
-- 
2.43.0


From 31bb2699205023be9a382ceb246de07bb758e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 57/82] fix: Code 93 check characters and characters without a
 pattern have the wrong bars

---
 thermal_parser/src/commands/barcode.rs      |  2 +-
 thermal_parser/src/utils/barcodes/code93.rs | 84 +++++++++++++++++++++
 thermal_parser/src/utils/barcodes/mod.rs    |  1 +
 3 files changed, 86 insertions(+), 1 deletion(-)
 create mode 100644 thermal_parser/src/utils/barcodes/code93.rs

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 4cb1a02..b93bddf 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -5,7 +5,6 @@ use std::str::from_utf8;
 
 use barcoders::sym::code128::Code128;
 use barcoders::sym::code39::Code39;
-use barcoders::sym::code93::Code93;
 use barcoders::sym::ean13::EAN13;
 use barcoders::sym::ean13::UPCA;
 use barcoders::sym::ean8::EAN8;
@@ -13,6 +12,7 @@ use barcoders::sym::tf::TF;
 
 use crate::text::TextSpan;
 use crate::utils::barcodes::codabar::Codabar;
+use crate::utils::barcodes::code93::Code93;
 use crate::utils::barcodes::upce::UPCE;
 use crate::{command::*, constants::*, context::*, graphics::*};
 
diff --git a/thermal_parser/src/utils/barcodes/code93.rs b/thermal_parser/src/utils/barcodes/code93.rs
new file mode 100644
index 0000000..9d4bc35
--- /dev/null
+++ b/thermal_parser/src/utils/barcodes/code93.rs
@@ -0,0 +1,84 @@
+/// Characters in order of their value. a, b, c and d stand for the shift
+/// characters ($), (%), (/) and (+)
+const CHARS: &[u8; 47] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%abcd";
+
+const ENCODINGS: [u16; 47] = [
+    0b100010100, 0b101001000, 0b101000100, 0b101000010, 0b100101000, 0b100100100, 0b100100010,
+    0b101010000, 0b100010010, 0b100001010, 0b110101000, 0b110100100, 0b110100010, 0b110010100,
+    0b110010010, 0b110001010, 0b101101000, 0b101100100, 0b101100010, 0b100110100, 0b100011010,
+    0b101011000, 0b101001100, 0b101000110, 0b100101100, 0b100010110, 0b110110100, 0b110110010,
+    0b110101100, 0b110100110, 0b110010110, 0b110011010, 0b101101100, 0b101100110, 0b100110110,
+    0b100111010, 0b100101110, 0b111010100, 0b111010010, 0b111001010, 0b101101110, 0b101110110,
+    0b110101110, 0b100100110, 0b111011010, 0b111010110, 0b100110010,
+];
+
+const GUARD: u16 = 0b101011110;
+
+/// Code 93. barcoders encodes the last check character value wrong and takes
+/// parentheses and brackets for shift characters
+pub struct Code93(Vec<usize>);
+
+impl Code93 {
+    /// Every ASCII character can be encoded, those without a pattern of
+    /// their own are a shift character and a letter
+    pub fn new(data: String) -> Result<Code93, String> {
+        let mut values = vec![];
+
+        for byte in data.bytes() {
+            let pair = match byte {
+                b' ' | b'$' | b'%' | b'+' | b'-' | b'.' | b'/' | b'0'..=b'9' | b'A'..=b'Z' => {
+                    [0, byte]
+                }
+                0 => [b'b', b'U'],
+                1..=26 => [b'a', b'A' + byte - 1],
+                27..=31 => [b'b', b'A' + byte - 27],
+                b'!'..=b',' => [b'c', b'A' + byte - b'!'],
+                b':' => [b'c', b'Z'],
+                b';'..=b'?' => [b'b', b'F' + byte - b';'],
+                b'@' => [b'b', b'V'],
+                b'['..=b'_' => [b'b', b'K' + byte - b'['],
+                b'`' => [b'b', b'W'],
+                b'a'..=b'z' => [b'd', b'A' + byte - b'a'],
+                b'{'..=127 => [b'b', b'P' + byte - b'{'],
+                _ => return Err(String::from("Invalid Code93: Only ASCII is valid.")),
+            };
+
+            values.extend(
+                pair.iter()
+                    .filter_map(|c| CHARS.iter().position(|char| char == c)),
+            );
+        }
+
+        Ok(Code93(values))
+    }
+
+    /// Encodes the barcode.
+    /// Returns a Vec<u8> of binary digits.
+    pub fn encode(&self) -> Vec<u8> {
+        let mut values = self.0.clone();
+        values.push(check_value(&values, 20));
+        values.push(check_value(&values, 15));
+
+        let mut encoded = vec![];
+        push_bits(&mut encoded, GUARD);
+
+        for value in values {
+            push_bits(&mut encoded, ENCODINGS[value]);
+        }
+
+        push_bits(&mut encoded, GUARD);
+        encoded.push(1);
+        encoded
+    }
+}
+
+/// Weights are counted from the right
+fn check_value(values: &[usize], max_weight: usize) -> usize {
+    let weighted = values.iter().rev().enumerate();
+    let sum: usize = weighted.map(|(i, value)| value * (i % max_weight + 1)).sum();
+    sum % 47
+}
+
+fn push_bits(encoded: &mut Vec<u8>, bits: u16) {
+    encoded.extend((0..9).rev().map(|i| (bits >> i & 1) as u8));
+}
diff --git a/thermal_parser/src/utils/barcodes/mod.rs b/thermal_parser/src/utils/barcodes/mod.rs
index 35113cd..a3e859e 100644
--- a/thermal_parser/src/utils/barcodes/mod.rs
+++ b/thermal_parser/src/utils/barcodes/mod.rs
@@ -1,2 +1,3 @@
 pub mod codabar;
+pub mod code93;
 pub mod upce;
-- 
2.43.0


From bec4134da36c48b8b2dc0ebd6629d154b625f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 58/82] fix: CODE128 shift and DEL are encoded, characters that
 can't be encoded are rejected

---
 thermal_parser/src/commands/barcode.rs | 51 +++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index b93bddf..7cc460c 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -128,14 +128,21 @@ fn convert_code128_data(data: &str) -> (String, String) {
     let mut adjusted = String::with_capacity(data.len());
     let mut hri = String::with_capacity(data.len());
     let mut chars = data.chars().peekable();
+    let mut set = ' ';
+    let mut shifted = false;
 
     while let Some(c) = chars.next() {
         if c != '{' {
-            adjusted.push(c);
+            adjusted.push(code128_char(c, set, shifted));
+            shifted = false;
             hri.push(c);
             continue;
         }
 
+        if let Some(new_set @ ('A' | 'B' | 'C')) = chars.peek() {
+            set = *new_set;
+        }
+
         let special = match chars.peek() {
             Some('A') => 'À',
             Some('B') => 'Ɓ',
@@ -145,10 +152,19 @@ fn convert_code128_data(data: &str) -> (String, String) {
             Some('2') => 'ź',
             Some('3') => 'Ż',
             Some('4') => 'ż',
+            //The next character is from the other one of code set A and B
+            Some('S') => {
+                shifted = true;
+                chars.next();
+                adjusted.push('Ž');
+                continue;
+            }
             //Two braces are one brace in the data
             Some('{') => {
                 hri.push('{');
-                '{'
+                let brace = code128_char('{', set, shifted);
+                shifted = false;
+                brace
             }
             _ => {
                 adjusted.push(c);
@@ -164,6 +180,32 @@ fn convert_code128_data(data: &str) -> (String, String) {
     (adjusted, hri)
 }
 
+/// barcoders has no shift. A shifted character is given as the character that
+/// has the same value in the selected code set, and as one that can't be
+/// encoded when the other code set doesn't have it.
+fn code128_char(c: char, set: char, shifted: bool) -> char {
+    let code = c as u8;
+    let unshifted = match (set, shifted) {
+        ('A', true) => match code {
+            32..=95 => code,
+            96..=127 => code - 96,
+            _ => return char::REPLACEMENT_CHARACTER,
+        },
+        ('B', true) => match code {
+            0..=31 => code + 96,
+            32..=95 => code,
+            _ => return char::REPLACEMENT_CHARACTER,
+        },
+        _ => code,
+    };
+
+    //barcoders has the division sign in the place of DEL
+    match unshifted {
+        127 => '÷',
+        _ => unshifted as char,
+    }
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -179,6 +221,11 @@ impl CommandHandler for BarcodeHandler {
 
         match self.kind {
             BarcodeType::Code128 => {
+                //Other characters mean code sets and special characters to barcoders
+                if !data.is_ascii() {
+                    return self.decorate_error("Invalid characters".to_string(), command);
+                }
+
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
                 let (adjusted_data, hri_data) = convert_code128_data(data);
 
-- 
2.43.0


From d787ae68ef48b54b91ee2bada7728f48a7596cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 59/82] fix: CODE39 data with an asterisk in the middle is
 rejected instead of losing it

---
 thermal_parser/src/commands/barcode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 7cc460c..b309778 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -256,9 +256,10 @@ impl CommandHandler for BarcodeHandler {
                 //Data can be surrounded with * or not
                 //The data that was provided should be shown as
                 //it was provided.
-                //Code39 doesn't want asterisks in the data
+                //Code39 doesn't want asterisks around the data
                 let text = data.to_string();
-                let data = text.replace("*", "");
+                let data = data.strip_prefix('*').unwrap_or(data);
+                let data = data.strip_suffix('*').unwrap_or(data);
 
                 return match Code39::new(data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
-- 
2.43.0


From b66b3d678f4ab1e280138db9370dee1aa44ec9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 60/82] fix: micro qr codes whose terminator ends inside the
 last half codeword are padded

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 58c56f8..0bbd228 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,7 +2,8 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
-use qr_code::types::QrError;
+use qr_code::bits::Bits;
+use qr_code::types::{QrError, QrResult};
 use qr_code::{EcLevel, QrCode, Version};
 
 #[derive(Clone)]
@@ -33,6 +34,26 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
     max_version
 }
 
+fn encode(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<QrCode> {
+    let mut bits = Bits::new(version);
+    bits.push_optimal_data(data)?;
+
+    //The last codeword of a micro code can have four bits. The padding of
+    //qr_code never ends when the terminator ends inside of that codeword,
+    //so the rest of it is filled up here
+    if let Version::Micro(v) = version {
+        let terminator = v as usize * 2 + 1;
+        let free = bits.max_len(error_correction)?.saturating_sub(bits.len());
+
+        if free > terminator && free < terminator + 4 {
+            bits.push_number_checked(free, 0)?;
+        }
+    }
+
+    bits.push_terminator(error_correction)?;
+    QrCode::with_bits(bits, error_correction)
+}
+
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         //The first byte is the m parameter, it is not part of the symbol
@@ -66,7 +87,7 @@ impl CommandHandler for Handler {
         for v in first_version..=max_modules {
             let version = if is_micro { Version::Micro(v) } else { Version::Normal(v) };
 
-            result = QrCode::with_version(&data, version, error_correction);
+            result = encode(&data, version, error_correction);
 
             if result.is_ok() {
                 break;
-- 
2.43.0


From 7141e78fcf517c72e8f94d84abe8dd4ab0f0e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 61/82] fix: ESC c 3, 4 and 5 are recognized by the digit, not
 by the byte 3, 4 or 5

---
 thermal_parser/src/commands/paper_end_sensor.rs  | 2 +-
 thermal_parser/src/commands/print_stop_sensor.rs | 2 +-
 thermal_parser/src/commands/set_panel_buttons.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/commands/paper_end_sensor.rs b/thermal_parser/src/commands/paper_end_sensor.rs
index 2cab94a..5260d48 100644
--- a/thermal_parser/src/commands/paper_end_sensor.rs
+++ b/thermal_parser/src/commands/paper_end_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Select Paper End Sensors",
-        vec![ESC, 'c' as u8, 3u8],
+        vec![ESC, 'c' as u8, '3' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/print_stop_sensor.rs b/thermal_parser/src/commands/print_stop_sensor.rs
index 4a7e665..e66d6e9 100644
--- a/thermal_parser/src/commands/print_stop_sensor.rs
+++ b/thermal_parser/src/commands/print_stop_sensor.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Print Stop Sensors",
-        vec![ESC, 'c' as u8, 4u8],
+        vec![ESC, 'c' as u8, '4' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
diff --git a/thermal_parser/src/commands/set_panel_buttons.rs b/thermal_parser/src/commands/set_panel_buttons.rs
index 84f17cd..0b8c45d 100644
--- a/thermal_parser/src/commands/set_panel_buttons.rs
+++ b/thermal_parser/src/commands/set_panel_buttons.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {}
 pub fn new() -> Command {
     Command::new(
         "Enable Panel Buttons",
-        vec![ESC, 'c' as u8, 5u8],
+        vec![ESC, 'c' as u8, '5' as u8],
         CommandType::Control,
         DataType::Single,
         Box::new(Handler {}),
-- 
2.43.0


From 011f4a988179bad1f75be7502b87503b2011c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 62/82] fix: the byte after an incomplete CAN @ can start a
 command

---
 thermal_parser/src/parser.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index a3289c6..7bb2a53 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -153,6 +153,7 @@ impl Parser {
         //or make a new unknown command or append to the last default command
         if self.command_matches.is_empty() {
             let mut new_cmd = None;
+            let mut restart = false;
 
             if self.command_buffer.len() > 0
                 && self
@@ -164,18 +165,26 @@ impl Parser {
                 let mut unknown_command = self.cmd_set.unknown.clone();
                 unknown_command.data = self.command_buffer.clone();
                 new_cmd = Some(unknown_command);
-            } else if self.current_command_is_default {
-                if let Some(cmd) = &mut self.current_command {
+            } else {
+                //The byte that ended a partial match can start a command
+                if self.match_depth > 0 {
+                    self.command_buffer.pop();
+                    restart = true;
+                }
+
+                if self.current_command_is_default {
+                    if let Some(cmd) = &mut self.current_command {
+                        for buffered in &self.command_buffer {
+                            cmd.push(*buffered);
+                        }
+                    }
+                } else {
+                    let mut default_command = self.cmd_set.default.clone();
                     for buffered in &self.command_buffer {
-                        cmd.push(*buffered);
+                        default_command.push(*buffered);
                     }
+                    new_cmd = Some(default_command);
                 }
-            } else {
-                let mut default_command = self.cmd_set.default.clone();
-                for buffered in &self.command_buffer {
-                    default_command.push(*buffered);
-                }
-                new_cmd = Some(default_command);
             }
 
             self.command_buffer.clear();
@@ -188,7 +197,10 @@ impl Parser {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
                 }
-                return;
+            }
+
+            if restart {
+                self.parse(byte);
             }
 
             return;
-- 
2.43.0


From c9ab05efd56bcc2e232b04216616f4ecc1e697e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 63/82] fix: html ends at the position of the paper when a job
 ends in page mode

---
 thermal_renderer/src/html_renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index f8f15c6..adb14a2 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -232,7 +232,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        let padding_bottom = context.get_y().saturating_sub(self.last_y);
+        let padding_bottom = context.graphics.render_area.y.saturating_sub(self.last_y);
 
         let content = self
             .template
-- 
2.43.0


From f3ce9d60b6a9240a0cb2c845b32026846e3461a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 64/82] fix: the check digit of long ITF data does not overflow

---
 thermal_parser/src/commands/barcode.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index b309778..0364e73 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -122,6 +122,23 @@ fn product_digits(data: &str, len: usize) -> &str {
     data
 }
 
+/// Pairs of digits are needed, a check digit completes the last one.
+/// The sum of barcoders overflows when the data is long.
+fn itf_digits(data: &str) -> String {
+    let mut digits = data.to_string();
+
+    if data.len() % 2 == 1 && data.bytes().all(|byte| byte.is_ascii_digit()) {
+        let sum: u32 = data
+            .bytes()
+            .enumerate()
+            .map(|(i, byte)| (byte - b'0') as u32 * if i % 2 == 0 { 3 } else { 1 })
+            .sum();
+        digits.push_str(&((10 - sum % 10) % 10).to_string());
+    }
+
+    digits
+}
+
 /// Converts the two byte code sets and special characters of ESC/POS
 /// into the barcoders format. Also returns the human readable text.
 fn convert_code128_data(data: &str) -> (String, String) {
@@ -336,7 +353,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Itf => {
-                return match TF::interleaved(data.to_string()) {
+                return match TF::interleaved(itf_digits(data)) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From b820846c0c4d7abce409f97aaf6b07dbd1219a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 65/82] fix: ITF and Codabar data of two characters is printed

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 0364e73..2040926 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -99,7 +99,7 @@ impl BarcodeHandler {
             BarcodeType::Ean13 => length == 12 || length == 13,
             BarcodeType::Ean8 => length == 7 || length == 8,
             BarcodeType::Code39 => length > 0,
-            BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 2,
+            BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 1,
             BarcodeType::Gs1DatabarLimited
             | BarcodeType::Gs1DatabarTruncated
             | BarcodeType::Gs1DatabarOmni => length == 13,
-- 
2.43.0


From 17301285068f58a3ab029c3be044cf83959d287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 66/82] fix: error correction of micro qr codes M3-L follows
 the four bits of the last data codeword

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 0bbd228..4e56ee7 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -3,8 +3,9 @@ extern crate qr_code;
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
 use qr_code::bits::Bits;
-use qr_code::types::{QrError, QrResult};
-use qr_code::{EcLevel, QrCode, Version};
+use qr_code::canvas::Canvas;
+use qr_code::types::{Color, QrError, QrResult};
+use qr_code::{ec, EcLevel, QrCode, Version};
 
 #[derive(Clone)]
 pub struct Handler;
@@ -34,7 +35,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
     max_version
 }
 
-fn encode(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<QrCode> {
+//Modules and width of the symbol
+fn encode(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<(Vec<bool>, u32)> {
     let mut bits = Bits::new(version);
     bits.push_optimal_data(data)?;
 
@@ -51,7 +53,33 @@ fn encode(data: &[u8], version: Version, error_correction: EcLevel) -> QrResult<
     }
 
     bits.push_terminator(error_correction)?;
-    QrCode::with_bits(bits, error_correction)
+
+    //The last data codeword of this version has four bits, but qr_code
+    //places all eight of them, which leaves no room for the end of the
+    //error correction codewords
+    if matches!((version, error_correction), (Version::Micro(3), EcLevel::L)) {
+        let (mut codewords, ec_codewords) =
+            ec::construct_codewords(&bits.into_bytes(), version, error_correction)?;
+        let mut half = codewords.pop().unwrap_or(0);
+
+        for codeword in ec_codewords {
+            codewords.push(half | codeword >> 4);
+            half = codeword << 4;
+        }
+
+        codewords.push(half);
+
+        let mut canvas = Canvas::new(version, error_correction);
+        canvas.draw_all_functional_patterns();
+        canvas.draw_data(&codewords, &[]);
+
+        let colors = canvas.apply_best_mask().into_colors();
+        let modules = colors.into_iter().map(|c| c == Color::Dark).collect();
+        return Ok((modules, version.width() as u32));
+    }
+
+    let qr = QrCode::with_bits(bits, error_correction)?;
+    Ok((qr.to_vec(), qr.width() as u32))
 }
 
 impl CommandHandler for Handler {
@@ -95,8 +123,7 @@ impl CommandHandler for Handler {
         }
 
         match result {
-            Ok(qr) => {
-                let raw = qr.to_vec();
+            Ok((raw, width)) => {
                 let mut converted_points = Vec::<u8>::with_capacity(raw.capacity());
 
                 for b in raw {
@@ -106,7 +133,7 @@ impl CommandHandler for Handler {
 
                 let qrcode = graphics::Code2D {
                     points: converted_points,
-                    width: qr.width() as u32,
+                    width,
                     point_width: context.code2d.qr_size as u32,
                     point_height: context.code2d.qr_size as u32,
                 };
-- 
2.43.0


From a193e3b0cfa0b3f11363564a01aaf04f0f70bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 67/82] fix: control characters in the text of CODE128 bar
 codes

---
 thermal_parser/src/commands/barcode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 2040926..26fda5c 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -152,7 +152,8 @@ fn convert_code128_data(data: &str) -> (String, String) {
         if c != '{' {
             adjusted.push(code128_char(c, set, shifted));
             shifted = false;
-            hri.push(c);
+            //Control characters would move the text, they are shown as spaces
+            hri.push(if c.is_ascii_control() { ' ' } else { c });
             continue;
         }
 
-- 
2.43.0


From dcfc525d17210da56ca36ab957a613da930a1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 68/82] fix: memory for an image is taken for the data that was
 received, not for its declared size

---
 thermal_parser/src/graphics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index d21b872..2335271 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -383,7 +383,8 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
 fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+    //The declared size can be much larger than the data that was received
+    let mut bytes = Vec::with_capacity((width as usize * height as usize).min(pixels.len() * 8));
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
-- 
2.43.0


From 0cebff45c0056293ec8d78e08286240765d38b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 69/82] fix: control characters in the text of every bar code
 are shown as spaces

---
 thermal_parser/src/commands/barcode.rs | 3 +--
 thermal_parser/src/text.rs             | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 26fda5c..2040926 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -152,8 +152,7 @@ fn convert_code128_data(data: &str) -> (String, String) {
         if c != '{' {
             adjusted.push(code128_char(c, set, shifted));
             shifted = false;
-            //Control characters would move the text, they are shown as spaces
-            hri.push(if c.is_ascii_control() { ' ' } else { c });
+            hri.push(c);
             continue;
         }
 
diff --git a/thermal_parser/src/text.rs b/thermal_parser/src/text.rs
index 8d9d7a4..c9e19a6 100644
--- a/thermal_parser/src/text.rs
+++ b/thermal_parser/src/text.rs
@@ -71,6 +71,8 @@ impl TextSpan {
     }
 
     pub fn new_for_barcode(text: String, context: &Context) -> Self {
+        //Control characters would move the text, they are shown as spaces
+        let text = text.replace(|c: char| c.is_ascii_control(), " ");
         let mut span = TextSpan::new(text, context);
         span.font = context.barcode.font.clone();
         span
-- 
2.43.0


From 45555170e4855b10cf08252b4c8504f691bb6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 70/82] fix: the other national character sets must match the
 reference they cite

---
 thermal_parser/src/decoder/international.rs | 72 ++++++++++-----------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/thermal_parser/src/decoder/international.rs b/thermal_parser/src/decoder/international.rs
index bae943d..48df32c 100644
--- a/thermal_parser/src/decoder/international.rs
+++ b/thermal_parser/src/decoder/international.rs
@@ -35,22 +35,19 @@ pub static UK: Language = ("British English", &[(0x23, "£")]);
 pub static DENMARK_I: Language = (
     "Danish Variant I",
     &[
-        (0x40, "Ä"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
-        (0x5E, "^"),
-        (0x60, "ä"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
-        (0x7E, "~"),
     ],
 );
 
 pub static SWEDEN: Language = (
     "Swedish",
     &[
+        (0x24, "¤"),
         (0x40, "É"),
         (0x5B, "Ä"),
         (0x5C, "Ö"),
@@ -67,12 +64,11 @@ pub static SWEDEN: Language = (
 pub static ITALY: Language = (
     "Italian",
     &[
-        (0x40, "§"),
-        (0x5C, "ù"),
-        (0x5E, "é"),
-        (0x60, "à"),
-        (0x7B, "ò"),
-        (0x7C, "ç"),
+        (0x5B, "°"),
+        (0x5D, "é"),
+        (0x60, "ù"),
+        (0x7B, "à"),
+        (0x7C, "ò"),
         (0x7D, "è"),
         (0x7E, "ì"),
     ],
@@ -81,28 +77,27 @@ pub static ITALY: Language = (
 pub static SPAIN_I: Language = (
     "Spanish Variant I",
     &[
-        (0x40, "Ñ"),
+        (0x23, "₧"),
         (0x5B, "¡"),
-        (0x5C, "¿"),
-        (0x5D, "ç"),
-        (0x7B, "ñ"),
-        (0x7C, "¬"),
-        (0x7D, "½"),
-        (0x7E, "¼"),
+        (0x5C, "Ñ"),
+        (0x5D, "¿"),
+        (0x7B, "¨"),
+        (0x7C, "ñ"),
     ],
 );
 
-pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥"), (0x7C, "¦")]);
+pub static JAPAN: Language = ("Japanese", &[(0x5C, "¥")]);
 
 pub static NORWAY: Language = (
     "Norwegian",
     &[
-        (0x40, "Ä"),
+        (0x24, "¤"),
+        (0x40, "É"),
         (0x5B, "Æ"),
         (0x5C, "Ø"),
         (0x5D, "Å"),
         (0x5E, "Ü"),
-        (0x60, "ä"),
+        (0x60, "é"),
         (0x7B, "æ"),
         (0x7C, "ø"),
         (0x7D, "å"),
@@ -130,13 +125,12 @@ pub static SPAIN_II: Language = (
     "Spanish Variant II",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "á"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
@@ -146,33 +140,37 @@ pub static LATIN_AMERICA: Language = (
     "Latin",
     &[
         (0x40, "á"),
-        (0x5B, "í"),
+        (0x5B, "¡"),
         (0x5C, "Ñ"),
-        (0x5D, "Ó"),
-        (0x5E, "Ú"),
-        (0x60, "ñ"),
-        (0x7B, "é"),
-        (0x7C, "í"),
+        (0x5D, "¿"),
+        (0x5E, "é"),
+        (0x60, "ü"),
+        (0x7B, "í"),
+        (0x7C, "ñ"),
         (0x7D, "ó"),
         (0x7E, "ú"),
     ],
 );
 
-pub static KOREA: Language = ("Korean", &[(0x5C, "₩"), (0x7C, "₩")]);
+pub static KOREA: Language = ("Korean", &[(0x5C, "₩")]);
 
 pub static SLOVENIA: Language = (
     "Slovenian",
     &[
+        (0x40, "Ž"),
         (0x5B, "Š"),
         (0x5C, "Đ"),
-        (0x5D, "Č"),
-        (0x7B, "ž"),
+        (0x5D, "Ć"),
+        (0x5E, "Č"),
+        (0x60, "ž"),
+        (0x7B, "š"),
         (0x7C, "đ"),
-        (0x7D, "č"),
+        (0x7D, "ć"),
+        (0x7E, "č"),
     ],
 );
 
-pub static CHINA: Language = ("Chinese", &[(0x5C, "¥")]);
+pub static CHINA: Language = ("Chinese", &[(0x24, "¥")]);
 
 pub static VIETNAM: Language = ("Vietnamese", &[(0x23, "đ")]);
 
-- 
2.43.0


From 18ad80233434394f0bf5a22037dc869887e19595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 71/82] fix: bit images print with the dot density of their
 mode

---
 thermal_parser/src/commands/bit_image.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/thermal_parser/src/commands/bit_image.rs b/thermal_parser/src/commands/bit_image.rs
index 1668742..3dd2a1e 100644
--- a/thermal_parser/src/commands/bit_image.rs
+++ b/thermal_parser/src/commands/bit_image.rs
@@ -76,11 +76,14 @@ impl CommandHandler for Handler {
             self.capacity = (self.width * self.height) / 8;
         }
 
-        //Image is single density, which oddly enough needs to
-        //have its pixels stretched by 2 on the w and 3 on the h
-        if m == 0 || m == 32 {
-            self.stretch = (2, 3);
-        }
+        //Single density images have their pixels stretched by 2 on the w
+        //and 8 dot images have their pixels stretched by 3 on the h
+        self.stretch = match m {
+            0 => (2, 3),
+            1 => (1, 3),
+            32 => (2, 1),
+            _ => (1, 1),
+        };
 
         //After this, we accept data until the capacity is met
         self.accept_data = true;
-- 
2.43.0


From 62c3f503fc9d2e36a428cdc12b0d0a8a3b2f9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 72/82] fix: GS ( G takes as many parameters as its length says

---
 thermal_parser/src/commands/unknown_gs_g.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/commands/unknown_gs_g.rs b/thermal_parser/src/commands/unknown_gs_g.rs
index 5c26898..0a033e6 100644
--- a/thermal_parser/src/commands/unknown_gs_g.rs
+++ b/thermal_parser/src/commands/unknown_gs_g.rs
@@ -1,15 +1,20 @@
-use crate::{command::*, constants::*, context::*};
+use crate::{command::*, constants::*};
 
 #[derive(Clone)]
 struct Handler;
 
 impl CommandHandler for Handler {
-    fn apply_context(&self, _command: &Command, context: &mut Context) {
-        //context.reset_x();
-
-        if context.page_mode.enabled {
-            //context.reset_y();
+    fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
+        //The first two bytes tell how many parameters follow
+        if data.len() >= 2 {
+            let capacity = data[0] as usize + data[1] as usize * 256;
+            if data.len() >= capacity + 2 {
+                return false;
+            }
         }
+
+        data.push(byte);
+        true
     }
 }
 
@@ -17,8 +22,8 @@ pub fn new() -> Command {
     Command::new(
         "Unknown GS ( G",
         vec![GS, '(' as u8, 'G' as u8],
-        CommandType::Context,
-        DataType::Quad,
+        CommandType::Control,
+        DataType::Custom,
         Box::new(Handler {}),
     )
 }
-- 
2.43.0


From 8833b3ac85f25966ddf4eb4962df6f3b90bea3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 73/82] fix: ESC D takes a list of tab columns ended by NUL

---
 thermal_parser/src/commands/set_tab_len.rs | 45 ++++++++++++++++------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/thermal_parser/src/commands/set_tab_len.rs b/thermal_parser/src/commands/set_tab_len.rs
index b9a591b..43fbc36 100644
--- a/thermal_parser/src/commands/set_tab_len.rs
+++ b/thermal_parser/src/commands/set_tab_len.rs
@@ -1,5 +1,13 @@
+//! Sets the horizontal tab positions
+//!
+//! Up to 32 columns in ascending order, ended by NUL. A column that is not
+//! higher than the one before it also ends the command and is not part of it.
+//! Without any columns, all tab positions are cleared.
+
 use crate::{command::*, constants::*, context::*};
 
+const MAX_TABS: usize = 32;
+
 #[derive(Clone)]
 struct Handler;
 
@@ -7,19 +15,32 @@ impl CommandHandler for Handler {
     fn get_device_command(
         &self,
         command: &Command,
-        context: &Context,
+        _context: &Context,
     ) -> Option<Vec<DeviceCommand>> {
-        let n = *command
-            .data
-            .get(0)
-            .unwrap_or(&context.default.as_ref().unwrap().text.line_spacing);
+        let mut columns = command.data.iter().filter(|column| **column != NUL);
+        let mut device_commands = vec![];
+        let mut last_column = 0u8;
+
+        //Tabs are kept as the distance to the tab before, unused tabs have no length
+        for at in 0..MAX_TABS {
+            let column = *columns.next().unwrap_or(&last_column);
+            device_commands.push(DeviceCommand::ChangeTabs(column - last_column, at as u8));
+            last_column = column;
+        }
+
+        Some(device_commands)
+    }
 
-        let k = *command
-            .data
-            .get(1)
-            .unwrap_or(&context.default.as_ref().unwrap().text.line_spacing);
+    fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
+        if let Some(last) = data.last() {
+            let is_end = byte == NUL && *last != NUL;
+            if !is_end && (byte <= *last || *last == NUL || data.len() >= MAX_TABS) {
+                return false;
+            }
+        }
 
-        Some(vec![DeviceCommand::ChangeTabs(n, k)])
+        data.push(byte);
+        true
     }
 }
 
@@ -27,8 +48,8 @@ pub fn new() -> Command {
     Command::new(
         "Set Tab Len",
         vec![ESC, 'D' as u8],
-        CommandType::TextStyle,
-        DataType::Double,
+        CommandType::Control,
+        DataType::Custom,
         Box::new(Handler {}),
     )
 }
-- 
2.43.0


From 0c1bea8708a816f05a22f4f0f612a5175e12246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 74/82] fix: a double underline is two dots thick

---
 thermal_parser/src/text.rs                           | 5 +++--
 thermal_renderer/resources/templates/thermal.html    | 3 ++-
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/text.rs b/thermal_parser/src/text.rs
index c9e19a6..faf9411 100644
--- a/thermal_parser/src/text.rs
+++ b/thermal_parser/src/text.rs
@@ -36,9 +36,10 @@ impl TextSpan {
     pub fn new(text: String, context: &Context) -> Self {
         let style = &context.text;
 
+        //Underlines are one or two dots thick
         let underline = match style.underline {
-            TextUnderline::On => context.points_to_pixels(1.0) as u32,
-            TextUnderline::Double => context.points_to_pixels(2.0) as u32,
+            TextUnderline::On => 1,
+            TextUnderline::Double => 2,
             _ => 0,
         };
 
diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index d618b34..3865f50 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -60,7 +60,8 @@
 
         .b{ font-weight: bold; }
         .i{ font-style: italic; }
-        .u{ text-decoration: underline; }
+        .u{ text-decoration: underline 1px; }
+        .ud{ text-decoration: underline 2px; }
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
 
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5257b3f..cc1b8cf 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -359,7 +359,7 @@ impl ThermalImage {
                 (dimensions.y + y_offset + 3)
                     + (span.character_height as f32 * baseline_ratio) as u32,
                 dimensions.w,
-                1,
+                span.underline,
                 &span.text_color,
                 true,
             )
-- 
2.43.0


From c0d249c1a5b95cfbf42e9ed661287cc0014e0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 75/82] fix: html text keeps width, height, underline and
 direction when they are combined

---
 .../resources/templates/thermal.html          | 54 ++++++++-----------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 3865f50..c93f877 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -64,39 +64,31 @@
         .ud{ text-decoration: underline 2px; }
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
+        .u.s{ text-decoration: underline line-through 1px; }
+        .ud.s{ text-decoration: underline line-through 2px; }
 
-        /* Conflicts with scaling, need to figure out a solution */
-        .upd { transform: scale(1, -1); }
-
-        .str { transform-origin: top left; }
-
-        .w2{ transform: scaleX(2); }
-        .h2{ transform: scaleY(2); }
-        .w2.h2{ transform: scale(2); }
-
-        .w3{ transform: scaleX(3); }
-        .h3{ transform: scaleY(3); }
-        .w3.h3{ transform: scale(3); }
-
-        .w4{ transform: scaleX(4); }
-        .h4{ transform: scaleY(4); }
-        .w4.h4{ transform: scale(4); }
-
-        .w5{ transform: scaleX(5); }
-        .h5{ transform: scaleY(5); }
-        .w5.h5{ transform: scale(5); }
-
-        .w6{ transform: scaleX(6); }
-        .h6{ transform: scaleY(6); }
-        .w6.h6{ transform: scale(6); }
-
-        .w7{ transform: scaleX(7); }
-        .h7{ transform: scaleY(7); }
-        .w7.h7{ transform: scale(7); }
+        .str, .upd {
+            transform-origin: top left;
+            transform: scale(var(--w, 1), var(--h, 1)) var(--flip, scaleY(1));
+        }
 
-        .w8{ transform: scaleX(8); }
-        .h8{ transform: scaleY(8); }
-        .w8.h8{ transform: scale(8); }
+        .upd { --flip: translateY(100%) scaleY(-1); }
+
+        .w2{ --w: 2; }
+        .w3{ --w: 3; }
+        .w4{ --w: 4; }
+        .w5{ --w: 5; }
+        .w6{ --w: 6; }
+        .w7{ --w: 7; }
+        .w8{ --w: 8; }
+
+        .h2{ --h: 2; }
+        .h3{ --h: 3; }
+        .h4{ --h: 4; }
+        .h5{ --h: 5; }
+        .h6{ --h: 6; }
+        .h7{ --h: 7; }
+        .h8{ --h: 8; }
 
         img { display: block; }
     </style>
-- 
2.43.0


From e37c96dbfb65e26d20cedf7f02ad2670ced3c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 76/82] fix: a motion unit of zero selects the default

The setting was ignored as a whole when either value was zero, the code
that selects the default was never reached.
---
 thermal_parser/src/commands/set_motion_units.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 5271b12..7b98b8a 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -15,15 +15,11 @@ impl CommandHandler for Handler {
         let x = *command.data.get(0).unwrap_or(&0u8);
         let y = *command.data.get(1).unwrap_or(&0u8);
 
-        if x == 0 || y == 0 {
-            return;
-        }
-
-        //A motion unit is never smaller than a dot
-        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, u8::MAX as u16);
-        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, u8::MAX as u16);
+        let dots_per_inch = context.graphics.dots_per_inch;
 
+        //A motion unit is never smaller than a dot, zero selects the default
         if x > 0 {
+            let h_motion_unit = (dots_per_inch / x as u16).clamp(1, u8::MAX as u16);
             context.graphics.h_motion_unit = h_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
@@ -32,6 +28,7 @@ impl CommandHandler for Handler {
         }
 
         if y > 0 {
+            let v_motion_unit = (dots_per_inch / y as u16).clamp(1, u8::MAX as u16);
             context.graphics.v_motion_unit = v_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
-- 
2.43.0


From 1160c74971a472ff859c81f520b1b5f5192ad83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 77/82] fix: positions far beyond any paper don't overflow

Feeding more than 4294967295 dots made the position wrap around, or the
program panic with overflow checks.
---
 thermal_parser/src/context.rs    | 24 ++++++++++++++++--------
 thermal_renderer/src/renderer.rs |  8 +++++---
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index edb806a..d1e53e5 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -249,6 +249,14 @@ pub enum Rotation {
     R270,
 }
 
+/// Positions stay below this, far beyond the end of any paper, so that
+/// positions inside of what is printed there don't overflow.
+pub const MAX_POSITION: u32 = i32::MAX as u32;
+
+pub fn advance(position: u32, distance: u32) -> u32 {
+    position.saturating_add(distance).min(MAX_POSITION)
+}
+
 impl PageModeContext {
     pub fn apply_logical_area(&mut self) -> (Rotation, u32, u32) {
         let rotation =
@@ -345,15 +353,15 @@ impl PageModeContext {
     }
 
     pub fn offset_x(&mut self, x: u32) {
-        self.render_area.x += x;
+        self.render_area.x = advance(self.render_area.x, x);
     }
 
     pub fn offset_y(&mut self, y: u32) {
-        self.render_area.y += y;
+        self.render_area.y = advance(self.render_area.y, y);
     }
 
     pub fn offset_x_relative(&mut self, x: i16) {
-        let mut new_x = self.render_area.x as i32 + x as i32;
+        let mut new_x = (self.render_area.x as i32).saturating_add(x as i32);
         if new_x < 0 {
             new_x = 0;
         }
@@ -361,7 +369,7 @@ impl PageModeContext {
     }
 
     pub fn offset_y_relative(&mut self, y: i16) {
-        let mut new_y = self.render_area.y as i32 + y as i32;
+        let mut new_y = (self.render_area.y as i32).saturating_add(y as i32);
         if new_y < 0 {
             new_y = 0;
         }
@@ -710,7 +718,7 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_x(x);
         } else {
-            self.graphics.render_area.x += x;
+            self.graphics.render_area.x = advance(self.graphics.render_area.x, x);
         }
     }
 
@@ -718,7 +726,7 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_y(y);
         } else {
-            self.graphics.render_area.y += y;
+            self.graphics.render_area.y = advance(self.graphics.render_area.y, y);
         }
     }
 
@@ -729,7 +737,7 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_x_relative(adj_x);
         } else {
-            let mut new_x = self.graphics.render_area.x as i32 + adj_x as i32;
+            let mut new_x = (self.graphics.render_area.x as i32).saturating_add(adj_x as i32);
             if new_x < 0 {
                 new_x = 0;
             }
@@ -744,7 +752,7 @@ impl Context {
         if self.page_mode.enabled {
             self.page_mode.offset_y_relative(adj_y);
         } else {
-            let mut new_y = self.graphics.render_area.y as i32 + adj_y as i32;
+            let mut new_y = (self.graphics.render_area.y as i32).saturating_add(adj_y as i32);
             if new_y < 0 {
                 new_y = 0;
             }
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index d34bcc7..42cb047 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -17,7 +17,7 @@
 use crate::renderer::RenderErrorKind::ChildRenderError;
 use std::{fmt, mem};
 use thermal_parser::command::{Command, CommandType, DeviceCommand};
-use thermal_parser::context::{Context, HumanReadableInterface, Rotation, TextJustify};
+use thermal_parser::context::{advance, Context, HumanReadableInterface, Rotation, TextJustify};
 use thermal_parser::graphics::{
     Barcode, Code2D, GraphicsCommand, Image, ImageFlow, Rectangle, VectorGraphic,
 };
@@ -286,8 +286,10 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y +=
-                            self.context.page_mode.standard_page_height();
+                        self.context.graphics.render_area.y = advance(
+                            self.context.graphics.render_area.y,
+                            self.context.page_mode.standard_page_height(),
+                        );
                         self.context.graphics.render_area.x = 0;
                     }
                     DeviceCommand::ChangePageArea => {
-- 
2.43.0


From 0d66a5e6f541d2a12b219e1c8304a90c1ed985fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 78/82] fix: html shows the fonts without a size of their own
 as font B

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 91f5059..29a5b9a 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -206,10 +206,11 @@ fn span_to_html(
         class_list.push("upd");
     }
 
+    //The other fonts default to font b
     match text.font {
-        Font::B => class_list.push("fb"),
+        Font::A => {}
         Font::C => class_list.push("fc"),
-        _ => {}
+        _ => class_list.push("fb"),
     }
 
     //Foreground and background color classes
-- 
2.43.0


From 7ac69c3acfd4b092bca365311a70b2abdebf8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:12 +0000
Subject: [PATCH 79/82] fix: human readable text has the character size of its
 own font

---
 thermal_parser/src/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/text.rs b/thermal_parser/src/text.rs
index faf9411..1609ca4 100644
--- a/thermal_parser/src/text.rs
+++ b/thermal_parser/src/text.rs
@@ -75,6 +75,13 @@ impl TextSpan {
         //Control characters would move the text, they are shown as spaces
         let text = text.replace(|c: char| c.is_ascii_control(), " ");
         let mut span = TextSpan::new(text, context);
+
+        //The characters have the size of the selected font
+        let (width, height) = context.barcode.font.to_size();
+        span.base_character_width = width as u32;
+        span.base_character_height = height as u32;
+        span.character_width = width as u32 * context.text.width_mult as u32;
+        span.character_height = height as u32 * context.text.height_mult as u32;
         span.font = context.barcode.font.clone();
         span
     }
-- 
2.43.0


From cdba334907be730e33071fb877f4443a5c880b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 80/82] fix: bars don't overlap human readable text taller than
 the line spacing

---
 thermal_renderer/src/renderer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 42cb047..ffa5770 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -361,7 +361,7 @@ impl<'a, Output> Renderer<'a, Output> {
             HumanReadableInterface::Above | HumanReadableInterface::Both => {
                 self.collect_text(barcode.text.clone());
                 self.process_text();
-                self.context.newline(1);
+                self.context.newline_for_spans(&vec![barcode.text.clone()]);
             }
             _ => {}
         }
@@ -399,7 +399,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 self.context.offset_y(8);
                 self.collect_text(barcode.text.clone());
                 self.process_text();
-                self.context.newline(1);
+                self.context.newline_for_spans(&vec![barcode.text.clone()]);
             }
             _ => {}
         }
-- 
2.43.0


From dec0662048963df0d01baff7e9cc549309b6bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 81/82] fix: margins of tall pictures are added in linear time

---
 .../src/image_renderer/thermal_image.rs       | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index cc1b8cf..ea0d7ef 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -714,27 +714,17 @@ impl ThermalImage {
         };
         let height = self.get_height();
         let left = ((new_width - old_width) as f32 / 2.0).floor() as u32;
-        let right = new_width - (left + old_width);
 
-        self.bytes
-            .try_reserve((height as usize * new_width as usize - self.bytes.len()) as usize)
-            .unwrap();
-
-        let mut insert_idx = 0;
-
-        let left_bytes = vec![self.paper_color; left as usize];
-        let right_bytes = vec![self.paper_color; right as usize];
+        let mut expanded = vec![self.paper_color; new_width as usize * height as usize];
 
-        for _ in 0..height {
-            self.bytes
-                .splice(insert_idx..insert_idx, left_bytes.clone());
-            insert_idx += left as usize + old_width as usize;
-
-            self.bytes
-                .splice(insert_idx..insert_idx, right_bytes.clone());
-            insert_idx += right as usize;
+        for y in 0..height as usize {
+            let row_start = y * old_width as usize;
+            let row = &self.bytes[row_start..row_start + old_width as usize];
+            let start = y * new_width as usize + left as usize;
+            expanded[start..start + old_width as usize].copy_from_slice(row);
         }
 
+        self.bytes = expanded;
         self.width = new_width;
     }
 
-- 
2.43.0


From bd6d0cf30b3305f67fad7b6906f7ceeb9716132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 82/82] fix: text that is upside down does not turn over what
 was printed before it

---
 .../src/image_renderer/thermal_image.rs       | 64 +++++++++++--------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index ea0d7ef..b36279c 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -298,6 +298,19 @@ impl ThermalImage {
             y_offset = (max_height_baseline - span_baseline) as u32;
         }
 
+        //Only the text itself is turned over when it is upside down,
+        //not what was printed in the same place before
+        let top = dimensions.y + y_offset;
+        let place_line = |offset: u32, thickness: u32| -> (u32, u32) {
+            if span.upside_down {
+                let bottom = (top + span.character_height).saturating_sub(offset);
+                let line_top = bottom.saturating_sub(thickness);
+                (line_top, bottom - line_top)
+            } else {
+                (top + offset, thickness)
+            }
+        };
+
         for char in span.text.chars() {
             let char_bitmap = ThermalImage::render_char(
                 char,
@@ -326,15 +339,11 @@ impl ThermalImage {
                     );
                 }
 
-                self.put_pixels(
-                    cur_x,
-                    dimensions.y + y_offset,
-                    bitmap.1,
-                    bitmap.2,
-                    bitmap.0,
-                    true,
-                    true,
-                );
+                if span.upside_down {
+                    ThermalImage::flip_rows(&mut bitmap.0, bitmap.1);
+                }
+
+                self.put_pixels(cur_x, top, bitmap.1, bitmap.2, bitmap.0, true, true);
             }
 
             cur_x += span.character_width;
@@ -342,48 +351,53 @@ impl ThermalImage {
 
         //Draw baseline
         if self.debug_profile.text {
+            let (line_y, line_h) =
+                place_line((span.character_height as f32 * baseline_ratio) as u32 + 1, 1);
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset + 1)
-                    + (span.character_height as f32 * baseline_ratio) as u32,
+                line_y,
                 dimensions.w,
-                1,
+                line_h,
                 &self.baseline_debug_color.clone(),
                 false,
             )
         }
 
         if span.underline > 0 {
+            let (line_y, line_h) = place_line(
+                (span.character_height as f32 * baseline_ratio) as u32 + 3,
+                span.underline,
+            );
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset + 3)
-                    + (span.character_height as f32 * baseline_ratio) as u32,
+                line_y,
                 dimensions.w,
-                span.underline,
+                line_h,
                 &span.text_color,
                 true,
             )
         }
 
         if span.strikethrough > 0 {
+            let (line_y, line_h) = place_line(
+                (span.character_height as f32 / 2.5) as u32,
+                span.strikethrough,
+            );
             self.draw_rect(
                 dimensions.x + x_offset,
-                (dimensions.y + y_offset) + (span.character_height as f32 / 2.5) as u32,
+                line_y,
                 dimensions.w,
-                span.strikethrough,
+                line_h,
                 &span.text_color,
                 true,
             )
         }
+    }
 
-        if span.upside_down {
-            self.flip_pixels(
-                dimensions.x + x_offset,
-                dimensions.y + y_offset,
-                dimensions.w,
-                dimensions.h,
-            );
-        }
+    //Reverses the rows of a bitmap, the first becomes the last
+    fn flip_rows(bytes: &mut Vec<RGBA>, width: u32) {
+        let flipped = bytes.chunks(width as usize).rev().flatten().copied();
+        *bytes = flipped.collect();
     }
 
     pub fn scale_bitmap(
-- 
2.43.0

