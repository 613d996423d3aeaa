From 577519dafe24e840f4db5ae90d4f27b7c8cebc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:08 +0000
Subject: [PATCH 01/66] fix: read_to_vec keeps reading until the plane is full
 or the input ends

A single read() may return fewer bytes than asked for (pipes, buffered
stdin) or be interrupted by a signal; the rest of the plane was left zero
and every later plane was misaligned.
---
 src/binary_reader.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..98e126c 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,15 +27,19 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
-                for i in 0..len {
-                    v[i] = T::from(tmp[i]);
-                }
-                Ok(s)
-            },
-            Err(e) => Err(e)
+        let mut filled = 0;
+        while filled<len {
+            match self.input.read(&mut tmp[filled..]) {
+                Ok(0) => break,
+                Ok(s) => filled += s,
+                Err(ref e) if e.kind()==io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e)
+            }
         }
+        for i in 0..len {
+            v[i] = T::from(tmp[i]);
+        }
+        Ok(filled)
     }
 }
 
-- 
2.43.0


From b6e656c27d829144fbcd9082d3d4a1eca307483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 02/66] fix: size the chroma planes of odd-sized 4:2:0 frames
 by rounding up

width*height/4 is short of ((width+1)/2)*((height+1)/2) when a dimension is
odd, so each frame read too little and every later frame was misaligned.
---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..56628f3 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -252,8 +252,8 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
+            original_v: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
 
             mis: vec![vec![None; width as usize / 4]; height as usize / 4],
             decoder_model_info: None,
-- 
2.43.0


From 4df7a7bfd75ea266c33229f04a68bb7495ac34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:39 +0000
Subject: [PATCH 03/66] fix: read frames of the configured size instead of
 176x144

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..3ea84e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -101,7 +101,7 @@ fn main() {
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
-- 
2.43.0


From 822d2ec11157f6dcd0a84c9e6e06c019a8e97831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:40 +0000
Subject: [PATCH 04/66] fix: stop at the end of the input, and fail if it ends
 inside a frame

The end of input was ignored: with the default frame limit (2^32-1) the
encoder kept 'reading' frames for hours after the last one, and a truncated
last frame was taken for a whole one.
---
 src/main.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3ea84e3..f4d9795 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,9 +102,16 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        let mut frame_bytes = 0;
+        match reader.read_to_vec(&mut frame.original_y) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
+        match reader.read_to_vec(&mut frame.original_u) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
+        match reader.read_to_vec(&mut frame.original_v) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
+
+        if frame_bytes==0 { break; } // end of input
+        if frame_bytes<frame.original_y.len()+frame.original_u.len()+frame.original_v.len() {
+            println!("{}: input ends in the middle of frame {}", "error".red(), fr);
+            process::exit(1);
+        }
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From 4fd4de53f4ee381966f704c008526800b85071d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:42 +0000
Subject: [PATCH 05/66] fix: report failures with a non-zero exit status

Every error path ended in exit(0), and a read error did not even print a
message, so a failed run could not be told from a successful one.
---
 src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f4d9795..a15c23e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -39,6 +39,10 @@ use obu_encoder::*;
 use obu::OBU::*;
 use encoder::*;
 
+fn input_error(e: &io::Error) -> ! {
+    println!("{}: failed to read input: {}", "error".red(), e);
+    process::exit(1);
+}
 
 fn main() {
 
@@ -57,11 +61,11 @@ fn main() {
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
         println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
         println!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -74,7 +78,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -89,7 +93,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -103,9 +107,9 @@ fn main() {
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         let mut frame_bytes = 0;
-        match reader.read_to_vec(&mut frame.original_y) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
-        match reader.read_to_vec(&mut frame.original_u) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
-        match reader.read_to_vec(&mut frame.original_v) { Ok(s) => frame_bytes += s, Err(_) => process::exit(0) }
+        match reader.read_to_vec(&mut frame.original_y) { Ok(s) => frame_bytes += s, Err(e) => input_error(&e) }
+        match reader.read_to_vec(&mut frame.original_u) { Ok(s) => frame_bytes += s, Err(e) => input_error(&e) }
+        match reader.read_to_vec(&mut frame.original_v) { Ok(s) => frame_bytes += s, Err(e) => input_error(&e) }
 
         if frame_bytes==0 { break; } // end of input
         if frame_bytes<frame.original_y.len()+frame.original_u.len()+frame.original_v.len() {
-- 
2.43.0


From 749d1d6cbf85c408eafe9f6a7a2ca13592baeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:43 +0000
Subject: [PATCH 06/66] fix: print the banner and diagnostics to standard error

With '-o stdout' the coded stream shares standard output with them, so the
banner corrupted the stream.
---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a15c23e..8654529 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -40,13 +40,13 @@ use obu::OBU::*;
 use encoder::*;
 
 fn input_error(e: &io::Error) -> ! {
-    println!("{}: failed to read input: {}", "error".red(), e);
+    eprintln!("{}: failed to read input: {}", "error".red(), e);
     process::exit(1);
 }
 
 fn main() {
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
@@ -60,11 +60,11 @@ fn main() {
 
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
-        println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
+        eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
         process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
-        println!("{}: invalid configuration: {}", "error".red(), e);
+        eprintln!("{}: invalid configuration: {}", "error".red(), e);
         process::exit(1);
     }
 
@@ -77,7 +77,7 @@ fn main() {
         match BinaryReader::file(&config.input.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open input file: {}", "error".red(), e);
+                eprintln!("{}: failed to open input file: {}", "error".red(), e);
                 process::exit(1);
             }
         }
@@ -92,7 +92,7 @@ fn main() {
         match BinaryWriter::file(&config.output.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open output file: {}", "error".red(), e);
+                eprintln!("{}: failed to open output file: {}", "error".red(), e);
                 process::exit(1);
             }
         }
@@ -113,7 +113,7 @@ fn main() {
 
         if frame_bytes==0 { break; } // end of input
         if frame_bytes<frame.original_y.len()+frame.original_u.len()+frame.original_v.len() {
-            println!("{}: input ends in the middle of frame {}", "error".red(), fr);
+            eprintln!("{}: input ends in the middle of frame {}", "error".red(), fr);
             process::exit(1);
         }
 
-- 
2.43.0


From 0974681cfcd4f346e72e8955bbd8d69ce359d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 07/66] fix: report output that could not be written

The last bytes reach the file only when the buffered writer is dropped, where
errors are ignored, so a full disk still ended in exit 0. write_bit also used
write(), which may accept no byte or be interrupted, instead of write_all().
---
 src/binary_writer.rs | 2 +-
 src/main.rs          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index bfd727b..37814d6 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -33,7 +33,7 @@ impl<'a> BinaryWriter<'a> {
         if self.index==8 {
             self.index = 0;
             let tmp = [self.buf];
-            if let Err(e) = self.write(&tmp) {
+            if let Err(e) = self.write_all(&tmp) {
                 assert!(false, e);
             }
             self.buf = 0;
diff --git a/src/main.rs b/src/main.rs
index 8654529..9dd5ab2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -127,4 +127,10 @@ fn main() {
             
         }
     }
+
+    // errors of a flush on drop would be lost
+    if let Err(e) = writer.flush() {
+        eprintln!("{}: failed to write output: {}", "error".red(), e);
+        process::exit(1);
+    }
 }
-- 
2.43.0


From 66cb1e8927226a1c59c08a0bd3e6daf92b6d2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 08/66] fix: parse the options after -r N/D, and refuse
 malformed options without a panic

A fractional frame rate swallowed every option after it. '-r N/0', an empty
argument, '-' alone and an option that starts with a multi-byte character
panicked.
---
 src/option.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..ee0441f 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -152,8 +152,9 @@ lazy_static! {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
+                        if denom==Some(0) { return Err("wrong format".to_string()); }
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
@@ -226,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From 14aa9b29a16c25de9fc6517e159c3014e41614f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 09/66] fix: put the OBU payload inside the OBU, and count its
 sizes in bytes

The payload was written ahead of the temporal unit it belongs to, and the
temporal unit, frame unit and OBU sizes counted bits of the header only, so
the stream could not be walked by its length fields.
---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..0128d60 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1580,22 +1580,22 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        self.coder.push_bits(out_bits, &obu_payload_bits);
+        self.coder.push_bits_align(out_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8;
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8;
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8;
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From e35d7b7a254a0b2c637b8e7b2d0342b1c0ba887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:59 +0000
Subject: [PATCH 10/66] fix: announce and use the same number of bits for the
 frame size

The announced bit counts were one short of the ones used to write the frame
size (and underflowed for a size of 1 or 2), and those lost the top bit of
most sizes, so a decoder read a different resolution.
---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0128d60..a55e434 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -112,12 +112,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                let frame_width_bits_minus_1 = msb16((sequence_header.max_frame_width-1) as u16);
+                let frame_height_bits_minus_1 = msb16((sequence_header.max_frame_height-1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From 4c80b615fdc90ad356b0f38734d5eb0d56cea2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 11/66] fix: write the operating point that the sequence header
 announces

The field counts operating points minus one, so the 0 that was written
announces one operating point, which was missing: a decoder took the fields
that follow for it. The default header now carries one (all layers, level 31:
no level constraint).
---
 src/obu_encoder.rs     | 3 +--
 src/sequence_header.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a55e434..72f3a48 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -100,8 +100,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 if ecx.reduced_still_picture_header {
                     // TODO
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5);
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..8d02bb9 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![OperatingPoint { idc: 0, seq_level_idx: 31, seq_tier: Some(false) }],
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From c676f5711677732616bc9aaafe945592f7332d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:29 +0000
Subject: [PATCH 12/66] fix: encode a repeated sequence header the same way

Encoding the first header turned the absent colour description into a present
one, so the next copy of the same header came out different, while repeated
sequence headers must be identical within a coded sequence.
---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 72f3a48..41d469d 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -202,20 +202,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bits_with_size(out_bits, cd.transfer_characteristics as u32, 8);
                     self.coder.push_bits_with_size(out_bits, cd.matrix_coefficients as u32, 8);
                 }
-                if ecx.color_config.color_description.is_none() {
-                    ecx.color_config.color_description = Some( ColorDescription {
-                        color_primaries: CP_UNSPECIFIED,
-                        transfer_characteristics: TC_UNSPECIFIED,
-                        matrix_coefficients: MC_UNSPECIFIED
-                    });
-                }
+                let color_description = ecx.color_config.color_description.unwrap_or(ColorDescription {
+                    color_primaries: CP_UNSPECIFIED,
+                    transfer_characteristics: TC_UNSPECIFIED,
+                    matrix_coefficients: MC_UNSPECIFIED
+                });
                 if ecx.color_config.mono_chrome {
                     self.coder.push_bit(out_bits, ecx.color_config.color_range as u8);
                     ecx.color_config.subsampling_x = true;
                     ecx.color_config.subsampling_y = true;
                     ecx.color_config.chroma_sample_position = CSP_UNKNOWN;
                     ecx.color_config.separate_uv_delta_q = false;
-                } else if ecx.color_config.color_description.unwrap() == (ColorDescription {
+                } else if color_description == (ColorDescription {
                     color_primaries: CP_BT_709,
                     transfer_characteristics: TC_SRGB,
                     matrix_coefficients: MC_IDENTITY
-- 
2.43.0


From 78bc3b4497372d18f3b7962e8c858c171c8143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 13/66] fix: write metadata type 5 for a timecode

It was written as type 3, which is scalability.
---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 41d469d..f7561fc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1522,7 +1522,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
                             self.coder.push_bit(out_bits, 1);
-- 
2.43.0


From 66a0680614351d272b23e8d5313436e40de8e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:32 +0000
Subject: [PATCH 14/66] fix: start each symbol coding session with its own bit
 count

The count of the sessions before was kept, so the padding of a reused coder
did not end on a byte boundary.
---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..19e0a6c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -137,6 +137,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 79159eac3a650023d09c37f3bd6a12f977419778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 15/66] fix: count each bit the symbol decoder reads once, and
 stay within its size

Every bit was subtracted twice, so exit_decoder left part of the session's
bytes in the queue, and a decoder that ran out of its own bytes went on into
the data that follows instead of reading zeros.
---
 src/bool_coder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 19e0a6c..54f9511 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -90,12 +90,12 @@ impl BoolCoder {
         let bits: u8 = 15 - msb16(self.bool_range as u16);
         self.bool_range <<= bits;
         let mut new_data: i32 = 0;
-        for _ in 0..(bits as i32) {
-            if let Some(bit) = in_bits.pop_front() {
-                new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
+        for i in 0..(bits as i32) {
+            new_data <<= 1;
+            if i<self.bool_max_bits {
+                if let Some(bit) = in_bits.pop_front() { new_data += bit as i32; }
+                else { assert!(false); }
             }
-            else { assert!(false); }
         }
         self.bool_value = new_data ^ (((self.bool_value + 1) << bits) - 1);
         self.bool_max_bits -= bits as i32;
-- 
2.43.0


From 3c824f5e7cf740535dee665323ac8f65ca036e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:36 +0000
Subject: [PATCH 16/66] fix: code the largest uvlc value, and detect a uvlc
 that is cut off

encode_uvlc overflowed for 2^32-1, which is coded as 32 leading zeros alone,
and decode_uvlc looped for ever when the bits ran out before the leading 1.
---
 src/bool_coder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 54f9511..5483b32 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -231,10 +231,11 @@ impl BoolCoder {
     }
 
     pub fn encode_uvlc(&mut self, out_bits: &mut Vec<u8>, val: u32) {
-        let v: u64 = (val + 1) as u64;
+        let v: u64 = val as u64 + 1;
         let n = msb64(v);
         for _ in 0..n { out_bits.push(0) }
         out_bits.push(1);
+        if n>=32 { return; }
         for i in (0..n).rev() { out_bits.push(((v>>i)&1) as u8); }
     }
 
@@ -246,6 +247,7 @@ impl BoolCoder {
                 if done { break; }
                 else { lz += 1; }
             }
+            else { assert!(false); }
         }
         if lz>=32 { return ((1u64<<32) - 1) as u32; }
         let mut v: u64 = 0;
-- 
2.43.0


From db4f540452a38eae657e83b9583f214c050c1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 17/66] sim hook: observe each frame read (guarded by cfg
 av1enc_sim)

---
 src/main.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 9dd5ab2..23bdce8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,6 +44,24 @@ fn input_error(e: &io::Error) -> ! {
     process::exit(1);
 }
 
+// Simulation hook (built only with --cfg av1enc_sim): appends one line per frame that was read, with
+// the length and a hash of each plane, to the file named by AV1ENC_SIM_FRAMES.
+#[cfg(av1enc_sim)]
+fn sim_observe_frame(index: usize, frame: &Frame) {
+    let path = match std::env::var("AV1ENC_SIM_FRAMES") { Ok(p) => p, Err(_) => return };
+    let mut line = format!("{}", index);
+    for plane in [&frame.original_y, &frame.original_u, &frame.original_v].iter() {
+        let mut hash: u64 = 0xcbf29ce484222325;
+        for sample in plane.iter() {
+            hash = (hash ^ *sample as u64).wrapping_mul(0x100000001b3);
+        }
+        line += &format!(" {}:{:016x}", plane.len(), hash);
+    }
+    line += "\n";
+    let mut file = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
+    file.write_all(line.as_bytes()).unwrap();
+}
+
 fn main() {
 
     eprintln!(
@@ -117,6 +135,9 @@ fn main() {
             process::exit(1);
         }
 
+        #[cfg(av1enc_sim)]
+        sim_observe_frame(fr, &frame);
+
         if fr==0 {
             // encode sequence header
             let mut sequence_header_obu = OBU_SEQUENCE_HEADER(SequenceHeader::new(
-- 
2.43.0


From 8c07234aefbe7ca13be6169698a325ce59d36a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:58 +0000
Subject: [PATCH 18/66] sim hook: let a simulator drive the unit encoder
 (guarded by cfg av1enc_sim)

---
 src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0966ba7..4a663f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,4 +5,31 @@ mod cdf;
 mod common;
 mod block;
 mod frame;
-mod sequence_header;
\ No newline at end of file
+mod sequence_header;
+
+// Simulation hook (built only with --cfg av1enc_sim): lets a simulator drive the unit encoder, which
+// otherwise belongs to the binary.
+#[cfg(av1enc_sim)]
+#[macro_use] extern crate enum_primitive;
+#[cfg(av1enc_sim)]
+#[macro_use] extern crate lazy_static;
+#[cfg(av1enc_sim)]
+mod quantizer;
+#[cfg(av1enc_sim)]
+pub mod obu;
+#[cfg(av1enc_sim)]
+pub mod encoder;
+#[cfg(av1enc_sim)]
+pub mod binary_reader;
+#[cfg(av1enc_sim)]
+pub mod binary_writer;
+#[cfg(av1enc_sim)]
+pub mod obu_encoder;
+#[cfg(av1enc_sim)]
+pub mod tile_encoder;
+#[cfg(av1enc_sim)]
+pub mod sim {
+    pub use constants::*;
+    pub use frame::*;
+    pub use sequence_header::*;
+}
-- 
2.43.0


From 108a5cca72cd33bd29b840dd5978c18d523fad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:29 +0000
Subject: [PATCH 19/66] fix: take a symbol decoder's size of 256 MiB and more
 as it is announced

---
 src/bool_coder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 5483b32..eed2c0d 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -19,7 +19,7 @@ use constants::InterpFilter::*;
 pub struct BoolCoder{
     bool_value: i32,
     bool_range: i32,
-    bool_max_bits: i32,
+    bool_max_bits: i64,
     bool_value_last_zero: bool,
     bool_value_zero_count: i32,
     bool_first: bool,
@@ -69,7 +69,7 @@ impl BoolCoder {
         }
         self.bool_value = (((1i32 << 15) - 1) ^ buf) as i32;
         self.bool_range = 1<<15;
-        self.bool_max_bits = 8 * sz as i32 - 15;
+        self.bool_max_bits = 8 * sz as i64 - 15;
     }
 
     pub fn decode_symbol(&mut self, in_bits: &mut VecDeque<u8>, cdf: &mut [i32]) -> u64 {
@@ -92,13 +92,13 @@ impl BoolCoder {
         let mut new_data: i32 = 0;
         for i in 0..(bits as i32) {
             new_data <<= 1;
-            if i<self.bool_max_bits {
+            if (i as i64)<self.bool_max_bits {
                 if let Some(bit) = in_bits.pop_front() { new_data += bit as i32; }
                 else { assert!(false); }
             }
         }
         self.bool_value = new_data ^ (((self.bool_value + 1) << bits) - 1);
-        self.bool_max_bits -= bits as i32;
+        self.bool_max_bits -= bits as i64;
 
         // update cdf
         let rate: i32 = 4 + (cdf[N as usize] > 31) as i32 + msb16(N as u16) as i32;
@@ -127,7 +127,9 @@ impl BoolCoder {
     }
 
     pub fn exit_decoder(&mut self, in_bits: &mut VecDeque<u8>) {
-        for _ in 0..self.bool_max_bits { in_bits.pop_front(); }
+        for _ in 0..self.bool_max_bits {
+            if in_bits.pop_front().is_none() { break; }
+        }
         self.bool_max_bits = 0;
     }
 
-- 
2.43.0


From 89c1bcdaa5425b45cdb9815c07e51ad2253624e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 20/66] fix: do not open a symbol decoder on bits beyond its
 announced size

---
 src/bool_coder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index eed2c0d..09b593a 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -63,9 +63,12 @@ impl BoolCoder {
 
     pub fn init_decoder(&mut self, in_bits: &mut VecDeque<u8>, sz: u32) {
         let mut buf: i32 = 0;
-        for _ in 0..15 {
-            if let Some(bit) = in_bits.pop_front() { buf = (buf << 1) + bit as i32; }
-            else { assert!(false); }
+        for i in 0..15 {
+            buf <<= 1;
+            if i<8 * sz as i64 {
+                if let Some(bit) = in_bits.pop_front() { buf += bit as i32; }
+                else { assert!(false); }
+            }
         }
         self.bool_value = (((1i32 << 15) - 1) ^ buf) as i32;
         self.bool_range = 1<<15;
-- 
2.43.0


From 7003be393df60ff094bcec86bb71c02a88ee6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:04 +0000
Subject: [PATCH 21/66] fix: parse options in a loop, not by a recursion that
 keeps every remainder

Every option parsed kept a copy of all the arguments after it until the
parser returned: ten thousand options took 5 GB.
---
 src/option.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index ee0441f..7384b82 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -223,20 +223,23 @@ impl CommandOption {
         process::exit(0);
     }
 
-    pub fn parse(args: Vec<String>, config: &mut Config) -> Result<Vec<String>, String> {
-        if args.len() == 0 { Ok(vec![]) }
-        else {
-            let arg = &args[0];
-            if arg.starts_with("-") {
-                match {
-                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
-                    else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
-                } {
-                    Ok(v) => CommandOption::parse(v, config),
-                    Err(e) => Err(e)
+    pub fn parse(mut args: Vec<String>, config: &mut Config) -> Result<Vec<String>, String> {
+        while args.len() > 0 {
+            let rest = {
+                let arg = &args[0];
+                if arg.starts_with("-") {
+                    match {
+                        if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                        else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
+                    } {
+                        Ok(v) => v,
+                        Err(e) => return Err(e)
+                    }
                 }
-            }
-            else{ return Err("option name must start with '-'.".to_string()) }
+                else{ return Err("option name must start with '-'.".to_string()) }
+            };
+            args = rest;
         }
+        Ok(vec![])
     }
 }
\ No newline at end of file
-- 
2.43.0


From ae3bc50af190a14163771cacc5665de0dac057e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:12 +0000
Subject: [PATCH 22/66] fix: a monochrome sequence header has no
 separate_uv_delta_q bit

The header had one bit too many, and everything after it was misread.
---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f7561fc..0ffc420 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -250,7 +250,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From 385c89d8a6af23b0f64e413fe2d6bca05c55b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:12 +0000
Subject: [PATCH 23/66] fix: take the number of order hint bits from the
 encoder context

Nothing ever set the unit encoder's own count, so that a sequence header
with order hints subtracted one from zero: a panic, or 8 bits announced.
---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0ffc420..5f3612f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -174,6 +174,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.seq_force_integer_mv = SELECT_INTEGER_MV;
                     }
                     if ecx.enable_order_hint {
+                        self.order_hint_bits = ecx.order_hint_bits as usize;
                         self.coder.push_bits_with_size(out_bits, (self.order_hint_bits-1) as u32, 3);
                     } else {
                         self.order_hint_bits = 0;
-- 
2.43.0


From 2e16c17bcc296fae864a2901fcfaaa034558f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:52 +0000
Subject: [PATCH 24/66] fix: order hints and sign biases are indexed by
 reference frame, LAST_FRAME to ALTREF_FRAME

---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..10675e9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; TOTAL_REFS_PER_FRAME],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; TOTAL_REFS_PER_FRAME],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -114,9 +114,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; TOTAL_REFS_PER_FRAME],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; TOTAL_REFS_PER_FRAME],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 170251be698ae48a8790d923927f458f0554e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 25/66] fix: showing an existing frame ends its frame header

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5f3612f..9699259 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -358,6 +358,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // load grain params
                                 // TODO
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From 08893cb425974da40842d32414737b865f1aa49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 26/66] fix: tile start positions are lists that start out
 empty

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9699259..0b67a55 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -777,14 +777,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
                         let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
@@ -794,14 +793,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From a60ef132d987fda92ccc51799ee34bc8e435a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 27/66] fix: tile count increments stop without a zero bit at
 their maximum, and the minimum of the rows is not negative

---
 src/obu_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0b67a55..9539f47 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -775,7 +775,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2() < max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut start_sb = 0;
                         ecx.mi_col_starts.clear();
@@ -786,12 +788,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2() < max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         start_sb = 0;
                         ecx.mi_row_starts.clear();
-- 
2.43.0


From a1eba52b82b9ab42de379b65b98a9b9f55a5f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 28/66] fix: the logarithm of the number of tiles rounds up

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 56628f3..a5f38d3 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -383,10 +383,10 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        self.tile_col_starts.len().next_power_of_two().trailing_zeros() as usize
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        self.tile_row_starts.len().next_power_of_two().trailing_zeros() as usize
     }
 }
\ No newline at end of file
-- 
2.43.0


From 89bc6d0303b690b20bf7461f8a50a203cd341eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 29/66] fix: frame ids and planes of the sequence header hold
 for its frame headers

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9539f47..0926156 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -126,7 +126,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 } else {
                     self.coder.push_bit(out_bits, if let Some(_) = sequence_header.frame_id { 1 } else { 0 } as u8);
                 }
+                ecx.frame_id_numbers_present_flag = sequence_header.frame_id.is_some();
                 if let Some(ref fid) = sequence_header.frame_id {
+                    ecx.delta_frame_id_length = fid.delta_frame_id_length as usize;
+                    ecx.additional_frame_id_length = fid.additional_frame_id_length as usize;
                     self.coder.push_bits_with_size(out_bits, (fid.delta_frame_id_length-2) as u32, 4);
                     self.coder.push_bits_with_size(out_bits, (fid.additional_frame_id_length-1) as u32, 3);
                 }
@@ -197,6 +200,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From a9d42649ef30052b7170dc32718bfa17c6a4be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 30/66] fix: switch frames and shown key frames are error
 resilient

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0926156..12c1e47 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -387,7 +387,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From 05bb68d33c9edb064c530d28eaf453e8fbef1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 31/66] fix: buffer removal delays are written for operating
 points with decoder model parameters only

---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 12c1e47..7bfb8c0 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -456,6 +456,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bit(out_bits, dmi.buffer_removal_delay_present as u8);
                         if dmi.buffer_removal_delay_present {
                             for op in ecx.operating_points_decoder_model.iter() {
+                                if op.operating_parameters_info.is_none() {
+                                    continue;
+                                }
                                 let op_pt_idc = op.idc;
                                 let in_temporal_layer = (op_pt_idc>>ecx.temporal_id) & 1 > 0;
                                 let in_spatial_layer = (op_pt_idc>>(ecx.spatial_id+8)) & 1 > 0;
-- 
2.43.0


From a4ba43a00c9c33f1ee014549da9fcfc2af7fe733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 32/66] fix: error resilient frames carry the order hints of
 their references

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7bfb8c0..7805efc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -480,6 +480,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From 5c7063e3568fc7d917c2e6089f80430ab7d981b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 33/66] fix: frame sizes are written with the bit counts of the
 sequence header

---
 src/obu_encoder.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7805efc..0e5fd59 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -37,6 +37,8 @@ pub struct OBUEncoder<'a, 'b> where 'a: 'b {
     tile_num: usize,
     id_len: usize,
     all_frames: usize,
+    frame_width_bits: u8,
+    frame_height_bits: u8,
     ectx: Rc<RefCell<EncoderContext>>,
 }
 
@@ -52,6 +54,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             tile_num: 1,
             id_len: 0,
             all_frames: 0,
+            frame_width_bits: 0,
+            frame_height_bits: 0,
             ectx: Rc::clone(ectx),
         }
     }
@@ -117,6 +121,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
+                self.frame_width_bits = nw as u8;
+                self.frame_height_bits = nh as u8;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
@@ -490,8 +496,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = self.frame_width_bits;
+                            let nh = self.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -532,8 +538,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = self.frame_width_bits;
+                                let nh = self.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -604,8 +610,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = self.frame_width_bits;
+                                        let nh = self.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -657,8 +663,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = self.frame_width_bits;
+                                    let nh = self.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From 2aed540a9c93919934d68edeb5e8c6c12c176f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 34/66] fix: the render size is compared with the upscaled
 size, which is what it defaults to

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0e5fd59..f28aea0 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -521,7 +521,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -563,7 +563,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -635,7 +635,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -688,7 +688,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 0a9ef369c3cc0845798f20a97f7d993ccdd80c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 35/66] fix: intra block copy, high precision and reference
 motion vectors are written as asked for

---
 src/obu_encoder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f28aea0..7ac45be 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -475,9 +475,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                         }
                     }
-                    frame.allow_high_precision_mv = false;
-                    frame.use_ref_frame_mvs = false;
-                    frame.allow_intrabc = false;
+                    if ecx.frame_is_intra {
+                        frame.allow_high_precision_mv = false;
+                        frame.use_ref_frame_mvs = false;
+                    } else {
+                        frame.allow_intrabc = false;
+                    }
                     if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
                         ecx.refresh_frame_flags = self.all_frames as u8;
                     } else {
@@ -531,8 +534,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.render_height = frame.frame_height;
                         }
 
-                        if frame.allow_screen_content_tools>0 {
+                        if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                        } else {
+                            frame.allow_intrabc = false;
                         }
                     } else {
                         if frame.frame_type==INTRA_ONLY_FRAME {
@@ -575,6 +580,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                             if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                                 self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                            } else {
+                                frame.allow_intrabc = false;
                             }
                         } else {
                             if !ecx.enable_order_hint {
-- 
2.43.0


From 51064060838a1802bf3b0b82a5c03ad3f854507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 36/66] fix: the distance of order hints is signed

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7ac45be..ca9caec 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -740,10 +740,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     if !ecx.enable_order_hint {
                                         0
                                     } else {
-                                        let mut diff = hint - frame.order_hint as usize;
+                                        let mut diff = hint as isize - frame.order_hint as isize;
                                         let m = 1 << (ecx.order_hint_bits-1);
                                         diff = (diff&(m-1)) - (diff&m);
-                                        diff
+                                        (diff > 0) as usize
                                     }
                                 };
                             }
-- 
2.43.0


From e2873c398a86ed56b977a9d351ffdaae29871b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 37/66] fix: there are eight segment features, unsigned ones
 have no sign bit, and absent ones stay absent

---
 src/constants.rs   | 8 ++++----
 src/obu_encoder.rs | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 8377541..d1db7cc 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index ca9caec..4283ba7 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -897,7 +897,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
+                                    let clipped_value;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
@@ -905,11 +905,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
+                                        frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                 }
                             }
                         }
-- 
2.43.0


From 21edfea153ad1a21ff3c7297e9d8ec122b87199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 38/66] fix: delta_q_res takes two bits

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4283ba7..267cbcc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -940,7 +940,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From 05bda5f91d8d058160b0a6f16a3050a2650e1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 39/66] fix: losslessness follows from the base quantizer
 index, not from that of the last block

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 267cbcc..351b412 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -978,7 +978,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From d7e6f13d55bf0cd074d321d16a574891397e6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 40/66] fix: a loop filter mode delta is written when it is the
 one updated

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 351b412..cacf274 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1043,7 +1043,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From ce3d35acfb96631a03868caab0e4867f823c8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 41/66] fix: no cdef parameters in streams without cdef

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cacf274..e76dbf2 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1052,7 +1052,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
                         frame.cdef_params.cdef_y_pri_strength[0] = 0;
                         frame.cdef_params.cdef_y_sec_strength[0] = 0;
-- 
2.43.0


From 64d42719d0bbf61de204e2b1f4a3bb83bc43f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 42/66] fix: loop restoration parameters are written in streams
 with restoration, not in those without

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e76dbf2..8b81442 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1079,7 +1079,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
-- 
2.43.0


From 4aa46ac8ea3cc30a9d954b972952bc6cdb6837ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:01 +0000
Subject: [PATCH 43/66] fix: lr_unit_shift is a flag and an extra flag, not one
 number

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8b81442..39d4a91 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1101,7 +1101,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>=1) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From 22c23167cc54b345a1bf5e60c7802fcd56d88d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:58 +0000
Subject: [PATCH 44/66] fix: global motion is written for every reference
 frame, with the parameters asked for

---
 src/obu_encoder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 39d4a91..8e8fc3b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1210,14 +1210,15 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    let gm_params = ecx.gm_params;
+                    for rf in (LAST_FRAME as usize)..=(ALTREF_FRAME as usize) {
                         ecx.gm_type[rf] = IDENTITY;
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
                     if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                        for rf in (LAST_FRAME as usize)..=(ALTREF_FRAME as usize) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
@@ -1304,6 +1305,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             };
 
                             if typ >= ROTZOOM {
+                                for i in 2..6 {
+                                    ecx.gm_params[rf][i] = gm_params[rf][i];
+                                }
                                 encode_global_param(typ, rf, 2, &ecx, self.coder);
                                 encode_global_param(typ, rf, 3, &ecx, self.coder);
                                 if typ==AFFINE {
@@ -1315,6 +1319,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                             }
                             if typ >= TRANSLATION {
+                                for i in 0..2 {
+                                    ecx.gm_params[rf][i] = gm_params[rf][i];
+                                }
                                 encode_global_param(typ, rf, 0, &ecx, self.coder);
                                 encode_global_param(typ, rf, 1, &ecx, self.coder);
                             }
-- 
2.43.0


From a023b0838e4cd5a1228f9b8071884714e4d496d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:58 +0000
Subject: [PATCH 45/66] fix: a rotation and zoom has the same zoom in both
 directions

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8e8fc3b..fc24d11 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1315,7 +1315,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From 93453b296d3ee40b23da626e7766143cc6b8c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:58 +0000
Subject: [PATCH 46/66] fix: global motion parameters are recentred around
 those of the reference frame

---
 src/obu_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index fc24d11..1b676b6 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1252,13 +1252,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v >= r {
+                                        (v-r) << 1
                                     } else {
-                                        r + (v>>1)
+                                        ((r-v)<<1) - 1
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1289,12 +1289,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From 69886b895be2363ada48220e2dc35c889d179efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:58 +0000
Subject: [PATCH 47/66] fix: film grain parameters are written in streams with
 film grain, for frames that can be shown

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 1b676b6..7db216f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1330,9 +1330,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_some() && !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else if ecx.film_grain_params.is_some() {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 522a42052eba8f829c947080fa6a7d95a1ed7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:45 +0000
Subject: [PATCH 48/66] fix: an inter frame of its own size does not claim the
 size of its first reference

---
 src/obu_encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7db216f..2c1a0c9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -607,12 +607,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                             if ecx.frame_size_override_flag && !frame.error_resilient_mode {
                                 // frame size with refs
-                                let mut found_ref = false;
-                                for i in 0..REFS_PER_FRAME {
-                                    // FIXME
-                                    found_ref = true;
+                                // sizes of reference frames are not kept, so the size is always written
+                                let found_ref = false;
+                                for _ in 0..REFS_PER_FRAME {
                                     self.coder.push_bit(out_bits, found_ref as u8);
-                                    break;
                                 }
                                 if !found_ref {
                                     // frame size
-- 
2.43.0


From 4d2f9dac3462a57fe31fc79f8503eafc8ed6413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:30 +0000
Subject: [PATCH 49/66] fix: a frame without cdef strengths can be written
 where none are coded

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2c1a0c9..0a01b1e 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1052,10 +1052,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // cdef params
                     if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From 5b237a67a91353d487abcd23efd6c2e058789e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 50/66] fix: a frame without quantizer deltas has no loop
 filter deltas either

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0a01b1e..176de2a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -957,6 +957,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.delta_lf_params.delta_lf_res = 0;
                             frame.delta_lf_params.delta_lf_multi = false;
                         }
+                    } else {
+                        frame.delta_lf_params.delta_lf_present = false;
+                        frame.delta_lf_params.delta_lf_res = 0;
+                        frame.delta_lf_params.delta_lf_multi = false;
                     }
 
                     if frame.primary_ref_frame==PRIMARY_REF_NONE as u8 {
-- 
2.43.0


From 807c0621b500b70b10124b2f528120e46442d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 51/66] fix: chroma restoration units are sized from the luma
 ones

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 176de2a..ba03857 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1115,8 +1115,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From a9c4e2c0988a018dc20fe57461a9a7af3be2077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:15 +0000
Subject: [PATCH 52/66] Simulation hook: tables and motion vectors too (cfg
 av1enc_sim)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4a663f9..4f29c6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,8 @@ pub mod obu_encoder;
 pub mod tile_encoder;
 #[cfg(av1enc_sim)]
 pub mod sim {
+    pub use cdf::*;
+    pub use common::*;
     pub use constants::*;
     pub use frame::*;
     pub use sequence_header::*;
-- 
2.43.0


From 6f2eb7241a9064aff40a02080b0dd27e651c7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:04 +0000
Subject: [PATCH 53/66] fix: the chroma mode is coded with the table of the
 luma mode

---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 09b593a..5f21d75 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -408,13 +408,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From e04e9e80f4feea25841c1d699807802bd4077ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 54/66] fix: splitting at the frame edge is coded with the
 probabilities of the partitions it stands for

---
 src/bool_coder.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 5f21d75..5c2e31e 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -461,14 +461,14 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
+                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -486,15 +486,15 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
                    partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
                    partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+                   partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
         if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 1fb9c9741a3abeae512a03241f1be46e3203a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 55/66] fix: the transform split is coded with the table for
 the transforms above and to the left

---
 src/bool_coder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 5c2e31e..269a693 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -538,19 +538,19 @@ impl BoolCoder {
                 } else { tx_width[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] } < tx_width[tx_size as usize];
         let left = if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] } < tx_height[tx_size as usize];
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-        let ctx = (tx_sz_sqr_up!=max_tx_size && max_tx_size>TX_8X8) as usize * 3 + (TX_SIZES-1-max_tx_size as usize) * 6 + above + left;
+        let ctx = (tx_sz_sqr_up!=max_tx_size && max_tx_size>TX_8X8) as usize * 3 + (TX_SIZES-1-max_tx_size as usize) * 6 + above as usize + left as usize;
         let mut cdf: &mut [i32] = &mut tile_cdf.txfm_split[ctx];
         self.encode_symbol(tx_fm_split as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 79ee89e837fe23c802fc81b173696845ca713537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:25 +0000
Subject: [PATCH 56/66] fix: block sizes in units of four samples are coded
 with the partition table of their own size

---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index d1db7cc..ad33fe9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From e11c621ef28cc34145cdca7abf6ae8b6e3a4396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:59 +0000
Subject: [PATCH 57/66] fix: chroma from luma alphas are coded with the table
 of the two signs

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 269a693..de74005 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1308,13 +1308,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+(cfl_alpha_signs+1)/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 32db6be2a886b0ee506c7f30a5422f5d7b1b7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:14 +0000
Subject: [PATCH 58/66] fix: the transform depth is coded with the table for
 the height of the block to the left

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index de74005..cd6aad8 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -511,7 +511,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From f3571a986fdaea4ee2b268619095e68d78f075e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:40 +0000
Subject: [PATCH 59/66] fix: the interpolation filter is coded with the table
 for neighbours that share its first reference

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index cd6aad8..81d4ed6 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -769,12 +769,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From 1d66315f0b6a5d899bdb2f6b60ab5449a1f6f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:55 +0000
Subject: [PATCH 60/66] fix: the kind of compound reference is coded with the
 table for two one-sided neighbours

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 81d4ed6..8fb1f8e 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1186,7 +1186,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From 64cda03faf565995a0c460b641d2fc2b3932e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 61/66] fix: the sign of the first coefficient is coded instead
 of its context

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 8fb1f8e..59dc54b 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -984,14 +984,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -999,9 +999,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
@@ -1012,13 +1012,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sign_sum<0 { 1 } else if sign_sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From 44da334eb434ef7ffb320653772e7ed477bd557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 62/66] fix: the last coefficient is coded with a table that
 exists

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 59dc54b..4d9a137 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -979,7 +979,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From ee64a4bfe51ece7ff090161938c4782fba877b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:10 +0000
Subject: [PATCH 63/66] fix: mode info is held for the whole frame, whatever
 its size

---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index a5f38d3..7a90a00 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -255,7 +255,7 @@ impl Frame {
             original_u: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
             original_v: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2*((width+7)>>3)]; 2*((height+7)>>3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From c231171b276f1c444225b1cc6db65282a8ca4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:02 +0000
Subject: [PATCH 64/66] fix: transform types are coded as their place in the
 set

---
 src/bool_coder.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 4d9a137..e05b90c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1145,23 +1145,25 @@ impl BoolCoder {
         let intra_dir = if use_filter_intra { filter_intra_mode_to_intra_dir[filter_intra_mode] as usize } else {
             y_mode as usize
         };
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTRA_1 {
-            &mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTRA_1 {
+            (&mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set1)
         } else {
-            &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+            (&mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set2)
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|&t| t==intra_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTER_1 {
-            &mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTER_1 {
+            (&mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set1)
         } else if tx_set==TX_SET_INTER_2 {
-            &mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set12)
         } else {
-            &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set3)
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|&t| t==inter_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
-- 
2.43.0


From 75c186d11ddc55a7999bcfd342ca07be3850d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:38 +0000
Subject: [PATCH 65/66] fix: the transform sets of inter blocks have the
 numbers of their tables

---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index ad33fe9..33d74fe 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From 297de61cb50e1124bfa48448d514fdb328408430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:10 +0000
Subject: [PATCH 66/66] fix: the type of a luma transform is the one at its own
 place in the block

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4c109a2..31c822c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -109,7 +109,7 @@ pub fn compute_tx_type(plane: usize, tx_size: TxSize, block_x: usize, block_y: u
     }
     let tx_set = get_tx_set(tx_size, is_inter, reduced_tx_set);
     if plane==0 {
-        let tx_type = frame.get_mi(mi_row, mi_col).unwrap().tx_type;
+        let tx_type = frame.get_mi(block_y, block_x).unwrap().tx_type;
         if !is_tx_type_in_set(tx_set, tx_type, is_inter) {
             return DCT_DCT;
         } else {
-- 
2.43.0

