From a3bef7545efc75b6c636fd1fd3c14b859ef46575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 01/30] fix: NumDiff history depth: level 6 panicked, levels 5
 and 6 lost the oldest point, level 0 panicked

---
 src/hatanaka/numdiff.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..4d2468b 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -59,6 +59,7 @@ impl<const M: usize> NumDiff<M> {
         }
 
         let new: i64 = match self.m {
+            0 => data,
             1 => data + self.buf[0],
             2 => data + 2 * self.buf[0] - self.buf[1],
             3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
@@ -84,26 +85,27 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
-        self.rotate_history(data);
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
+        let new: i64 = match self.m {
+            0 => data,
+            1 => data - self.buf[0],
+            2 => data - 2 * self.buf[0] + self.buf[1],
+            3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
+            4 => data - 4 * self.buf[0] + 6 * self.buf[1] - 4 * self.buf[2] + self.buf[3],
             5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
+                data - 5 * self.buf[0] + 10 * self.buf[1] - 10 * self.buf[2] + 5 * self.buf[3]
+                    - self.buf[4]
             },
             6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
+                data - 6 * self.buf[0] + 15 * self.buf[1] - 20 * self.buf[2] + 15 * self.buf[3]
+                    - 6 * self.buf[4]
+                    + self.buf[5]
             },
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+
+        self.rotate_history(data);
+        new
     }
 }
 
-- 
2.43.0


From 77947636c3b71c3683797480dd4cff9eee8a317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 02/30] fix: OBS V3 observations start at column 4: LLI digit
 leaked into the value, leading column was dropped

---
 src/observation/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..6905eb9 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -493,7 +493,7 @@ fn parse_signals_v3(
         let observables = observables.unwrap();
 
         let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -507,7 +507,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -523,7 +523,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From dde53ca39bc4d59ebb862f7f7d9085bdcf4d3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 03/30] fix: epoch parsing: two digit year 79, fraction of
 seconds with any digit count, sub-microsecond digits outside of UTC/TAI

---
 src/epoch.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..09b5400 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
@@ -151,8 +151,6 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
@@ -160,17 +158,17 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
                     let nanos = item[dot + 1..].trim();
 
+                    // NAV RINEX: 100ms precision, OBS RINEX: 100ns precision,
+                    // the number of digits may vary up to 1ns precision.
+                    let digits = nanos.len().min(9);
+
                     ns = nanos
+                        .get(..digits)
+                        .ok_or(ParsingError::EpochParsing)?
                         .parse::<u64>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    ns *= 10_u64.pow(9 - digits as u32);
                 } else {
                     ss = item
                         .trim()
@@ -207,7 +205,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 return Err(ParsingError::EpochFormat);
             }
             let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
+                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
                 y, m, d, hh, mm, ss, ns, ts
             ))?;
             Ok(epoch)
-- 
2.43.0


From 7c9489eddf2ca73a4c79e7fbe1c41c4d06b5228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 04/30] fix: epoch parsing panicked on out of range calendar
 fields

---
 src/epoch.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 09b5400..591252a 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -188,16 +188,16 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             if y == 0 {
                 return Err(ParsingError::EpochFormat);
             }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
+            Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32)
+                .map_err(|_| ParsingError::EpochFormat)
         },
         TimeScale::TAI => {
             // Catch possible Hifitime panic on bad string content
             if y == 0 {
                 return Err(ParsingError::EpochFormat);
             }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
+            Epoch::maybe_from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32)
+                .map_err(|_| ParsingError::EpochFormat)
         },
         ts => {
             // Catch possible Hifitime panic on bad string content
@@ -260,7 +260,7 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0).map_err(|_| ParsingError::EpochFormat)
 }
 
 /*
-- 
2.43.0


From 73e28bc7b99a20800313b4a44cbc1bd1b69129d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 05/30] verification hooks: access to crate private functions
 behind cfg(rinex_verif)

---
 src/lib.rs         |  4 +++
 src/verif_hooks.rs | 82 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 309b966..9b83369 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,6 +74,10 @@ mod rtcm;
 #[cfg(test)]
 mod tests;
 
+#[cfg(rinex_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 use std::{
     collections::HashMap,
     fs::File,
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a271c50
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,82 @@
+//! Access to crate private functions, for the verification harnesses.
+//! Only compiled with `--cfg rinex_verif`.
+use crate::{
+    navigation::{NavFrame, NavKey},
+    observation::{ObsKey, Observations},
+    prelude::{Epoch, Header, ParsingError, RinexType, TimeScale, Version},
+};
+
+pub fn epoch_format(t: Epoch, ty: RinexType, revision: u8) -> String {
+    crate::epoch::format(t, ty, revision)
+}
+
+pub fn epoch_parse(s: &str, ts: TimeScale) -> Result<Epoch, ParsingError> {
+    crate::epoch::parse_in_timescale(s, ts)
+}
+
+pub fn epoch_parse_ionex(s: &str) -> Result<Epoch, ParsingError> {
+    crate::epoch::parse_ionex_utc(s)
+}
+
+pub fn epoch_parse_month(s: &str) -> Result<u8, ParsingError> {
+    crate::epoch::parse_formatted_month(s)
+}
+
+pub fn epoch_decompose(t: Epoch) -> (i32, u8, u8, u8, u8, u8, u32) {
+    crate::epoch::epoch_decompose(t)
+}
+
+pub fn fmt_rinex(content: &str, marker: &str) -> String {
+    crate::fmt_rinex(content, marker)
+}
+
+pub fn fmt_comment(content: &str) -> String {
+    crate::fmt_comment(content)
+}
+
+pub fn is_rinex_comment(content: &str) -> bool {
+    crate::is_rinex_comment(content)
+}
+
+pub fn obs_is_new_epoch(line: &str, v: Version) -> bool {
+    crate::observation::is_new_epoch(line, v)
+}
+
+pub fn obs_parse_epoch(
+    header: &Header,
+    content: &str,
+    ts: TimeScale,
+    observations: &mut Observations,
+) -> Result<ObsKey, ParsingError> {
+    crate::observation::parse_epoch(header, content, ts, observations)
+}
+
+#[cfg(feature = "nav")]
+pub fn nav_is_new_epoch(line: &str, v: Version) -> bool {
+    crate::navigation::is_new_epoch(line, v)
+}
+
+#[cfg(feature = "nav")]
+pub fn nav_parse_epoch(header: &Header, content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
+    crate::navigation::parse_epoch(header, content)
+}
+
+pub fn meteo_is_new_epoch(line: &str, v: Version) -> bool {
+    crate::meteo::is_new_epoch(line, v)
+}
+
+pub fn clock_is_new_epoch(line: &str) -> bool {
+    crate::clock::record::is_new_epoch(line)
+}
+
+pub fn doris_is_new_epoch(line: &str) -> bool {
+    crate::doris::is_new_epoch(line)
+}
+
+pub fn antex_is_new_epoch(line: &str) -> bool {
+    crate::antex::record::is_new_epoch(line)
+}
+
+pub fn ionex_find_exponent(v: f64) -> i8 {
+    crate::ionex::Quantized::find_exponent(v)
+}
-- 
2.43.0


From e194d0e12493ba2e4a0d05dc8eff88be396f8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 06/30] fix: TIME OF FIRST/LAST OBS: fraction of seconds was
 off by ten, GLO and QZS time systems were rejected, omitted time system
 shifted the date

---
 src/header/parsing.rs | 62 ++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..5cb4f9f 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -563,32 +563,30 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let mut time_of_first_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
+                let default_ts = match constellation {
+                    Some(Constellation::Mixed) | None => TimeScale::TAI,
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?
                     },
-                }
+                };
+                let time_of_first_obs = Self::parse_time_of_obs_default(content, default_ts)?;
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let mut time_of_last_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
+                let default_ts = match constellation {
+                    Some(Constellation::Mixed) | None => TimeScale::TAI,
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?
                     },
-                }
+                };
+                let time_of_last_obs = Self::parse_time_of_obs_default(content, default_ts)?;
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -964,7 +962,18 @@ impl Header {
         })
     }
 
+    #[cfg(test)]
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
+        // We set TAI as "default" Timescale.
+        Self::parse_time_of_obs_default(content, TimeScale::TAI)
+    }
+
+    /// Parses TIME OF FIRST/LAST OBS, `default_ts` applies when
+    /// the [TimeScale] is omitted.
+    fn parse_time_of_obs_default(
+        content: &str,
+        default_ts: TimeScale,
+    ) -> Result<Epoch, ParsingError> {
         let (_, rem) = content.split_at(2);
         let (y, rem) = rem.split_at(4);
         let (m, rem) = rem.split_at(6);
@@ -973,7 +982,7 @@ impl Header {
         let (mm, rem) = rem.split_at(6);
         let (ss, rem) = rem.split_at(5);
         let (_dot, rem) = rem.split_at(1);
-        let (ns, rem) = rem.split_at(8);
+        let (ns, rem) = rem.split_at(7);
 
         // println!("Y \"{}\" M \"{}\" D \"{}\" HH \"{}\" MM \"{}\" SS \"{}\" NS \"{}\"", y, m, d, hh, mm, ss, ns); // DEBUG
         let mut y = y
@@ -1013,29 +1022,26 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
-            .parse::<u32>()
+        let ns = ns.trim();
+        ns.parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         /*
-         * We set TAI as "default" Timescale.
          * Timescale might be omitted in Old RINEX formats,
-         * In this case, we exit with "TAI" and handle that externally.
-         */
-        let mut ts = TimeScale::TAI;
-        let rem = rem.trim();
-
-        /*
-         * Handles DORIS measurement special case,
+         * in this case, we use the default one.
+         * DORIS measurement special case:
          * offset from TAI, that we will convert back to TAI later
          */
-        if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
-        }
+        let ts = match rem.trim() {
+            "" => default_ts,
+            "DOR" => TimeScale::TAI,
+            "GLO" => TimeScale::UTC,
+            "QZS" => TimeScale::QZSST,
+            ts => TimeScale::from_str(ts)?,
+        };
 
         Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
+            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:0<7} {}",
             y, m, d, hh, mm, ss, ns, ts
         ))
         .map_err(|_| ParsingError::DatetimeParsing)
-- 
2.43.0


From c2cac70515d7c9d5914a54ac5a602dc4d8072665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 07/30] fix: OBS V2 vehicles list: omitted constellation of the
 first vehicle shifted the whole list

---
 src/observation/parsing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 6905eb9..8e3fe78 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -171,7 +171,8 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
+    // NB: the first vehicle may start with a blank (omitted constellation)
+    let rem = rem.trim_end();
     let remainder_len = rem.len();
 
     if header.version.major < 3 {
@@ -187,7 +188,11 @@ fn parse_observations(
         // grab following lines (if we need to)
         while systems_str_len / 3 < num_sat.into() {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
+                // content starts at column 32
+                let trimmed = match line.get(..32) {
+                    Some(blank) if blank.trim().is_empty() => line[32..].trim_end(),
+                    _ => line.trim(),
+                };
                 systems_str_len += trimmed.len();
                 systems_str.push_str(trimmed);
             } else {
-- 
2.43.0


From 1a88891097d0a58d60334f5e46aec4a7b3731ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 08/30] fix: OBS V2 header: observables count of 8 mod 9 lost
 its label, 9k was printed twice

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..3d9acd4 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -107,7 +107,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From aaf822aa355f513fd46de9f7880bcbff184606b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 09/30] fix: RNX2CRX: SBAS vehicles were rejected, V1 epochs
 had four digit years and misplaced vehicles

---
 src/hatanaka/compressor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..3c3d6c7 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -5,7 +5,7 @@ use crate::{
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
     observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    prelude::{Constellation, Observable, SV},
     BufWriter,
 };
 
@@ -107,8 +107,8 @@ impl<const M: usize> CompressorExpert<M> {
                 ));
             } else {
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
+                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}",
+                    y.rem_euclid(100),
                     m,
                     d,
                     hh,
@@ -147,9 +147,15 @@ impl<const M: usize> CompressorExpert<M> {
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
                 for observable in observables.iter() {
-- 
2.43.0


From b82b975a7fb1550ff2cdfa30e4dedc3ab2b99b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 10/30] fix: CRX2RNX: short compressed epochs were rejected, V1
 epochs wrapped on stale vehicles and panicked

---
 src/hatanaka/decompressor/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..36ebadd 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -296,10 +296,16 @@ impl<const M: usize> DecompressorExpert<M> {
 
     /// Process following line, in [State::Epoch]
     fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
-        let min_len = if self.v3 {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V3
+        // The minimal size only applies to plain descriptions.
+        // Compressed descriptions only reach the last byte that differs.
+        let min_len = if line.starts_with('&') || line.starts_with('>') {
+            if self.v3 {
+                State::MIN_COMPRESSED_EPOCH_SIZE_V3
+            } else {
+                State::MIN_COMPRESSED_EPOCH_SIZE_V1
+            }
         } else {
-            State::MIN_COMPRESSED_EPOCH_SIZE_V1
+            1
         };
 
         if len < min_len {
@@ -337,6 +343,10 @@ impl<const M: usize> DecompressorExpert<M> {
         // because it is used to determine the next production size
         self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
 
+        // Previous (longer) descriptions remain behind the last SV that is described
+        let start = Self::sv_slice_start(self.v3, self.numsat);
+        self.epoch_desc_len = self.epoch_desc_len.min(start);
+
         self.state = State::Clock;
         Ok(0)
     }
@@ -407,7 +417,7 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // construct all following lines that need to be wrapped and padded
         let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
+        let nb_extra = self.epoch_desc_len.saturating_sub(Self::V1_SV_OFFSET) / 36;
 
         for _ in 0..nb_extra {
             // extra padding
-- 
2.43.0


From 2b09db857be41e04a6125c482249ec27f5c9a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 11/30] fix: CRINEX parsing: compressed epochs were
 interpreted, V1 epochs were followed by blank lines

---
 src/record/parsing.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..947777b 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -258,7 +258,21 @@ impl Record {
 
                             line_buf.clear();
                             line_buf = recovered.to_string();
-                            line_buf.push('\n');
+
+                            // V1 revision: recovered epochs may terminate with a blank line
+                            if Self::is_new_epoch(&line_buf, &header) {
+                                line_buf.truncate(line_buf.trim_end().len());
+                            }
+
+                            // V1 revision: recovered content may already be terminated
+                            if !line_buf.ends_with('\n') {
+                                line_buf.push('\n');
+                            }
+                        } else if !eos {
+                            // compressed description was consumed:
+                            // it should not be interpreted
+                            line_buf.clear();
+                            continue;
                         }
                     },
                     Err(_) => {
-- 
2.43.0


From 50784b463712d9df875821e859dcbeda19d9bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 12/30] fix: carrier: Glonass G2 base frequency, QZSS L6 Z
 codes, B2A parsing

---
 src/carrier.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..5c8fb77 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -145,6 +145,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B2)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2B") {
             Ok(Self::B2B)
         } else if content.eq("B3") {
@@ -188,8 +190,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
@@ -505,7 +507,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From d8f6c0ea77e104d3bd1181379ef71c00ab27d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 13/30] fix: DORIS station: frequency shift factor, formatting
 of K factors, short descriptions panicked

---
 src/doris/station.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..c4d3d98 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -24,19 +24,23 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0
+            * Self::USO_FREQ
+            * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0
+            * Self::USO_FREQ
+            * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
 impl std::str::FromStr for Station {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        if content.len() < 40 {
+        if content.len() < 56 || !content.is_ascii() {
             return Err(ParsingError::DorisStationFormat);
         }
 
@@ -72,7 +76,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:<4} {:<29} {}  {} {:3}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
-- 
2.43.0


From d358669a74c9f2ff427da6ca004a47b0aa95c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 14/30] fix: leap seconds: short or blank descriptions
 panicked, unusual widths were rejected

---
 src/leap.rs | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..5736cd8 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -87,40 +87,33 @@ impl std::str::FromStr for Leap {
         let items = s.split_ascii_whitespace().collect::<Vec<_>>();
         let count = items.len();
 
-        if count < 3 {
-            // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
-        } else {
-            // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
-
-            ls.leap = leap
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
+        let leap = items.first().ok_or(ParsingError::LeapParsing)?;
+
+        ls.leap = leap.parse::<u32>().or(Err(ParsingError::LeapParsing))?;
 
-            let tls = tls
-                .trim()
+        if count > 2 {
+            // standard fields are 6 digits wide: always separated by a whitespace
+            let tls = items[1]
                 .parse::<u32>()
                 .or(Err(ParsingError::LeapParsing))?;
 
             ls.delta_tls = Some(tls);
 
-            let week = week
-                .trim()
+            let week = items[2]
                 .parse::<u32>()
                 .or(Err(ParsingError::LeapParsing))?;
 
             ls.week = Some(week);
 
-            let day = day
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
+            // timescale (if any) may directly follow the day
+            let day = items.get(3).ok_or(ParsingError::LeapParsing)?;
+
+            let (day, system) = match day.find(|c: char| !c.is_ascii_digit()) {
+                Some(offset) => day.split_at(offset),
+                None => (*day, items.get(4).copied().unwrap_or("")),
+            };
+
+            let day = day.parse::<u32>().or(Err(ParsingError::LeapParsing))?;
 
             ls.day = Some(day);
 
-- 
2.43.0


From d7a241ed140f7767860e41a79d7ffac8d271a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 15/30] fix: geodetic marker: monument number lost its first
 digit, marker types were formatted as human

---
 src/marker.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..c4c625a 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -61,7 +61,7 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        match s.to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -71,6 +71,7 @@ impl std::str::FromStr for MarkerType {
             "spaceborne" => Ok(Self::Spaceborne),
             "floating ice" => Ok(Self::FloatingIce),
             "floating buoy" => Ok(Self::FloatingBuoy),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "glacier" => Ok(Self::Glacier),
             "ballistic" => Ok(Self::Ballistic),
             "animal" => Ok(Self::Animal),
@@ -84,7 +85,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -117,9 +130,9 @@ impl GeodeticMarker {
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        if content.is_ascii() && content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From 78d866a66b3a2977111cce4d78e3aaf619bb3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 16/30] fix: hail indicator compared to rain increments

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..01a29cb 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
-- 
2.43.0


From 593f6f48f0463fd0d9314abe98a8dbc36c5d196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 17/30] fix: file names: day of year after noon, years before
 2000, batch above 9, yearly period, NAV single constellation, malformed names
 panicked

---
 src/lib.rs            | 28 +++++++++++++++++-----------
 src/production/ffu.rs |  6 +++++-
 src/production/mod.rs | 22 ++++++++++------------
 src/production/ppu.rs |  2 +-
 4 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9b83369..8ffef28 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -495,7 +495,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -503,13 +503,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy.rem_euclid(100))
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -524,7 +524,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -533,11 +533,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy.rem_euclid(100))
                             } else {
                                 "YY".to_string()
                             }
@@ -595,10 +595,16 @@ impl Rinex {
                         },
                     };
 
+                    let custom_details = custom
+                        .as_ref()
+                        .and_then(|custom| custom.v3_details.as_ref());
+
                     let src = match &header.rcvr {
                         Some(_) => 'R', // means GNSS rcvr
                         None => {
-                            if let Some(details) = &self.production.v3_details {
+                            if let Some(details) = custom_details {
+                                details.data_src.to_char()
+                            } else if let Some(details) = &self.production.v3_details {
                                 details.data_src.to_char()
                             } else {
                                 'U' // means: unspecified
@@ -685,7 +691,7 @@ impl Rinex {
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
@@ -727,14 +733,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = t0.day_of_year().floor() as u32,
             _ => {},
         }
 
diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..1092917 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -62,7 +62,11 @@ impl std::str::FromStr for FFU {
         if s.len() < 3 {
             return Err(Error::InvalidFFU);
         }
-        let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
+        let val = s
+            .get(..2)
+            .ok_or(Error::InvalidFFU)?
+            .parse::<u32>()
+            .map_err(|_| Error::InvalidFFU)?;
         let unit = match s.chars().nth(2) {
             Some('S') => Unit::Second,
             Some('M') => Unit::Minute,
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..3aea35c 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -147,9 +147,12 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
         if fname.len() < 13 {
             let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
+            if offset != 8 || fname.len() < 12 {
                 return Err(Error::NonStandardFileName);
             };
 
@@ -166,7 +169,8 @@ impl std::str::FromStr for ProductionAttributes {
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
+                // year uses 2 digit in old format
+                year: if year < 80 { year + 2_000 } else { year + 1_900 },
                 name: fname[..name_offset].to_string(),
                 doy: {
                     fname[4..7]
@@ -189,21 +193,15 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u32>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            let batch = fname[5..6]
+            let batch = fname[4..6]
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
             // determine type of RINEX first
             // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
-
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
+                name: fname[..4].to_string(), // IONEX files only use a short format
                 doy: {
                     fname[16..19]
                         .parse::<u32>()
diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From f749f2b5853c05b3e2c44f26c63e5b7fd764f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 18/30] fix: meteo: short lines panicked, continuation lines
 were not supported, omitted observations shifted the columns, header lines of
 8 or more observables

---
 src/meteo/formatting.rs |  9 +++++++--
 src/meteo/header.rs     |  6 +++---
 src/meteo/parsing.rs    | 20 +++++++++++++++-----
 src/meteo/sensor.rs     |  6 +++++-
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..7ab4175 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -27,7 +27,12 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            // 8 observations on first line, 10 per continuation line
+            if nth >= 8 && (nth - 8) % 10 == 0 {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +41,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..5bcacb8 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
@@ -56,7 +56,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..f9801cc 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -28,8 +28,11 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// ## Input
 ///   - header: [Header] parsed previously
 ///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
+    // 8 observations on first line, 10 per continuation line
+    let mut lines = content.lines();
+    let mut line = lines.next().ok_or(ParsingError::EpochFormat)?;
+    let mut remaining = 8;
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,7 +40,7 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let epoch = parse_utc_epoch(line.get(..offset).ok_or(ParsingError::EpochFormat)?)?;
 
     let header = &header
         .meteo
@@ -48,8 +51,14 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
 
     // parse all remaining fields
     for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+        if remaining == 0 {
+            line = lines.next().unwrap_or("");
+            offset = 4;
+            remaining = 10;
+        }
+        // trailing blanks may be omitted
+        let end = (offset + 7).min(line.len());
+        let slice = line.get(offset..end).unwrap_or("");
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
@@ -60,6 +69,7 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
             ));
         }
         offset += 7;
+        remaining -= 1;
     }
     Ok(ret)
 }
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..86f7f25 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -85,6 +85,10 @@ impl Render for Sensor {
 impl std::str::FromStr for Sensor {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
+        if content.len() < 20 + 26 + 11 + 2 || !content.is_ascii() {
+            return Err(ParsingError::ObservableParsing);
+        }
+
         let (model, rem) = content.split_at(20);
         let (s_type, rem) = rem.split_at(20 + 6);
         let (accuracy, rem) = rem.split_at(7 + 4);
@@ -133,7 +137,7 @@ impl std::fmt::Display for Sensor {
         }
 
         if let Some(accuracy) = self.accuracy {
-            write!(f, "{:^11.1}", accuracy)?
+            write!(f, "{:7.1}    ", accuracy)?
         } else {
             write!(f, "{:11}", "")?
         }
-- 
2.43.0


From 1b93d5cfafda5968bb12ab0ec7d092ce4c6b1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 19/30] fix: clock: damaged records panicked, long station
 names, GLO and QZS time systems

---
 src/clock/record.rs   | 16 ++++++++++++++--
 src/header/parsing.rs | 11 ++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..0e09e2b 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -141,9 +141,10 @@ pub(crate) fn is_new_epoch(line: &str) -> bool {
     // first 2 bytes match a ClockProfileType code
     if line.len() < 3 {
         false
-    } else {
-        let content = &line[..2];
+    } else if let Some(content) = line.get(..2) {
         ClockProfileType::from_str(content).is_ok()
+    } else {
+        false
     }
 }
 
@@ -159,7 +160,18 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
+
+    // clock name, epoch and number of data fields
+    let min_size = if version < LIMIT { 40 } else { 45 };
+    if !line.is_ascii() || line.len() < min_size {
+        return Err(ParsingError::ClockProfile);
+    }
+
     let (dtype, mut rem) = line.split_at(3);
+    if rem.starts_with("    ") {
+        return Err(ParsingError::ClockProfile); // unnamed clock
+    }
+
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
     let clock_type = match version < LIMIT {
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 5cb4f9f..10709eb 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -624,7 +624,7 @@ impl Header {
                 let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
 
                 let mut rem = r;
-                for _ in 0..n {
+                for _ in 0..n.min(9) {
                     let (code, r) = rem.split_at(6);
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
@@ -632,7 +632,8 @@ impl Header {
                     rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
+                // 4 characters, or 9 characters since V3.04
+                let (name, domes) = content.trim().split_once(' ').unwrap_or((content, ""));
                 clock = clock.site(name.trim());
                 if let Ok(domes) = DOMES::from_str(domes.trim()) {
                     clock = clock.domes(domes);
@@ -809,7 +810,11 @@ impl Header {
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
                 let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = match timescale {
+                    "GLO" => TimeScale::UTC,
+                    "QZS" => TimeScale::QZSST,
+                    timescale => TimeScale::from_str(timescale)?,
+                };
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
-- 
2.43.0


From adc8d1449099ac00ece51b9b0daa9522ee016991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 20/30] fix: nav: omitted fields shifted the next ones, Galileo
 V4 spare field, damaged frames panicked

---
 db/NAV/orbits.json                     |  4 +-
 src/navigation/earth_orientation.rs    | 11 ++++
 src/navigation/ephemeris/parsing.rs    | 71 ++++++++++++--------------
 src/navigation/ionosphere/bdgim.rs     | 12 +++++
 src/navigation/ionosphere/klobuchar.rs | 12 +++++
 src/navigation/ionosphere/nequick_g.rs |  4 ++
 src/navigation/parsing/mod.rs          |  4 ++
 src/navigation/parsing/v4.rs           |  8 +++
 src/navigation/system_time.rs          |  4 ++
 9 files changed, 89 insertions(+), 41 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..04852d0 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -28,6 +28,17 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
+        if !line_1.is_ascii() || !line_2.is_ascii() || !line_3.is_ascii() {
+            return Err(ParsingError::EopMissingData);
+        }
+
+        // trailing fields may be omitted
+        let (line_1, line_2, line_3) = (
+            format!("{:<80}", line_1),
+            format!("{:<80}", line_2),
+            format!("{:<80}", line_3),
+        );
+
         let (epoch, rem) = line_1.split_at(23);
         let (xp, rem) = rem.split_at(19);
         let (dxp, ddxp) = rem.split_at(19);
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..295e080 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -34,70 +34,45 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
-    let word_size: usize = 19;
-    let mut map: HashMap<String, OrbitItem> = HashMap::new();
-
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
+    const WORD_SIZE: usize = 19;
+    const WORDS_PER_LINE: usize = 4;
 
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
+    // first few white spaces
+    let offset: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
-            // println!("CONTENT \"{}\"", content); // DEBUG
+    for (nth_line, line) in lines.enumerate() {
+        for nth_word in 0..WORDS_PER_LINE {
+            let start = offset + nth_word * WORD_SIZE;
+            let end = std::cmp::min(start + WORD_SIZE, line.len());
 
             // handle omitted fields
+            let content = line.get(start..end).unwrap_or_default().trim();
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
             // zeros mean unresolved/unknown fields
             if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
                 continue;
             }
 
-            if let Some((key, token)) = fields.get(key_index) {
-                //println!(
-                //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
-                //    key,
-                //    key_index,
-                //    token,
-                //    content.trim()
-                //); //DEBUG
+            if let Some((key, token)) = fields.get(nth_line * WORDS_PER_LINE + nth_word) {
                 if !key.contains("spare") {
                     if let Ok(item) = OrbitItem::new(token, content, constell) {
-                        // println!("found key=\"{}\" (type={}) value=\"{}\"", key, token, content); // DEBUG
                         map.insert(key.to_string(), item);
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
@@ -120,7 +95,16 @@ impl Ephemeris {
             false => 4,
         };
 
+        if !line.is_ascii() || line.len() < svnn_offset + 19 * 3 {
+            return Err(ParsingError::EmptyEpoch);
+        }
+
         let (svnn, rem) = line.split_at(svnn_offset);
+
+        if svnn.trim().is_empty() {
+            return Err(ParsingError::EmptyEpoch);
+        }
+
         let (date, rem) = rem.split_at(19);
         let (clk_bias, rem) = rem.split_at(19);
         let (clk_dr, clk_drr) = rem.split_at(19);
@@ -201,7 +185,16 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
+        if !line.is_ascii() || line.len() < 4 + 19 * 3 {
+            return Err(ParsingError::EmptyEpoch);
+        }
+
         let (svnn, rem) = line.split_at(4);
+
+        if svnn.trim().is_empty() {
+            return Err(ParsingError::EmptyEpoch);
+        }
+
         let sv = svnn.trim().parse::<SV>()?;
         let (epoch, rem) = rem.split_at(19);
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..19d4fad 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -24,6 +24,10 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
+        if !line.is_ascii() || line.len() < 61 {
+            return Err(ParsingError::BdgimData);
+        }
+
         let (epoch, rem) = line.split_at(23);
         let (a0, rem) = rem.split_at(19);
         let (a1, a2) = rem.split_at(19);
@@ -32,6 +36,10 @@ impl BdModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        if !line.is_ascii() || line.len() < 61 {
+            return Err(ParsingError::BdgimData);
+        }
+
         let (a3, rem) = line.split_at(23);
         let (a4, rem) = rem.split_at(19);
         let (a5, a6) = rem.split_at(19);
@@ -40,6 +48,10 @@ impl BdModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        if !line.is_ascii() || line.len() < 23 {
+            return Err(ParsingError::BdgimData);
+        }
+
         let (a7, a8) = line.split_at(23);
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..5f70b23 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -47,6 +47,10 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
+        if !line.is_ascii() || line.len() < 61 {
+            return Err(ParsingError::KlobucharData);
+        }
+
         let (epoch, rem) = line.split_at(23);
         let (a0, rem) = rem.split_at(19);
         let (a1, a2) = rem.split_at(19);
@@ -55,6 +59,10 @@ impl KbModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        if !line.is_ascii() || line.len() < 61 {
+            return Err(ParsingError::KlobucharData);
+        }
+
         let (a3, rem) = line.split_at(23);
         let (b0, rem) = rem.split_at(19);
         let (b1, b2) = rem.split_at(19);
@@ -63,6 +71,10 @@ impl KbModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        if !line.is_ascii() || line.len() < 23 {
+            return Err(ParsingError::KlobucharData);
+        }
+
         let (b3, region) = line.split_at(23);
 
         let region: KbRegionCode = match region.trim().len() {
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..ec3f65c 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -41,6 +41,10 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
+        if !line.is_ascii() || line.len() < 61 {
+            return Err(ParsingError::NequickGData);
+        }
+
         let (epoch, rem) = line.split_at(23);
         let (a0, rem) = rem.split_at(19);
         let (a1, rem) = rem.split_at(19);
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a6104c9..cf4ae70 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -37,6 +37,10 @@ pub fn parse_epoch(header: &Header, content: &str) -> Result<(NavKey, NavFrame),
 /// Returns true if given content matches the beginning of a
 /// Navigation record epoch
 pub fn is_new_epoch(line: &str, v: Version) -> bool {
+    if !line.is_ascii() {
+        return false; // none of the formats permits this
+    }
+
     if v.major < 3 {
         // old RINEX
         if line.len() < 23 {
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..241b661 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -16,12 +16,20 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
+    if !line.is_ascii() || line.len() < 10 {
+        return Err(ParsingError::EmptyEpoch);
+    }
+
     let (_, rem) = line.split_at(2);
     let (class, rem) = rem.split_at(4);
     let (svnn, rem) = rem.split_at(4);
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
+    if svnn.trim().is_empty() {
+        return Err(ParsingError::EmptyEpoch);
+    }
+
     let sv = svnn.trim().parse::<SV>()?;
     let msgtype = rem.trim().parse::<NavMessageType>()?;
 
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..fdc5785 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -25,6 +25,10 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
+        if !line_1.is_ascii() || line_1.len() < 28 || !line_2.is_ascii() || line_2.len() < 61 {
+            return Err(ParsingError::SystemTimeData);
+        }
+
         let (epoch, rem) = line_1.split_at(23);
         let (system, rem) = rem.split_at(5);
         let utc = rem.trim().to_string();
-- 
2.43.0


From c23f77d49d7d9f941f07e00b4219ab6024bb6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 21/30] fix: ionex: RMS maps were not interpreted, 3D maps,
 grid coordinates were rounded, glued fields, mapping function and satellites
 header fields, damaged files panicked

---
 src/header/parsing.rs  | 27 ++++++++++++++++++++++-----
 src/ionex/parsing.rs   | 42 ++++++++++++++++++++++++++++++++++--------
 src/ionex/quantized.rs |  3 ++-
 src/ionex/tec.rs       |  4 ++--
 src/linspace.rs        | 23 +++++++++--------------
 src/record/parsing.rs  | 27 ++++++++++++++++++++-------
 6 files changed, 89 insertions(+), 37 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 10709eb..e96bf63 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -547,7 +547,7 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
+            } else if marker.contains("# OF SATELLITES") && rinex_type != Type::IonosphereMaps {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
@@ -845,9 +845,15 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(d) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(d);
+                }
+            } else if marker.contains("MAPPING FUNCTION") {
+                // NONE: no mapping function
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
@@ -1059,7 +1065,18 @@ impl Header {
         let mut start = 0.0_f64;
         let mut end = 0.0_f64;
         let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
+
+        let mut items: Vec<&str> = line.split_ascii_whitespace().collect();
+
+        if items.len() < 3 {
+            // F6.1 fields that are not separated
+            items = [2..8, 8..14, 14..20]
+                .into_iter()
+                .filter_map(|field| line.get(field))
+                .collect();
+        }
+
+        for (index, item) in items.into_iter().enumerate() {
             let item = item.trim();
             match index {
                 0 => {
diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..780ff15 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -23,6 +23,10 @@ pub fn is_new_height_map(line: &str) -> bool {
 /// - long_spacing [ddeg]
 /// - fixed_altitude [km]
 fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
+    if !line.is_ascii() || line.len() < 32 {
+        return Err(ParsingError::IonexGridCoordinates);
+    }
+
     let (fixed_lat, rem) = line[2..].split_at(6);
 
     let fixed_lat = fixed_lat
@@ -57,6 +61,31 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Map values are described by I5 fields, that may not be separated.
+/// We tolerate other layouts, as long as values are separated.
+fn map_values(line: &str) -> Vec<&str> {
+    const FIELD_SIZE: usize = 5;
+
+    let line = line.trim_end();
+
+    let fields: Vec<&str> = (0..line.len())
+        .step_by(FIELD_SIZE)
+        .map(|i| {
+            let end = std::cmp::min(i + FIELD_SIZE, line.len());
+            line.get(i..end).unwrap_or_default().trim()
+        })
+        .collect();
+
+    if fields
+        .iter()
+        .all(|field| !field.is_empty() && !field.contains(char::is_whitespace))
+    {
+        fields
+    } else {
+        line.split_ascii_whitespace().collect()
+    }
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -85,7 +114,7 @@ pub fn parse_tec_map(
     let mut long = 0.0_f64; // current longitude (pointer)
 
     for line in lines {
-        if line.len() > 60 {
+        if line.len() > 60 && line.is_char_boundary(60) {
             let (content, marker) = line.split_at(60);
 
             // Handle special cases
@@ -115,9 +144,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in map_values(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -172,8 +200,8 @@ pub fn parse_rms_map(
     let mut long = 0.0_f64; // current longitude (pointer)
 
     for line in lines {
-        if line.len() > 60 {
-            let marker = line.split_at(60).1;
+        if line.len() > 60 && line.is_char_boundary(60) {
+            let (content, marker) = line.split_at(60);
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
@@ -193,9 +221,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in map_values(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..eba7de7 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -16,7 +16,8 @@ impl Quantized {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
+        // i64 holds 18 digits
+        while val.fract() != 0.0 && exponent < 18 {
             val *= 10.0;
             exponent += 1;
         }
diff --git a/src/ionex/tec.rs b/src/ionex/tec.rs
index 687eae6..96d4691 100644
--- a/src/ionex/tec.rs
+++ b/src/ionex/tec.rs
@@ -53,7 +53,7 @@ impl TEC {
             height: None,
             tecu: Quantized {
                 quantized: tecu,
-                exponent: -exponent,
+                exponent: exponent.saturating_neg(),
             },
         }
     }
@@ -61,7 +61,7 @@ impl TEC {
     /// Updates RMS [TEC]
     pub(crate) fn set_quantized_rms(&mut self, rms: i64, exponent: i8) {
         self.rms = Some(Quantized {
-            exponent: -exponent,
+            exponent: exponent.saturating_neg(),
             quantized: rms,
         });
     }
diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..e0095fa 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,17 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * Space must be an integer number of increments
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let steps = (end - start) / spacing;
+
+            if steps >= 0.0 && (steps - steps.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 947777b..df36da0 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -23,6 +23,7 @@ use crate::{
         Record as IonexRecord,
     },
     is_rinex_comment,
+    linspace::Linspace,
     meteo::{
         is_new_epoch as is_new_meteo_epoch, parse_epoch as parse_meteo_epoch, Record as MeteoRecord,
     },
@@ -179,9 +180,17 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            // all coordinates of the grid must be described exactly
+            let find_exponent = |grid: &Linspace| {
+                std::cmp::max(
+                    IonexQuantized::find_exponent(grid.start),
+                    IonexQuantized::find_exponent(grid.spacing),
+                )
+            };
+
+            ionex_lat_exponent = find_exponent(&ionex.grid.latitude);
+            ionex_long_exponent = find_exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = find_exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
@@ -204,7 +213,7 @@ impl Record {
 
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            if line_buf.get(60..).unwrap_or_default().contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
                 ionex_tec_exponent = line_buf
@@ -220,7 +229,11 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if line_buf
+                .get(60..)
+                .unwrap_or_default()
+                .contains("EPOCH OF CURRENT MAP")
+            {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
                 ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
@@ -365,7 +378,7 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
+                            if is_new_tec_map(&epoch_buf) && is_new_tec_map(&line_buf) {
                                 match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
@@ -378,7 +391,7 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
+                            } else if is_new_rms_map(&epoch_buf) {
                                 match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
-- 
2.43.0


From c50e972a59c38bbec8acb7cf616d1aa7befc0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 22/30] fix: header fields written in the columns they are read
 from, and read back whatever their order

---
 src/hardware.rs                  |  19 ++-
 src/hatanaka/crinex.rs           |  21 +--
 src/header/formatting.rs         |  81 +++++++-----
 src/header/mod.rs                |   2 +
 src/header/parsing.rs            | 217 ++++++++++++++++++-------------
 src/lib.rs                       |   4 +-
 src/navigation/ionosphere/mod.rs |  29 +++--
 7 files changed, 220 insertions(+), 153 deletions(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..278aa48 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,6 +1,7 @@
 //! Receiver and antenna
 use crate::{
     fmt_rinex,
+    header::Columns,
     prelude::{FormattingError, COSPAR, SV},
 };
 
@@ -34,7 +35,10 @@ impl Receiver {
             w,
             "{}",
             fmt_rinex(
-                &format!("{:<20}{:<20}{}", self.sn, self.model, self.firmware),
+                &format!(
+                    "{:<20.20}{:<20.20}{:.20}",
+                    self.sn, self.model, self.firmware
+                ),
                 "REC # / TYPE / VERS"
             )
         )?;
@@ -63,9 +67,9 @@ impl Receiver {
 impl FromStr for Receiver {
     type Err = std::io::Error;
     fn from_str(line: &str) -> Result<Self, Self::Err> {
-        let (id, rem) = line.split_at(20);
-        let (make, rem) = rem.split_at(20);
-        let (version, _) = rem.split_at(20);
+        let (id, rem) = line.split_columns(20);
+        let (make, rem) = rem.split_columns(20);
+        let (version, _) = rem.split_columns(20);
         Ok(Receiver {
             sn: id.trim().to_string(),
             model: make.trim().to_string(),
@@ -101,7 +105,10 @@ impl Antenna {
         writeln!(
             w,
             "{}",
-            fmt_rinex(&format!("{:<20}{}", self.sn, self.model), "ANT # / TYPE")
+            fmt_rinex(
+                &format!("{:<20.20}{:.20}", self.sn, self.model),
+                "ANT # / TYPE"
+            )
         )?;
         if let Some(coords) = &self.coords {
             writeln!(
@@ -109,7 +116,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..c410927 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -2,6 +2,7 @@
 use crate::{
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
+    header::Columns,
     prelude::{Epoch, FormattingError, ParsingError, Version},
 };
 
@@ -48,15 +49,14 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        write!(w, "{:<40.40}", self.prog)?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y % 100,
             hh,
             mm,
         )?;
@@ -87,13 +87,13 @@ impl CRINEX {
 
     /// Parse and append prog+date fields
     pub(crate) fn with_prog_date(&self, prog_date: &str) -> Result<Self, ParsingError> {
-        if prog_date.len() < 60 {
+        if prog_date.chars().count() < 60 {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let (prog, rem) = prog_date.split_columns(20);
+        let (_, rem) = rem.split_columns(20);
+        let datetime_str = rem.split_columns(20).0.trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -153,7 +153,8 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)
+            .map_err(|_| ParsingError::DatetimeParsing)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
@@ -182,7 +183,7 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = line.split_columns(20).0.trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..1e2ad7c 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -62,35 +62,25 @@ impl Header {
             leap.format(w)?;
         }
 
-        let num_channels = self.glo_channels.len();
+        let mut slots = self.glo_channels.iter().collect::<Vec<_>>();
+        slots.sort();
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, chunk) in slots.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let mut string = if nth == 0 {
+                format!("{:3} ", slots.len())
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
+                "    ".to_string()
+            };
+
+            for (sv, channel) in chunk.iter() {
+                string.push_str(&format!("{:x} {:2} ", sv, channel));
             }
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
+            writeln!(w, "{}", fmt_rinex(&string, "GLONASS SLOT / FRQ #"))?;
         }
 
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
-        }
+        self.format_compensations(w)?;
+        self.format_references(w)?;
 
         //TODO
         // things that could be nice to squeeze in:
@@ -228,20 +218,20 @@ impl Header {
     /// Formats "PGM / RUN BY / DATE"
     fn format_prog_runby<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         let mut string = if let Some(program) = &self.program {
-            format!("{:<20}", program)
+            format!("{:<20.20}", program)
         } else {
             "                    ".to_string()
         };
 
         if let Some(runby) = &self.run_by {
-            let formatted = format!("{:<20}", runby);
+            let formatted = format!("{:<20.20}", runby);
             string.push_str(&formatted);
         } else {
             string.push_str("                    ");
         };
 
         if let Some(date) = &self.date {
-            string.push_str(date);
+            string.push_str(&format!("{:<20.20}", date));
         } else {
             string.push_str("                    ");
         };
@@ -258,13 +248,13 @@ impl Header {
         w: &mut BufWriter<W>,
     ) -> Result<(), FormattingError> {
         let mut string = if let Some(observer) = &self.observer {
-            format!("{:<20}", observer)
+            format!("{:<20.20}", observer)
         } else {
             "                    ".to_string()
         };
 
         if let Some(agency) = &self.agency {
-            string.push_str(agency);
+            string.push_str(&format!("{:<40.40}", agency));
         } else {
             string.push_str("                    ");
         };
@@ -283,12 +273,45 @@ impl Header {
             writeln!(
                 w,
                 "{}",
-                fmt_rinex(&format!("{:6}", interval.to_seconds()), "INTERVAL")
+                fmt_rinex(&format!("{:10.3}", interval.to_seconds()), "INTERVAL")
             )?;
         }
         Ok(())
     }
 
+    /// Formats "SYS / DCBS APPLIED" and "SYS / PCVS APPLIED"
+    fn format_compensations<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        for dcb in self.dcb_compensations.iter() {
+            let string = format!(
+                "{:x} {:<17.17} {:<40.40}",
+                dcb.constellation, dcb.program, dcb.url
+            );
+            writeln!(w, "{}", fmt_rinex(&string, "SYS / DCBS APPLIED"))?;
+        }
+        for pcv in self.pcv_compensations.iter() {
+            let string = format!(
+                "{:x} {:<17.17} {:<40.40}",
+                pcv.constellation, pcv.program, pcv.url
+            );
+            writeln!(w, "{}", fmt_rinex(&string, "SYS / PCVS APPLIED"))?;
+        }
+        Ok(())
+    }
+
+    /// Formats "DOI", "LICENSE OF USE" and "STATION INFORMATION"
+    fn format_references<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        if let Some(doi) = &self.doi {
+            writeln!(w, "{}", fmt_rinex(doi, "DOI"))?;
+        }
+        if let Some(license) = &self.license {
+            writeln!(w, "{}", fmt_rinex(license, "LICENSE OF USE"))?;
+        }
+        if let Some(url) = &self.station_url {
+            writeln!(w, "{}", fmt_rinex(url, "STATION INFORMATION"))?;
+        }
+        Ok(())
+    }
+
     /// Formats all comments
     fn format_comments<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         for comment in self.comments.iter() {
diff --git a/src/header/mod.rs b/src/header/mod.rs
index ae67a84..f8b4671 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -23,6 +23,8 @@ use std::collections::HashMap;
 mod formatting;
 mod parsing;
 
+pub(crate) use parsing::Columns;
+
 #[cfg(feature = "qc")]
 mod qc;
 
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e96bf63..6a41710 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -29,6 +29,19 @@ use std::{
     str::FromStr,
 };
 
+/// Fixed columns of a line, one character each
+pub(crate) trait Columns {
+    /// Same as [str::split_at], shorter lines are tolerated.
+    fn split_columns(&self, n: usize) -> (&str, &str);
+}
+
+impl Columns for str {
+    fn split_columns(&self, n: usize) -> (&str, &str) {
+        let at = self.char_indices().nth(n).map_or(self.len(), |(i, _)| i);
+        self.split_at(at)
+    }
+}
+
 impl Header {
     /// Parse [Header] by consuming [BufReader] until end of this section
     pub fn parse<R: Read>(reader: &mut BufReader<R>) -> Result<Self, ParsingError> {
@@ -70,12 +83,14 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
-        for l in reader.lines() {
-            let line = l.unwrap();
-            if line.len() < 60 {
+        for l in reader.split(b'\n') {
+            let l = l.map_err(|_| ParsingError::HeaderLineTooShort)?;
+            let line = String::from_utf8_lossy(&l);
+            let line = line.trim_end_matches('\r');
+            if line.chars().count() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = line.split_columns(60);
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -98,7 +113,7 @@ impl Header {
             //     and we do this at the end of the Header section
             ///////////////////////////////////////////////////////
             } else if marker.contains("CRINEX VERS") {
-                let version = Version::from_str(content[..10].trim())?;
+                let version = Version::from_str(content.split_columns(10).0.trim())?;
                 let crinex = CRINEX::default().with_version(version);
 
                 observation.crinex = Some(crinex);
@@ -122,7 +137,7 @@ impl Header {
                 // Handled cases
                 ///////////////////////////////////////////////////////
             } else if marker.contains("ANTEX VERSION / SYST") {
-                let (vers, system) = content.split_at(8);
+                let (vers, system) = content.split_columns(8);
                 let vers = vers.trim();
                 version = Version::from_str(vers).or(Err(ParsingError::AntexVersion))?;
 
@@ -131,9 +146,9 @@ impl Header {
                 }
                 rinex_type = Type::AntennaData;
             } else if marker.contains("PCV TYPE / REFANT") {
-                let (pcv_str, rem) = content.split_at(20);
-                let (rel_type, rem) = rem.split_at(20);
-                let (ref_sn, _) = rem.split_at(20);
+                let (pcv_str, rem) = content.split_columns(20);
+                let (rel_type, rem) = rem.split_columns(20);
+                let (ref_sn, _) = rem.split_columns(20);
                 if let Ok(mut pcv) = Pcv::from_str(pcv_str.trim()) {
                     if pcv.is_relative() {
                         // try to parse "Relative Type"
@@ -151,8 +166,8 @@ impl Header {
                 if items.len() == 2 {
                     // Receiver antenna information
                     // like standard RINEX
-                    let (model, rem) = content.split_at(20);
-                    let (sn, _) = rem.split_at(20);
+                    let (model, rem) = content.split_columns(20);
+                    let (sn, _) = rem.split_columns(20);
                     if let Some(a) = &mut rcvr_antenna {
                         *a = a.with_model(model.trim()).with_serial_number(sn.trim());
                     } else {
@@ -162,13 +177,13 @@ impl Header {
                                 .with_serial_number(sn.trim()),
                         );
                     }
-                } else if items.len() == 4 {
+                } else if items.len() == 4 && content.is_ascii() {
                     // Space Vehicle antenna information
                     // ANTEX RINEX specific
-                    let (model, rem) = content.split_at(10);
-                    let (svnn, rem) = rem.split_at(10);
-                    let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    let (model, rem) = content.split_columns(10);
+                    let (svnn, rem) = rem.split_columns(10);
+                    let (cospar, _) = rem.split_columns(10);
+                    if let Ok(sv) = SV::from_str(svnn) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
@@ -189,9 +204,9 @@ impl Header {
             // [2] IONEX special header
             //////////////////////////////////////
             } else if marker.contains("IONEX VERSION / TYPE") {
-                let (vers_str, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (system_str, _) = rem.split_at(20);
+                let (vers_str, rem) = line.split_columns(20);
+                let (type_str, rem) = rem.split_columns(20);
+                let (system_str, _) = rem.split_columns(20);
 
                 let vers_str = vers_str.trim();
                 version = Version::from_str(vers_str).or(Err(ParsingError::IonexVersion))?;
@@ -205,9 +220,9 @@ impl Header {
             // RINEX standard / shared attributes
             ///////////////////////////////////////
             } else if marker.contains("RINEX VERSION / TYPE") {
-                let (vers, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (constell_str, _) = rem.split_at(20);
+                let (vers, rem) = line.split_columns(20);
+                let (type_str, rem) = rem.split_columns(20);
+                let (constell_str, _) = rem.split_columns(20);
 
                 let type_str = type_str.trim();
                 let constell_str = constell_str.trim();
@@ -266,40 +281,39 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                let (pgm, rem) = line.split_columns(20);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = rem.split_columns(20);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = rem.split_columns(20).0.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_name(content.trim()));
             } else if marker.contains("MARKER NUMBER") {
-                let number = content.split_at(20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                let number = content.split_columns(20).0.trim();
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_number(number));
             } else if marker.contains("MARKER TYPE") {
-                let code = content.split_at(20).0.trim();
+                let code = content.split_columns(20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    geodetic_marker
+                        .get_or_insert_with(Default::default)
+                        .marker_type = Some(mtype);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
-                let (obs, ag) = content.split_at(20);
+                let (obs, ag) = content.split_columns(20);
                 let obs = obs.trim();
                 let ag = ag.trim();
 
@@ -315,12 +329,14 @@ impl Header {
                     rcvr = Some(receiver);
                 }
             } else if marker.contains("SYS / PCVS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = content.split_columns(2);
+                let (program, rem) = rem.split_columns(18);
+                let (url, _) = rem.split_columns(40);
 
-                let gnss = gnss.trim();
-                let gnss = Constellation::from_str(gnss.trim())?;
+                let gnss = match gnss.trim() {
+                    "" => continue, // no corrections applied
+                    gnss => Constellation::from_str(gnss)?,
+                };
 
                 let pcv = PcvCompensation {
                     program: {
@@ -344,12 +360,14 @@ impl Header {
 
                 pcv_compensations.push(pcv);
             } else if marker.contains("SYS / DCBS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = content.split_columns(2);
+                let (program, rem) = rem.split_columns(18);
+                let (url, _) = rem.split_columns(40);
 
-                let gnss = gnss.trim();
-                let gnss = Constellation::from_str(gnss.trim())?;
+                let gnss = match gnss.trim() {
+                    "" => continue, // no corrections applied
+                    gnss => Constellation::from_str(gnss)?,
+                };
 
                 let dcb = DcbCompensation {
                     program: {
@@ -376,7 +394,7 @@ impl Header {
                 // TODO:
                 //   This will not work in case several observables
                 //   are declaredn which will required to analyze more than 1 line
-                let (gnss, rem) = content.split_at(2);
+                let (gnss, rem) = content.split_columns(2);
                 let gnss = gnss.trim();
 
                 /*
@@ -389,14 +407,14 @@ impl Header {
                 };
 
                 // Parse scaling factor
-                let (factor, rem) = rem.split_at(6);
+                let (factor, rem) = rem.split_columns(6);
                 let factor = factor.trim();
                 let scaling = factor
                     .parse::<u16>()
                     .or(Err(ParsingError::SystemScalingFactor))?;
 
                 // parse end of line
-                let (_num, rem) = rem.split_at(3);
+                let (_num, rem) = rem.split_columns(3);
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -415,10 +433,10 @@ impl Header {
                 /*
                  * Meteo: sensor position information
                  */
-                let (x, rem) = content.split_at(14);
-                let (y, rem) = rem.split_at(14);
-                let (z, rem) = rem.split_at(14);
-                let (h, phys) = rem.split_at(14);
+                let (x, rem) = content.split_columns(14);
+                let (y, rem) = rem.split_columns(14);
+                let (z, rem) = rem.split_columns(14);
+                let (h, phys) = rem.split_columns(14);
 
                 let phys = phys.trim();
                 let observable = Observable::from_str(phys)?;
@@ -442,11 +460,11 @@ impl Header {
                     }
                 }
             } else if marker.contains("LEAP SECOND") {
-                let leap_str = content.split_at(40).0.trim();
+                let leap_str = content.split_columns(40).0.trim();
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -454,12 +472,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
@@ -491,11 +509,12 @@ impl Header {
                     rx_position = Some((x_ecef_m, y_ecef_m, z_ecef_m));
                 }
             } else if marker.contains("ANT # / TYPE") {
-                let (sn, rem) = content.split_at(20);
-                let (model, _) = rem.split_at(20);
+                let (sn, rem) = content.split_columns(20);
+                let (model, _) = rem.split_columns(20);
 
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    rcvr_antenna
+                        .unwrap_or_default()
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
@@ -503,6 +522,10 @@ impl Header {
                 // Antenna Base/Reference Coordinates
                 let items: Vec<&str> = content.split_ascii_whitespace().collect();
 
+                if items.len() < 3 {
+                    return Err(ParsingError::AntennaCoordinates);
+                }
+
                 let x = items[0].trim();
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
@@ -519,9 +542,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = content.split_columns(14);
+                let (e, rem) = rem.split_columns(14);
+                let (n, _) = rem.split_columns(14);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
@@ -542,7 +565,7 @@ impl Header {
                     }
                 }
             } else if marker.contains("RCV CLOCK OFFS APPL") {
-                let value = content.split_at(20).0.trim();
+                let value = content.split_columns(20).0.trim();
                 let n =
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
@@ -612,20 +635,20 @@ impl Header {
                     _ => {},
                 }
             } else if marker.contains("ANALYSIS CENTER") {
-                let (code, agency) = content.split_at(3);
+                let (code, agency) = content.split_columns(3);
                 clock = clock.igs(code.trim());
                 clock = clock.full_name(agency.trim());
             } else if marker.contains("ANALYSIS CLK REF") {
                 let ck = WorkClock::parse(version, content);
                 clock = clock.work_clock(ck);
             } else if marker.contains("# / TYPES OF DATA") {
-                let (n, r) = content.split_at(6);
+                let (n, r) = content.split_columns(6);
                 let n = n.trim();
                 let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
 
                 let mut rem = r;
                 for _ in 0..n.min(9) {
-                    let (code, r) = rem.split_at(6);
+                    let (code, r) = rem.split_columns(6);
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
                     }
@@ -643,12 +666,13 @@ impl Header {
             } else if marker.contains("SIGNAL STRENGHT UNIT") {
                 //TODO
             } else if marker.contains("INTERVAL") {
-                let intv_str = content.split_at(20).0.trim();
+                let intv_str = content.split_columns(20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
                     if interval > 0.0 {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
-                        sampling_interval = Some(Duration::from_seconds(interval));
+                        sampling_interval =
+                            Some(Duration::from_microseconds((interval * 1.0E6).round()));
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
@@ -657,15 +681,16 @@ impl Header {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
-                let slots = content.split_at(4).1.trim();
-                for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
+                let mut slots = content.split_columns(4).1;
+                while slots.is_ascii() && !slots.trim().is_empty() {
+                    let (slot, rem) = slots.split_columns(7);
+                    let (svnn, chx) = slot.split_columns(3);
+                    if let Ok(svnn) = SV::from_str(svnn) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
                         }
                     }
+                    slots = rem;
                 }
             } else if marker.contains("GLONASS COD/PHS/BIS") {
                 //TODO
@@ -691,7 +716,9 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
+                                let Some(kb_model) = correction.as_klobuchar_mut() else {
+                                    continue;
+                                };
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
                             } else {
@@ -730,7 +757,9 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
+                                let Some(kb_model) = correction.as_klobuchar_mut() else {
+                                    continue;
+                                };
                                 kb_model.beta = beta;
                             } else {
                                 ionod_corrections.insert(
@@ -753,12 +782,12 @@ impl Header {
                  * RINEX4 replaces that with actual file content (body) for improved correction accuracy.
                  * The description requires 2 lines when dealing with KB model and we tolerate order mixup.
                  */
-                let model_id = content.split_at(5).0;
+                let model_id = content.split_columns(5).0.trim();
                 if model_id.len() < 3 {
                     /* BAD RINEX */
                     continue;
                 }
-                let constell_id = &model_id[..3];
+                let constell_id = model_id.split_columns(3).0;
                 let constell = match constell_id {
                     "GPS" => Constellation::GPS,
                     "GAL" => Constellation::Galileo,
@@ -776,7 +805,9 @@ impl Header {
                     })) => {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
-                            let kb_model = ionod_model.as_klobuchar_mut().unwrap();
+                            let Some(kb_model) = ionod_model.as_klobuchar_mut() else {
+                                continue;
+                            };
                             if model_id.ends_with('A') {
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
@@ -886,7 +917,7 @@ impl Header {
                 ionex = ionex.with_longitude_grid(grid);
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
-                let content = content[1..].trim();
+                let content = content.split_columns(1).1.trim();
 
                 let time_offset_us = content
                     .parse::<f64>()
@@ -985,15 +1016,15 @@ impl Header {
         content: &str,
         default_ts: TimeScale,
     ) -> Result<Epoch, ParsingError> {
-        let (_, rem) = content.split_at(2);
-        let (y, rem) = rem.split_at(4);
-        let (m, rem) = rem.split_at(6);
-        let (d, rem) = rem.split_at(6);
-        let (hh, rem) = rem.split_at(6);
-        let (mm, rem) = rem.split_at(6);
-        let (ss, rem) = rem.split_at(5);
-        let (_dot, rem) = rem.split_at(1);
-        let (ns, rem) = rem.split_at(7);
+        let (_, rem) = content.split_columns(2);
+        let (y, rem) = rem.split_columns(4);
+        let (m, rem) = rem.split_columns(6);
+        let (d, rem) = rem.split_columns(6);
+        let (hh, rem) = rem.split_columns(6);
+        let (mm, rem) = rem.split_columns(6);
+        let (ss, rem) = rem.split_columns(5);
+        let (_dot, rem) = rem.split_columns(1);
+        let (ns, rem) = rem.split_columns(7);
 
         // println!("Y \"{}\" M \"{}\" D \"{}\" HH \"{}\" MM \"{}\" SS \"{}\" NS \"{}\"", y, m, d, hh, mm, ss, ns); // DEBUG
         let mut y = y
@@ -1122,7 +1153,7 @@ impl Header {
                 Constellation::Galileo,
             ];
         }
-        let line = line.split_at(6).1;
+        let line = line.split_columns(6).1;
         for item in line.split_ascii_whitespace() {
             if let Ok(obs) = Observable::from_str(item.trim()) {
                 match constell {
@@ -1154,9 +1185,9 @@ impl Header {
         current_constell: &mut Option<Constellation>,
         observation: &mut ObservationHeader,
     ) {
-        let (possible_counter, items) = line.split_at(6);
+        let (possible_counter, items) = line.split_columns(6);
         if !possible_counter.is_empty() {
-            let code = &possible_counter[..1];
+            let code = possible_counter.split_columns(1).0;
             if let Ok(c) = Constellation::from_str(code) {
                 *current_constell = Some(c);
             }
@@ -1178,7 +1209,7 @@ impl Header {
      * Parse list of DORIS observables
      */
     fn parse_doris_observables(line: &str, doris: &mut DorisHeader) {
-        let items = line.split_at(6).1;
+        let items = line.split_columns(6).1;
         for item in items.split_ascii_whitespace() {
             if let Ok(observable) = Observable::from_str(item) {
                 doris.observables.push(observable);
diff --git a/src/lib.rs b/src/lib.rs
index 8ffef28..318ddd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -242,7 +242,9 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
  * macro to format one header line or a comment
  */
 pub(crate) fn fmt_rinex(content: &str, marker: &str) -> String {
+    let content = content.chars().collect::<Vec<_>>();
     if content.len() < 60 {
+        let content = content.into_iter().collect::<String>();
         format!("{:<padding$}{}", content, marker, padding = 60)
     } else {
         let mut string = String::new();
@@ -250,7 +252,7 @@ pub(crate) fn fmt_rinex(content: &str, marker: &str) -> String {
         for i in 0..nb_lines {
             let start_off = i * 60;
             let end_off = std::cmp::min(start_off + 60, content.len());
-            let chunk = &content[start_off..end_off];
+            let chunk = content[start_off..end_off].iter().collect::<String>();
             string.push_str(&format!("{:<padding$}{}", chunk, marker, padding = 60));
             if i < nb_lines - 1 {
                 string.push('\n');
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..bc85952 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -1,4 +1,4 @@
-use crate::prelude::ParsingError;
+use crate::{header::Columns, prelude::ParsingError};
 
 use std::str::FromStr;
 
@@ -33,15 +33,16 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
-        let (system, rem) = header.split_at(5);
+        let (system, rem) = header.split_columns(5);
+        let rem = rem.replace("d", "e").replace("D", "E");
         match system.trim() {
             /*
              * Models that only needs 3 fields
              */
             "GAL" => {
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, _) = rem.split_at(12);
+                let (a0, rem) = rem.split_columns(12);
+                let (a1, rem) = rem.split_columns(12);
+                let (a2, _) = rem.split_columns(12);
                 let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::NequickGData)?;
@@ -55,10 +56,10 @@ impl IonosphereModel {
                 /*
                  * Model has 4 fields
                  */
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, rem) = rem.split_at(12);
-                let (a3, _) = rem.split_at(12);
+                let (a0, rem) = rem.split_columns(12);
+                let (a1, rem) = rem.split_columns(12);
+                let (a2, rem) = rem.split_columns(12);
+                let (a3, _) = rem.split_columns(12);
                 // World or QZSS special orbital plan
                 let region = match system.contains("QZS") {
                     true => KbRegionCode::Japan,
@@ -96,11 +97,11 @@ impl IonosphereModel {
     /// Only the Klobuchar model may exist.
     pub(crate) fn from_rinex2_header(header: &str, marker: &str) -> Result<Self, ParsingError> {
         let header = header.replace("d", "e").replace("D", "E");
-        let (_, rem) = header.split_at(2);
-        let (a0, rem) = rem.split_at(12);
-        let (a1, rem) = rem.split_at(12);
-        let (a2, rem) = rem.split_at(12);
-        let (a3, _) = rem.split_at(12);
+        let (_, rem) = header.split_columns(2);
+        let (a0, rem) = rem.split_columns(12);
+        let (a1, rem) = rem.split_columns(12);
+        let (a2, rem) = rem.split_columns(12);
+        let (a3, _) = rem.split_columns(12);
 
         if marker.contains("ALPHA") {
             let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-- 
2.43.0


From efe89ad3d026acc54b8eb74e8371e6b5d5f9b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 23/30] fix: keep record comments, damaged lines and epochs do
 not panic

---
 src/observation/parsing.rs | 26 +++++++++++++++++++-------
 src/record/parsing.rs      | 30 +++++++++++++++---------------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 8e3fe78..4204304 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -1,6 +1,7 @@
 //! Observation RINEX parsing
 use crate::{
     epoch::{parse_in_timescale as parse_epoch_in_timescale, parse_utc as parse_utc_epoch},
+    header::Columns,
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
     },
@@ -21,7 +22,7 @@ use num_integer::div_ceil;
 /// Returns true if provided content matches the start of a new Observation Epoch
 pub fn is_new_epoch(line: &str, v: Version) -> bool {
     if v.major < 3 {
-        if line.len() < 30 {
+        if line.len() < 30 || !line.is_ascii() {
             false
         } else {
             // SPLICE flag handling (still an Observation::flag)
@@ -68,6 +69,10 @@ pub fn parse_epoch(
     ts: TimeScale,
     observations: &mut Observations,
 ) -> Result<ObsKey, ParsingError> {
+    if !content.is_ascii() {
+        return Err(ParsingError::EpochFormat);
+    }
+
     let mut lines = content.lines();
 
     let mut line = match lines.next() {
@@ -90,18 +95,18 @@ pub fn parse_epoch(
 
     // V > 2 might start with a ">" marker
     if line.starts_with('>') {
-        line = line.split_at(1).1;
+        line = line.split_columns(1).1;
     }
 
-    let (date, rem) = line.split_at(offset);
+    let (date, rem) = line.split_columns(offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
-    let (flag, rem) = rem.split_at(3);
+    let (flag, rem) = rem.split_columns(3);
     let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = ObsKey { epoch, flag };
 
-    let (num_sat, rem) = rem.split_at(3);
+    let (num_sat, rem) = rem.split_columns(3);
     let num_sat = num_sat
         .trim()
         .parse::<u16>()
@@ -268,6 +273,10 @@ fn parse_signals_v2(
             let sv_end = (sv_ptr + SVNN_SIZE).min(systems_str_len);
             let system = &systems_str[sv_ptr..sv_end].trim();
 
+            if system.is_empty() {
+                break;
+            }
+
             // actual parsing
             if let Ok(found) = SV::from_str(system) {
                 sv = found;
@@ -342,7 +351,7 @@ fn parse_signals_v2(
             if obs_ptr >= observables.len() {
                 sv_identified = false;
                 obs_identified = false;
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
@@ -437,7 +446,7 @@ fn parse_signals_v2(
                 sv_identified = false;
                 obs_identified = false;
 
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
@@ -468,6 +477,9 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
+        if line.len() < SVNN_SIZE {
+            continue;
+        }
         let sv_str = &line[0..SVNN_SIZE];
         match SV::from_str(sv_str) {
             Ok(found) => {
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index df36da0..ae14d8e 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -12,6 +12,7 @@ use crate::{
     },
     epoch::parse_ionex_utc as parse_ionex_utc_epoch,
     hatanaka::DecompressorExpert,
+    header::Columns,
     ionex::{
         is_new_height_map,
         is_new_rms_map,
@@ -203,7 +204,7 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = line_buf.split_at(60).0.trim_end();
+                let comment = line_buf.split_columns(60).0.trim_end();
                 comment_content.push(comment.to_string());
 
                 // skip parsing
@@ -217,7 +218,7 @@ impl Record {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
                 ionex_tec_exponent = line_buf
-                    .split_at(60)
+                    .split_columns(60)
                     .0
                     .trim()
                     .parse::<i8>()
@@ -236,23 +237,13 @@ impl Record {
             {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(line_buf.split_columns(60).0)?;
 
                 // skip parsing
                 line_buf.clear();
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -373,8 +364,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
@@ -426,6 +418,14 @@ impl Record {
             // clear on new epoch detection
             if new_epoch {
                 epoch_buf.clear();
+
+                // comments are sorted by epoch of appearance
+                if !comment_content.is_empty() {
+                    comments
+                        .entry(comment_ts)
+                        .or_default()
+                        .append(&mut comment_content);
+                }
             }
 
             // always stack new content
-- 
2.43.0


From ea985c3678b0ac145a489f6b3e64cd8e54cef021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 24/30] fix: DORIS measurements were all rejected or misread,
 satellite name was not read

---
 src/doris/parsing.rs  | 148 ++++++++++++++++++------------------------
 src/header/parsing.rs |   7 +-
 2 files changed, 69 insertions(+), 86 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..39497a5 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -1,6 +1,7 @@
 use crate::{
     doris::{DorisKey, Observations, SignalKey, SignalObservation, Station},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    header::Columns,
     observation::ClockObservation,
     observation::EpochFlag,
     prelude::{Header, Observable, ParsingError, TimeScale},
@@ -11,64 +12,44 @@ pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parse (up to) 5 measurements described by one line, starting from the nth observable.
+/// Each measurement is a F14.3 value, followed by two flags. Blank values are omitted.
 fn parse_observations(
     line: &str,
-    mut obs_ptr: usize,
+    obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
+) {
+    const NUM_OBS_PER_LINE: usize = 5;
     const OBSERVABLE_WIDTH: usize = 14;
+    const FIELD_WIDTH: usize = 16;
 
+    let mut rem = line;
     let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
 
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
+    while offset < NUM_OBS_PER_LINE && obs_ptr + offset < observables.len() {
+        let (field, tail) = rem.split_columns(FIELD_WIDTH);
+        let (value, flags) = field.split_columns(OBSERVABLE_WIDTH);
+        let (m1, m2) = flags.split_columns(1);
 
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
+        if let Ok(value) = value.trim().parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observables[obs_ptr + offset].clone(),
+            };
 
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
+            let m1 = m1.parse::<u8>().ok();
+            let m2 = m2.parse::<u8>().ok();
 
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
+            observations
+                .signals
+                .insert(key, SignalObservation { m1, m2, value });
         }
-    }
 
-    Ok(())
+        rem = tail;
+        offset += 1;
+    }
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,17 +58,19 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    const NUM_OBS_PER_LINE: usize = 5;
+
+    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_SIZE: usize = 3;
+    const NUM_STATIONS_SIZE: usize = 3;
+    const CLOCK_SIZE: usize = 19;
+    const STATION_SIZE: usize = 3;
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
 
     let null_clock = ClockObservation::default();
 
-    let mut station = Option::<Station>::None;
+    let mut station = Option::<&Station>::None;
     let mut observations = Observations::default();
 
     let mut lines = content.lines();
@@ -98,66 +81,61 @@ pub fn parse_epoch(
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
     let observables = &doris.observables;
-    let numobs = observables.len();
 
     let stations = &doris.stations;
 
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let (_, rem) = line.split_columns(2);
+    let (epoch, rem) = rem.split_columns(EPOCH_SIZE);
+    let (flag, rem) = rem.split_columns(FLAG_SIZE);
+    let (_, rem) = rem.split_columns(NUM_STATIONS_SIZE);
+    let (offset_s, extrapolated) = rem.split_columns(CLOCK_SIZE);
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let epoch = parse_epoch_in_timescale(epoch.trim(), TimeScale::TAI)?;
+    let flag = flag.trim().parse::<EpochFlag>()?;
 
     let key = DorisKey { epoch, flag };
 
     // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::DorisClockParsing)?;
+    let offset_s = offset_s.trim();
 
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
-
-    // clock extrapolated ?
-    observations.clock_extrapolated = false;
+    if !offset_s.is_empty() {
+        let offset_s = offset_s
+            .parse::<f64>()
+            .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
+        observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
     }
 
+    // clock extrapolated ?
+    observations.clock_extrapolated = extrapolated.trim().eq("1");
+
     // parse following stations
     for line in lines {
-        if line.starts_with('D') {
-            obs_ptr = 0;
+        let (station_id, rem) = line.split_columns(STATION_SIZE);
 
-            // station number
-            let station_num = line[1..]
+        if line.starts_with('D') {
+            // station number, as defined in header section
+            let station_num = station_id
+                .split_columns(1)
+                .1
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = stations.iter().find(|station| station.key == station_num);
+
+            obs_ptr = 0;
         }
 
-        if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
-                obs_ptr,
-                &station,
-                observables,
-                numobs,
-                &mut observations,
-            )?;
+        if let Some(station) = station {
+            parse_observations(rem, obs_ptr, station, observables, &mut observations);
         }
+
+        obs_ptr += NUM_OBS_PER_LINE;
     }
 
     Ok((key, observations))
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6a41710..12fea94 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -915,6 +915,9 @@ impl Header {
             } else if marker.contains("LON1 / LON2 / DLON") {
                 let grid = Self::parse_grid(content)?;
                 ionex = ionex.with_longitude_grid(grid);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
                 let content = content.split_columns(1).1.trim();
@@ -923,7 +926,9 @@ impl Header {
                     .parse::<f64>()
                     .or(Err(ParsingError::DorisL1L2DateOffset))?;
 
-                doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+                // nanosecond resolution
+                doris.u2_s1_time_offset =
+                    Duration::from_nanoseconds((time_offset_us * 1.0E3).round());
             } else if marker.contains("STATION REFERENCE") {
                 // DORIS special case
                 let station = DorisStation::from_str(content.trim())?;
-- 
2.43.0


From b2dcd768d314e81d014cd8fdcadb826447801cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 25/30] fix: ANTEX: phase patterns and azimuth increment were
 not read, serial numbers and validity were misread, damaged files panicked

---
 src/antex/antenna/mod.rs |   2 +-
 src/antex/mod.rs         |   2 +-
 src/antex/record.rs      | 150 +++++++++++++++++++--------------------
 src/hardware.rs          |   4 +-
 src/header/mod.rs        |   2 +-
 src/header/parsing.rs    |  13 +++-
 src/lib.rs               |   2 +-
 7 files changed, 90 insertions(+), 85 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
diff --git a/src/antex/mod.rs b/src/antex/mod.rs
index 52a184d..6604ec0 100644
--- a/src/antex/mod.rs
+++ b/src/antex/mod.rs
@@ -11,7 +11,7 @@ pub use antenna::{
     Antenna, AntennaMatcher, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna,
 };
 
-pub use record::{FrequencyDependentData, Record};
+pub use record::{AntennaPhasePattern, FrequencyDependentData, Record};
 
 use crate::prelude::FormattingError;
 
diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..6a30ab6 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -2,8 +2,10 @@ use std::{collections::HashMap, str::FromStr};
 
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
+    epoch::parse_in_timescale as parse_epoch_in_timescale,
+    header::{parse_cospar, Columns},
     linspace::Linspace,
-    prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    prelude::{Carrier, Epoch, ParsingError, TimeScale, SV},
 };
 
 #[cfg(feature = "serde")]
@@ -121,68 +123,52 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    let year = year.checked_add(2000).ok_or(ParsingError::DatetimeParsing)?;
+
+    Epoch::maybe_from_gregorian_utc(year, month, day, 0, 0, 0, 0)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
- * Parses the calibration validity FROM/UNTIL field
+ * Parses the calibration validity FROM/UNTIL field,
+ * always expressed in GPS time
  */
 fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
-    let mut items = content.split_ascii_whitespace();
-
-    let year = items.next().ok_or(ParsingError::DatetimeFormat)?;
-
-    let year = year
-        .parse::<i32>()
-        .map_err(|_| ParsingError::DatetimeParsing)?;
-
-    let month = items.next().ok_or(ParsingError::DatetimeFormat)?;
-
-    let month = month
-        .parse::<u8>()
-        .map_err(|_| ParsingError::DatetimeParsing)?;
-
-    let day = items.next().ok_or(ParsingError::DatetimeFormat)?;
-    let day = day
-        .parse::<u8>()
-        .map_err(|_| ParsingError::DatetimeParsing)?;
-
-    let hh = items.next().ok_or(ParsingError::DatetimeFormat)?;
-    let hh = hh
-        .parse::<u8>()
-        .map_err(|_| ParsingError::DatetimeParsing)?;
+    parse_epoch_in_timescale(content, TimeScale::GPST)
+}
 
-    let mm = items.next().ok_or(ParsingError::DatetimeFormat)?;
-    let mm = mm.parse::<u8>().map_err(|_| ParsingError::DatetimeFormat)?;
+/*
+ * Parses spacecraft description, panics of the external parser
+ * on malformed descriptions must be avoided
+ */
+fn parse_sv(content: &str) -> Result<SV, ParsingError> {
+    if content.is_empty() || !content.is_ascii() {
+        return Err(ParsingError::AntexFrequency);
+    }
+    Ok(SV::from_str(content)?)
+}
 
-    let ss = items.next().ok_or(ParsingError::DatetimeParsing)?;
+/*
+ * Parses azimuth independent phase pattern: 8 columns per value
+ */
+fn parse_phase_pattern(content: &str) -> Result<Vec<f64>, ParsingError> {
+    let mut values = Vec::<f64>::new();
+    let mut rem = content.trim_end();
 
-    let secs: u8;
-    let mut nanos = 0_u32;
+    while !rem.is_empty() {
+        let (value, next) = rem.split_columns(8);
 
-    if let Some(dot) = ss.find('.') {
-        secs = ss[..dot]
-            .trim()
-            .parse::<u8>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        values.push(
+            value
+                .trim()
+                .parse::<f64>()
+                .map_err(|_| ParsingError::AntexFrequency)?,
+        );
 
-        nanos = ss[dot + 1..]
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
-    } else {
-        secs = ss
-            .parse::<u8>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        rem = next;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Ok(values)
 }
 
 /// Parses entire Antenna block
@@ -198,12 +184,12 @@ pub(crate) fn parse_antenna(
     let mut valid_from = Epoch::default();
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        let (content, marker) = line.split_columns(60);
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
+            let (ant_type, rem) = content.split_columns(20);
+            let (block1, rem) = rem.split_columns(20);
+            let (block2, rem) = rem.split_columns(10);
+            let (block3, _rem) = rem.split_columns(10);
 
             let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
             /*
@@ -211,12 +197,13 @@ pub(crate) fn parse_antenna(
              */
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
-                    igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    igs_type: ant_type.trim().to_string(),
+                    sv: parse_sv(block1)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
-                    igs_type: ant_igs.trim().to_string(),
+                    // IGS code, radome (4 columns) excluded
+                    igs_type: ant_type.split_columns(16).0.trim().to_string(),
                     serial_number: {
                         if !block1.is_empty() && !block1.eq("NONE") {
                             Some(block1.to_string())
@@ -228,13 +215,13 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
+            let (method, rem) = content.split_columns(20);
+            let (agency, rem) = rem.split_columns(20);
+            let (number, rem) = rem.split_columns(10); // N#
+            let (date, _) = rem.split_columns(10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim())?,
                 number: number
                     .trim()
                     .parse::<u16>()
@@ -252,27 +239,28 @@ pub(crate) fn parse_antenna(
 
             antenna = antenna.with_validity_period(valid_from, valid_until);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
+            let sinex = content.split_columns(20).0;
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            let dazi = content.split_columns(8).0.trim();
+            if let Ok(dazi) = dazi.parse::<f64>() {
+                antenna = antenna.with_dazi(dazi)
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let svnn = content.split_columns(10).0;
+            let sv = parse_sv(svnn.trim())?;
             frequency = Carrier::from_sv(sv)?;
+            freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
+            let (north, rem) = content.split_columns(10);
+            let (east, rem) = rem.split_columns(10);
+            let (up, _) = rem.split_columns(10);
 
             let north = north
                 .trim()
@@ -291,9 +279,9 @@ pub(crate) fn parse_antenna(
 
             freq_data.apc_eccentricity = (north, east, up);
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
+            let (start, rem) = content.split_columns(8);
+            let (end, rem) = rem.split_columns(6);
+            let (spacing, _) = rem.split_columns(6);
 
             let start = start
                 .trim()
@@ -322,6 +310,12 @@ pub(crate) fn parse_antenna(
                    // if we make a parallel with other types of RINEX
         } else {
             // inside phase pattern
+            let (azimuth, rem) = line.split_columns(8);
+
+            if azimuth.trim().eq("NOAZI") {
+                freq_data.phase_pattern =
+                    AntennaPhasePattern::AzimuthIndependentPattern(parse_phase_pattern(rem)?);
+            }
         }
         //    } else if marker.contains("SINEX CODE") {
         //        let sinex = content.split_at(10).0;
diff --git a/src/hardware.rs b/src/hardware.rs
index 278aa48..022f268 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,7 +1,7 @@
 //! Receiver and antenna
 use crate::{
     fmt_rinex,
-    header::Columns,
+    header::{parse_cospar, Columns},
     prelude::{FormattingError, COSPAR, SV},
 };
 
@@ -308,7 +308,7 @@ impl SvAntenna {
     }
     pub fn with_cospar(&self, c: &str) -> Self {
         let mut s = self.clone();
-        if let Ok(cospar) = COSPAR::from_str(c) {
+        if let Ok(cospar) = parse_cospar(c) {
             s.cospar = Some(cospar);
         }
         s
diff --git a/src/header/mod.rs b/src/header/mod.rs
index f8b4671..55031d0 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -23,7 +23,7 @@ use std::collections::HashMap;
 mod formatting;
 mod parsing;
 
-pub(crate) use parsing::Columns;
+pub(crate) use parsing::{parse_cospar, Columns};
 
 #[cfg(feature = "qc")]
 mod qc;
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 12fea94..9e45249 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -23,6 +23,8 @@ use crate::{
     version::Version,
 };
 
+use gnss_rs::cospar::Error as CosparParsingError;
+
 use std::{
     collections::HashMap,
     io::{BufRead, BufReader, Read},
@@ -42,6 +44,15 @@ impl Columns for str {
     }
 }
 
+/// Parses [COSPAR] number ("YYYY-NNNA"), panics of the external parser
+/// on malformed descriptions must be avoided.
+pub(crate) fn parse_cospar(content: &str) -> Result<COSPAR, ParsingError> {
+    if !content.is_ascii() || content.find('-') != Some(4) {
+        return Err(CosparParsingError::InvalidFormat.into());
+    }
+    Ok(COSPAR::from_str(content)?)
+}
+
 impl Header {
     /// Parse [Header] by consuming [BufReader] until end of this section
     pub fn parse<R: Read>(reader: &mut BufReader<R>) -> Result<Self, ParsingError> {
@@ -676,7 +687,7 @@ impl Header {
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-                cospar = Some(COSPAR::from_str(content.trim())?);
+                cospar = Some(parse_cospar(content.trim())?);
             } else if marker.contains("GLONASS SLOT / FRQ #") {
                 //TODO
                 // This should be used when dealing with Glonass carriers
diff --git a/src/lib.rs b/src/lib.rs
index 318ddd7..a53bee0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1474,7 +1474,7 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant.serial_number.as_ref().map(|sn| sn.to_lowercase()).as_ref() == Some(sn) {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From 2d3a0a51a376b9a7df5d7b49759877beb950aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 26/30] fix: CRINEX: stale flags of vehicles that come back,
 non standard gaps, shifted V1 observations, panics on damaged files

---
 src/hatanaka/compressor.rs       |  13 +
 src/hatanaka/decompressor/mod.rs | 479 ++++++++++++-------------------
 src/record/parsing.rs            |   8 +-
 3 files changed, 201 insertions(+), 299 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index 3c3d6c7..2e04ddc 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -78,6 +78,16 @@ impl<const M: usize> CompressorExpert<M> {
                 .sorted()
                 .collect::<Vec<_>>();
 
+            // Arcs are initialized along the epoch description,
+            // and when vehicles come back
+            if !self.epoch_compression {
+                self.sv_kernels.clear();
+                self.flags_diff.clear();
+            } else {
+                self.sv_kernels.retain(|(sv, _), _| svnn.contains(sv));
+                self.flags_diff.retain(|sv, _| svnn.contains(sv));
+            }
+
             if !self.epoch_compression {
                 if self.v3 {
                     write!(w, "> ")?;
@@ -200,6 +210,9 @@ impl<const M: usize> CompressorExpert<M> {
                         // BLANK is a single ' '
                         write!(w, "{}", ' ')?;
                         self.flags_buf.push_str("  ");
+
+                        // this concludes the arc
+                        self.sv_kernels.remove(&(*sv, observable.clone()));
                     }
                 }
 
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 36ebadd..a8bd1a7 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -67,7 +67,7 @@ impl State {
                     Self::MIN_DECOMPRESSED_EPOCH_SIZE_V3
                 } else {
                     let mut size = Self::MIN_DECOMPRESSED_EPOCH_SIZE_V1;
-                    let num_extra = div_ceil(numsat, 12) - 1;
+                    let num_extra = div_ceil(numsat, 12).saturating_sub(1);
                     size += num_extra * 17; // padding
                     size += numsat * 3; // formatted
                     size
@@ -183,8 +183,13 @@ impl<const M: usize> DecompressorExpert<M> {
     fn next_sv(&self) -> Option<SV> {
         let start = Self::sv_slice_start(self.v3, self.sv_ptr);
         let end = (start + 3).min(self.epoch_desc_len);
+        let content = self.epoch_descriptor.get(start..end)?.trim();
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
+        if content.is_empty() {
+            return None;
+        }
+
+        if let Ok(sv) = SV::from_str(content) {
             Some(sv)
         } else {
             // May fail on old revisions that have a mono GNSS system
@@ -192,17 +197,14 @@ impl<const M: usize> DecompressorExpert<M> {
             if !self.v3 {
                 match self.constellation {
                     Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
+                        None // incorrect description
                     },
                     constellation => {
                         // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
+                        if let Ok(prn) = content.parse::<u8>() {
+                            Some(SV { prn, constellation })
                         } else {
-                            None // incorrect description, will rapidly panic
+                            None // incorrect description
                         }
                     },
                 }
@@ -220,11 +222,9 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
-        } else {
-            None
-        }
+        let numsat = self.epoch_descriptor.get(start..start + 3)?;
+        let numsat = numsat.trim().parse::<u8>().ok()?;
+        Some(numsat as usize)
     }
 
     /// Builds new CRINEX decompressor.
@@ -286,12 +286,25 @@ impl<const M: usize> DecompressorExpert<M> {
             return Err(Error::BufferOverflow);
         }
 
+        // Damaged content
+        if !line.is_ascii() {
+            self.state = State::Epoch;
+            return Err(Error::EpochFormat);
+        }
+
         // println!("STATE={:?}", self.state); //DEBUG
-        match self.state {
+        let result = match self.state {
             State::Epoch => self.run_epoch(line, len),
             State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Observation => self.run_observation(line, buf),
+        };
+
+        // Damaged content: wait for the next epoch
+        if result.is_err() {
+            self.state = State::Epoch;
         }
+
+        result
     }
 
     /// Process following line, in [State::Epoch]
@@ -318,17 +331,13 @@ impl<const M: usize> DecompressorExpert<M> {
                 return Err(Error::BadV3Format);
             }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+            self.init_epoch(trimmed);
         } else if line.starts_with('>') {
             if !self.v3 {
                 return Err(Error::BadV1Format);
             }
 
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+            self.init_epoch(trimmed);
         } else {
             self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
             self.epoch_desc_len = self.epoch_descriptor.len();
@@ -341,7 +350,7 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // numsat needs to be recovered right away,
         // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
 
         // Previous (longer) descriptions remain behind the last SV that is described
         let start = Self::sv_slice_start(self.v3, self.numsat);
@@ -351,6 +360,14 @@ impl<const M: usize> DecompressorExpert<M> {
         Ok(0)
     }
 
+    /// Plain epoch description: all arcs are initialized
+    fn init_epoch(&mut self, descriptor: &str) {
+        self.epoch_diff.force_init(descriptor);
+        self.epoch_descriptor = descriptor.to_string();
+        self.epoch_desc_len = descriptor.len();
+        self.flags_diff.clear();
+    }
+
     /// Fills user buffer with recovered epoch, following either V1 or V3 standards
     fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
         if self.v3 {
@@ -456,8 +473,10 @@ impl<const M: usize> DecompressorExpert<M> {
                 if let Ok(order) = line[..1].parse::<usize>() {
                     if let Ok(val) = line[2..].parse::<i64>() {
                         // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
+                        if order <= M && Self::is_valid(val) {
+                            self.clock_diff.force_init(val, order);
+                            clock_data = Some(val);
+                        }
                     }
                 }
             }
@@ -482,8 +501,17 @@ impl<const M: usize> DecompressorExpert<M> {
         self.sv_ptr = 0;
         self.first_epoch = false;
 
+        // no vehicle: move on to next epoch
+        if self.numsat == 0 {
+            self.flags_diff.clear();
+            self.state = State::Epoch;
+            return Ok(produced);
+        }
+
         // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
+        self.sv = self.next_sv().ok_or(Error::SVParsing)?;
+
+        let mut vehicles = Vec::with_capacity(self.numsat);
 
         // cross check recovered content
         // &, at the same time, make sure we are ready to process any new SV
@@ -492,18 +520,20 @@ impl<const M: usize> DecompressorExpert<M> {
 
             // any invalid SV description, will cause us to wait for a new epoch.
             // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
+            let content = self
+                .epoch_descriptor
+                .get(start..start + 3)
+                .ok_or(Error::SVParsing)?;
+
+            let sv = match SV::from_str(content) {
                 Ok(sv) => sv,
                 Err(_) => {
                     // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
                     // that omit the constellation
                     if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
+                        if let Ok(prn) = content[1..].trim().parse::<u8>() {
                             SV {
-                                prn: *prn,
+                                prn,
                                 constellation: self.constellation,
                             }
                         } else {
@@ -521,25 +551,30 @@ impl<const M: usize> DecompressorExpert<M> {
                 let textdiff = TextDiff::new("               ");
                 self.flags_diff.insert(sv, textdiff);
             }
+
+            vehicles.push(sv);
         }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
+        // vehicles that come back are initialized
+        self.flags_diff.retain(|sv, _| vehicles.contains(sv));
 
-        self.numobs = obs.len();
+        self.numobs = self.next_numobs()?;
         self.state = State::Observation;
         Ok(produced)
     }
 
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
+    fn run_observation(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
         let mut consumed = 0;
         let mut produced = 0;
         let mut new_state = self.state;
+        let mut trimmed_line = false;
 
         self.blanking_indexes.clear(); // new run
 
+        // content only
+        let line = line.trim_end_matches(|c| c == '\n' || c == '\r');
+
         // println!("[{}] LINE \"{}\"", self.sv, line); // DEBUG
 
         if self.v3 {
@@ -561,275 +596,85 @@ impl<const M: usize> DecompressorExpert<M> {
             // we only implement successful cases.
             let mut formatted = "                ".to_string();
 
-            // Try to locate next '_', which is either
+            // Locate next '_', which is either
             //  . normal/expected line progression
             //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
-
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
-            } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
+            // Trimmed lines terminate early: last observation is not followed by '_'
+            // and all remaining observations are missing.
+            let remainder = line.get(consumed..).unwrap_or("");
+            let size = remainder.find(' ').unwrap_or(remainder.len());
+            let slice = &remainder[..size];
+            consumed += size + 1; // consume until this point
+
+            // last observation of a trimmed line
+            trimmed_line |= size > 0 && size == remainder.len();
+
+            if slice.is_empty() {
+                self.blanking_indexes.push(ptr);
+            } else if let Some(value) = self.recover_observation(ptr, slice) {
+                let recovered = format!("{:14.3}  ", value as f64 / 1000.0);
+
+                // values that exceed the standard F14.3 are left blank
+                if recovered.len() == formatted.len() {
+                    formatted = recovered;
                 }
+            }
 
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
-
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
+            // push into user
+            let bytes = formatted.as_bytes();
+            let fmt_len = bytes.len();
 
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+            if produced + fmt_len + 3 > buf.len() {
+                return Err(Error::BufferOverflow);
+            }
 
-                    self.state = State::Observation;
-                }
+            buf[produced..produced + fmt_len].copy_from_slice(bytes);
+            produced += fmt_len;
 
-                return Ok(produced);
+            // handle V1 wrapping
+            if !self.v3 && (ptr % 5) == 4 {
+                buf[produced] = b'\n';
+                produced += 1;
             }
         } // for
 
+        // V1 historical behavior: trimmed lines are followed by an empty line
+        if !self.v3 && trimmed_line {
+            for byte in [b'\n', b'\n'].iter().skip((self.numobs % 5 == 0) as usize) {
+                buf[produced] = *byte;
+                produced += 1;
+            }
+        }
+
         // at this point, we should be left with "data flags" in the buffer.
         // That may not be the case. We may have consumed everything when
         // the line was trimmed at production time, meaning flags should be preserved
+        let flags = line.get(consumed..).unwrap_or("").trim_end();
 
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
-
-            // println!("FLAGS \"{}\"", flags); // DEBUG
+        // println!("FLAGS \"{}\"", flags); // DEBUG
 
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
+        let kernel = self.flags_diff.get_mut(&self.sv).ok_or(Error::SVParsing)?;
+        self.flags_buf = kernel.decompress(flags).to_string();
 
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
-
-            self.flags_buf = flags.to_string();
-
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
+        // blank flags for which observation is blanked
+        // otherwise, .decompress("") will return past value
+        for index in &self.blanking_indexes {
+            for offset in [2 * index, 2 * index + 1] {
+                if self.flags_buf.len() > offset {
+                    self.flags_buf.replace_range(offset..offset + 1, " ");
                 }
             }
+        }
 
-            // update len
-            let flags_len = self.flags_buf.len();
+        let flags_len = self.flags_buf.len();
 
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
+        // copy all flags to user
+        // println!(
+        //     "RECOVERED \"{}\" (len={},numobs={})",
+        //     &self.flags_buf, flags_len, self.numobs
+        // ); // DEBUG
 
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
-        }
+        Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
 
         self.obs_ptr = 0;
 
@@ -845,24 +690,63 @@ impl<const M: usize> DecompressorExpert<M> {
 
             new_state = State::Epoch;
         } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
-
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            self.sv = self.next_sv().ok_or(Error::SVParsing)?;
+            self.numobs = self.next_numobs()?;
         }
 
         self.state = new_state;
         Ok(produced)
     }
 
+    /// Recovers observation from either a kernel reset ("3&12345")
+    /// or the compressed value that continues this arc.
+    fn recover_observation(&mut self, ptr: usize, slice: &str) -> Option<i64> {
+        if let Some((level, value)) = slice.split_once('&') {
+            // kernel reset
+            let level = level.parse::<usize>().ok().filter(|level| *level <= M)?;
+            let value = value.parse::<i64>().ok().filter(|v| Self::is_valid(*v))?;
+
+            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
+                kernel.force_init(value, level);
+            } else {
+                let kernel = NumDiff::<M>::new(value, level);
+                self.obs_diff.insert((self.sv, ptr), kernel);
+            }
+            Some(value)
+        } else {
+            // compressed data case
+            let value = slice.parse::<i64>().ok().filter(|v| Self::is_valid(*v))?;
+            let kernel = self.obs_diff.get_mut(&(self.sv, ptr))?;
+            let value = kernel.decompress(value);
+
+            // diverging (damaged) arcs are dropped until the next reset
+            if !Self::is_valid(value) {
+                self.obs_diff.remove(&(self.sv, ptr));
+                return None;
+            }
+            Some(value)
+        }
+    }
+
+    /// Values and differences (up to M=6) of F14.3 observations remain below this limit
+    fn is_valid(value: i64) -> bool {
+        value.unsigned_abs() < 1_000_000_000_000_000
+    }
+
+    /// Number of [Observable]s to recover for current [SV]
+    fn next_numobs(&self) -> Result<usize, Error> {
+        let constellation = if self.sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            self.sv.constellation
+        };
+
+        match self.get_observables(&constellation) {
+            Some(observables) if !observables.is_empty() => Ok(observables.len()),
+            _ => Err(Error::SVParsing),
+        }
+    }
+
     /// Helper to retrieve observable for given system
     fn get_observables(&self, constell: &Constellation) -> Option<&Vec<Observable>> {
         // We use mixed to store a single value for single definitions
@@ -876,6 +760,7 @@ impl<const M: usize> DecompressorExpert<M> {
     /// Insert data flags into buffer that we already have
     /// partially encoded. This concludes the buffer publication in Observation state.
     fn write_flags(flags: &str, flags_len: usize, numobs: usize, v3: bool, buf: &mut [u8]) {
+        let flags_len = flags_len.min(numobs * 2);
         if v3 {
             Self::write_v3_flags(flags, flags_len, numobs, buf);
         } else {
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index ae14d8e..48b35bf 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -85,8 +85,8 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
-        let mut buf = [0; CRINEX_BUF_SIZE];
+        const CRINEX_BUF_SIZE: usize = 65536;
+        let mut buf = vec![0; CRINEX_BUF_SIZE];
 
         let mut is_crinex = false;
         let mut crinex_v3 = false;
@@ -268,6 +268,10 @@ impl Record {
                                 line_buf.truncate(line_buf.trim_end().len());
                             }
 
+                            // V1 revision: empty lines do not describe observations,
+                            // missing observations are described by whitespaces
+                            line_buf = line_buf.replace("\n\n", "\n");
+
                             // V1 revision: recovered content may already be terminated
                             if !line_buf.ends_with('\n') {
                                 line_buf.push('\n');
-- 
2.43.0


From d54802c886c035f3e1daaa32d357c5f4f0a624f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 27/30] fix: Carrier: RINEX 2 codes P1, P2 of Glonass and C7,
 C8 of Galileo

---
 src/carrier.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 5c8fb77..632ad7d 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -355,9 +355,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "L1", "D1", "S1", "P1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -365,9 +365,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "L2", "D2", "S2", "P2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
@@ -411,10 +411,10 @@ impl Carrier {
             "L1C", "D1C", "S1C", "C1X", "L1X", "D1X", "S1X", "C1Z", "L1Z", "D1Z", "S1Z",
         ]
     }
-    pub(crate) fn e5_codes() -> [&'static str; 16] {
+    pub(crate) fn e5_codes() -> [&'static str; 20] {
         [
-            "C5", "L5", "D5", "S5", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
-            "L8X", "D8X", "S8X",
+            "C5", "L5", "D5", "S5", "C8", "L8", "D8", "S8", "C8I", "L8I", "D8I", "S8I", "C8Q",
+            "L8Q", "D8Q", "S8Q", "C8X", "L8X", "D8X", "S8X",
         ]
     }
     pub(crate) fn e5a_codes() -> [&'static str; 12] {
@@ -422,9 +422,10 @@ impl Carrier {
             "C5I", "L5I", "D5I", "S5I", "C5Q", "L5Q", "D5Q", "S5Q", "C5X", "L5X", "D5X", "S5X",
         ]
     }
-    pub(crate) fn e5b_codes() -> [&'static str; 12] {
+    pub(crate) fn e5b_codes() -> [&'static str; 16] {
         [
-            "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
+            "C7", "L7", "D7", "S7", "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X",
+            "L7X", "D7X", "S7X",
         ]
     }
     pub(crate) fn e6_codes() -> [&'static str; 24] {
-- 
2.43.0


From d81d1d6e9da3759e716ef01142ebee46350b148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 28/30] fix: Header: one letter constellation in RINEX VERSION
 / TYPE

---
 src/header/formatting.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 1e2ad7c..a8617c4 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -127,7 +127,7 @@ impl Header {
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           NAVIGATION DATA     {:X<20}",
+                                "{:6}.{:02}           NAVIGATION DATA     {:x}",
                                 major, minor, c
                             ),
                             "RINEX VERSION / TYPE"
@@ -150,13 +150,26 @@ impl Header {
                         )
                     )?;
                 },
+                Some(Constellation::GPS) => {
+                    writeln!(
+                        w,
+                        "{}",
+                        fmt_rinex(
+                            &format!(
+                                "{:6}.{:02}           OBSERVATION DATA    GPS",
+                                major, minor
+                            ),
+                            "RINEX VERSION / TYPE"
+                        )
+                    )?;
+                },
                 Some(c) => {
                     writeln!(
                         w,
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
+                                "{:6}.{:02}           OBSERVATION DATA    {:x}",
                                 major, minor, c
                             ),
                             "RINEX VERSION / TYPE"
-- 
2.43.0


From aea329f9a8d36291097cda0df6871e7f4354dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 29/30] fix: CRINEX: too small buffers and diverging clocks are
 errors, not panics

---
 src/hatanaka/decompressor/mod.rs | 55 ++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index a8bd1a7..f810d7f 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -369,7 +369,7 @@ impl<const M: usize> DecompressorExpert<M> {
     }
 
     /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> Result<usize, Error> {
         if self.v3 {
             self.format_epoch_v3(clock_data, buf)
         } else {
@@ -378,11 +378,16 @@ impl<const M: usize> DecompressorExpert<M> {
     }
 
     /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> Result<usize, Error> {
         // V3 format is much simpler
         // all we need to do is extract SV `XXY` to append in each following lines
 
         let mut produced = 0;
+
+        if buf.len() < 35 {
+            return Err(Error::BufferOverflow);
+        }
+
         buf[produced] = b'>'; // special marker
         produced += 1;
 
@@ -398,25 +403,34 @@ impl<const M: usize> DecompressorExpert<M> {
             let formatted = format!("       {:.12}", value);
             let fmt_len = formatted.len(); // TODO improve: this is constant
             let bytes = formatted.as_bytes();
+
+            if produced + fmt_len > buf.len() {
+                return Err(Error::BufferOverflow);
+            }
+
             buf[produced..produced + fmt_len].copy_from_slice(&bytes);
             produced += fmt_len; // TODO improve: this is constant
         }
 
-        produced
+        Ok(produced)
     }
 
     /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> Result<usize, Error> {
         let mut produced = 0;
 
+        // first line (up to 68 bytes)
+        let first_len = self.epoch_desc_len.min(67);
+
+        if first_len + 2 > buf.len() {
+            return Err(Error::BufferOverflow);
+        }
+
         buf[produced] = b' '; // single whitespace
         produced += 1;
 
         let bytes = self.epoch_descriptor.as_bytes();
 
-        // push first line (up to 68 bytes)
-        let first_len = self.epoch_desc_len.min(67);
-
         buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
         produced += first_len;
 
@@ -425,6 +439,11 @@ impl<const M: usize> DecompressorExpert<M> {
             let formatted_ck = format!(" {:15.12}", clock_data);
             let fmt_len = formatted_ck.len(); // TODO: improve (constant)
             let formatted_ck = formatted_ck.as_bytes();
+
+            if produced + fmt_len + 1 > buf.len() {
+                return Err(Error::BufferOverflow);
+            }
+
             buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
             produced += fmt_len;
         }
@@ -437,6 +456,13 @@ impl<const M: usize> DecompressorExpert<M> {
         let nb_extra = self.epoch_desc_len.saturating_sub(Self::V1_SV_OFFSET) / 36;
 
         for _ in 0..nb_extra {
+            let end = (offset + 36).min(self.epoch_desc_len);
+            let size = end - offset;
+
+            if produced + 32 + size + 1 > buf.len() {
+                return Err(Error::BufferOverflow);
+            }
+
             // extra padding
             buf[produced..produced + 32].copy_from_slice(&[
                 b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
@@ -447,9 +473,6 @@ impl<const M: usize> DecompressorExpert<M> {
             produced += 32;
 
             // copy data slice
-            let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
-
             buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
 
             offset += size;
@@ -460,7 +483,7 @@ impl<const M: usize> DecompressorExpert<M> {
             produced += 1;
         }
 
-        produced
+        Ok(produced)
     }
 
     /// Process following line, in [State::Clock]
@@ -486,7 +509,13 @@ impl<const M: usize> DecompressorExpert<M> {
             match line.trim().parse::<i64>() {
                 Ok(val) => {
                     let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
+
+                    // diverging (damaged) clock is dropped until the next reset
+                    if Self::is_valid(val) {
+                        clock_data = Some(val);
+                    } else {
+                        self.clock_diff = NumDiff::<M>::new(0, M);
+                    }
                 },
                 Err(_) => {},
             }
@@ -494,7 +523,7 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // now that we have potentially recovered clock data
         // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
+        let produced = self.format_epoch(clock_data, buf)?;
 
         // prepare for observation state
         self.obs_ptr = 0;
-- 
2.43.0


From 9058ea736785f3d9f35c9de27c8c79f4c6c323a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 30/30] fix: signal combinations, multipath and tracking
 iterators: reference of the same epoch, BeiDou pivot, inverted filters

---
 src/lib.rs                       |   4 +-
 src/observable.rs                |   8 +-
 src/observation/rinex/feature.rs | 373 ++++++++++++++-----------------
 3 files changed, 182 insertions(+), 203 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a53bee0..84b99a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1071,11 +1071,11 @@ impl Rinex {
     /// for which we return null.
     pub fn epoch_iter(&self) -> Box<dyn Iterator<Item = Epoch> + '_> {
         if let Some(r) = self.record.as_obs() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else if let Some(r) = self.record.as_meteo() {
             Box::new(r.iter().map(|(k, _)| k.epoch).unique())
         } else if let Some(r) = self.record.as_doris() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else if let Some(r) = self.record.as_nav() {
             Box::new(r.iter().map(|(k, _)| k.epoch))
         } else if let Some(r) = self.record.as_clock() {
diff --git a/src/observable.rs b/src/observable.rs
index 01a29cb..5af572a 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -316,7 +316,13 @@ impl Observable {
             if let Ok(carrier) = self.carrier(constellation) {
                 matches!(
                     carrier,
-                    Carrier::L1 | Carrier::E1 | Carrier::G1(_) | Carrier::S1 | Carrier::B2I
+                    Carrier::L1
+                        | Carrier::E1
+                        | Carrier::G1(_)
+                        | Carrier::S1
+                        | Carrier::B1I
+                        | Carrier::B1A
+                        | Carrier::B1C
                 )
             } else {
                 false
diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..a747832 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,10 +169,10 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
-                    Some((k, sig))
-                } else {
+                if lli.intersects(LliFlags::LOCK_LOSS | LliFlags::HALF_CYCLE_SLIP) {
                     None
+                } else {
+                    Some((k, sig))
                 }
             } else {
                 Some((k, sig))
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
@@ -259,25 +259,30 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
-                .signals_combination(Combination::WideLane)
-                .iter()
-                .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
+            // narrow lane code combinations: per epoch, vehicle and signal code
+            let mut narrow_lanes = HashMap::<(Epoch, EpochFlag, SV, String), f64>::new();
+
+            for (k, v) in self.signals_combination(Combination::NarrowLane) {
+                if k.reference.is_pseudo_range_observable() {
+                    if let Some(code) = k.lhs.code() {
+                        narrow_lanes.insert((k.epoch, k.flag, k.sv, code), v);
                     }
-                })
-            {
+                }
+            }
+
+            for (k_1, v_1) in self.signals_combination(Combination::WideLane) {
+                if !k_1.reference.is_phase_range_observable() {
+                    continue;
+                }
+
+                let Some(code) = k_1.lhs.code() else {
+                    continue;
+                };
+
+                let Some(v_2) = narrow_lanes.get(&(k_1.epoch, k_1.flag, k_1.sv, code)) else {
+                    continue;
+                };
+
                 let key = CombinationKey {
                     epoch: k_1.epoch,
                     flag: k_1.flag,
@@ -288,118 +293,112 @@ impl Rinex {
                 ret.insert(key, v_1 - v_2);
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
+            for (k, observations) in self.observations_iter() {
+                // pivot signals, per vehicle and physics, in this very epoch.
+                // Signals refer to the latest pivot that precedes them, otherwise to the first one.
+                let mut references = HashMap::<(SV, bool), (&Observable, f64, f64, f64)>::new();
+
+                for v in observations.signals.iter().rev() {
+                    if v.observable.is_l1_pivot(v.sv.constellation) {
+                        if let Ok(carrier) = v.observable.carrier(v.sv.constellation) {
+                            references.insert(
+                                (v.sv, v.observable.is_phase_range_observable()),
+                                (
+                                    &v.observable,
+                                    carrier.frequency(),
+                                    carrier.wavelength(),
+                                    v.value,
+                                ),
+                            );
+                        }
+                    }
                 }
-            };
 
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+                for v in observations.signals.iter() {
+                    let is_phase_range = v.observable.is_phase_range_observable();
+                    let is_pseudo_range = v.observable.is_pseudo_range_observable();
 
-            for (k, v) in self.signal_observations_iter() {
-                let is_phase_range = v.observable.is_phase_range_observable();
-                let is_pseudo_range = v.observable.is_pseudo_range_observable();
-
-                if !is_phase_range && !is_pseudo_range {
-                    continue;
-                }
+                    if !is_phase_range && !is_pseudo_range {
+                        continue;
+                    }
 
-                let is_l1_pivot = v.observable.is_l1_pivot(v.sv.constellation);
+                    let is_l1_pivot = v.observable.is_l1_pivot(v.sv.constellation);
 
-                let carrier = v.observable.carrier(v.sv.constellation);
-                if carrier.is_err() {
-                    continue;
-                }
+                    let carrier = v.observable.carrier(v.sv.constellation);
+                    if carrier.is_err() {
+                        continue;
+                    }
 
-                let carrier = carrier.unwrap();
-                let freq = carrier.frequency();
-                let lambda = carrier.wavelength();
+                    let carrier = carrier.unwrap();
+                    let freq = carrier.frequency();
+                    let lambda = carrier.wavelength();
 
-                if is_l1_pivot {
-                    if is_phase_range {
-                        phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
+                    if is_l1_pivot {
+                        references.insert(
+                            (v.sv, is_phase_range),
+                            (&v.observable, freq, lambda, v.value),
+                        );
                     } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    };
-                } else {
-                    let reference = if is_phase_range {
-                        &phase_ref_value
-                    } else {
-                        &pr_ref_value
-                    };
-
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
-                            continue;
+                        if let Some((reference, f_1, w_1, ref_value)) =
+                            references.get(&(v.sv, is_phase_range))
+                        {
+                            let alpha = match combination {
+                                Combination::GeometryFree => 1.0,
+                                Combination::IonosphereFree => f_1.powi(2),
+                                Combination::WideLane => *f_1,
+                                Combination::NarrowLane => *f_1,
+                                Combination::MelbourneWubbena => {
+                                    unreachable!("mw combination");
+                                },
+                            };
+
+                            let beta = match combination {
+                                Combination::GeometryFree => -1.0,
+                                Combination::IonosphereFree => -freq.powi(2),
+                                Combination::WideLane => -freq,
+                                Combination::NarrowLane => freq,
+                                Combination::MelbourneWubbena => {
+                                    unreachable!("mw combination");
+                                },
+                            };
+
+                            let gamma = match combination {
+                                Combination::GeometryFree => 1.0,
+                                Combination::IonosphereFree => f_1.powi(2) - freq.powi(2),
+                                Combination::WideLane => *f_1 - freq,
+                                Combination::NarrowLane => *f_1 + freq,
+                                Combination::MelbourneWubbena => {
+                                    unreachable!("mw combination");
+                                },
+                            };
+
+                            let (v_lhs, v_rhs) = match combination {
+                                Combination::GeometryFree => {
+                                    if v.observable.is_phase_range_observable() {
+                                        (*ref_value * w_1, v.value * lambda)
+                                    } else {
+                                        (v.value, *ref_value)
+                                    }
+                                },
+                                _ => {
+                                    if v.observable.is_phase_range_observable() {
+                                        (*ref_value * w_1, v.value * lambda)
+                                    } else {
+                                        (*ref_value, v.value)
+                                    }
+                                },
+                            };
+
+                            let combination = CombinationKey {
+                                epoch: k.epoch,
+                                flag: k.flag,
+                                sv: v.sv,
+                                lhs: v.observable.clone(),
+                                reference: (*reference).clone(),
+                            };
+
+                            ret.insert(combination, (alpha * v_lhs + beta * v_rhs) / gamma);
                         }
-
-                        let alpha = match combination {
-                            Combination::GeometryFree => 1.0,
-                            Combination::IonosphereFree => f_1.powi(2),
-                            Combination::WideLane => *f_1,
-                            Combination::NarrowLane => *f_1,
-                            Combination::MelbourneWubbena => {
-                                unreachable!("mw combination");
-                            },
-                        };
-
-                        let beta = match combination {
-                            Combination::GeometryFree => -1.0,
-                            Combination::IonosphereFree => -freq.powi(2),
-                            Combination::WideLane => -freq,
-                            Combination::NarrowLane => freq,
-                            Combination::MelbourneWubbena => {
-                                unreachable!("mw combination");
-                            },
-                        };
-
-                        let gamma = match combination {
-                            Combination::GeometryFree => 1.0,
-                            Combination::IonosphereFree => f_1.powi(2) - freq.powi(2),
-                            Combination::WideLane => *f_1 - freq,
-                            Combination::NarrowLane => *f_1 + freq,
-                            Combination::MelbourneWubbena => {
-                                unreachable!("mw combination");
-                            },
-                        };
-
-                        let (v_lhs, v_rhs) = match combination {
-                            Combination::GeometryFree => {
-                                if v.observable.is_phase_range_observable() {
-                                    (*ref_value * w_1, v.value * lambda)
-                                } else {
-                                    (v.value, *ref_value)
-                                }
-                            },
-                            _ => {
-                                if v.observable.is_phase_range_observable() {
-                                    (*ref_value * w_1, v.value * lambda)
-                                } else {
-                                    (*ref_value, v.value)
-                                }
-                            },
-                        };
-
-                        let combination = CombinationKey {
-                            epoch: k.epoch,
-                            flag: k.flag,
-                            sv: v.sv,
-                            lhs: v.observable.clone(),
-                            reference: reference.clone(),
-                        };
-
-                        ret.insert(combination, (alpha * v_lhs + beta * v_rhs) / gamma);
                     }
                 }
             }
@@ -416,98 +415,72 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
+        for (k, observations) in self.observations_iter() {
+            // stores all encountered pseudo range
+            let mut rho = HashMap::<(SV, Observable), f64>::new();
+            // stores all encountered phase range
+            let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
 
-        let mut t = Epoch::default();
+            for v in observations.signals.iter() {
+                let is_ph = v.observable.is_phase_range_observable();
+                let is_pr = v.observable.is_pseudo_range_observable();
+                let carrier = v.observable.carrier(v.sv.constellation);
 
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
+                if !is_ph && !is_pr || carrier.is_err() {
+                    continue;
+                }
 
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
+                let carrier = carrier.unwrap();
+                let freq = carrier.frequency().powi(2);
+                let lambda = carrier.wavelength();
 
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
+                // store value
+                if is_pr {
+                    rho.insert((v.sv, v.observable.clone()), v.value);
+                } else {
+                    phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
+                }
             }
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+            for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
+                let phi_code = phi_obs.code();
+                if phi_code.is_none() {
+                    continue;
+                }
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
-            }
+                let phi_code = phi_code.unwrap();
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
+                // locate associated pr
+                for ((rho_sv, rho_obs), rho) in rho.iter() {
+                    let rho_code = rho_obs.code();
+                    if rho_code.is_none() {
                         continue;
                     }
 
-                    let phi_code = phi_code.unwrap();
-
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
-
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
+                    let rho_code = rho_code.unwrap();
+
+                    // same modulation / signal as reference phase
+                    if rho_code == phi_code && rho_sv == phi_sv {
+                        // now compute for any different l_j phase
+                        for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
+                            if phi_sv_j == phi_sv {
+                                if phi_obs_j != phi_obs && freq_j != freq {
+                                    let key = MultipathKey {
+                                        epoch: k.epoch,
+                                        sv: *phi_sv,
+                                        signal: phi_obs.clone(),
+                                        rhs: phi_obs_j.clone(),
+                                    };
+                                    let value = rho
+                                        - phi_value
+                                        - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
+                                    ret.insert(key, value);
                                 }
                             }
                         }
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
             }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
-            }
-
-            t = k.epoch;
         }
         ret
     }
-- 
2.43.0

