From 9fb5e09a8bbe3deb887a760203936988fc22773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:14 +0000
Subject: [PATCH 1/8] fix: reject TLE checksum characters below '0' without
 overflowing

A checksum column holding a character that sorts before '0' (a blank, for
example) made the subtraction overflow, which panics in debug builds.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 0c659173dd044c8a9b9c7a6200c25de4c25b639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:14 +0000
Subject: [PATCH 2/8] fix: refuse OMM ephemeris types that do not fit in a u8

A JSON number above 255 was silently truncated (256 became 0), whereas the
same value as a string was an error.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..3cd0552 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From 2345160a305de24d571d1e975b67fedb63406042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:14 +0000
Subject: [PATCH 3/8] fix: report NaN minutes since epoch as an error

Converting NaN minutes to a datetime returned the epoch itself.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 3cd0552..0db3abc 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -915,7 +915,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..=i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0


From f4ed640cd83568bb27502504d9fed06a88ab32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:14 +0000
Subject: [PATCH 4/8] fix: compute AFSPC epochs of years before 1 without
 overflow

The year was cast to an unsigned integer, so that an epoch in year 0 or
earlier overflowed (a panic in debug builds, a wrong epoch otherwise).
---
 src/tle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 0db3abc..a128229 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -476,10 +476,9 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year() - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)) / 4
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From 28a4c430e6027d39f48708599adad73c35dcb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:26 +0000
Subject: [PATCH 5/8] fix: reject non-finite numbers in TLE and OMM fields

Texts such as "nan", "inf" or "1e999" were accepted as element values.
---
 src/tle.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index a128229..07b6784 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -133,10 +133,13 @@ impl FromU8 for u64 {
     }
 }
 impl FromU8 for f64 {
-    type Err = core::num::ParseFloatError;
+    type Err = ();
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
         // unsafe: parse calls dec2flt which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        match unsafe { core::str::from_utf8_unchecked(s) }.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(()),
+        }
     }
 }
 
@@ -443,9 +446,11 @@ where
         serde_json::value::Value::Number(number) => number
             .as_f64()
             .ok_or_else(|| serde::de::Error::custom("parsing the number as f64 failed")),
-        serde_json::value::Value::String(string) => {
-            string.parse().map_err(serde::de::Error::custom)
-        }
+        serde_json::value::Value::String(string) => match string.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            Ok(_) => Err(serde::de::Error::custom("expected a finite number")),
+            Err(error) => Err(serde::de::Error::custom(error)),
+        },
         _ => Err(serde::de::Error::custom("expected a f64 or string")),
     }
 }
-- 
2.43.0


From 1348c7dd37bb2d209100e1c3e2a301f6e138b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:41 +0000
Subject: [PATCH 6/8] fix: do not loop forever on non-finite times of resonant
 orbits

The resonance integrator never reached a NaN or infinite target time. The
propagation now ends in an eccentricity error, as it does for other orbits.
---
 src/deep_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..2cdb87d 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -103,6 +103,10 @@ impl ResonanceState {
         {
             panic!("the resonance integration state must be manually reset if the target times are non-monotonic");
         }
+        if !t.is_finite() {
+            // no number of steps reaches t
+            return (f64::NAN, f64::NAN);
+        }
         // θ = θ₀ + 4.37526908801129966 × 10⁻³ t rem 2π
         #[allow(clippy::excessive_precision)]
         let sidereal_time =
-- 
2.43.0


From da9083a8ad8d31b5a814adc28f8ab2b88715ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:01 +0000
Subject: [PATCH 7/8] fix: never return a prediction that is not made of finite
 numbers

The semi-major axis of a resonant orbit whose mean motion is driven below
zero is undefined, and the radius of an orbit with an eccentricity next to
one can round to zero. NaN passed the semi-latus rectum test in these cases
and a prediction made of NaNs was returned. Report them as an invalid
semi-latus rectum.
---
 src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..7a6843d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -777,7 +777,7 @@ impl Constants {
                 + right_ascension_k.sin() * uk.cos();
             // u₂ = sin Iₖ sin uₖ
             let u2 = inclination_k.sin() * uk.sin();
-            Ok(Prediction {
+            let prediction = Prediction {
                 position: [
                     // r₀ = rₖ u₀ aₑ
                     rk * u0 * self.geopotential.ae,
@@ -803,7 +803,19 @@ impl Constants {
                     (rk_dot * u2 + rfk_dot * (inclination_k.sin() * uk.cos()))
                         * (self.geopotential.ae * self.geopotential.ke / 60.0),
                 ],
-            })
+            };
+
+            // the semi-latus rectum vanishes or is undefined, or the elements overflow
+            if prediction
+                .position
+                .iter()
+                .chain(prediction.velocity.iter())
+                .all(|component| component.is_finite())
+            {
+                Ok(prediction)
+            } else {
+                Err(gp::Error::NegativeSemiLatusRectum { t: t.0 })
+            }
         }
     }
 
-- 
2.43.0


From dfee104aa678b248d45ceea1590514a84bfb282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:33 +0000
Subject: [PATCH 8/8] fix: refuse an exponent inside a TLE mantissa

The mantissa of the second derivative and of the drag term has an exponent
field of its own. A mantissa such as 1e301 was accepted and, multiplied by
the exponent field, yielded an infinite value.
---
 src/tle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 07b6784..0350293 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -170,7 +170,8 @@ impl DecimalPointAssumedRepresentation for [u8] {
         end: usize,
     ) -> core::result::Result<f64, Error> {
         let trimmed = self.trim_ascii_start_polyfill();
-        if trimmed.is_empty() {
+        // an exponent belongs in the field's own columns
+        if trimmed.is_empty() || trimmed.iter().any(|byte| matches!(byte, b'e' | b'E')) {
             return Err(Error {
                 what: ErrorWhat::ExpectedFloatWithAssumedDecimalPoint,
                 line,
-- 
2.43.0

