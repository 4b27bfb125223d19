From 8a1dc406e6fbd56afe86d88da2e2f23efd2e51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/29] fix: return an error for an alarm without ACTION
 instead of panicking

---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..833d215 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .find(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From d980939a1714be67a861701ff46e4c75d0dfd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/29] fix: parse Audio, Display and Email alarms instead of
 panicking

---
 src/parser/components.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..43e0012 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -31,17 +31,24 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+macro_rules! alarm {
+    ($name:ident, $variant:ident) => {
+        pub(crate) fn $name(input: &str) -> super::NomResult<&str, crate::valarm::$variant> {
+            map_res(valarm, |alarm| match alarm {
+                crate::VAlarm::$variant(alarm) => Ok(alarm),
+                _ => Err(crate::Error::Alarm(format!(
+                    "expected {}",
+                    stringify!($name).to_uppercase()
+                ))),
+            })
+            .parse(input)
+        }
+    };
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+alarm!(audio, Audio);
+alarm!(display, Display);
+alarm!(email, Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From 48848a0c7058c2e7dbcf1af3ab6db85dce067634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/29] fix: return an error for a period without a slash
 instead of panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..2d8f6e4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From e3995d59bf25a8c5fcce57508b0ebaddba2f5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 04/29] fix: return an error for a recurrence rule without FREQ
 instead of panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..e4bde49 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Freq("missing".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From bda7a4c316886a630d347a9b9a05ad90f32b88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 05/29] fix: reject malformed or out-of-range durations instead
 of panicking or dropping parts

---
 src/parser/datatype.rs | 63 +++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2d8f6e4..edd84ef 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -3,8 +3,9 @@
  */
 
 use nom::Parser as _;
+use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{all_consuming, map, map_opt, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -87,20 +88,24 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
     }
 
     fn time(input: &str) -> super::NomResult<&str, (i64, i64, i64)> {
-        let (input, (h, i, s)) = context(
+        context(
             "time",
-            preceded(tag("T"), (opt(hour), opt(minute), opt(seconde))),
-        )
-        .parse(input)?;
-
-        Ok((
-            input,
-            (
-                h.unwrap_or_default(),
-                i.unwrap_or_default(),
-                s.unwrap_or_default(),
+            map_opt(
+                preceded(tag("T"), (opt(hour), opt(minute), opt(seconde))),
+                |(h, i, s)| {
+                    if h.is_none() && i.is_none() && s.is_none() {
+                        return None;
+                    }
+
+                    Some((
+                        h.unwrap_or_default(),
+                        i.unwrap_or_default(),
+                        s.unwrap_or_default(),
+                    ))
+                },
             ),
-        ))
+        )
+        .parse(input)
     }
 
     fn hour(input: &str) -> super::NomResult<&str, i64> {
@@ -129,23 +134,31 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
-            pair(
-                opt(tag("-")),
+        map_opt(
+            all_consuming(pair(
+                opt(alt((tag("-"), tag("+")))),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
-            ),
-            |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
+            )),
+            |(sign, (w, d, t))| {
+                if w.is_none() && d.is_none() && t.is_none() {
+                    return None;
+                }
+
+                let mut duration = chrono::Duration::try_weeks(w.unwrap_or_default())?
+                    .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?;
 
                 if let Some((h, i, s)) = t {
                     duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
+                        .checked_add(&chrono::Duration::try_hours(h)?)?
+                        .checked_add(&chrono::Duration::try_minutes(i)?)?
+                        .checked_add(&chrono::Duration::try_seconds(s)?)?;
                 }
 
-                if neg.is_some() { -duration } else { duration }
+                if sign == Some("-") {
+                    Some(-duration)
+                } else {
+                    Some(duration)
+                }
             },
         ),
     )
@@ -162,7 +175,7 @@ pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
 
     let start = date_time(start)?.1;
 
-    let period = if end.starts_with('P') {
+    let period = if end.starts_with(['P', '+']) {
         crate::Period::StartDur(crate::period::StartDur {
             start,
             duration: super::duration(end.into())?,
-- 
2.43.0


From 83e0aaa606f3dfbc185fecd29132a7dfd1655a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/29] fix: compute composite durations exactly and reject
 malformed ones in parse_duration

---
 src/lib.rs | 57 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..47b3a30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -124,53 +124,56 @@ macro_rules! valarm {
 
 #[doc(hidden)]
 pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
+    let invalid = || crate::Error::ParseDuration(format!("Invalid duration: {value}"));
+
     let mut duration = chrono::TimeDelta::default();
     let mut it = value.chars().peekable();
 
     let mut negative = false;
     let mut time = false;
     let mut interval = String::new();
+    let mut empty = true;
 
-    if it.next_if(|x| *x == '-').is_some() {
-        negative = true;
+    if let Some(sign) = it.next_if(|x| ['-', '+'].contains(x)) {
+        negative = sign == '-';
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
-        return Err(crate::Error::ParseDuration(format!(
-            "Invalid duration: {value}"
-        )));
+        return Err(invalid());
     };
 
-    loop {
-        if it.next_if(|x| *x == 'T').is_some() {
-            time = true;
+    while let Some(x) = it.next() {
+        if x.is_ascii_digit() {
+            interval.push(x);
             continue;
         }
 
-        if let Some(x) = it.next_if(|x| x.is_ascii_digit()) {
-            interval.push(x);
+        if x == 'T' && interval.is_empty() && !time {
+            time = true;
             continue;
-        };
+        }
 
-        let Some(ty) = it.next() else {
-            break;
+        let n = std::mem::take(&mut interval).parse::<i64>()?;
+
+        let part = match (time, x) {
+            (false, 'Y') => n.checked_mul(365).and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => n.checked_mul(30).and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(n),
+            (false, 'D') => chrono::TimeDelta::try_days(n),
+            (true, 'H') => chrono::TimeDelta::try_hours(n),
+            (true, 'M') => chrono::TimeDelta::try_minutes(n),
+            (true, 'S') => chrono::TimeDelta::try_seconds(n),
+            _ => None,
         };
 
-        let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
-            _ => {
-                return Err(crate::Error::ParseDuration(format!(
-                    "Invalid duration: {interval}"
-                )));
-            }
-        };
+        duration = part
+            .and_then(|x| duration.checked_add(&x))
+            .ok_or_else(invalid)?;
+        empty = false;
+    }
 
-        duration += part;
+    if empty || !interval.is_empty() {
+        return Err(invalid());
     }
 
     if negative {
-- 
2.43.0


From 512d47d0983820cf108efe924076a2b4bf57abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 07/29] fix: return an error for a local time that does not
 exist instead of panicking

---
 src/properties/date.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..c7a6f60 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,7 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            Self::Naive(naive).try_into().map(Self::Local)
         }
     }
 }
-- 
2.43.0


From 462498d04f3b3f3955f0db0e396ea2aad7e729a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 08/29] fix: reject dates and date-times which do not have the
 exact iCalendar form

---
 src/parser/datatype.rs | 53 +++++++++++++++++++++++++++++++-----------
 src/properties/date.rs | 13 +++++------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index edd84ef..b7d385b 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -20,7 +20,7 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
-    let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
+    let date = naive_date(input).map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
             nom::error::ErrorKind::Fail,
@@ -31,22 +31,49 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
     Ok(("", date))
 }
 
+/**
+ * `chrono` skips spaces, and accepts signs and missing digits.
+ */
+fn has_shape(input: &str, shape: &str) -> bool {
+    input.len() == shape.len()
+        && input.bytes().zip(shape.bytes()).all(|(c, expected)| {
+            if expected == b'0' {
+                c.is_ascii_digit()
+            } else {
+                c == expected
+            }
+        })
+}
+
+pub(crate) fn naive_date(input: &str) -> crate::Result<chrono::NaiveDate> {
+    if !has_shape(input, "00000000") {
+        return Err(crate::Error::Parser(format!("Invalid date: {input}")));
+    }
+
+    chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(crate::Error::from)
+}
+
+pub(crate) fn naive_date_time(input: &str) -> crate::Result<chrono::NaiveDateTime> {
+    if !has_shape(input, "00000000T000000") {
+        return Err(crate::Error::Parser(format!("Invalid date-time: {input}")));
+    }
+
+    chrono::NaiveDateTime::parse_from_str(input, "%Y%m%dT%H%M%S").map_err(crate::Error::from)
+}
+
 /**
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
-
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        })?;
-
-    if date.ends_with('Z') {
+    let dt = naive_date_time(input.strip_suffix('Z').unwrap_or(input)).map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
+
+    if input.ends_with('Z') {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
diff --git a/src/properties/date.rs b/src/properties/date.rs
index c7a6f60..35da39e 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -111,12 +111,11 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
-            Ok(Self::Naive(naive))
-        } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
-
-            Self::Naive(naive).try_into().map(Self::Local)
+        match s.strip_suffix('Z') {
+            Some(s) => Self::Naive(crate::parser::datatype::naive_date_time(s)?)
+                .try_into()
+                .map(Self::Local),
+            None => crate::parser::datatype::naive_date_time(s).map(Self::Naive),
         }
     }
 }
@@ -188,7 +187,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok(date) = crate::parser::datatype::naive_date(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From f080aa9421923317b55f0b6d284cde22f8bf94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 09/29] fix: reject malformed positions and keep escaped
 semicolons in request status

---
 src/parser/descriptive.rs | 13 +++++++++----
 src/parser/misc.rs        | 10 ++++++----
 src/parser/mod.rs         | 10 ++++++++++
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..a494c1d 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,18 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map, verify};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    fn coord(input: &str) -> super::NomResult<&str, f32> {
+        verify(float, |x: &f32| x.is_finite()).parse(input)
+    }
+
+    map(
+        all_consuming(separated_pair(coord, char(';'), coord)),
+        |(lat, lon)| crate::Geo { lat, lon },
+    )
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..ea3b519 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,15 +7,17 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
-    use nom::combinator::{map, opt};
+    use nom::combinator::{map, opt, verify};
     use nom::error::context;
     use nom::number::complete::float;
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let end = super::find_unescaped(input, ';').unwrap_or(input.len());
+
+        Ok((&input[end..], &input[..end]))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
@@ -26,7 +28,7 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
         "rstatus",
         map(
             (
-                float,
+                verify(float, |x: &f32| x.is_finite()),
                 char(';'),
                 map(text, String::from),
                 opt(preceded(char(';'), map(end, String::from))),
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..d8632d3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -53,6 +53,16 @@ fn is_line_ending(chr: char) -> bool {
     chr == '\n' || chr == '\r'
 }
 
+fn find_unescaped(input: &str, chr: char) -> Option<usize> {
+    let mut escaped = false;
+
+    input.find(|c| {
+        let found = c == chr && !escaped;
+        escaped = c == '\\' && !escaped;
+        found
+    })
+}
+
 fn digits(input: &str) -> NomResult<&str, &str> {
     context("digits", take_while(is_digit)).parse(input)
 }
-- 
2.43.0


From 8dadf3314fff0d4d3c9db54160d2e3aa913aa5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 10/29] fix: do not split categories and resources at escaped
 commas

---
 src/parser/descriptive.rs |  8 ++++++--
 src/parser/mod.rs         | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index a494c1d..60c03c9 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,9 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split_unescaped(&input.value, ',')
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
@@ -91,7 +93,9 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::split_unescaped(&input.value, ',')
+        .map(crate::Text::from)
+        .collect())
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d8632d3..27c1f12 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -63,6 +63,22 @@ fn find_unescaped(input: &str, chr: char) -> Option<usize> {
     })
 }
 
+fn split_unescaped(input: &str, chr: char) -> impl Iterator<Item = &str> {
+    let mut rest = Some(input);
+
+    std::iter::from_fn(move || {
+        let current = rest?;
+
+        match find_unescaped(current, chr) {
+            Some(pos) => {
+                rest = Some(&current[pos + chr.len_utf8()..]);
+                Some(&current[..pos])
+            }
+            None => rest.take(),
+        }
+    })
+}
+
 fn digits(input: &str) -> NomResult<&str, &str> {
     context("digits", take_while(is_digit)).parse(input)
 }
-- 
2.43.0


From e16fc3ff4187777102e55a87bf7c0f68d724bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 11/29] fix: reject trailing garbage after a recurrence rule or
 a weekday

---
 src/parser/recurrence.rs | 4 ++--
 src/properties/recur.rs  | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index e4bde49..1205dec 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..edd359f 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -1,4 +1,5 @@
 use chrono::Datelike as _;
+use nom::Parser as _;
 
 /**
  * See [3.3.10. Recurrence Rule](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.5.3)
@@ -227,7 +228,8 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -276,7 +278,8 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 65619bdd9e86281ff4f97ff2537a3c34220b199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 12/29] fix: do not let an unbalanced quote or parameter absorb
 the following lines

---
 src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 27c1f12..41ac11e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -90,7 +90,10 @@ fn key(input: &str) -> NomResult<&str, &str> {
 fn attr(input: &str) -> NomResult<&str, &str> {
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        preceded(
+            opt(tag("\r\n ")),
+            take_till(|c| c == ';' || c == ':' || quote(c) || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
@@ -106,7 +109,11 @@ fn quote(chr: char) -> bool {
 fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
     context(
         "quoted_param",
-        separated_pair(key, tag("=\""), take_till(quote)),
+        separated_pair(
+            key,
+            tag("=\""),
+            take_till(|c| quote(c) || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
-- 
2.43.0


From b9b8fd0a7dd3e4ed249bfa709c06d996edf39940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 13/29] fix: unfold lines continued with a tab

---
 derive/src/component.rs  | 2 +-
 src/components/valarm.rs | 2 +-
 src/parser/mod.rs        | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..a310083 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -148,7 +148,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&crate::parser::unfold(s))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 833d215..536e35f 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&crate::parser::unfold(s))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 41ac11e..d61f7c8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -33,6 +33,10 @@ use std::collections::BTreeMap;
 
 pub(crate) type NomResult<I, O> = nom::IResult<I, O, nom_language::error::VerboseError<I>>;
 
+pub(crate) fn unfold(input: &str) -> String {
+    input.replace("\r\n ", "").replace("\r\n\t", "")
+}
+
 fn is_alphabetic(chr: char) -> bool {
     nom::AsChar::is_alpha(chr)
 }
-- 
2.43.0


From 00c2bf2353d8772b101718e1e9d62ddec6807d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 14/29] fix: fold long lines between characters and without
 splitting the line break

---
 src/ser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..b9e4c17 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,9 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            s = split(&s, 75).join("\r\n ");
+            s.push_str("\r\n");
         }
     }
 
@@ -155,14 +152,15 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
 }
 
 fn split(s: &str, sub_size: usize) -> Vec<&str> {
-    let mut v = Vec::with_capacity(s.len() / sub_size);
+    let mut v = Vec::with_capacity(s.len() / sub_size + 1);
     let mut cur = s;
 
-    while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+    while cur.len() > sub_size {
+        let (chunk, rest) = cur.split_at(cur.floor_char_boundary(sub_size));
         v.push(chunk);
         cur = rest;
     }
+    v.push(cur);
 
     v
 }
-- 
2.43.0


From 6584a1c086f6b649ddc5539b72e6a1255ef5572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 15/29] fix: do not escape texts twice and escape every kind of
 line break

---
 src/ser.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index b9e4c17..6189f8c 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -119,10 +119,38 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+/**
+ * Parsed texts keep their escaped form, so what is already escaped is left as is.
+ */
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    let mut escaped = String::with_capacity(s.len());
+    let mut chars = s.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                escaped.push('\\');
+
+                match chars.peek() {
+                    Some('\\' | ';' | ',') => escaped.extend(chars.next()),
+                    Some('\r' | '\n') | None => escaped.push('\\'),
+                    _ => (),
+                }
+            }
+            ';' | ',' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            '\r' => {
+                chars.next_if_eq(&'\n');
+                escaped.push_str("\\n");
+            }
+            '\n' => escaped.push_str("\\n"),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From e08e7a05026804529a9578a305f7e2c2e94113a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 16/29] fix: quote parameter values instead of escaping them

---
 src/content_line.rs    |  6 +-----
 src/properties/text.rs |  6 +-----
 src/properties/uri.rs  |  6 +-----
 src/ser.rs             | 25 +++++++++++++++++++++++++
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..a2ef32c 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -59,10 +59,6 @@ impl crate::ser::Serialize for ContentLine {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
diff --git a/src/properties/text.rs b/src/properties/text.rs
index b7ffc39..bd074fd 100644
--- a/src/properties/text.rs
+++ b/src/properties/text.rs
@@ -62,11 +62,7 @@ impl crate::ser::Serialize for Text {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
 
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..a75f6e9 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -56,11 +56,7 @@ impl crate::ser::Serialize for Uri {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
 
diff --git a/src/ser.rs b/src/ser.rs
index 6189f8c..727de79 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -153,6 +153,31 @@ pub(crate) fn escape(s: &str) -> String {
     escaped
 }
 
+pub(crate) fn single_line(s: &str) -> String {
+    s.replace("\r\n", "\\n").replace(['\r', '\n'], "\\n")
+}
+
+pub(crate) fn params(params: &std::collections::BTreeMap<String, String>) -> Option<String> {
+    if params.is_empty() {
+        return None;
+    }
+
+    let params = params
+        .iter()
+        .map(|(k, v)| {
+            let v = single_line(v).replace('"', "'");
+
+            if v.contains([':', ';', ',']) {
+                format!("{k}=\"{v}\"")
+            } else {
+                format!("{k}={v}")
+            }
+        })
+        .collect::<Vec<_>>();
+
+    Some(params.join(";"))
+}
+
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
     let mut s = String::new();
 
-- 
2.43.0


From 75c3cc98fa5507ea423882035bb906a0d013f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 17/29] fix: do not escape URIs and unknown properties as texts

---
 src/content_line.rs   | 2 +-
 src/properties/uri.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index a2ef32c..249d0f9 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::single_line(&self.value))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index a75f6e9..acc0348 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::single_line(&self.uri))
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From 1d7e8498b2b03843c5310c5c423bff96608b1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 18/29] fix: escape custom classifications

---
 src/properties/class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..3ecbd60 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,11 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        Ok(crate::ser::escape(&self.to_string()))
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 9cd1d4172ea5c1db3783cb47dd290fe6e7879d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 19/29] fix: write request status codes without rounding them

---
 src/properties/request_status.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..851e4de 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -34,11 +34,7 @@ impl std::str::FromStr for RequestStatus {
 
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
-        let mut s = format!(
-            "{:.1};{}",
-            self.statcode,
-            crate::ser::escape(&self.statdesc)
-        );
+        let mut s = format!("{:?};{}", self.statcode, crate::ser::escape(&self.statdesc));
 
         if let Some(extdata) = &self.extdata {
             s.push(';');
-- 
2.43.0


From 049ef07376666c6b15386a71651e5a963c3e1fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 20/29] fix: serialise each value, unknown property and
 sub-component of a component once

---
 derive/src/component.rs | 41 ++++++++++++++++++++++++++++-------------
 derive/src/lib.rs       |  4 ++++
 src/ser.rs              | 20 +++++++++-----------
 3 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index a310083..e2a07d6 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -29,6 +29,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut nested_body = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -42,26 +43,39 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .to_uppercase()
             .replace('_', "-");
 
-        let ser_part = if crate::is_vec(ty) {
-            quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
+        if crate::is_vec(ty) && field_params.ignore {
+            nested_body.push(quote::quote! {
+                for v in &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
                 }
-                else if self.#name.attr().is_none() {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name)?);
-                } else {
+            });
+        } else if crate::is_vec(ty) && field_params.append {
+            ser_body.push(quote::quote! {
+                if self.#name.iter().any(|v| v.attr().is_some()) {
                     for v in &self.#name {
                         s.push_str(&crate::ser::field(#field_name, v)?);
                     }
+                } else if !self.#name.is_empty() {
+                    s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 }
-            }
+            });
+        } else if crate::is_vec(ty) || crate::is_option(ty) {
+            ser_body.push(quote::quote! {
+                for v in &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
+                }
+            });
+        } else if crate::is_map(ty) {
+            ser_body.push(quote::quote! {
+                for (k, v) in &self.#name {
+                    s.push_str(&crate::ser::field(k, v)?);
+                }
+            });
         } else {
-            quote::quote! {
+            ser_body.push(quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
-            }
-        };
-
-        ser_body.push(ser_part);
+            });
+        }
 
         if field_params.ignore {
             continue;
@@ -168,6 +182,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#nested_body)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 4732cea..d31ca7f 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -52,6 +52,10 @@ fn is_vec(ty: &syn::Type) -> bool {
     tyname(ty) == "Vec"
 }
 
+fn is_map(ty: &syn::Type) -> bool {
+    tyname(ty).ends_with("BTreeMap")
+}
+
 fn tyname(ty: &syn::Type) -> String {
     let syn::Type::Path(typepath) = ty else {
         return String::new();
diff --git a/src/ser.rs b/src/ser.rs
index 727de79..240256a 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -186,19 +186,17 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
-            s.push_str(name);
+        s.push_str(name);
 
-            if let Some(attr) = value.attr() {
-                s.push(';');
-                s.push_str(&attr);
-            }
-            s.push(':');
-            s.push_str(&ical);
-
-            s = split(&s, 75).join("\r\n ");
-            s.push_str("\r\n");
+        if let Some(attr) = value.attr() {
+            s.push(';');
+            s.push_str(&attr);
         }
+        s.push(':');
+        s.push_str(&ical);
+
+        s = split(&s, 75).join("\r\n ");
+        s.push_str("\r\n");
     }
 
     Ok(s)
-- 
2.43.0


From 9b0f5c0baa5ab8857e9c2be67361a3ebf80b4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 21/29] fix: serialise alarms as VALARM components

---
 derive/src/component.rs  | 14 +++++++++++---
 src/components/valarm.rs | 19 +++++++++----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index e2a07d6..4c9a8a2 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -1,6 +1,12 @@
-use darling::FromField;
+use darling::{FromDeriveInput, FromField};
 use quote::ToTokens as _;
 
+#[derive(Clone, Default, Debug, FromDeriveInput)]
+#[darling(attributes(component))]
+pub(crate) struct Component {
+    pub name: Option<String>,
+}
+
 #[derive(Clone, Default, Debug, FromField)]
 #[darling(attributes(component))]
 pub(crate) struct Field {
@@ -22,7 +28,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     };
 
     let name = &ast.ident;
-    let name_str = name.to_token_stream().to_string();
+    let name_str = Component::from_derive_input(ast)?
+        .name
+        .unwrap_or_else(|| name.to_token_stream().to_string().to_uppercase());
     let parser = quote::format_ident!("{}", name.to_string().to_lowercase());
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
@@ -171,7 +179,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         #[automatically_derived]
         impl #impl_generics crate::ser::Serialize for #name #ty_generics #where_clause {
             fn component() -> Option<String> {
-                #name_str.to_uppercase().into()
+                Some(#name_str.to_string())
             }
 
             fn ical(&self) -> crate::Result<::std::string::String> {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 536e35f..33a4b2d 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,24 +56,21 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
-        let s = match self {
+        match self {
             Self::Audio(audio) => audio.ical(),
             Self::Display(display) => display.ical(),
             Self::Email(email) => email.ical(),
-        }?;
-
-        let mut lines = s.split("\n").collect::<Vec<_>>();
-        lines[0] = "BEGIN:VALARM\r";
-        lines.pop();
-        lines.pop();
-        lines.push("END:VALARM\r\n");
-
-        Ok(lines.join("\n"))
+        }
     }
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Audio {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -102,6 +99,7 @@ impl From<Audio> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Display {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -130,6 +128,7 @@ impl From<Display> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Email {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
-- 
2.43.0


From ecf5038b32445eeada108e5202374d0d3b5c4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 22/29] fix: choose the kind of an alarm by the same ACTION as
 its action field

---
 src/components/valarm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 33a4b2d..05339b7 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -14,7 +14,7 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
         let action = properties
             .iter()
-            .find(|x| x.key == "ACTION")
+            .rfind(|x| x.key == "ACTION")
             .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
-- 
2.43.0


From f8241a1ef20dba0e94885ecbd3fa712ff72d11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 23/29] fix: serialise recurrence dates with their value type
 as a parameter

---
 src/properties/rdate.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..299d696 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -41,7 +41,22 @@ impl std::fmt::Display for RDate {
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            RDate::Date(date) if date.iter().any(crate::Date::has_time) => None,
+            RDate::Date(_) => Some("VALUE=DATE".to_string()),
+            RDate::Period(_) => Some("VALUE=PERIOD".to_string()),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        match self {
+            RDate::Date(date) => date.ical(),
+            RDate::Period(period) => period.ical(),
+        }
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 32c7099b40769ba645f6cb7ffae9b27cb3c3633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 24/29] fix: compare and subtract absolute times by instant

---
 src/properties/date.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index 35da39e..bdb11e0 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -86,7 +86,10 @@ impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        self.naive().sub(rhs.naive())
+        match (self, rhs) {
+            (Self::Local(a), Self::Local(b)) => a - b,
+            _ => self.naive().sub(rhs.naive()),
+        }
     }
 }
 
@@ -128,7 +131,10 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        match (self, other) {
+            (Self::Local(a), Self::Local(b)) => a.cmp(b),
+            _ => self.naive().cmp(&other.naive()),
+        }
     }
 }
 
-- 
2.43.0


From bcfeca9cded08a04187a6a28680bbc9c4b6d2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 25/29] fix: add recurrence rules without clamping, drifting or
 panicking on missing days

---
 src/properties/recur.rs | 123 +++++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 39 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index edd359f..5a61366 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -55,37 +55,102 @@ impl std::str::FromStr for Recur {
     }
 }
 
-impl std::ops::Add<crate::Date> for crate::Recur {
-    type Output = crate::Date;
-
-    fn add(self, rhs: crate::Date) -> Self::Output {
+impl Recur {
+    /**
+     * Next date of the rule, `None` when it is out of the range of the calendar.
+     */
+    pub(crate) fn checked_add(&self, rhs: crate::Date) -> Option<crate::Date> {
         match rhs {
             crate::Date::Date(date) => {
                 if self.freq >= Freq::Daily {
-                    crate::Date::Date(self + date)
+                    self.checked_add_date(date).map(crate::Date::Date)
                 } else {
-                    crate::DateTime::Naive(self + date.and_hms_opt(0, 0, 0).unwrap()).into()
+                    self.checked_add_naive(date.and_time(chrono::NaiveTime::MIN))
+                        .map(crate::Date::from)
                 }
             }
-            crate::Date::DateTime(dt) => (self + dt).into(),
+            crate::Date::DateTime(crate::DateTime::Naive(naive)) => {
+                self.checked_add_naive(naive).map(crate::Date::from)
+            }
+            crate::Date::DateTime(crate::DateTime::Local(local)) => {
+                self.checked_add_local(local).map(crate::Date::from)
+            }
+        }
+    }
+
+    fn delta(&self) -> chrono::TimeDelta {
+        let interval = i64::from(self.interval.max(1));
+
+        match self.freq {
+            Freq::Secondly => chrono::TimeDelta::seconds(interval),
+            Freq::Minutely => chrono::TimeDelta::minutes(interval),
+            Freq::Hourly => chrono::TimeDelta::hours(interval),
+            Freq::Daily => chrono::TimeDelta::days(interval),
+            Freq::Weekly => chrono::TimeDelta::weeks(interval),
+            Freq::Monthly | Freq::Yearly => chrono::TimeDelta::zero(),
+        }
+    }
+
+    fn months(&self) -> u32 {
+        let interval = u32::from(self.interval.max(1));
+
+        match self.freq {
+            Freq::Monthly => interval,
+            Freq::Yearly => interval * 12,
+            _ => 0,
+        }
+    }
+
+    fn checked_add_date(&self, date: chrono::NaiveDate) -> Option<chrono::NaiveDate> {
+        let months = self.months();
+
+        if months == 0 {
+            return date.checked_add_signed(self.delta());
+        }
+
+        (1..)
+            .map_while(|n| date.checked_add_months(chrono::Months::new(n * months)))
+            .find(|next| next.day() == date.day())
+    }
+
+    fn checked_add_naive(&self, naive: chrono::NaiveDateTime) -> Option<chrono::NaiveDateTime> {
+        if self.months() == 0 {
+            naive.checked_add_signed(self.delta())
+        } else {
+            Some(self.checked_add_date(naive.date())?.and_time(naive.time()))
         }
     }
+
+    fn checked_add_local(
+        &self,
+        local: chrono::DateTime<chrono::Local>,
+    ) -> Option<chrono::DateTime<chrono::Local>> {
+        use chrono::TimeZone as _;
+
+        let naive = self.checked_add_naive(local.naive_utc())?;
+        naive.checked_add_days(chrono::Days::new(1))?;
+
+        Some(chrono::Local.from_utc_datetime(&naive))
+    }
+}
+
+impl std::ops::Add<crate::Date> for crate::Recur {
+    type Output = crate::Date;
+
+    fn add(self, rhs: crate::Date) -> Self::Output {
+        self.checked_add(rhs).expect("date out of range")
+    }
 }
+
 impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
     type Output = chrono::NaiveDate;
 
     fn add(self, rhs: chrono::NaiveDate) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => return rhs,
-            Freq::Minutely => return rhs,
-            Freq::Hourly => return rhs,
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
+        if self.freq < Freq::Daily {
+            return rhs;
+        }
 
-        rhs + interval
+        self.checked_add_date(rhs).expect("date out of range")
     }
 }
 
@@ -104,17 +169,7 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
     type Output = chrono::DateTime<chrono::Local>;
 
     fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.checked_add_local(rhs).expect("date out of range")
     }
 }
 
@@ -122,17 +177,7 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
     type Output = chrono::NaiveDateTime;
 
     fn add(self, rhs: chrono::NaiveDateTime) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.checked_add_naive(rhs).expect("date out of range")
     }
 }
 
-- 
2.43.0


From 5d7f4fb5d63edcda69b795bfdc11059d06b66854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 26/29] fix: apply UNTIL, COUNT and EXDATE exactly, move due
 dates and end at the calendar limit

---
 src/iter.rs | 99 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 29 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..517826d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -106,12 +106,14 @@ impl Recurring for crate::VTodo {
 }
 
 pub struct Recur<T: Recurring> {
-    item: T,
+    item: Option<T>,
 }
 
 impl<T: Recurring> Recur<T> {
     pub(crate) fn from(item: &T) -> Self {
-        Self { item: item.clone() }
+        Self {
+            item: Some(item.clone()),
+        }
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
@@ -133,46 +135,85 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.take()?;
+            let dtstart = *current.dtstart()?;
+            let rrule = current.rrule()?;
 
-            if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
-                    return None;
-                }
+            if rrule.count == Some(0) {
+                return None;
             }
 
-            let dtstart = rrule.clone() + *dtstart;
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                next.set_dtend(dtend);
+            if rrule.until.is_some_and(|until| is_after(dtstart, until)) {
+                return None;
             }
 
-            next.set_rrule(rrule.clone());
+            self.item = following(&current, dtstart, rrule);
 
-            if next.exdate().contains(&dtstart) {
-                continue;
+            if !current.exdate().contains(&dtstart) {
+                return Some(current);
             }
+        }
+    }
+}
 
-            if let Some(count) = rrule.count.as_mut() {
-                *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
-            }
+fn is_after(date: crate::Date, until: crate::Date) -> bool {
+    use crate::Date::DateTime as Dt;
+    use crate::DateTime::{Local, Naive};
 
-            break;
-        }
+    match (date, until) {
+        (Dt(Naive(date)), Dt(Naive(until))) => date > until,
+        (Dt(Local(date)), Dt(Local(until))) => date > until,
+        _ => date.date_naive() > until.date_naive(),
+    }
+}
+
+fn following<T: Recurring>(current: &T, dtstart: crate::Date, rrule: &crate::Recur) -> Option<T> {
+    let mut next = current.clone();
+    let next_dtstart = rrule.checked_add(dtstart)?;
 
-        self.item = next;
+    next.set_dtstart(next_dtstart);
 
-        Some(current)
+    if let Some(dtend) = current.dtend() {
+        next.set_dtend(shift(*dtend, dtstart, next_dtstart)?);
     }
+
+    if let Some(due) = current.due() {
+        next.set_due(shift(*due, dtstart, next_dtstart)?);
+    }
+
+    let mut rrule = rrule.clone();
+    rrule.count = rrule.count.map(|count| count.saturating_sub(1));
+    next.set_rrule(rrule);
+
+    Some(next)
+}
+
+/**
+ * Moves `date` as `from` moves to `to`.
+ */
+fn shift(date: crate::Date, from: crate::Date, to: crate::Date) -> Option<crate::Date> {
+    let delta = crate::DateTime::from(to) - crate::DateTime::from(from);
+
+    match date {
+        crate::Date::Date(date) if from.has_time() == to.has_time() && is_whole_days(delta) => {
+            date.checked_add_signed(delta).map(crate::Date::from)
+        }
+        crate::Date::DateTime(crate::DateTime::Local(date)) => {
+            let date = date.checked_add_signed(delta)?;
+            date.naive_utc().checked_add_days(chrono::Days::new(1))?;
+
+            Some(date.into())
+        }
+        date => crate::DateTime::from(date)
+            .naive()
+            .checked_add_signed(delta)
+            .map(crate::Date::from),
+    }
+}
+
+fn is_whole_days(delta: chrono::TimeDelta) -> bool {
+    delta == chrono::TimeDelta::days(delta.num_days())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 299bcb83d811dcbd9585daf0518041f42b61e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 27/29] fix: reject UTC offsets which do not have the exact
 iCalendar form

---
 src/parser/datatype.rs | 15 +++++++++++++++
 src/parser/timezone.rs |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index b7d385b..e1153ba 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -230,3 +230,18 @@ pub(crate) fn text(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn uri(input: &str) -> crate::Result<String> {
     Ok(input.to_string())
 }
+
+/**
+ * See [3.3.14. UTC Offset](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.14)
+ */
+pub(crate) fn utc_offset(input: &str) -> crate::Result<chrono::FixedOffset> {
+    let valid = ["+0000", "-0000", "+000000", "-000000"]
+        .iter()
+        .any(|shape| has_shape(input, shape));
+
+    if !valid {
+        return Err(crate::Error::Parser(format!("Invalid UTC offset: {input}")));
+    }
+
+    input.parse().map_err(crate::Error::from)
+}
diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 3a6ce6b..9b264ba 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -22,14 +22,14 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
 pub(crate) fn tzoffsetfrom(
     input: crate::ContentLine,
 ) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
  * See [3.8.3.4. Time Zone Offset To](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.4)
  */
 pub(crate) fn tzoffsetto(input: crate::ContentLine) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    super::datatype::utc_offset(&input.value)
 }
 
 /**
-- 
2.43.0


From 51f3144556e0f28d570069a7281bb74a9c57a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 28/29] fix: read every line of a required property, also those
 before the last

---
 derive/src/component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 4c9a8a2..7a4aa42 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -108,7 +108,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             };
 
             new_body.push(new_part);
-            quote::quote! { () }
+            quote::quote! { component.#name = #parser_fn }
         };
 
         let from_part = quote::quote! {
-- 
2.43.0


From 60f3c3c8e090f1eb46994366ec73995d7733cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:03 +0000
Subject: [PATCH 29/29] fix: order periods with a duration by their length

Like the other form of periods. Their start was moved back by the duration,
which is no order of anything and panics when that is out of range.
---
 src/properties/period.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..c70b9d5 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -109,10 +109,7 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
-
-        a.cmp(&b)
+        self.duration.cmp(&other.duration)
     }
 }
 
-- 
2.43.0

