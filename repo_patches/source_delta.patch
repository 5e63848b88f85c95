From 06bf7b2dfcf67dfa9b419e2bd4c09369c01a4c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 01/33] fix: decode text escape sequences in a single pass

An escaped backslash followed by n, N, a comma or a semicolon was decoded
twice, so a text containing a literal backslash came back changed.
---
 src/parser/parsed_string.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..d493741 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -43,14 +43,24 @@ impl<'a> ParseString<'a> {
             || self.0.contains(r#"\N"#)
             || self.0.contains(r#"\n"#)
         {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
+            // every escape sequence has to be decoded exactly once, from left to right,
+            // otherwise an escaped backslash is mistaken for the beginning of the next sequence
+            let mut unescaped = String::with_capacity(self.0.len());
+            let mut chars = self.0.chars().peekable();
+            while let Some(c) = chars.next() {
+                match (c, chars.peek()) {
+                    ('\\', Some(&escaped @ ('\\' | ',' | ';' | ':'))) => {
+                        unescaped.push(escaped);
+                        chars.next();
+                    }
+                    ('\\', Some('N' | 'n')) => {
+                        unescaped.push('\n');
+                        chars.next();
+                    }
+                    _ => unescaped.push(c),
+                }
+            }
+            unescaped.into()
         } else {
             self
         }
-- 
2.43.0


From ad1546deff2f2392b3f6d64e9cec0cac3da01e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 02/33] fix: fold lines by octets, also before whitespace and
 in continuation lines

Mixing character indices with byte offsets never terminated (or panicked) on
lines with multi-byte characters and whitespace, and the last continuation
line could be 76 octets long.
---
 src/properties.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..91eba5b 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,11 +393,13 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    // a continuation line begins with a space, which leaves room for one octet less
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace = |line: &str, next_pos| {
-            line.chars()
-                .nth(next_pos)
+            line.get(next_pos..)
+                .and_then(|rest| rest.chars().next())
                 .map(char::is_whitespace)
                 .unwrap_or(false)
         };
@@ -407,16 +409,14 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
-                next_pos -= 1;
-            }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From b7f13b0ec49438bd7b4e4936f5850e04db59edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 03/33] fix: treat calendar names and venue addresses as text

They were written without escaping, so a name or an address with a line break
produced a document with broken content lines.
---
 src/value_types.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..2bebc35 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -95,6 +95,21 @@ impl ValueType {
             // "An IANA-registered property name" => Any parameter can be specified on this property.
             // "X-"/* ... */ => Some(Text),       // any type 3.8.8.2
             "REQUEST-STATUS" => Some(Text), // 3.8.8.3
+
+            // calendar properties which only have a textual form
+            "NAME" => Some(Text),          // RFC 7986 5.1
+            "X-WR-CALNAME" => Some(Text),  //
+            "X-WR-CALDESC" => Some(Text),  //
+            "TIMEZONE-ID" => Some(Text),   //
+            "X-WR-TIMEZONE" => Some(Text), //
+
+            // venue draft, https://tools.ietf.org/html/draft-norris-ical-venue-01
+            "STREET-ADDRESS" => Some(Text),
+            "EXTENDED-ADDRESS" => Some(Text),
+            "LOCALITY" => Some(Text),
+            "REGION" => Some(Text),
+            "COUNTRY" => Some(Text),
+            "POSTAL-CODE" => Some(Text),
             _ => None,
         }
     }
-- 
2.43.0


From 2354bd71089923595802dd473e037315f2f3f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 04/33] fix: end a property value at the first line ending of
 either kind

With mixed line endings a value swallowed the following lines up to the next
CRLF.
---
 src/parser/properties.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..f00e5cf 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::{tag, take, take_until, take_while},
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -366,6 +366,14 @@ fn determin_value_type(name: &ParseString, params: &[Parameter]) -> Option<Value
         .or_else(|| ValueType::by_name(name.as_str()))
 }
 
+/// Takes everything up to the next line ending, whichever kind (`"\n"` or `"\r\n"`) that is.
+fn take_until_line_ending<'a, E: ParseError<&'a str>>(
+    input: &'a str,
+) -> IResult<&'a str, &'a str, E> {
+    let (_, line) = take_until("\n")(input)?;
+    take(line.strip_suffix('\r').unwrap_or(line).chars().count())(input)
+}
+
 pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Property<'a>, E> {
@@ -388,8 +396,7 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                     context(
                         "property value",
                         alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
+                            take_until_line_ending,
                             // this is for single line prop parsing, just so I can leave off the '\n'
                             take_while(|_| true),
                         ))
-- 
2.43.0


From 697b36c20ee9e8671c2240c5c79a9ce2df949fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 05/33] fix: accept properties whose names merely begin with
 END or BEGIN

---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..c689937 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From 095b531778f57997d876e7d015a508ac4f72740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 06/33] fix: compare the whole name of an END line

A component X was also closed by the END line of any component whose name
merely begins with X, and the remainder became a property of the parent.
---
 src/parser/components.rs | 14 +++++++++++---
 src/parser/utils.rs      |  5 +++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..edea428 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    character::complete::satisfy,
+    combinator::{all_consuming, complete, cut, not},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +22,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{is_key_char, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +259,13 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                terminated(tag(name.as_str()), not(satisfy(is_key_char))),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index c689937..9219f7d 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -27,6 +27,11 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     }
 }
 
+/// Characters that may be part of the name of a component, a property or a parameter.
+pub fn is_key_char(c: char) -> bool {
+    c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
+}
+
 pub fn valid_key_sequence<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-- 
2.43.0


From 2f435491fc5acbde3c9435395ee5db57e5f665e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 07/33] fix: report unparsable input instead of dropping all
 components

Documents with several root components, truncated documents and documents
with an unreadable line were read successfully as an empty list.
---
 src/parser/components.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index edea428..fa27377 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,11 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::satisfy,
-    combinator::{all_consuming, complete, cut, not},
+    character::complete::{multispace0, satisfy},
+    combinator::{cut, eof, not, opt, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
-    sequence::terminated,
+    sequence::{preceded, terminated},
     Finish, IResult, Parser,
 };
 
@@ -249,9 +249,15 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
-    let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
-
-    let (input, (properties, components)) = many_till(
+    let (input, name) = line(
+        "BEGIN:",
+        verify(valid_key_sequence_cow, |name: &ParseString| {
+            !name.as_str().is_empty()
+        }),
+    )(input)?;
+
+    // from here on this is a component, there is no other way to read the input
+    let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
@@ -266,7 +272,7 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 terminated(tag(name.as_str()), not(satisfy(is_key_char))),
             )),
         ),
-    )
+    ))
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
         let mut components = Vec::new();
@@ -523,5 +529,12 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    terminated(
+        many0(component),
+        // nothing may be left over, except for a last `BEGIN:` without a name
+        cut(context(
+            "end of input",
+            preceded(opt(line("BEGIN:", eof)), preceded(multispace0, eof)),
+        )),
+    )(input)
 }
-- 
2.43.0


From 2644f32f069bd01802dd65b45978dadacc595530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 08/33] fix: reject components that are nested too deeply

The parser recurses, so a small document with many nested BEGIN lines
overflowed the stack and aborted the process.
---
 src/parser/components.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index fa27377..b7990db 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -246,8 +246,19 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
         .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
 }
 
+/// Components can contain components, deeper nesting than this is rejected
+/// because every level takes up space on the stack.
+const MAX_DEPTH: usize = 64;
+
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
+) -> IResult<&'a str, Component<'a>, E> {
+    component_at_depth(input, 1)
+}
+
+fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, Component<'a>, E> {
     let (input, name) = line(
         "BEGIN:",
@@ -256,12 +267,21 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
         }),
     )(input)?;
 
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(E::add_context(
+            input,
+            "components are nested too deeply",
+            E::from_error_kind(input, nom::error::ErrorKind::TooLarge),
+        )));
+    }
+
     // from here on this is a component, there is no other way to read the input
     let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
-                line_separated(component).map(ComponentChild::Component),
+                line_separated(|input| component_at_depth(input, depth + 1))
+                    .map(ComponentChild::Component),
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-- 
2.43.0


From 4b0e9570c753363b68e6cbddbc5b0b8696598797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 09/33] fix: read signed durations

Alarm triggers before the start or the end of an event could be written but
not read again.
---
 src/components/date_time.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..8716d7e 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,14 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    let (negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    iso8601::duration(unsigned)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From 3c8e1b197942615a723760e8f63b1efb8a31afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 10/33] fix: keep the time zone of absolute alarm triggers

---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From f47e2b6febb3630dda0f004a86bf7fa96669c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 11/33] fix: use the name LAST-MODIFIED that RFC 5545 specifies

---
 src/components.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..4477fda 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -287,12 +287,16 @@ pub trait Component {
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
     /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(
+            self.property_value("LAST-MODIFIED")
+                // that's what previous versions wrote
+                .or_else(|| self.property_value("LAST_MODIFIED"))?,
+        )
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From 4f9c15dc2b176c731e2828f04d487689b82a0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 12/33] fix: read the TIMEZONE-ID property that
 Calendar::timezone() writes

---
 src/calendar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e4160d2 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,10 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
+            .or_else(|| self.property_value("TIMEZONE_ID"))
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From 0264b50e2e517c363d34d4d10d7599a73309ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 13/33] fix: unfold a content line before reading it as a
 Property

---
 src/parser/properties.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index f00e5cf..6d72f33 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -8,7 +8,7 @@ use crate::{parser::utils::valid_key_sequence_cow, properties::fold_line, value_
 use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
-    utils::property_key,
+    utils::{property_key, unfold},
 };
 use nom::{
     branch::alt,
@@ -119,7 +119,7 @@ impl FromStr for crate::Property {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Property::try_from(s)?.into())
+        Ok(Property::try_from(unfold(s).as_str())?.into())
     }
 }
 
-- 
2.43.0


From 2b2def69c9a4572cb732298840290b2f2002ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 14/33] fix: read an empty quoted parameter value as empty

The quotes became part of the value.
---
 src/parser/parameters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..de378db 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
     combinator::{eof, opt},
     error::{convert_error, ContextError, ParseError, VerboseError},
@@ -143,7 +143,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             )))
             .map(remove_empty_string),
@@ -168,7 +168,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             ))
             .map(ParseString::from),
-- 
2.43.0


From 90117323ed0c2ef25126519b4286445d723951fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 15/33] fix: keep the calendar properties when converting
 parsed components

---
 src/parser/calendar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..d74a2e3 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,15 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let root = components.swap_remove(0);
+            return Calendar {
+                properties: root.properties,
+                components: root.components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 873f242662d4376f3091b3bf684504866a2811a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 16/33] fix: escape texts and quote parameters when writing
 parsed properties

Parsing unescapes and unquotes them, so a parsed calendar with a line break in
a description did not survive being written again.
---
 src/parser/properties.rs | 24 ++++++++++++++++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 6d72f33..b57cbf3 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -42,6 +42,10 @@ const MULTIS: [&str; 13] = [
     "X-PROP",
 ];
 
+/// Properties whose value consists of several texts.
+/// These are not parsed any further, so we can not tell separators from escaped characters.
+const STRUCTURED_TEXTS: [&str; 3] = ["CATEGORIES", "RESOURCES", "REQUEST-STATUS"];
+
 /// Zero-copy version of [`crate::properties::Property`]
 #[derive(PartialEq, Eq, Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
@@ -69,12 +73,28 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                let val = crate::Property::quote_if_contains_colon(val.as_str());
+                write!(line, ";{}={}", key.as_str(), val)?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            // commas and semicolons may separate the elements of the value here
+            Some(ValueType::Text) if STRUCTURED_TEXTS.contains(&self.name.as_str()) => {
+                let val = self.val.as_str();
+                write!(
+                    line,
+                    ":{}",
+                    val.replace('\\', r#"\\"#).replace('\n', r#"\N"#)
+                )?
+            }
+            Some(ValueType::Text) => {
+                let val = crate::Property::escape_text(self.val.as_str());
+                write!(line, ":{}", val)?
+            }
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 91eba5b..30be136 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From 3e5bcedf5c06ae0be04c1717d493a8a178c1e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 17/33] fix: treat RELATED-TO and REQUEST-STATUS as properties
 that may repeat

These are the names that RFC 5545 uses, all but the last were dropped.
---
 src/parser/properties.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index b57cbf3..8fb1f69 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -26,7 +26,7 @@ use nom::error::ErrorKind;
 /// [RFC-5545](https://datatracker.ietf.org/doc/html/rfc5545) states that the following
 /// "MAY occur more than once" in a VEVENT, VTODO, VJOURNAL, and VFREEBUSY.
 /// Note: A VJOURNAL can also contain multiple DECRIPTION but this is not covered here.
-const MULTIS: [&str; 13] = [
+const MULTIS: [&str; 15] = [
     "ATTACH",
     "ATTENDEE",
     "CATEGORIES",
@@ -37,6 +37,8 @@ const MULTIS: [&str; 13] = [
     "IANA-PROP",
     "RDATE",
     "RELATED",
+    "RELATED-TO",
+    "REQUEST-STATUS",
     "RESOURCES",
     "RSTATUS",
     "X-PROP",
-- 
2.43.0


From 9c8c5572d623063f9396b111e54e6ea4bedc22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 18/33] fix: keep all occurrences of a repeated property

Only the last one of several properties with the same name was kept, for
example of extension properties or recurrence rules.
---
 src/parser/components.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index b7990db..58b1897 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -136,22 +136,20 @@ impl From<Component<'_>> for Other {
 impl From<Component<'_>> for InnerComponent {
     fn from(component: Component) -> Self {
         let mut from_component = Self {
-            properties: component
-                .properties
-                .iter()
-                .filter(|p| !p.is_multi_property())
-                .map(|p| (p.name.clone().into_owned().into(), p.to_owned().into()))
-                .collect(),
+            properties: Default::default(),
             components: component.components.into_iter().map(Other::from).collect(),
             multi_properties: Default::default(),
         };
 
-        for p in component
-            .properties
-            .into_iter()
-            .filter(Property::is_multi_property)
-        {
-            from_component.insert_multi(p);
+        for p in component.properties {
+            // any property may be repeated by a producer, only the first one can be kept in `properties`
+            if p.is_multi_property() || from_component.properties.contains_key(p.name.as_str()) {
+                from_component.insert_multi(p);
+            } else {
+                from_component
+                    .properties
+                    .insert(p.name.clone().into_owned().into(), p.into());
+            }
         }
 
         from_component
-- 
2.43.0


From 124bf09a36f757cc7b98aaca7a787c3341831611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 19/33] fix: do not drop what follows the first calendar

reading a document with several calendars as a single one succeeded with all
but the first missing.
---
 src/parser/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5fc6598..2a5ecfc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -56,29 +56,32 @@ pub fn read_calendar_simple(input: &str) -> Result<Vec<Component<'_>>, nom::erro
 /// This version produces nice and readable errors with line numbers thanks the the awesomeness of [`nom`].
 /// Line numbers are in regard to the normalized/unfolded version of the input, so better keep those around for reference.
 ///
+/// The input must not contain anything besides a single `VCALENDAR`, use [`read_components()`] if it does.
 pub fn read_calendar(input: &str) -> Result<Calendar<'_>, String> {
     components(input)
         .finish()
-        .map(|(_, mut components)| {
+        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .and_then(|(_, mut components)| {
             let root_is_calendar = components
                 .first()
                 .map(|first_root| first_root.name == "VCALENDAR")
                 .unwrap_or(false);
 
-            if root_is_calendar {
+            if root_is_calendar && components.len() > 1 {
+                Err("error: the calendar is followed by other components".to_owned())
+            } else if root_is_calendar {
                 let root = components.swap_remove(0);
-                Calendar {
+                Ok(Calendar {
                     properties: root.properties,
                     components: root.components,
-                }
+                })
             } else {
-                Calendar {
+                Ok(Calendar {
                     components,
                     properties: Vec::new(),
-                }
+                })
             }
         })
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
 }
 
 #[test]
-- 
2.43.0


From 346283fe58142ecae7cccb521677e2f6bc56e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 20/33] fix: fold the lines that begin and end a component

---
 src/components.rs        | 12 ++++++++++--
 src/parser/components.rs |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 4477fda..3e3a158 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -92,7 +92,11 @@ pub trait Component {
 
     /// Writes [`Component`] using [`std::fmt`].
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("BEGIN:{}", self.component_kind()))
+        )?;
 
         if !self.properties().contains_key("DTSTAMP") {
             let now = Utc::now();
@@ -115,7 +119,11 @@ pub trait Component {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("END:{}", self.component_kind()))
+        )?;
         Ok(())
     }
 
diff --git a/src/parser/components.rs b/src/parser/components.rs
index 58b1897..728d603 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -32,6 +32,7 @@ use pretty_assertions::assert_eq;
 use crate::{
     calendar::CalendarComponent,
     components::{date_time::format_utc_date_time, InnerComponent, Other},
+    properties::fold_line,
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -69,7 +70,7 @@ pub(crate) trait LikeComponent<'a> {
 
     /// Writes `Component` into a `Writer` using `std::fmt`.
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
         if self.name().to_lowercase() == "calendar" {
             if !self
@@ -97,7 +98,7 @@ pub(crate) trait LikeComponent<'a> {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", self.name())))?;
         Ok(())
     }
 }
-- 
2.43.0


From 5b06625aee333ea134606c095f3c6fbd50a54549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 21/33] fix: add nothing to a parsed component called calendar
 when it is written

---
 src/parser/components.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 728d603..6d01b82 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -14,7 +13,6 @@ use nom::{
 
 #[cfg(test)]
 use nom::error::ErrorKind;
-use uuid::Uuid;
 
 #[cfg(test)]
 use super::parameters::Parameter;
@@ -31,7 +29,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
     properties::fold_line,
 };
 
@@ -72,24 +70,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From b18d709c2c6e5b9a75563ef98597858407e43f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 22/33] fix: read signed durations as time to live

---
 src/calendar.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e4160d2..2401ca1 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -199,16 +199,11 @@ impl Calendar {
     /// Gets the value of the `REFRESH-INTERVAL` or `X-PUBLISHED-TTL` property.
     pub fn get_ttl(&self) -> Option<Duration> {
         self.property_value("REFRESH-INTERVAL")
-            .and_then(|refresh_interval| iso8601::duration(refresh_interval).ok())
+            .and_then(date_time::parse_duration)
             .or_else(|| {
                 self.property_value("X-PUBLISHED-TTL")
-                    .and_then(|published_ttl| iso8601::duration(published_ttl).ok())
+                    .and_then(date_time::parse_duration)
             })
-            .map(std::time::Duration::from)
-            .map(Duration::from_std)
-            .transpose()
-            .ok()
-            .flatten()
     }
 
     /// End of builder pattern.
-- 
2.43.0


From 082b157790532da0df3f819ffb84969b5a09ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 23/33] fix: report text that follows a single component

---
 src/parser/components.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 6d01b82..04bb701 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -101,10 +101,7 @@ impl<'a> TryFrom<&'a str> for Component<'a> {
     type Error = String;
 
     fn try_from(input: &'a str) -> Result<Self, Self::Error> {
-        component(input)
-            .finish()
-            .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        read_component(input)
     }
 }
 
@@ -219,7 +216,9 @@ enum ComponentChild<'a> {
 }
 
 pub fn read_component(input: &str) -> Result<Component<'_>, String> {
-    component(input)
+    // nothing may be left over
+    terminated(component, preceded(multispace0, eof))
+        .parse(input)
         .finish()
         .map(|(_, component)| component)
         .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
-- 
2.43.0


From 7c9e9c66a6dcbbcfd8e507a71327feb0288bfc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 24/33] fix: reject lines that have no name or do not end after
 it

---
 src/parser/properties.rs | 9 +++++----
 src/parser/utils.rs      | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 8fb1f69..6e605cf 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -3,7 +3,7 @@ use std::{
     str::FromStr,
 };
 
-use crate::{parser::utils::valid_key_sequence_cow, properties::fold_line, value_types::ValueType};
+use crate::{properties::fold_line, value_types::ValueType};
 
 use super::{
     parameters::{parameters, Parameter},
@@ -14,9 +14,9 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take, take_until, take_while},
     character::complete::{line_ending, multispace0},
-    combinator::{cut, opt},
+    combinator::{cut, eof, opt, peek},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
-    sequence::{preceded, separated_pair, tuple},
+    sequence::{preceded, separated_pair, terminated, tuple},
     Finish, IResult, Parser,
 };
 
@@ -427,7 +427,8 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 ),
                 context(
                     "no-value property",
-                    valid_key_sequence_cow.map(|key| ((key, vec![]), ParseString::from(""))), // key and nothing else
+                    terminated(property_key, peek(alt((line_ending, eof))))
+                        .map(|key| ((ParseString::from(key), vec![]), ParseString::from(""))), // key and nothing else
                 ),
             )),
             opt(line_ending),
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 9219f7d..678d69d 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -17,7 +17,7 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
     let (rest, key) = valid_key_sequence(input)?;
-    if key == "END" || key == "BEGIN" {
+    if key.is_empty() || key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
-- 
2.43.0


From 8a64f40b7d742999d15ee1340a6b4af0f14bf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 25/33] fix: write parameters without a value as empty ones

---
 src/parser/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 6e605cf..3effb12 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -78,7 +78,7 @@ impl Property<'_> {
                 let val = crate::Property::quote_if_contains_colon(val.as_str());
                 write!(line, ";{}={}", key.as_str(), val)?;
             } else {
-                write!(line, ";{}", key.as_str())?;
+                write!(line, ";{}=", key.as_str())?;
             }
         }
         match determin_value_type(&self.name, &self.params) {
-- 
2.43.0


From 808d0a776899cd34ca412084f21b7d9c16427aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 26/33] fix: end parameter values at the end of the line

---
 src/parser/parameters.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index de378db..ecc9be4 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -143,8 +143,8 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
+                delimited(tag("\""), take_till(|x| x == '"' || x == '\n'), tag("\"")),
+                take_till1(|x| x == ';' || x == ':' || x == '\n'),
             )))
             .map(remove_empty_string),
         ),
@@ -168,8 +168,8 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
+                delimited(tag("\""), take_till(|x| x == '"' || x == '\n'), tag("\"")),
+                take_till1(|x| x == ';' || x == ':' || x == '\n'),
             ))
             .map(ParseString::from),
         ))
-- 
2.43.0


From f1217ca20d422c31a24ce21ec487248669719e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 27/33] fix: reject parameters without a name

---
 src/parser/parameters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index ecc9be4..9156885 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -2,7 +2,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
-    combinator::{eof, opt},
+    combinator::{eof, opt, verify},
     error::{convert_error, ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded, separated_pair, tuple},
@@ -133,13 +133,21 @@ fn parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     alt((pair_parameter, base_parameter))(input)
 }
 
+fn parameter_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
+    input: &'a str,
+) -> IResult<&'a str, ParseString<'a>, E> {
+    verify(valid_key_sequence_cow, |key: &ParseString| {
+        !key.as_str().is_empty()
+    })(input)
+}
+
 fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Parameter<'a>, E> {
     preceded(
         tuple((tag(";"), space0)),
         separated_pair(
-            valid_key_sequence_cow, //key
+            parameter_key, //key
             tag("="),
             opt(alt((
                 eof,
@@ -162,7 +170,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     tuple((
         preceded(
             tuple((tag(";"), space0)),
-            valid_key_sequence_cow, //key
+            parameter_key, //key
         ),
         opt(preceded(
             tag("="),
-- 
2.43.0


From f37e3d16b6d4906fe03f744e636ffc4f12ee4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 28/33] fix: report errors in very long lines without panicking

---
 src/parser/components.rs |  6 +++---
 src/parser/mod.rs        |  7 ++++---
 src/parser/parameters.rs |  9 ++++++---
 src/parser/properties.rs |  6 +++---
 src/parser/utils.rs      | 18 +++++++++++++++++-
 5 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 04bb701..7e0fa9d 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{multispace0, satisfy},
     combinator::{cut, eof, not, opt, verify},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::{preceded, terminated},
     Finish, IResult, Parser,
@@ -20,7 +20,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{is_key_char, line, line_separated, valid_key_sequence_cow},
+    utils::{describe_error, is_key_char, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -221,7 +221,7 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
         .parse(input)
         .finish()
         .map(|(_, component)| component)
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
 }
 
 /// Components can contain components, deeper nesting than this is rejected
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2a5ecfc..4ab7a33 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@
 //!
 //!
 #![allow(missing_docs)]
-use nom::{error::convert_error, error::VerboseError, Finish};
+use nom::{error::VerboseError, Finish};
 
 mod calendar;
 pub(crate) mod components;
@@ -41,6 +41,7 @@ pub use parsed_string::ParseString;
 pub use properties::Property;
 
 use components::*;
+use utils::describe_error;
 
 pub use utils::unfold;
 
@@ -60,7 +61,7 @@ pub fn read_calendar_simple(input: &str) -> Result<Vec<Component<'_>>, nom::erro
 pub fn read_calendar(input: &str) -> Result<Calendar<'_>, String> {
     components(input)
         .finish()
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
         .and_then(|(_, mut components)| {
             let root_is_calendar = components
                 .first()
@@ -98,5 +99,5 @@ pub fn read_components(input: &str) -> Result<Vec<Component<'_>>, String> {
     components(input)
         .finish()
         .map(|(_, components)| components)
-        .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+        .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
 }
diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index 9156885..dd7be95 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
     combinator::{eof, opt, verify},
-    error::{convert_error, ContextError, ParseError, VerboseError},
+    error::{ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded, separated_pair, tuple},
     Finish, IResult, Parser,
@@ -12,7 +12,10 @@ use nom::{
 #[cfg(test)]
 use nom::error::ErrorKind;
 
-use super::{parsed_string::ParseString, utils::valid_key_sequence_cow};
+use super::{
+    parsed_string::ParseString,
+    utils::{describe_error, valid_key_sequence_cow},
+};
 
 /// Zero-copy version of [`crate::properties::Parameter`]
 #[derive(PartialEq, Eq, Debug, Clone)]
@@ -38,7 +41,7 @@ impl<'a> TryFrom<&'a str> for Parameter<'a> {
         parameter(input)
             .finish()
             .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+            .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
     }
 }
 
diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 3effb12..0983d31 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -8,14 +8,14 @@ use crate::{properties::fold_line, value_types::ValueType};
 use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
-    utils::{property_key, unfold},
+    utils::{describe_error, property_key, unfold},
 };
 use nom::{
     branch::alt,
     bytes::complete::{tag, take, take_until, take_while},
     character::complete::{line_ending, multispace0},
     combinator::{cut, eof, opt, peek},
-    error::{context, convert_error, ContextError, ParseError, VerboseError},
+    error::{context, ContextError, ParseError, VerboseError},
     sequence::{preceded, separated_pair, terminated, tuple},
     Finish, IResult, Parser,
 };
@@ -119,7 +119,7 @@ impl<'a> TryFrom<&'a str> for Property<'a> {
         property(input)
             .finish()
             .map(|(_, x)| x)
-            .map_err(|e: VerboseError<&str>| format!("error: {}", convert_error(input, e.clone())))
+            .map_err(|e: VerboseError<&str>| format!("error: {}", describe_error(input, e)))
     }
 }
 
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 678d69d..24c82ae 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -2,7 +2,7 @@ use nom::{
     bytes::complete::{tag_no_case, take_while},
     character::complete::line_ending,
     combinator::complete,
-    error::{ContextError, ParseError},
+    error::{convert_error, ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded},
     Err, IResult, Parser,
@@ -12,6 +12,22 @@ use pretty_assertions::assert_eq;
 
 use super::parsed_string::ParseString;
 
+/// Renders an error for humans.
+pub fn describe_error(input: &str, error: VerboseError<&str>) -> String {
+    // `convert_error()` pads lines up to the position of the error,
+    // formatting panics if that is beyond `u16::MAX`
+    const MAX_LINE: usize = 60_000;
+
+    if input.lines().all(|line| line.len() <= MAX_LINE) {
+        return convert_error(input, error);
+    }
+    error
+        .errors
+        .iter()
+        .map(|(rest, kind)| format!("{:?} at byte {}\n", kind, input.len() - rest.len()))
+        .collect()
+}
+
 // TODO: how do I express <<alpha_or_dash, but not "END">>
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
-- 
2.43.0


From ace477ce71ee5685073da47c65b14a45cc30afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 29/33] fix: reject parameter values whose quote is not closed

---
 src/parser/parameters.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index dd7be95..2523750 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -2,7 +2,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
-    combinator::{eof, opt, verify},
+    combinator::{eof, not, opt, verify},
     error::{ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded, separated_pair, tuple},
@@ -155,7 +155,10 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             opt(alt((
                 eof,
                 delimited(tag("\""), take_till(|x| x == '"' || x == '\n'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':' || x == '\n'),
+                preceded(
+                    not(tag("\"")),
+                    take_till1(|x| x == ';' || x == ':' || x == '\n'),
+                ),
             )))
             .map(remove_empty_string),
         ),
@@ -180,7 +183,10 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             alt((
                 eof,
                 delimited(tag("\""), take_till(|x| x == '"' || x == '\n'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':' || x == '\n'),
+                preceded(
+                    not(tag("\"")),
+                    take_till1(|x| x == ';' || x == ':' || x == '\n'),
+                ),
             ))
             .map(ParseString::from),
         ))
-- 
2.43.0


From dd9d9549c9b67dae6f952d9f2c8a6b1fe127526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 30/33] fix: accept no property called end or begin in lower
 case either

---
 src/parser/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 24c82ae..3ea37ed 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -33,7 +33,7 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
     let (rest, key) = valid_key_sequence(input)?;
-    if key.is_empty() || key == "END" || key == "BEGIN" {
+    if key.is_empty() || key.eq_ignore_ascii_case("END") || key.eq_ignore_ascii_case("BEGIN") {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
-- 
2.43.0


From 0f4a393733f9b24c60591c714640fb083c644fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 31/33] fix: reject text behind the name in BEGIN and END lines

---
 src/parser/components.rs | 17 ++++++++++-------
 src/parser/utils.rs      | 16 +++++++++-------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 7e0fa9d..73d334d 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -3,8 +3,8 @@ use std::{fmt, str::FromStr};
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::{multispace0, satisfy},
-    combinator::{cut, eof, not, opt, verify},
+    character::complete::multispace0,
+    combinator::{cut, eof, opt, verify},
     error::{context, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::{preceded, terminated},
@@ -20,7 +20,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{describe_error, is_key_char, line, line_separated, valid_key_sequence_cow},
+    utils::{describe_error, end_of_line, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -240,9 +240,12 @@ fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 ) -> IResult<&'a str, Component<'a>, E> {
     let (input, name) = line(
         "BEGIN:",
-        verify(valid_key_sequence_cow, |name: &ParseString| {
-            !name.as_str().is_empty()
-        }),
+        terminated(
+            verify(valid_key_sequence_cow, |name: &ParseString| {
+                !name.as_str().is_empty()
+            }),
+            end_of_line,
+        ),
     )(input)?;
 
     if depth > MAX_DEPTH {
@@ -267,7 +270,7 @@ fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             "END:",
             cut(context(
                 "mismatching end",
-                terminated(tag(name.as_str()), not(satisfy(is_key_char))),
+                terminated(tag(name.as_str()), end_of_line),
             )),
         ),
     ))
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 3ea37ed..f01fb17 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -1,7 +1,8 @@
 use nom::{
-    bytes::complete::{tag_no_case, take_while},
+    branch::alt,
+    bytes::complete::{tag, tag_no_case, take_while},
     character::complete::line_ending,
-    combinator::complete,
+    combinator::{complete, eof, peek},
     error::{convert_error, ContextError, ParseError, VerboseError},
     multi::many0,
     sequence::{delimited, preceded},
@@ -43,11 +44,6 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     }
 }
 
-/// Characters that may be part of the name of a component, a property or a parameter.
-pub fn is_key_char(c: char) -> bool {
-    c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
-}
-
 pub fn valid_key_sequence<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
@@ -80,6 +76,12 @@ pub fn line_separated<'a, O, E: ParseError<&'a str>, F: Parser<&'a str, O, E>>(
     delimited(many0(line_ending), f, many0(line_ending))
 }
 
+/// There is nothing but blanks up to the end of the line.
+pub fn end_of_line<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
+    let blank = take_while(|c| matches!(c, ' ' | '\t' | '\r'));
+    peek(preceded(blank, alt((tag("\n"), eof)))).parse(input)
+}
+
 /// Normalize content lines.
 ///
 /// This simplifies line endings and unfolds breaks to simplify parsing.
-- 
2.43.0


From 2a64c4dc85a4b0db972f5d09d220f213f6dd881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:28 +0000
Subject: [PATCH 32/33] fix: name the line at which components are nested too
 deeply

---
 src/parser/components.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 73d334d..b9b1e12 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -238,6 +238,7 @@ fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
     depth: usize,
 ) -> IResult<&'a str, Component<'a>, E> {
+    let begin = input;
     let (input, name) = line(
         "BEGIN:",
         terminated(
@@ -250,9 +251,9 @@ fn component_at_depth<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
     if depth > MAX_DEPTH {
         return Err(nom::Err::Failure(E::add_context(
-            input,
+            begin,
             "components are nested too deeply",
-            E::from_error_kind(input, nom::error::ErrorKind::TooLarge),
+            E::from_error_kind(begin, nom::error::ErrorKind::TooLarge),
         )));
     }
 
-- 
2.43.0


From 9fdd83109b186f204e911d981c75cf1601e5f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 33/33] fix: name the line at which a calendar is followed by
 something

---
 src/parser/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4ab7a33..e52877d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,10 @@
 //!
 //!
 #![allow(missing_docs)]
-use nom::{error::VerboseError, Finish};
+use nom::{
+    error::{VerboseError, VerboseErrorKind},
+    Finish,
+};
 
 mod calendar;
 pub(crate) mod components;
@@ -69,7 +72,14 @@ pub fn read_calendar(input: &str) -> Result<Calendar<'_>, String> {
                 .unwrap_or(false);
 
             if root_is_calendar && components.len() > 1 {
-                Err("error: the calendar is followed by other components".to_owned())
+                // read the calendar once more to find out where it ends
+                let rest = component::<VerboseError<&str>>(input).map_or(input, |(rest, _)| rest);
+                let kind =
+                    VerboseErrorKind::Context("the calendar is followed by other components");
+                let error = VerboseError {
+                    errors: vec![(rest, kind)],
+                };
+                Err(format!("error: {}", describe_error(input, error)))
             } else if root_is_calendar {
                 let root = components.swap_remove(0);
                 Ok(Calendar {
-- 
2.43.0

