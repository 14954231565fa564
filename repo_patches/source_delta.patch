From 2d36e6c55f6e4fbe4448b779d9771460d19f0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/18] fix: use the whole national number, leading zeros
 included, for metadata and number type

PhoneNumber::metadata and number_type looked numbers up by their value without
leading zeros, so every valid number starting with 0 (Italy, Gabon, Ivory
Coast, ...) was typed Unknown and often had no region.
---
 src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/phone_number.rs b/src/phone_number.rs
index 36a7e69..a5d1f2f 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -209,7 +209,7 @@ impl PhoneNumber {
         match validator::source_for(
             database,
             self.code.value(),
-            &self.national.value().to_string(),
+            &self.national.to_string(),
         )? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
@@ -234,7 +234,7 @@ impl PhoneNumber {
     /// Determine the [`Type`] of the phone number with the given `Database`.
     pub fn number_type_with(&self, database: &Database) -> Type {
         match self.metadata(database) {
-            Some(metadata) => validator::number_type(metadata, &self.national.value().to_string()),
+            Some(metadata) => validator::number_type(metadata, &self.national.to_string()),
             None => Type::Unknown,
         }
     }
-- 
2.43.0


From 081b9b2a116a96c05b29b15d81ffc73a6d5b26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 02/18] fix: descriptors must match the whole national number,
 not a prefix of it

Descriptor::is_match accepted any value with a possible length whose beginning
matched, so e.g. a 10 digit number passed on its first 9 digits, and numbers
were valid, typed and attributed to regions they do not belong to.
---
 src/metadata/database.rs   | 7 ++++++-
 src/metadata/descriptor.rs | 6 ++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..5b95f17 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -66,6 +66,11 @@ impl Database {
             Ok(RegexBuilder::new(&value).ignore_whitespace(true).build()?)
         };
 
+        // The patterns of the metadata describe whole numbers, so anchor them: a
+        // leftmost-first search alone can neither tell a prefix match from a whole
+        // match nor reach a longer alternative after a shorter one has matched.
+        let anchored = |value: String| regex(format!("^(?:{value}\n)$"));
+
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
                 desc.national_number.as_ref().unwrap();
@@ -80,7 +85,7 @@ impl Database {
                                 name: "national_number".into(),
                             })
                         })
-                        .and_then(regex)?,
+                        .and_then(anchored)?,
 
                     possible_length: desc.possible_length,
                     possible_local_length: desc.possible_local_length,
diff --git a/src/metadata/descriptor.rs b/src/metadata/descriptor.rs
index ce6b7d7..1ef006c 100644
--- a/src/metadata/descriptor.rs
+++ b/src/metadata/descriptor.rs
@@ -77,9 +77,7 @@ impl Descriptor {
             return false;
         }
 
-        self.national_number
-            .find(value)
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
+        // The pattern is anchored at both ends when the database is built.
+        self.national_number.is_match(value)
     }
 }
-- 
2.43.0


From dbf7fe1e91eedc40019a9b473dc5cd4271e4410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 03/18] fix: loading malformed metadata must return an error,
 not panic

A missing nationalNumberPattern, an empty or malformed possibleLengths item and
a length range ending at 65535 panicked, and deeply nested ignored elements
overflowed the stack.
---
 src/metadata/database.rs |  3 ---
 src/metadata/loader.rs   | 27 +++++++++++++--------------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 5b95f17..7bfe4e6 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -73,9 +73,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..10608e0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,17 +318,13 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            let range = part
+                .strip_prefix('[')
+                .and_then(|part| part.strip_suffix(']'))
+                .and_then(|part| part.split_once('-'));
 
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
-
-                    for i in start..end + 1 {
-                        result.push(i);
-                    }
-                }
+            if let Some((start, end)) = range {
+                result.extend(start.parse::<u16>()?..=end.parse::<u16>()?);
             } else {
                 result.push(part.parse()?);
             }
@@ -573,15 +569,16 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    // The reader itself checks that nested tags match, it is enough to count them.
+    let mut depth = 0usize;
 
     loop {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(_) => depth += 1,
+
+            Event::End(_) if depth > 0 => depth -= 1,
 
             Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
 
@@ -602,6 +599,8 @@ fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::
                 .into());
             }
         }
+
+        buffer.clear();
     }
 }
 
-- 
2.43.0


From 41a9cb4f0f888701dfc37a9e3b6589921e085173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 04/18] fix: accept metadata documents that start with an XML
 declaration

---
 src/metadata/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 10608e0..4395cc0 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -99,7 +99,7 @@ fn metadata<R: BufRead>(reader: &mut Reader<R>) -> Result<Vec<Metadata>, error::
 
     loop {
         match reader.read_event_into(&mut buffer)? {
-            Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
+            Event::Decl(_) | Event::Text(_) | Event::Comment(_) | Event::DocType(_) => (),
 
             Event::Start(ref e) => match e.name().into_inner() {
                 b"phoneNumberMetadata" => continue,
-- 
2.43.0


From 4013b944a37dc721c2a655ed62ce66b5712d0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 05/18] fix: Database::iter must yield every non-geographical
 entity

They all have the ID 001, so iterating over the ID index yielded one of nine.
---
 src/metadata/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 7bfe4e6..0a597d3 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -249,6 +249,7 @@ impl Database {
 
     /// Iterator over all `Metadata` entries in this database.
     pub fn iter(&self) -> impl Iterator<Item = &Metadata> {
-        self.by_id.values().map(AsRef::as_ref)
+        // Not `by_id`: the non-geographical entities all share one ID.
+        self.by_code.values().flatten().map(AsRef::as_ref)
     }
 }
-- 
2.43.0


From 41e975e8947a94214288a386a9bc13254a6c45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 06/18] fix: derive the possible lengths of general descriptors

The metadata only gives possible lengths for the specific types. With none on
the general descriptor every length test was inconclusive, so leading digits
equal to the country code or national prefix were always taken off: Singapore's
6512 3456 lost its 65 and Russia's 800 numbers their 8.
---
 src/metadata/database.rs |  4 +++-
 src/metadata/metadata.rs | 42 ++++++++++++++++++++++++++++++++++++++++
 src/phone_number.rs      |  6 +-----
 src/validator.rs         |  4 ++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 0a597d3..9b7a39d 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -192,7 +192,9 @@ impl Database {
         let mut regions = FnvHashMap::default();
 
         for meta in meta {
-            let meta = Arc::new(metadata(meta)?);
+            let mut meta = metadata(meta)?;
+            meta.descriptors.derive_possible_lengths();
+            let meta = Arc::new(meta);
 
             by_id.insert(meta.id.clone(), meta.clone());
 
diff --git a/src/metadata/metadata.rs b/src/metadata/metadata.rs
index a95e60f..d03671b 100644
--- a/src/metadata/metadata.rs
+++ b/src/metadata/metadata.rs
@@ -17,6 +17,7 @@ use crate::{
     phone_number::Type,
 };
 use regex::Regex;
+use std::collections::BTreeSet;
 
 /// Phone number metadata.
 #[derive(Clone, Debug)]
@@ -235,6 +236,47 @@ impl Metadata {
 }
 
 impl Descriptors {
+    /// The metadata only gives possible lengths for the specific types, those of
+    /// the general descriptor are all of them together.
+    pub(crate) fn derive_possible_lengths(&mut self) {
+        if !self.general.possible_length.is_empty() {
+            return;
+        }
+
+        // Numbers that cannot be dialled internationally are not a type of their own,
+        // they are also described by another descriptor.
+        let types = [
+            &self.fixed_line,
+            &self.mobile,
+            &self.toll_free,
+            &self.premium_rate,
+            &self.shared_cost,
+            &self.personal_number,
+            &self.voip,
+            &self.pager,
+            &self.uan,
+            &self.emergency,
+            &self.voicemail,
+            &self.short_code,
+            &self.standard_rate,
+            &self.carrier,
+        ];
+
+        let collect = |lengths: fn(&Descriptor) -> &[u16]| {
+            types
+                .iter()
+                .filter_map(|desc| desc.as_ref())
+                .flat_map(|desc| lengths(desc).iter().copied())
+                .collect::<BTreeSet<_>>()
+        };
+
+        let national = collect(Descriptor::possible_length);
+        let local = &collect(Descriptor::possible_local_length) - &national;
+
+        self.general.possible_length = national.into_iter().collect();
+        self.general.possible_local_length = local.into_iter().collect();
+    }
+
     /// Get the proper descriptor for the given phone number type, if any.
     pub fn get(&self, kind: Type) -> Option<&Descriptor> {
         match kind {
diff --git a/src/phone_number.rs b/src/phone_number.rs
index a5d1f2f..1c20e8c 100644
--- a/src/phone_number.rs
+++ b/src/phone_number.rs
@@ -206,11 +206,7 @@ impl PhoneNumber {
     /// Get the metadata that applies to this phone number from the given
     /// database.
     pub fn metadata<'a>(&self, database: &'a Database) -> Option<&'a Metadata> {
-        match validator::source_for(
-            database,
-            self.code.value(),
-            &self.national.to_string(),
-        )? {
+        match validator::source_for(database, self.code.value(), &self.national.to_string())? {
             Left(region) => database.by_id(region.as_ref()),
             Right(code) => database.by_code(&code).and_then(|m| m.into_iter().next()),
         }
diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..2b51ba5 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -115,9 +115,9 @@ pub fn length(meta: &Metadata, number: &ParseNumber<'_>, kind: Type) -> Validati
     let length = number.national.len() as u16;
     let local = &desc.possible_local_length[..];
     let possible = if desc.possible_length.is_empty() {
-        &desc.possible_length[..]
-    } else {
         &meta.descriptors.general.possible_length[..]
+    } else {
+        &desc.possible_length[..]
     };
 
     if possible.is_empty() {
-- 
2.43.0


From c18fca1b0d5ecaf5fa9d160356bf9af1c2669711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/18] fix: national prefix and carrier stripping must not
 damage the number

Check the viability of what is left after the national prefix (not an
unrelated slice), never strip a plain national prefix off a number that
stops being viable, do not strip a national prefix twice, and only report
a carrier when the metadata captures one.
---
 src/parser/helper.rs | 24 ++++++++++++++++++------
 src/parser/mod.rs    | 15 +++++++--------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..2a09134 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -285,8 +285,13 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         re
     } else {
         if let Some(prefix) = meta.national_prefix.as_ref() {
-            if number.national.starts_with(prefix) {
-                number.national = trim(number.national, prefix.len());
+            if let Some(rest) = number.national.strip_prefix(prefix.as_str()) {
+                // Do not turn a viable number into one that is not.
+                let general = &meta.descriptors.general;
+
+                if !general.is_match(&number.national) || general.is_match(rest) {
+                    number.national = trim(number.national, prefix.len());
+                }
             }
         }
 
@@ -317,12 +322,16 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
         })
         .unwrap();
 
-    if transform.is_none() || last.is_none() {
-        if viable && !meta.descriptors.general.is_match(&number.national[start..]) {
+    // Note that `groups` includes the implicit group for the whole match.
+    if transform.is_none() || groups == 1 || last.is_none() {
+        if viable && !meta.descriptors.general.is_match(&number.national[end..]) {
             return number;
         }
 
-        number.carrier = last.filter(|_| groups > 0).map(Into::into);
+        number.carrier = last
+            .and(first)
+            .filter(|c| groups > 1 && !c.is_empty())
+            .map(Into::into);
 
         number.national = trim(number.national, end);
     } else if let Some(transform) = transform {
@@ -332,7 +341,10 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        // A single group holds the part of the number that is kept.
+        number.carrier = first
+            .filter(|c| groups > 2 && !c.is_empty())
+            .map(Into::into);
         number.national = transformed.into();
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1db0b32..202831b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -84,17 +84,16 @@ pub fn parse_with<S: AsRef<str>>(
 
     // Extract carrier and strip national prefix if present.
     if let Some(meta) = meta {
-        let mut potential = helper::national_number(meta, number.clone());
+        let potential = helper::national_number(meta, number.clone());
 
-        // Strip national prefix if present.
-        if let Some(prefix) = meta.national_prefix.as_ref() {
-            if potential.national.starts_with(prefix) {
-                potential.national = helper::trim(potential.national, prefix.len());
+        // What remains must be of a possible length, otherwise the digits that look
+        // like a national prefix are part of the number.
+        match validator::length(meta, &potential, Type::Unknown) {
+            Validation::TooShort | Validation::IsPossibleLocalOnly | Validation::InvalidLength => {
+                ()
             }
-        }
 
-        if validator::length(meta, &potential, Type::Unknown) != Validation::TooShort {
-            number = potential;
+            _ => number = potential,
         }
     }
 
-- 
2.43.0


From b74d666a47ffcc952b29080b2e03dd53a2273ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 08/18] fix: only take leading digits for a written country
 code when that helps

A number of the region that merely starts with the digits of its country
code lost them whenever it was not fully valid. Follow the usual rule: the
code is stripped when the number matches the region without it but not with
it, or when it is too long with it. A region the database does not contain
is an error rather than a panic.
---
 src/parser/helper.rs | 29 +++++++++++++++++++++--------
 src/parser/mod.rs    |  6 ++++--
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 2a09134..0d4be33 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -17,7 +17,7 @@ use crate::country;
 use crate::error;
 use crate::metadata::{Database, Metadata};
 use crate::phone_number::Type;
-use crate::validator;
+use crate::validator::{self, Validation};
 use fnv::FnvHashMap;
 use nom::{
     AsChar, IResult,
@@ -191,15 +191,28 @@ pub fn country_code<'a>(
 
         country::Source::Default => {
             if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+                let meta = database
+                    .by_id(country.as_ref())
+                    .ok_or(error::Parse::InvalidCountryCode)?;
                 let code = meta.country_code.to_string();
 
-                if number.national.starts_with(&code)
-                    && (!meta.descriptors().general().is_match(&number.national)
-                        || !validator::length(meta, &number, Type::Unknown).is_possible())
-                {
-                    number.country = country::Source::Number;
-                    number.national = trim(number.national, code.len());
+                if number.national.starts_with(&code) {
+                    let general = meta.descriptors().general();
+                    let potential = Number {
+                        national: trim(number.national.clone(), code.len()),
+                        ..number.clone()
+                    };
+
+                    // Only take the leading digits for the country code when the
+                    // number makes sense without them but not with them, or when
+                    // it would be too long with them.
+                    if (!general.is_match(&number.national)
+                        && general.is_match(&national_number(meta, potential.clone()).national))
+                        || validator::length(meta, &number, Type::Unknown) == Validation::TooLong
+                    {
+                        number.country = country::Source::Number;
+                        number.national = potential.national;
+                    }
                 }
 
                 number.prefix = Some(code.into());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 202831b..616c60f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -65,8 +65,10 @@ pub fn parse_with<S: AsRef<str>>(
     // that code, otherwise we strip the wrong national prefix.
     use either::{Left, Right};
     let meta = if let Some(country) = &country
-        && number.country == country::Source::Default
-    {
+        && matches!(
+            number.country,
+            country::Source::Default | country::Source::Number
+        ) {
         database.by_id(country.as_ref())
     } else {
         let code = country::Code {
-- 
2.43.0


From b8dca48c688280d75d0de3edf01f710a3ba8b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 09/18] fix: an unknown region sharing a country code must not
 panic

Metadata loaded at run time may list regions that country::Id does not
name; treat them like the single-region case does.
---
 src/validator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index 2b51ba5..03f0da1 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -160,16 +160,18 @@ pub fn source_for(
     }
 
     for region in regions {
-        let meta = database.by_id(region).unwrap();
+        let Some(meta) = database.by_id(region) else {
+            continue;
+        };
 
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From a4cb9d13c6248d5eab9a3c738b7ca568ea348635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 10/18] fix: formats without leading digits must match the
 number, and need no group

A format with no leading digits was chosen without looking at its pattern,
and a format using no group panicked when a prefix rule applied to it.
---
 src/formatter.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..c9d4893 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -209,18 +209,16 @@ fn formatter<'a>(number: &str, formats: &'a [Format]) -> Option<&'a Format> {
     for format in formats {
         let leading = format.leading_digits();
 
-        if leading.is_empty()
-            || leading
-                .last()
-                .unwrap()
+        let leading = leading
+            .last()
+            .is_none_or(|re| re.find(number).is_some_and(|m| m.start() == 0));
+
+        if leading
+            && format
+                .pattern()
                 .find(number)
-                .map(|m| m.start() == 0)
+                .map(|m| m.start() == 0 && m.end() == number.len())
                 .unwrap_or(false)
-                && format
-                    .pattern()
-                    .find(number)
-                    .map(|m| m.start() == 0 && m.end() == number.len())
-                    .unwrap_or(false)
         {
             return Some(format);
         }
@@ -240,13 +238,12 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
-                    .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+            // A format that uses no group has nowhere to put the prefix.
+            &*if let Some((transform, first)) = transform.zip(
+                consts::FIRST_GROUP
+                    .find(formatter.format())
+                    .map(|m| m.as_str()),
+            ) {
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0


From 468080d6a534e147455d76073d2f67d755b73f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 11/18] fix: RFC3966 text must not start with a doubled
 separator

---
 src/formatter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index c9d4893..48e5305 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -185,12 +185,11 @@ impl<'n, 'd, 'f> fmt::Display for Formatter<'n, 'd, 'f> {
                 write!(f, "tel:+{}-", self.number.country().code())?;
 
                 if let Some(formatter) = formatter {
-                    write!(
-                        f,
-                        "{}",
-                        consts::SEPARATOR_PATTERN
-                            .replace_all(&replace(&national, meta, formatter, None, None), "-")
-                    )?;
+                    let national = replace(&national, meta, formatter, None, None);
+                    let national = consts::SEPARATOR_PATTERN.replace_all(&national, "-");
+
+                    // The country code is already followed by a separator.
+                    write!(f, "{}", national.trim_start_matches('-'))?;
                 } else {
                     write!(f, "{}", national)?;
                 }
-- 
2.43.0


From 1da02c83e4b2bf66e97d646d735cb810ed1ff7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 12/18] fix: do not mistake a country code after a plus for an
 IDD

With FI as reference region, whose IDD may be 99x, +994... lost the digits
of its country code.
---
 src/parser/helper.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 0d4be33..e092c91 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -258,11 +258,8 @@ pub fn international_prefix<'a>(idd: Option<&Regex>, mut number: Number<'a>) ->
         number.national = trim(number.national, start);
         number = normalize(number, mappings);
 
-        if !idd
-            .and_then(|re| re.find(&number.national))
-            .map(|m| m.start() == 0)
-            .unwrap_or(false)
-        {
+        // No country code starts with a 0, so only then can an IDD follow the plus.
+        if !number.national.starts_with('0') {
             return number;
         }
     } else {
-- 
2.43.0


From 2fd95297d8b675846f0b3f5d58ed602e5b9472db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 13/18] fix: accept every notation of extensions, and no empty
 ones

Only the digits of one of the three notations were looked at, and a text
using one of the others was rejected as a whole.
---
 src/parser/mod.rs     |  5 ++++-
 src/parser/natural.rs | 16 +++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 616c60f..962e481 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -115,7 +115,10 @@ pub fn parse_with<S: AsRef<str>>(
 
         national: number.national.parse()?,
 
-        extension: number.extension.map(|s| Extension(s.into_owned())),
+        extension: number
+            .extension
+            .filter(|s| !s.is_empty())
+            .map(|s| Extension(s.into_owned())),
         carrier: number.carrier.map(|s| Carrier(s.into_owned())),
     })
 }
diff --git a/src/parser/natural.rs b/src/parser/natural.rs
index 6428f5c..7663a1a 100644
--- a/src/parser/natural.rs
+++ b/src/parser/natural.rs
@@ -15,18 +15,11 @@
 use crate::consts;
 use crate::parser::helper::*;
 use nom::IResult;
-use nom::error::ErrorKind;
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     let (_, i) = extract(i)?;
     let extension = consts::EXTN_PATTERN.captures(i);
 
-    if let Some(c) = extension.as_ref() {
-        if c.get(0).is_none() || c.get(2).is_none() {
-            return Err(nom::Err::Failure(nom::error::Error::new(i, ErrorKind::Eof)));
-        }
-    }
-
     Ok((
         "",
         Number {
@@ -36,10 +29,15 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .unwrap_or(i)
                 .into(),
 
+            // Every notation captures the digits in a group of its own.
             extension: extension
                 .as_ref()
-                .map(|c| c.get(2).unwrap().as_str())
-                .map(Into::into),
+                .and_then(|c| {
+                    (1..c.len())
+                        .filter_map(|i| c.get(i))
+                        .find(|m| !m.is_empty())
+                })
+                .map(|m| m.as_str().into()),
 
             ..Default::default()
         },
-- 
2.43.0


From 6763b098949fb12ef7b8633765a9806e2f49f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 14/18] fix: numbers in non-ASCII digits are viable

normalize() converts them, but the viability check rejected every text
that uses them (and the full-width full stop) before it got there.
---
 src/parser/helper.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index e092c91..d1271d5 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -78,7 +78,7 @@ pub fn ieof(i: &str) -> IResult<&str, ()> {
 
 pub fn punctuation(i: &str) -> IResult<&str, char> {
     one_of(
-        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
+        "-x\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2212}\u{30FC}\u{FF0D}\u{FF0E}\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.[]/~\u{2053}\u{223C}\u{FF5E}",
     )(i)
 }
 
@@ -86,9 +86,8 @@ pub fn alpha(i: &str) -> IResult<&str, char> {
     one_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")(i)
 }
 
-// TODO: Extend with Unicode digits.
 pub fn digit(i: &str) -> IResult<&str, char> {
-    one_of("0123456789")(i)
+    satisfy(|c| c.as_dec_digit().is_some())(i)
 }
 
 pub fn plus(i: &str) -> IResult<&str, char> {
-- 
2.43.0


From 071499e66471f932aa474584fb8f56c56de5bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 15/18] fix: read RFC3966 numbers by their grammar

The country code of a global number need not stand alone before the first
separator, a phone-context may hold more than a country code or be a domain
name, and parameters without value or with escapes ended the parameter list,
so that a phone-context or ext after them was lost.
---
 src/parser/mod.rs     |  5 +++++
 src/parser/rfc3966.rs | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 962e481..f88ed19 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -50,6 +50,11 @@ pub fn parse_with<S: AsRef<str>>(
     // Try to parse the number as RFC3966 or natural language.
     let (_, mut number) = phone_number(string.as_ref()).or(Err(error::Parse::NoNumber))?;
 
+    // The digits in front of a RFC3966 number need not be just a country code.
+    if let Some(prefix) = number.prefix.take() {
+        number.national = format!("+{prefix}{}", number.national).into();
+    }
+
     if !is_viable(&number.national) {
         return Err(error::Parse::NoNumber);
     }
diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index ccaf889..146590d 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -21,6 +21,7 @@ use nom::{
     combinator::*,
     error::{ErrorKind, make_error},
     multi::*,
+    sequence::preceded,
 };
 
 pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
@@ -32,7 +33,7 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     parse! { i =>
         opt(tag_no_case("Tel:"));
         let prefix = opt(prefix);
-        let national = take_while1(number);
+        let national = recognize(preceded(opt(char('+')), take_while1(number)));
         check;
         let params = opt(parameters);
     };
@@ -46,8 +47,9 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
                 .or_else(|| {
                     params
                         .as_ref()
+                        .filter(|_| !national.starts_with('+'))
                         .and_then(|m| m.get("phone-context"))
-                        .map(|&s| s.strip_prefix('+').unwrap_or(s))
+                        .and_then(|s| context(s))
                 })
                 .map(|cs| cs.into()),
 
@@ -61,11 +63,26 @@ pub fn phone_number(i: &str) -> IResult<&str, Number<'_>> {
     ))
 }
 
+/// Whatever stands before the first separator of a global number; which of it
+/// is the country code has yet to be found out.
 fn prefix(i: &str) -> IResult<&str, &str> {
     parse! { i =>
         char('+');
-        take_till1(separator)
-    }
+        let prefix = take_while1(digit);
+        peek(satisfy(separator));
+    };
+
+    Ok((i, prefix))
+}
+
+/// The leading digits given by a `phone-context`, which can also be a domain
+/// name that says nothing about the number.
+fn context(value: &str) -> Option<&str> {
+    let value = value.strip_prefix('+').unwrap_or(value);
+
+    (value.contains(|c: char| c.is_ascii_digit())
+        && value.chars().all(|c| c.is_ascii_digit() || separator(c)))
+    .then_some(value)
 }
 
 fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
@@ -79,16 +96,18 @@ fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
 fn parameter(i: &str) -> IResult<&str, (&str, &str)> {
     parse! { i =>
         char(';');
-        let key = take_while(pname);
-        char('=');
-        let value = take_while(pchar);
+        let key = take_while1(pname);
+        let value = opt(preceded(char('='), take_while(pchar)));
     };
 
-    Ok((i, (key, value)))
+    Ok((i, (key, value.unwrap_or(""))))
 }
 
 fn check(i: &str) -> IResult<&str, ()> {
-    if i.is_empty() || i.as_bytes()[0] == b';' {
+    // A semicolon followed by digits introduces an extension, not a parameter.
+    if i.is_empty()
+        || i.starts_with(';') && !i[1..].starts_with(|c: char| c.as_dec_digit().is_some())
+    {
         Ok((i, ()))
     } else {
         Err(nom::Err::Error(make_error(i, ErrorKind::Tag)))
@@ -100,7 +119,7 @@ fn pname(c: char) -> bool {
 }
 
 fn pchar(c: char) -> bool {
-    parameter_unreserved(c) || unreserved(c)
+    parameter_unreserved(c) || unreserved(c) || c == '%'
 }
 
 fn number(c: char) -> bool {
-- 
2.43.0


From bef24b734e1988a1c183634dca3d7cca98177df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 16/18] fix: a national number read from a string must print as
 that string

More than 255 leading zeros wrapped around, and a sign was dropped.
---
 src/national_number.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index d061926..4b91984 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -28,7 +28,14 @@ impl FromStr for NationalNumber {
         let zeros = s.chars().take_while(|&c| c == '0').count();
         let value = s[zeros..].parse::<u64>()?;
 
-        NationalNumber::new(value, zeros as u8)
+        // The integer parser accepts a sign.
+        if s.contains('+') {
+            return Err(crate::error::Parse::NoNumber);
+        }
+
+        let zeros = zeros.try_into().map_err(|_| crate::error::Parse::TooLong)?;
+
+        NationalNumber::new(value, zeros)
     }
 }
 
-- 
2.43.0


From 838c9b7ed839cf4cb7c8e4787777140554975e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 17/18] fix: the names of RFC3966 parameters are
 case-insensitive

---
 src/parser/rfc3966.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/rfc3966.rs b/src/parser/rfc3966.rs
index 146590d..5691836 100644
--- a/src/parser/rfc3966.rs
+++ b/src/parser/rfc3966.rs
@@ -85,12 +85,19 @@ fn context(value: &str) -> Option<&str> {
     .then_some(value)
 }
 
-fn parameters(i: &str) -> IResult<&str, FnvHashMap<&str, &str>> {
+fn parameters(i: &str) -> IResult<&str, FnvHashMap<String, &str>> {
     parse! { i =>
         let params = many1(parameter);
     };
 
-    Ok((i, params.into_iter().collect()))
+    // The names of parameters are case-insensitive.
+    Ok((
+        i,
+        params
+            .into_iter()
+            .map(|(key, value)| (key.to_ascii_lowercase(), value))
+            .collect(),
+    ))
 }
 
 fn parameter(i: &str) -> IResult<&str, (&str, &str)> {
-- 
2.43.0


From e3d44e53ba1e586a180c4f702c9ee9ad3d9cbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 18/18] fix: converting a national number to u64 must give its
 value

---
 src/national_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/national_number.rs b/src/national_number.rs
index 4b91984..5102d13 100644
--- a/src/national_number.rs
+++ b/src/national_number.rs
@@ -83,7 +83,7 @@ impl NationalNumber {
 
 impl From<NationalNumber> for u64 {
     fn from(n: NationalNumber) -> u64 {
-        n.value
+        n.value()
     }
 }
 
-- 
2.43.0

