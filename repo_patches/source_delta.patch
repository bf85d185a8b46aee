From 76e2bb3c3825d4d89ef3c272220469f08b3d9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 01/28] fix: compile each syntax matcher once instead of on
 every call

---
 src/dom.rs | 22 ++++++++++------------
 src/lib.rs | 12 +++++-------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..4e46636 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -35,13 +35,13 @@ fn main() -> Result<(), kiss_xml::errors::KissXmlError> {
 */
 
 use std::any::Any;
-use std::cell::OnceCell;
 use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::Formatter;
 
 use std::hash::{Hash, Hasher};
 use std::path::Path;
+use std::sync::OnceLock;
 use regex::Regex;
 use crate::errors::*;
 
@@ -405,6 +405,11 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 	}
 }
 
+/// singleton regex matcher
+static ATTR_NAME_CHECKER_SINGLETON: OnceLock<Regex> = OnceLock::new();
+/// singleton regex matcher
+static NAME_CHECKER_SINGLETON: OnceLock<Regex> = OnceLock::new();
+
 /// Represents an XML element with a name, text content, attributes, xmlns namespace (with optional prefix), and children.
 pub struct Element {
 	/// Name of this element
@@ -976,12 +981,9 @@ impl Element {
 	}
 
 
-	/// singleton regex matcher
-	const ATTR_NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
-		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
+		let checker = ATTR_NAME_CHECKER_SINGLETON.get_or_init(
 			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
 		);
 		if checker.is_match(name) {
@@ -990,12 +992,9 @@ impl Element {
 			Err(InvalidAttributeName::new(format!("'{}' is not a valid attribute name", name)))
 		}
 	}
-	/// singleton regex matcher
-	const NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
-		let singleton = Element::NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
+		let checker = NAME_CHECKER_SINGLETON.get_or_init(
 			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
 		);
 		if checker.is_match(name) {
@@ -1636,7 +1635,7 @@ pub struct Text {
 }
 
 /// singleton regex matcher
-const WSP_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static WSP_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 
 impl Text {
 	/** Construct a new Text node from the provided string-like object */
@@ -1655,8 +1654,7 @@ impl Text {
 
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
-		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..37f58f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,12 +233,12 @@ as-is or with modification, without any limitations.
 
  */
 
-use std::cell::{OnceCell};
 use std::cmp::Ordering;
 use std::collections::{HashMap, VecDeque};
 use std::fs;
 use std::io::Read;
 use std::path::Path;
+use std::sync::OnceLock;
 use regex::Regex;
 use crate::errors::KissXmlError;
 
@@ -725,11 +725,10 @@ fn strip_tag(tag: &str) -> String {
 
 
 /// singleton regex matcher
-const ELEM_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static ELEM_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// checks if a tag has valid syntax for an element (does not parse)
 fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
-	let singleton = ELEM_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(||{
+	let matcher = ELEM_MATCHER_SINGLETON.get_or_init(||{
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
@@ -863,13 +862,12 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 
 
 /// singleton regex matcher
-const IS_BLANK_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static IS_BLANK_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// extracts the actual text from a string slice,
 /// returning None if it is all whitespace
 fn real_text(text: &str) -> Option<String> {
 	// check for empty string
-	let singleton = IS_BLANK_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+	let matcher = IS_BLANK_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
 	if matcher.is_match(text) {
 		return None;
 	}
-- 
2.43.0


From aee212e74c256d02234c77a8235615c71c8b66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 02/28] fix: unescape no longer panics on or skips escapes
 around multi-byte characters

---
 src/lib.rs | 89 +++++++++++++++++++-----------------------------------
 1 file changed, 31 insertions(+), 58 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 37f58f9..0033b79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -277,59 +277,40 @@ pub fn escape(text: impl Into<String>) -> String {
 /// to regenerate the original text, eg replacing "&amp;amp;" with "&" and "&amp;lt;"
 /// with "<"
 pub fn unescape(text: impl Into<String>) -> String {
-	let mut buffer: String = text.into();
-	let mut last_i: usize = 0;
-	loop {
-		if last_i >= buffer.len(){break;}
-		match (&buffer[last_i..]).find("&") {
-			None => break,
-			Some(i) => {
-				let i = i+last_i;
-				let start = i;
-				let slice = (&buffer[i..]).to_string();
-				let mut char_size: usize = 1;
-				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
-					if k == ';' {
-						let end = i + j + 1;
-						let slice = &slice[..j];
-						// note: trailing ; omitted from this slice
-						if slice == "&amp" {
-							string_insert(&mut buffer, (start, end), "&");
-						}
-						if slice == "&lt" {
-							string_insert(&mut buffer, (start, end), "<");
-						}
-						if slice == "&gt" {
-							string_insert(&mut buffer, (start, end), ">");
-						}
-						if slice == "&apos" {
-							string_insert(&mut buffer, (start, end), "'");
-						}
-						if slice == "&quot" {
-							string_insert(&mut buffer, (start, end), "\"");
-						}
-						if slice.starts_with("&#") {
-							match u32::from_str_radix(&slice[2..], 16) {
-								Ok(codepoint) => {
-									match char::from_u32(codepoint) {
-										Some(unicode) => {
-											let unicode_str = unicode.to_string();
-											string_insert(&mut buffer, (start, end), unicode_str.as_str());
-											char_size = unicode.len_utf8();
-										},
-										None => { /* do nothing */ }
-									}
-								}
-								Err(_) => { /* do nothing */ }
-							}
-						}
-					}
-				}
-				last_i = i+char_size;
+	let text: String = text.into();
+	let mut buffer = String::with_capacity(text.len());
+	let mut rest = text.as_str();
+	// single pass, left to right: the result of a replacement is never scanned again
+	while let Some(i) = rest.find("&") {
+		buffer.push_str(&rest[..i]);
+		rest = &rest[i..];
+		// a reference ends at the first ';' (an unescaped & starts a new one)
+		let end = match rest[1..].find(&[';', '&']) {
+			Some(j) if rest[1+j..].starts_with(";") => j + 1,
+			_ => {
+				buffer.push_str("&");
+				rest = &rest[1..];
+				continue;
 			}
+		};
+		// note: trailing ; omitted from this slice
+		let replacement = match &rest[..end] {
+			"&amp" => Some('&'),
+			"&lt" => Some('<'),
+			"&gt" => Some('>'),
+			"&apos" => Some('\''),
+			"&quot" => Some('"'),
+			slice if slice.starts_with("&#") => u32::from_str_radix(&slice[2..], 16).ok()
+				.and_then(char::from_u32),
+			_ => None
+		};
+		match replacement {
+			Some(c) => buffer.push(c),
+			None => buffer.push_str(&rest[..end+1]) // not a known escape, keep as-is
 		}
+		rest = &rest[end+1..];
 	}
+	buffer.push_str(rest);
 	buffer
 }
 
@@ -350,14 +331,6 @@ pub(crate) fn attribute_order(kv_tup1: &(&String, &String), kv_tup2: &(&String,
 	}
 }
 
-/// replaces indices (a, b) in given string with a new string (in-place)
-fn string_insert(buffer: &mut String, indices: (usize, usize), insert: &str) {
-	let back = (&buffer[indices.1..]).to_string();
-	buffer.truncate(indices.0);
-	buffer.push_str(insert);
-	buffer.push_str(back.as_str());
-}
-
 /** Reads the file from the given filepath and parses it as an XML document
 */
 pub fn parse_filepath(path: impl AsRef<Path>) -> Result<dom::Document, errors::KissXmlError> {
-- 
2.43.0


From 10d2b5a5ece29103c1b21df50ce83879bf8753e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 03/28] fix: unescape the standard &#x...; form of character
 references

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0033b79..3d2a6a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -300,8 +300,15 @@ pub fn unescape(text: impl Into<String>) -> String {
 			"&gt" => Some('>'),
 			"&apos" => Some('\''),
 			"&quot" => Some('"'),
-			slice if slice.starts_with("&#") => u32::from_str_radix(&slice[2..], 16).ok()
-				.and_then(char::from_u32),
+			slice if slice.starts_with("&#") => {
+				// hexadecimal code point, with or without the XML standard 'x' marker
+				let digits = &slice[2..];
+				let digits = digits.strip_prefix("x").unwrap_or(digits);
+				match digits.chars().all(|c| c.is_ascii_hexdigit()) {
+					true => u32::from_str_radix(digits, 16).ok().and_then(char::from_u32),
+					false => None
+				}
+			},
 			_ => None
 		};
 		match replacement {
-- 
2.43.0


From 4cf2739d48aa8f9290920ea4eba7421bfc7360db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 04/28] fix: abbreviating multi-byte text for a message no
 longer panics

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d2a6a6..76053e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -583,12 +583,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
-	if limit < 4 || text.len() <= limit {
+	let char_count = text.chars().count();
+	if limit < 4 || char_count <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		let mut buffer: String = text.chars().take(limit / 2 - 1).collect();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.extend(text.chars().skip(char_count - limit / 2));
 		buffer
 	}
 }
-- 
2.43.0


From d1c74b11496c5feb24d89b5d3f0611ec74863166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 05/28] fix: Declaration::from_str rejects "<?>" instead of
 panicking

---
 src/dom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 4e46636..d19e83b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2034,8 +2034,9 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
-			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
+		// note: the opening <? and closing ?> may not overlap (eg "<?>")
+		if let Some(content) = buffer.strip_prefix("<?").and_then(|s| s.strip_suffix("?>")) {
+			Ok(Self{decl_str: content.to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
 		}
-- 
2.43.0


From f218f4b4469d4d9f8e9c2e72b6b8f71fc6c11d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 06/28] fix: write document type declarations out with their
 <!DOCTYPE ...> markup

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index d19e83b..359de18 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2088,6 +2088,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From c6e74fd1998989466706d5f35ae98fc4a7cdbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 07/28] fix: comments whose content starts with '>' or '->' are
 parsed

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76053e4..3b25fe2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -735,8 +735,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	// the rules differ depending on the kind of tag
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
-		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// comment (the closing --> may not overlap the opening <!--)
+		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 8dfc42ecde527a5d51b05fd86a0c017d9382b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 08/28] fix: a second root element is an error, also when the
 first was not self-closing

---
 src/lib.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b25fe2..eefe7a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -432,8 +432,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	let root_slice = &buffer[tag_span.0 .. tag_span.1];
 	let root_element: dom::Element = parse_new_element(strip_tag(root_slice).as_str(), &buffer, &tag_span, None)?;
 	parse_stack.push(root_element);
-	let selfclosing_root = root_slice.ends_with("/>");
-	if selfclosing_root {parse_stack.pop()?;}  // pop root if it is  self-closing
+	if root_slice.ends_with("/>") {parse_stack.pop()?;}  // pop root if it is  self-closing
 	let mut last_span: (usize, usize);
 	loop {
 		// find next tag
@@ -449,13 +448,6 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
-				// next tag not allowed
-				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
-				return Err(errors::ParsingError::new(format!(
-					"only 1 root element is allowed (syntax error on line {line}, column {col})"
-				)).into());
-			}
 			last_span = tag_span;
 			tag_span = (next_span.0.unwrap(), next_span.1.unwrap());
 		}
@@ -477,6 +469,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		};
 		// parse span
 		let slice = &buffer[tag_span.0 .. tag_span.1];
+		if parse_stack.empty_stack() && !slice.starts_with("</") {
+			// root already closed, next tag not allowed
+			let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
+			return Err(errors::ParsingError::new(format!(
+				"only 1 root element is allowed (syntax error on line {line}, column {col})"
+			)).into());
+		}
 		if slice.starts_with("<!--") && slice.ends_with("-->") {
 			// comment
 			let begin = 4;
-- 
2.43.0


From 3afebc780ba42a61cd3a30413ae7a572bab6fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 09/28] fix: text after the root element is an error instead of
 being dropped

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index eefe7a1..6c558a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			"root element not closed"
 		)).into());
 	}
+	// check that nothing but whitespace follows the last tag
+	if real_text(&buffer[tag_span.1..]).is_some() {
+		let (line, col) = line_and_column(&buffer, tag_span.1);
+		return Err(errors::ParsingError::new(format!(
+			"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+		)).into());
+	}
 	// return a DOM document
 	Ok(dom::Document::new_with_decl_dtd(
 		parse_stack.to_dom()?,
-- 
2.43.0


From 60e5e8adf89c87aaf640fef65755153daaba700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 10/28] fix: comments after the root element are ignored like
 those before it

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6c558a4..56f43bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -469,6 +469,14 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		};
 		// parse span
 		let slice = &buffer[tag_span.0 .. tag_span.1];
+		if parse_stack.empty_stack() && slice.starts_with("<!--") {
+			// comments outside root element not supported
+			if no_comment_warn == 0 {
+				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+			}
+			no_comment_warn += 1;
+			continue;
+		}
 		if parse_stack.empty_stack() && !slice.starts_with("</") {
 			// root already closed, next tag not allowed
 			let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
-- 
2.43.0


From d94ccd81056841f88671854f1672f1e273fbf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 11/28] fix: <?xml-stylesheet ...?> no longer replaces the XML
 declaration

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56f43bc..8a3500d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -387,8 +387,8 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		}
 		let slice = &buffer[tag_start..tag_end];
-		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+		if slice.starts_with("<?xml") && slice[5..].starts_with(|c: char| c.is_whitespace() || c == '?') {
+			if tag_span.1 != 0 {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
@@ -405,7 +405,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			// DTD
 			let dtd = dom::DTD::from_string(slice)?;
 			dtds.push(dtd);
-		} else if slice.starts_with("<!"){
+		} else if slice.starts_with("<!") || slice.starts_with("<?") {
 			// some other XML mallarky
 			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
 		} else if slice.starts_with("</") {
-- 
2.43.0


From f700e35505dedef5ff2b12c2d32f3492960f0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 12/28] fix: match the whole tag when checking its syntax
 (spaced attributes accepted, unseparated ones rejected)

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a3500d..3631fc0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -727,7 +727,9 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let name = format!("{name_start_char}{name_char}*");
+		let attribute = format!(r#"{name}\s*=\s*("[^"]*"|'[^']*')"#);
+		let pattern = format!(r#"^(<{name}(\s+{attribute})*\s*/?>|</{name}\s*>)$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From edb905f76fc1cbdab922ab73631d449e0ee388f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 13/28] fix: an attribute given twice in one tag is an error
 instead of losing a value

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3631fc0..b647480 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -648,7 +648,12 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 			)).into());
 		}
 		v = &v[1..(v.len()-1)]; // remove quotes
-		attrs.insert(k.to_string(), unescape(v.to_string()));
+		if attrs.insert(k.to_string(), unescape(v.to_string())).is_some() {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: attribute '{k}' is specified more than once"
+			)).into());
+		}
 	}
 	// parse name and namespace
 	let mut name = components[0].as_str();
-- 
2.43.0


From 1f544b97c2259ac799e1ad166175363ec27b8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 14/28] fix: element and attribute names follow the XML name
 rules, so that no accepted name breaks the markup

---
 src/dom.rs |  4 ++--
 src/lib.rs | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 359de18..fd488dc 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -984,7 +984,7 @@ impl Element {
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let checker = ATTR_NAME_CHECKER_SINGLETON.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(format!("^{}$", crate::name_pattern()).as_str()).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -995,7 +995,7 @@ impl Element {
 	/// Checks if an attribute name is valid
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let checker = NAME_CHECKER_SINGLETON.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(format!("^{}$", crate::name_pattern()).as_str()).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
diff --git a/src/lib.rs b/src/lib.rs
index b647480..f5ec849 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -724,15 +724,21 @@ fn strip_tag(tag: &str) -> String {
 }
 
 
+/// regex pattern for a valid XML name
+pub(crate) fn name_pattern() -> String {
+	// see https://www.w3.org/TR/REC-xml/#sec-common-syn (except that : may not come first, see
+	// https://www.w3.org/TR/xml-names/)
+	let name_start_char = r#"[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
+	let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
+	format!("{name_start_char}{name_char}*")
+}
+
 /// singleton regex matcher
 static ELEM_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// checks if a tag has valid syntax for an element (does not parse)
 fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 	let matcher = ELEM_MATCHER_SINGLETON.get_or_init(||{
-		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
-		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
-		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let name = format!("{name_start_char}{name_char}*");
+		let name = name_pattern();
 		let attribute = format!(r#"{name}\s*=\s*("[^"]*"|'[^']*')"#);
 		let pattern = format!(r#"^(<{name}(\s+{attribute})*\s*/?>|</{name}\s*>)$"#);
 		Regex::new(pattern.as_str()).unwrap()
-- 
2.43.0


From 8d0d9178f7289fb5a47093edd7af98c2f0c2cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 15/28] fix: reject a namespace prefix that is not a valid name

---
 src/dom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index fd488dc..fbb87ef 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -447,6 +447,9 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		if let Some(prefix) = &xmlns_prefix {
+			Element::check_elem_name(prefix.as_str())?;
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
-- 
2.43.0


From caccf7808fd1e0b9b13b68f3aa0a05ee8887093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 16/28] fix: empty text is discarded like whitespace-only text,
 as it cannot be written to XML

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index fbb87ef..c5157b0 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1657,7 +1657,7 @@ impl Text {
 
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
-		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
-- 
2.43.0


From cd706748bad039d4854ce5c965e843edd5e14964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 17/28] fix: only XML whitespace is insignificant, a no-break
 space is content

---
 src/dom.rs | 2 +-
 src/lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c5157b0..3bc66a4 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1657,7 +1657,7 @@ impl Text {
 
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
-		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index f5ec849..19745f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -875,7 +875,7 @@ static IS_BLANK_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// returning None if it is all whitespace
 fn real_text(text: &str) -> Option<String> {
 	// check for empty string
-	let matcher = IS_BLANK_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+	let matcher = IS_BLANK_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 	if matcher.is_match(text) {
 		return None;
 	}
-- 
2.43.0


From 46f2825ae66b00e598ca76ab6fe1cc6574668f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 18/28] fix: whitespace between the children of mixed content
 is preserved on parse

---
 src/dom.rs     | 32 +++++++++++++++++---------------
 src/lib.rs     |  7 ++++++-
 src/parsing.rs |  6 +++---
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 3bc66a4..a880716 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -844,9 +844,14 @@ impl Element {
 			};
 		}
 	}
-	/** flips the order of child nodes (non-recursive) */
-	pub(crate) fn reverse_children(&mut self) {
+	/** adds an already initialized child node as-is (call `finish_children()` after the last one) */
+	pub(crate) fn push_parsed_child(&mut self, node: Box<dyn Node>) {
+		self.child_nodes.push(node);
+	}
+	/** flips the order of child nodes and cleans-up the text nodes (non-recursive) */
+	pub(crate) fn finish_children(&mut self) {
 		self.child_nodes.reverse();
+		self.cleanup_text_nodes();
 	}
 	/** Returns a list of al child elements as an iterator */
 	pub fn child_elements(&self) ->  impl Iterator<Item = &Element>{
@@ -1190,7 +1195,7 @@ impl Element {
 			Some(xmlns_context)
 		);
 	}
-	/** Discards merges sequential text nodes and then whitespace-only text nodes */
+	/** Merges sequential text nodes and then discards whitespace-only text nodes (if there is no other text) */
 	fn cleanup_text_nodes(&mut self) {
 		// check if there are children
 		if self.child_nodes.len() == 0 {return;}
@@ -1207,18 +1212,15 @@ impl Element {
 			}
 			index -= 1;
 		}
-		// remove text nodes that are whitespace
-		assert!(self.child_nodes.len() > 0, "logic error: self.child_nodes should never be empty here!");
-		let mut index = self.child_nodes.len() - 1;
-		loop {
-			if self.child_nodes[index].is_text()
-				&& self.child_nodes[index]
-				.as_text().expect("logic error").is_whitespace() {
-				self.child_nodes.remove(index);
-			}
-			if index == 0 {break;}
-			index = index.wrapping_sub(1);
-		}
+		// remove text nodes that are whitespace, unless they are part of mixed content
+		let has_text = self.child_nodes.iter().any(
+			|n| n.is_text() && !n.as_text().expect("logic error").is_whitespace()
+		);
+		self.child_nodes.retain(|n| {
+			if !n.is_text() {return true;}
+			let text = n.as_text().expect("logic error");
+			!text.content.is_empty() && (has_text || !text.is_whitespace())
+		});
 		// Done.
 	}
 	/**
diff --git a/src/lib.rs b/src/lib.rs
index 19745f2..2b8ea35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,7 +456,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 		// if text is not empty, add text node
 		match real_text(text) {
-			None => {},
+			None => {
+				// whitespace, only kept if the element turns out to contain text
+				if !text.is_empty() && !parse_stack.empty_stack() {
+					parse_stack.append(dom::Text::new(text))?;
+				}
+			},
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
diff --git a/src/parsing.rs b/src/parsing.rs
index 737ddb7..970bc8c 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -108,12 +108,12 @@ impl ParseTree {
 			let mut node = self.data.remove(&i).expect("logic error: missing index");
 			if node.value.is_element() {
 				// flip the children of element
-				node.value.as_element_mut().unwrap().reverse_children()
+				node.value.as_element_mut().unwrap().finish_children()
 			}
 			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
 			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
 				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.append_boxed(node.value);
+				.push_parsed_child(node.value);
 		}
 		let root_node = self.data.remove(&0).expect("logic error: no root element");
 		let mut root = root_node.destruct();
@@ -122,7 +122,7 @@ impl ParseTree {
 		// 	.expect("logic error: root is not an element"));
 		let e = root.as_element_mut().expect("logic error: root is not an element");
 		// flip children because they were added in reverse order
-		e.reverse_children();
+		e.finish_children();
 		// done
 		// use mem::take to do a "DerefMove" operation
 		return Ok(std::mem::take(e));
-- 
2.43.0


From fa4e99680624db5944646f510b85dd50bdae3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 19/28] fix: namespaces follow the xmlns scoping rules (xmlns
 arguments are written out; insert, nested and later changed definitions
 apply)

---
 src/dom.rs | 138 +++++++++++++++++++++--------------------------------
 src/lib.rs |  34 +++++--------
 2 files changed, 67 insertions(+), 105 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index a880716..4be36ea 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -422,8 +422,11 @@ pub struct Element {
 	xmlns: Option<String>,
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
-	/// xmlns definitions for this element, if any
-	xmlns_context: HashMap<String, String>
+	/// xmlns definitions in scope for this element (its own and those inherited from its parents), the
+	/// default namespace (if any) has the prefix ""
+	xmlns_context: HashMap<String, String>,
+	/// xmlns definitions inherited from the parents of this element
+	inherited_xmlns_context: HashMap<String, String>
 }
 
 impl Element {
@@ -462,35 +465,24 @@ impl Element {
 				}
 			}
 		}
-		// xmlns check
-		let mut xmlns = xmlns;
-		if xmlns.is_none() {
+		// the xmlns argument overrides the xmlns definition in the attributes
+		if let Some(ns) = xmlns {
 			match &xmlns_prefix {
-				None => {
-					// default xmlns
-					xmlns = match attrs.get("xmlns"){
-						None => None,
-						Some(ns) => Some(ns.to_string())
-					}
-				},
-				Some(prefix) => {
-					// prefixed xmlns
-					xmlns = match attrs.get(&format!("xmlns:{prefix}")){
-						None => None,
-						Some(ns) => Some(ns.to_string())
-					}
-				}
+				None => attrs.insert("xmlns".to_string(), ns),
+				Some(prefix) => attrs.insert(format!("xmlns:{prefix}"), ns)
 			};
 		}
 		// set the XML NS from the attributes and provided args
 		let mut elem = Self {
 			name: name,
 			child_nodes: Vec::new(),
-			xmlns_context: Element::xmlns_context_from_attributes(&attrs),
 			attributes: attrs,
-			xmlns: xmlns.map(|s| s.to_string()),
-			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
+			xmlns: None,
+			xmlns_prefix: xmlns_prefix,
+			xmlns_context: HashMap::new(),
+			inherited_xmlns_context: HashMap::new()
 		};
+		elem.refresh_namespaces();
 		// finally, add children
 		// (using the append*(...) functions in case of default namespace inheritance)
 		match text {
@@ -607,7 +599,7 @@ impl Element {
 		Self::new(name, None, Option::<HashMap<String,String>>::None, None, None, Some(children))
 	}
 	/** checks the element's attributes for xmlns definitions
-	Note that the default xmlns (if present) is saved as prefix ""
+	Note that the default xmlns is not included
 	# Args
 	* attrs - kay=value pairs for the element
 	 */
@@ -620,7 +612,9 @@ impl Element {
 				let split: Vec<&str> = key.splitn(2, ":").collect();
 				let prefix = split[1].to_string();
 				let ns = v.clone();
-				prefixes.insert(prefix, ns);
+				if !prefix.is_empty() {
+					prefixes.insert(prefix, ns);
+				}
 			}
 		}
 		return prefixes;
@@ -808,40 +802,29 @@ impl Element {
 			Some(prefixes)
 		}
 	}
-	/** Gets any and all xmlns prefixes relevant to this element. This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
-	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
-		// inherit default namespace unless this element also defines one
-		match self.xmlns_prefix {
-			None => {
-				match self.default_namespace() {
-					None => self.xmlns = parent_default_namespace,
-					Some(_) => {/* do nothing */}
-				}
-			}
-			Some(_) => {/* do nothing */}
+	/** Gets any and all xmlns definitions relevant to this element (the default namespace has the prefix ""). This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
+	pub(crate) fn get_namespace_context(&self) -> &HashMap<String, String> {&self.xmlns_context}
+	/** Sets any and all xmlns definitions this element should inherit, ie the namespace context of its parent. */
+	pub(crate) fn set_namespace_context(&mut self, parent_context: &HashMap<String, String>) {
+		if &self.inherited_xmlns_context != parent_context {
+			self.inherited_xmlns_context = parent_context.clone();
+			self.refresh_namespaces();
 		}
-		// add prefixed namespaces (except where already defined locally)
-		match parent_prefixes {
-			None => {}
-			Some(prefixes) => {
-				for (prefix, ns) in prefixes {
-					if ! self.xmlns_context.contains_key(prefix.as_str()) {
-						let _ = &self.xmlns_context.insert(prefix, ns);
-					}
-				}
-			}
+	}
+	/** Updates the namespace of this element and its children from their attributes and the inherited xmlns definitions */
+	fn refresh_namespaces(&mut self) {
+		// own definitions override the inherited ones
+		self.xmlns_context = self.inherited_xmlns_context.clone();
+		self.xmlns_context.extend(Self::xmlns_context_from_attributes(&self.attributes));
+		match self.attributes.get("xmlns").map(String::as_str) {
+			None => {},
+			Some("") => {self.xmlns_context.remove("");}, // xmlns="" means no default namespace
+			Some(ns) => {self.xmlns_context.insert(String::new(), ns.to_string());}
 		}
-		// set this namespace if a prefix was specified without xmlns def attribute
-		if self.xmlns.is_none() {
-			match &self.xmlns_prefix {
-				None => {}
-				Some(prefix) => {
-					// get prefix namespace from context
-					self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
-				}
-			};
+		let prefix = self.xmlns_prefix.as_ref().map(String::as_str).unwrap_or("");
+		self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
+		for child in self.child_nodes.iter_mut() {
+			Self::apply_xmlns_context_to_child_node(&self.xmlns_context, child);
 		}
 	}
 	/** adds an already initialized child node as-is (call `finish_children()` after the last one) */
@@ -984,7 +967,9 @@ impl Element {
 		let n: String = attr_name.into();
 		Element::check_attr_name(n.as_str())?;
 		let v: String = value.into();
+		let is_xmlns = n.starts_with("xmlns");
 		self.attributes.insert(n, v);
+		if is_xmlns {self.refresh_namespaces();}
 		Ok(())
 	}
 
@@ -1014,11 +999,14 @@ impl Element {
 	/** Deletes an attribute from this element */
 	pub fn remove_attr(&mut self, attr_name: impl Into<String>) -> Option<String> {
 		let n: String = attr_name.into();
-		self.attributes.remove(&n)
+		let removed = self.attributes.remove(&n);
+		if removed.is_some() && n.starts_with("xmlns") {self.refresh_namespaces();}
+		removed
 	}
 	/** Deletes all attributes from this element */
 	pub fn clear_attributes(&mut self) {
-		self.attributes.clear()
+		self.attributes.clear();
+		self.refresh_namespaces();
 	}
 	/**
 	Performs a recursive search of all child nodes of this element (and all children of child elements, etc), returning an iterator of all nodes matching the given predicate.
@@ -1172,29 +1160,17 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(&self.xmlns_context, &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
 	}
-	/** Applies this element's context to the given child */
-	fn apply_xmlns_context_to_child_node(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
-		let is_element = node.is_element();
-		if is_element {
-			Self::apply_xmlns_context_to_child_element(
-				df_xmlns, xmlns_context,
-				node.as_element_mut().expect("logic error")
-			);
+	/** Applies this element's xmlns context to the given child (if it is an element) */
+	fn apply_xmlns_context_to_child_node(xmlns_context: &HashMap<String, String>, node: &mut Box<dyn Node>) {
+		if node.is_element() {
+			node.as_element_mut().expect("logic error").set_namespace_context(xmlns_context);
 		}
 	}
-	/** Applies the default xmlns and prefixed xmlns context to the given child */
-	fn apply_xmlns_context_to_child_element(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, child: &mut Element) {
-		// update xmlns prefix context if we just added an element
-		child.set_namespace_context(
-			df_xmlns,
-			Some(xmlns_context)
-		);
-	}
 	/** Merges sequential text nodes and then discards whitespace-only text nodes (if there is no other text) */
 	fn cleanup_text_nodes(&mut self) {
 		// check if there are children
@@ -1263,10 +1239,7 @@ impl Element {
 		}
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
-			Self::apply_xmlns_context_to_child_node(
-				self.default_namespace(), self.xmlns_context.clone(),
-			&mut self.child_nodes[i]
-			);
+			Self::apply_xmlns_context_to_child_node(&self.xmlns_context, &mut self.child_nodes[i]);
 		}
 		// clean-up text nodes
 		self.cleanup_text_nodes();
@@ -1280,10 +1253,7 @@ impl Element {
 		}
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
-		Self::apply_xmlns_context_to_child_node(
-			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
-		);
+		Self::apply_xmlns_context_to_child_node(&self.xmlns_context, &mut self.child_nodes[index]);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
 		// done
@@ -1572,6 +1542,7 @@ impl Clone for Element {
 			xmlns: self.xmlns.clone(),
 			xmlns_prefix: self.xmlns_prefix.clone(),
 			xmlns_context: self.xmlns_context.clone(),
+			inherited_xmlns_context: self.inherited_xmlns_context.clone(),
 		}
 	}
 }
@@ -1585,6 +1556,7 @@ impl Default for Element {
 			xmlns: None,
 			xmlns_prefix: None,
 			xmlns_context: HashMap::new(),
+			inherited_xmlns_context: HashMap::new(),
 		}
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 2b8ea35..1ff9d4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,36 +662,26 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	}
 	// parse name and namespace
 	let mut name = components[0].as_str();
-	let mut xmlns: Option<String> = None;
 	let mut xmlns_prefix: Option<String> = None;
-	// check parent for inherited namespaces
-	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
-		None => (None, None),
-		Some(parent) => (parent.default_namespace(), Some(parent.get_namespace_context()))
-	};
 	if name.contains(":"){
 		let (a, b) = name.split_once(":").unwrap();
 		name = b;
 		xmlns_prefix = Some(a.to_string());
-		// check if the prefix is in attributes or inherited from parent
-		let prefix_key = format!("xmlns:{a}");
-		xmlns = match attrs.contains_key(&prefix_key){
-			true => attrs.get(prefix_key.as_str()).map(String::clone),
-			false => match &inherited_xmlns_context{
-				None => {
-					let (line, col) = line_and_column(&buffer, tag_span.0);
-					return Err(errors::ParsingError::new(format!(
-						"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
-					)).into());
-				}
-				Some(ctx) => {ctx.get(prefix_key.as_str()).map(String::clone)}
-			}
-		};
+		// check if the prefix is in attributes or may be inherited from parent
+		if parent.is_none() && !attrs.contains_key(&format!("xmlns:{a}")) {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
+			)).into());
+		}
 	}
 	let mut new_element = dom::Element::new(
-		name, None, Some(attrs), xmlns, xmlns_prefix, None
+		name, None, Some(attrs), None, xmlns_prefix, None
 	)?;
-	new_element.set_namespace_context(inherited_default_namespace, inherited_xmlns_context);
+	// inherit the namespaces in scope for the parent
+	if let Some(parent) = parent {
+		new_element.set_namespace_context(parent.get_namespace_context());
+	}
 	Ok(new_element)
 }
 
-- 
2.43.0


From 7fc05fae617bcae45d83dfea98b6279fdb269411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 20/28] fix: quotes and brackets in comments and processing
 instructions of a DTD do not hide its end

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ff9d4a..96dbfb7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -833,12 +833,15 @@ fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
 	None
 }
 
-/// like `quote_aware_find()` above, but the pattern is '>' and it skips both quoted content and nested <tags>
+/// like `quote_aware_find()` above, but the pattern is '>' and it skips quoted content, nested <tags>, comments,
+/// and processing instructions
 fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut skip_to = from;
 	for (i, c) in text[from..].char_indices() {
+		if from+i < skip_to {continue;}
 		if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
@@ -851,7 +854,14 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 				quote_char = '\'';
 				in_quote = true;
 			} else if c == '<' {
-				depth += 1;
+				let nested = &text[from+i..];
+				if nested.starts_with("<!--") {
+					skip_to = from+i + 4 + nested[4..].find("-->")? + 3;
+				} else if nested.starts_with("<?") {
+					skip_to = from+i + 2 + nested[2..].find("?>")? + 2;
+				} else {
+					depth += 1;
+				}
 			} else if c == '>' {
 				if depth == 0 {
 					return Some(from+i)
-- 
2.43.0


From ef258e3c2679246a3ac606c1ff10b590881e60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 21/28] fix: quotes in a processing instruction do not hide its
 end

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 96dbfb7..b35570c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -760,8 +760,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 		// comment (the closing --> may not overlap the opening <!--)
 		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
-		// declaration, look for ?> but handle quoting
-		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
+		// declaration or processing instruction, always ends at the first ?>
+		return (start, sub_buffer[2..].find("?>").map(|i|i+start_index+2+2))
 	} else if sub_buffer.starts_with("<![CDATA[") {
 		// CDATA
 		return (start, sub_buffer.find("]]>").map(|i|i+start_index+3));
-- 
2.43.0


From 01e953db19cecdae09f19ba7690c7ac862536389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 22/28] fix: a leading byte order mark is not text

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b35570c..cc4063e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -359,7 +359,11 @@ pub fn parse_stream(mut reader: impl Read) -> Result<dom::Document, errors::Kiss
 /** Reads the XML content from the UTF-8 encoded text string and parses it as an XML document
  */
 pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors::KissXmlError> {
-	let buffer = xml_string.into();
+	let mut buffer = xml_string.into();
+	if buffer.starts_with('\u{FEFF}') {
+		// byte order mark, not part of the document
+		buffer.remove(0);
+	}
 	let mut decl: Option<dom::Declaration> = None;
 	let mut dtds: Vec<dom::DTD> = Vec::new();
 	let mut no_comment_warn = 0;
-- 
2.43.0


From 7e0d44d7723163a99dcb28decc4eff2a49697216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 23/28] fix: columns in error messages count from 1

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cc4063e..25258d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -897,12 +897,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0


From 84edfd807504cbc329acdfde6216d5b4d2c3bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 24/28] fix: dropping a deeply nested element no longer
 overflows the stack

---
 src/dom.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 4be36ea..46f3bd8 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -499,10 +499,9 @@ impl Element {
 	pub fn new_from_name(name: &str) -> Result<Self, KissXmlError> {
 		// sanity check
 		Element::check_elem_name(name)?;
-		Ok(Self {
-			name: name.to_string(),
-			..Default::default()
-		})
+		let mut elem = Self::default();
+		elem.name = name.to_string();
+		Ok(elem)
 	}
 	/** Creates a new Element with the specified name and attributes.
 	# Example
@@ -1561,6 +1560,18 @@ impl Default for Element {
 	}
 }
 
+impl Drop for Element {
+	fn drop(&mut self) {
+		// drop the descendants one by one, as recursion could overflow the stack
+		let mut nodes = std::mem::take(&mut self.child_nodes);
+		while let Some(mut node) = nodes.pop() {
+			if node.is_element() {
+				nodes.append(&mut node.as_element_mut().expect("logic error").child_nodes);
+			}
+		}
+	}
+}
+
 impl PartialOrd for Element {
 	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
 		self.name.partial_cmp(&other.name)
-- 
2.43.0


From 2d117710bf16044542d53eb35163157a40db621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 25/28] fix: decimal character references are unescaped as
 decimal

---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 25258d4..a14ad3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -301,11 +301,16 @@ pub fn unescape(text: impl Into<String>) -> String {
 			"&apos" => Some('\''),
 			"&quot" => Some('"'),
 			slice if slice.starts_with("&#") => {
-				// hexadecimal code point, with or without the XML standard 'x' marker
+				// decimal code point, or hexadecimal code point (the XML standard 'x' marker is not required
+				// if the code point cannot be decimal)
 				let digits = &slice[2..];
-				let digits = digits.strip_prefix("x").unwrap_or(digits);
-				match digits.chars().all(|c| c.is_ascii_hexdigit()) {
-					true => u32::from_str_radix(digits, 16).ok().and_then(char::from_u32),
+				let (digits, radix) = match digits.strip_prefix("x") {
+					Some(hex_digits) => (hex_digits, 16),
+					None if digits.chars().all(|c| c.is_ascii_digit()) => (digits, 10),
+					None => (digits, 16)
+				};
+				match digits.chars().all(|c| c.is_digit(radix)) {
+					true => u32::from_str_radix(digits, radix).ok().and_then(char::from_u32),
 					false => None
 				}
 			},
-- 
2.43.0


From f1284238b9d2b73da843e1546c7016d79063e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 26/28] fix: only XML whitespace separates the parts of a tag,
 as an Ogham space mark can be part of a name

---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a14ad3a..f55ce67 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -717,6 +717,11 @@ fn join_spaced_attributes(split_components: Vec<String>) -> Vec<String> {
 	result
 }
 
+/// white space according to the XML standard (some other Unicode white space may be part of a name)
+fn is_xml_whitespace(c: char) -> bool {
+	matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
 /// removes leading and trailing <> and/or /
 fn strip_tag(tag: &str) -> String {
 	let mut tag = tag;
@@ -724,7 +729,7 @@ fn strip_tag(tag: &str) -> String {
 	if tag.starts_with("/") {tag = &tag[1..];}
 	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}
 	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}
-	tag.trim().to_string()
+	tag.trim_matches(is_xml_whitespace).to_string()
 }
 
 
@@ -743,8 +748,8 @@ static ELEM_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 	let matcher = ELEM_MATCHER_SINGLETON.get_or_init(||{
 		let name = name_pattern();
-		let attribute = format!(r#"{name}\s*=\s*("[^"]*"|'[^']*')"#);
-		let pattern = format!(r#"^(<{name}(\s+{attribute})*\s*/?>|</{name}\s*>)$"#);
+		let attribute = format!(r#"{name}[ \t\r\n]*=[ \t\r\n]*("[^"]*"|'[^']*')"#);
+		let pattern = format!(r#"^(<{name}([ \t\r\n]+{attribute})*[ \t\r\n]*/?>|</{name}[ \t\r\n]*>)$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
@@ -802,7 +807,7 @@ fn quote_aware_split(text: &str) -> Vec<String> {
 				// end of quoted text
 				in_quote = false;
 			}
-		} else if c.is_whitespace() {
+		} else if is_xml_whitespace(c) {
 			// break on whitespace
 			if builder.len() > 0 {
 				vec.push(builder);
-- 
2.43.0


From 714541caf4717695f3b8e9ac9ba66feea77f818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 27/28] fix: a warning that cannot be printed to standard error
 made parsing and writing panic

---
 src/dom.rs |  4 ++--
 src/lib.rs | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 46f3bd8..1f65e55 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -130,7 +130,7 @@ Produces the XML text representing this XML DOM using the default indent of two
 		match crate::validate_indent(indent.as_str()){
 			Ok(_) => {},
 			Err(_) => {
-				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
+				crate::warn(format_args!("{:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent));
 				indent = "  ".to_string();
 			}
 		};
@@ -1517,7 +1517,7 @@ impl Node for Element {
 		match crate::validate_indent(indent){
 			Ok(_) => self.to_string_with_prefix_and_indent("", indent, false),
 			Err(_) => {
-				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
+				crate::warn(format_args!("{:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent));
 				self.to_string_with_prefix_and_indent("", "  ", false)
 			}
 		}
diff --git a/src/lib.rs b/src/lib.rs
index f55ce67..1fe58af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,7 +407,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		} else if slice.starts_with("<!--") {
 			// comments outside root element not supported
 			if no_comment_warn == 0 {
-				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+				warn(format_args!("Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32)));
 			}
 			no_comment_warn += 1;
 		} else if slice.starts_with("<!DOCTYPE") {
@@ -416,7 +416,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			dtds.push(dtd);
 		} else if slice.starts_with("<!") || slice.starts_with("<?") {
 			// some other XML mallarky
-			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
+			warn(format_args!("Ignoring {slice} (not supported outside root element)"));
 		} else if slice.starts_with("</") {
 			// bad XML
 			let (line, col) = line_and_column(&buffer, tag_start);
@@ -486,7 +486,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		if parse_stack.empty_stack() && slice.starts_with("<!--") {
 			// comments outside root element not supported
 			if no_comment_warn == 0 {
-				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+				warn(format_args!("Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32)));
 			}
 			no_comment_warn += 1;
 			continue;
@@ -609,6 +609,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	))
 }
 
+/// prints a warning to standard error (if it cannot be printed, eg because stderr is closed, then it is
+/// lost, unlike `eprintln!(...)` which would panic)
+pub(crate) fn warn(message: std::fmt::Arguments) {
+	use std::io::Write;
+	let _ = writeln!(std::io::stderr(), "WARNING: {message}");
+}
+
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
 	let char_count = text.chars().count();
-- 
2.43.0


From c00cf0bf850d7d33b1982d46b38a84eff76ec629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 28/28] fix: warnings were printed past the capture of standard
 error that the test harness sets up

---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1fe58af..9555372 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -609,11 +609,10 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	))
 }
 
-/// prints a warning to standard error (if it cannot be printed, eg because stderr is closed, then it is
-/// lost, unlike `eprintln!(...)` which would panic)
+/// prints a warning to standard error (`eprintln!(...)` panics when it cannot print, eg because stderr is
+/// closed, in which case the warning is lost)
 pub(crate) fn warn(message: std::fmt::Arguments) {
-	use std::io::Write;
-	let _ = writeln!(std::io::stderr(), "WARNING: {message}");
+	let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eprintln!("WARNING: {message}")));
 }
 
 /// abbreviates long strings with ...
-- 
2.43.0

