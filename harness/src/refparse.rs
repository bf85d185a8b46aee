//! Strict reference parser. Verdict on any text: the tree, a definite defect, or "unspecified"
//! (not well-formed, or unusual, in a way the properties say nothing about).
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum No {
	/// definite defect (class)
	Reject(&'static str),
	/// nothing is claimed
	Unspec(&'static str),
}
use No::*;

#[derive(Clone, Copy, Default)]
pub struct Opt {
	/// comments may contain -- (but not -->), characters may be any, attribute values may contain <:
	/// used to read the library's own output back
	pub own_output: bool,
}

struct P<'a> {
	s: &'a str,
	i: usize,
	opt: Opt,
}

impl<'a> P<'a> {
	fn rest(&self) -> &'a str {
		&self.s[self.i..]
	}
	fn at(&self, t: &str) -> bool {
		self.rest().starts_with(t)
	}
	fn peek(&self) -> Option<char> {
		self.rest().chars().next()
	}
	fn ws(&mut self) -> bool {
		let a = self.i;
		while let Some(c) = self.peek() {
			if is_ws(c) {
				self.i += 1;
			} else {
				break;
			}
		}
		self.i > a
	}
	fn name(&mut self) -> &'a str {
		let r = self.rest();
		let mut end = 0;
		for (k, c) in r.char_indices() {
			let ok = if k == 0 { name_start(c) } else { c == ':' || name_char(c) };
			if !ok {
				break;
			}
			end = k + c.len_utf8();
		}
		self.i += end;
		&r[..end]
	}
	fn decode(&self, raw: &str, attr: bool) -> Result<String, No> {
		let mut o = String::with_capacity(raw.len());
		let mut r = raw;
		while let Some(c) = r.chars().next() {
			if c == '&' {
				let end = match r.find(';') {
					None => return Err(Unspec("bare ampersand")),
					Some(e) => e,
				};
				let body = &r[1..end];
				let ch = match body {
					"amp" => '&',
					"lt" => '<',
					"gt" => '>',
					"apos" => '\'',
					"quot" => '"',
					_ => {
						let (digits, radix) = if let Some(h) = body.strip_prefix("#x") {
							(h, 16)
						} else if let Some(d) = body.strip_prefix('#') {
							(d, 10)
						} else {
							return Err(Unspec("entity reference"));
						};
						if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
							return Err(Unspec("odd reference"));
						}
						match u32::from_str_radix(digits, radix).ok().and_then(char::from_u32) {
							Some(c) if xml_char(c) => c,
							_ => return Err(Unspec("reference to no character")),
						}
					}
				};
				o.push(ch);
				r = &r[end + 1..];
			} else {
				if !self.opt.own_output && !xml_char(c) {
					return Err(Unspec("illegal character"));
				}
				if attr && c == '<' && !self.opt.own_output {
					return Err(Unspec("< in attribute value"));
				}
				o.push(c);
				r = &r[c.len_utf8()..];
			}
		}
		Ok(o)
	}
	fn legal(&self, t: &str) -> Result<(), No> {
		if !self.opt.own_output && !t.chars().all(xml_char) {
			return Err(Unspec("illegal character"));
		}
		Ok(())
	}
	fn comment(&mut self) -> Result<String, No> {
		let r = &self.rest()[4..];
		match r.find("-->") {
			None => Err(Reject("unterminated comment")),
			Some(e) => {
				let t = &r[..e];
				if !self.opt.own_output && (t.contains("--") || t.ends_with('-')) {
					return Err(Unspec("-- in comment"));
				}
				self.legal(t)?;
				self.i += 4 + e + 3;
				Ok(t.to_string())
			}
		}
	}
	/// open tag at self.i; returns element, self-closing
	fn open_tag(&mut self) -> Result<(El, bool), No> {
		let tag_end_known = self.rest().contains('>');
		self.i += 1;
		let n = self.name();
		if n.is_empty() {
			return Err(Reject(if tag_end_known { "invalid element name" } else { "unterminated tag" }));
		}
		match self.peek() {
			None => return Err(Reject("unterminated tag")),
			Some(c) if is_ws(c) || c == '>' || c == '/' => {}
			Some(c) if c.is_whitespace() || c.is_control() => return Err(Unspec("odd white space")),
			Some(_) => return Err(Reject("invalid element name")),
		}
		let mut e = El::default();
		let parts: Vec<&str> = n.split(':').collect();
		match parts.len() {
			1 => e.name = n.to_string(),
			2 => {
				if !valid_name(parts[1]) {
					return Err(Unspec("odd qualified name"));
				}
				e.prefix = Some(parts[0].to_string());
				e.name = parts[1].to_string();
			}
			_ => return Err(Unspec("odd qualified name")),
		}
		let mut dup = false;
		loop {
			let spaced = self.ws();
			match self.peek() {
				None => return Err(Reject("unterminated tag")),
				Some('>') => {
					self.i += 1;
					if dup {
						return Err(Reject("repeated attribute"));
					}
					return Ok((e, false));
				}
				Some('/') => {
					if self.at("/>") {
						self.i += 2;
						if dup {
							return Err(Reject("repeated attribute"));
						}
						return Ok((e, true));
					}
					return Err(Reject("stray character in tag"));
				}
				Some('<') => return Err(Reject("stray character in tag")),
				Some(c) if c.is_whitespace() || c.is_control() => return Err(Unspec("odd white space")),
				Some(_) => {}
			}
			if !spaced {
				return Err(Reject("attributes not separated"));
			}
			let k = self.name();
			if k.is_empty() {
				return Err(Reject("invalid attribute name"));
			}
			self.ws();
			match self.peek() {
				None => return Err(Reject("unterminated tag")),
				Some('=') => self.i += 1,
				Some(c) if c.is_whitespace() || c.is_control() => return Err(Unspec("odd white space")),
				Some(_) => return Err(Reject("attribute without value")),
			}
			self.ws();
			let q = match self.peek() {
				None => return Err(Reject("unterminated tag")),
				Some(q) if q == '"' || q == '\'' => q,
				Some(c) if c.is_whitespace() || c.is_control() => return Err(Unspec("odd white space")),
				Some(_) => return Err(Reject("unquoted attribute value")),
			};
			self.i += 1;
			let end = match self.rest().find(q) {
				None => return Err(Reject("unterminated tag")),
				Some(x) => x,
			};
			let raw = &self.rest()[..end];
			let v = self.decode(raw, true)?;
			self.i += end + 1;
			if e.attrs.insert(k.to_string(), v).is_some() {
				dup = true;
			}
		}
	}
	fn dtd(&mut self) -> Result<String, No> {
		// <!DOCTYPE S name (S externalid)? S? ('[' subset ']' S?)? '>'
		let a = self.i;
		self.i += "<!DOCTYPE".len();
		let mut in_subset = false;
		let mut quote: Option<char> = None;
		let mut decl = 0;
		loop {
			let c = match self.peek() {
				None => return Err(if quote.is_some() || decl > 0 { Unspec("DTD cut short in a quote or declaration") } else { Reject("unterminated DTD") }),
				Some(c) => c,
			};
			if let Some(q) = quote {
				if c == q {
					quote = None;
				}
				self.i += c.len_utf8();
				continue;
			}
			if self.at("<!--") && in_subset {
				match self.rest()[4..].find("-->") {
					None => return Err(Unspec("DTD cut short in a comment")),
					Some(e) => self.i += 4 + e + 3,
				}
				continue;
			}
			if self.at("<?") && in_subset {
				match self.rest()[2..].find("?>") {
					None => return Err(Unspec("DTD cut short in a PI")),
					Some(e) => self.i += 2 + e + 2,
				}
				continue;
			}
			match c {
				'"' | '\'' => quote = Some(c),
				'[' if !in_subset && decl == 0 => in_subset = true,
				']' if in_subset && decl == 0 => in_subset = false,
				'<' => {
					if !in_subset || decl > 0 {
						return Err(Unspec("odd DTD"));
					}
					decl += 1;
				}
				'>' => {
					if decl > 0 {
						decl -= 1;
					} else if in_subset {
						return Err(Unspec("odd DTD"));
					} else {
						self.i += 1;
						return Ok(self.s[a..self.i].to_string());
					}
				}
				_ => {}
			}
			self.i += c.len_utf8();
		}
	}
}

pub fn parse(s: &str) -> Result<Doc, No> {
	parse_opt(s, Opt::default())
}

pub fn parse_opt(s: &str, opt: Opt) -> Result<Doc, No> {
	let s = s.strip_prefix('\u{feff}').unwrap_or(s);
	let mut p = P { s, i: 0, opt };
	let mut d = Doc::default();
	let mut seen = false; // any markup before
	// prolog
	loop {
		p.ws();
		if p.peek().is_none() {
			return Err(Reject("no root element"));
		}
		if !p.at("<") {
			// text before the root: a definite defect if there is any markup later or not
			return Err(Reject("text outside root"));
		}
		if p.at("<!--") {
			p.comment()?;
		} else if p.at("<?") {
			let r = p.rest();
			let e = match r[2..].find("?>") {
				None => return Err(Reject("unterminated declaration")),
				Some(e) => e + 4,
			};
			let t = &r[..e];
			if t.starts_with("<?xml") && t[5..].starts_with(|c: char| is_ws(c)) {
				if seen {
					return Err(Reject("declaration after other markup"));
				}
				if p.i != 0 {
					return Err(Unspec("white space before declaration"));
				}
				d.decl = Some(t.to_string());
			} else if t.starts_with("<?xml?") || (t.starts_with("<?xml") && t[5..].starts_with(|c: char| c.is_whitespace())) {
				return Err(Unspec("odd declaration"));
			} else if !t[2..].starts_with(|c: char| name_start(c)) {
				return Err(Unspec("odd PI"));
			}
			p.legal(t)?;
			p.i += e;
		} else if p.at("<!DOCTYPE") {
			if !d.dtds.is_empty() {
				return Err(Unspec("two DTDs"));
			}
			let t = p.dtd()?;
			p.legal(&t)?;
			if !t["<!DOCTYPE".len()..].starts_with(is_ws) {
				return Err(Unspec("odd DTD"));
			}
			d.dtds.push(t);
		} else if p.at("<!") {
			return Err(Unspec("markup declaration outside root"));
		} else if p.at("</") {
			return Err(Reject("closing tag without open tag"));
		} else {
			break;
		}
		seen = true;
	}
	// root
	let mut stack: Vec<El> = Vec::new();
	let mut root: Option<El> = None;
	loop {
		if root.is_some() && stack.is_empty() {
			break;
		}
		if stack.is_empty() || p.at("<") {
			if !stack.is_empty() && p.at("<!--") {
				let t = p.comment()?;
				stack.last_mut().unwrap().ch.push(N::C(t));
				continue;
			}
			if p.at("<![CDATA[") {
				let r = &p.rest()[9..];
				match r.find("]]>") {
					None => return Err(Reject("unterminated CDATA")),
					Some(e) => {
						p.legal(&r[..e])?;
						stack.last_mut().unwrap().ch.push(N::D(r[..e].to_string()));
						p.i += 9 + e + 3;
					}
				}
				continue;
			}
			if p.at("<!") {
				if p.at("<!DOCTYPE") || p.at("<!ELEMENT") || p.at("<!ENTITY") || p.at("<!ATTLIST") || p.at("<!NOTATION") {
					return Err(Reject("markup declaration inside root"));
				}
				return Err(Unspec("odd <! inside root"));
			}
			if p.at("<?") {
				if p.at("<?xml ") {
					return Err(Reject("declaration after other markup"));
				}
				return Err(Unspec("PI inside root"));
			}
			if p.at("</") {
				p.i += 2;
				let n = p.name();
				let top = stack.last().unwrap().tag();
				p.ws();
				match p.peek() {
					None => return Err(Reject("unterminated tag")),
					Some('>') => p.i += 1,
					Some(c) if c.is_whitespace() || c.is_control() => return Err(Unspec("odd white space")),
					Some(_) => return Err(Reject("stray character in tag")),
				}
				if n.is_empty() {
					return Err(Reject("invalid element name"));
				}
				if n != top {
					return Err(Reject("mismatched closing tag"));
				}
				let mut e = stack.pop().unwrap();
				norm_children(&mut e.ch);
				match stack.last_mut() {
					Some(t) => t.ch.push(N::E(e)),
					None => root = Some(e),
				}
				continue;
			}
			let (e, selfc) = p.open_tag()?;
			if stack.is_empty() {
				if let Some(pf) = &e.prefix {
					if !e.attrs.contains_key(&format!("xmlns:{pf}")) {
						return Err(if pf == "xml" || pf == "xmlns" { Unspec("reserved prefix") } else { Reject("undeclared root prefix") });
					}
				}
			}
			if selfc {
				match stack.last_mut() {
					Some(t) => t.ch.push(N::E(e)),
					None => root = Some(e),
				}
			} else {
				stack.push(e);
			}
		} else {
			// text
			let r = p.rest();
			let end = match r.find('<') {
				None => return Err(Reject("unclosed element")),
				Some(e) => e,
			};
			let raw = &r[..end];
			if !opt.own_output && raw.contains("]]>") {
				return Err(Unspec("]]> in text"));
			}
			let t = p.decode(raw, false)?;
			if all_ws(&t) && !all_ws(raw) {
				return Err(Unspec("white space written as references"));
			}
			stack.last_mut().unwrap().ch.push(N::T(t));
			p.i += end;
		}
	}
	// epilog
	loop {
		p.ws();
		match p.peek() {
			None => break,
			Some('<') => {
				if p.at("<!--") {
					p.comment()?;
				} else if p.at("<?") {
					if p.at("<?xml ") && p.rest().contains("?>") {
						return Err(Reject("declaration after other markup"));
					}
					return Err(Unspec("PI after root"));
				} else if p.at("<!") {
					return Err(Unspec("<! after root"));
				} else if p.at("</") {
					return Err(Reject("closing tag without open tag"));
				} else {
					return Err(Reject("second root"));
				}
			}
			Some(_) => return Err(Reject("text outside root")),
		}
	}
	d.root = root.unwrap();
	Ok(d)
}
