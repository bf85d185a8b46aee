//! Plain reference model of an XML tree. Shares nothing with kiss-xml.
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum N {
	E(El),
	T(String),
	C(String),
	D(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct El {
	pub prefix: Option<String>,
	pub name: String,
	pub attrs: BTreeMap<String, String>,
	pub ch: Vec<N>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Doc {
	/// with its <? ?>
	pub decl: Option<String>,
	/// with their <!DOCTYPE >
	pub dtds: Vec<String>,
	pub root: El,
}

/// XML white space
pub fn is_ws(c: char) -> bool {
	c == ' ' || c == '\t' || c == '\n' || c == '\r'
}
pub fn all_ws(s: &str) -> bool {
	s.chars().all(is_ws)
}

/// Namespace declarations in scope; "" is the default namespace.
pub type Scope = BTreeMap<String, String>;

impl El {
	pub fn new(name: &str) -> El {
		El { name: name.to_string(), ..Default::default() }
	}
	pub fn tag(&self) -> String {
		match &self.prefix {
			Some(p) => format!("{}:{}", p, self.name),
			None => self.name.clone(),
		}
	}
	/// the scope inside this element
	pub fn scope(&self, outer: &Scope) -> Scope {
		let mut s = outer.clone();
		for (k, v) in &self.attrs {
			if k == "xmlns" {
				if v.is_empty() {
					s.remove("");
				} else {
					s.insert(String::new(), v.clone());
				}
			} else if let Some(p) = k.strip_prefix("xmlns:") {
				if !p.is_empty() {
					s.insert(p.to_string(), v.clone());
				}
			}
		}
		s
	}
	pub fn declares(&self) -> bool {
		self.attrs.keys().any(|k| k.starts_with("xmlns"))
	}
	/// prefixes declared on this very element
	pub fn own_prefixes(&self) -> BTreeMap<String, String> {
		let mut m = BTreeMap::new();
		for (k, v) in &self.attrs {
			if let Some(p) = k.strip_prefix("xmlns:") {
				if !p.is_empty() {
					m.insert(p.to_string(), v.clone());
				}
			}
		}
		m
	}
	/// the namespace of this element, given the scope inside it
	pub fn ns<'a>(&self, inner: &'a Scope) -> Option<&'a String> {
		inner.get(self.prefix.as_deref().unwrap_or(""))
	}
	pub fn count(&self) -> usize {
		let mut n = 1;
		for c in &self.ch {
			n += match c {
				N::E(e) => e.count(),
				_ => 1,
			};
		}
		n
	}
	pub fn depth(&self) -> usize {
		1 + self.ch.iter().map(|c| if let N::E(e) = c { e.depth() } else { 0 }).max().unwrap_or(0)
	}
	pub fn has_text(&self) -> bool {
		self.ch.iter().any(|c| matches!(c, N::T(_)))
	}
	/// concatenated descendant text
	pub fn text(&self) -> String {
		fn go(e: &El, out: &mut String) {
			for c in &e.ch {
				match c {
					N::E(x) => go(x, out),
					N::T(t) => out.push_str(t),
					_ => {}
				}
			}
		}
		let mut s = String::new();
		go(self, &mut s);
		s
	}
}

/// Joins neighbouring text, drops empty text, and whitespace-only text where there is no other text
/// (one level).
pub fn norm_children(ch: &mut Vec<N>) {
	let mut out: Vec<N> = Vec::with_capacity(ch.len());
	for c in ch.drain(..) {
		if let N::T(t) = c {
			if let Some(N::T(prev)) = out.last_mut() {
				prev.push_str(&t);
			} else {
				out.push(N::T(t));
			}
		} else {
			out.push(c);
		}
	}
	let real = out.iter().any(|c| if let N::T(t) = c { !all_ws(t) } else { false });
	out.retain(|c| if let N::T(t) = c { !t.is_empty() && (real || !all_ws(t)) } else { true });
	*ch = out;
}

pub fn norm(e: &mut El) {
	norm_children(&mut e.ch);
	for c in e.ch.iter_mut() {
		if let N::E(x) = c {
			norm(x);
		}
	}
}

/// structure fingerprint ignoring content details: used as part of coverage counts
pub fn shape(e: &El, out: &mut String) {
	out.push('(');
	if e.prefix.is_some() {
		out.push('p');
	}
	if !e.attrs.is_empty() {
		out.push('@');
		if e.declares() {
			out.push('n');
		}
	}
	for c in &e.ch {
		match c {
			N::E(x) => shape(x, out),
			N::T(t) => out.push(if all_ws(t) { 'w' } else { 't' }),
			N::C(_) => out.push('c'),
			N::D(_) => out.push('d'),
		}
	}
	out.push(')');
}

// ---------- XML character classes, from the XML 1.0 (5th ed.) productions ----------

pub fn xml_char(c: char) -> bool {
	let u = c as u32;
	u == 9 || u == 10 || u == 13 || (0x20..=0xD7FF).contains(&u) || (0xE000..=0xFFFD).contains(&u) || u >= 0x10000
}

const START: &[(u32, u32)] = &[
	(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
	(0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF),
	(0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF),
];
const EXTRA: &[(u32, u32)] = &[(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];

/// name start character, without the colon
pub fn name_start(c: char) -> bool {
	let u = c as u32;
	START.iter().any(|&(a, b)| a <= u && u <= b)
}
/// name character, without the colon
pub fn name_char(c: char) -> bool {
	let u = c as u32;
	name_start(c) || EXTRA.iter().any(|&(a, b)| a <= u && u <= b)
}
/// valid XML name that does not start with a colon
pub fn valid_name(s: &str) -> bool {
	let mut it = s.chars();
	match it.next() {
		None => return false,
		Some(c) => {
			if !name_start(c) {
				return false;
			}
		}
	}
	it.all(|c| c == ':' || name_char(c))
}

/// shortened debug form for messages
pub fn show(s: &str) -> String {
	let n = s.chars().count();
	if n <= 400 {
		format!("{:?}", s)
	} else {
		let a: String = s.chars().take(200).collect();
		let b: String = s.chars().skip(n - 150).collect();
		format!("{:?}...[{} chars]...{:?}", a, n, b)
	}
}
