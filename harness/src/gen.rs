//! Workload generators: hostile text, names, trees of several size profiles.
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

/// How wild the characters of generated text may be.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Chars {
	/// legal XML characters only, no carriage return
	Plain,
	/// legal XML characters
	Legal,
	/// any code point, including control characters
	Any,
}

const WORDS: &[&str] = &[
	"lorem", "ipsum", "x", "42", "The quick", "brown fox ", " jumps", "a b  c", "0", "é", "naïve", "Ω≈ç√",
	"☼", "漢字", "🦀", "e\u{301}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{85}", "\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{d7ff}", "\u{e000}",
	"𝄞clef", "ß", "İ", "ſ", "\u{3000}", "\u{2009}", "\u{1680}", "ÿ", "\u{7ff}\u{800}",
];
const SPECIALS: &[&str] = &[
	"&", "<", ">", "'", "\"", "&&", "<<", ">>", "]]>", "-->", "<!--", "--", "]]", "]", "-", "->", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;",
	"&amp;lt;", "&amp;amp;", "&#65;", "&#x41;", "&#x;", "&#;", "&;", "&nbsp;", "&amp", "&#x10FFFF;", "&#xD800;", "&#99999999999;", "amp;", "lt;", "#65;",
	"<a>", "</a>", "<a/>", "<b c='d'>", "<?pi?>", "?>", "<?xml version=\"1.0\"?>", "<![CDATA[", "<![CDATA[x]]>", "<!DOCTYPE a>", "=", "/", "/>", "=\"", "='", "\\", "%", ";", "#", ":", "[", "!", "?", "\\n", "{}", "$1", "${1}", "%s",
];
const SPACES: &[&str] = &[" ", "\n", "\t", "  ", "\n\n  ", "\t ", "   \n"];
const CONTROLS: &[&str] = &["\u{0}", "\u{1}", "\u{8}", "\u{b}", "\u{c}", "\u{e}", "\u{1f}", "\u{7f}", "\u{9f}", "\u{fffe}", "\u{ffff}", "\u{1b}[0m"];

fn any_char(r: &mut Rng) -> char {
	let u = match r.below(6) {
		0 => r.below(0x80) as u32,
		1 => r.below(0x800) as u32,
		2 => r.below(0x10000) as u32,
		3 => 0x10000 + r.below(0x100000) as u32,
		4 => *r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 0xff, 0x100]),
		_ => 0x20 + r.below(0x5f) as u32,
	};
	char::from_u32(u).unwrap_or('\u{fffd}')
}

pub fn char_ok(c: char, k: Chars) -> bool {
	match k {
		Chars::Any => true,
		Chars::Legal => xml_char(c),
		Chars::Plain => xml_char(c) && c != '\r',
	}
}

fn piece(r: &mut Rng, k: Chars, out: &mut String) {
	match r.below(10) {
		0..=2 => out.push_str(r.pick(WORDS)),
		3..=5 => out.push_str(r.pick(SPECIALS)),
		6 => out.push_str(r.pick(SPACES)),
		7 => {
			if k != Chars::Plain && r.chance(1, 3) {
				out.push_str(r.pick(&["\r", "\r\n", "\n\r"]));
			} else if k == Chars::Any && r.chance(1, 2) {
				out.push_str(r.pick(CONTROLS));
			} else {
				out.push_str(r.pick(SPACES));
			}
		}
		8 => {
			let c = any_char(r);
			if char_ok(c, k) {
				out.push(c);
			}
		}
		_ => {
			for _ in 0..r.range(1, 6) {
				out.push((b'a' + r.below(26) as u8) as char);
			}
		}
	}
}

/// any text (possibly empty)
pub fn text(r: &mut Rng, k: Chars) -> String {
	let n = match r.below(20) {
		0 => 0,
		1..=11 => r.range(1, 3),
		12..=17 => r.range(3, 10),
		18 => r.range(10, 40),
		_ => r.range(40, 150),
	};
	text_n(r, k, n)
}
pub fn text_n(r: &mut Rng, k: Chars, pieces: usize) -> String {
	let mut s = String::new();
	for _ in 0..pieces {
		piece(r, k, &mut s);
	}
	if k != Chars::Any {
		s.retain(|c| char_ok(c, k));
	}
	s
}
pub fn ws(r: &mut Rng, k: Chars) -> String {
	let mut s = String::new();
	for _ in 0..r.range(1, 4) {
		s.push(match r.below(if k == Chars::Plain { 3 } else { 4 }) {
			0 => ' ',
			1 => '\n',
			2 => '\t',
			_ => '\r',
		});
	}
	s
}
/// text with at least one character that is not white space
pub fn real_text(r: &mut Rng, k: Chars) -> String {
	let mut s = text(r, k);
	if all_ws(&s) {
		let at = r.below(s.chars().count() + 1);
		let byte = s.char_indices().nth(at).map(|x| x.0).unwrap_or(s.len());
		s.insert_str(byte, r.pick(&["x", "&", "<", "é", "🦀", "\u{a0}", ">", "'", ";", "0"]));
	}
	s
}

pub fn long_text(r: &mut Rng, k: Chars, len: usize) -> String {
	let mut s = String::with_capacity(len + 64);
	let style = r.below(4);
	while s.len() < len {
		match style {
			0 => s.push_str("word "),
			1 => piece(r, k, &mut s),
			2 => s.push_str(r.pick(&["&", "<", "é", "🦀", ">"])),
			_ => s.push_str(r.pick(WORDS)),
		}
	}
	s.push('.');
	if k != Chars::Any {
		s.retain(|c| char_ok(c, k));
	}
	s
}

pub fn comment_text(r: &mut Rng, k: Chars, strict: bool) -> String {
	let mut s = text(r, k);
	if r.chance(1, 3) {
		s = format!("{}{}", r.pick(&[">", "->", "<", " ", "!", "]]>", "--", "<a>", "é", "'", "\"", "--!>"]), s);
	}
	while s.contains("-->") {
		s = s.replace("-->", "->");
	}
	if strict {
		while s.contains("--") {
			s = s.replace("--", "-");
		}
		if s.ends_with('-') {
			s.push(' ');
		}
	}
	s
}
pub fn cdata_text(r: &mut Rng, k: Chars) -> String {
	let mut s = text(r, k);
	if r.chance(1, 4) {
		s.push_str(r.pick(&["]", "]]", ">", "<b>", "]>", " ", "\n"]));
	}
	while s.contains("]]>") {
		s = s.replace("]]>", "]>");
	}
	s
}

const NAMES: &[&str] = &[
	"a", "b", "c", "aa", "ab", "A", "root", "item", "x", "a-b", "a.b", "_", "_a", "a1", "ba", "abc", "div", "b2", "title", "x-1", "Root", "xmlish", "n-", "n.", "a--b", "é", "aé", "漢", "data_1", "axmlns", "b-xmlns", "nxmlns.p",
];

/// valid name without a colon
pub fn name(r: &mut Rng) -> String {
	match r.below(12) {
		0..=8 => r.pick(NAMES).to_string(),
		9 => {
			let mut s = String::new();
			let first = b"abcXYZ_";
			let rest = b"abcXYZ_0123456789-.";
			s.push(first[r.below(first.len())] as char);
			for _ in 0..r.range(0, 12) {
				s.push(rest[r.below(rest.len())] as char);
			}
			s
		}
		10 => {
			let mut s = String::new();
			loop {
				let c = any_char(r);
				if name_start(c) {
					s.push(c);
					break;
				}
			}
			for _ in 0..r.range(0, 6) {
				let c = any_char(r);
				if name_char(c) {
					s.push(c);
				}
				if r.chance(1, 4) {
					s.push(*r.pick(&['\u{b7}', '-', '.', '9', '\u{300}', '\u{203f}', '\u{200d}']));
				}
			}
			s
		}
		_ => {
			let mut s = String::from("n");
			for _ in 0..r.range(20, 120) {
				s.push((b'a' + r.below(26) as u8) as char);
			}
			s
		}
	}
}
/// name every XML parser knows (4th edition rules too)
pub fn ascii_name(r: &mut Rng) -> String {
	loop {
		let n = name(r);
		if n.chars().all(|c| c.is_ascii() || c == 'é' || c == '漢') && !n.to_lowercase().starts_with("xml") {
			return n;
		}
	}
}

pub const URIS: &[&str] = &["urn:a", "urn:b", "http://example.com/ns?x=1&y=2", "u", "internal://ns/a", "urn:é☼", "urn:'q'", "urn:a b", "urn:<x>\"", "urn:a", "urn:b", "URN:A", " urn:a", "urn:a ", "http://www.w3.org/2000/svg", "http://www.w3.org/2000/svg/", "a{b}c;d|e#f%20", "&amp;", "urn:a\u{300}", "xmlns", "p", "-"];
pub const PREFIXES: &[&str] = &["p", "q", "svg", "p1", "é", "pp", "a", "x-y", "p", "q", "p", "P", "Q", "Svg", "SVG", "p.q", "_x", "x_y", "É", "p-", "漢", "ns0", "foo", "axmlns"];

#[derive(Clone, Debug)]
pub struct Cfg {
	pub chars: Chars,
	/// comments without --
	pub strict_comments: bool,
	/// only names every parser accepts
	pub ascii_names: bool,
	/// use namespaces
	pub ns: bool,
	/// declare every prefix used (elements)
	pub declared: bool,
	/// attribute names may carry (undeclared) prefixes
	pub odd_attr: bool,
	/// attributes may be named xmlnsfoo
	pub xmlnsish: bool,
	/// children lists are in normal form (text joined, no insignificant whitespace)
	pub normal: bool,
}
impl Cfg {
	pub fn new(chars: Chars) -> Cfg {
		Cfg { chars, strict_comments: false, ascii_names: false, ns: true, declared: true, odd_attr: true, xmlnsish: false, normal: true }
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
	Tiny,
	Small,
	Medium,
	Wide,
	Deep,
	Long,
	Attrs,
	Ns,
	/// one dimension (see `HUGE`) far beyond what fits in two bytes
	Huge(u8),
}
pub const HUGE: u8 = 17;

pub fn pick_size(r: &mut Rng, heavy: usize) -> Size {
	// heavy: per mille of the big profiles
	if r.below(1000) < heavy {
		*r.pick(&[Size::Medium, Size::Wide, Size::Deep, Size::Long, Size::Attrs, Size::Medium])
	} else {
		*r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Small, Size::Small, Size::Ns, Size::Ns])
	}
}

struct Gen<'a> {
	r: &'a mut Rng,
	cfg: &'a Cfg,
	budget: usize,
	ns_rate: usize,
}

impl<'a> Gen<'a> {
	fn name(&mut self) -> String {
		if self.cfg.ascii_names {
			ascii_name(self.r)
		} else {
			name(self.r)
		}
	}
	fn attrs(&mut self, n: usize, scope: &mut Scope, el_prefix: &mut Option<String>) -> BTreeMap<String, String> {
		let mut m = BTreeMap::new();
		// namespace declarations
		if self.cfg.ns && self.r.below(100) < self.ns_rate {
			for _ in 0..self.r.range(1, 3) {
				match self.r.below(5) {
					0 | 1 => {
						let u = if self.r.chance(1, 4) { "" } else { *self.r.pick(URIS) };
						m.insert("xmlns".to_string(), u.to_string());
					}
					_ => {
						let p = self.prefix();
						let u = *self.r.pick(URIS);
						m.insert(format!("xmlns:{p}"), u.to_string());
					}
				}
			}
			let e = El { attrs: m.clone(), ..Default::default() };
			*scope = e.scope(scope);
		}
		// prefix of the element itself
		if self.cfg.ns && self.r.below(100) < self.ns_rate + 10 {
			let ps: Vec<String> = scope.keys().filter(|k| !k.is_empty()).cloned().collect();
			if !ps.is_empty() && self.r.chance(3, 4) {
				*el_prefix = Some(self.r.pick(&ps).clone());
			} else if !self.cfg.declared && self.r.chance(1, 4) {
				*el_prefix = Some("undecl".to_string());
			}
		}
		let base = if n > 1 && self.r.chance(1, 12) {
			let b = self.name();
			Some(if self.r.chance(1, 2) { b.repeat(self.r.range(1, 80)) } else { b })
		} else {
			None
		};
		for i in 0..n {
			if let (Some(b), true) = (&base, self.r.chance(3, 4)) {
				m.insert(format!("{b}{}", self.r.below(10 * i + 10)), i.to_string());
				continue;
			}
			let k = match self.r.below(12) {
				0 => "id".to_string(),
				1 => "xml:lang".to_string(),
				2 => {
					let ps: Vec<String> = scope.keys().filter(|k| !k.is_empty()).cloned().collect();
					if ps.is_empty() {
						if self.cfg.odd_attr { "u:v".to_string() } else { "uv".to_string() }
					} else {
						format!("{}:{}", self.r.pick(&ps).clone(), self.name())
					}
				}
				3 => {
					if self.cfg.xmlnsish && self.r.chance(1, 3) {
						"xmlnsfoo".to_string()
					} else {
						format!("k{}", self.r.below(20))
					}
				}
				4 => format!("{}{}", self.name(), self.r.below(100)),
				_ => self.name(),
			};
			if k == "xmlns" || k.starts_with("xmlns:") {
				continue;
			}
			let v = match self.r.below(8) {
				0 => String::new(),
				1 => ws(self.r, self.cfg.chars),
				2 => format!("{}=\"'/>", self.r.below(10)),
				3 => {
					// value ending in a delimiter look-alike
					let mut t = text(self.r, self.cfg.chars);
					t.push_str(self.r.pick(&["/", "=", ">", "'", "\"", " ", "/>", "&", "<", "?"]));
					t
				}
				4 => self.r.pick(&["v", "a=b", "= ", " =", "a = 'b'", "1", "true", "a/b", "x y"]).to_string(),
				_ => text(self.r, self.cfg.chars),
			};
			m.insert(k, v);
		}
		m
	}
	fn prefix(&mut self) -> String {
		if self.cfg.ascii_names {
			loop {
				let p = *self.r.pick(PREFIXES);
				if p.is_ascii() {
					return if self.r.chance(1, 20) { ascii_name(self.r) } else { p.to_string() };
				}
			}
		}
		if self.r.chance(1, 20) {
			let n = name(self.r);
			if !n.to_lowercase().starts_with("xml") {
				return n;
			}
		}
		self.r.pick(PREFIXES).to_string()
	}
	fn el(&mut self, depth: usize, width: usize, scope: &Scope, mixed: usize) -> El {
		let mut scope = scope.clone();
		let mut e = El::new("");
		e.name = self.name();
		let n = match self.r.below(10) {
			0..=4 => 0,
			5..=7 => self.r.range(1, 2),
			8 => self.r.range(2, 5),
			_ => self.r.range(3, 9),
		};
		e.attrs = self.attrs(n, &mut scope, &mut e.prefix);
		let nch = if depth == 0 { self.r.below(2) } else { self.r.below(width + 1) };
		// mixed content: per cent of elements with text between other children
		let m = self.r.below(100) < mixed;
		for _ in 0..nch {
			if self.budget == 0 {
				break;
			}
			self.budget -= 1;
			let c = self.child(depth, width, &scope, mixed, m);
			e.ch.push(c);
		}
		if self.cfg.normal {
			norm_children(&mut e.ch);
		}
		e
	}
	fn child(&mut self, depth: usize, width: usize, scope: &Scope, mixed: usize, m: bool) -> N {
		let k = self.r.below(100);
		if m && k < 40 {
			if self.r.chance(1, 4) {
				return N::T(ws(self.r, self.cfg.chars));
			}
			return N::T(real_text(self.r, self.cfg.chars));
		}
		if k < 48 {
			return N::T(text(self.r, self.cfg.chars));
		}
		if k < 56 {
			return N::C(comment_text(self.r, self.cfg.chars, self.cfg.strict_comments));
		}
		if k < 62 {
			return N::D(cdata_text(self.r, self.cfg.chars));
		}
		if depth == 0 {
			return N::E(El::new("leaf"));
		}
		let d = if self.r.chance(1, 8) { 0 } else { depth - 1 };
		N::E(self.el(d, width, scope, mixed))
	}
}

pub fn tree(r: &mut Rng, cfg: &Cfg, size: Size) -> El {
	tree_in(r, cfg, size, &Scope::new())
}

pub fn tree_in(r: &mut Rng, cfg: &Cfg, size: Size, scope: &Scope) -> El {
	let mixed = *r.pick(&[0, 20, 50, 90]);
	let (budget, depth, width, ns_rate) = match size {
		Size::Tiny => (4, 2, 3, 10),
		Size::Small => (25, 5, 6, 10),
		Size::Medium => (r.range(100, 400), 8, 14, 10),
		Size::Wide => (30, 3, 5, 5),
		Size::Deep => (10, 3, 3, 10),
		Size::Long => (6, 3, 4, 5),
		Size::Attrs => (10, 3, 4, 10),
		Size::Ns => (18, 6, 5, 45),
		Size::Huge(k) => return huge(r, cfg, k),
	};
	let mut g = Gen { r, cfg, budget, ns_rate };
	match size {
		Size::Wide => {
			let mut e = g.el(1, 3, scope, 0);
			let sc = e.scope(scope);
			let n = g.r.range(100, 1500);
			let m = g.r.chance(1, 3);
			let style = g.r.below(3);
			for i in 0..n {
				g.budget = 3;
				let c = match style {
					0 => g.child(1, 3, &sc, 20, m),
					1 => {
						let mut x = El::new("item");
						x.attrs.insert("i".into(), i.to_string());
						N::E(x)
					}
					_ => {
						if i % 2 == 0 { N::C(format!("c{i}")) } else { N::E(El::new(if i % 3 == 0 { "a" } else { "b" })) }
					}
				};
				e.ch.push(c);
			}
			if cfg.normal {
				norm_children(&mut e.ch);
			}
			e
		}
		Size::Deep => {
			let d = g.r.range(30, 300);
			let mut scope_stack = vec![scope.clone()];
			let mut chain: Vec<El> = Vec::new();
			for _ in 0..d {
				g.budget = if g.r.chance(1, 6) { 3 } else { 0 };
				let sc = scope_stack.last().unwrap().clone();
				let mut e = g.el(1, 2, &sc, mixed / 4);
				if g.r.chance(3, 4) {
					e.name = g.r.pick(&["a", "b"]).to_string();
				}
				scope_stack.push(e.scope(&sc));
				chain.push(e);
			}
			let mut cur = chain.pop().unwrap();
			while let Some(mut p) = chain.pop() {
				let at = g.r.below(p.ch.len() + 1);
				p.ch.insert(at, N::E(cur));
				if cfg.normal {
					norm_children(&mut p.ch);
				}
				cur = p;
			}
			cur
		}
		Size::Long => {
			let mut e = g.el(2, 4, scope, mixed);
			let len = *g.r.pick(&[1000, 5000, 20_000, 66_000, 140_000]);
			let t = long_text(g.r, cfg.chars, len);
			let c = match g.r.below(4) {
				0 | 1 => N::T(t),
				2 => {
					let mut t = t.replace("-->", "__").replace("--", "__");
					if t.ends_with('-') { t.push('_'); }
					N::C(t)
				}
				_ => N::D(t.replace("]]>", "__")),
			};
			if g.r.chance(1, 3) {
				let l2 = long_text(g.r, cfg.chars, len / 4);
				e.attrs.insert("long".into(), l2);
			}
			let at = g.r.below(e.ch.len() + 1);
			e.ch.insert(at, c);
			if cfg.normal {
				norm_children(&mut e.ch);
			}
			e
		}
		Size::Attrs => {
			let mut e = g.el(3, 4, scope, mixed);
			let n = g.r.range(10, 150);
			let mut sc = e.scope(scope);
			let mut pfx = e.prefix.clone();
			let more = g.attrs(n, &mut sc, &mut pfx);
			for (k, v) in more {
				// do not disturb declarations children rely on
				if !k.starts_with("xmlns") {
					e.attrs.entry(k).or_insert(v);
				}
			}
			// prefixes of moved attributes are in scope or declared here
			e
		}
		_ => {
			let mut e = g.el(depth, width, scope, mixed);
			if e.ch.is_empty() && g.r.chance(4, 5) {
				let sc = e.scope(scope);
				for _ in 0..g.r.range(1, width) {
					let mx = g.r.chance(1, 3);
					let c = g.child(depth, width, &sc, mixed, mx);
					e.ch.push(c);
				}
				if cfg.normal {
					norm_children(&mut e.ch);
				}
			}
			e
		}
	}
}

/// a tree with one enormous dimension
pub fn huge(r: &mut Rng, cfg: &Cfg, k: u8) -> El {
	let n = r.range(66_000, 80_000);
	let mut e = El::new("a");
	let el = |name: &str, ch: Vec<N>| {
		let mut x = El::new(name);
		x.ch = ch;
		x
	};
	let words = |n: usize| (0..n).map(|i| format!("w{i} ")).collect::<String>();
	match k {
		// many children
		0 => e.ch = (0..n).map(|i| N::E(El::new(if i % 7 == 3 { "b" } else { "item" }))).collect(),
		// many nodes on more than one level
		1 => e.ch = (0..n / 2).map(|i| N::E(el("b", vec![N::E(El::new("c")), if i % 3 == 0 { N::T(format!("t{i}")) } else { N::E(El::new("d")) }]))).collect(),
		// many attributes
		2 => {
			for i in 0..n {
				e.attrs.insert(format!("k{i}"), format!("v{}", i % 10));
			}
		}
		// many references
		3 => e.ch.push(N::T(r.pick(&["&", "<&", "x<y "]).repeat(n) + "end")),
		4 => {
			e.attrs.insert("k".into(), "&<".repeat(n));
			e.attrs.insert("z".into(), "z".into());
		}
		// many comments, CDATA sections, texts
		5 => {
			for i in 0..n / 2 {
				e.ch.push(N::C(format!("c{i}")));
				e.ch.push(N::E(El::new("b")));
			}
		}
		6 => {
			for i in 0..n / 2 {
				e.ch.push(N::D(format!("d{i}")));
				e.ch.push(N::E(El::new("b")));
			}
		}
		7 => {
			for i in 0..n / 2 {
				e.ch.push(N::T(format!("t{i} ")));
				e.ch.push(N::E(El::new("b")));
			}
		}
		// long names, which differ late
		8 => {
			let base = "n".repeat(n);
			e.name = base.clone();
			for i in 0..6 {
				e.attrs.insert(format!("{base}{i}"), i.to_string());
			}
			e.ch = (0..4).map(|i| N::E(El::new(&format!("{base}{i}")))).collect();
		}
		// many namespace declarations
		9 => {
			let n = n / 30;
			for i in 0..n {
				e.attrs.insert(format!("xmlns:p{i}"), format!("urn:{i}"));
			}
			for i in 0..20 {
				let mut x = El::new("b");
				x.prefix = Some(format!("p{}", (i * 7919) % n));
				e.ch.push(N::E(x));
			}
		}
		// long prefix and URI
		10 => {
			let p = "p".repeat(n);
			e.attrs.insert(format!("xmlns:{p}"), format!("urn:{}", "u".repeat(n)));
			e.attrs.insert("xmlns".into(), "u".repeat(n));
			let mut x = El::new("b");
			x.prefix = Some(p);
			e.ch.push(N::E(x));
			e.ch.push(N::E(El::new("c")));
		}
		// long content
		11 => {
			e.attrs.insert("k".into(), words(n));
			e.ch = vec![N::C(words(n)), N::D(words(n)), N::E(El::new("b")), N::T(words(n))];
		}
		// many lines
		12 => e.ch = vec![N::E(el("b", vec![N::T("x\n".repeat(n))])), N::C("\n\n".repeat(n)), N::E(El::new("c"))],
		// deep, with more after every level
		13 => {
			let d = r.range(300, 700);
			e = El::new("leaf");
			for i in 0..d {
				let mut x = El::new(if i % 2 == 0 { "a" } else { "b" });
				if i % 5 == 0 {
					x.ch.push(N::E(El::new("before")));
				}
				if i % 11 == 0 {
					x.attrs.insert(format!("xmlns:p{i}"), "u".into());
				}
				x.ch.push(N::E(e));
				x.ch.push(N::E(El::new("after")));
				e = x;
			}
		}
		// many wide characters
		14 => {
			e.name = "漢".repeat(n / 3);
			e.ch = vec![N::T("🦀é".repeat(n) + "z"), N::E(El::new("é"))];
		}
		// the prolog is large (see doc)
		15 => e.ch.push(N::E(El::new("b"))),
		// many elements that close after much content
		_ => {
			for i in 0..300 {
				let mut x = el("b", vec![N::T(words(30))]);
				for j in 0..10 {
					x.ch.push(N::E(el("c", vec![N::D(format!("{i}{j}</b>"))])));
				}
				e.ch.push(N::E(x));
			}
		}
	}
	let _ = cfg;
	e
}

/// standard form XML declaration
pub fn decl(r: &mut Rng) -> String {
	let q = |r: &mut Rng, s: &str| if r.chance(1, 2) { format!("\"{s}\"") } else { format!("'{s}'") };
	let mut s = String::from("<?xml");
	s.push_str(r.pick(&[" ", "  ", "\n", "\t"]));
	let v = *r.pick(&["1.0", "1.0", "1.1"]);
	s.push_str("version");
	s.push_str(r.pick(&["=", " = ", "= ", " ="]));
	s.push_str(&q(r, v));
	if r.chance(2, 3) {
		let e = *r.pick(&["UTF-8", "utf-8", "UTF-8"]);
		s.push_str(" encoding=");
		s.push_str(&q(r, e));
	}
	if r.chance(1, 3) {
		let e = *r.pick(&["yes", "no"]);
		s.push_str("  standalone=");
		s.push_str(&q(r, e));
	}
	s.push_str(r.pick(&["", " ", "\n", "\r\n"]));
	s.push_str("?>");
	s
}

/// well-formed document type declaration, without effect on entity names used elsewhere
pub fn dtd(r: &mut Rng, strict: bool) -> String {
	let mut s = String::from("<!DOCTYPE ");
	s.push_str(r.pick(NAMES));
	match r.below(4) {
		0 => {
			s.push_str(" SYSTEM ");
			s.push_str(r.pick(&["\"note.dtd\"", "'a>b.dtd'", "\"it's>[.dtd\"", "'say \"hi\">'", "\"<!--\"", "'<?x'"]));
		}
		1 => {
			s.push_str(" PUBLIC ");
			s.push_str(r.pick(&["\"-//W3C//DTD XHTML 1.0//EN\"", "'-//X//Y'"]));
			s.push(' ');
			s.push_str(r.pick(&["\"http://www.w3.org/a.dtd\"", "'b>.dtd'"]));
		}
		_ => {}
	}
	if r.chance(2, 3) {
		s.push_str(r.pick(&[" [", "[", "\n["]));
		for i in 0..r.range(0, 5) {
			s.push_str(r.pick(&["", " ", "\n\t", "\n", "\r\n"]));
			let item = match r.below(if strict { 6 } else { 8 }) {
				0 => format!("<!ENTITY e{i} {}>", r.pick(&["\"value\"", "'it is > that'", "\"]>\"", "'\"'", "\"it's\"", "\"&#xA0;\"", "''", "\"&lt;b>\""])),
				1 => format!("<!ELEMENT n{i} {}>", r.pick(&["(#PCDATA)", "EMPTY", "ANY", "(a,b?,c*)", "(a|b)+"])),
				2 => format!("<!ATTLIST n{i} k {}>", r.pick(&["CDATA #IMPLIED", "CDATA \"a>b\"", "(x|y) 'x'", "ID #REQUIRED"])),
				3 => format!("<!--{}-->", r.pick(&["plain", " it's ", "\"", "a > b", "<!ENTITY", "]>", "<", "é 漢", " ' \" ' ", "?>", ""])),
				4 => format!("<?p{i} {}?>", r.pick(&["data", "it's", ">", "\"", "]>", "<x", "é", "--> "])),
				5 => format!("<!NOTATION n{i} SYSTEM {}>", r.pick(&["\"v>\"", "'w'"])),
				6 => format!("<!ENTITY % p{i} {}>", r.pick(&["\"<!ELEMENT x ANY>\"", "'<!-- it is -->'"])),
				_ => "<!-- --><!-- -->".to_string(),
			};
			s.push_str(&item);
		}
		s.push_str(r.pick(&["]", "\n]", "] ", "\r\n]"]));
	}
	s.push_str(r.pick(&["", " "]));
	s.push('>');
	s
}

pub fn doc(r: &mut Rng, cfg: &Cfg, size: Size) -> Doc {
	Doc {
		decl: if r.chance(1, 2) { Some(decl(r)) } else { None },
		dtds: match (size, r.below(400)) {
			(Size::Huge(15), k) => if k < 200 { (0..r.range(1000, 3000)).map(|i| format!("<!DOCTYPE d{i}>")).collect() } else { vec![format!("<!DOCTYPE a [{}]>", (0..20_000).map(|i| format!("<!ENTITY e{i} '>'>\n")).collect::<String>())] },
			(_, 0) => (0..r.range(4, 60)).map(|_| dtd(r, true)).collect(),
			(_, 1..=6) => (0..r.range(2, 4)).map(|_| dtd(r, true)).collect(),
			// one of them twice
			(_, 7..=9) => {
				let mut v: Vec<String> = (0..r.range(1, 3)).map(|_| dtd(r, true)).collect();
				let x = r.pick(&v).clone();
				let at = r.below(v.len() + 1);
				v.insert(at, x);
				v
			}
			(_, 10..=99) => vec![dtd(r, true)],
			_ => vec![],
		},
		root: tree(r, cfg, size),
	}
}

/// a string that is almost this one
pub fn near(r: &mut Rng, s: &str) -> String {
	let mut v: Vec<char> = s.chars().collect();
	let n = v.len();
	match r.below(14) {
		0 => v.push(*r.pick(&[' ', '\n', '\t', '\u{a0}', '\u{300}', 'x', '1', '-', '.', ':', '/', '\0', '\u{200b}'])),
		1 => v.insert(0, *r.pick(&[' ', '\n', '\t', '\u{feff}', 'x', '_', ':', '-', '1'])),
		2 => {
			v.pop();
		}
		3 => {
			if n > 0 {
				v.remove(0);
			}
		}
		4 => return s.to_uppercase(),
		5 => return s.to_lowercase(),
		6 | 7 | 8 => {
			// one character changed, the length kept
			if n > 0 {
				let k = r.below(n);
				v[k] = *r.pick(&['a', 'b', 'Z', '_', '-', '.', '1', ' ', '=', '<', '>', '&', '"', '/', '\n', 'é', '\u{d7}', '\u{b7}', '漢']);
			}
		}
		9 => return format!("{}:{s}", r.pick(&["p", "a", "xmlns", "xml", "x"])),
		10 => return s.rsplit(':').next().unwrap_or("").to_string(),
		11 => return s.split(':').next().unwrap_or("").to_string(),
		12 => {
			if n > 1 {
				let k = r.below(n - 1);
				v.swap(k, k + 1);
			}
		}
		_ => {
			if n > 0 {
				let k = r.below(n);
				let c = v[k];
				v.insert(k, c);
			}
		}
	}
	v.into_iter().collect()
}

/// another text of much the same make: the same characters in another order, another case, or one character changed
pub fn variant(r: &mut Rng, s: &str) -> String {
	let mut v: Vec<char> = s.chars().collect();
	let n = v.len();
	if n == 0 {
		return String::new();
	}
	match r.below(6) {
		0 => {
			let k = r.below(n);
			v[k] = if v[k].is_ascii_lowercase() { v[k].to_ascii_uppercase() } else { v[k].to_ascii_lowercase() };
		}
		1 => return s.to_ascii_uppercase(),
		2 => {
			let (i, k) = (r.below(n), r.below(n));
			v.swap(i, k);
		}
		3 => v.reverse(),
		4 => {
			let k = r.below(n);
			if v[k].is_ascii_alphanumeric() {
				v[k] = *r.pick(&['a', 'b', 'Q', '7', '0']);
			}
		}
		_ => {}
	}
	v.into_iter().collect()
}

/// the same text as an owned string, often with room to spare (as after editing)
pub fn roomy(r: &mut Rng, s: &str) -> String {
	match r.below(4) {
		0 => {
			let mut t = String::with_capacity(s.len() + *r.pick(&[1usize, 8, 64, 100, 1000]));
			t.push_str(s);
			t
		}
		1 => {
			let mut t = format!("{s}{}", "tail ".repeat(r.range(1, 30)));
			t.truncate(s.len());
			t
		}
		2 => {
			let mut t = String::new();
			for c in s.chars() {
				t.push(c);
			}
			t
		}
		_ => s.to_string(),
	}
}

/// the same document with other letters: names, values and texts differ, lengths do not
pub fn remap(d: &Doc) -> Doc {
	fn st(s: &str) -> String {
		s.chars()
			.map(|c| match c {
				'b' => 'c',
				'c' => 'b',
				'e' => 'f',
				'f' => 'e',
				'i' => 'j',
				'j' => 'i',
				'k' => 'r',
				'r' => 'k',
				'0' => '1',
				'1' => '0',
				c => c,
			})
			.collect()
	}
	fn el(e: &El) -> El {
		El {
			prefix: e.prefix.as_deref().map(st),
			name: st(&e.name),
			attrs: e.attrs.iter().map(|(k, v)| (st(k), st(v))).collect(),
			ch: e
				.ch
				.iter()
				.map(|c| match c {
					N::E(x) => N::E(el(x)),
					N::T(t) => N::T(st(t)),
					N::C(t) => N::C(st(t)),
					N::D(t) => N::D(st(t)),
				})
				.collect(),
		}
	}
	Doc { decl: d.decl.clone(), dtds: d.dtds.clone(), root: el(&d.root) }
}
