//! Writes a model tree as XML text with random equivalent surface syntax.
use crate::gen;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Style {
	/// chance (per cent) of spaces inside tags, of references for ordinary characters, ...
	pub tagws: usize,
	pub refs: usize,
	/// insignificant white space between children
	pub indent: usize,
	/// only LF, tab and space as white space
	pub plain: bool,
}

impl Style {
	pub fn random(r: &mut Rng) -> Style {
		Style { tagws: *r.pick(&[0, 10, 50]), refs: *r.pick(&[0, 2, 15]), indent: *r.pick(&[0, 30, 90]), plain: r.chance(1, 2) }
	}
	pub fn minimal() -> Style {
		Style { tagws: 0, refs: 0, indent: 0, plain: true }
	}
}

/// where an element's markup was written
#[derive(Clone, Debug)]
pub struct Mark {
	pub open: usize,
	/// end of the open tag
	pub open_end: usize,
	/// start of the closing tag (None if self-closing)
	pub close: Option<usize>,
	pub end: usize,
	pub depth: usize,
	pub tag: String,
}

pub struct Writer<'a> {
	pub r: &'a mut Rng,
	pub st: Style,
	pub out: String,
	pub marks: Vec<Mark>,
}

fn space(r: &mut Rng, plain: bool, max: usize) -> String {
	let mut s = String::new();
	for _ in 0..r.range(1, max) {
		s.push(match r.below(if plain { 3 } else { 4 }) {
			0 => '\n',
			1 => '\t',
			2 => ' ',
			_ => '\r',
		});
	}
	s
}

impl<'a> Writer<'a> {
	pub fn new(r: &'a mut Rng, st: Style) -> Self {
		Writer { r, st, out: String::new(), marks: Vec::new() }
	}
	fn opt_ws(&mut self) {
		if self.r.below(100) < self.st.tagws {
			let s = space(self.r, self.st.plain, 2);
			self.out.push_str(&s);
		}
	}
	fn must_ws(&mut self) {
		if self.r.below(100) < self.st.tagws {
			let s = space(self.r, self.st.plain, 3);
			self.out.push_str(&s);
		} else {
			self.out.push(' ');
		}
	}
	fn reference(&mut self, c: char) {
		let u = c as u32;
		let s = match self.r.below(5) {
			0 => format!("&#{};", u),
			1 => format!("&#x{:x};", u),
			2 => format!("&#x{:X};", u),
			3 => format!("&#{}{};", "0".repeat(self.r.below(4)), u),
			_ => format!("&#x{}{:x};", "0".repeat(self.r.below(4)), u),
		};
		self.out.push_str(&s);
	}
	fn escaped(&mut self, c: char, named: &str) {
		if self.st.refs > 0 && self.r.chance(1, 4) {
			self.reference(c);
		} else {
			self.out.push_str(named);
		}
	}
	pub fn text(&mut self, t: &str) {
		let mut prev = ['\0', '\0'];
		for c in t.chars() {
			match c {
				'&' => self.escaped(c, "&amp;"),
				'<' => self.escaped(c, "&lt;"),
				'>' => {
					if prev == [']', ']'] || self.r.chance(1, 2) {
						self.escaped(c, "&gt;")
					} else {
						self.out.push('>')
					}
				}
				'\'' if self.st.refs > 0 && self.r.chance(1, 3) => self.escaped(c, "&apos;"),
				'"' if self.st.refs > 0 && self.r.chance(1, 3) => self.escaped(c, "&quot;"),
				_ => {
					if self.r.below(100) < self.st.refs {
						self.reference(c)
					} else {
						self.out.push(c)
					}
				}
			}
			prev = [prev[1], c];
		}
	}
	fn value(&mut self, v: &str) {
		let q = if self.r.chance(1, 2) { '"' } else { '\'' };
		self.out.push(q);
		for c in v.chars() {
			match c {
				'&' => self.escaped(c, "&amp;"),
				'<' => self.escaped(c, "&lt;"),
				'>' if self.r.chance(1, 2) => self.escaped(c, "&gt;"),
				'"' if q == '"' || self.r.chance(1, 3) => self.escaped(c, "&quot;"),
				'\'' if q == '\'' || self.r.chance(1, 3) => self.escaped(c, "&apos;"),
				_ => {
					if self.r.below(100) < self.st.refs {
						self.reference(c)
					} else {
						self.out.push(c)
					}
				}
			}
		}
		self.out.push(q);
	}
	fn gap(&mut self) {
		if self.r.below(100) < self.st.indent {
			let s = space(self.r, self.st.plain, 5);
			self.out.push_str(&s);
		}
	}
	pub fn el(&mut self, e: &El, depth: usize) {
		let open = self.out.len();
		let idx = self.marks.len();
		let tag = e.tag();
		self.marks.push(Mark { open, open_end: 0, close: None, end: 0, depth, tag: tag.clone() });
		self.out.push('<');
		self.out.push_str(&tag);
		let mut attrs: Vec<(&String, &String)> = e.attrs.iter().collect();
		self.r.shuffle(&mut attrs);
		for (k, v) in attrs {
			self.must_ws();
			self.out.push_str(k);
			self.opt_ws();
			self.out.push('=');
			self.opt_ws();
			self.value(v);
		}
		self.opt_ws();
		if e.ch.is_empty() && self.r.chance(1, 2) {
			self.out.push_str("/>");
			self.marks[idx].open_end = self.out.len();
			self.marks[idx].end = self.out.len();
			return;
		}
		self.out.push('>');
		self.marks[idx].open_end = self.out.len();
		let real = e.has_text();
		if !real {
			self.gap();
		}
		for c in &e.ch {
			match c {
				N::E(x) => self.el(x, depth + 1),
				N::T(t) => self.text(t),
				N::C(t) => {
					self.out.push_str("<!--");
					self.out.push_str(t);
					self.out.push_str("-->");
				}
				N::D(t) => {
					self.out.push_str("<![CDATA[");
					self.out.push_str(t);
					self.out.push_str("]]>");
				}
			}
			if !real {
				self.gap();
			}
		}
		self.marks[idx].close = Some(self.out.len());
		self.out.push_str("</");
		self.out.push_str(&tag);
		self.opt_ws();
		self.out.push('>');
		self.marks[idx].end = self.out.len();
	}
	/// comments, processing instructions and white space as allowed outside the root
	pub fn misc(&mut self, n: usize, pis: bool) {
		for _ in 0..n {
			let k = self.r.below(3);
			if k == 0 && pis {
				let p = pi(self.r);
				self.out.push_str(&p);
			} else if k == 1 {
				let c = gen::comment_text(self.r, gen::Chars::Plain, true);
				self.out.push_str("<!--");
				self.out.push_str(&c);
				self.out.push_str("-->");
			} else {
				let s = space(self.r, self.st.plain, 3);
				self.out.push_str(&s);
			}
		}
	}
	pub fn doc(&mut self, d: &Doc) {
		if let Some(x) = &d.decl {
			self.out.push_str(x);
		}
		let n = self.r.below(3);
		if self.r.chance(1, 3) {
			self.misc(n, true);
		} else if d.decl.is_some() || self.r.chance(1, 3) {
			self.out.push_str(if self.r.chance(1, 2) { "\n" } else { "" });
		}
		for t in &d.dtds {
			self.out.push_str(t);
			if self.r.chance(1, 3) {
				self.misc(n, true);
			} else {
				self.out.push('\n');
			}
		}
		self.el(&d.root, 0);
		if self.r.chance(1, 3) {
			self.misc(n, false);
		} else if self.r.chance(1, 2) {
			self.out.push('\n');
		}
	}
}

pub fn pi(r: &mut Rng) -> String {
	let target = r.pick(&["pi", "xml-stylesheet", "php", "target", "xmlfoo", "é", "XM"]);
	let data = r.pick(&["", " type=\"text/css\" href=\"a.css\"", " it's", " a > b", " \"", " <a>", " </root>", " <!-- ", " 漢", " x=1?", " '>' ", " --> "]);
	format!("<?{target}{data}?>")
}

pub fn write_doc(r: &mut Rng, d: &Doc, st: Style) -> (String, Vec<Mark>) {
	let mut w = Writer::new(r, st);
	w.doc(d);
	(w.out, w.marks)
}
pub fn write_el(r: &mut Rng, e: &El, st: Style) -> String {
	let mut w = Writer::new(r, st);
	w.el(e, 0);
	w.out
}
