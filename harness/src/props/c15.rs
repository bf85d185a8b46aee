//! Declaration and DTDs verbatim; other prolog and epilog content without effect.
use super::fail;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::snap;
use crate::surface::{self, Style};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 10784;

pub static PROP: Prop = Prop {
	id: "C15",
	rule: "documents whose prolog and epilog are assembled from known parts (byte order mark, declaration, several DTDs with hostile internal subsets, comments, processing instructions, whitespace) are parsed as text or stream; declaration, DTDs and tree must be exactly the assembled ones, equal to the document parsed without the other parts, and written out and re-read verbatim; and Document accessors and setters are driven against a list model; non-trivial: a distinct text with a declaration or DTD and something to ignore, or a distinct accessor history",
	quick: 550000,
	thorough: 6000000,
	shards: 8,
	floors: &[("documents parsed", 500), ("DTDs checked", 400), ("parts to ignore", 800), ("declarations checked", 300), ("accessor steps", 500), ("several DTDs", 50), ("text after root", 100)],
	run,
	probes: &[],
};

const FAKES: &[&str] = &[
	"<!DOCTYPE fake>", "<!DOCTYPE fake [", "<?xml version=\"9.9\"?", "<root>", "</root>", "<a/>", "<a", "]>", "]]>", "'", "\"", "it's", "say \"", "<", ">", "/>", "[", "&amp;", "&lt;", "&", "<![CDATA[", "<!ENTITY x \"y\">", "?", "é漢🦀",
	"\u{feff}", "xml", "<!-", "\n", "<?pi", "!", "<!", "<b x='", "= \"", "%pe;", "a>b", "->", "text ", "-", "\u{2028}", "\u{85}", "DOCTYPE", "<!DOCTYPE", "\r\n", "\r", "\t", "  ", "\u{a0}", "\n\n",
];

/// the same with other white space
fn other_white(r: &mut Rng, s: String) -> String {
	match r.below(12) {
		0 => s.replace('\n', "\r\n"),
		1 => s.replace('\n', "\r").replace("  ", "\r\n"),
		2 => s.replace(' ', "\t"),
		3 => s.replace(' ', "  "),
		4 => s.replace(' ', "\r\n"),
		_ => s,
	}
}

fn hostile(r: &mut Rng) -> String {
	match r.below(8) {
		0 => String::new(),
		1 => gen::text(r, Chars::Plain),
		2 => {
			// long enough to be abbreviated in messages, multi-byte at the cut
			let mut s = "é漢x🦀".repeat(r.range(4, 40));
			s.push_str(r.pick(FAKES));
			s
		}
		_ => {
			let mut s = String::new();
			for _ in 0..r.range(1, 6) {
				s.push_str(r.pick(FAKES));
				if r.chance(1, 3) {
					s.push(' ');
				}
			}
			s
		}
	}
}

fn comment(r: &mut Rng) -> String {
	let mut s = hostile(r);
	while s.contains("--") {
		s = s.replace("--", "-");
	}
	if s.ends_with('-') {
		s.push(' ');
	}
	if s.starts_with('-') || s.starts_with('>') {
		s.insert(0, ' ');
	}
	format!("<!--{s}-->")
}

fn pi(r: &mut Rng) -> String {
	if r.chance(1, 3) {
		return surface::pi(r);
	}
	let mut s = hostile(r);
	while s.contains("?>") {
		s = s.replace("?>", "?");
	}
	let t = *r.pick(&["pi", "xml-stylesheet", "x", "é", "xmlx", "_t", "xml-model", "Y", "p.q"]);
	if s.is_empty() {
		format!("<?{t}?>")
	} else if s.ends_with('?') && r.chance(1, 2) {
		format!("<?{t} {s}?>")
	} else {
		format!("<?{t} {s} ?>")
	}
}

/// a document type declaration whose internal subset holds hostile quoted text, comments and instructions
pub fn rich_dtd(r: &mut Rng) -> String {
	let s = plain_dtd(r);
	other_white(r, s)
}

fn plain_dtd(r: &mut Rng) -> String {
	if r.chance(1, 4) {
		return gen::dtd(r, r.clone().chance(1, 2));
	}
	let quoted = |r: &mut Rng| -> String {
		let q = if r.chance(1, 2) { '"' } else { '\'' };
		let mut s = hostile(r);
		s.retain(|c| c != q);
		format!("{q}{s}{q}")
	};
	let mut s = String::from("<!DOCTYPE");
	s.push_str(r.pick(&[" ", "\n", "\t", "  "]));
	s.push_str(&gen::name(r));
	match r.below(4) {
		0 => s.push_str(&format!(" SYSTEM {}", quoted(r))),
		1 => s.push_str(&format!(" PUBLIC '-//x//y' {}", quoted(r))),
		_ => {}
	}
	if r.chance(4, 5) {
		s.push_str(r.pick(&[" [", "[", "\n[ "]));
		let n = if r.chance(1, 30) { r.range(30, 200) } else { r.range(0, 7) };
		for i in 0..n {
			let x = match r.below(12) {
				9 => {
					// conditional sections and other nesting, with quoted text at every level
					let depth = if r.chance(1, 40) { *r.pick(&[30usize, 64, 127, 128, 129, 200, 255, 256, 257, 300, 1000]) } else if r.chance(1, 4000) { 66_000 } else { r.range(1, 5) };
					let mut x = String::new();
					for _ in 0..depth {
						x.push_str(r.pick(&["<![INCLUDE[", "<![ %draft; [", "<!x "]));
						if r.chance(1, 2) {
							x.push_str(&format!("<!ENTITY a {}>", quoted(r)));
						}
						if r.chance(1, 3) {
							x.push_str(&comment(r));
						}
					}
					x.push_str(&format!("<!ENTITY b {}>", quoted(r)));
					for _ in 0..depth {
						if r.chance(1, 3) {
							x.push_str(&format!("<!ENTITY % c {}>", quoted(r)));
						}
						if r.chance(1, 4) {
							x.push_str(&pi(r));
						}
						x.push_str(r.pick(&["]]>", ">", " >"]));
					}
					x
				}
				10 => format!("<!ENTITY e{i} PUBLIC {} {}\n>", quoted(r), quoted(r)),
				0 => format!("<!ENTITY e{i} {}>", quoted(r)),
				1 => format!("<!ENTITY e{i} SYSTEM {} NDATA gif>", quoted(r)),
				2 => format!("<!ENTITY % p{i} {}>", quoted(r)),
				3 => format!("<!ATTLIST n{i} k CDATA {} l (a|b) {}>", quoted(r), quoted(r)),
				4 => comment(r),
				5 => pi(r),
				6 => format!("<!ELEMENT n{i} ((a|b)*,c?)>"),
				7 => "%pe;".to_string(),
				_ => format!("<!NOTATION n{i} PUBLIC {}>", quoted(r)),
			};
			s.push_str(&x);
			s.push_str(r.pick(&["", "", " ", "\n", "\n\t"]));
		}
		s.push_str(r.pick(&["]", "\n]", "] "]));
	}
	s.push_str(r.pick(&["", "", "", " ", "\n", "\t", "\n\n  "]));
	s.push('>');
	s
}

fn white(r: &mut Rng) -> String {
	(0..r.range(1, 4)).map(|_| *r.pick(&['\n', ' ', '\t', '\r'])).collect()
}

struct Made {
	text: String,
	/// the same document without anything that is to be ignored
	plain: String,
	m: Doc,
	ignored: u64,
}

fn make(r: &mut Rng, root: El) -> Made {
	let decl = if r.chance(3, 5) {
		let s = gen::decl(r);
		Some(other_white(r, s))
	} else {
		None
	};
	let n = if r.chance(1, 150) { r.range(6, 80) } else { *r.pick(&[0, 0, 1, 1, 1, 2, 3, 5]) };
	let mut dtds: Vec<String> = (0..n).map(|_| rich_dtd(r)).collect();
	if n > 0 && r.chance(1, 12) {
		// one of them twice
		let x = r.pick(&dtds).clone();
		let at = r.below(n + 1);
		dtds.insert(at, x);
	}
	let root_text = surface::write_el(r, &root, Style::minimal());
	let mut t = String::new();
	let mut p = String::new();
	let mut ignored = 0;
	if r.chance(1, 5) {
		t.push('\u{feff}');
		ignored += 1;
	}
	if let Some(d) = &decl {
		t.push_str(d);
		p.push_str(d);
	}
	let dense = if r.chance(1, 200) { r.range(20, 100) } else { r.below(4) };
	let misc = |r: &mut Rng, t: &mut String, pis: bool, ignored: &mut u64| {
		for _ in 0..r.below(dense + 1) {
			*ignored += 1;
			let s = match r.below(if pis { 4 } else { 3 }) {
				0 => white(r),
				3 => pi(r),
				_ => comment(r),
			};
			t.push_str(&s);
		}
	};
	misc(r, &mut t, true, &mut ignored);
	for d in &dtds {
		t.push_str(d);
		p.push_str(d);
		misc(r, &mut t, true, &mut ignored);
	}
	t.push_str(&root_text);
	p.push_str(&root_text);
	misc(r, &mut t, false, &mut ignored);
	Made { text: t, plain: p, m: Doc { decl, dtds, root }, ignored }
}

/// what is written starts with exactly the declaration and the DTDs
fn written(d: &Document, m: &Doc) -> Result<String, String> {
	let s = d.to_string();
	let mut rest = s.as_str();
	for (i, x) in m.decl.iter().chain(m.dtds.iter()).enumerate() {
		rest = match rest.strip_prefix(x.as_str()).and_then(|y| y.strip_prefix('\n')) {
			Some(y) => y,
			None => return Err(format!("written text has not {} as its part number {i}: {}", show(x), show(rest))),
		};
	}
	let root = d.root_element().to_string();
	if rest.trim_end_matches('\n') != root.trim_end_matches('\n') {
		return Err(format!("after declaration and DTDs the written text is {} instead of the root {}", show(rest), show(&root)));
	}
	Ok(s)
}

fn parse_case(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.strict_comments = true;
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let size = huge.unwrap_or(*c.r.pick(&[Size::Tiny, Size::Tiny, Size::Small]));
	let root = gen::tree(&mut c.r, &cfg, size);
	let x = make(&mut c.r, root);
	let t = &x.text;
	c.sample(|| t.clone());
	let parse = |stream: bool, s: &str| -> Result<Result<Document, KissXmlError>, String> {
		guard(|| if stream { kiss_xml::parse_stream(s.as_bytes()) } else { kiss_xml::parse_str(s) })
	};
	let stream = c.r.chance(1, 5);
	let d = match parse(stream, t).map_err(|p| fail("panic", p, t))? {
		Err(e) => return Err(fail("rejected", format!("well-formed document rejected: {e}"), t)),
		Ok(d) => d,
	};
	c.count("documents parsed", 1);
	c.count("DTDs checked", x.m.dtds.len() as u64);
	c.count("parts to ignore", x.ignored);
	c.count("declarations checked", x.m.decl.is_some() as u64);
	c.count("no declaration", x.m.decl.is_none() as u64);
	c.count("several DTDs", (x.m.dtds.len() > 1) as u64);
	if !t.ends_with('>') || t.ends_with("-->") {
		c.count("text after root", 1);
	}
	if x.ignored > 0 && (x.m.decl.is_some() || !x.m.dtds.is_empty()) {
		c.nontrivial(t.as_bytes());
	}
	if let Err(e) = snap::same_doc(&x.m, &d, true) {
		return Err(fail("content", e, t));
	}
	// the same without the ignored parts
	let p = match parse(false, &x.plain).map_err(|p| fail("panic", p, &x.plain))? {
		Err(e) => return Err(fail("rejected", format!("well-formed document rejected: {e}"), &x.plain)),
		Ok(d) => d,
	};
	if p != d || d != p {
		return Err(fail("ignored-part", "the document differs from the one parsed without comments, instructions and whitespace outside the root", t));
	}
	let s = written(&d, &x.m).map_err(|e| fail("written", e, t))?;
	if s != p.to_string() {
		return Err(fail("written", "written text depends on the ignored parts", t));
	}
	let again = match parse(stream, &s).map_err(|p| fail("panic", p, &s))? {
		Err(e) => return Err(fail("rejected", format!("the written document is rejected: {e}"), &s)),
		Ok(d) => d,
	};
	if let Err(e) = snap::same_doc(&x.m, &again, true) {
		return Err(fail("content", format!("after writing and parsing again {e}"), &s));
	}
	Ok(())
}

fn any_decl(r: &mut Rng) -> String {
	if r.chance(2, 3) {
		let s = gen::decl(r);
		return other_white(r, s);
	}
	let mut s = hostile(r);
	while s.contains("?>") {
		s = s.replace("?>", "?");
	}
	format!("<?xml {s} ?>")
}

fn make_decl(c: &mut Ctx, s: &str, log: &str) -> Result<Declaration, Fail> {
	let d = match guard(|| Declaration::from_str(s)).map_err(|p| fail("panic", p, s))? {
		Ok(d) => d,
		Err(e) => return Err(fail("refused", format!("declaration refused: {e}"), &format!("{log}\n{s}"))),
	};
	if d.to_string() != s {
		return Err(fail("content", format!("Declaration::from_str({}) shows as {}", show(s), show(&d.to_string())), s));
	}
	c.count("declarations checked", 1);
	Ok(d)
}
fn make_dtd(c: &mut Ctx, s: &str, log: &str) -> Result<DTD, Fail> {
	let d = match guard(|| DTD::from_string(s)).map_err(|p| fail("panic", p, s))? {
		Ok(d) => d,
		Err(e) => return Err(fail("refused", format!("DTD refused: {e}"), &format!("{log}\n{s}"))),
	};
	if d.to_string() != s {
		return Err(fail("content", format!("DTD::from_string({}) shows as {}", show(s), show(&d.to_string())), s));
	}
	c.count("DTDs checked", 1);
	Ok(d)
}

fn api_case(c: &mut Ctx) -> R {
	let cfg = Cfg::new(Chars::Plain);
	let root = gen::tree(&mut c.r, &cfg, Size::Tiny);
	let mut log = String::new();
	let mut parsable = true;
	let e = snap::build(&mut c.r, &root).map_err(|e| fail("constructor", e, ""))?;
	let std_decl = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
	let mut m = Doc { decl: None, dtds: vec![], root };
	let dtd_list = |c: &mut Ctx, log: &str| -> Result<(Vec<String>, Vec<DTD>), Fail> {
		let n = c.r.below(4);
		let mut a: Vec<String> = Vec::new();
		let mut b = Vec::new();
		for _ in 0..n {
			let s = if !a.is_empty() && c.r.chance(1, 6) { c.r.pick(&a).clone() } else { rich_dtd(&mut c.r) };
			b.push(make_dtd(c, &s, log)?);
			a.push(s);
		}
		Ok((a, b))
	};
	let mut d = match c.r.below(3) {
		0 => {
			m.decl = Some(std_decl.into());
			log.push_str("new;");
			Document::new(e)
		}
		1 => {
			let (a, b) = dtd_list(c, &log)?;
			m.dtds = a;
			let s = any_decl(&mut c.r);
			parsable &= s.matches("<?xml").count() == 1;
			let dd = make_decl(c, &s, &log)?;
			m.decl = Some(s);
			log.push_str(&format!("new_with_decl_dtd {:?};", m.dtds));
			Document::new_with_decl_dtd(e, Some(dd), Some(&b))
		}
		_ => {
			log.push_str("new_with_decl_dtd none;");
			Document::new_with_decl_dtd(e, None, if c.r.chance(1, 2) { None } else { Some(&[]) })
		}
	};
	let steps = c.r.range(1, 8);
	for _ in 0..steps {
		c.count("accessor steps", 1);
		match c.r.below(9) {
			0 => {
				log.push_str("set_declaration none;");
				d.set_declaration(None);
				m.decl = None;
			}
			1 => {
				let s = any_decl(&mut c.r);
				let dd = make_decl(c, &s, &log)?;
				log.push_str(&format!("set_declaration {s:?};"));
				d.set_declaration(Some(dd));
				m.decl = Some(s);
			}
			2 => {
				let dd = if c.r.chance(1, 2) { Declaration::new() } else { Declaration::default() };
				log.push_str("set_declaration standard;");
				d.set_declaration(Some(dd));
				m.decl = Some(std_decl.into());
			}
			3 => {
				log.push_str("set_doctype_defs none;");
				d.set_doctype_defs(None);
				m.dtds.clear();
			}
			4 | 5 => {
				let (a, b) = dtd_list(c, &log)?;
				log.push_str(&format!("set_doctype_defs {a:?};"));
				d.set_doctype_defs(Some(&b));
				m.dtds = a;
			}
			6 => {
				// replace one in place
				let n = m.dtds.len();
				let seen = d.doctype_defs_mut().count();
				if seen != n {
					return Err(fail("accessor", format!("doctype_defs_mut has {seen} items instead of {n}"), &log));
				}
				if n > 0 {
					let k = c.r.below(n);
					let s = rich_dtd(&mut c.r);
					let x = make_dtd(c, &s, &log)?;
					log.push_str(&format!("doctype_defs_mut[{k}] = {s:?};"));
					if let Some(y) = d.doctype_defs_mut().nth(k) {
						*y = x;
					}
					m.dtds[k] = s;
				}
			}
			7 => {
				log.push_str("copy through the accessors;");
				let dtds: Vec<DTD> = d.doctype_defs().cloned().collect();
				let mut e = Document::new_with_decl_dtd(d.root_element().clone(), d.declaration().clone(), Some(&dtds));
				if e != d {
					return Err(fail("accessor", "a document copied through its accessors differs", &log));
				}
				e.set_doctype_defs(Some(&dtds));
				d.set_declaration(None);
				d.set_doctype_defs(None);
				d = e;
			}
			_ => {
				// touching the root must not touch the rest
				log.push_str("edit root;");
				d.root_element_mut().append(Comment::new("x").map_err(|e| fail("constructor", e.to_string(), &log))?);
				m.root.ch.push(N::C("x".into()));
			}
		}
		if let Err(e) = snap::same_doc(&m, &d, true) {
			return Err(fail("accessor", e, &log));
		}
		let seen: Vec<String> = d.doctype_defs_mut().map(|x| x.to_string()).collect();
		if seen != m.dtds {
			return Err(fail("accessor", format!("doctype_defs_mut gives {seen:?}"), &log));
		}
		written(&d, &m).map_err(|e| fail("written", e, &log))?;
	}
	c.nontrivial(log.as_bytes());
	if parsable {
		let s = d.to_string();
		let x = match guard(|| kiss_xml::parse_str(s.as_str())).map_err(|p| fail("panic", p, &s))? {
			Ok(x) => x,
			Err(e) => return Err(fail("rejected", format!("the written document is rejected: {e}"), &s)),
		};
		let mut want = m.clone();
		norm(&mut want.root);
		if let Err(e) = snap::same_doc(&want, &x, true) {
			return Err(fail("content", format!("after writing and parsing {e}"), &s));
		}
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	if c.huge(HUGE_PERIOD).is_some() || c.r.chance(2, 3) {
		parse_case(c)
	} else {
		api_case(c)
	}
}
