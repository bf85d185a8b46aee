//! Totality of parsing, unescaping and construction.
use super::{fail, mutate};
use crate::gen::{self, Cfg, Chars, Size};
use crate::rng::Rng;
use crate::runner::*;
use crate::{snap, surface};
use kiss_xml::dom::*;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 850;

pub static PROP: Prop = Prop {
	id: "C01",
	rule: "inputs are mutated documents, token soups, all truncations of a document, one hostile token inserted at every position, byte strings through stream and file, deep nestings on a small stack, strings for unescape/escape/constructors; non-trivial: a distinct input of at least 3 characters containing markup or a reference",
	quick: 90_000,
	thorough: 3_000_000,
	shards: 8,
	floors: &[("inputs parsed", 1000), ("accepted documents", 50), ("rejected inputs", 200), ("deep nestings", 0), ("unescape calls", 20)],
	run,
	probes: &[],
};

/// everything a user would do with a result
pub fn exercise(d: &Document) -> Result<(), String> {
	let m = snap::doc(d)?;
	let s = d.to_string();
	std::str::from_utf8(s.as_bytes()).map_err(|e| format!("serialized text is not UTF-8: {e}"))?;
	let t = d.root_element().text();
	std::str::from_utf8(t.as_bytes()).map_err(|e| format!("text() is not UTF-8: {e}"))?;
	if d.root_element().all_children().count() + 1 != m.root.count() {
		return Err("all_children() does not visit every node once".into());
	}
	Ok(())
}

fn try_parse(c: &mut Ctx, s: &str) -> R {
	c.count("inputs parsed", 1);
	if s.len() >= 3 && (s.contains('<') || s.contains('&')) {
		c.nontrivial(s.as_bytes());
	}
	let r = guard(|| kiss_xml::parse_str(s)).map_err(|p| fail("panic", format!("parse_str {p}"), s))?;
	match r {
		Ok(d) => {
			c.count("accepted documents", 1);
			match guard(|| exercise(&d)) {
				Err(p) => return Err(fail("panic", format!("using the accepted document {p}"), s)),
				Ok(Err(e)) => return Err(fail("accepted", e, s)),
				Ok(Ok(())) => {}
			}
			guard(move || drop(d)).map_err(|p| fail("panic", format!("dropping the document {p}"), s))?;
		}
		Err(e) => {
			c.count("rejected inputs", 1);
			let m = e.to_string();
			if std::str::from_utf8(m.as_bytes()).is_err() || m.is_empty() {
				return Err(fail("error-text", "error message is empty or not UTF-8", s));
			}
		}
	}
	Ok(())
}

pub fn small_doc(r: &mut Rng) -> String {
	let mut cfg = Cfg::new(if r.chance(1, 3) { Chars::Any } else { Chars::Legal });
	cfg.declared = false;
	cfg.xmlnsish = true;
	let size = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Ns]);
	let d = gen::doc(r, &cfg, size);
	let st = surface::Style::random(r);
	surface::write_doc(r, &d, st).0
}

fn bytes_case(c: &mut Ctx) -> R {
	let mut b: Vec<u8> = match c.r.below(3) {
		0 => (0..c.r.range(0, 60)).map(|_| c.r.below(256) as u8).collect(),
		_ => {
			let mut s = small_doc(&mut c.r);
			if c.r.chance(1, 2) {
				mutate::mutate(&mut c.r, &mut s);
			}
			s.into_bytes()
		}
	};
	for _ in 0..c.r.below(3) {
		if !b.is_empty() {
			let i = c.r.below(b.len());
			match c.r.below(3) {
				0 => b[i] = c.r.below(256) as u8,
				1 => {
					b.remove(i);
				}
				_ => b.insert(i, *c.r.pick(&[0xC3, 0xFF, 0x80, 0xF0, 0x00, 0xEF, 0xBB, 0xBF, b'<'])),
			}
		}
	}
	let shown = format!("{:?}", b);
	c.count("inputs parsed", 1);
	c.count("byte strings", 1);
	c.nontrivial(&b);
	let valid = std::str::from_utf8(&b).is_ok();
	let r = if c.r.chance(1, 6) && !c.asan {
		let p = c.scratch.join("c01.xml");
		std::fs::write(&p, &b).map_err(|e| fail("harness", e.to_string(), ""))?;
		guard(|| kiss_xml::parse_filepath(&p)).map_err(|p| fail("panic", format!("parse_filepath {p}"), &shown))?
	} else {
		guard(|| kiss_xml::parse_stream(&b[..])).map_err(|p| fail("panic", format!("parse_stream {p}"), &shown))?
	};
	match r {
		Ok(d) => {
			if !valid {
				return Err(fail("accepted-invalid-utf8", "a document was returned for invalid UTF-8", &shown));
			}
			c.count("accepted documents", 1);
			match guard(|| exercise(&d)) {
				Err(p) => return Err(fail("panic", format!("using the accepted document {p}"), &shown)),
				Ok(Err(e)) => return Err(fail("accepted", e, &shown)),
				Ok(Ok(())) => {}
			}
		}
		Err(_) => c.count("rejected inputs", 1),
	}
	Ok(())
}

fn strings_case(c: &mut Ctx) -> R {
	for _ in 0..8 {
		let s = match c.r.below(4) {
			0 => mutate::soup(&mut c.r, 4),
			1 => gen::text(&mut c.r, Chars::Any),
			2 => {
				let n = c.r.range(1, 12);
				let mut s = String::new();
				for _ in 0..n {
					s.push_str(c.r.pick(&["&", "#", "x", "X", ";", "&amp;", "&#", "&#x", "41", "fff", "é", "🦀", "10FFFF", "d800", "-", "+1", " ", "lt", "&lt", "0", "00000000000000000041", "4294967361", "quot;", "A"]));
				}
				s
			}
			_ => {
				let mut s = String::from(*c.r.pick(&["<?", "<?xml", "<!DOCTYPE", "<!", "<", ""]));
				s.push_str(&gen::text_n(&mut c.r, Chars::Any, 1));
				s.push_str(c.r.pick(&["?>", ">", "", "?", "?> ", " >"]));
				s
			}
		};
		c.nontrivial(s.as_bytes());
		c.count("unescape calls", 1);
		macro_rules! g {
			($what:expr, $e:expr) => {
				guard(|| $e).map_err(|p| fail("panic", format!("{} {p}", $what), &s))?
			};
		}
		let u = g!("unescape", kiss_xml::unescape(s.as_str()));
		std::str::from_utf8(u.as_bytes()).map_err(|_| fail("utf8", "unescape returned invalid UTF-8", &s))?;
		let _ = g!("escape", kiss_xml::escape(s.as_str()));
		let _ = g!("text_escape", kiss_xml::text_escape(s.as_str()));
		let _ = g!("attribute_escape", kiss_xml::attribute_escape(s.as_str()));
		if let Ok(d) = g!("Declaration::from_str", Declaration::from_str(&s)) {
			let _ = g!("Declaration display", format!("{d} {d:?}"));
		}
		if let Ok(d) = g!("DTD::from_string", DTD::from_string(s.as_str())) {
			let _ = g!("DTD display", format!("{d}"));
		}
		if let Ok(d) = g!("Comment::new", Comment::new(s.as_str())) {
			let _ = g!("Comment display", format!("{d} {d:?}"));
		}
		if let Ok(d) = g!("CData::new", CData::new(s.as_str())) {
			let _ = g!("CData display", format!("{d} {d:?}"));
		}
		let _ = g!("Text display", format!("{} {:?}", Text::new(s.as_str()), Text::new(s.as_str())));
		if let Ok(e) = g!("Element::new_from_name", Element::new_from_name(&s)) {
			let _ = g!("Element display", format!("{e} {e:?}"));
		}
		let e = g!("Element::new", Element::new("a", Some(s.clone()), Some(std::collections::HashMap::from([(s.clone(), s.clone())])), Some(s.clone()), Some(s.clone()), Some(vec![Text::new(s.as_str()).boxed()])));
		if let Ok(e) = e {
			let _ = g!("Element display", format!("{e}"));
		}
		let mut e = Element::new_with_text("a", s.as_str()).map_err(|e| fail("constructor", e.to_string(), &s))?;
		let _ = g!("set_attr", e.set_attr(s.as_str(), s.as_str()));
		let _ = g!("insert", e.insert(c.r.below(4), Text::new(s.as_str())));
		let _ = g!("Element display", format!("{e}"));
		let _ = g!("to_string_with_indent", e.to_string_with_indent(&s));
	}
	Ok(())
}

fn deep_case(c: &mut Ctx) -> R {
	let big = if c.asan { 3000 } else { *c.r.pick(&[500, 2000, 20_000, 60_000]) };
	let n = c.r.range(big / 2, big);
	let mut s = String::new();
	let style = c.r.below(8);
	let open = match style {
		0 | 1 => "<a>".to_string(),
		2 => "<a b='c'>".to_string(),
		3 => "<a>t".to_string(),
		4 => "<a><!--c-->".to_string(),
		5 => "<p:a xmlns:p='u'>".to_string(),
		6 => "<a xmlns='u'><b/>".to_string(),
		_ => "<é>\n ".to_string(),
	};
	let close = match style {
		5 => "</p:a>",
		7 => "</é>",
		3 => "t</a>",
		_ => "</a>",
	};
	s.push_str(&open.repeat(n));
	let closes = match c.r.below(4) {
		0 => 0,
		1 => n - 1,
		_ => n,
	};
	s.push_str(&close.repeat(closes));
	if c.r.chance(1, 8) {
		s.push_str("</a>");
	}
	if c.r.chance(1, 8) {
		s = format!("<!DOCTYPE a {}", "<".repeat(n));
	}
	if c.r.chance(1, 10) {
		s = format!("<!DOCTYPE a [{}{}]><a/>", "<!x ".repeat(n), ">".repeat(n));
	}
	c.count("deep nestings", 1);
	c.count("inputs parsed", 1);
	c.nontrivial(format!("{style}/{n}/{closes}").as_bytes());
	let what = format!("{} x{} then {} x{}", open, n, close, closes);
	// on a stack of a quarter of the usual size: recursion per level would overflow it
	let h = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
		guard(|| {
			let r = kiss_xml::parse_str(s);
			let ok = r.is_ok();
			drop(r);
			ok
		})
	});
	let r = h.map_err(|e| fail("harness", e.to_string(), ""))?.join().map_err(|_| fail("panic", "thread died", &what))?;
	match r {
		Err(p) => return Err(fail("panic", format!("parsing or dropping a deep nesting {p}"), &what)),
		Ok(true) => c.count("accepted documents", 1),
		Ok(false) => c.count("rejected inputs", 1),
	}
	Ok(())
}

/// moderately deep documents must be usable on an ordinary thread
fn deep_use_case(c: &mut Ctx) -> R {
	let n = c.r.range(100, 1000);
	let s = format!("{}{}{}", "<a>".repeat(n), c.r.pick(&["", "t", "<b/><!--x-->"]), "</a>".repeat(n));
	c.count("inputs parsed", 1);
	c.count("deep documents used", 1);
	// frames of instrumented builds are much larger
	let stack = if c.asan { 64 << 20 } else { 2 << 20 };
	let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
		guard(|| -> Result<(), String> {
			let d = kiss_xml::parse_str(s).map_err(|e| e.to_string())?;
			exercise(&d)?;
			let e = d.root_element().clone();
			if &e != d.root_element() {
				return Err("clone differs".into());
			}
			Ok(())
		})
	});
	match h.map_err(|e| fail("harness", e.to_string(), ""))?.join().map_err(|_| fail("panic", "thread died", ""))? {
		Err(p) => Err(fail("panic", p, &format!("{n} nested <a>"))),
		Ok(Err(e)) => Err(fail("deep", e, &format!("{n} nested <a>"))),
		Ok(Ok(())) => {
			c.count("accepted documents", 1);
			Ok(())
		}
	}
}

/// one enormous dimension, on a stack smaller than that of the main thread
fn huge_case(c: &mut Ctx, size: Size) -> R {
	let mut cfg = Cfg::new(Chars::Any);
	cfg.declared = false;
	let d = gen::doc(&mut c.r, &cfg, size);
	let st = surface::Style::random(&mut c.r);
	let mut s = surface::write_doc(&mut c.r, &d, st).0;
	if c.r.chance(1, 4) {
		mutate::once(&mut c.r, &mut s);
	}
	c.count("inputs parsed", 1);
	c.count("enormous documents", 1);
	c.nontrivial(s.as_bytes());
	let shown = format!("{size:?} {}", s.chars().take(300).collect::<String>());
	let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
		guard(|| -> Result<bool, String> {
			let r = kiss_xml::parse_str(s.as_str());
			if let Ok(d) = &r {
				exercise(d)?;
			}
			let u = kiss_xml::unescape(s.as_str());
			let _ = kiss_xml::escape(u);
			Ok(r.is_ok())
		})
	});
	match h.map_err(|e| fail("harness", e.to_string(), ""))?.join().map_err(|_| fail("panic", "thread died", &shown))? {
		Err(p) => return Err(fail("panic", p, &shown)),
		Ok(Err(e)) => return Err(fail("accepted", e, &shown)),
		Ok(Ok(true)) => c.count("accepted documents", 1),
		Ok(Ok(false)) => c.count("rejected inputs", 1),
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	if let Some(h) = c.huge(HUGE_PERIOD) {
		return huge_case(c, h);
	}
	let k = if c.idx % 500 == 0 { 100 } else if c.idx % 500 == 1 { 101 } else { c.r.below(100) };
	match k {
		0..=44 => {
			let mut s = small_doc(&mut c.r);
			mutate::mutate(&mut c.r, &mut s);
			c.sample(|| s.clone());
			try_parse(c, &s)
		}
		45..=69 => {
			let n = match c.r.below(5) {
				0 => c.r.range(1, 3),
				4 => c.r.range(20, 80),
				_ => c.r.range(3, 12),
			};
			let s = mutate::soup(&mut c.r, n);
			try_parse(c, &s)
		}
		70 => {
			// every truncation
			let s = small_doc(&mut c.r);
			let step = s.len() / 400 + 1;
			let mut k = 0;
			for (i, _) in s.char_indices() {
				k += 1;
				if k % step == 0 {
					try_parse(c, &s[..i])?;
				}
			}
			c.count("documents truncated everywhere", 1);
			Ok(())
		}
		71 => {
			// one hostile token at every position
			let s = small_doc(&mut c.r);
			let t = *c.r.pick(mutate::TOKENS);
			let step = s.len() / 300 + 1;
			let mut k = 0;
			let idx: Vec<usize> = s.char_indices().map(|x| x.0).collect();
			for i in idx {
				k += 1;
				if k % step == 0 {
					let mut m = s.clone();
					m.insert_str(i, t);
					try_parse(c, &m)?;
				}
			}
			c.count("documents with a token everywhere", 1);
			Ok(())
		}
		72..=83 => bytes_case(c),
		84..=95 => strings_case(c),
		96 | 97 => {
			// valid documents of larger sizes
			let mut cfg = Cfg::new(Chars::Any);
			cfg.declared = false;
			let size = if c.asan { Size::Small } else { *c.r.pick(&[Size::Wide, Size::Deep, Size::Long, Size::Attrs, Size::Medium]) };
			let d = gen::doc(&mut c.r, &cfg, size);
			let st = surface::Style::random(&mut c.r);
			let mut s = surface::write_doc(&mut c.r, &d, st).0;
			if c.r.chance(1, 2) {
				mutate::mutate(&mut c.r, &mut s);
			}
			try_parse(c, &s)
		}
		98 | 99 => {
			// unterminated things followed by a lot of text
			let n = c.r.range(1, if c.asan { 200 } else { 5000 });
			let t = *c.r.pick(&["<", "<a", "\"", "<!--", "<a b=\"", "é", "<![CDATA[", "<!", "<!DOCTYPE", "&", "&#", "<?", "<a b='", "]]>", "-", "=", "/", "<a ", "🦀"]);
			let u = *c.r.pick(&["", ">", "</a>", "-->", "\">", "]]>", "'/>", "?>"]);
			let s = format!("{}{}{}", c.r.pick(&["", "<a>", "<a b='", "<!--", "<a><![CDATA[", "<!DOCTYPE a [", "<?"]), t.repeat(n), u);
			try_parse(c, &s)
		}
		100 => deep_case(c),
		_ => deep_use_case(c),
	}
}
