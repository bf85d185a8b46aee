//! Errors: the kind of the cause, true data, kept by conversion.
use super::{c03, fail, mutate};
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::refparse::{self, No};
use crate::runner::*;
use crate::{edit, snap, surface};
use kiss_xml::dom::*;
use kiss_xml::errors::*;
use std::collections::HashMap;
use std::io::{self, Read, Write};

pub static PROP: Prop = Prop {
	id: "C19",
	rule: "failures of every cause are provoked (a known defect in a document, unsupported markup, names and content that must be refused, indices and names that do not exist, wrong casts, readers, writers and paths that fail in a chosen way); the variant of the error, the data in it, its message and what it converts to are compared with the cause; non-trivial: a distinct cause",
	quick: 1200000,
	thorough: 12000000,
	shards: 8,
	floors: &[("parsing errors", 200), ("unsupported markup", 5), ("name errors", 60), ("content errors", 50), ("index errors", 150), ("missing names", 50), ("cast errors", 100), ("I/O errors", 60), ("conversions", 300)],
	run,
	probes: &[],
};

fn tag(e: &KissXmlError) -> &'static str {
	match e {
		KissXmlError::ParsingError(_) => "ParsingError",
		KissXmlError::TypeCastError(_) => "TypeCastError",
		KissXmlError::DoesNotExistError(_) => "DoesNotExistError",
		KissXmlError::IndexOutOfBounds(_) => "IndexOutOfBounds",
		KissXmlError::InvalidAttributeName(_) => "InvalidAttributeName",
		KissXmlError::InvalidElementName(_) => "InvalidElementName",
		KissXmlError::InvalidContent(_) => "InvalidContent",
		KissXmlError::NotSupportedError(_) => "NotSupportedError",
		KissXmlError::IOError(_) => "IOError",
	}
}

/// `?` in a function returning KissXmlError: variant, message and shown text stay
fn convert<E: Into<KissXmlError> + std::error::Error>(c: &mut Ctx, e: E, want: &str, input: &str) -> Result<KissXmlError, Fail> {
	let shown = e.to_string();
	let k: KissXmlError = e.into();
	c.count("conversions", 1);
	if tag(&k) != want {
		return Err(fail("converted", format!("{shown:?} becomes a {} where it is a {want}", tag(&k)), input));
	}
	if k.to_string() != shown {
		return Err(fail("converted", format!("{shown:?} is shown as {k} after conversion"), input));
	}
	if shown.is_empty() {
		return Err(fail("message", format!("a {want} shows as nothing"), input));
	}
	let b: Box<dyn std::error::Error> = Box::new(k);
	if b.to_string() != shown {
		return Err(fail("converted", format!("{shown:?} is shown as {b} as a boxed error"), input));
	}
	b.downcast::<KissXmlError>().map(|b| *b).map_err(|_| fail("converted", "a boxed error is of another type", input))
}

fn parsing(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.strict_comments = true;
	let size = *c.r.pick(&[Size::Tiny, Size::Small, Size::Ns]);
	let m = gen::doc(&mut c.r, &cfg, size);
	let st = surface::Style::random(&mut c.r);
	let (s, marks) = surface::write_doc(&mut c.r, &m, st);
	let injected = c.r.chance(3, 4);
	let (t, class) = if injected {
		let cl = c.r.below(c03::CLASSES);
		match c03::inject(&mut c.r, &s, &marks, cl) {
			Some(b) => (b.text, b.class),
			None => return Ok(()),
		}
	} else {
		let mut t = s.clone();
		mutate::mutate(&mut c.r, &mut t);
		match refparse::parse(&t) {
			Err(No::Reject(w)) => (t, w),
			_ => return Ok(()),
		}
	};
	let how = c.r.below(3);
	let got = guard(|| match how {
		0 => kiss_xml::parse_stream(t.as_bytes()),
		_ => kiss_xml::parse_str(t.as_str()),
	})
	.map_err(|p| fail("panic", p, &t))?;
	let e = match got {
		Ok(_) => {
			c.count("accepted (judged elsewhere)", 1);
			return Ok(());
		}
		Err(e) => e,
	};
	c.nontrivial(t.as_bytes());
	c.sample(|| format!("{class}: {e}"));
	c.count("parsing errors", 1);
	let shown = e.to_string();
	match &e {
		KissXmlError::ParsingError(p) => {
			if p.msg.is_empty() || !shown.contains(p.msg.as_str()) {
				return Err(fail("message", format!("the parsing error {p:?} is shown as {shown:?}"), &t));
			}
		}
		// what is not supported starts with <! (or is a processing instruction); a name may be reported as such
		KissXmlError::NotSupportedError(_) if t.contains("<!") || t.contains("<?") => c.count("unsupported markup", 1),
		KissXmlError::InvalidElementName(_) | KissXmlError::InvalidAttributeName(_) => c.count("names in documents", 1),
		_ => return Err(fail("kind", format!("a malformed document ({class}) gives a {}: {shown}", tag(&e)), &t)),
	}
	if injected && class == "markup declaration inside root" {
		c.count("unsupported markup inside the root", 1);
		if !matches!(e, KissXmlError::NotSupportedError(_)) {
			return Err(fail("kind", format!("unsupported markup gives a {}: {shown}", tag(&e)), &t));
		}
	}
	if shown.trim().is_empty() {
		return Err(fail("message", "the error shows as nothing", &t));
	}
	Ok(())
}

fn names(c: &mut Ctx) -> R {
	let mut n = {
		let s = gen::name(&mut c.r);
		gen::near(&mut c.r, &s)
	};
	if c.r.chance(1, 3) {
		n = gen::text(&mut c.r, Chars::Any);
	}
	if valid_name(&n) {
		n.insert(0, *c.r.pick(&['-', '1', ' ', '<', '=', '.', ':']));
	}
	c.nontrivial(n.as_bytes());
	c.count("name errors", 1);
	let none = || None::<HashMap<String, String>>;
	let inp = format!("{n:?}");
	// element names
	let e = match c.r.below(4) {
		0 => Element::new_from_name(n.as_str()),
		1 => Element::new_with_text(n.as_str(), "t"),
		2 => Element::new(n.as_str(), None, none(), Some("u".to_string()), None, None),
		_ => Element::new_with_attributes(n.as_str(), HashMap::from([("k", "v")])),
	};
	match e {
		Ok(_) => return Ok(()), // judged elsewhere
		Err(KissXmlError::InvalidElementName(x)) => {
			if !x.msg.contains(n.as_str()) {
				return Err(fail("message", format!("the error does not name {n:?}: {x}"), &inp));
			}
			convert(c, x.clone(), "InvalidElementName", &inp)?;
		}
		Err(e) => return Err(fail("kind", format!("the refused element name {n:?} gives a {}: {e}", tag(&e)), &inp)),
	}
	let way = c.r.below(3);
	let a = HashMap::from([(n.clone(), "v".to_string()), ("ok".to_string(), "w".to_string())]);
	let e = match way {
		0 => Element::new("e", None, Some(a), None, None, None).map(|_| ()),
		1 => Element::new_with_attributes("e", a).map(|_| ()),
		_ => Element::new_from_name("e").and_then(|mut e| e.set_attr(n.as_str(), "v").map_err(|e| e.into())),
	};
	match e {
		Ok(_) => {}
		Err(KissXmlError::InvalidAttributeName(x)) => {
			if !x.msg.contains(n.as_str()) {
				return Err(fail("message", format!("the error does not name {n:?}: {x}"), &inp));
			}
			convert(c, x, "InvalidAttributeName", &inp)?;
		}
		Err(e) => return Err(fail("kind", format!("the refused attribute name {n:?} gives a {}: {e}", tag(&e)), &inp)),
	}
	// content
	let mut s = gen::text(&mut c.r, Chars::Plain);
	s.push_str("-->]]>");
	c.count("content errors", 2);
	match Comment::new(s.as_str()) {
		Ok(_) => {}
		Err(x) => {
			convert(c, x, "InvalidContent", &s)?;
		}
	}
	let mut d = CData::new("x").map_err(|e| fail("constructor", e.to_string(), ""))?;
	if let Err(x) = d.set_text(s.as_str()) {
		convert(c, x, "InvalidContent", &s)?;
	}
	match CData::new(s.as_str()) {
		Ok(_) => {}
		Err(x) => {
			convert(c, x, "InvalidContent", &s)?;
		}
	}
	// declarations without delimiters are malformed text
	for (what, r) in [("declaration", Declaration::from_str("xml version='1.0'").map(|_| ())), ("DTD", DTD::from_string("DOCTYPE a").map(|_| ()))] {
		match r {
			Err(e) if !matches!(e, KissXmlError::ParsingError(_) | KissXmlError::InvalidContent(_)) => return Err(fail("kind", format!("a malformed {what} gives a {}: {e}", tag(&e)), what)),
			_ => {}
		}
	}
	Ok(())
}

fn trees(c: &mut Ctx) -> R {
	let cfg = Cfg::new(Chars::Plain);
	let size = *c.r.pick(&[Size::Tiny, Size::Small]);
	let mut m = gen::tree(&mut c.r, &cfg, size);
	norm(&mut m);
	let mut e = snap::build(&mut c.r, &m).map_err(|x| fail("constructor", x, &format!("{m:?}")))?;
	let text = e.to_string();
	c.nontrivial(text.as_bytes());
	for _ in 0..3 {
		let p = edit::path(&mut c.r, &m);
		let tm = edit::at_ref(&m, &p);
		let n = tm.ch.len();
		let ne = tm.ch.iter().filter(|x| matches!(x, N::E(_))).count();
		let te = edit::real_at(&mut c.r, &mut e, &p).map_err(|x| fail("edit", x, &text))?;
		let extra = *c.r.pick(&[0usize, 1, 2, 50, 1000, 1 << 31, (1 << 32) + 1, isize::MAX as usize - 10_000]);
		let (what, asked, len, err) = match c.r.below(3) {
			0 => ("insert", n + 1 + extra, n, te.insert(n + 1 + extra, Text::new("x")).err()),
			1 => ("remove", n + extra, n, te.remove(n + extra).err()),
			_ => ("remove_element", ne + extra, ne, te.remove_element(ne + extra).err()),
		};
		let input = format!("{what}({asked}) of {len} in {text}");
		c.count("index errors", 1);
		if let Some(x) = err {
			if x.index != asked as isize || x.bounds.map(|b| b != (0, len as isize)).unwrap_or(false) {
				return Err(fail("index", format!("the error gives index {} and bounds {:?}", x.index, x.bounds), &input));
			}
			let s = x.to_string();
			if !s.contains(&asked.to_string()) || x.bounds.map(|b| !s.contains(&b.1.to_string())).unwrap_or(false) {
				return Err(fail("message", format!("the error is shown as {s:?}"), &input));
			}
			match convert(c, x.clone(), "IndexOutOfBounds", &input)? {
				KissXmlError::IndexOutOfBounds(y) if y.index == x.index && y.bounds == x.bounds => {}
				k => return Err(fail("converted", format!("{x:?} became {k:?}"), &input)),
			}
		}
		// names that do not exist
		let te = edit::real_at(&mut c.r, &mut e, &p).map_err(|x| fail("edit", x, &text))?;
		let mut k = edit::some_name(&mut c.r, tm);
		if tm.ch.iter().any(|x| matches!(x, N::E(y) if y.name == k)) {
			k.push_str("nowhere");
		}
		c.count("missing names", 1);
		if let Err(x) = te.first_element_by_name(k.as_str()) {
			convert(c, x, "DoesNotExistError", &k)?;
		}
		if let Err(x) = te.first_element_by_name_mut(k.as_str()) {
			convert(c, x, "DoesNotExistError", &k)?;
		}
		// casts
		for ch in te.children().take(4) {
			let types = [("Element", ch.as_element().err()), ("Text", ch.as_text().err()), ("Comment", ch.as_comment().err()), ("CData", ch.as_cdata().err())];
			let own = match ch.node_type() {
				DomNodeType::ElementNode => "Element",
				DomNodeType::TextNode => "Text",
				DomNodeType::CommentNode => "Comment",
				DomNodeType::CDataNode => "CData",
			};
			for (t, x) in types {
				if let Some(x) = x {
					c.count("cast errors", 1);
					let low = x.msg.to_lowercase();
					if !low.contains(&own.to_lowercase()) || !low.contains(&t.to_lowercase()) {
						return Err(fail("message", format!("casting a {own} as {t} fails with {x}"), &text));
					}
					convert(c, x, "TypeCastError", t)?;
				}
			}
		}
		// the same through mutable casts
		let ne = te.children_mut();
		for ch in ne.take(2) {
			let own = ch.node_type();
			let mut errs = Vec::new();
			errs.extend(ch.as_element_mut().err().map(|x| ("element", x)));
			errs.extend(ch.as_text_mut().err().map(|x| ("text", x)));
			errs.extend(ch.as_comment_mut().err().map(|x| ("comment", x)));
			errs.extend(ch.as_cdata_mut().err().map(|x| ("cdata", x)));
			for (t, x) in errs {
				c.count("cast errors", 1);
				if !x.msg.to_lowercase().contains(t) {
					return Err(fail("message", format!("casting a {own:?} mutably as {t} fails with {x}"), &text));
				}
				convert(c, x, "TypeCastError", t)?;
			}
		}
	}
	Ok(())
}

#[derive(Debug)]
struct Mine(u64);
impl std::fmt::Display for Mine {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "cause number {}", self.0)
	}
}
impl std::error::Error for Mine {}

struct Broken<'a> {
	data: &'a [u8],
	chunk: usize,
	err: Option<io::Error>,
}
impl Read for Broken<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let n = self.chunk.min(buf.len()).min(self.data.len());
		if n == 0 && !buf.is_empty() {
			return match self.err.take() {
				Some(e) => Err(e),
				None => Ok(0),
			};
		}
		buf[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		Ok(n)
	}
}
impl Write for Broken<'_> {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		let n = self.chunk.min(buf.len()).min(self.data.len());
		if n == 0 && !buf.is_empty() {
			return match self.err.take() {
				Some(e) => Err(e),
				None => Ok(0),
			};
		}
		self.data = &self.data[n..];
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

const KINDS: &[io::ErrorKind] = &[
	io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe, io::ErrorKind::AlreadyExists, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput, io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::OutOfMemory,
	io::ErrorKind::Other, io::ErrorKind::Unsupported,
];

fn same_io(e: &io::Error, kind: io::ErrorKind, cause: Option<u64>, what: &str, input: &str) -> R {
	if e.kind() != kind {
		return Err(fail("io-kind", format!("{what}: the cause is {kind:?} but the error is {:?}: {e}", e.kind()), input));
	}
	if let Some(n) = cause {
		match e.get_ref().and_then(|x| x.downcast_ref::<Mine>()) {
			Some(m) if m.0 == n => {}
			_ => return Err(fail("io-cause", format!("{what}: the cause is lost: {e}"), input)),
		}
	}
	if e.to_string().is_empty() {
		return Err(fail("message", "an I/O error shows as nothing", input));
	}
	Ok(())
}

/// errors of the operating system keep their number, errors of a kind alone their kind, errors with a message the message
fn plain_io(c: &mut Ctx, s: &str) -> R {
	let code = *c.r.pick(&[1i32, 2, 5, 9, 11, 12, 13, 17, 20, 21, 24, 27, 28, 30, 32, 36, 75, 104, 110, 122]);
	let kind = *c.r.pick(KINDS);
	let msg = format!("cause {}", c.r.next());
	let how = c.r.below(3);
	let make = || match how {
		0 => io::Error::from_raw_os_error(code),
		1 => io::Error::from(kind),
		_ => io::Error::new(kind, msg.clone()),
	};
	let want = make();
	let at = c.r.below(s.len() + 1);
	let chunk = c.r.range(1, 64);
	let read = c.r.chance(1, 2);
	let input = format!("{want:?} after {at} bytes of {s}");
	c.nontrivial(input.as_bytes());
	// a writer that is told to repeat the call repeats it
	if want.kind() == io::ErrorKind::Interrupted {
		return Ok(());
	}
	let got = if read {
		match guard(|| kiss_xml::parse_stream(Broken { data: &s.as_bytes()[..at], chunk, err: Some(make()) })).map_err(|p| fail("panic", p, &input))? {
			Err(KissXmlError::IOError(e)) => e,
			Err(e) => return Err(fail("kind", format!("a failing stream gives a {}: {e}", tag(&e)), &input)),
			Ok(_) => return Err(fail("kind", "a failing stream gives a document", &input)),
		}
	} else {
		let d = match guard(|| kiss_xml::parse_str(s)).map_err(|p| fail("panic", p, &input))? {
			Ok(d) => d,
			Err(_) => return Ok(()),
		};
		let at = at % d.to_string().len().max(1);
		let mut w = Broken { data: &s.as_bytes()[..at.min(s.len())], chunk, err: Some(make()) };
		if w.data.len() >= d.to_string().len() {
			return Ok(());
		}
		match guard(|| d.write_to_file(&mut w)).map_err(|p| fail("panic", p, &input))? {
			Err(e) => e,
			Ok(()) => return Err(fail("kind", "a failing write succeeds", &input)),
		}
	};
	let what = if read { "reading" } else { "writing" };
	if got.kind() != want.kind() || got.raw_os_error() != want.raw_os_error() {
		return Err(fail("io-kind", format!("{what}: the cause is {want:?} but the error is {got:?}"), &input));
	}
	if how != 1 && !got.to_string().contains(&want.to_string()) {
		return Err(fail("io-cause", format!("{what}: the cause {want} is shown as {got}"), &input));
	}
	let shown = got.to_string();
	match KissXmlError::from(got) {
		KissXmlError::IOError(e) if e.raw_os_error() == want.raw_os_error() && e.to_string() == shown => Ok(()),
		k => Err(fail("converted", format!("{shown:?} became {k:?}"), &input)),
	}
}

fn io_errors(c: &mut Ctx) -> R {
	let cfg = Cfg::new(Chars::Plain);
	let m = gen::doc(&mut c.r, &cfg, Size::Tiny);
	let s = surface::write_doc(&mut c.r, &m, surface::Style::minimal()).0;
	let kind = *c.r.pick(KINDS);
	let n = c.r.next();
	let at = c.r.below(s.len() + 1);
	let chunk = c.r.range(1, 64);
	let input = format!("{kind:?} after {at} bytes of {s}");
	c.count("I/O errors", 1);
	if c.r.chance(1, 3) {
		return plain_io(c, &s);
	}
	c.nontrivial(input.as_bytes());
	let src = || Broken { data: &s.as_bytes()[..at], chunk, err: Some(io::Error::new(kind, Mine(n))) };
	match c.r.below(5) {
		0 | 1 => match guard(|| kiss_xml::parse_stream(src())).map_err(|p| fail("panic", p, &input))? {
			Ok(_) => Err(fail("kind", "a failing stream gives a document", &input)),
			Err(KissXmlError::IOError(e)) => {
				same_io(&e, kind, Some(n), "reading", &input)?;
				let shown = e.to_string();
				let k: KissXmlError = e.into();
				if !k.to_string().contains(&shown) {
					return Err(fail("message", format!("{shown:?} is shown as {k}"), &input));
				}
				match k {
					KissXmlError::IOError(e) => same_io(&e, kind, Some(n), "converted", &input),
					k => Err(fail("converted", format!("an I/O error became a {}", tag(&k)), &input)),
				}
			}
			Err(e) => Err(fail("kind", format!("a failing stream gives a {}: {e}", tag(&e)), &input)),
		},
		2 => {
			let d = snap::build_doc(&mut c.r, &m).map_err(|e| fail("constructor", e, ""))?;
			let out = d.to_string();
			let at = c.r.below(out.len());
			let mut w = Broken { data: &out.as_bytes()[..at], chunk, err: Some(io::Error::new(kind, Mine(n))) };
			match guard(|| if n % 2 == 0 { d.write_to_file(&mut w) } else { d.write_to_file_with_indent(&mut w, "  ") }).map_err(|p| fail("panic", p, &input))? {
				Ok(()) => Err(fail("kind", "a failing write succeeds", &input)),
				Err(e) => same_io(&e, kind, Some(n), "writing", &input),
			}
		}
		3 => {
			// bytes that are no UTF-8
			let mut b = s.clone().into_bytes();
			b.insert(at, *c.r.pick(&[0xff, 0xfe, 0xc0, 0xf8, 0xf5]));
			match guard(|| kiss_xml::parse_stream(&b[..])).map_err(|p| fail("panic", p, &input))? {
				Ok(_) => Err(fail("kind", "bytes that are no UTF-8 give a document", &input)),
				Err(KissXmlError::IOError(e)) => same_io(&e, io::ErrorKind::InvalidData, None, "decoding", &input),
				Err(e) => Err(fail("kind", format!("bytes that are no UTF-8 give a {}: {e}", tag(&e)), &input)),
			}
		}
		_ => {
			// paths
			let missing = c.scratch.join(format!("no-such-{n}.xml"));
			match guard(|| kiss_xml::parse_filepath(&missing)).map_err(|p| fail("panic", p, &input))? {
				Ok(_) => return Err(fail("kind", "a file that does not exist gives a document", &input)),
				Err(KissXmlError::IOError(e)) => same_io(&e, io::ErrorKind::NotFound, None, "opening a missing file", &input)?,
				Err(e) => return Err(fail("kind", format!("a missing file gives a {}: {e}", tag(&e)), &input)),
			}
			match guard(|| kiss_xml::parse_filepath(&c.scratch)).map_err(|p| fail("panic", p, &input))? {
				Ok(_) => return Err(fail("kind", "a directory gives a document", &input)),
				Err(KissXmlError::IOError(_)) => {}
				Err(e) => return Err(fail("kind", format!("a directory gives a {}: {e}", tag(&e)), &input)),
			}
			// what stands in a file and is malformed is no I/O error
			let f = c.scratch.join("c19.xml");
			std::fs::write(&f, &s.as_bytes()[..s.len() / 2]).map_err(|e| fail("harness", e.to_string(), ""))?;
			match (guard(|| kiss_xml::parse_filepath(&f)).map_err(|p| fail("panic", p, &input))?, String::from_utf8(s.as_bytes()[..s.len() / 2].to_vec()).is_ok()) {
				(Err(KissXmlError::IOError(e)), true) => Err(fail("kind", format!("a malformed file gives an I/O error: {e}"), &input)),
				_ => Ok(()),
			}
		}
	}
}

/// errors a caller makes: message kept, shown, cloned and converted
fn made(c: &mut Ctx) -> R {
	let mut m = gen::text(&mut c.r, Chars::Any);
	if m.starts_with("ParsingError") {
		m.insert(0, '-');
	}
	m.push('.');
	c.nontrivial(m.as_bytes());
	macro_rules! each {
		($($t:ident),*) => {$(
			let e = $t::new(m.as_str());
			let d = e.clone();
			if e.msg != m || d.msg != m || !d.to_string().contains(m.as_str()) {
				return Err(fail("message", format!("{} made with {m:?} has {:?}, its clone {:?}, shown {d}", stringify!($t), e.msg, d.msg), &m));
			}
			if $t::new(m.clone()).msg != m {
				return Err(fail("message", format!("{} made with an owned {m:?} differs", stringify!($t)), &m));
			}
			convert(c, d, stringify!($t), &m)?;
		)*};
	}
	each!(ParsingError, TypeCastError, DoesNotExistError, InvalidAttributeName, InvalidElementName, InvalidContent, NotSupportedError);
	let n = c.r.next() as isize;
	let b = if c.r.chance(1, 2) { Some((c.r.next() as isize, c.r.next() as isize)) } else { None };
	let e = IndexOutOfBounds::new(n, b).clone();
	let s = e.to_string();
	if e.index != n || e.bounds != b || !s.contains(&n.to_string()) || b.map(|b| !s.contains(&b.0.to_string()) || !s.contains(&b.1.to_string())).unwrap_or(false) {
		return Err(fail("index", format!("IndexOutOfBounds::new({n}, {b:?}) is {e:?}, shown {s:?}"), &m));
	}
	match convert(c, e, "IndexOutOfBounds", &m)? {
		KissXmlError::IndexOutOfBounds(y) if y.index == n && y.bounds == b => {}
		k => return Err(fail("converted", format!("IndexOutOfBounds::new({n}, {b:?}) became {k:?}"), &m)),
	}
	if DoesNotExistError::default().to_string().trim().is_empty() {
		return Err(fail("message", "DoesNotExistError::default() shows as nothing", ""));
	}
	c.count("errors made by the caller", 8);
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	if c.r.chance(1, 16) {
		return made(c);
	}
	match c.r.below(8) {
		0..=3 => parsing(c),
		4 => names(c),
		5 | 6 => trees(c),
		_ => io_errors(c),
	}
}
