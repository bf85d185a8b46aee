//! Files and streams: scripted faults in front of the real reading and writing code.
use super::fail;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{refser, snap, surface};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::io::{self, Read, Write};
use std::path::PathBuf;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 7843;

pub static PROP: Prop = Prop {
	id: "C12",
	rule: "well-formed, malformed and non-UTF-8 bytes are given to parse_stream through a reader that splits, interrupts, ends or fails as a script says, and to parse_filepath through scratch files, and the result compared with parse_str of the same text; documents are written to writers that shorten, interrupt, refuse or fail at scripted places; some readers and writers use the library themselves or panic; and to scratch files (new, with unusual names, without rights to them, links and pipes, from several threads, longer, shorter, in missing directories, through relative paths, onto directories, unusable names and a full device), and the delivered bytes and the returned result compared with the serialized text; non-trivial: a distinct (bytes, script) pair with at least one fault or split",
	quick: 400000,
	thorough: 4000000,
	shards: 8,
	floors: &[("streams read", 300), ("reads split inside a character", 50), ("interrupted reads", 200), ("read errors", 50), ("invalid UTF-8", 50), ("files read", 50), ("streams written", 200), ("short writes", 100), ("interrupted writes", 100), ("write errors", 50), ("files written", 40), ("previous file longer", 5), ("directories created", 5), ("failing paths", 20), ("paths with dots", 5), ("pipes read", 5), ("calls inside calls", 5), ("panicking readers and writers", 5), ("unusual names", 3), ("unusual targets", 2), ("files written by several threads", 3)],
	run,
	probes: &[],
};

#[derive(Clone, Debug)]
enum Act {
	Give(usize),
	Interrupt,
	Fail(io::ErrorKind),
}

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::WriteZero];

struct Src<'a> {
	data: &'a [u8],
	at: usize,
	script: Vec<Act>,
	k: usize,
	/// after the script: size of the remaining reads
	rest: usize,
	ended: bool,
	interrupts: u64,
	splits: u64,
}
impl<'a> Read for Src<'a> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let a = if self.k < self.script.len() { self.script[self.k].clone() } else { Act::Give(self.rest) };
		self.k += 1;
		match a {
			Act::Interrupt => {
				self.interrupts += 1;
				Err(io::Error::new(io::ErrorKind::Interrupted, "signal"))
			}
			Act::Fail(k) => Err(io::Error::new(k, "scripted failure")),
			Act::Give(n) => {
				let n = n.min(buf.len()).min(self.data.len() - self.at);
				buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
				self.at += n;
				if n == 0 {
					self.ended = true;
				} else if self.at < self.data.len() && self.data[self.at] & 0xC0 == 0x80 {
					self.splits += 1;
				}
				Ok(n)
			}
		}
	}
}

struct Sink {
	got: Vec<u8>,
	script: Vec<Act>,
	k: usize,
	rest: usize,
	short: u64,
	interrupts: u64,
	failed: bool,
}
impl Write for Sink {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let a = if self.k < self.script.len() { self.script[self.k].clone() } else { Act::Give(self.rest) };
		self.k += 1;
		match a {
			Act::Interrupt => {
				self.interrupts += 1;
				Err(io::Error::new(io::ErrorKind::Interrupted, "signal"))
			}
			Act::Fail(k) => {
				self.failed = true;
				Err(io::Error::new(k, "scripted failure"))
			}
			Act::Give(n) => {
				let n = n.min(buf.len());
				if n < buf.len() {
					self.short += 1;
				}
				if n == 0 {
					self.failed = true; // nothing can be written any more
				}
				self.got.extend_from_slice(&buf[..n]);
				Ok(n)
			}
		}
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

fn script(r: &mut Rng, len: usize, faulty: bool) -> Vec<Act> {
	let mut v = Vec::new();
	let n = r.range(0, 12);
	for _ in 0..n {
		v.push(match r.below(4) {
			0 => Act::Interrupt,
			1 => Act::Give(r.range(1, 3)),
			2 => Act::Give(r.range(1, len.max(1))),
			_ => Act::Give(r.range(1, 40)),
		});
	}
	if faulty {
		let at = r.below(v.len() + 1);
		v.insert(at, Act::Fail(*r.pick(KINDS)));
		if r.chance(1, 2) {
			v.truncate(at + 1);
		}
	}
	v
}

/// what a parse gave, for comparison
fn outcome(x: Result<Result<Document, KissXmlError>, String>, what: &str, input: &str) -> Result<Result<Document, (String, bool)>, Fail> {
	match x {
		Err(p) => Err(fail("panic", format!("{what}: {p}"), input)),
		Ok(Ok(d)) => Ok(Ok(d)),
		Ok(Err(e)) => {
			let io = matches!(e, KissXmlError::IOError(_));
			Ok(Err((e.to_string(), io)))
		}
	}
}

fn agree(a: &Result<Document, (String, bool)>, b: &Result<Document, (String, bool)>, what: &str, input: &str) -> R {
	match (a, b) {
		(Ok(x), Ok(y)) => {
			if x != y || x.to_string_with_indent("") != y.to_string_with_indent("") {
				return Err(fail("other-document", format!("{what} gives another document than parsing the text"), input));
			}
		}
		(Err(x), Err(y)) => {
			if x.0 != y.0 || x.1 || y.1 {
				return Err(fail("other-error", format!("{what} gives the error {:?} where parsing the text gives {:?}", y.0, x.0), input));
			}
		}
		(Ok(_), Err(e)) => return Err(fail("lost-document", format!("{what} fails ({}) where parsing the text succeeds", e.0), input)),
		(Err(e), Ok(_)) => return Err(fail("accepted", format!("{what} succeeds where parsing the text fails ({})", e.0), input)),
	}
	Ok(())
}

/// a text to parse
fn text(c: &mut Ctx) -> (String, Doc) {
	let cfg = Cfg::new(Chars::Legal);
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let size = if let Some(h) = huge { h } else if c.r.chance(1, 40) { *c.r.pick(&[Size::Long, Size::Medium, Size::Wide]) } else { *c.r.pick(&[Size::Tiny, Size::Small]) };
	let mut m = gen::doc(&mut c.r, &cfg, size);
	let st = surface::Style::random(&mut c.r);
	let (mut s, _) = surface::write_doc(&mut c.r, &m, st);
	norm(&mut m.root);
	if c.r.chance(1, 8) && !s.starts_with('\u{feff}') {
		s.insert(0, '\u{feff}');
	}
	match c.r.below(6) {
		0 => {
			// malformed
			let mut k = c.r.below(s.len());
			while !s.is_char_boundary(k) {
				k -= 1;
			}
			if c.r.chance(1, 2) {
				s.truncate(k);
			} else {
				s.insert_str(k, c.r.pick(&["<", "</x>", "&", "\"", "<!x>", ">", "<b c>"]));
			}
		}
		1 => s.push_str(c.r.pick(&["", "\n", "<b/>", "text", "<!-- é -->", "é", "\0"])),
		_ => {}
	}
	(s, m)
}

fn read_stream(c: &mut Ctx) -> R {
	let (s, _) = text(c);
	let mut bytes = s.clone().into_bytes();
	let mut valid = true;
	if c.r.chance(1, 4) {
		let bad: &[u8] = match c.r.below(8) {
			0 => &[0xff],
			1 => &[0xc3],
			2 => &[0xe2, 0x82],
			3 => &[0xf0, 0x9f, 0xa6],
			4 => &[0x80],
			5 => &[0xed, 0xa0, 0x80],
			6 => &[0xc0, 0xaf],
			_ => &[0xfe, 0xff],
		};
		let at = match c.r.below(4) {
			0 => bytes.len(),
			1 => 0,
			_ => c.r.below(bytes.len() + 1),
		};
		for (k, b) in bad.iter().enumerate() {
			bytes.insert(at + k, *b);
		}
		valid = std::str::from_utf8(&bytes).is_ok();
	}
	let faulty = c.r.chance(1, 4);
	let sc = script(&mut c.r, bytes.len(), faulty);
	let rest = *c.r.pick(&[1, 2, 3, 7, 16, 31, 64, 1000, 4096, 8192, 1 << 20]);
	let rest = if bytes.len() > 20_000 { rest.max(31) } else { rest };
	let input = format!("{} bytes: {}\nscript {:?} then {} bytes each", bytes.len(), show(&String::from_utf8_lossy(&bytes)), sc, rest);
	let mut key = bytes.clone();
	key.extend_from_slice(format!("{sc:?}{rest}").as_bytes());
	c.nontrivial(&key);
	c.sample(|| input.clone());
	let mut src = Src { data: &bytes, at: 0, script: sc, k: 0, rest, ended: false, interrupts: 0, splits: 0 };
	let got = outcome(guard(|| kiss_xml::parse_stream(&mut src)), "parse_stream", &input)?;
	c.count("streams read", 1);
	c.count("interrupted reads", src.interrupts);
	c.count("reads split inside a character", src.splits);
	let failed = src.script[..src.k.min(src.script.len())].iter().any(|a| matches!(a, Act::Fail(_)));
	if failed {
		c.count("read errors", 1);
	}
	if !valid {
		c.count("invalid UTF-8", 1);
	}
	if failed || !valid {
		return match got {
			Ok(_) => Err(fail("fault-hidden", "a document was returned although the stream failed or is not UTF-8", &input)),
			Err((_, true)) => Ok(()),
			Err((e, false)) => Err(fail("not-io-error", format!("a failing stream gives the error {e:?}, which is no I/O error"), &input)),
		};
	}
	let want = outcome(guard(|| kiss_xml::parse_str(String::from_utf8(bytes.clone()).unwrap())), "parse_str", &input)?;
	agree(&want, &got, "parse_stream", &input)?;
	if !src.ended && want.is_ok() {
		return Err(fail("not-to-the-end", "the stream was not read to its end", &input));
	}
	// other kinds of readers
	if c.r.chance(1, 4) {
		let got = outcome(guard(|| kiss_xml::parse_stream(bytes.as_slice())), "parse_stream of a slice", &input)?;
		agree(&want, &got, "parse_stream of a slice", &input)?;
		let k = c.r.below(bytes.len() + 1);
		let got = outcome(guard(|| kiss_xml::parse_stream(io::BufReader::with_capacity(5, (&bytes[..k]).chain(&bytes[k..])))), "parse_stream of a chain", &input)?;
		agree(&want, &got, "parse_stream of a buffered chain", &input)?;
	}
	Ok(())
}

/// a path below the scratch directory, in one of several argument types
fn parse_path(c: &mut Ctx, p: &PathBuf) -> Result<Document, KissXmlError> {
	match if p.to_str().is_some() { c.r.below(4) } else { 0 } {
		0 => kiss_xml::parse_filepath(p),
		1 => kiss_xml::parse_filepath(p.to_str().unwrap()),
		2 => kiss_xml::parse_filepath(p.to_str().unwrap().to_string()),
		_ => kiss_xml::parse_filepath(p.as_path()),
	}
}

fn read_file(c: &mut Ctx) -> R {
	let p = if c.r.chance(1, 10) {
		use std::os::unix::ffi::OsStrExt;
		c.scratch.join(std::ffi::OsStr::from_bytes(format!("r{}", c.idx).as_bytes().iter().copied().chain(*b"\xff.xml").collect::<Vec<u8>>().as_slice()))
	} else {
		c.scratch.join(format!("r{}.xml", c.idx))
	};
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	match c.r.below(8) {
		0 => {
			// no file, a directory, an unusable name
			let q = match c.r.below(5) {
				0 => c.scratch.join("nosuch.xml"),
				1 => c.scratch.clone(),
				2 => PathBuf::from("bad\0name"),
				3 => PathBuf::from(""),
				_ => c.scratch.join("nosuch").join("x.xml"),
			};
			c.count("failing paths", 1);
			return match outcome(guard(|| parse_path(c, &q)), "parse_filepath", "")? {
				Ok(_) => Err(fail("fault-hidden", format!("{q:?} was parsed"), "")),
				Err((_, true)) => Ok(()),
				Err((e, false)) => Err(fail("not-io-error", format!("{q:?} gives {e:?}, which is no I/O error"), "")),
			};
		}
		1 => {
			let (s, _) = text(c);
			let mut b = s.into_bytes();
			let at = c.r.below(b.len() + 1);
			b.insert(at, 0xff);
			std::fs::write(&p, &b).map_err(harness)?;
			c.count("files read", 1);
			c.count("invalid UTF-8", 1);
			let got = outcome(guard(|| parse_path(c, &p)), "parse_filepath", "");
			let _ = std::fs::remove_file(&p);
			return match got? {
				Ok(_) => Err(fail("fault-hidden", format!("a file with byte ff at {at} was parsed"), &String::from_utf8_lossy(&b))),
				Err((_, true)) => Ok(()),
				Err((e, false)) => Err(fail("not-io-error", format!("a file with byte ff gives {e:?}, which is no I/O error"), &String::from_utf8_lossy(&b))),
			};
		}
		_ => {}
	}
	let (s, _) = text(c);
	std::fs::write(&p, s.as_bytes()).map_err(harness)?;
	let want = outcome(guard(|| kiss_xml::parse_str(s.as_str())), "parse_str", &s)?;
	let got = match c.r.below(8) {
		0 => {
			// where the path leaves a linked directory with ..
			let base = c.scratch.join(format!("q{}", c.idx));
			std::fs::create_dir_all(base.join("t/u")).map_err(harness)?;
			std::os::unix::fs::symlink("t/u", base.join("ln")).map_err(harness)?;
			std::fs::write(base.join("a.xml"), "<decoy/>").map_err(harness)?;
			std::fs::write(base.join("t/a.xml"), s.as_bytes()).map_err(harness)?;
			let got = outcome(guard(|| parse_path(c, &base.join("ln/../a.xml"))), "parse_filepath", &s);
			let _ = std::fs::remove_dir_all(&base);
			c.count("paths with dots", 1);
			got?
		}
		1 if s.len() < 60_000 => {
			// a pipe: no size is known before it ends
			use std::os::fd::AsRawFd;
			let (rd, mut wr) = io::pipe().map_err(harness)?;
			let bytes = s.clone().into_bytes();
			let k = c.r.below(bytes.len() + 1);
			let (mut a, b) = (bytes, Vec::new());
			let b = { let mut b: Vec<u8> = b; b.extend(a.drain(k..)); b };
			let t = std::thread::spawn(move || {
				let _ = wr.write_all(&a);
				std::thread::yield_now();
				let _ = wr.write_all(&b);
			});
			// (in a thread of its own: what else opens the pipe may wait for ever)
			let q = format!("/proc/self/fd/{}", rd.as_raw_fd());
			let (tx, rx) = std::sync::mpsc::channel();
			let text = s.clone();
			std::thread::spawn(move || {
				let run = || -> R {
					let want = outcome(guard(|| kiss_xml::parse_str(text.as_str())), "parse_str", &text)?;
					let got = outcome(guard(|| kiss_xml::parse_filepath(q.as_str())), "parse_filepath", &text)?;
					agree(&want, &got, "parse_filepath of a pipe", &text)
				};
				let _ = tx.send(run());
			});
			let Ok(r) = rx.recv_timeout(std::time::Duration::from_secs(15)) else {
				std::mem::forget(rd);
				let _ = std::fs::remove_file(&p);
				return Err(fail("hang", "parse_filepath of a pipe that ended did not return within 15 s", &s));
			};
			r?;
			let got = outcome(guard(|| parse_path(c, &p)), "parse_filepath", &s);
			let _ = t.join();
			c.count("pipes read", 1);
			got?
		}
		_ => outcome(guard(|| parse_path(c, &p)), "parse_filepath", &s)?,
	};
	c.count("files read", 1);
	let r = agree(&want, &got, "parse_filepath", &s);
	let r2 = match std::fs::File::open(&p) {
		Ok(f) => agree(&want, &outcome(guard(|| kiss_xml::parse_stream(f)), "parse_stream of a file", &s)?, "parse_stream of a file", &s),
		Err(e) => Err(harness(e)),
	};
	// reading changes nothing
	let after = std::fs::read(&p).map_err(harness)?;
	let _ = std::fs::remove_file(&p);
	r?;
	r2?;
	if after != s.as_bytes() {
		return Err(fail("file-changed", "parse_filepath changed the file", &s));
	}
	Ok(())
}

fn doc(c: &mut Ctx) -> Result<(Document, String, Option<&'static str>), Fail> {
	let cfg = Cfg::new(if c.r.chance(1, 2) { Chars::Any } else { Chars::Plain });
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let size = if let Some(h) = huge { h } else if c.r.chance(1, 30) { *c.r.pick(&[Size::Long, Size::Medium, Size::Wide]) } else { *c.r.pick(&[Size::Tiny, Size::Small]) };
	let mut m = gen::doc(&mut c.r, &cfg, size);
	let d = snap::build_doc(&mut c.r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?;
	norm(&mut m.root);
	let ind = match c.r.below(6) {
		0..=2 => None,
		3 => Some("\t"),
		4 => Some(""),
		_ => Some("x"), // invalid
	};
	let s = refser::print_doc(&m, ind.unwrap_or("  "));
	Ok((d, s, ind))
}

fn write_stream(c: &mut Ctx) -> R {
	let (d, s, ind) = doc(c)?;
	let faulty = c.r.chance(1, 3);
	let mut sc = script(&mut c.r, s.len(), faulty);
	if c.r.chance(1, 12) {
		let at = c.r.below(sc.len() + 1);
		sc.insert(at, Act::Give(0));
	}
	let rest = *c.r.pick(&[1, 2, 5, 13, 64, 1000, 4096, 1 << 20]);
	let rest = if s.len() > 20_000 { rest.max(13) } else { rest };
	let input = format!("written text: {}\nscript {:?} then {} bytes each", show(&s), sc, rest);
	let mut key = s.clone().into_bytes();
	key.extend_from_slice(format!("{sc:?}{rest}").as_bytes());
	c.nontrivial(&key);
	let mut out = Sink { got: Vec::new(), script: sc, k: 0, rest, short: 0, interrupts: 0, failed: false };
	let res = guard(|| match ind {
		None => d.write_to_file(&mut out),
		Some(i) => d.write_to_file_with_indent(&mut out, i),
	})
	.map_err(|p| fail("panic", p, &input))?;
	c.count("streams written", 1);
	c.count("short writes", out.short);
	c.count("interrupted writes", out.interrupts);
	if out.failed {
		c.count("write errors", 1);
		if res.is_ok() {
			return Err(fail("fault-hidden", "a failed write was reported as success", &input));
		}
		if !s.as_bytes().starts_with(&out.got) {
			return Err(fail("bytes", "the bytes delivered before the failure are not a prefix of the text", &input));
		}
		return Ok(());
	}
	if let Err(e) = res {
		return Err(fail("write-error", format!("failed ({e}) although every write succeeded"), &input));
	}
	if out.got != s.as_bytes() {
		return Err(fail("bytes", format!("{} bytes delivered instead of {}: {}", out.got.len(), s.len(), show(&String::from_utf8_lossy(&out.got))), &input));
	}
	// other kinds of writers
	if c.r.chance(1, 4) {
		let mut v = Vec::new();
		let mut w = io::BufWriter::with_capacity(7, Vec::new());
		let a = guard(|| d.write_to_file_with_indent(&mut v, ind.unwrap_or("  "))).map_err(|p| fail("panic", p, &input))?;
		let b = guard(|| d.write_to_file_with_indent(&mut w, ind.unwrap_or("  "))).map_err(|p| fail("panic", p, &input))?;
		let w = w.into_inner().map_err(|e| fail("harness", e.to_string(), ""))?;
		if a.is_err() || b.is_err() || v != s.as_bytes() || w != s.as_bytes() {
			return Err(fail("bytes", "writing to a vector or a buffered writer delivers other bytes", &input));
		}
	}
	Ok(())
}

fn save(c: &mut Ctx, d: &Document, p: &PathBuf, ind: Option<&str>) -> Result<io::Result<()>, String> {
	let k = if p.to_str().is_some() { c.r.below(3) } else { 0 };
	guard(|| match (ind, k) {
		(None, 0) => d.write_to_filepath(p),
		(None, 1) => d.write_to_filepath(p.to_str().unwrap()),
		(None, _) => d.write_to_filepath(p.to_str().unwrap().to_string()),
		(Some(i), 0) => d.write_to_filepath_with_indent(p, i),
		(Some(i), 1) => d.write_to_filepath_with_indent(p.to_str().unwrap(), i),
		(Some(i), _) => d.write_to_filepath_with_indent(p.as_path(), i.to_string()),
	})
}

fn write_file(c: &mut Ctx) -> R {
	let (d, s, ind) = doc(c)?;
	let input = format!("written text: {}", show(&s));
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let dir = c.scratch.join(format!("w{}", c.idx));
	std::fs::create_dir_all(&dir).map_err(harness)?;
	let res = write_file_in(c, &d, &s, ind, &dir, &input);
	let _ = std::env::set_current_dir("/");
	let _ = std::fs::remove_dir_all(&dir);
	res
}

fn write_file_in(c: &mut Ctx, d: &Document, s: &str, ind: Option<&'static str>, dir: &PathBuf, input: &str) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	if c.r.chance(1, 4) {
		// paths that cannot be written
		let (p, what) = match c.r.below(6) {
			0 => (dir.clone(), "a directory"),
			1 => {
				std::fs::write(dir.join("f"), "x").map_err(harness)?;
				(dir.join("f").join("a.xml"), "a path below a file")
			}
			2 => {
				std::fs::write(dir.join("f"), "x").map_err(harness)?;
				(dir.join("f").join("g").join("a.xml"), "a directory below a file")
			}
			3 => (dir.join("n".repeat(300)), "a name that is too long"),
			4 => (dir.join("a\0b.xml"), "a name with a NUL character"),
			_ => {
				// a device without space, behind a link of ours
				std::os::unix::fs::symlink("/dev/full", dir.join("full")).map_err(harness)?;
				(dir.join("full"), "a full device")
			}
		};
		c.count("failing paths", 1);
		return match save(c, d, &p, ind) {
			Err(p) => Err(fail("panic", p, input)),
			// (the link may give way to a file)
			Ok(Ok(())) if what == "a full device" && std::fs::symlink_metadata(&p).map(|m| m.is_file()).unwrap_or(false) && std::fs::read(&p).ok().as_deref() == Some(d.to_string_with_indent(ind.unwrap_or("  ")).as_bytes()) => Ok(()),
			Ok(Ok(())) => Err(fail("fault-hidden", format!("writing to {what} was reported as success"), input)),
			Ok(Err(_)) => Ok(()),
		};
	}
	let mut real = None;
	let mut p = match c.r.below(6) {
		0 => {
			c.count("directories created", 1);
			dir.join("x").join("y é").join("z.xml")
		}
		1 => {
			c.count("directories created", 1);
			let mut p = dir.clone();
			for i in 0..c.r.range(1, 6) {
				p.push(if c.r.chance(1, 4) { "é 漢".to_string() } else { format!("d{i}") });
			}
			// some of them are there already
			if c.r.chance(1, 2) {
				let up: Vec<PathBuf> = p.ancestors().map(|a| a.to_path_buf()).take_while(|a| a != dir).collect();
				let k = c.r.below(up.len());
				std::fs::create_dir_all(&up[k]).map_err(harness)?;
			}
			p.join(c.r.pick(&["a.xml", "a", ".a", "a.b.xml"]))
		}
		2 => {
			// dots: a name after .. is found where the directory really is
			let up = match c.r.below(4) {
				0 => {
					std::fs::create_dir_all(dir.join("t/u")).map_err(harness)?;
					std::os::unix::fs::symlink("t/u", dir.join("ln")).map_err(harness)?;
					if c.r.chance(1, 2) {
						std::fs::write(dir.join("a.xml"), "decoy").map_err(harness)?;
					}
					real = Some(dir.join("t/a.xml"));
					"ln/../a.xml"
				}
				1 => {
					std::fs::create_dir_all(dir.join("t/u")).map_err(harness)?;
					real = Some(dir.join("t/a.xml"));
					"t/u/../a.xml"
				}
				2 => {
					real = Some(dir.join("a.xml"));
					"./a.xml"
				}
				_ => {
					real = Some(dir.join("v/a.xml"));
					".//v/./a.xml"
				}
			};
			c.count("paths with dots", 1);
			dir.join(up)
		}
		3 if c.r.chance(1, 2) => {
			// through links
			std::fs::create_dir(dir.join("t")).map_err(harness)?;
			std::os::unix::fs::symlink("t", dir.join("ln")).map_err(harness)?;
			c.count("linked paths", 1);
			if c.r.chance(1, 2) {
				dir.join("ln").join("a.xml")
			} else {
				std::fs::write(dir.join("t").join("b.xml"), "old").map_err(harness)?;
				std::os::unix::fs::symlink("t/b.xml", dir.join("lf.xml")).map_err(harness)?;
				dir.join("lf.xml")
			}
		}
		4 if c.r.chance(1, 4) => {
			use std::os::unix::ffi::OsStrExt;
			dir.join(std::ffi::OsStr::from_bytes(b"n\xff\xc3.xml"))
		}
		_ => dir.join(c.r.pick(&["a.xml", "b c.xml", "é.xml", "noext"])),
	};
	let real = real.unwrap_or_else(|| p.clone());
	let old = match c.r.below(4) {
		0 => Some(0),
		1 => Some(s.len() + c.r.range(1, 5000)),
		2 => Some(s.len()),
		_ => None,
	};
	if let Some(n) = old {
		if real.parent() == Some(dir.as_path()) {
			if n > s.len() {
				c.count("previous file longer", 1);
			}
			std::fs::write(&real, "#".repeat(n)).map_err(harness)?;
		}
	}
	if c.r.chance(1, 4) {
		// relative to the working directory
		std::env::set_current_dir(dir).map_err(harness)?;
		p = p.strip_prefix(dir).unwrap().to_path_buf();
		c.count("relative paths", 1);
	}
	c.count("files written", 1);
	match save(c, d, &p, ind) {
		Err(p) => return Err(fail("panic", p, input)),
		Ok(Err(e)) => return Err(fail("write-error", format!("writing to {p:?} failed: {e}"), input)),
		Ok(Ok(())) => {}
	}
	let got = match std::fs::read(&real) {
		Ok(g) => g,
		Err(e) => return Err(fail("bytes", format!("the written file cannot be read: {e}"), input)),
	};
	if got != s.as_bytes() {
		return Err(fail("bytes", format!("the file holds {} bytes instead of {}: {}", got.len(), s.len(), show(&String::from_utf8_lossy(&got))), input));
	}
	// over it again with something shorter
	if c.r.chance(1, 3) {
		let e = Document::new_with_decl_dtd(Element::new_from_name("z").unwrap(), None, None);
		match save(c, &e, &p, None) {
			Err(p) => return Err(fail("panic", p, input)),
			Ok(Err(e)) => return Err(fail("write-error", format!("writing to {p:?} again failed: {e}"), input)),
			Ok(Ok(())) => {}
		}
		c.count("files written", 1);
		c.count("previous file longer", 1);
		let got = std::fs::read(&real).map_err(harness)?;
		if got != b"<z/>\n" {
			return Err(fail("bytes", format!("the file written over holds {}", show(&String::from_utf8_lossy(&got))), input));
		}
	}
	Ok(())
}

extern "C" {
	fn setfsuid(uid: u32) -> i32;
	fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

/// names that something other than the file system might read a meaning into
const NAMES: &[&str] = &[
	"-", "~", "~/a.xml", "$HOME", "file:a.xml", "file:///a.xml", "http://h/a.xml", "a%20b.xml", "a\nb.xml", " a.xml", "a.xml ", "a\\b.xml", "*.xml", "a?.xml", "a#b.xml", "...", ".xml", "a.xml.gz", "a.XML", "A.xml",
	"\u{feff}a.xml", "a;b.xml", "a|b", "|cat", "<a>", "\"a\".xml", "'a.xml'", "&amp;.xml", "a:b.xml", "C:a.xml", "--help", "a.xml~", "a.tmp", "con", "nul.xml", "é.xml", "e\u{301}.xml", "漢.xml", "a.xml.", "%", "{}.xml",
];

/// files with unusual names, each beside files with the names it could be mistaken for
fn names(c: &mut Ctx) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let dir = c.scratch.join(format!("m{}", c.idx));
	std::fs::create_dir_all(&dir).map_err(harness)?;
	let res = names_in(c, &dir);
	let _ = std::env::set_current_dir("/");
	let _ = std::fs::remove_dir_all(&dir);
	res
}

fn names_in(c: &mut Ctx, dir: &PathBuf) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let (d, s, ind) = doc(c)?;
	let n = *c.r.pick(NAMES);
	let n = n.trim_start_matches('/');
	let decoys = [n.trim(), n.trim_end_matches('.'), &n.to_lowercase(), &n.to_uppercase(), &n.replace("%20", " "), n.trim_start_matches("file:"), n.trim_start_matches('\u{feff}'), n.trim_matches(|c| c == '"' || c == '\''), "\u{e9}.xml", "e\u{301}.xml", "a.xml", "a", "b.xml"].map(|x| x.to_string());
	let rel = c.r.chance(1, 2);
	if rel {
		std::env::set_current_dir(dir).map_err(harness)?;
	}
	let p = if rel { PathBuf::from(n) } else { dir.join(n) };
	let full = dir.join(n);
	let input = format!("file {p:?}; text: {}", show(&s));
	c.nontrivial(input.as_bytes());
	let mut beside = Vec::new();
	for x in &decoys {
		if !x.is_empty() && x != n && !x.contains('/') && *x != "." && *x != ".." && !n.starts_with(x.as_str()) && c.r.chance(1, 2) {
			std::fs::write(dir.join(x), "<decoy/>").map_err(harness)?;
			beside.push(x.clone());
		}
	}
	c.count("unusual names", 1);
	c.count("files written", 1);
	match save(c, &d, &p, ind) {
		Err(e) => return Err(fail("panic", e, &input)),
		Ok(Err(e)) => return Err(fail("write-error", format!("writing to {p:?} failed: {e}"), &input)),
		Ok(Ok(())) => {}
	}
	match std::fs::read(&full) {
		Ok(g) if g == s.as_bytes() => {}
		Ok(g) => return Err(fail("bytes", format!("the file {p:?} holds {}", show(&String::from_utf8_lossy(&g))), &input)),
		Err(e) => return Err(fail("bytes", format!("the file {p:?} was reported as written and is not there: {e}"), &input)),
	}
	let want = outcome(guard(|| kiss_xml::parse_str(s.as_str())), "parse_str", &s)?;
	let got = outcome(guard(|| parse_path(c, &p)), "parse_filepath", &input)?;
	c.count("files read", 1);
	agree(&want, &got, "parse_filepath", &input)?;
	for x in beside {
		if std::fs::read(dir.join(&x)).map_err(harness)? != b"<decoy/>" {
			return Err(fail("file-changed", format!("writing to {p:?} changed {x:?}"), &input));
		}
	}
	Ok(())
}

/// the rights of files, as a user other than root
fn rights(c: &mut Ctx) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let dir = c.scratch.join(format!("p{}", c.idx));
	std::fs::create_dir_all(&dir).map_err(harness)?;
	let res = rights_in(c, &dir);
	let _ = std::fs::remove_dir_all(&dir);
	res
}

fn as_user<T>(f: impl FnOnce() -> T) -> T {
	unsafe { setfsuid(65_534) };
	let r = f();
	unsafe { setfsuid(0) };
	r
}

fn rights_in(c: &mut Ctx, dir: &PathBuf) -> R {
	use std::os::unix::fs::{chown, PermissionsExt};
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let mode = |p: &PathBuf, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).map_err(harness);
	let (d, s, ind) = doc(c)?;
	let input = format!("text: {}", show(&s));
	let p = dir.join("a.xml");
	let old = *c.r.pick(&["<old/>", "", "old"]);
	std::fs::write(&p, old).map_err(harness)?;
	mode(dir, 0o755)?;
	if chown(dir, Some(65_534), None).is_err() || as_user(|| std::fs::metadata(&p)).is_err() {
		return Ok(()); // not root, or the scratch directory is out of reach
	}
	let no = dir.join("no");
	std::fs::write(&no, "x").map_err(harness)?;
	mode(&no, 0)?;
	if as_user(|| std::fs::File::open(&no)).is_ok() {
		return Ok(()); // this process cannot give up its rights
	}
	chown(&p, Some(65_534), None).map_err(harness)?;
	c.count("rights of files", 1);
	match c.r.below(6) {
		0 => {
			// readable, and nothing more
			std::fs::write(&p, s.as_bytes()).map_err(harness)?;
			mode(&p, 0o404)?;
			mode(dir, 0o505)?;
			let want = outcome(guard(|| kiss_xml::parse_str(s.as_str())), "parse_str", &s)?;
			let got = outcome(as_user(|| guard(|| kiss_xml::parse_filepath(&p))), "parse_filepath of a file that can only be read", &input)?;
			agree(&want, &got, "parse_filepath of a file that can only be read", &input)
		}
		1 => {
			mode(&p, *c.r.pick(&[0o000, 0o200]))?;
			match outcome(as_user(|| guard(|| kiss_xml::parse_filepath(&p))), "parse_filepath", &input)? {
				Ok(_) => Err(fail("fault-hidden", "a file that may not be read was parsed", &input)),
				Err((_, true)) => Ok(()),
				Err((e, false)) => Err(fail("not-io-error", format!("a file that may not be read gives {e:?}, which is no I/O error"), &input)),
			}
		}
		k => {
			// (a file that cannot be written may be replaced where the directory allows it)
			let (file, below, q, must) = match k {
				2 => (0o404, 0o505, p.clone(), Some(false)),
				3 => (0o604, 0o505, dir.join("new.xml"), Some(false)),
				4 => (0o604, 0o505, dir.join("new").join("a.xml"), Some(false)),
				_ => (0o200, 0o700, p.clone(), Some(true)),
			};
			mode(&p, file)?;
			mode(dir, below)?;
			let res = as_user(|| save(c, &d, &q, ind));
			let now = std::fs::read(&q).ok();
			match (res, must) {
				(Err(e), _) => Err(fail("panic", e, &input)),
				(Ok(Ok(())), Some(false)) => Err(fail("fault-hidden", "writing where nothing may be written was reported as success", &input)),
				(Ok(Ok(())), _) if now.as_deref() != Some(s.as_bytes()) => Err(fail("bytes", "the file that can only be written holds something else", &input)),
				(Ok(Err(e)), Some(true)) => Err(fail("write-error", format!("writing to a file that can only be written failed: {e}"), &input)),
				(Ok(Err(_)), Some(false)) if q == p && now.as_deref() != Some(old.as_bytes()) => Err(fail("file-changed", "a file that may not be written was changed", &input)),
				_ => Ok(()),
			}
		}
	}
}

/// targets that are no plain files yet: links that lead nowhere, pipes, one of several links
fn targets(c: &mut Ctx) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let dir = c.scratch.join(format!("t{}", c.idx));
	std::fs::create_dir_all(&dir).map_err(harness)?;
	let res = targets_in(c, &dir);
	let _ = std::fs::remove_dir_all(&dir);
	res
}

fn targets_in(c: &mut Ctx, dir: &PathBuf) -> R {
	use std::os::unix::fs::OpenOptionsExt;
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let (d, s, ind) = doc(c)?;
	let input = format!("text: {}", show(&s));
	let p = dir.join("a.xml");
	let mut pipe = None;
	c.count("unusual targets", 1);
	match c.r.below(3) {
		0 => std::os::unix::fs::symlink("elsewhere.xml", &p).map_err(harness)?,
		1 if s.len() < 50_000 => {
			use std::os::unix::ffi::OsStrExt;
			let name = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
			if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 {
				return Err(harness(io::Error::last_os_error()));
			}
			// (a reader that waits for nothing)
			pipe = Some(std::fs::OpenOptions::new().read(true).write(true).custom_flags(0o4000).open(&p).map_err(harness)?);
		}
		_ => {
			std::fs::write(dir.join("b.xml"), "old").map_err(harness)?;
			std::fs::hard_link(dir.join("b.xml"), &p).map_err(harness)?;
		}
	}
	match save(c, &d, &p, ind) {
		Err(e) => return Err(fail("panic", e, &input)),
		Ok(Err(e)) => return Err(fail("write-error", format!("writing failed: {e}"), &input)),
		Ok(Ok(())) => {}
	}
	let mut got = Vec::new();
	match pipe {
		Some(mut f) if !std::fs::symlink_metadata(&p).map_err(harness)?.is_file() => {
			let mut buf = [0u8; 4096];
			while let Ok(n) = f.read(&mut buf) {
				if n == 0 {
					break;
				}
				got.extend_from_slice(&buf[..n]);
			}
		}
		_ => got = std::fs::read(&p).map_err(|e| fail("bytes", format!("the written file cannot be read: {e}"), &input))?,
	}
	if got != s.as_bytes() {
		return Err(fail("bytes", format!("{} bytes arrived instead of {}: {}", got.len(), s.len(), show(&String::from_utf8_lossy(&got))), &input));
	}
	Ok(())
}

/// several threads that write and read files in one directory
fn together(c: &mut Ctx) -> R {
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let dir = c.scratch.join(format!("g{}", c.idx));
	std::fs::create_dir_all(&dir).map_err(harness)?;
	let same = c.r.chance(1, 2);
	let texts: Vec<String> = (0..4)
		.map(|i| {
			let n = if same { 40 } else { c.r.below(2000) };
			format!("<r{i}>\n  <a k=\"{}\"/>\n</r{i}>\n", ["w", "x", "y", "z"][i].repeat(n))
		})
		.collect();
	c.nontrivial(texts.concat().as_bytes());
	let rounds = c.r.range(5, 40);
	// in directories of their own, or side by side
	let near = c.r.chance(1, 2);
	let bad = std::thread::scope(|sc| {
		let hs: Vec<_> = texts
			.iter()
			.enumerate()
			.map(|(i, t)| {
				let p = if near { dir.join(format!("b{i}.xml")) } else { dir.join(format!("{}{i}/{}.xml", if same { "d" } else { "." }, if same { "a" } else { "b" })) };
				sc.spawn(move || -> Option<String> {
					let d = kiss_xml::parse_str(t.as_str()).ok()?;
					for _ in 0..rounds {
						if let Err(e) = d.write_to_filepath(&p) {
							return Some(format!("writing to {p:?} failed: {e}"));
						}
						match std::fs::read(&p) {
							Ok(g) if g == t.as_bytes() => {}
							g => return Some(format!("{p:?} holds {g:?}")),
						}
						match kiss_xml::parse_filepath(&p) {
							Ok(e) if e == d => {}
							_ => return Some(format!("{p:?} is read as something else")),
						}
					}
					None
				})
			})
			.collect();
		hs.into_iter().find_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".to_string())))
	});
	let _ = std::fs::remove_dir_all(&dir);
	c.count("files written by several threads", 4 * rounds as u64);
	match bad {
		Some(w) => Err(fail("threads", w, &texts.join(""))),
		None => Ok(()),
	}
}

/// readers and writers that use the library themselves while they are asked, and that panic
fn nested(c: &mut Ctx) -> R {
	let (s, _) = text(c);
	let (inner, _) = text(c);
	if s.len() > 20_000 || inner.len() > 2_000 {
		return Ok(());
	}
	let input = format!("outer {}; inner {}", show(&s), show(&inner));
	c.nontrivial(input.as_bytes());
	let want = outcome(guard(|| kiss_xml::parse_str(s.as_str())), "parse_str", &s)?;
	if c.r.chance(1, 2) {
		let left = c.r.below(6);
		let r = guard(|| kiss_xml::parse_stream(super::Stumbling { data: s.as_bytes(), left }).is_ok());
		if s.len() > 3 * left + 3 && matches!(r, Ok(true)) {
			return Err(fail("fault-hidden", "a reader panicked and a document was returned", &input));
		}
		if let Ok(d) = &want {
			let left = c.r.below(4);
			let r = guard(|| d.write_to_file(&mut super::Tripping { left }).is_ok());
			if d.to_string().len() > 5 * left + 5 && matches!(r, Ok(true)) {
				return Err(fail("fault-hidden", "a writer panicked and success was reported", &input));
			}
		}
		c.count("panicking readers and writers", 1);
		let got = outcome(guard(|| kiss_xml::parse_stream(s.as_bytes())), "parse_stream after a reader that panicked", &input)?;
		agree(&want, &got, "parse_stream after a reader that panicked", &input)?;
	} else {
		let got = outcome(guard(|| kiss_xml::parse_stream(super::Nested { data: s.as_bytes(), inner: &inner })), "parse_stream with a reader that parses", &input)?;
		c.count("calls inside calls", 1);
		agree(&want, &got, "parse_stream with a reader that parses", &input)?;
	}
	if let Ok(d) = &want {
		let text = d.to_string();
		let mut w = super::NestedOut { got: Vec::new(), step: *c.r.pick(&[1, 3, 16, 1000]), inner: &inner };
		match guard(|| d.write_to_file(&mut w)) {
			Ok(Ok(())) if w.got == text.as_bytes() => {}
			Ok(Ok(())) => return Err(fail("bytes", format!("a writer that parses got {}", show(&String::from_utf8_lossy(&w.got))), &input)),
			Ok(Err(e)) => return Err(fail("write-error", format!("failed ({e}) although every write succeeded"), &input)),
			Err(p) => return Err(fail("panic", p, &input)),
		}
	}
	Ok(())
}

/// large documents through streams and files: sizes spread evenly over the orders of magnitude
fn large(c: &mut Ctx) -> R {
	let k = if c.idx % (4_001 * 12) == 0 { c.r.range(20, 24) } else { c.r.range(13, 20) };
	let mut want = (1usize << k) + c.r.below(1 << k) + 7;
	let mut unit = *c.r.pick(&["word ", "é漢🦀x", "<a b='1'>t</a>", "\n", "<!-- é -->\n", "x"]);
	if c.idx == 0 {
		// once beyond any plausible limit
		want = (130 << 20) + c.r.below(1 << 20);
		unit = "words and é ";
	}
	let n = want / unit.len() + 1;
	// one long token is cheap; elements are dear
	let n = if unit.starts_with("<a") { n.min(200_000) } else if unit.starts_with("<!") { n.min(400_000) } else { n };
	let s = format!("<r><x/>{}<end a='é'/></r>", unit.repeat(n));
	let input = format!("<r><x/>{} times {unit:?}<end a='é'/></r> ({} bytes)", n, s.len());
	c.nontrivial(input.as_bytes());
	c.sample(|| input.clone());
	let harness = |e: io::Error| fail("harness", format!("scratch file: {e}"), "");
	let want = outcome(guard(|| kiss_xml::parse_str(s.as_str())), "parse_str", &input)?;
	let Ok(d) = &want else { return Err(fail("harness", "the large document is rejected".to_string(), &input)) };
	let parts = d.root_element().child_elements().filter(|e| e.name() == "end").count();
	if parts != 1 {
		return Err(fail("other-document", format!("parse_str of the large document holds {parts} last elements instead of one"), &input));
	}
	c.count("large documents", 1);
	c.count("large bytes", s.len() as u64);
	let mut sc = script(&mut c.r, s.len(), false);
	sc.truncate(6);
	let rest = *c.r.pick(&[4093, 8192, 65_537, 1 << 30]);
	let mut src = Src { data: s.as_bytes(), at: 0, script: sc, k: 0, rest, ended: false, interrupts: 0, splits: 0 };
	let got = outcome(guard(|| kiss_xml::parse_stream(&mut src)), "parse_stream", &input)?;
	c.count("streams read", 1);
	agree(&want, &got, "parse_stream", &input)?;
	drop(got);
	let p = c.scratch.join(format!("l{}.xml", c.idx));
	std::fs::write(&p, s.as_bytes()).map_err(harness)?;
	let got = outcome(guard(|| kiss_xml::parse_filepath(&p)), "parse_filepath", &input);
	let _ = std::fs::remove_file(&p);
	agree(&want, &got?, "parse_filepath", &input)?;
	c.count("files read", 1);
	// and out again
	let text = guard(|| d.to_string()).map_err(|p| fail("panic", p, &input))?;
	let mut sc = script(&mut c.r, text.len(), false);
	sc.truncate(6);
	let mut out = Sink { got: Vec::new(), script: sc, k: 0, rest, short: 0, interrupts: 0, failed: false };
	match guard(|| d.write_to_file(&mut out)) {
		Err(p) => return Err(fail("panic", p, &input)),
		Ok(Err(e)) => return Err(fail("write-error", format!("failed ({e}) although every write succeeded"), &input)),
		Ok(Ok(())) => {}
	}
	c.count("streams written", 1);
	c.count("short writes", out.short);
	if out.got != text.as_bytes() {
		return Err(fail("bytes", format!("{} bytes delivered instead of {}", out.got.len(), text.len()), &input));
	}
	let q = c.scratch.join(format!("m{}", c.idx));
	let res = guard(|| d.write_to_filepath(q.join("out.xml")));
	let got = std::fs::read(q.join("out.xml"));
	let _ = std::fs::remove_dir_all(&q);
	match res {
		Err(p) => return Err(fail("panic", p, &input)),
		Ok(Err(e)) => return Err(fail("write-error", format!("writing a large file failed: {e}"), &input)),
		Ok(Ok(())) => {}
	}
	c.count("files written", 1);
	match got {
		Ok(g) if g == text.as_bytes() => Ok(()),
		Ok(g) => Err(fail("bytes", format!("the file holds {} bytes instead of {}", g.len(), text.len()), &input)),
		Err(e) => Err(fail("bytes", format!("the written file cannot be read: {e}"), &input)),
	}
}

fn run(c: &mut Ctx) -> R {
	if c.idx % 4_001 == 0 && !c.asan {
		return large(c);
	}
	if c.r.chance(1, 40) {
		return nested(c);
	}
	if !cfg!(miri) && c.r.chance(1, 50) {
		return match c.r.below(8) {
			0..=2 => names(c),
			3..=4 => rights(c),
			5..=6 => targets(c),
			_ => together(c),
		};
	}
	match c.r.below(20) {
		0..=9 => read_stream(c),
		10..=11 => read_file(c),
		12..=17 => write_stream(c),
		_ => write_file(c),
	}
}
