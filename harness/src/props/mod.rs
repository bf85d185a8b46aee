pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod mutate;

use crate::runner::{Fail, Prop};
use std::path::Path;

pub static ALL: &[&Prop] = &[
	&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c15::PROP, &c16::PROP, &c17::PROP, &c18::PROP, &c19::PROP, &c20::PROP,
];

pub fn find(id: &str) -> Option<&'static Prop> {
	ALL.iter().copied().find(|p| p.id == id)
}

pub fn fail(sig: &str, msg: impl Into<String>, input: &str) -> Fail {
	let mut i = input.to_string();
	if i.len() > 200_000 {
		let mut k = 200_000;
		while !i.is_char_boundary(k) {
			k -= 1;
		}
		i.truncate(k);
		i.push_str("...(cut; re-create with: check.sh replay)");
	}
	Fail::new(sig, msg, i)
}

/// Some(true): the known finding still fails; Some(false): it does not
pub fn probe(name: &str, _root: &Path) -> Option<bool> {
	use std::process::{Command, Stdio};
	let exe = std::env::current_exe().ok()?;
	let mut c = Command::new("sh");
	c.arg("-c").arg("ulimit -c 0; ulimit -t 60; exec \"$0\" \"$@\"").arg(exe).args(["child", "probe", name]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
	let st = c.status().ok()?;
	match st.code() {
		Some(0) => Some(false),
		Some(3) => None,
		_ => Some(true),
	}
}

pub fn child(a: &[String]) -> i32 {
	match a.first().map(|s| s.as_str()) {
		Some("probe") => c04::probe_child(a.get(1).map(|s| s.as_str()).unwrap_or("")),
		Some("race") => c11::race_child(a),
		Some("emit") => c11::emit_child(a),
		Some("quiet") => c20::quiet_child(a),
		_ => 3,
	}
}

/// a few cheap cases of many properties in this process, for interpreters such as Miri
pub fn mini(seed: u64, n: u64) -> i32 {
	let dir = std::env::temp_dir();
	let mut bad = 0;
	for p in ALL {
		if matches!(p.id, "C11" | "C12" | "C14" | "C18" | "C05" | "C20") {
			continue;
		}
		let mut c = crate::runner::make_ctx(p, false, seed, &dir);
		c.asan = true; // cheap variants
		for i in 0..n {
			if let Err(f) = crate::runner::run_case(p, &mut c, 1000 + i) {
				println!("{} case {}: [{}] {}", p.id, 1000 + i, f.sig, f.msg);
				bad = 1;
			}
		}
		println!("{}: {} cases", p.id, n);
	}
	bad
}

/// The library is used, mostly in ways that it refuses, on this thread: what follows must not depend on it.
/// Returns a message when the same malformed text gives two different errors.
pub fn disturb(r: &mut crate::rng::Rng) -> Result<u64, Fail> {
	use crate::gen::{self, Cfg, Chars, Size};
	use crate::runner::guard;
	use crate::surface;
	use kiss_xml::dom::*;
	let mut n = 0;
	for _ in 0..r.range(1, 3) {
		match r.below(10) {
			0..=4 => {
				let mut cfg = Cfg::new(Chars::Plain);
				cfg.strict_comments = true;
				let size = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Ns]);
				let m = gen::doc(r, &cfg, size);
				let st = surface::Style::random(r);
				let (s, marks) = surface::write_doc(r, &m, st);
				let cl = *r.pick(&[18, 18, 19, 20, 21, 1, 2, 11, 12, 22, 23, 25, 27, 33, 9, 7]);
				let t = match c03::inject(r, &s, &marks, cl) {
					Some(b) => b.text,
					None => s,
				};
				let f = |t: &str| guard(|| kiss_xml::parse_str(t).map(|d| d.to_string()).map_err(|e| e.to_string()));
				let a = f(&t);
				n += 1;
				if r.chance(1, 2) {
					let b = f(&t);
					if a != b {
						return Err(fail("parse-again", format!("parsing the same text twice gives {a:?} and then {b:?}"), &t));
					}
				}
			}
			5 => {
				let s = gen::text(r, Chars::Any);
				let _ = guard(|| {
					let _ = Element::new_from_name(s.as_str());
					let _ = Comment::new(s.as_str());
					let _ = CData::new(s.as_str());
					let _ = Declaration::from_str(s.as_str());
					let _ = DTD::from_string(s.as_str());
					if let Ok(mut e) = Element::new_from_name("e") {
						let _ = e.set_attr(s.as_str(), "v");
						let _ = e.set_attr("a", s.as_str());
						let _ = e.insert(7, Text::new(s.as_str()));
						let _ = e.remove(3);
						let _ = e.to_string_with_indent("\u{1}");
					}
				});
				n += 1;
			}
			6 => {
				let s = gen::text(r, Chars::Any);
				let _ = guard(|| kiss_xml::unescape(kiss_xml::text_escape(kiss_xml::attribute_escape(s.as_str()))));
				n += 1;
			}
			7 => {
				// what the caller passes in panics
				let at = r.below(4);
				let t = "<a k='v'>t<b>u</b><!--c--><c/></a>";
				let _ = guard(|| kiss_xml::parse_stream(Stumbling { data: t.as_bytes(), left: at }).is_ok());
				let _ = guard(|| {
					if let Ok(d) = kiss_xml::parse_str(t) {
						let _ = d.write_to_file(&mut Tripping { left: at });
					}
				});
				for k in 0..4 {
					let _ = guard(|| {
						if let Ok(mut d) = kiss_xml::parse_str(t) {
							let left = std::cell::Cell::new(at);
							let f = || -> bool {
								if left.get() == 0 {
									panic!("a callback panics");
								}
								left.set(left.get() - 1);
								true
							};
							let _ = match k {
								0 => d.root_element().search(|_| f()).count(),
								1 => d.root_element_mut().remove_elements(|_| f()),
								2 => d.root_element_mut().remove_by(&|_| f()),
								_ => d.root_element_mut().remove_all(&|_| f()),
							};
						}
					});
				}
				n += 1;
			}
			8 => {
				// used again while it calls back
				let t = "<a xmlns='u'>t<b>u</b></a>";
				let _ = guard(|| kiss_xml::parse_stream(Nested { data: t.as_bytes(), inner: "<b>&amp;</b>" }).map(|d| d.to_string()));
				if let Ok(Ok(d)) = guard(|| kiss_xml::parse_str(t)) {
					let _ = guard(|| d.root_element().search_elements(|e| kiss_xml::parse_str(e.to_string()).is_ok()).count());
				}
				n += 1;
			}
			_ => {
				let k = r.range(0, 6);
				let bytes: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
				let _ = guard(|| kiss_xml::parse_stream(&bytes[..]).is_ok());
				n += 1;
			}
		}
	}
	Ok(n)
}

/// a reader that gives a few bytes and panics
pub struct Stumbling<'a> {
	pub data: &'a [u8],
	pub left: usize,
}
impl std::io::Read for Stumbling<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		if self.left == 0 {
			panic!("the reader panics");
		}
		self.left -= 1;
		let n = buf.len().min(self.data.len()).min(3);
		buf[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		Ok(n)
	}
}

/// a writer that takes a few bytes and panics
pub struct Tripping {
	pub left: usize,
}
impl std::io::Write for Tripping {
	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
		if self.left == 0 {
			panic!("the writer panics");
		}
		self.left -= 1;
		Ok(buf.len().min(5))
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

/// a reader that parses and writes another document whenever it is asked
pub struct Nested<'a> {
	pub data: &'a [u8],
	pub inner: &'a str,
}
impl std::io::Read for Nested<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		let mut out = Vec::new();
		if let Ok(d) = kiss_xml::parse_stream(self.inner.as_bytes()) {
			let _ = d.write_to_file(&mut out);
		}
		let n = buf.len().min(self.data.len()).min(5);
		buf[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		Ok(n)
	}
}

/// a writer that parses and writes another document whenever it is asked
pub struct NestedOut<'a> {
	pub got: Vec<u8>,
	pub step: usize,
	pub inner: &'a str,
}
impl std::io::Write for NestedOut<'_> {
	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
		if let Ok(d) = kiss_xml::parse_str(self.inner) {
			let _ = d.write_to_file(&mut Vec::new());
		}
		let n = buf.len().min(self.step);
		self.got.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}
