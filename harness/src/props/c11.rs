//! Determinism of output and parsing: orders of construction, clones, histories, threads, processes.
use super::fail;
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::rng::{hash64, mix, Rng};
use crate::runner::*;
use crate::{refser, snap, surface};
use kiss_xml::dom::*;
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::Barrier;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 5000;

pub static PROP: Prop = Prop {
	id: "C11",
	rule: "attributes are given in many orders (constructor maps, set, overwritten, removed and set again) and the written tag compared with the documented order; whole trees are built several times, cloned, written repeatedly, and texts parsed again after other and failing parses; groups of threads released at once and fresh processes (first use of the library by many threads; the same documents written in another process) must agree with the reference results; non-trivial: a distinct set of at least two attributes or a distinct document text",
	quick: 90000,
	thorough: 1200000,
	shards: 8,
	floors: &[("attribute orders", 2000), ("written again", 1000), ("parsed again", 500), ("thread groups", 5), ("threads", 20)],
	run,
	probes: &[],
};

fn attr_set(r: &mut Rng) -> Vec<(String, String)> {
	let n = match r.below(6) {
		0 => r.range(2, 3),
		1..=3 => r.range(3, 8),
		4 => r.range(8, 20),
		_ => r.range(20, 60),
	};
	let mut v: HashMap<String, String> = HashMap::new();
	// names that agree in what may be a long beginning
	let base = gen::name(r).repeat(*r.pick(&[1, 2, 10, 40, 300]));
	let common = *r.pick(&[0, 0, 0, 50, 90]);
	for i in 0..n {
		if r.below(100) < common {
			v.insert(format!("{}{base}{}", r.pick(&["", "", "p:", "xmlns:"]), r.below(50)), format!("v{i}"));
			continue;
		}
		let k = match r.below(10) {
			0 => "xmlns".to_string(),
			1 | 2 => format!("xmlns:{}", r.pick(&["a", "b", "é", "A", "p1", "p10", "p2", "_", "x", "z", "zz", "xml-", "ab"])),
			3 => format!("{}:{}", r.pick(&["a", "b", "xml", "z"]), gen::name(r)),
			4 => r.pick(&["a", "A", "aa", "a-b", "a.b", "a1", "a_b", "ab", "B", "b", "_a", "é", "漢", "x", "w", "xm", "xml", "xmk", "xmln", "y", "xmlo", "z", "W", "X", "xmmns", "\u{10000}"]).to_string(),
			5 => format!("k{}", r.below(30)),
			6 => format!("{}{}", r.pick(&["w", "x", "xm", "xml", "y", "a"]), r.below(40)),
			_ => gen::name(r),
		};
		if k.starts_with("xmlns") && k != "xmlns" && !k.starts_with("xmlns:") {
			continue;
		}
		let val = if k == "xmlns" && r.chance(1, 3) { String::new() } else if r.chance(1, 2) { format!("v{i}") } else { gen::text_n(r, Chars::Any, 1) };
		v.insert(k, val);
	}
	let mut v: Vec<_> = v.into_iter().collect();
	v.sort();
	v
}

fn check_text(c: &mut Ctx, got: Result<String, String>, want: &str, what: &str) -> R {
	match got {
		Err(p) => Err(fail("panic", p, want)),
		Ok(g) => {
			c.count("written again", 1);
			if g != want {
				return Err(fail("output", format!("{what}: written as {}", show(&g)), want));
			}
			Ok(())
		}
	}
}

fn orders(c: &mut Ctx) -> R {
	let set = attr_set(&mut c.r);
	let mut m = El::new("e");
	m.attrs = set.iter().cloned().collect();
	let want = refser::print_el(&m, "  ");
	if set.len() >= 2 {
		c.nontrivial(want.as_bytes());
	}
	c.sample(|| want.clone());
	let mut first: Option<Element> = None;
	for _ in 0..c.r.range(3, 8) {
		let mut s = set.clone();
		c.r.shuffle(&mut s);
		c.count("attribute orders", 1);
		let e = match c.r.below(4) {
			0 => Element::new_with_attributes("e", s.into_iter().collect::<HashMap<_, _>>()),
			1 => Element::new("e", None, Some(s.into_iter().collect::<HashMap<_, _>>()), None::<String>, None::<String>, None),
			k => Element::new_from_name("e").and_then(|mut e| {
				if k == 3 {
					// other attributes come and go
					for i in 0..c.r.range(1, 40) {
						e.set_attr(format!("tmp{i}"), "x")?;
					}
				}
				for (a, v) in &s {
					if c.r.chance(1, 4) {
						e.set_attr(a.as_str(), "before")?;
						if c.r.chance(1, 2) {
							e.remove_attr(a.as_str());
						}
					}
					e.set_attr(a.as_str(), v.as_str())?;
				}
				if k == 3 {
					for i in 0..40 {
						e.remove_attr(format!("tmp{i}"));
					}
				}
				Ok(e)
			}),
		}
		.map_err(|e| fail("constructor", e.to_string(), &want))?;
		check_text(c, guard(|| e.to_string()), &want, "attributes in another order")?;
		check_text(c, guard(|| e.clone().to_string()), &want, "clone")?;
		let e2 = e.clone().clone();
		check_text(c, guard(|| e.to_string_with_indent("")), &want, "written again")?;
		drop(e);
		check_text(c, guard(|| e2.to_string()), &want, "clone of a clone")?;
		if let Some(f) = &first {
			if *f != e2 {
				return Err(fail("equality", "the same attributes in another order are not equal", &want));
			}
		}
		first = Some(e2);
	}
	// as a nested element
	let mut p = Element::new_from_name("p").map_err(|e| fail("constructor", e.to_string(), &want))?;
	p.append(first.unwrap());
	check_text(c, guard(|| p.to_string_with_indent(" ")), &format!("<p>\n {want}\n</p>"), "as a child")
}

fn make(r: &mut Rng, huge: Option<gen::Size>) -> (Doc, u64) {
	let mut cfg = Cfg::new(if r.chance(1, 2) { Chars::Any } else { Chars::Plain });
	cfg.xmlnsish = false;
	let size = huge.unwrap_or(gen::pick_size(r, 2));
	let d = gen::doc(r, &cfg, size);
	(d, r.next())
}

fn trees(c: &mut Ctx) -> R {
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let (mut m, s) = make(&mut c.r, huge);
	let ind = *c.r.pick(&["", "  ", "\t"]);
	let mut docs = Vec::new();
	for k in 0..3u64 {
		let mut r = Rng::new(mix(s ^ k));
		docs.push(snap::build_doc(&mut r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?);
	}
	norm(&mut m.root);
	let want = refser::print_doc(&m, ind);
	c.nontrivial(want.as_bytes());
	for d in &docs {
		for _ in 0..2 {
			check_text(c, guard(|| d.to_string_with_indent(ind)), &want, "tree built again")?;
		}
		if *d != docs[0] {
			return Err(fail("equality", "the same document built again is not equal", &want));
		}
	}
	// attributes with the same content but another history in place
	let d = &mut docs[0];
	shuffle_attrs(&mut c.r, d.root_element_mut());
	check_text(c, guard(|| d.to_string_with_indent(ind)), &want, "attributes removed and set again")?;
	// parsing
	let st = surface::Style::random(&mut c.r);
	let (x, _) = surface::write_doc(&mut c.r, &m, st);
	let p = guard(|| kiss_xml::parse_str(x.as_str())).map_err(|p| fail("panic", p, &x))?.map_err(|e| fail("rejected", e.to_string(), &x))?;
	for _ in 0..2 {
		// something else in between
		if c.r.chance(1, 2) {
			let n = super::disturb(&mut c.r)?;
			c.count("refused and unrelated calls in between", n);
			let q = guard(|| kiss_xml::parse_str(x.as_str())).map_err(|p| fail("panic", p, &x))?.map_err(|e| fail("rejected", format!("accepted before, then: {e}"), &x))?;
			c.count("parsed again", 1);
			snap::same_doc(&m, &q, true).map_err(|e| fail("tree", format!("after unrelated calls {e}"), &x))?;
			check_text(c, guard(|| q.to_string_with_indent(ind)), &want, "parsed again after unrelated calls")?;
		}
		let (o, _) = make(&mut c.r, None);
		let st = surface::Style::random(&mut c.r);
		let (mut y, _) = surface::write_doc(&mut c.r, &o, st);
		if c.r.chance(1, 2) {
			let mut k = c.r.below(y.len() + 1);
			while !y.is_char_boundary(k) {
				k -= 1;
			}
			y.truncate(k);
		}
		let _ = guard(|| kiss_xml::parse_str(y.as_str()));
		if c.r.chance(1, 3) && m.root.count() < 300 {
			// the same in other letters
			let o = gen::remap(&m);
			let (y, _) = surface::write_doc(&mut c.r, &o, surface::Style::minimal());
			let q = guard(|| kiss_xml::parse_str(y.as_str())).map_err(|p| fail("panic", p, &y))?.map_err(|e| fail("rejected", e.to_string(), &y))?;
			snap::same_doc(&o, &q, true).map_err(|e| fail("tree", e, &y))?;
			check_text(c, guard(|| q.to_string_with_indent(ind)), &refser::print_doc(&o, ind), "in other letters")?;
		}
		let q = guard(|| kiss_xml::parse_str(x.as_str())).map_err(|p| fail("panic", p, &x))?.map_err(|e| fail("rejected", format!("accepted before, then: {e}"), &x))?;
		c.count("parsed again", 1);
		if p != q {
			return Err(fail("parse-again", "parsing the same text again gives another document", &x));
		}
		snap::same_doc(&m, &q, true).map_err(|e| fail("tree", e, &x))?;
		check_text(c, guard(|| q.to_string_with_indent(ind)), &want, "parsed again")?;
	}
	// a malformed text gives the same message again
	let f = |s: &str| guard(|| kiss_xml::parse_str(s).map(|d| d.to_string()).map_err(|e| e.to_string()));
	let mut bad = x.clone();
	let mut k = c.r.below(bad.len());
	while !bad.is_char_boundary(k) {
		k -= 1;
	}
	bad.truncate(k);
	let a = f(&bad);
	if c.r.chance(1, 3) {
		super::disturb(&mut c.r)?;
	}
	let b = f(&bad);
	if a != b {
		return Err(fail("parse-again", "parsing a truncated text twice gives two results", &bad));
	}
	Ok(())
}

fn shuffle_attrs(r: &mut Rng, e: &mut Element) {
	if !e.attributes().is_empty() {
		let mut a: Vec<(String, String)> = e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
		r.shuffle(&mut a);
		e.clear_attributes();
		for (k, v) in a {
			let _ = e.set_attr(k, v);
		}
	}
	for x in e.child_elements_mut() {
		shuffle_attrs(r, x);
	}
}

/// texts that must be refused, each for one reason; the error must be the same whatever other threads do
fn refusals(r: &mut Rng) -> Result<(), String> {
	const BAD: &[&str] = &[
		"<a b=\"1\"c=\"2\"/>", "<a b=c/>", "<a b/>", "<a b='1' b='2'/>", "<a></b>", "<a", "<a>", "x<a/>", "<a/>x", "<a/><b/>", "<1/>", "<a $='1'/>", "<p:a/>", "<a><!-- </a>", "<a><![CDATA[ </a>", "<?xml version='1.0'", "<!DOCTYPE a [", "<a><>", "</a>", "", "<!---->",
		"<a><b></a></b>", "<a b='1'/ >", "<a b='<'/><", "<a b=\"1' />", "<a><?xml version='1.0'?></a>", "<a =''/>", "<a b= />", "<a 'b'/>", "<a></a b='c'>", "<a></a><!--",
	];
	for _ in 0..r.range(1, 6) {
		let t = *r.pick(BAD);
		if let Ok(d) = kiss_xml::parse_str(t) {
			return Err(format!("accepts {t:?} as {d}"));
		}
	}
	Ok(())
}

/// one thread's work: results compared with the reference. Every part of the library that may hold
/// state shared between threads is used.
fn thread_work(seed: u64, rounds: usize) -> Result<u64, String> {
	let mut r = Rng::new(seed);
	let mut h = 0u64;
	if r.chance(1, 2) {
		refusals(&mut r)?;
	}
	for k in 0..rounds {
		let (mut m, _) = make(&mut r, None);
		if m.root.count() > 300 {
			continue;
		}
		match (k + r.below(3)) % 3 {
			0 => {
				let d = snap::build_doc(&mut r, &m)?;
				norm(&mut m.root);
				let ind = *r.pick(&["  ", "", "\t", "            ", "\t\t\t", " "]);
				let want = refser::print_doc(&m, ind);
				let s = if ind == "  " { d.to_string() } else { d.to_string_with_indent(ind) };
				if s != want {
					return Err(format!("written as {} instead of {}", show(&s), show(&want)));
				}
				h = mix(h ^ hash64(s.as_bytes()));
			}
			1 => {
				let st = surface::Style::random(&mut r);
				let (x, _) = surface::write_doc(&mut r, &m, st);
				norm(&mut m.root);
				let d = kiss_xml::parse_str(x.as_str()).map_err(|e| format!("rejected: {e}: {}", show(&x)))?;
				snap::same_doc(&m, &d, true).map_err(|e| format!("{e}: {}", show(&x)))?;
				let s = d.to_string();
				if s != refser::print_doc(&m, "  ") {
					return Err(format!("parsed {} and written as {}", show(&x), show(&s)));
				}
				h = mix(h ^ hash64(s.as_bytes()));
			}
			_ => {
				let t = gen::text(&mut r, Chars::Any);
				let e = kiss_xml::escape(t.as_str());
				if e != refser::esc_all(&t) || kiss_xml::unescape(e.as_str()) != t || kiss_xml::text_escape(t.as_str()) != refser::esc_text(&t) {
					return Err(format!("escape of {} gives {}", show(&t), show(&e)));
				}
				for (n, ok) in [("a:b", true), ("1", false), ("", false), ("x y", false), ("é", true), ("a\u{300}", true), (":a", false)] {
					let mut e = Element::new_from_name("e").map_err(|e| e.to_string())?;
					if e.set_attr(n, "v").is_ok() != ok {
						return Err(format!("attribute name {n:?} is judged wrongly"));
					}
				}
				if Comment::new("a-->b").is_ok() || CData::new("]]>").is_ok() || kiss_xml::parse_str("<a></b>").is_ok() || kiss_xml::parse_str("<a b=c/>").is_ok() {
					return Err("accepts what is invalid".into());
				}
			}
		}
	}
	Ok(h)
}

fn group(seed: u64, n: usize, rounds: usize) -> Result<(), String> {
	let b = Barrier::new(n);
	let res: Vec<Result<Result<u64, String>, String>> = std::thread::scope(|s| {
		let hs: Vec<_> = (0..n)
			.map(|k| {
				let b = &b;
				std::thread::Builder::new()
					.stack_size(16 << 20)
					.spawn_scoped(s, move || {
						b.wait();
						// half of the threads do the same work
						guard(|| thread_work(mix(seed ^ (k as u64 / 2)), rounds))
					})
					.expect("thread")
			})
			.collect();
		hs.into_iter().map(|h| h.join().unwrap_or(Err("thread died".into()))).collect()
	});
	let mut vals = Vec::new();
	for (k, x) in res.into_iter().enumerate() {
		match x {
			Err(p) => return Err(format!("thread {k}: {p}")),
			Ok(Err(e)) => return Err(format!("thread {k}: {e}")),
			Ok(Ok(v)) => vals.push(v),
		}
	}
	for p in vals.chunks(2) {
		if p.len() == 2 && p[0] != p[1] {
			return Err("two threads doing the same work disagree".into());
		}
	}
	Ok(())
}

fn spawn_child(args: &[String]) -> Option<(i32, String)> {
	let exe = std::env::current_exe().ok()?;
	let o = Command::new(exe).arg("child").args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
	Some((o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned()))
}

fn run(c: &mut Ctx) -> R {
	let i = c.idx;
	if i % 400 < 8 && !c.asan {
		// many threads in a fresh process, using the library for the first time
		let s = c.r.next();
		let n = *c.r.pick(&[2usize, 4, 8, 16]);
		c.count("fresh processes (first use by many threads)", 1);
		c.count("thread groups", 1);
		c.count("threads", n as u64);
		return match spawn_child(&["race".into(), s.to_string(), n.to_string()]) {
			None => Err(fail("harness", "cannot start a process", "")),
			Some((0, _)) => Ok(()),
			Some((3, o)) => Err(fail("harness", o, "")),
			Some((k, o)) => Err(fail("threads-first-use", format!("fresh process with {n} threads: exit {k}: {o}"), &format!("kmon child race {s} {n}"))),
		};
	}
	if i % 400 < 12 && !c.asan {
		// the same documents written in another process
		let s = c.r.next();
		c.count("other processes", 1);
		let mine = emit(s, 40).map_err(|e| fail("output", e, &format!("kmon child emit {s}")))?;
		return match spawn_child(&["emit".into(), s.to_string()]) {
			None => Err(fail("harness", "cannot start a process", "")),
			Some((0, o)) if o.trim() == mine => Ok(()),
			Some((k, o)) => Err(fail("process", format!("another process writes the same documents differently (exit {k}: {o}, here {mine})"), &format!("kmon child emit {s}"))),
		};
	}
	if i % 50 == 20 {
		let n = c.r.range(2, 8);
		let s = c.r.next();
		c.count("thread groups", 1);
		c.count("threads", n as u64);
		return group(s, n, 12).map_err(|e| fail("threads", e, &format!("group of {n} threads, seed {s}")));
	}
	if i % 3 == 0 || c.huge(HUGE_PERIOD).is_some() {
		trees(c)
	} else {
		orders(c)
	}
}

fn emit(seed: u64, n: usize) -> Result<String, String> {
	let mut r = Rng::new(seed);
	let mut h = 0u64;
	for _ in 0..n {
		let (m, _) = make(&mut r, None);
		if m.root.depth() > 100 {
			continue;
		}
		let d = snap::build_doc(&mut r, &m)?;
		h = mix(h ^ hash64(d.to_string_with_indent("\t").as_bytes()));
		let s = d.to_string();
		h = mix(h ^ hash64(s.as_bytes()));
		let p = kiss_xml::parse_str(s).map_err(|e| e.to_string())?;
		h = mix(h ^ hash64(p.to_string().as_bytes()));
		h = mix(h ^ (p == d) as u64);
	}
	Ok(format!("{h:016x}"))
}

/// first use of the library in this process, by many threads at once
pub fn race_child(a: &[String]) -> i32 {
	install_hook();
	let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
	let n: usize = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(4);
	match group(seed, n, 4) {
		Ok(()) => 0,
		Err(e) => {
			println!("{e}");
			1
		}
	}
}
pub fn emit_child(a: &[String]) -> i32 {
	install_hook();
	let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
	let h = std::thread::Builder::new().stack_size(STACK).spawn(move || emit(seed, 40));
	match h.map(|h| h.join()) {
		Ok(Ok(Ok(s))) => {
			println!("{s}");
			0
		}
		Ok(Ok(Err(e))) => {
			println!("{e}");
			1
		}
		_ => 1,
	}
}
