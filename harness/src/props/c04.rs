//! Round trip: built, parsed or edited document -> text -> the same document.
use super::fail;
use crate::edit;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::runner::*;
use crate::{snap, surface};
use kiss_xml::dom::*;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 2549;

pub static PROP: Prop = Prop {
	id: "C04",
	rule: "a document is built through random equivalent constructors, or parsed from random surface syntax, and then edited 0 to 25 times in step with the model; for several indents it is written, re-parsed, compared node by node with the model (namespaces included) and with the original by ==, and written again; non-trivial: a distinct serialized text of a document with at least 3 nodes or attributes",
	quick: 130000,
	thorough: 1500000,
	shards: 8,
	floors: &[("round trips", 2000), ("edited documents", 200), ("parsed documents", 200), ("second writes compared", 1000), ("compared by ==", 300), ("edits", 1000)],
	run,
	probes: &["deep-serialize"],
};

pub const INDENTS: &[&str] = &["", " ", "  ", "\t", "    ", "       ", "                                 "];

fn drops_ws(e: &El) -> bool {
	let mut c = e.ch.clone();
	norm_children(&mut c);
	let a: usize = e.ch.iter().map(|n| if let N::T(t) = n { t.len() } else { 0 }).sum();
	let b: usize = c.iter().map(|n| if let N::T(t) = n { t.len() } else { 0 }).sum();
	let ta = e.ch.iter().any(|n| matches!(n, N::T(_)));
	let tb = c.iter().any(|n| matches!(n, N::T(_)));
	a != b || ta != tb || e.ch.iter().any(|n| if let N::E(x) = n { drops_ws(x) } else { false })
}

pub fn random_doc(c: &mut Ctx, cfg: &Cfg, size: Size) -> Result<(Doc, Document), Fail> {
	let mut m = gen::doc(&mut c.r, cfg, size);
	if c.r.chance(1, 6) {
		m.dtds.push(gen::dtd(&mut c.r, true));
	}
	let d = if c.r.chance(1, 3) {
		// a parsed document: comment dashes are fine for this library
		c.count("parsed documents", 1);
		let st = surface::Style::random(&mut c.r);
		let (s, _) = surface::write_doc(&mut c.r, &m, st);
		norm(&mut m.root);
		kiss_xml::parse_str(s.as_str()).map_err(|e| fail("rejected", format!("well-formed document rejected: {e}"), &s))?
	} else {
		let d = snap::build_doc(&mut c.r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?;
		norm(&mut m.root);
		d
	};
	Ok((m, d))
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(if c.r.chance(1, 2) { Chars::Any } else { Chars::Legal });
	cfg.normal = c.r.chance(2, 3);
	let huge = c.huge(HUGE_PERIOD);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 15 }));
	c.count("enormous documents", huge.is_some() as u64);
	let (mut m, mut d) = random_doc(c, &cfg, size)?;
	let mut log = String::new();
	if m.root.count() < 80 && c.r.chance(1, 2) {
		c.count("edited documents", 1);
		let k = c.r.range(1, 25);
		let o = edit::Opt { cfg: cfg.clone(), ns: c.r.chance(1, 2), raw: c.r.chance(1, 3), assign: false, invalid: false, keep_root_ns: true };
		let sc = Scope::new();
		log = format!("start: {}\n", d.to_string());
		for _ in 0..k {
			let root = d.root_element_mut();
			let x = if c.r.chance(1, 8) { edit::relocate(&mut c.r, &mut m.root, root) } else { edit::step(&mut c.r, &mut m.root, root, &o, &sc) };
			match x {
				Ok(s) => {
					log.push_str(&s);
					log.push('\n');
				}
				Err(e) => return Err(fail("edit", e, &log)),
			}
			c.count("edits", 1);
		}
		if c.r.chance(1, 4) {
			let decl = if c.r.chance(1, 2) { Some(gen::decl(&mut c.r)) } else { None };
			d.set_declaration(match &decl {
				None => None,
				Some(x) => Some(Declaration::from_str(x).map_err(|e| fail("constructor", e.to_string(), x))?),
			});
			m.decl = decl;
		}
	}
	// model as it is, and as it must come back
	let dropped = drops_ws(&m.root);
	let mut want = m.clone();
	norm(&mut want.root);
	let is_normal = want.root == m.root;
	let n = want.root.count();
	let mut inds: Vec<&str> = INDENTS.to_vec();
	c.r.shuffle(&mut inds);
	if n > 500 || m.root.depth() > 40 {
		inds.truncate(2);
	}
	let k = c.r.range(1, inds.len());
	for ind in inds.into_iter().take(k) {
		let s = guard(|| if ind == "  " { d.to_string() } else { d.to_string_with_indent(ind) }).map_err(|p| fail("panic", p, &log))?;
		let input = || format!("{log}written with indent {ind:?}:\n{s}");
		if n + m.root.attrs.len() >= 3 {
			c.nontrivial(s.as_bytes());
		}
		let p = match guard(|| kiss_xml::parse_str(s.as_str())).map_err(|p| fail("panic", p, &input()))? {
			Ok(p) => p,
			Err(e) => return Err(fail("rejected", format!("own output rejected: {e}"), &input())),
		};
		c.count("round trips", 1);
		snap::same_doc(&want, &p, true).map_err(|e| fail("tree", format!("re-parsed document differs: {e}"), &input()))?;
		if is_normal {
			c.count("compared by ==", 1);
			if p != d {
				return Err(fail("equality", "re-parsed document is not == to the one written", &input()));
			}
		}
		let s2 = if ind == "  " { p.to_string() } else { p.to_string_with_indent(ind) };
		if !dropped {
			c.count("second writes compared", 1);
			if s2 != s {
				return Err(fail("second-write", format!("writing the re-parsed document gives {}", show(&s2)), &input()));
			}
		}
		c.sample(|| s.clone());
	}
	Ok(())
}

/// known findings, each in a process of its own: exit 0 if all is well
pub fn probe_child(what: &str) -> i32 {
	const N: usize = 200_000;
	let what = what.to_string();
	let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
		let s = format!("{}{}", "<a>".repeat(N), "</a>".repeat(N));
		let d = match kiss_xml::parse_str(s) {
			Ok(d) => d,
			Err(_) => return 3,
		};
		match what.as_str() {
			"deep-serialize" => {
				// quadratic in depth with an indent, so without
				let t = d.to_string_with_indent("");
				if t.len() > N { 0 } else { 1 }
			}
			"deep-clone-eq" => {
				let c = d.root_element().clone();
				if &c == d.root_element() { 0 } else { 1 }
			}
			"deep-search" => {
				if d.root_element().text().is_empty() && d.root_element().all_children().count() == N - 1 { 0 } else { 1 }
			}
			_ => 3,
		}
	});
	match h {
		Ok(h) => h.join().unwrap_or(1),
		Err(_) => 3,
	}
}
