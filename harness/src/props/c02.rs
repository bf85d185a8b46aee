//! Parse fidelity: generated tree -> random surface syntax -> parse -> the same tree.
use super::{fail, mutate};
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::refparse::{self, No};
use crate::runner::*;
use crate::{snap, surface};

pub static PROP: Prop = Prop {
	id: "C02",
	rule: "a model tree is generated (tiny to wide, deep, long, attribute- and namespace-heavy), written with random equivalent surface syntax, parsed and compared node by node; also random edits of such text that stay well-formed, judged by the reference parser; non-trivial: a distinct text whose tree has at least 3 nodes or attributes",
	quick: 500000,
	thorough: 6000000,
	shards: 8,
	floors: &[("documents compared", 500), ("nodes compared", 3000), ("surface variants compared", 100), ("mutants accepted by both", 10), ("mixed content", 50), ("references written", 100)],
	run,
	probes: &[],
};

fn compare(c: &mut Ctx, m: &Doc, s: &str) -> R {
	let d = match guard(|| kiss_xml::parse_str(s.to_string())) {
		Err(p) => return Err(fail("panic", p, s)),
		Ok(Err(e)) => return Err(fail("rejected", format!("well-formed document rejected: {e}"), s)),
		Ok(Ok(d)) => d,
	};
	c.count("documents compared", 1);
	snap::same_doc(m, &d, true).map_err(|e| fail("tree", e, s))
}

fn run(c: &mut Ctx) -> R {
	if c.huge(10_000).is_none() && c.r.chance(1, 4) {
		// mutants that are still well-formed
		let mut cfg = Cfg::new(Chars::Plain);
		cfg.strict_comments = true;
		cfg.declared = false;
		let size = gen::pick_size(&mut c.r, 0);
		let d = gen::doc(&mut c.r, &cfg, size);
		let st = surface::Style::random(&mut c.r);
		let mut s = surface::write_doc(&mut c.r, &d, st).0;
		for _ in 0..4 {
			let mut t = s.clone();
			mutate::once(&mut c.r, &mut t);
			c.count("mutants judged", 1);
			match refparse::parse(&t) {
				Ok(m) => {
					c.count("mutants accepted by both", 1);
					c.nontrivial(t.as_bytes());
					compare(c, &m, &t)?;
					s = t;
				}
				Err(No::Unspec(_)) | Err(No::Reject(_)) => {}
			}
		}
		return Ok(());
	}
	let mut cfg = Cfg::new(if c.r.chance(2, 3) { Chars::Legal } else { Chars::Plain });
	cfg.strict_comments = true;
	cfg.declared = c.r.chance(1, 2);
	cfg.xmlnsish = c.r.chance(1, 5);
	let huge = c.huge(10_000);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 25 }));
	c.count("enormous documents", huge.is_some() as u64);
	let mut m = gen::doc(&mut c.r, &cfg, size);
	if m.root.prefix.as_deref() == Some("undecl") {
		m.root.prefix = None;
	}
	let st = surface::Style::random(&mut c.r);
	let mut r2 = c.r.clone();
	let (s, _) = surface::write_doc(&mut c.r, &m, st.clone());
	let n = m.root.count();
	if n < 200 && c.r.chance(1, 5) {
		// first a document of the same shape and the same lengths, with other letters
		let o = gen::remap(&m);
		let (t, _) = surface::write_doc(&mut r2, &o, st);
		c.count("documents alike parsed one after the other", 1);
		let d = match guard(|| kiss_xml::parse_str(t.clone())) {
			Err(p) => return Err(fail("panic", p, &t)),
			Ok(Err(e)) => return Err(fail("rejected", format!("well-formed document rejected: {e}"), &t)),
			Ok(Ok(d)) => d,
		};
		snap::same_doc(&o, &d, true).map_err(|e| fail("tree", e, &t))?;
	}
	c.count("nodes compared", n as u64);
	c.count("references written", s.matches('&').count() as u64);
	let mut mixed = 0;
	count_mixed(&m.root, &mut mixed);
	c.count("mixed content", mixed);
	if n + m.root.attrs.len() >= 3 {
		c.nontrivial(s.as_bytes());
	}
	c.sample(|| s.clone());
	compare(c, &m, &s)?;
	// the reference parser must agree with the generator, else the oracle is wrong
	if n < 60 && c.r.chance(1, 8) {
		match refparse::parse(&s) {
			Ok(x) if x.root == m.root => c.count("reference parser agreed", 1),
			Ok(_) => return Err(fail("harness", "reference parser disagrees with the generator", &s)),
			Err(No::Unspec(_)) => {}
			Err(No::Reject(w)) => return Err(fail("harness", format!("reference parser rejects: {w}"), &s)),
		}
	}
	if n < 400 && c.r.chance(1, 3) {
		// another surface form of the same tree
		let st = surface::Style::random(&mut c.r);
		let (s2, _) = surface::write_doc(&mut c.r, &m, st);
		c.count("surface variants compared", 1);
		compare(c, &m, &s2)?;
	}
	Ok(())
}

fn count_mixed(e: &El, n: &mut u64) {
	if e.has_text() && e.ch.len() > 1 {
		*n += 1;
	}
	for c in &e.ch {
		if let N::E(x) = c {
			count_mixed(x, n);
		}
	}
}
