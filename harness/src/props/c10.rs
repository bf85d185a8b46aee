//! Layout of written documents, elements and nodes.
use super::fail;
use crate::edit;
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::runner::*;
use crate::{refser, snap};
use kiss_xml::dom::*;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 4901;

pub static PROP: Prop = Prop {
	id: "C10",
	rule: "trees (built, parsed, edited, with empty, whitespace and neighbouring text nodes left by edits) are written with valid and invalid indents as document, element and node, through every writing method; each text is compared character for character with the reference printer of the documented layout, and, independently, the text found between tags is checked to have no added whitespace; non-trivial: a distinct text with at least two lines of markup",
	quick: 250000,
	thorough: 3000000,
	shards: 8,
	floors: &[("texts compared", 3000), ("invalid indents", 100), ("elements written alone", 500), ("leaves written alone", 200), ("mixed elements", 500), ("block elements", 1000), ("written after edits", 200)],
	run,
	probes: &[],
};

pub const VALID: &[&str] = &["", " ", "  ", "\t", "   ", "    ", "         ", "                                        "];
pub const INVALID: &[&str] = &["x", "\t\t", " \t", "\t ", "\n", "\u{a0}", "  x", "x  ", "\r", "-", "<", "&", "\u{2003}", "  \n", "\n  ", "\u{b}", "--", "\t\n", "tab"];

fn tally(e: &El, a: &mut u64, b: &mut u64) {
	if e.has_text() {
		*a += 1;
	} else if e.ch.len() > 1 || matches!(e.ch.first(), Some(N::E(_))) {
		*b += 1;
	}
	for c in &e.ch {
		if let N::E(x) = c {
			tally(x, a, b);
		}
	}
}

fn check(c: &mut Ctx, got: Result<String, String>, want: &str, what: &str, m: &El) -> R {
	let got = got.map_err(|p| fail("panic", p, &format!("{m:?}")))?;
	c.count("texts compared", 1);
	if got != want {
		let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
		return Err(fail("layout", format!("{what}: differs from the documented layout from byte {at} on"), &format!("got:\n{got}\nexpected:\n{want}\ntree: {m:?}")));
	}
	Ok(())
}

/// elements (and the root) at random places
fn parts(c: &mut Ctx, m: &El, e: &Element, ind: &str, depth: usize) -> R {
	let want = refser::print_el(m, ind);
	c.count("elements written alone", 1);
	let r = guard(|| Node::to_string_with_indent(e, ind));
	check(c, r, &want, "Element::to_string_with_indent", m)?;
	if c.r.chance(1, 2) {
		let r = guard(|| e.as_node().to_string_with_indent(ind));
		check(c, r, &want, "to_string_with_indent of the node", m)?;
	}
	if c.r.chance(1, 2) {
		let want = refser::print_el(m, "  ");
		let r = guard(|| e.to_string());
		check(c, r, &want, "Element::to_string", m)?;
		let r = guard(|| format!("{e}"));
		check(c, r, &want, "Display of the element", m)?;
	}
	for (i, x) in e.children().enumerate() {
		if i > 8 {
			break;
		}
		match &m.ch[i] {
			N::E(y) => {
				if depth > 0 && c.r.chance(1, 2) {
					parts(c, y, x.as_element().map_err(|e| fail("cast", e.to_string(), ""))?, ind, depth - 1)?;
				}
			}
			y => {
				c.count("leaves written alone", 1);
				let want = refser::print_node(y, ind);
				let r = guard(|| x.to_string_with_indent(ind));
				check(c, r, &want, "to_string_with_indent of a leaf", m)?;
				let r = guard(|| format!("{x}"));
				check(c, r, &want, "Display of a leaf", m)?;
			}
		}
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(if c.r.chance(1, 2) { Chars::Any } else { Chars::Plain });
	cfg.normal = c.r.chance(2, 3);
	cfg.xmlnsish = false;
	let huge = c.huge(HUGE_PERIOD);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 10 }));
	c.count("enormous documents", huge.is_some() as u64);
	let (mut m, mut d) = super::c04::random_doc(c, &cfg, size)?;
	if m.root.count() < 80 && c.r.chance(1, 3) {
		let o = edit::Opt { cfg: cfg.clone(), ns: true, raw: true, assign: true, invalid: false, keep_root_ns: false };
		let mut log = String::new();
		for _ in 0..c.r.range(1, 12) {
			let s = edit::step(&mut c.r, &mut m.root, d.root_element_mut(), &o, &Scope::new()).map_err(|e| fail("edit", e, &log))?;
			log.push_str(&s);
			log.push('\n');
		}
		// the tree as it is now (names given at assignment included)
		m.root = snap::el(d.root_element()).map_err(|e| fail("edit", e, &log))?;
		c.count("written after edits", 1);
	}
	let (mut a, mut b) = (0, 0);
	tally(&m.root, &mut a, &mut b);
	c.count("mixed elements", a);
	c.count("block elements", b);
	let mut inds: Vec<&str> = Vec::new();
	for _ in 0..c.r.range(1, 3) {
		if c.r.chance(1, 5) {
			inds.push(c.r.pick(INVALID));
		} else {
			inds.push(c.r.pick(VALID));
		}
	}
	for ind in inds {
		if !refser::valid_indent(ind) {
			c.count("invalid indents", 1);
		}
		let want = refser::print_doc(&m, ind);
		if want.lines().count() > 3 {
			c.nontrivial(want.as_bytes());
		}
		c.sample(|| want.clone());
		let r = guard(|| d.to_string_with_indent(ind));
		check(c, r, &want, "Document::to_string_with_indent", &m.root)?;
		parts(c, &m.root, d.root_element(), ind, 3)?;
		// the text alone: read back what stands between the tags where text exists
		if m.root.has_text() && m.decl.is_none() && m.dtds.is_empty() {
			let s = d.to_string_with_indent(ind);
			let body = s.trim_end_matches('\n');
			let lines = body.matches('\n').count();
			let own: usize = newlines(&m.root);
			if lines != own {
				return Err(fail("whitespace-in-text", format!("{lines} line ends were written where the tree has {own}"), &s));
			}
		}
	}
	let want = refser::print_doc(&m, "  ");
	let r = guard(|| d.to_string());
	check(c, r, &want, "Document::to_string", &m.root)?;
	let r = guard(|| format!("{d}"));
	check(c, r, &want, "Display of the document", &m.root)?;
	Ok(())
}

/// line ends the content itself holds
fn newlines(e: &El) -> usize {
	let mut n = e.attrs.values().map(|v| v.matches('\n').count()).sum();
	for c in &e.ch {
		n += match c {
			N::E(x) => newlines(x),
			N::T(t) | N::C(t) | N::D(t) => t.matches('\n').count(),
		};
	}
	n
}
