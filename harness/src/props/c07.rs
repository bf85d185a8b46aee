//! Edit histories against the list model.
use super::fail;
use crate::edit;
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::runner::*;
use crate::{snap, surface};

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 4901;

pub static PROP: Prop = Prop {
	id: "C07",
	rule: "random histories of 5 to 40 edit operations (every edit method, also ones that must be refused) at random elements of built or parsed trees, the whole tree compared with the ordered list model after every step, and every return value with the model's; non-trivial: a distinct history with at least 5 operations that changed the tree",
	quick: 250000,
	thorough: 3000000,
	shards: 8,
	floors: &[("operations", 8000), ("operations that changed the tree", 4000), ("tree comparisons", 8000), ("append", 700), ("insert", 800), ("remove", 300), ("refused", 200)],
	run,
	probes: &[],
};

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(if c.r.chance(1, 3) { Chars::Any } else { Chars::Plain });
	cfg.normal = c.r.chance(1, 2);
	cfg.declared = false;
	cfg.ns = c.r.chance(1, 3);
	let huge = c.huge(HUGE_PERIOD);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 4 }));
	c.count("enormous trees", huge.is_some() as u64);
	let mut m = gen::tree(&mut c.r, &cfg, size);
	if m.prefix.as_deref() == Some("undecl") {
		m.prefix = None;
	}
	let mut e = if c.r.chance(1, 3) {
		let d = Doc { decl: None, dtds: vec![], root: m.clone() };
		let mut x = m.clone();
		norm(&mut x);
		let st = surface::Style::random(&mut c.r);
		let (s, _) = surface::write_doc(&mut c.r, &d, st);
		m = x;
		kiss_xml::parse_str(s.as_str()).map_err(|e| fail("rejected", format!("well-formed document rejected: {e}"), &s))?.root_element().clone()
	} else {
		let e = snap::build(&mut c.r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?;
		norm(&mut m);
		e
	};
	let o = edit::Opt { cfg: cfg.clone(), ns: cfg.ns, raw: c.r.chance(1, 2), assign: c.r.chance(1, 3), invalid: true, keep_root_ns: false };
	let sc = Scope::new();
	snap::same(&m, &e, None).map_err(|x| fail("constructed", x, &format!("{m:?}")))?;
	let mut log = format!("start: {}\n", show(&e.to_string()));
	let k = if m.count() > 300 { 6 } else { c.r.range(5, 40) };
	let mut changed = 0;
	for _ in 0..k {
		let before = if m.count() < 100 { Some(m.clone()) } else { None };
		let x = guard(|| if c.r.chance(1, 12) { edit::relocate(&mut c.r, &mut m, &mut e) } else { edit::step(&mut c.r, &mut m, &mut e, &o, &sc) }).map_err(|p| fail("panic", p, &log))?;
		let d = x.map_err(|x| fail("result", x, &log))?;
		log.push_str(&d);
		log.push('\n');
		c.count("operations", 1);
		for (w, k) in [("append", "append"), ("insert at", "insert"), ("remove", "remove"), ("out of range", "refused"), ("invalid", "refused"), ("moved", "relocations"), ("copied", "relocations"), ("set to", "leaf edits"), ("set_attr", "attribute edits"), ("set_text", "set_text"), ("clear_", "clearing")] {
			if d.contains(w) {
				c.count(k, 1);
				break;
			}
		}
		if before.as_ref().map(|b| *b != m).unwrap_or(true) {
			changed += 1;
			c.count("operations that changed the tree", 1);
		}
		c.count("tree comparisons", 1);
		snap::same(&m, &e, None).map_err(|x| fail("tree", format!("after the last operation: {x}"), &log))?;
		if m.count() > 3000 {
			break;
		}
	}
	if changed >= 5 {
		c.nontrivial(log.as_bytes());
	}
	c.sample(|| log.clone());
	Ok(())
}
