//! Namespace scoping through parsing, construction and edits.
use super::fail;
use crate::edit;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::runner::*;
use crate::{snap, surface};
use kiss_xml::dom::*;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 6862;

pub static PROP: Prop = Prop {
	id: "C09",
	rule: "trees rich in xmlns declarations are parsed or built, then edited (subtrees appended, inserted, moved and copied between scopes; xmlns attributes set, removed, cleared at any level); after each step namespace, prefix, name, namespace_prefixes and default_namespace of every element are compared with nearest-declaration scoping on the model; non-trivial: a distinct tree or history with at least 2 elements in a namespace",
	quick: 350000,
	thorough: 4000000,
	shards: 8,
	floors: &[("trees compared", 5000), ("elements in a namespace", 20000), ("xmlns edits", 1000), ("subtrees moved or copied", 500), ("subtrees added", 1000), ("constructor overrides", 100), ("default namespace ended", 200)],
	run,
	probes: &[],
};

fn tally(m: &El, outer: &Scope, n: &mut u64, ended: &mut u64) {
	let sc = m.scope(outer);
	if m.ns(&sc).is_some() {
		*n += 1;
	}
	if m.attrs.get("xmlns").map(|v| v.is_empty()).unwrap_or(false) && outer.contains_key("") {
		*ended += 1;
	}
	for c in &m.ch {
		if let N::E(x) = c {
			tally(x, &sc, n, ended);
		}
	}
}

fn check(c: &mut Ctx, m: &El, e: &Element, log: &str) -> R {
	c.count("trees compared", 1);
	let (mut n, mut d) = (0, 0);
	tally(m, &Scope::new(), &mut n, &mut d);
	c.count("elements in a namespace", n);
	c.count("default namespace ended", d);
	if n >= 2 {
		c.nontrivial(log.as_bytes());
	}
	match guard(|| snap::same(m, e, Some(&Scope::new()))) {
		Err(p) => Err(fail("panic", p, log)),
		Ok(Err(x)) => Err(fail("namespace", x, log)),
		Ok(Ok(())) => Ok(()),
	}
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.declared = c.r.chance(1, 2);
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous trees", huge.is_some() as u64);
	let size = if let Some(h) = huge { h } else if c.r.chance(1, 60) && !c.asan { *c.r.pick(&[Size::Deep, Size::Wide, Size::Medium]) } else { Size::Ns };
	if c.r.chance(1, 6) {
		// the namespace given to the constructor
		let prefix = if c.r.chance(1, 2) { Some(c.r.pick(gen::PREFIXES).to_string()) } else { None };
		let ns = c.r.pick(gen::URIS).to_string();
		let key = match &prefix {
			None => "xmlns".to_string(),
			Some(p) => format!("xmlns:{p}"),
		};
		let mut attrs = std::collections::HashMap::new();
		if c.r.chance(1, 2) {
			attrs.insert(key.clone(), "urn:other".to_string());
		}
		if c.r.chance(1, 2) {
			attrs.insert("xmlns:zz".to_string(), "urn:zz".to_string());
		}
		if c.r.chance(1, 3) {
			attrs.insert("xmlns".to_string(), "urn:df".to_string());
		}
		let mut m = El::new("a");
		m.prefix = prefix.clone();
		m.attrs = attrs.clone().into_iter().collect();
		m.attrs.insert(key, ns.clone());
		let sc = m.scope(&Scope::new());
		let kids: Vec<El> = (0..c.r.below(3)).map(|_| gen::tree_in(&mut c.r, &cfg, Size::Ns, &sc)).collect();
		let mut b = Vec::new();
		for k in &kids {
			b.push(snap::build(&mut c.r, k).map_err(|e| fail("constructor", e, &format!("{k:?}")))?.boxed());
		}
		m.ch = kids.into_iter().map(N::E).collect();
		norm(&mut m);
		let log = format!("Element::new(\"a\", None, {attrs:?}, Some({ns:?}), {prefix:?}, ..) with {:?}", m);
		let e = Element::new("a", None, Some(attrs), Some(ns), prefix, Some(b)).map_err(|e| fail("constructor", e.to_string(), &log))?;
		c.count("constructor overrides", 1);
		return check(c, &m, &e, &log);
	}
	let mut m = gen::tree(&mut c.r, &cfg, size);
	if m.prefix.as_deref() == Some("undecl") {
		m.prefix = None;
	}
	let mut log;
	let mut e;
	if c.r.chance(1, 2) {
		let d = Doc { decl: None, dtds: vec![], root: m.clone() };
		let st = surface::Style::random(&mut c.r);
		let (s, _) = surface::write_doc(&mut c.r, &d, st);
		norm(&mut m);
		let mut doc = kiss_xml::parse_str(s.as_str()).map_err(|e| fail("rejected", format!("well-formed document rejected: {e}"), &s))?;
		c.count("parsed trees", 1);
		log = s;
		check(c, &m, doc.root_element(), &log)?;
		e = doc.root_element_mut().clone();
	} else {
		log = format!("built: {m:?}");
		e = snap::build(&mut c.r, &m).map_err(|x| fail("constructor", x, &log))?;
		norm(&mut m);
	}
	check(c, &m, &e, &log)?;
	if m.count() > 200 {
		return Ok(());
	}
	let o = edit::Opt { cfg: cfg.clone(), ns: true, raw: false, assign: false, invalid: false, keep_root_ns: false };
	for _ in 0..c.r.range(1, 14) {
		let d = if c.r.chance(1, 4) {
			edit::relocate(&mut c.r, &mut m, &mut e)
		} else if c.r.chance(1, 5) {
			// an xmlns edit, more often than the general mix has
			let p = edit::path(&mut c.r, &m);
			let te = edit::real_at(&mut c.r, &mut e, &p).map_err(|x| fail("edit", x, &log))?;
			let tm = edit::at(&mut m, &p);
			let own: Vec<String> = tm.attrs.keys().filter(|k| k.starts_with("xmlns")).cloned().collect();
			if !own.is_empty() && c.r.chance(1, 2) {
				let k = c.r.pick(&own).clone();
				if c.r.chance(1, 2) {
					tm.attrs.remove(&k);
					te.remove_attr(k.as_str());
					Ok(format!("{p:?} remove_attr {k:?}"))
				} else {
					let v = c.r.pick(gen::URIS).to_string();
					tm.attrs.insert(k.clone(), v.clone());
					te.set_attr(k.as_str(), v.as_str()).map_err(|x| fail("edit", x.to_string(), &log))?;
					Ok(format!("{p:?} set_attr {k:?} {v:?}"))
				}
			} else if c.r.chance(1, 5) {
				tm.attrs.clear();
				te.clear_attributes();
				Ok(format!("{p:?} clear_attributes (xmlns)"))
			} else {
				let k = if c.r.chance(1, 3) { "xmlns".to_string() } else { format!("xmlns:{}", tm.prefix.clone().unwrap_or_else(|| c.r.pick(gen::PREFIXES).to_string())) };
				let v = if k == "xmlns" && c.r.chance(1, 3) { String::new() } else { c.r.pick(gen::URIS).to_string() };
				tm.attrs.insert(k.clone(), v.clone());
				te.set_attr(k.as_str(), v.as_str()).map_err(|x| fail("edit", x.to_string(), &log))?;
				Ok(format!("{p:?} set_attr {k:?} {v:?}"))
			}
		} else {
			edit::step(&mut c.r, &mut m, &mut e, &o, &Scope::new())
		};
		let d = d.map_err(|x| fail("edit", x, &log))?;
		if d.contains("xmlns") {
			c.count("xmlns edits", 1);
		}
		if d.contains("moved") || d.contains("copied") {
			c.count("subtrees moved or copied", 1);
		}
		if d.contains("append") || d.contains("insert") {
			c.count("subtrees added", 1);
		}
		log.push('\n');
		log.push_str(&d);
		check(c, &m, &e, &log)?;
		if m.count() > 150 {
			break;
		}
	}
	c.sample(|| log.clone());
	Ok(())
}
