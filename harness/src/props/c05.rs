//! Output is well-formed XML to independent parsers.
use super::fail;
use crate::edit;
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::refparse::{self, No, Opt};
use crate::runner::*;
use crate::{expat, snap};

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 2156;

pub static PROP: Prop = Prop {
	id: "C05",
	rule: "documents, elements and nodes with hostile but legal content are built (and sometimes edited), written with a random indent, and read by expat (with and without namespaces) and by the strict reference parser of the harness; both must see the model's tree; non-trivial: a distinct text containing a reference or a comment or CDATA section with markup characters",
	quick: 110000,
	thorough: 1000000,
	shards: 8,
	floors: &[("documents read by expat", 400), ("namespace-aware reads", 100), ("elements alone", 100), ("leaves alone", 100), ("read by the reference parser", 200)],
	run,
	probes: &[],
};

fn declared_attrs(e: &El, outer: &Scope) -> bool {
	let sc = e.scope(outer);
	for k in e.attrs.keys() {
		if k == "xmlns" || k.starts_with("xmlns:") {
			continue;
		}
		if let Some((p, l)) = k.split_once(':') {
			if p != "xml" && !sc.contains_key(p) || l.is_empty() || l.contains(':') {
				return false;
			}
		}
	}
	// two names for one attribute
	let mut seen = std::collections::BTreeSet::new();
	for k in e.attrs.keys() {
		if let Some((p, l)) = k.split_once(':') {
			if p != "xmlns" && p != "xml" && !seen.insert((sc.get(p).cloned(), l.to_string())) {
				return false;
			}
		}
	}
	if let Some(p) = &e.prefix {
		if !sc.contains_key(p) {
			return false;
		}
	}
	e.ch.iter().all(|c| if let N::E(x) = c { declared_attrs(x, &sc) } else { true })
}

fn read(c: &mut Ctx, s: &str, m: &El, what: &str) -> R {
	let ev = match expat::parse(s.as_bytes(), false) {
		Ok(e) => e,
		Err((false, e)) => return Err(fail("harness", format!("expat gave no answer: {e}"), s)),
		Err((true, e)) => return Err(fail("not-well-formed", format!("{what}: not well-formed to expat: {e}"), s)),
	};
	let got = match expat::tree(&ev) {
		None => return Err(fail("harness", "events do not nest", s)),
		Some(t) => t,
	};
	let want = expat::seen(m);
	if got != want {
		return Err(fail("content", format!("{what}: expat sees another tree: {}", diff(&want, &got)), s));
	}
	Ok(())
}

fn diff(a: &El, b: &El) -> String {
	if a.name != b.name {
		return format!("<{}> instead of <{}>", b.name, a.name);
	}
	if a.attrs != b.attrs {
		return format!("in <{}> attributes {:?} instead of {:?}", a.name, b.attrs, a.attrs);
	}
	for (x, y) in a.ch.iter().zip(b.ch.iter()) {
		if x != y {
			if let (N::E(x), N::E(y)) = (x, y) {
				return diff(x, y);
			}
			return format!("in <{}> {} instead of {}", a.name, snap::kind(y), snap::kind(x));
		}
	}
	format!("in <{}> {} children instead of {}", a.name, b.ch.len(), a.ch.len())
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(if c.r.chance(2, 3) { Chars::Legal } else { Chars::Plain });
	cfg.strict_comments = true;
	cfg.ascii_names = true;
	cfg.odd_attr = false;
	cfg.normal = c.r.chance(2, 3);
	let huge = c.huge(HUGE_PERIOD);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, 10));
	c.count("enormous documents", huge.is_some() as u64);
	let mut m = gen::doc(&mut c.r, &cfg, size);
	m.dtds.truncate(1);
	if let Some(d) = &m.decl {
		m.decl = Some(d.replace("1.1", "1.0"));
	}
	let mut d = snap::build_doc(&mut c.r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?;
	norm(&mut m.root);
	let mut log = String::new();
	if m.root.count() < 60 && c.r.chance(1, 3) {
		let o = edit::Opt { cfg: cfg.clone(), ns: false, raw: c.r.chance(1, 3), assign: false, invalid: false, keep_root_ns: true };
		log = d.to_string();
		for _ in 0..c.r.range(1, 12) {
			match edit::step(&mut c.r, &mut m.root, d.root_element_mut(), &o, &Scope::new()) {
				Ok(s) => log.push_str(&format!("\n{s}")),
				Err(e) => return Err(fail("edit", e, &log)),
			}
		}
		c.count("edited documents", 1);
	}
	let ind = *c.r.pick(super::c04::INDENTS);
	let s = guard(|| d.to_string_with_indent(ind)).map_err(|p| fail("panic", p, &log))?;
	if s.contains('&') || s.contains("<!") {
		c.nontrivial(s.as_bytes());
	}
	c.sample(|| s.clone());
	c.count("documents read by expat", 1);
	read(c, &s, &m.root, "document")?;
	// namespaces, as an independent parser resolves them
	if declared_attrs(&m.root, &Scope::new()) {
		c.count("namespace-aware reads", 1);
		match expat::parse(s.as_bytes(), true) {
			Err((false, e)) => return Err(fail("harness", format!("expat gave no answer: {e}"), &s)),
			Err((true, e)) => return Err(fail("not-well-formed", format!("not well-formed to expat with namespaces: {e}"), &s)),
			Ok(ev) => {
				let mut want = String::new();
				expat::events_ns(&m.root, &Scope::new(), &mut want);
				if expat::only_elements(&ev) != want {
					return Err(fail("namespaces", "expat resolves other element namespaces than the tree holds", &s));
				}
			}
		}
	}
	// the strict reference parser
	let mut want = m.clone();
	norm(&mut want.root);
	match refparse::parse_opt(&s, Opt { own_output: true }) {
		Ok(x) => {
			c.count("read by the reference parser", 1);
			if x.root != want.root {
				return Err(fail("content", format!("the reference parser reads another tree: {}", diff(&want.root, &x.root)), &s));
			}
			if x.decl != m.decl || x.dtds != m.dtds {
				return Err(fail("content", "the reference parser reads another declaration or DTD", &s));
			}
		}
		Err(No::Reject(w)) => return Err(fail("not-well-formed", format!("the reference parser rejects the output: {w}"), &s)),
		Err(No::Unspec(_)) => c.count("not judged by the reference parser", 1),
	}
	// parts alone
	let e = d.root_element();
	let t = e.to_string();
	c.count("elements alone", 1);
	read(c, &t, &m.root, "root element alone")?;
	for (i, x) in e.children().enumerate() {
		if i > 5 {
			break;
		}
		match &m.root.ch[i] {
			N::E(y) => {
				c.count("elements alone", 1);
				let t = kiss_xml::dom::Node::to_string_with_indent(x.as_ref(), ind);
				read(c, &t, y, "child element alone")?;
			}
			y => {
				c.count("leaves alone", 1);
				let t = format!("<w>{}</w>", x);
				let mut w = El::new("w");
				w.ch.push(y.clone());
				read(c, &t, &w, "leaf alone")?;
			}
		}
	}
	Ok(())
}
