//! Queries against a naive traversal, by node identity.
use super::fail;
use crate::edit::{self, Pred};
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::runner::*;
use crate::snap;
use kiss_xml::dom::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 5882;

pub static PROP: Prop = Prop {
	id: "C08",
	rule: "on random elements of random trees (some edited), every lookup and search method is called with names, namespaces, prefixes and predicates that do and do not occur; results are compared, by the address of each returned node, with a traversal through children() alone, and the tree is compared before and after; non-trivial: a distinct tree of at least 4 nodes with a query that returns something",
	quick: 300000,
	thorough: 4000000,
	shards: 8,
	floors: &[("queries", 20000), ("nodes returned", 20000), ("queries with an empty result", 1000), ("_mut queries", 4000), ("changes through _mut", 500), ("predicate calls observed", 10000)],
	run,
	probes: &["deep-search"],
};

type Ptr = usize;
fn np(n: &Box<dyn Node>) -> Ptr {
	n as *const Box<dyn Node> as usize
}
fn ep(e: &Element) -> Ptr {
	e as *const Element as usize
}

struct Item<'a> {
	m: &'a N,
	n: &'a Box<dyn Node>,
}
fn collect<'a>(m: &'a El, e: &'a Element, out: &mut Vec<Item<'a>>) -> Result<(), String> {
	for (a, b) in m.ch.iter().zip(e.children()) {
		out.push(Item { m: a, n: b });
		if let N::E(x) = a {
			collect(x, b.as_element().map_err(|e| e.to_string())?, out)?;
		}
	}
	Ok(())
}
/// namespaces of the direct child elements
fn kid_ns(m: &El, inner: &Scope) -> Vec<Option<String>> {
	m.ch.iter().filter_map(|c| if let N::E(x) = c { Some(x.ns(&x.scope(inner)).cloned()) } else { None }).collect()
}

fn cmp_list(what: &str, want: &[Ptr], got: &[Ptr], all: &BTreeMap<Ptr, String>) -> Result<(), String> {
	if want == got {
		return Ok(());
	}
	let f = |v: &[Ptr]| v.iter().take(12).map(|p| all.get(p).cloned().unwrap_or("(a node that is not in the subtree)".into())).collect::<Vec<_>>();
	Err(format!("{what} returned {:?} instead of {:?}", f(got), f(want)))
}
fn cmp_set(what: &str, want: &[Ptr], got: &[Ptr], all: &BTreeMap<Ptr, String>) -> Result<(), String> {
	let mut a = want.to_vec();
	let mut b = got.to_vec();
	a.sort();
	b.sort();
	cmp_list(what, &a, &b, all)
}

fn queries(c: &mut Ctx, m: &El, e: &Element, inner: &Scope) -> Result<(), String> {
	let mut items = Vec::new();
	collect(m, e, &mut items)?;
	let mut all: BTreeMap<Ptr, String> = BTreeMap::new();
	for i in &items {
		let d = snap::kind(i.m);
		if let N::E(_) = i.m {
			all.insert(ep(i.n.as_element().unwrap()), d.clone());
		}
		all.insert(np(i.n), d);
	}
	let kids: Vec<&Element> = e.children().filter_map(|n| n.as_element().ok()).collect();
	let mk: Vec<&El> = m.ch.iter().filter_map(|c| if let N::E(x) = c { Some(x) } else { None }).collect();
	if kids.len() != mk.len() {
		return Err("children() and the model differ".into());
	}
	let mut q = |c: &mut Ctx, what: String, want: Vec<Ptr>, got: Vec<Ptr>, ordered: bool| -> Result<(), String> {
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		if want.is_empty() {
			c.count("queries with an empty result", 1);
		}
		if ordered {
			cmp_list(&what, &want, &got, &all)
		} else {
			cmp_set(&what, &want, &got, &all)
		}
	};
	let kp: Vec<Ptr> = kids.iter().map(|x| ep(x)).collect();
	q(c, "child_elements()".into(), kp.clone(), e.child_elements().map(ep).collect(), true)?;
	let desc: Vec<Ptr> = items.iter().map(|i| np(i.n)).collect();
	q(c, "all_children()".into(), desc.clone(), e.all_children().map(np).collect(), false)?;
	q(c, "children_recursive()".into(), desc.clone(), e.children_recursive().map(np).collect(), false)?;
	// names
	for _ in 0..2 {
		let name = edit::some_name(&mut c.r, m);
		let want: Vec<Ptr> = kids.iter().zip(&mk).filter(|(_, x)| x.name == name).map(|x| ep(x.0)).collect();
		q(c, format!("elements_by_name({name:?})"), want.clone(), e.elements_by_name(name.as_str()).map(ep).collect(), true)?;
		match (want.first(), e.first_element_by_name(name.as_str())) {
			(Some(p), Ok(x)) if *p == ep(x) => {}
			(None, Err(_)) => {}
			(w, g) => return Err(format!("first_element_by_name({name:?}) returned {:?} but the first match is {:?}", g.map(|x| x.tag_name()).map_err(|e| e.to_string()), w.and_then(|p| all.get(p)))),
		}
		let want: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::E(x) if x.name == name)).map(|i| ep(i.n.as_element().unwrap())).collect();
		let q2 = |c: &mut Ctx| {
			c.count("queries", 1);
			c.count("nodes returned", want.len() as u64);
		};
		q2(c);
		cmp_set(&format!("search_elements_by_name({name:?})"), &want, &e.search_elements_by_name(name.as_str()).map(ep).collect::<Vec<_>>(), &all)?;
	}
	// namespaces
	let ns = kid_ns(m, inner);
	let mut cand: Vec<Option<String>> = ns.clone();
	cand.push(None);
	cand.push(Some("urn:a".into()));
	cand.push(Some(String::new()));
	for _ in 0..2 {
		let mut w = c.r.pick(&cand).clone();
		if let (Some(s), true) = (&mut w, c.r.chance(1, 5)) {
			*s = gen::near(&mut c.r, s);
		}
		let want: Vec<Ptr> = kids.iter().zip(&ns).filter(|(_, x)| **x == w).map(|x| ep(x.0)).collect();
		let got: Vec<Ptr> = e.elements_by_namespace(w.as_deref()).map(ep).collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		cmp_list(&format!("elements_by_namespace({w:?})"), &want, &got, &all)?;
		let mut pc: Vec<Option<String>> = mk.iter().map(|x| x.prefix.clone()).collect();
		pc.extend([None, Some("p".into()), Some(String::new())]);
		let mut p = c.r.pick(&pc).clone();
		if let (Some(s), true) = (&mut p, c.r.chance(1, 5)) {
			*s = gen::near(&mut c.r, s);
		}
		let want: Vec<Ptr> = kids.iter().zip(&mk).filter(|(_, x)| x.prefix == p).map(|x| ep(x.0)).collect();
		let got: Vec<Ptr> = e.elements_by_namespace_prefix(p.as_deref()).map(ep).collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		cmp_list(&format!("elements_by_namespace_prefix({p:?})"), &want, &got, &all)?;
	}
	// predicates
	let seen: RefCell<Vec<Ptr>> = RefCell::new(Vec::new());
	for _ in 0..2 {
		let p = Pred::random(&mut c.r, m);
		let want: Vec<Ptr> = items.iter().filter(|i| p.model(i.m)).map(|i| np(i.n)).collect();
		let got: Vec<Ptr> = e
			.search(|n| {
				seen.borrow_mut().push(np(n));
				p.real(n)
			})
			.map(np)
			.collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		cmp_set(&format!("search({p:?})"), &want, &got, &all)?;
		c.count("predicate calls observed", seen.borrow().len() as u64);
		let every: Vec<Ptr> = items.iter().map(|i| np(i.n)).collect();
		once("search", &every, &mut seen.borrow_mut())?;
		// the first result only
		let one = e.search(|n| p.real(n)).next().map(np);
		if one.is_some() != !want.is_empty() || one.map(|x| !want.contains(&x)).unwrap_or(false) {
			return Err(format!("the first result of search({p:?}) is wrong"));
		}
		let want: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::E(_)) && p.model(i.m)).map(|i| ep(i.n.as_element().unwrap())).collect();
		let got: Vec<Ptr> = e
			.search_elements(|n| {
				seen.borrow_mut().push(ep(n));
				p.el(n)
			})
			.map(ep)
			.collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		cmp_set(&format!("search_elements({p:?})"), &want, &got, &all)?;
		c.count("predicate calls observed", seen.borrow().len() as u64);
		let every: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::E(_))).map(|i| ep(i.n.as_element().unwrap())).collect();
		once("search_elements", &every, &mut seen.borrow_mut())?;
		let ch = *c.r.pick(&['a', ' ', 'x', '&', 'é', '\n', 'o']);
		let any = c.r.chance(1, 3);
		let want: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::T(t) if any || t.contains(ch))).map(|i| i.n.as_text().unwrap() as *const Text as usize).collect();
		let got: Vec<Ptr> = e
			.search_text(|t| {
				seen.borrow_mut().push(*t as *const Text as usize);
				any || t.content.contains(ch)
			})
			.map(|t| t as *const Text as usize).collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		if { let mut a = want.clone(); a.sort(); let mut b = got.clone(); b.sort(); a != b } {
			return Err(format!("search_text(contains {ch:?} or {any}) returned {} nodes, {} match", got.len(), want.len()));
		}
		let every: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::T(_))).map(|i| i.n.as_text().unwrap() as *const Text as usize).collect();
		once("search_text", &every, &mut seen.borrow_mut())?;
		let want: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::C(t) if any || t.contains(ch))).map(|i| i.n.as_comment().unwrap() as *const Comment as usize).collect();
		let got: Vec<Ptr> = e
			.search_comments(|t| {
				seen.borrow_mut().push(*t as *const Comment as usize);
				any || t.get_content().contains(ch)
			})
			.map(|t| t as *const Comment as usize).collect();
		c.count("queries", 1);
		c.count("nodes returned", got.len() as u64);
		if { let mut a = want.clone(); a.sort(); let mut b = got.clone(); b.sort(); a != b } {
			return Err(format!("search_comments(contains {ch:?} or {any}) returned {} nodes, {} match", got.len(), want.len()));
		}
		let every: Vec<Ptr> = items.iter().filter(|i| matches!(i.m, N::C(_))).map(|i| i.n.as_comment().unwrap() as *const Comment as usize).collect();
		once("search_comments", &every, &mut seen.borrow_mut())?;
	}
	// text
	let t = e.text();
	c.count("queries", 1);
	if t != m.text() {
		return Err(format!("text() is {} instead of {}", show(&t), show(&m.text())));
	}
	for i in items.iter().take(20) {
		let want = match i.m {
			N::E(x) => x.text(),
			N::T(t) | N::C(t) | N::D(t) => t.clone(),
		};
		if i.n.text() != want {
			return Err(format!("text() of {} is {}", snap::kind(i.m), show(&i.n.text())));
		}
	}
	// attributes
	for _ in 0..2 {
		let k = edit::some_attr(&mut c.r, m);
		c.count("queries", 1);
		if e.get_attr(k.as_str()) != m.attrs.get(&k) {
			return Err(format!("get_attr({k:?}) is {:?} instead of {:?}", e.get_attr(k.as_str()), m.attrs.get(&k)));
		}
	}
	let at: BTreeMap<String, String> = e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	if at != m.attrs {
		return Err(format!("attributes() is {at:?} instead of {:?}", m.attrs));
	}
	Ok(())
}

/// a predicate may keep count: it is asked about every node of the subtree, once
fn once(what: &str, every: &[Ptr], seen: &mut Vec<Ptr>) -> Result<(), String> {
	let mut a = every.to_vec();
	a.sort_unstable();
	let mut b = std::mem::take(seen);
	b.sort_unstable();
	if a == b {
		return Ok(());
	}
	if b.iter().any(|x| a.binary_search(x).is_err()) {
		return Err(format!("{what}: a predicate was called on a node outside the subtree"));
	}
	Err(format!("{what}: the predicate was asked {} times about {} nodes", b.len(), a.len()))
}

fn queries_mut(c: &mut Ctx, m: &mut El, e: &mut Element, inner: &Scope) -> Result<(), String> {
	let kp: Vec<Ptr> = e.children().filter_map(|n| n.as_element().ok()).map(ep).collect();
	let np_: Vec<Ptr> = e.children().map(np).collect();
	let ns = kid_ns(m, inner);
	let idx: Vec<usize> = m.ch.iter().enumerate().filter(|(_, c)| matches!(c, N::E(_))).map(|x| x.0).collect();
	let meta: Vec<(String, Option<String>)> = idx.iter().map(|&i| if let N::E(x) = &m.ch[i] { (x.name.clone(), x.prefix.clone()) } else { unreachable!() }).collect();
	c.count("_mut queries", 6);
	let got: Vec<Ptr> = e.children_mut().map(|n| np(n)).collect();
	if got != np_ {
		return Err("children_mut() yields other nodes than children()".into());
	}
	let got: Vec<Ptr> = e.child_elements_mut().map(|n| ep(n)).collect();
	if got != kp {
		return Err("child_elements_mut() yields other nodes than child_elements()".into());
	}
	let name = edit::some_name(&mut c.r, m);
	let want: Vec<Ptr> = kp.iter().zip(&meta).filter(|(_, x)| x.0 == name).map(|x| *x.0).collect();
	if e.elements_by_name_mut(name.as_str()).map(|n| ep(n)).collect::<Vec<_>>() != want {
		return Err(format!("elements_by_name_mut({name:?}) yields other nodes than match"));
	}
	if e.first_element_by_name_mut(name.as_str()).ok().map(|n| ep(n)) != want.first().copied() {
		return Err(format!("first_element_by_name_mut({name:?}) is not the first match"));
	}
	let mut cand = ns.clone();
	cand.extend([None, Some("urn:a".into())]);
	let mut w = c.r.pick(&cand).clone();
	if let (Some(s), true) = (&mut w, c.r.chance(1, 5)) {
		*s = gen::near(&mut c.r, s);
	}
	let want_ns: Vec<Ptr> = kp.iter().zip(&ns).filter(|(_, x)| **x == w).map(|x| *x.0).collect();
	if e.elements_by_namespace_mut(w.as_deref()).map(|n| ep(n)).collect::<Vec<_>>() != want_ns {
		return Err(format!("elements_by_namespace_mut({w:?}) yields other nodes than match"));
	}
	let mut pc: Vec<Option<String>> = meta.iter().map(|x| x.1.clone()).collect();
	pc.extend([None, Some("p".into())]);
	let mut p = c.r.pick(&pc).clone();
	if let (Some(s), true) = (&mut p, c.r.chance(1, 5)) {
		*s = gen::near(&mut c.r, s);
	}
	let want_p: Vec<Ptr> = kp.iter().zip(&meta).filter(|(_, x)| x.1 == p).map(|x| *x.0).collect();
	if e.elements_by_namespace_prefix_mut(p.as_deref()).map(|n| ep(n)).collect::<Vec<_>>() != want_p {
		return Err(format!("elements_by_namespace_prefix_mut({p:?}) yields other nodes than match"));
	}
	// a change through one of them reaches that very node
	let which = c.r.below(5);
	let targets: Vec<Ptr> = match which {
		0 => {
			for x in e.elements_by_name_mut(name.as_str()) {
				x.set_attr("mark", "1").map_err(|e| e.to_string())?;
			}
			want
		}
		1 => {
			for x in e.elements_by_namespace_mut(w.as_deref()) {
				x.set_attr("mark", "1").map_err(|e| e.to_string())?;
			}
			want_ns
		}
		2 => {
			for x in e.elements_by_namespace_prefix_mut(p.as_deref()) {
				x.set_attr("mark", "1").map_err(|e| e.to_string())?;
			}
			want_p
		}
		3 => {
			if let Ok(x) = e.first_element_by_name_mut(name.as_str()) {
				x.set_attr("mark", "1").map_err(|e| e.to_string())?;
			}
			want.into_iter().take(1).collect()
		}
		_ => {
			for x in e.child_elements_mut() {
				x.set_attr("mark", "1").map_err(|e| e.to_string())?;
			}
			kp.clone()
		}
	};
	c.count("changes through _mut", targets.len() as u64);
	for (k, &i) in idx.iter().enumerate() {
		if targets.contains(&kp[k]) {
			if let N::E(x) = &mut m.ch[i] {
				x.attrs.insert("mark".into(), "1".into());
			}
		}
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Legal);
	cfg.declared = false;
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous trees", huge.is_some() as u64);
	let size = if let Some(h) = huge { h } else if c.r.chance(1, 3) { Size::Ns } else { gen::pick_size(&mut c.r, if c.asan { 0 } else { 6 }) };
	let mut m = gen::tree(&mut c.r, &cfg, size);
	let mut e = snap::build(&mut c.r, &m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?;
	norm(&mut m);
	if m.count() < 60 && c.r.chance(1, 3) {
		let o = edit::Opt { cfg: cfg.clone(), ns: true, raw: true, assign: false, invalid: false, keep_root_ns: false };
		for _ in 0..c.r.range(1, 10) {
			if let Err(x) = edit::step(&mut c.r, &mut m, &mut e, &o, &Scope::new()) {
				return Err(fail("edit", x, &e.to_string()));
			}
		}
	}
	let before = e.to_string();
	let mut some = false;
	for round in 0..2 {
		let p = if round == 0 { Vec::new() } else { edit::path(&mut c.r, &m) };
		let inner = edit::scope_at(&m, &p, &Scope::new());
		let mut te: &Element = &e;
		for &k in &p {
			te = te.children().nth(k).and_then(|n| n.as_element().ok()).ok_or_else(|| fail("children", "children() ends early", &before))?;
		}
		let tm = edit::at_ref(&m, &p);
		some |= tm.count() >= 4;
		let r = guard(|| queries(c, tm, te, &inner)).map_err(|p| fail("panic", p, &before))?;
		r.map_err(|x| fail("query", format!("at {p:?}: {x}"), &before))?;
		if p.is_empty() || m.count() < 200 {
			snap::same(&m, &e, Some(&Scope::new())).map_err(|x| fail("changed", format!("a query changed the tree: {x}"), &before))?;
		}
	}
	for _ in 0..2 {
		let p = edit::path(&mut c.r, &m);
		let inner = edit::scope_at(&m, &p, &Scope::new());
		let te = edit::real_at(&mut c.r, &mut e, &p).map_err(|x| fail("children", x, &before))?;
		let tm = edit::at(&mut m, &p);
		queries_mut(c, tm, te, &inner).map_err(|x| fail("query", format!("at {p:?}: {x}"), &before))?;
		snap::same(&m, &e, None).map_err(|x| fail("changed", format!("after a change through a _mut query: {x}"), &before))?;
	}
	if some {
		c.nontrivial(before.as_bytes());
	}
	c.sample(|| before.clone());
	Ok(())
}
