//! Equality, hashing and cloning against the observable content.
use super::fail;
use crate::edit::{self, Pred};
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{snap, surface};
use kiss_xml::dom::*;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 2549;

pub static PROP: Prop = Prop {
	id: "C13",
	rule: "values are built, parsed and edited to the same or to minimally different content (one character, name, prefix, namespace, attribute, node type, order or position, at any depth) and all pairs of a group compared; == and != must agree with the content read through the accessors (an equivalence relation by construction), equal values must have equal hashes; clones are compared with their originals, and either side is then edited while the other is watched; non-trivial: a distinct pair differing in exactly one detail",
	quick: 130000,
	thorough: 1500000,
	shards: 8,
	floors: &[("pairs compared", 5000), ("equal pairs", 1000), ("pairs differing in one detail", 800), ("differing in namespace only", 20), ("equal hashes compared", 1000), ("clones", 500), ("edits beside a clone", 1000), ("documents compared", 200), ("leaf pairs", 300), ("orders compared", 100), ("prolog pairs", 500)],
	run,
	probes: &["deep-clone-eq"],
};

/// observable content
#[derive(Clone, PartialEq, Eq, Debug)]
enum S {
	E { prefix: Option<String>, name: String, ns: Option<String>, attrs: BTreeMap<String, String>, ch: Vec<S> },
	T(String),
	C(String),
	D(String),
}

fn see(n: &dyn Node) -> Result<S, String> {
	let x = |e: kiss_xml::errors::TypeCastError| e.to_string();
	Ok(match n.node_type() {
		DomNodeType::ElementNode => see_el(n.as_element().map_err(x)?)?,
		DomNodeType::TextNode => S::T(n.as_text().map_err(x)?.content.clone()),
		DomNodeType::CommentNode => S::C(n.as_comment().map_err(x)?.get_content().to_string()),
		DomNodeType::CDataNode => S::D(n.as_cdata().map_err(x)?.get_content().to_string()),
	})
}
fn see_el(e: &Element) -> Result<S, String> {
	let mut ch = Vec::new();
	for c in e.children() {
		ch.push(see(c.as_ref())?);
	}
	Ok(S::E { prefix: e.namespace_prefix(), name: e.name(), ns: e.namespace(), attrs: e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), ch })
}

fn h<T: Hash>(x: &T) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	x.hash(&mut s);
	s.finish()
}

fn pair(c: &mut Ctx, a: &Element, b: &Element, sa: &S, sb: &S, why: &str) -> R {
	let want = sa == sb;
	let input = || format!("{why}\na: {a}\nb: {b}\nseen a: {sa:?}\nseen b: {sb:?}");
	c.count("pairs compared", 1);
	let (x, y) = guard(|| (a == b, b == a)).map_err(|p| fail("panic", p, &input()))?;
	#[allow(clippy::nonminimal_bool)]
	let (nx, ny) = (a != b, b != a);
	if x != y {
		return Err(fail("symmetry", format!("a == b is {x} but b == a is {y}"), &input()));
	}
	if x != want {
		return Err(fail("equality", format!("== is {x} where the content is {}", if want { "equal" } else { "different" }), &input()));
	}
	let by_name = a.name().cmp(&b.name());
	if order(a, b) != Some(by_name) {
		return Err(fail("order", format!("the comparisons say {:?} where the names compare as {by_name:?}", order(a, b)), &input()));
	}
	if nx == x || ny == y {
		return Err(fail("equality", "!= is not the opposite of ==", &input()));
	}
	if want {
		c.count("equal pairs", 1);
		c.count("equal hashes compared", 1);
		if h(a) != h(b) {
			return Err(fail("hash", "equal elements have different hashes", &input()));
		}
		let (s, t) = (a.to_string_with_indent(""), b.to_string_with_indent(""));
		if s != t {
			return Err(fail("serialized", "equal elements are written differently", &input()));
		}
	}
	// the same as nodes
	if c.r.chance(1, 4) {
		let (p, q): (Box<dyn Node>, Box<dyn Node>) = (a.clone().boxed(), b.clone().boxed());
		let z = guard(|| (node_eq(&p, &q), node_eq(&q, &p))).map_err(|p| fail("panic", p, &input()))?;
		if z != (want, want) {
			return Err(fail("equality", format!("node_eq is {z:?} where == is {want}"), &input()));
		}
	}
	Ok(())
}

/// a node path: elements only
fn all_paths(m: &El) -> Vec<Vec<usize>> {
	fn go(m: &El, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
		out.push(p.clone());
		for (i, c) in m.ch.iter().enumerate() {
			if let N::E(x) = c {
				p.push(i);
				go(x, p, out);
				p.pop();
			}
		}
	}
	let mut v = Vec::new();
	go(m, &mut Vec::new(), &mut v);
	v
}

fn alter_text(r: &mut Rng, s: &str) -> String {
	let mut v: Vec<char> = s.chars().collect();
	match r.below(6) {
		0 => v.push(*r.pick(&['x', ' ', '\n', '\u{301}'])),
		1 if !v.is_empty() => {
			let k = r.below(v.len());
			v.remove(k);
		}
		2 if !v.is_empty() => {
			let k = r.below(v.len());
			let c = v[k];
			v[k] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { '_' };
		}
		3 => v.insert(0, *r.pick(&['x', ' ', '\t'])),
		4 if v.len() > 1 => {
			let k = r.below(v.len() - 1);
			v.swap(k, k + 1);
		}
		_ => {
			let k = r.below(v.len() + 1);
			v.insert(k, *r.pick(&['x', ' ', '&', '\u{200b}', '0']));
		}
	}
	v.into_iter().collect()
}

/// changes one detail somewhere; None if that was not possible there
fn alter(r: &mut Rng, m: &mut El) -> Option<&'static str> {
	let paths = all_paths(m);
	let p = if r.chance(1, 2) { paths[r.below(paths.len())].clone() } else { paths[paths.len() - 1].clone() };
	let is_root = p.is_empty();
	let e = edit::at(m, &p);
	let n = e.ch.len();
	match r.below(17) {
		0 => {
			e.name = if r.chance(1, 2) { format!("{}x", e.name) } else { gen::name(r) };
			Some("name")
		}
		1 => {
			let k = format!("{}{}", gen::name(r), r.below(10));
			if k.starts_with("xmlns") || e.attrs.contains_key(&k) {
				return None;
			}
			e.attrs.insert(k, gen::text(r, Chars::Plain));
			Some("attribute added")
		}
		2 | 3 => {
			let keys: Vec<String> = e.attrs.keys().filter(|k| !k.starts_with("xmlns")).cloned().collect();
			if keys.is_empty() {
				return None;
			}
			let k = r.pick(&keys).clone();
			match r.below(3) {
				0 => {
					e.attrs.remove(&k);
					Some("attribute removed")
				}
				1 => {
					let v = e.attrs.remove(&k)?;
					e.attrs.insert(format!("{k}x"), v);
					Some("attribute renamed")
				}
				_ => {
					let v = e.attrs.get_mut(&k)?;
					*v = alter_text(r, v);
					Some("attribute value")
				}
			}
		}
		4 => {
			// values exchanged
			let keys: Vec<String> = e.attrs.keys().filter(|k| !k.starts_with("xmlns")).cloned().collect();
			if keys.len() < 2 {
				return None;
			}
			let (a, b) = (keys[0].clone(), keys[keys.len() - 1].clone());
			let (x, y) = (e.attrs[&a].clone(), e.attrs[&b].clone());
			e.attrs.insert(a, y);
			e.attrs.insert(b, x);
			Some("attribute values exchanged")
		}
		5 => {
			// namespace of a declaration
			let keys: Vec<String> = e.attrs.keys().filter(|k| k.starts_with("xmlns")).cloned().collect();
			if keys.is_empty() {
				return None;
			}
			let k = r.pick(&keys).clone();
			e.attrs.insert(k, format!("urn:other{}", r.below(5)));
			Some("namespace")
		}
		6 => {
			if is_root && e.prefix.is_none() {
				return None;
			}
			e.prefix = match (&e.prefix, r.below(2)) {
				(None, _) => Some("p".to_string()),
				(Some(_), 0) if !is_root => None,
				(Some(x), _) => {
					let q = format!("{x}x");
					let v = e.attrs.get(&format!("xmlns:{x}")).cloned().unwrap_or("urn:q".into());
					e.attrs.insert(format!("xmlns:{q}"), v);
					Some(q)
				}
			};
			Some("prefix")
		}
		7..=9 => {
			if n == 0 {
				return None;
			}
			let k = r.below(n);
			match &mut e.ch[k] {
				N::T(t) => {
					let v = alter_text(r, t);
					*t = v;
					Some("text")
				}
				N::C(t) => {
					let v = alter_text(r, t);
					if v.contains("-->") {
						return None;
					}
					*t = v;
					Some("comment")
				}
				N::D(t) => {
					let v = alter_text(r, t);
					if v.contains("]]>") {
						return None;
					}
					*t = v;
					Some("CDATA")
				}
				N::E(_) => None,
			}
		}
		10 | 11 => {
			if n == 0 {
				return None;
			}
			let k = r.below(n);
			let t = match &e.ch[k] {
				N::T(t) | N::C(t) | N::D(t) => t.clone(),
				N::E(_) => return None,
			};
			if t.contains("-->") || t.contains("]]>") {
				return None;
			}
			let v = match r.below(3) {
				0 => N::T(t),
				1 => N::C(t),
				_ => N::D(t),
			};
			e.ch[k] = v;
			Some("node type")
		}
		12 | 13 => {
			if n < 2 {
				return None;
			}
			let a = r.below(n);
			let b = if r.chance(1, 2) && a + 1 < n { a + 1 } else { r.below(n) };
			e.ch.swap(a, b);
			Some("order")
		}
		14 => {
			if n == 0 {
				return None;
			}
			let k = if r.chance(1, 2) { n - 1 } else { r.below(n) };
			e.ch.remove(k);
			Some("node removed")
		}
		15 => {
			let k = if r.chance(1, 2) { n } else { r.below(n + 1) };
			let x = match r.below(4) {
				0 => N::E(El::new("a")),
				1 => N::C(String::new()),
				2 => N::D(String::new()),
				_ => N::T("x".into()),
			};
			e.ch.insert(k, x);
			Some("node added")
		}
		_ => {
			// one level deeper
			if n == 0 {
				return None;
			}
			let k = r.below(n);
			let x = e.ch.remove(k);
			let mut w = El::new("a");
			w.ch.push(x);
			e.ch.insert(k, N::E(w));
			Some("nesting")
		}
	}
}

/// a value with this content, one way or another
fn realize(c: &mut Ctx, m: &El) -> Result<Element, Fail> {
	if c.r.chance(1, 3) {
		let d = Doc { decl: None, dtds: vec![], root: m.clone() };
		let st = surface::Style::random(&mut c.r);
		let (s, _) = surface::write_doc(&mut c.r, &d, st);
		// an undeclared prefix on the root is refused
		if let Ok(d) = kiss_xml::parse_str(s.as_str()) {
			return Ok(d.root_element().clone());
		}
	}
	snap::build(&mut c.r, m).map_err(|e| fail("constructor", e, &format!("{m:?}")))
}

fn leaves(c: &mut Ctx) -> R {
	let t = match c.r.below(4) {
		0 => String::new(),
		_ => gen::text(&mut c.r, Chars::Any),
	};
	let t = t.replace("-->", "").replace("]]>", "");
	let mut vals: Vec<(usize, String)> = Vec::new();
	for _ in 0..c.r.range(2, 6) {
		let s = if c.r.chance(1, 2) { t.clone() } else { alter_text(&mut c.r, &t) };
		if s.contains("-->") || s.contains("]]>") {
			continue;
		}
		vals.push((c.r.below(3), s));
	}
	let x = |e: kiss_xml::errors::InvalidContent| fail("constructor", e.to_string(), &t);
	let mut nodes: Vec<Box<dyn Node>> = Vec::new();
	for (k, s) in &vals {
		// equal content reached in different ways
		let first = if c.r.chance(1, 3) { gen::text(&mut c.r, Chars::Plain).replace("-->", "").replace("]]>", "") } else { s.clone() };
		let m = |t: &String| match k {
			0 => N::T(t.clone()),
			1 => N::C(t.clone()),
			_ => N::D(t.clone()),
		};
		let mut n = snap::build_node(&mut c.r, &m(&first)).map_err(|e| fail("constructor", e, &first))?;
		if first != *s || c.r.chance(1, 8) {
			let room = gen::roomy(&mut c.r, s);
			match k {
				0 => n.as_text_mut().unwrap().content = room,
				1 => n.as_comment_mut().unwrap().set_content(room).map_err(x)?,
				_ => n.as_cdata_mut().unwrap().set_text(room).map_err(x)?,
			}
		}
		if c.r.chance(1, 6) {
			n = clone_node(&n);
		}
		nodes.push(n);
	}
	for i in 0..vals.len() {
		for j in 0..vals.len() {
			c.count("leaf pairs", 1);
			let want = vals[i] == vals[j];
			let input = format!("{:?} and {:?} (0 text, 1 comment, 2 CDATA)", vals[i], vals[j]);
			if node_eq(&nodes[i], &nodes[j]) != want {
				return Err(fail("equality", format!("node_eq is {} for two leaves", !want), &input));
			}
			if vals[i].0 == vals[j].0 {
				let (a, b) = (&nodes[i], &nodes[j]);
				let (eq, ne, ha, hb, ord) = match vals[i].0 {
					0 => {
						let (a, b) = (a.as_text().unwrap(), b.as_text().unwrap());
						(a == b, a != b, h(a), h(b), order(a, b))
					}
					1 => {
						let (a, b) = (a.as_comment().unwrap(), b.as_comment().unwrap());
						(a == b, a != b, h(a), h(b), order(a, b))
					}
					_ => {
						let (a, b) = (a.as_cdata().unwrap(), b.as_cdata().unwrap());
						(a == b, a != b, h(a), h(b), order(a, b))
					}
				};
				if ord != Some(vals[i].1.cmp(&vals[j].1)) {
					return Err(fail("order", format!("two leaves compare as {ord:?} where their content compares as {:?}", vals[i].1.cmp(&vals[j].1)), &input));
				}
				c.count("orders compared", 1);
				if eq != want || ne == want {
					return Err(fail("equality", format!("== is {eq} and != is {ne} for two leaves"), &input));
				}
				if eq && ha != hb {
					return Err(fail("hash", "equal leaves have different hashes", &input));
				}
			}
		}
		// clones of leaves
		let mut k = clone_node(&nodes[i]);
		c.count("clones", 1);
		if !node_eq(&k, &nodes[i]) || k.to_string() != nodes[i].to_string() {
			return Err(fail("clone", "a cloned leaf differs", &format!("{:?}", vals[i])));
		}
		let before = see(nodes[i].as_ref()).map_err(|e| fail("cast", e, ""))?;
		match vals[i].0 {
			0 => k.as_text_mut().unwrap().content.push('!'),
			1 => k.as_comment_mut().unwrap().set_content("!!").map_err(x)?,
			_ => k.as_cdata_mut().unwrap().set_text("!!").map_err(x)?,
		}
		if see(nodes[i].as_ref()).map_err(|e| fail("cast", e, ""))? != before {
			return Err(fail("clone-shared", "changing a clone changed the original leaf", &format!("{:?}", vals[i])));
		}
	}
	// mixed with an element
	let el = Element::new_from_name("a").unwrap().boxed();
	for n in &nodes {
		if node_eq(n, &el) || node_eq(&el, n) {
			return Err(fail("equality", "a leaf equals an element", &format!("{n:?}")));
		}
	}
	Ok(())
}

/// what partial_cmp, <, <=, > and >= say together; None if they do not agree
fn order<T: PartialOrd>(a: &T, b: &T) -> Option<std::cmp::Ordering> {
	use std::cmp::Ordering::*;
	let o = a.partial_cmp(b)?;
	let rest = (a < b, a <= b, a > b, a >= b, b.partial_cmp(a)?);
	(rest == (o == Less, o != Greater, o == Greater, o != Less, o.reverse())).then_some(o)
}

/// declarations and document type declarations
fn prolog(c: &mut Ctx) -> R {
	fn all<T: Clone + Ord + Hash + std::fmt::Display>(c: &mut Ctx, v: &[(String, T)]) -> R {
		for (s, a) in v {
			let k = a.clone();
			if k != *a || h(&k) != h(a) || k.to_string() != a.to_string() {
				return Err(fail("clone", "a clone differs from its original", s));
			}
			if a.to_string() != *s {
				return Err(fail("content", format!("written as {:?}", a.to_string()), s));
			}
			for (t, b) in v {
				let input = format!("{s:?} and {t:?}");
				c.count("prolog pairs", 1);
				if (a == b) != (s == t) || (a != b) == (s == t) {
					return Err(fail("equality", format!("== is {}", a == b), &input));
				}
				if s == t && h(a) != h(b) {
					return Err(fail("hash", "equal values have different hashes", &input));
				}
				if order(a, b) != Some(a.cmp(b)) || (a.cmp(b) == std::cmp::Ordering::Equal) != (s == t) {
					return Err(fail("order", format!("cmp is {:?}, the comparisons together say {:?}", a.cmp(b), order(a, b)), &input));
				}
				// in the order of their text (between delimiters of the same length)
				if a.cmp(b) != s.trim_end_matches("?>").trim_end_matches('>').cmp(t.trim_end_matches("?>").trim_end_matches('>')) && s.cmp(t) != a.cmp(b) {
					return Err(fail("order", format!("cmp is {:?}", a.cmp(b)), &input));
				}
			}
		}
		Ok(())
	}
	let x = |e: kiss_xml::errors::KissXmlError| fail("constructor", e.to_string(), "");
	let mut base = gen::text(&mut c.r, Chars::Legal).replace("?>", "").replace(['<', '>', '"', '\'', '[', ']', '&', '-'], "");
	let mut decls = Vec::new();
	let mut dtds = Vec::new();
	for _ in 0..c.r.range(2, 5) {
		let t = format!("v{base}e");
		let d = format!("<?xml {t}?>");
		decls.push((d.clone(), Declaration::from_str(d.as_str()).map_err(x)?));
		let d = format!("<!DOCTYPE {t}>");
		dtds.push((d.clone(), DTD::from_string(d.as_str()).map_err(x)?));
		if c.r.chance(2, 3) {
			base = alter_text(&mut c.r, &base).replace(['<', '>', '?'], "");
		}
	}
	all(c, &decls)?;
	all(c, &dtds)
}

fn documents(c: &mut Ctx, m: &El) -> R {
	// declaration, DTDs and root each count
	let mk_decl = |r: &mut Rng| match r.below(4) {
		0 => None,
		1 => Some("<?xml version=\"1.0\"?>".to_string()),
		2 => Some("<?xml version=\"1.0\" ?>".to_string()),
		_ => Some("<?xml version='1.0'?>".to_string()),
	};
	let mk_dtd = |r: &mut Rng| -> Vec<String> {
		match r.below(6) {
			0 | 1 => vec![],
			2 => vec!["<!DOCTYPE a>".into()],
			3 => vec!["<!DOCTYPE a >".into()],
			4 => vec!["<!DOCTYPE a>".into(), "<!DOCTYPE b>".into()],
			_ => vec!["<!DOCTYPE b>".into(), "<!DOCTYPE a>".into()],
		}
	};
	let mut ms = Vec::new();
	for _ in 0..4 {
		let mut root = m.clone();
		if c.r.chance(1, 4) {
			alter(&mut c.r, &mut root);
		}
		norm(&mut root);
		ms.push(Doc { decl: mk_decl(&mut c.r), dtds: mk_dtd(&mut c.r), root });
	}
	let mut ds = Vec::new();
	for m in &ms {
		ds.push(snap::build_doc(&mut c.r, m).map_err(|e| fail("constructor", e, &format!("{m:?}")))?);
	}
	for i in 0..ms.len() {
		for j in 0..ms.len() {
			c.count("documents compared", 1);
			let (mut a, mut b) = (ms[i].clone(), ms[j].clone());
			norm(&mut a.root);
			norm(&mut b.root);
			let want = a == b;
			let (x, y) = (ds[i] == ds[j], ds[i] != ds[j]);
			if x != want || y == want {
				return Err(fail("equality", format!("documents: == is {x} and != is {y} where the content is {}", if want { "equal" } else { "different" }), &format!("{}\n----\n{}", ds[i], ds[j])));
			}
		}
	}
	Ok(())
}

fn contexts(c: &mut Ctx) -> R {
	// the same tags below different declarations, taken out of their context
	let u = [*c.r.pick(gen::URIS), *c.r.pick(gen::URIS)];
	let pre = c.r.chance(1, 2);
	let deep = c.r.below(3);
	let mut es = Vec::new();
	for k in 0..2 {
		let mut p = El::new("outer");
		p.attrs.insert(if pre { "xmlns:p" } else { "xmlns" }.into(), u[k].into());
		if k == 1 && c.r.chance(1, 2) {
			// a declaration that means nothing to the child
			p.attrs.insert("xmlns:other".into(), "urn:o".into());
		}
		let mut x = El::new("x");
		if pre {
			x.prefix = Some("p".into());
		}
		for _ in 0..deep {
			let mut w = El::new("w");
			w.ch.push(N::E(x));
			x = w;
		}
		p.ch.push(N::E(x));
		let e = realize(c, &p)?;
		let child = e.child_elements().next().ok_or_else(|| fail("harness", "no child", ""))?.clone();
		es.push(child);
	}
	let (a, b) = (see_el(&es[0]).map_err(|e| fail("cast", e, ""))?, see_el(&es[1]).map_err(|e| fail("cast", e, ""))?);
	if a != b {
		c.count("differing in namespace only", 1);
		c.count("pairs differing in one detail", 1);
	}
	if (a != b) != (u[0] != u[1]) {
		return Err(fail("clone", format!("a cloned child's namespaces are not those of its place ({u:?})"), &format!("{a:?}\n{b:?}")));
	}
	pair(c, &es[0], &es[1], &a, &b, "children of different declarations")
}

fn run(c: &mut Ctx) -> R {
	let bad = |e: String| fail("cast", e, "");
	if c.r.chance(1, 6) {
		leaves(c)?;
	}
	if c.r.chance(1, 8) {
		contexts(c)?;
	}
	if c.r.chance(1, 10) {
		prolog(c)?;
	}
	let mut cfg = Cfg::new(if c.r.chance(1, 2) { Chars::Any } else { Chars::Plain });
	cfg.normal = c.r.chance(3, 4);
	let huge = c.huge(HUGE_PERIOD);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 3 }));
	c.count("enormous values", huge.is_some() as u64);
	let mut m = gen::tree(&mut c.r, &cfg, size);
	norm(&mut m);
	if m.count() < 60 && c.r.chance(1, 6) {
		documents(c, &m)?;
	}
	// a group: the value again, and values with one detail changed
	let mut group: Vec<(El, Element, S, String)> = Vec::new();
	let n = if m.count() > 200 { 2 } else { c.r.range(2, 5) };
	for k in 0..n {
		let mut x = m.clone();
		let mut what = "the same content".to_string();
		if k > 0 && c.r.chance(2, 3) {
			let mut w = None;
			for _ in 0..6 {
				w = alter(&mut c.r, &mut x);
				if w.is_some() {
					break;
				}
			}
			norm(&mut x);
			if let Some(w) = w {
				what = format!("changed: {w}");
				if x != m {
					c.count("pairs differing in one detail", 1);
					c.nontrivial(format!("{m:?}{x:?}").as_bytes());
				}
			}
		}
		let mut e = realize(c, &x)?;
		if c.r.chance(1, 3) {
			// there and back again
			let keep = e.attributes().get("tmp-k").is_none();
			if keep {
				let _ = e.set_attr("tmp-k", "v");
				e.remove_attr("tmp-k");
			}
			e.append(Comment::new("tmp").unwrap());
			let k = e.children().count() - 1;
			let _ = e.remove(k);
			what.push_str(" (edited and restored)");
		}
		let s = see_el(&e).map_err(bad)?;
		group.push((x, e, s, what));
	}
	for i in 0..group.len() {
		for j in i..group.len() {
			let (a, b) = (&group[i], &group[j]);
			// the model decides too: content is a function of it
			let same = a.0 == b.0;
			if same != (a.2 == b.2) {
				return Err(fail("content", format!("two values {} made from {} content", if same { "differ" } else { "agree" }, if same { "the same" } else { "different" }), &format!("{:?}\n{:?}\n{}\n{}", a.0, b.0, a.1, b.1)));
			}
			let why = format!("{} / {}", a.3, b.3);
			pair(c, &a.1, &b.1, &a.2, &b.2, &why)?;
		}
	}
	c.sample(|| group.iter().map(|g| format!("{}: {}", g.3, g.1.to_string_with_indent(""))).collect::<Vec<_>>().join("\n"));
	// clones
	let (mut mm, mut e, _, _) = group.swap_remove(0);
	if mm.count() > 150 {
		return Ok(());
	}
	let mut copy = match c.r.below(3) {
		0 => e.clone(),
		1 => {
			let b: Box<dyn Node> = e.clone().boxed();
			clone_node(&b).as_element().map_err(|e| bad(e.to_string()))?.clone()
		}
		_ => {
			let mut x = Element::new_from_name("zz").unwrap();
			x.clone_from(&e);
			x
		}
	};
	c.count("clones", 1);
	let (s0, t0, h0) = (see_el(&e).map_err(bad)?, e.to_string(), h(&e));
	let (s1, t1, h1) = (see_el(&copy).map_err(bad)?, copy.to_string(), h(&copy));
	if s0 != s1 || t0 != t1 || h0 != h1 || copy != e {
		return Err(fail("clone", "a clone differs from its original", &format!("{e}\n{copy}")));
	}
	let o = edit::Opt { cfg, ns: true, raw: true, assign: true, invalid: false, keep_root_ns: false };
	let edit_copy = c.r.chance(1, 2);
	let mut log = format!("{} edited, start: {}\n", if edit_copy { "clone" } else { "original" }, show(&t0));
	let (active, still) = if edit_copy { (&mut copy, &mut e) } else { (&mut e, &mut copy) };
	for _ in 0..c.r.range(1, 8) {
		let d = if c.r.chance(1, 10) {
			let q = Pred::Always;
			active.remove_by(&|x| q.real(x));
			mm.ch.clear();
			"all removed".to_string()
		} else {
			edit::step(&mut c.r, &mut mm, active, &o, &Scope::new()).map_err(|x| fail("edit", x, &log))?
		};
		log.push_str(&d);
		log.push('\n');
		c.count("edits beside a clone", 1);
		if see_el(still).map_err(bad)? != s0 || still.to_string() != t0 || h(still) != h0 {
			return Err(fail("clone-shared", "an edit of one of original and clone is seen in the other", &log));
		}
		// and the comparison notices the edit
		let s = see_el(active).map_err(bad)?;
		pair(c, active, still, &s, &s0, &log)?;
		if mm.count() > 150 {
			break;
		}
	}
	Ok(())
}
