//! Random edit operations applied in step to a kiss-xml tree and to the list model.
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::rng::Rng;
use crate::snap;
use kiss_xml::dom::*;

#[derive(Clone, Debug)]
pub struct Opt {
	pub cfg: Cfg,
	/// edits of xmlns attributes
	pub ns: bool,
	/// text nodes may be set to empty or whitespace directly
	pub raw: bool,
	/// nodes may be replaced by assignment (through children_mut)
	pub assign: bool,
	/// operations that must be refused
	pub invalid: bool,
	/// the root keeps its attributes if it has a prefix (so that it stays declared)
	pub keep_root_ns: bool,
}

#[derive(Clone, Debug)]
pub enum Pred {
	Always,
	Never,
	Type(usize),
	Name(String),
	Attr(String),
	Text(char),
	Leaf,
	Prefixed,
}
impl Pred {
	pub fn random(r: &mut Rng, m: &El) -> Pred {
		match r.below(12) {
			0 => Pred::Always,
			1 => Pred::Never,
			2 | 3 => Pred::Type(r.below(4)),
			4..=6 => Pred::Name(some_name(r, m)),
			7 => Pred::Attr(some_attr(r, m)),
			8 | 9 => Pred::Text(*r.pick(&['a', ' ', 'x', '&', 'é', '\n', 'o', '<', '4'])),
			10 => Pred::Leaf,
			_ => Pred::Prefixed,
		}
	}
	pub fn model(&self, n: &N) -> bool {
		match self {
			Pred::Always => true,
			Pred::Never => false,
			Pred::Type(k) => *k == match n {
				N::E(_) => 0,
				N::T(_) => 1,
				N::C(_) => 2,
				N::D(_) => 3,
			},
			Pred::Name(s) => matches!(n, N::E(e) if e.name == *s),
			Pred::Attr(s) => matches!(n, N::E(e) if e.attrs.contains_key(s)),
			Pred::Text(c) => match n {
				N::E(e) => e.text().contains(*c),
				N::T(t) | N::C(t) | N::D(t) => t.contains(*c),
			},
			Pred::Leaf => !matches!(n, N::E(e) if !e.ch.is_empty()),
			Pred::Prefixed => matches!(n, N::E(e) if e.prefix.is_some()),
		}
	}
	pub fn el(&self, e: &Element) -> bool {
		match self {
			Pred::Always => true,
			Pred::Never => false,
			Pred::Type(k) => *k == 0,
			Pred::Name(s) => e.name() == *s,
			Pred::Attr(s) => e.get_attr(s.as_str()).is_some(),
			Pred::Text(c) => e.text().contains(*c),
			Pred::Leaf => e.children().next().is_none(),
			Pred::Prefixed => e.namespace_prefix().is_some(),
		}
	}
	pub fn real(&self, n: &Box<dyn Node>) -> bool {
		match n.node_type() {
			DomNodeType::ElementNode => self.el(n.as_element().unwrap()),
			t => match self {
				Pred::Always => true,
				Pred::Type(k) => *k == match t {
					DomNodeType::TextNode => 1,
					DomNodeType::CommentNode => 2,
					_ => 3,
				},
				Pred::Text(c) => n.text().contains(*c),
				Pred::Leaf => true,
				_ => false,
			},
		}
	}
}

pub fn some_name(r: &mut Rng, m: &El) -> String {
	// a name that occurs, if possible, or almost
	if r.chance(1, 6) {
		let s = occurring_name(r, m);
		return gen::near(r, &s);
	}
	occurring_name(r, m)
}
fn occurring_name(r: &mut Rng, m: &El) -> String {
	let kids: Vec<&El> = m.ch.iter().filter_map(|c| if let N::E(e) = c { Some(e) } else { None }).collect();
	if kids.is_empty() || r.chance(1, 6) {
		return r.pick(&["a", "b", "nosuch", "", "A", "root"]).to_string();
	}
	let k = r.below(kids.len());
	if !kids[k].ch.is_empty() && r.chance(1, 3) {
		return occurring_name(r, kids[k]);
	}
	if r.chance(1, 10) {
		return kids[k].tag();
	}
	kids[k].name.clone()
}
pub fn some_attr(r: &mut Rng, m: &El) -> String {
	if r.chance(1, 6) {
		let s = occurring_attr(r, m);
		return gen::near(r, &s);
	}
	occurring_attr(r, m)
}
fn occurring_attr(r: &mut Rng, m: &El) -> String {
	if !m.attrs.is_empty() && r.chance(2, 3) {
		let k = r.below(m.attrs.len());
		return m.attrs.keys().nth(k).unwrap().clone();
	}
	for c in &m.ch {
		if let N::E(e) = c {
			if !e.attrs.is_empty() && r.chance(1, 2) {
				let k = r.below(e.attrs.len());
				return e.attrs.keys().nth(k).unwrap().clone();
			}
		}
	}
	r.pick(&["id", "nosuch", "a", ""]).to_string()
}

/// random path to an element
pub fn path(r: &mut Rng, m: &El) -> Vec<usize> {
	let mut p = Vec::new();
	let mut cur = m;
	loop {
		let idx: Vec<usize> = cur.ch.iter().enumerate().filter(|(_, c)| matches!(c, N::E(_))).map(|x| x.0).collect();
		if idx.is_empty() || r.chance(1, 3) {
			return p;
		}
		// prefer children with children
		let mut k = *r.pick(&idx);
		for _ in 0..2 {
			if let N::E(e) = &cur.ch[k] {
				if e.ch.is_empty() {
					k = *r.pick(&idx);
				}
			}
		}
		p.push(k);
		cur = if let N::E(e) = &cur.ch[k] { e } else { unreachable!() };
	}
}
pub fn at<'a>(m: &'a mut El, p: &[usize]) -> &'a mut El {
	let mut cur = m;
	for &k in p {
		cur = if let N::E(e) = &mut cur.ch[k] { e } else { unreachable!() };
	}
	cur
}
pub fn at_ref<'a>(m: &'a El, p: &[usize]) -> &'a El {
	let mut cur = m;
	for &k in p {
		cur = if let N::E(e) = &cur.ch[k] { e } else { unreachable!() };
	}
	cur
}
pub fn scope_at(m: &El, p: &[usize], outer: &Scope) -> Scope {
	let mut sc = m.scope(outer);
	let mut cur = m;
	for &k in p {
		cur = if let N::E(e) = &cur.ch[k] { e } else { unreachable!() };
		sc = cur.scope(&sc);
	}
	sc
}
/// the element at a path, reached through children_mut or child_elements_mut
pub fn real_at<'a>(r: &mut Rng, e: &'a mut Element, p: &[usize]) -> Result<&'a mut Element, String> {
	let mut cur = e;
	for &k in p {
		let before = cur.children().take(k).filter(|c| c.is_element()).count();
		cur = if r.chance(1, 2) {
			cur.children_mut().nth(k).ok_or("children_mut ends early")?.as_element_mut().map_err(|x| x.to_string())?
		} else {
			cur.child_elements_mut().nth(before).ok_or("child_elements_mut ends early")?
		};
	}
	Ok(cur)
}

pub fn small_node(r: &mut Rng, cfg: &Cfg, scope: &Scope) -> N {
	match r.below(10) {
		0..=3 => {
			let size = if cfg.ns && r.chance(1, 3) { Size::Ns } else { Size::Tiny };
			let mut t = gen::tree_in(r, cfg, size, scope);
			// as the constructors will leave it
			norm(&mut t);
			N::E(t)
		}
		4 | 5 => N::T(gen::text(r, cfg.chars)),
		6 => N::T(if r.chance(1, 3) { String::new() } else { gen::ws(r, cfg.chars) }),
		7 | 8 => N::C(gen::comment_text(r, cfg.chars, cfg.strict_comments)),
		_ => N::D(gen::cdata_text(r, cfg.chars)),
	}
}

fn count_removed(ch: &mut Vec<N>, p: &Pred) -> usize {
	let a = ch.len();
	ch.retain(|n| !p.model(n));
	a - ch.len()
}
fn remove_all_model(ch: &mut Vec<N>, p: &dyn Fn(&N) -> bool) -> usize {
	let a = ch.len();
	ch.retain(|n| !p(n));
	let mut n = a - ch.len();
	for c in ch.iter_mut() {
		if let N::E(e) = c {
			n += remove_all_model(&mut e.ch, p);
		}
	}
	n
}

fn is_normal(ch: &[N]) -> bool {
	let mut c = ch.to_vec();
	norm_children(&mut c);
	c == ch
}

/// checks that a removed node is what the model says (namespaces apart)
fn check_node(want: &N, got: &Box<dyn Node>) -> Result<(), String> {
	match (want, got.node_type()) {
		(N::E(m), DomNodeType::ElementNode) => snap::same(m, got.as_element().map_err(|e| e.to_string())?, None),
		(N::E(_), _) | (_, DomNodeType::ElementNode) => Err(format!("returned a {} instead of {}", got.node_type(), snap::kind(want))),
		_ => {
			let g = snap::node(got)?;
			if g == *want {
				Ok(())
			} else {
				Err(format!("returned {} instead of {}", snap::kind(&g), snap::kind(want)))
			}
		}
	}
}

/// One random operation. Ok(description), or Err(description and what is wrong with its result).
/// The caller compares the trees.
pub fn step(r: &mut Rng, m: &mut El, e: &mut Element, o: &Opt, outer: &Scope) -> Result<String, String> {
	let p = path(r, m);
	let scope = scope_at(m, &p, outer);
	let is_root = p.is_empty();
	let tm = at(m, &p);
	let te = real_at(r, e, &p)?;
	let n = tm.ch.len();
	let attrs_locked = o.keep_root_ns && is_root && tm.prefix.is_some();
	let op = r.below(if o.assign { 34 } else { 32 });
	let mut d = format!("{:?} ", p);
	macro_rules! bad {
		($($a:tt)*) => { return Err(format!("{d}: {}", format!($($a)*))) };
	}
	match op {
		0..=4 => {
			// append one
			let c = small_node(r, &o.cfg, &scope);
			d.push_str(&format!("append {}", snap::kind(&c)));
			match (&c, r.chance(1, 3)) {
				(_, true) => te.append_boxed(snap::build_node(r, &c)?),
				(N::E(x), _) => te.append(snap::build(r, x)?),
				(N::T(x), _) => te.append(Text::new(x.as_str())),
				(N::C(x), _) => te.append(Comment::new(x.as_str()).map_err(|e| e.to_string())?),
				(N::D(x), _) => te.append(CData::new(x.as_str()).map_err(|e| e.to_string())?),
			}
			tm.ch.push(c);
			norm_children(&mut tm.ch);
		}
		5 | 6 => {
			let k = r.range(1, 4);
			let v: Vec<N> = (0..k).map(|_| small_node(r, &o.cfg, &scope)).collect();
			d.push_str(&format!("append_all {:?}", v.iter().map(snap::kind).collect::<Vec<_>>()));
			let mut b = Vec::new();
			for c in &v {
				b.push(snap::build_node(r, c)?);
			}
			te.append_all(b);
			tm.ch.extend(v);
			norm_children(&mut tm.ch);
		}
		7..=11 => {
			let i = if r.chance(1, 4) { n } else { r.below(n + 1) };
			let c = small_node(r, &o.cfg, &scope);
			d.push_str(&format!("insert at {i} {}", snap::kind(&c)));
			let res = match &c {
				N::E(x) => te.insert(i, snap::build(r, x)?),
				N::T(x) => te.insert(i, Text::new(x.as_str())),
				N::C(x) => te.insert(i, Comment::new(x.as_str()).map_err(|e| e.to_string())?),
				N::D(x) => te.insert(i, CData::new(x.as_str()).map_err(|e| e.to_string())?),
			};
			if let Err(x) = res {
				bad!("failed: {x}");
			}
			tm.ch.insert(i, c);
			norm_children(&mut tm.ch);
		}
		12 if o.invalid => {
			let i = n + 1 + r.below(3);
			d.push_str(&format!("insert out of range at {i}"));
			let res = match r.below(3) {
				0 => te.insert(i, Text::new("x")),
				1 => te.insert(i, Element::new_from_name("x").map_err(|e| e.to_string())?),
				_ => te.insert(usize::MAX - i, Comment::new("x").map_err(|e| e.to_string())?),
			};
			if res.is_ok() {
				bad!("succeeded with {n} children");
			}
		}
		13 if o.invalid => {
			let i = n + r.below(3);
			d.push_str(&format!("remove out of range at {i}"));
			if te.remove(i).is_ok() {
				bad!("succeeded with {n} children");
			}
			let ne = tm.ch.iter().filter(|c| matches!(c, N::E(_))).count();
			if te.remove_element(ne + r.below(2)).is_ok() {
				bad!("remove_element succeeded with {ne} child elements");
			}
		}
		14 | 15 if n > 0 => {
			let i = r.below(n);
			d.push_str(&format!("remove {i}"));
			let want = tm.ch.remove(i);
			match te.remove(i) {
				Err(x) => bad!("failed: {x}"),
				Ok(g) => {
					if let Err(x) = check_node(&want, &g) {
						bad!("{x}");
					}
				}
			}
		}
		16 => {
			let idx: Vec<usize> = tm.ch.iter().enumerate().filter(|(_, c)| matches!(c, N::E(_))).map(|x| x.0).collect();
			if !idx.is_empty() {
				let k = r.below(idx.len());
				d.push_str(&format!("remove_element {k}"));
				let want = tm.ch.remove(idx[k]);
				match te.remove_element(k) {
					Err(x) => bad!("failed: {x}"),
					Ok(g) => {
						if let N::E(w) = &want {
							if let Err(x) = snap::same(w, &g, None) {
								bad!("returned element: {x}");
							}
						}
					}
				}
			}
		}
		17 => {
			let q = Pred::random(r, tm);
			d.push_str(&format!("remove_by {q:?}"));
			let want = count_removed(&mut tm.ch, &q);
			let got = te.remove_by(&|x| q.real(x));
			if got != want {
				bad!("returned {got} instead of {want}");
			}
		}
		18 => {
			let q = Pred::random(r, tm);
			d.push_str(&format!("remove_all {q:?}"));
			let want = remove_all_model(&mut tm.ch, &|x| q.model(x));
			let got = te.remove_all(&|x| q.real(x));
			if got != want {
				bad!("returned {got} instead of {want}");
			}
		}
		19 => {
			let q = Pred::random(r, tm);
			d.push_str(&format!("remove_elements {q:?}"));
			let a = tm.ch.len();
			tm.ch.retain(|x| !(matches!(x, N::E(_)) && q.model(x)));
			let want = a - tm.ch.len();
			let got = te.remove_elements(|x| q.el(x));
			if got != want {
				bad!("returned {got} instead of {want}");
			}
		}
		20 => {
			let q = Pred::random(r, tm);
			d.push_str(&format!("remove_all_elements {q:?}"));
			let want = remove_all_model(&mut tm.ch, &|x| matches!(x, N::E(_)) && q.model(x));
			let got = te.remove_all_elements(|x| q.el(x));
			if got != want {
				bad!("returned {got} instead of {want}");
			}
		}
		21 => {
			let name = some_name(r, tm);
			d.push_str(&format!("remove_elements_by_name {name:?}"));
			let a = tm.ch.len();
			tm.ch.retain(|x| !matches!(x, N::E(e) if e.name == name));
			let want = a - tm.ch.len();
			let got = te.remove_elements_by_name(name);
			if got != want {
				bad!("returned {got} instead of {want}");
			}
		}
		22 if r.chance(1, 2) => {
			let mut t = if r.chance(1, 5) { gen::ws(r, o.cfg.chars) } else { gen::text(r, o.cfg.chars) };
			if r.chance(1, 3) {
				// what is there already, or much like it
				t = match tm.ch.iter().find_map(|x| if let N::T(t) = x { Some(t.clone()) } else { None }) {
					Some(x) if r.chance(2, 3) => x,
					_ => tm.text(),
				};
				if r.chance(1, 3) {
					t = gen::variant(r, &t);
				}
			}
			d.push_str(&format!("set_text {}", show(&t)));
			te.set_text(t.as_str());
			tm.ch = vec![N::T(t)];
			norm_children(&mut tm.ch);
		}
		23 if r.chance(1, 4) => {
			d.push_str("clear_children");
			te.clear_children();
			tm.ch.clear();
		}
		24..=26 => {
			let k = if !tm.attrs.is_empty() && r.chance(1, 3) { occurring_attr(r, tm) } else if o.cfg.ascii_names { gen::ascii_name(r) } else { gen::name(r) };
			if !k.is_empty() && !k.starts_with("xmlns") {
				let v = match tm.attrs.get(&k) {
					Some(v) if r.chance(1, 3) => gen::variant(r, v),
					_ => gen::text(r, o.cfg.chars),
				};
				d.push_str(&format!("set_attr {k:?} {}", show(&v)));
				if let Err(x) = te.set_attr(k.as_str(), v.as_str()) {
					bad!("failed: {x}");
				}
				tm.attrs.insert(k, v);
			}
		}
		27 if o.invalid => {
			let k = *r.pick(&["", "1a", "a b", "a=", "-", "a\"", "a<", ":a", " a", "a ", "é!", "a/b", "a>"]);
			d.push_str(&format!("set_attr with invalid name {k:?}"));
			if te.set_attr(k, "v").is_ok() {
				bad!("succeeded");
			}
		}
		28 if !attrs_locked => {
			let k = some_attr(r, tm);
			if o.ns || !k.starts_with("xmlns") {
				d.push_str(&format!("remove_attr {k:?}"));
				let want = tm.attrs.remove(&k);
				let got = te.remove_attr(k.as_str());
				if got != want {
					bad!("returned {got:?} instead of {want:?}");
				}
			}
		}
		29 if !attrs_locked && (o.ns || !tm.declares()) && r.chance(1, 3) => {
			d.push_str("clear_attributes");
			te.clear_attributes();
			tm.attrs.clear();
		}
		30 if o.ns && !attrs_locked => {
			let (k, v) = if r.chance(1, 2) {
				("xmlns".to_string(), if r.chance(1, 4) { String::new() } else { r.pick(gen::URIS).to_string() })
			} else {
				let p = loop {
					let p = *r.pick(gen::PREFIXES);
					if !o.cfg.ascii_names || p.is_ascii() {
						break p;
					}
				};
				(format!("xmlns:{p}"), r.pick(gen::URIS).to_string())
			};
			d.push_str(&format!("set_attr {k:?} {v:?}"));
			if let Err(x) = te.set_attr(k.as_str(), v.as_str()) {
				bad!("failed: {x}");
			}
			tm.attrs.insert(k, v);
		}
		31 | 32 if n > 0 => {
			// content setters of a leaf
			let i = r.below(n);
			let raw = o.raw && r.chance(1, 2);
			let child = match te.children_mut().nth(i) {
				None => bad!("children_mut ends before {i}"),
				Some(c) => c,
			};
			match &mut tm.ch[i] {
				N::E(_) => {}
				N::T(t) => {
					let v = if raw { r.pick(&["", " ", "\n", "x", "<&>"]).to_string() } else { gen::real_text(r, o.cfg.chars) };
					d.push_str(&format!("text {i} set to {}", show(&v)));
					child.as_text_mut().map_err(|e| e.to_string())?.content = v.clone();
					*t = v;
				}
				N::C(t) => {
					if o.invalid && r.chance(1, 3) {
						d.push_str(&format!("comment {i} set to invalid content"));
						if child.as_comment_mut().map_err(|e| e.to_string())?.set_content("a-->b").is_ok() {
							bad!("succeeded");
						}
					} else {
						let v = gen::comment_text(r, o.cfg.chars, o.cfg.strict_comments);
						d.push_str(&format!("comment {i} set to {}", show(&v)));
						if let Err(x) = child.as_comment_mut().map_err(|e| e.to_string())?.set_content(v.as_str()) {
							bad!("failed: {x}");
						}
						*t = v;
					}
				}
				N::D(t) => {
					if o.invalid && r.chance(1, 3) {
						d.push_str(&format!("cdata {i} set to invalid content"));
						if child.as_cdata_mut().map_err(|e| e.to_string())?.set_text("a]]>b").is_ok() {
							bad!("succeeded");
						}
					} else {
						let v = gen::cdata_text(r, o.cfg.chars);
						d.push_str(&format!("cdata {i} set to {}", show(&v)));
						if let Err(x) = child.as_cdata_mut().map_err(|e| e.to_string())?.set_text(v.as_str()) {
							bad!("failed: {x}");
						}
						*t = v;
					}
				}
			}
		}
		33 if n > 0 && o.assign => {
			// replaced by assignment
			let i = r.below(n);
			let c = small_node(r, &o.cfg, &scope);
			d.push_str(&format!("child {i} replaced by {}", snap::kind(&c)));
			let b = snap::build_node(r, &c)?;
			match te.children_mut().nth(i) {
				None => bad!("children_mut ends before {i}"),
				Some(x) => *x = b,
			}
			tm.ch[i] = c;
		}
		_ => {
			if is_normal(&tm.ch) && r.chance(1, 2) {
				d.push_str("append_all of nothing");
				te.append_all(Vec::new());
			} else {
				d.push_str("nothing");
			}
		}
	}
	Ok(d)
}

/// moves a subtree to another element of the same tree; returns a description
pub fn relocate(r: &mut Rng, m: &mut El, e: &mut Element) -> Result<String, String> {
	let p = path(r, m);
	let tm = at(m, &p);
	let idx: Vec<usize> = tm.ch.iter().enumerate().filter(|(_, c)| matches!(c, N::E(_))).map(|x| x.0).collect();
	if idx.is_empty() {
		return Ok("nothing".into());
	}
	let k = r.below(idx.len());
	let te = real_at(r, e, &p)?;
	let copy = r.chance(1, 3);
	let (moved_m, moved_e): (El, Box<dyn Node>) = if copy {
		let x = if let N::E(x) = &tm.ch[idx[k]] { x.clone() } else { unreachable!() };
		let c = te.child_elements().nth(k).ok_or("child_elements ends early")?.clone();
		(x, c.boxed())
	} else {
		let x = if let N::E(x) = tm.ch.remove(idx[k]) { x } else { unreachable!() };
		let b = if r.chance(1, 2) { te.remove(idx[k]).map_err(|e| e.to_string())? } else { te.remove_element(k).map_err(|e| e.to_string())?.boxed() };
		(x, b)
	};
	let q = path(r, m);
	let tm = at(m, &q);
	let te = real_at(r, e, &q)?;
	let d;
	match r.below(3) {
		0 => {
			d = format!("{:?}: child element {k} {} to the end of {:?}", p, if copy { "copied" } else { "moved" }, q);
			te.append_boxed(moved_e);
			tm.ch.push(N::E(moved_m));
		}
		1 => {
			d = format!("{:?}: child element {k} {} (append_all) to {:?}", p, if copy { "copied" } else { "moved" }, q);
			te.append_all(vec![Comment::new("m").unwrap().boxed(), moved_e]);
			tm.ch.push(N::C("m".into()));
			tm.ch.push(N::E(moved_m));
		}
		_ => {
			let i = r.below(tm.ch.len() + 1);
			d = format!("{:?}: child element {k} {} to {:?} at {i}", p, if copy { "copied" } else { "moved" }, q);
			let el = moved_e.as_element().map_err(|e| e.to_string())?.clone();
			te.insert(i, el).map_err(|e| format!("{d}: {e}"))?;
			tm.ch.insert(i, N::E(moved_m));
		}
	}
	norm_children(&mut tm.ch);
	Ok(d)
}
