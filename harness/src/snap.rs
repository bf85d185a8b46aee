//! Reads kiss-xml trees through public accessors, cross-checking the accessors against each other.
use crate::model::*;
use crate::gen;
use kiss_xml::dom::*;

fn utf8(s: &str) -> Result<(), String> {
	std::str::from_utf8(s.as_bytes()).map(|_| ()).map_err(|e| format!("string is not valid UTF-8: {e}"))
}

pub fn node(n: &Box<dyn Node>) -> Result<N, String> {
	match n.node_type() {
		DomNodeType::ElementNode => Ok(N::E(el(n.as_element().map_err(|e| format!("as_element on element: {e}"))?)?)),
		DomNodeType::TextNode => {
			let t = n.as_text().map_err(|e| format!("as_text on text: {e}"))?;
			utf8(&t.content)?;
			Ok(N::T(t.content.clone()))
		}
		DomNodeType::CommentNode => {
			let t = n.as_comment().map_err(|e| format!("as_comment on comment: {e}"))?.get_content().to_string();
			utf8(&t)?;
			Ok(N::C(t))
		}
		DomNodeType::CDataNode => {
			let t = n.as_cdata().map_err(|e| format!("as_cdata on cdata: {e}"))?.get_content().to_string();
			utf8(&t)?;
			Ok(N::D(t))
		}
	}
}

pub fn el(e: &Element) -> Result<El, String> {
	let mut m = El { prefix: e.namespace_prefix(), name: e.name(), ..Default::default() };
	utf8(&m.name)?;
	let tag = e.tag_name();
	if tag != m.tag() {
		return Err(format!("tag_name() is {tag:?} but prefix {:?} and name {:?}", m.prefix, m.name));
	}
	for (k, v) in e.attributes() {
		utf8(k)?;
		utf8(v)?;
		m.attrs.insert(k.clone(), v.clone());
	}
	for c in e.children() {
		m.ch.push(node(c)?);
	}
	Ok(m)
}

pub fn doc(d: &Document) -> Result<Doc, String> {
	Ok(Doc {
		decl: d.declaration().as_ref().map(|x| x.to_string()),
		dtds: d.doctype_defs().map(|x| x.to_string()).collect(),
		root: el(d.root_element())?,
	})
}

/// compares without building: Err(path: difference)
pub fn same(m: &El, e: &Element, ns: Option<&Scope>) -> Result<(), String> {
	fn go(m: &El, e: &Element, outer: Option<&Scope>, path: &mut Vec<usize>) -> Result<(), String> {
		let err = |path: &[usize], s: String| Err(format!("at child path {:?} <{}>: {}", path, show(&m.tag()), s));
		if e.name() != m.name {
			return err(path, format!("name is {} instead of {}", show(&e.name()), show(&m.name)));
		}
		if e.namespace_prefix() != m.prefix {
			return err(path, format!("prefix is {:?} instead of {:?}", e.namespace_prefix(), m.prefix));
		}
		if e.tag_name() != m.tag() {
			return err(path, format!("tag name is {:?} instead of {:?}", e.tag_name(), m.tag()));
		}
		let at = e.attributes();
		if at.len() != m.attrs.len() {
			let k: Vec<&String> = at.keys().collect();
			return err(path, format!("has attributes {:?} instead of {:?}", k, m.attrs.keys().collect::<Vec<_>>()));
		}
		for (k, v) in &m.attrs {
			match e.get_attr(k.as_str()) {
				None => return err(path, format!("attribute {} is missing", show(k))),
				Some(x) if x != v => return err(path, format!("attribute {} is {} instead of {}", show(k), show(x), show(v))),
				_ => {}
			}
		}
		let inner;
		let mut inner_ref = None;
		if let Some(sc) = outer {
			inner = if m.declares() { m.scope(sc) } else { sc.clone() };
			let want = m.ns(&inner).cloned();
			if e.namespace() != want {
				return err(path, format!("namespace is {:?} instead of {:?}", e.namespace(), want));
			}
			let want_df = if m.prefix.is_none() { want } else { None };
			if e.default_namespace() != want_df {
				return err(path, format!("default_namespace is {:?} instead of {:?}", e.default_namespace(), want_df));
			}
			let own = m.own_prefixes();
			let got = e.namespace_prefixes();
			match &got {
				None => {
					if !own.is_empty() {
						return err(path, format!("namespace_prefixes is None instead of {:?}", own));
					}
				}
				Some(g) => {
					if g.len() != own.len() || own.is_empty() || own.iter().any(|(k, v)| g.get(k) != Some(v)) {
						return err(path, format!("namespace_prefixes is {:?} instead of {:?}", g, own));
					}
				}
			}
			inner_ref = Some(&inner);
		}
		let got = e.children().count();
		if got != m.ch.len() {
			let kinds: Vec<String> = e.children().take(30).map(|c| format!("{} {}", c.node_type(), show(&c.text()))).collect();
			let want: Vec<String> = m.ch.iter().take(30).map(kind).collect();
			return err(path, format!("has {} children instead of {}: got {:?}, expected {:?}", got, m.ch.len(), kinds, want));
		}
		for (i, (c, x)) in m.ch.iter().zip(e.children()).enumerate() {
			path.push(i);
			let ty = x.node_type();
			match (c, ty) {
				(N::E(c), DomNodeType::ElementNode) => go(c, x.as_element().map_err(|e| e.to_string())?, inner_ref, path)?,
				(N::T(t), DomNodeType::TextNode) => {
					let g = &x.as_text().map_err(|e| e.to_string())?.content;
					if g != t {
						return err(path, format!("text is {} instead of {}", show(g), show(t)));
					}
				}
				(N::C(t), DomNodeType::CommentNode) => {
					let g = x.as_comment().map_err(|e| e.to_string())?.get_content();
					if g != t {
						return err(path, format!("comment is {} instead of {}", show(g), show(t)));
					}
				}
				(N::D(t), DomNodeType::CDataNode) => {
					let g = x.as_cdata().map_err(|e| e.to_string())?.get_content();
					if g != t {
						return err(path, format!("CDATA is {} instead of {}", show(g), show(t)));
					}
				}
				_ => return err(path, format!("child {} is {} {} instead of {}", i, ty, show(&x.text()), kind(c))),
			}
			path.pop();
		}
		Ok(())
	}
	go(m, e, ns, &mut Vec::new())
}

pub fn kind(n: &N) -> String {
	match n {
		N::E(e) => format!("Element <{}>", e.tag()),
		N::T(t) => format!("Text {}", show(t)),
		N::C(t) => format!("Comment {}", show(t)),
		N::D(t) => format!("CDATA {}", show(t)),
	}
}

pub fn same_doc(m: &Doc, d: &Document, ns: bool) -> Result<(), String> {
	let decl = d.declaration().as_ref().map(|x| x.to_string());
	if decl != m.decl {
		return Err(format!("declaration is {:?} instead of {:?}", decl, m.decl));
	}
	let dtds: Vec<String> = d.doctype_defs().map(|x| x.to_string()).collect();
	if dtds != m.dtds {
		return Err(format!("DTDs are {:?} instead of {:?}", dtds, m.dtds));
	}
	let sc = Scope::new();
	same(&m.root, d.root_element(), if ns { Some(&sc) } else { None })
}

/// builds a kiss-xml node from the model, choosing among the equivalent constructors
pub fn build(r: &mut crate::rng::Rng, m: &El) -> Result<Element, String> {
	use std::collections::HashMap;
	let mut kids: Vec<Box<dyn Node>> = Vec::with_capacity(m.ch.len());
	for c in &m.ch {
		kids.push(build_node(r, c)?);
	}
	let mut attrs: Vec<(String, String)> = m.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	r.shuffle(&mut attrs);
	let map = |a: &Vec<(String, String)>| -> HashMap<String, String> { a.iter().cloned().collect() };
	let es = |e: kiss_xml::errors::KissXmlError| format!("constructor failed: {e}");
	let plain = m.prefix.is_none();
	let way = r.below(8);
	let mut rest: Option<Vec<Box<dyn Node>>> = None;
	let mut rest_attrs = false;
	let mut e = if plain && way == 0 {
		rest_attrs = true;
		rest = Some(kids);
		Element::new_from_name(&m.name).map_err(es)?
	} else if plain && way == 1 {
		rest = Some(kids);
		Element::new_with_attributes(&m.name, map(&attrs)).map_err(es)?
	} else if plain && way == 2 {
		Element::new_with_attributes_and_children(&m.name, map(&attrs), kids).map_err(es)?
	} else if plain && way == 3 {
		rest_attrs = true;
		Element::new_with_children(&m.name, kids).map_err(es)?
	} else if plain && (way == 4 || way == 5) && m.ch.len() == 1 && matches!(m.ch[0], N::T(_)) {
		let t = if let N::T(t) = &m.ch[0] { t.clone() } else { unreachable!() };
		if way == 4 {
			rest_attrs = true;
			Element::new_with_text(&m.name, t).map_err(es)?
		} else {
			Element::new_with_attributes_and_text(&m.name, map(&attrs), t).map_err(es)?
		}
	} else {
		// full constructor; leading text may be given as text
		let mut text = None;
		if let Some(N::T(t)) = m.ch.first() {
			if r.chance(1, 2) && !all_ws(t) {
				text = Some(t.clone());
				kids.remove(0);
			}
		}
		let mut a = map(&attrs);
		let mut xmlns = None;
		let key = match &m.prefix {
			None => "xmlns".to_string(),
			Some(p) => format!("xmlns:{p}"),
		};
		if r.chance(1, 2) {
			if let Some(v) = a.get(&key) {
				if !v.is_empty() {
					xmlns = Some(v.clone());
					if r.chance(1, 2) {
						a.insert(key, "urn:overridden".into());
					} else {
						a.remove(&key);
					}
				}
			}
		}
		Element::new(gen::roomy(r, &m.name), text, if a.is_empty() && r.chance(1, 2) { None } else { Some(a) }, xmlns, m.prefix.clone(), if kids.is_empty() && r.chance(1, 2) { None } else { Some(kids) }).map_err(es)?
	};
	if rest_attrs {
		for (k, v) in attrs {
			let (k, v) = if r.chance(1, 3) { (gen::roomy(r, &k), gen::roomy(r, &v)) } else { (k, v) };
			e.set_attr(k, v).map_err(|x| format!("set_attr failed: {x}"))?;
		}
	}
	if let Some(k) = rest {
		if r.chance(1, 2) {
			e.append_all(k);
		} else {
			// piecewise: whitespace would be dropped before the real text arrives
			let ws_first = m.ch.iter().any(|c| matches!(c, N::T(t) if all_ws(t)));
			if ws_first || k.len() > 50 {
				e.append_all(k);
			} else {
				for x in k {
					e.append_boxed(x);
				}
			}
		}
	}
	Ok(e)
}

pub fn build_node(r: &mut crate::rng::Rng, n: &N) -> Result<Box<dyn Node>, String> {
	Ok(match n {
		N::E(e) => build(r, e)?.boxed(),
		N::T(t) => match r.below(4) {
			0 => Text::new(t.as_str()).boxed(),
			1 => Text::from(t.as_str()).boxed(),
			2 => Text::new(gen::roomy(r, t)).boxed(),
			_ => Text::from(gen::roomy(r, t)).boxed(),
		},
		N::C(t) if r.chance(1, 2) => Comment::new(gen::roomy(r, t)).map_err(|x| format!("Comment::new failed: {x}"))?.boxed(),
		N::D(t) if r.chance(1, 2) => CData::new(gen::roomy(r, t)).map_err(|x| format!("CData::new failed: {x}"))?.boxed(),
		N::C(t) => Comment::new(t.as_str()).map_err(|x| format!("Comment::new failed: {x}"))?.boxed(),
		N::D(t) => CData::new(t.as_str()).map_err(|x| format!("CData::new failed: {x}"))?.boxed(),
	})
}

pub fn build_doc(r: &mut crate::rng::Rng, d: &Doc) -> Result<Document, String> {
	let root = build(r, &d.root)?;
	let es = |e: kiss_xml::errors::KissXmlError| format!("constructor failed: {e}");
	let decl = match &d.decl {
		None => None,
		Some(x) => Some(Declaration::from_str(x).map_err(es)?),
	};
	let mut dtds = Vec::new();
	for x in &d.dtds {
		dtds.push(if r.chance(1, 2) { DTD::from_string(gen::roomy(r, x)) } else { DTD::from_string(x.as_str()) }.map_err(es)?);
	}
	Ok(if r.chance(1, 2) {
		let mut doc = Document::new(root);
		doc.set_declaration(decl);
		doc.set_doctype_defs(if dtds.is_empty() && r.chance(1, 2) { None } else { Some(&dtds) });
		doc
	} else {
		Document::new_with_decl_dtd(root, decl, if dtds.is_empty() && r.chance(1, 2) { None } else { Some(&dtds) })
	})
}
