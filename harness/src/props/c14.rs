//! Names and content: what is accepted, what is refused, and that refusals leave no trace.
use super::fail;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{edit, snap};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::collections::HashMap;

pub static PROP: Prop = Prop {
	id: "C14",
	rule: "every Unicode code point is put first and later in an element name, an attribute name and a prefix (the first 8704 cases cover them all), and hostile names are given to every constructor and to set_attr on elements inside trees; acceptance is compared with the Name production of XML 1.0 written out as tables, the kind of error checked and the tree compared before and after; likewise comment and CDATA content, indices, missing names, declarations and DTDs; non-trivial: a distinct refused or accepted hostile string",
	quick: 350000,
	thorough: 4000000,
	shards: 8,
	floors: &[("names judged", 1500), ("names refused", 400), ("names accepted", 400), ("refusals without trace", 500), ("content judged", 500), ("content refused", 100), ("indices refused", 100), ("declarations judged", 100), ("DTDs judged", 100)],
	run,
	probes: &[],
};

const BLOCK: u32 = 128;
const BLOCKS: u64 = (0x110000 / BLOCK) as u64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
	Ok,
	Elem,
	Attr,
	Other,
}
fn kind<T>(r: &Result<T, KissXmlError>) -> Kind {
	match r {
		Ok(_) => Kind::Ok,
		Err(KissXmlError::InvalidElementName(_)) => Kind::Elem,
		Err(KissXmlError::InvalidAttributeName(_)) => Kind::Attr,
		Err(_) => Kind::Other,
	}
}

const ELEM_WAYS: usize = 8;
/// constructs an element with this name
fn elem(way: usize, name: &str) -> Result<Element, KissXmlError> {
	let none = || None::<HashMap<String, String>>;
	let a = || HashMap::from([("k", "v")]);
	match way % ELEM_WAYS {
		0 => Element::new_from_name(name),
		1 => Element::new(name, None, none(), None, None, None),
		2 => Element::new_with_attributes(name, a()),
		3 => Element::new_with_text(name, "t"),
		4 => Element::new_with_attributes_and_text(name, a(), "t"),
		5 => Element::new_with_attributes_and_children(name, a(), vec![Text::new("t").boxed()]),
		6 => Element::new_with_children(name, vec![Comment::new("t").unwrap().boxed()]),
		_ => Element::new(name.to_string(), Some("t".to_string()), Some(a()), Some("u".to_string()), Some("p".to_string()), Some(vec![])),
	}
}
const ATTR_WAYS: usize = 5;
/// constructs an element with an attribute of this name (besides valid ones)
fn attr(way: usize, name: &str, others: usize) -> Result<Element, KissXmlError> {
	let mut a: HashMap<String, String> = HashMap::new();
	for i in 0..others {
		a.insert(format!("k{i}"), "v".into());
	}
	a.insert(name.to_string(), "value".into());
	match way % ATTR_WAYS {
		0 => Element::new("e", None, Some(a), None, None, None),
		1 => Element::new_with_attributes("e", a),
		2 => Element::new_with_attributes_and_text("e", a, "t"),
		3 => Element::new_with_attributes_and_children("e", a, vec![]),
		_ => Element::new("e", None, Some(a), Some("u".to_string()), Some("p".to_string()), None),
	}
}

/// one name in all its roles
fn judge(c: &mut Ctx, name: &str, way: usize, all: bool, probe: &mut Element, probe_text: &str) -> R {
	let valid = valid_name(name);
	let n = if all { ELEM_WAYS } else { 1 };
	let bad = |what: &str, k: Kind| Err(fail("name", format!("{what} with name {name:?} ({:?}): {} but the name is {}", name.chars().map(|c| format!("U+{:04X}", c as u32)).take(12).collect::<Vec<_>>(), match k {
		Kind::Ok => "succeeded",
		Kind::Elem => "gave the element name error",
		Kind::Attr => "gave the attribute name error",
		Kind::Other => "gave another error",
	}, if valid { "valid" } else { "not valid" }), name));
	for w in way..way + n {
		let r = guard(|| elem(w, name)).map_err(|p| fail("panic", p, name))?;
		c.count("names judged", 1);
		let k = kind(&r);
		if k != if valid { Kind::Ok } else { Kind::Elem } {
			return bad(&format!("element constructor {}", w % ELEM_WAYS), k);
		}
		if let Ok(e) = r {
			if e.name() != name {
				return Err(fail("name", format!("an element constructed as {name:?} is named {:?}", e.name()), name));
			}
		}
	}
	// prefix
	let r = guard(|| Element::new("e", None, None::<HashMap<String, String>>, if way % 2 == 0 { Some("u".to_string()) } else { None }, Some(name.to_string()), None)).map_err(|p| fail("panic", p, name))?;
	c.count("names judged", 1);
	// (a colon inside a prefix is not settled by the XML name rules)
	if !name.contains(':') {
		let k = kind(&r);
		if k != if valid { Kind::Ok } else { Kind::Elem } && !(k == Kind::Attr && !valid) {
			return bad("namespace prefix", k);
		}
		if let Ok(e) = r {
			if e.namespace_prefix().as_deref() != Some(name) {
				return Err(fail("name", format!("prefix {name:?} became {:?}", e.namespace_prefix()), name));
			}
		}
	}
	let n = if all { ATTR_WAYS } else { 1 };
	for w in way..way + n {
		let r = guard(|| attr(w, name, (way + w) % 4)).map_err(|p| fail("panic", p, name))?;
		c.count("names judged", 1);
		let k = kind(&r);
		if k != if valid { Kind::Ok } else { Kind::Attr } {
			return bad(&format!("constructor {} with attributes", w % ATTR_WAYS), k);
		}
		if let Ok(e) = r {
			if e.get_attr(name).map(|s| s.as_str()) != Some("value") && !(w % ATTR_WAYS == 4 && name == "xmlns:p") {
				return Err(fail("name", format!("attribute {name:?} was lost"), name));
			}
		}
	}
	// set_attr
	let r = guard(|| probe.set_attr(name, "value")).map_err(|p| fail("panic", p, name))?;
	c.count("names judged", 1);
	if r.is_ok() != valid {
		return bad("set_attr", if r.is_ok() { Kind::Ok } else { Kind::Attr });
	}
	if valid {
		c.count("names accepted", 1);
		if probe.get_attr(name).map(|s| s.as_str()) != Some("value") {
			return Err(fail("name", format!("attribute {name:?} was not set"), name));
		}
		if probe.remove_attr(name).as_deref() != Some("value") {
			return Err(fail("name", format!("attribute {name:?} could not be removed"), name));
		}
	} else {
		c.count("names refused", 1);
		if probe.attributes().len() != 1 || probe.get_attr(name).is_some() || probe.to_string() != probe_text {
			return Err(fail("trace", format!("the refused attribute {name:?} left a trace: {probe}"), name));
		}
	}
	Ok(())
}

fn code_points(c: &mut Ctx, block: u32) -> R {
	let mut probe = Element::new_with_attributes("e", HashMap::from([("keep", "1")])).map_err(|e| fail("constructor", e.to_string(), ""))?;
	let text = probe.to_string();
	let mut s = String::new();
	for u in block * BLOCK..(block + 1) * BLOCK {
		if let Some(ch) = char::from_u32(u) {
			s.clear();
			s.push(ch);
			let w = u as usize;
			let all = u < 0x4000;
			judge(c, &s, w, all, &mut probe, &text)?;
			s.insert(0, 'a');
			judge(c, &s, w + 1, all, &mut probe, &text)?;
			s.push('b');
			judge(c, &s, w + 2, false, &mut probe, &text)?;
			c.count("code points", 1);
		}
	}
	Ok(())
}

fn hostile_name(r: &mut Rng) -> String {
	match r.below(12) {
		0 => r.pick(&["", " ", "a b", " a", "a ", "a\n", "\na", "a\r", "a\t", "a\u{0}", "\u{0}", "-a", ".a", "1a", "1", "a=", "a=\"b\"", "a><b", "a/", "/a", "/", "<a", "a>", "a&", "a;", "&amp;", "a'", "\"", "!--", "!DOCTYPE", "?xml", "a?", "a!", "a|b", "a,b", "a(b)", "a+", "a*", "a@b", "a#", "a%", "a\\", "a^", "a`", "a{", "a}", "a~", "a$", "[", "]"]).to_string(),
		1 => r.pick(&[":", ":a", "a:", "a:b", "a:b:c", "a::b", "xmlns", "xmlns:", "xmlns:a", "xml", "XML", "xml:lang", "_", "__", "_:", "a-", "a.", "a--", "é", "a\u{b7}", "\u{b7}", "\u{300}", "a\u{300}", "a\u{d7}", "\u{d7}", "\u{f7}", "a\u{f7}", "\u{37e}", "a\u{37e}", "\u{200b}", "a\u{200c}", "\u{200e}", "\u{203f}", "a\u{203f}", "\u{2041}", "\u{1680}", "a\u{1680}", "\u{a0}", "a\u{a0}", "\u{3000}", "\u{3001}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{efff}", "\u{e000}", "\u{f8ff}", "\u{fdd0}", "\u{fdef}", "\u{effff}", "\u{f0000}", "\u{10ffff}", "\u{feff}a", "\u{85}", "a\u{85}", "a\u{2028}"]).to_string(),
		2..=4 => {
			// a valid name with one odd character in it
			let mut v: Vec<char> = gen::name(r).chars().collect();
			let at = if r.chance(1, 3) { v.len() } else { r.below(v.len() + 1) };
			let c = gen::text_n(r, Chars::Any, 1).chars().next().unwrap_or('\n');
			v.insert(at, c);
			v.into_iter().collect()
		}
		5 => gen::text(r, Chars::Any),
		6 => {
			let mut s = "n".repeat(r.range(200, 3000));
			if r.chance(1, 2) {
				s.push(*r.pick(&[' ', '\n', '=', '<', '\u{d7}', '>', '"']));
			}
			if r.chance(1, 2) {
				s.push('x');
			}
			s
		}
		7 => format!("{}{}{}", gen::name(r), r.pick(&["\n", " ", "=", ">", "\t", "\r\n", "/", "\u{2029}"]), gen::name(r)),
		8 => format!("{}:{}", gen::name(r), gen::name(r)),
		_ => gen::name(r),
	}
}

fn hostile_names(c: &mut Ctx) -> R {
	let mut probe = Element::new_with_attributes("e", HashMap::from([("keep", "1")])).map_err(|e| fail("constructor", e.to_string(), ""))?;
	let text = probe.to_string();
	for _ in 0..4 {
		let n = hostile_name(&mut c.r);
		c.nontrivial(n.as_bytes());
		c.sample(|| format!("{n:?}"));
		let w = c.r.below(40);
		if n == "keep" {
			continue;
		}
		judge(c, &n, w, true, &mut probe, &text)?;
		// names that differ a little from the one just judged, and that one again
		for k in 0..2 {
			let x = gen::near(&mut c.r, &n);
			if x != "keep" {
				judge(c, &x, w + k, k == 0, &mut probe, &text)?;
				// one straight after the other
				for (a, b) in [(&n, &x), (&x, &n)] {
					let _ = elem(w + k, a);
					let e = kind(&elem(w + 2 * k, b));
					let _ = attr(w + k, a, k);
					let f = kind(&attr(w, b, 0));
					let _ = probe.set_attr(a.as_str(), "v");
					probe.remove_attr(a.as_str());
					let g = probe.set_attr(b.as_str(), "v").is_ok();
					probe.remove_attr(b.as_str());
					c.count("names judged", 3);
					let v = valid_name(b);
					if (e == Kind::Ok) != v || (f == Kind::Ok) != v || g != v {
						return Err(fail("name", format!("{b:?} right after {a:?}: as an element {e:?}, as an attribute {f:?}, set_attr {g}, but the name is {}", if v { "valid" } else { "not valid" }), b));
					}
				}
			}
		}
		judge(c, &n, w + 1, false, &mut probe, &text)?;
	}
	Ok(())
}

/// refused operations inside a tree
fn refusals(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Any);
	cfg.normal = true;
	let size = *c.r.pick(&[Size::Tiny, Size::Small, Size::Ns]);
	let mut m = gen::tree(&mut c.r, &cfg, size);
	norm(&mut m);
	let mut e = snap::build(&mut c.r, &m).map_err(|x| fail("constructor", x, &format!("{m:?}")))?;
	let text = e.to_string();
	for _ in 0..4 {
		let p = edit::path(&mut c.r, &m);
		let tm = edit::at_ref(&m, &p);
		let n = tm.ch.len();
		let ne = tm.ch.iter().filter(|x| matches!(x, N::E(_))).count();
		let te = edit::real_at(&mut c.r, &mut e, &p).map_err(|x| fail("edit", x, &text))?;
		let what: String;
		match c.r.below(8) {
			0 | 1 => {
				let mut k = hostile_name(&mut c.r);
				if valid_name(&k) {
					k.push('=');
				}
				what = format!("set_attr {k:?}");
				c.count("names judged", 1);
				if guard(|| te.set_attr(k.as_str(), "v")).map_err(|p| fail("panic", p, &what))?.is_ok() {
					return Err(fail("name", format!("{what} succeeded"), &text));
				}
			}
			2 => {
				let i = if c.r.chance(1, 4) { usize::MAX - c.r.below(2) } else { n + 1 + c.r.below(3) };
				what = format!("insert at {i} of {n}");
				c.count("indices refused", 1);
				let r = match c.r.below(3) {
					0 => guard(|| te.insert(i, Text::new("x"))),
					1 => guard(|| te.insert(i, Comment::new("x").unwrap())),
					_ => guard(|| te.insert(i, Element::new_from_name("x").unwrap())),
				};
				match r.map_err(|p| fail("panic", p, &what))? {
					Ok(()) => return Err(fail("index", format!("{what} succeeded"), &text)),
					Err(x) if x.index != i as isize => return Err(fail("index", format!("{what}: the error names index {}", x.index), &text)),
					Err(_) => {}
				}
			}
			3 => {
				let i = if c.r.chance(1, 4) { usize::MAX - c.r.below(2) } else { n + c.r.below(3) };
				what = format!("remove {i} of {n}");
				c.count("indices refused", 1);
				match guard(|| te.remove(i)).map_err(|p| fail("panic", p, &what))? {
					Ok(_) => return Err(fail("index", format!("{what} succeeded"), &text)),
					Err(x) if x.index != i as isize => return Err(fail("index", format!("{what}: the error names index {}", x.index), &text)),
					Err(_) => {}
				}
			}
			4 => {
				let i = if c.r.chance(1, 4) { usize::MAX - c.r.below(2) } else { ne + c.r.below(3) };
				what = format!("remove_element {i} of {ne}");
				c.count("indices refused", 1);
				match guard(|| te.remove_element(i)).map_err(|p| fail("panic", p, &what))? {
					Ok(_) => return Err(fail("index", format!("{what} succeeded"), &text)),
					Err(x) if x.index != i as isize => return Err(fail("index", format!("{what}: the error names index {}", x.index), &text)),
					Err(_) => {}
				}
			}
			5 => {
				let k = edit::some_name(&mut c.r, tm);
				what = format!("first_element_by_name {k:?}");
				let exists = tm.ch.iter().any(|x| matches!(x, N::E(y) if y.name == k));
				c.count("missing names asked for", !exists as u64);
				if te.first_element_by_name(k.as_str()).is_ok() != exists || te.first_element_by_name_mut(k.as_str()).is_ok() != exists {
					return Err(fail("missing", format!("{what}: does not agree with the existence of such a child"), &text));
				}
			}
			_ => {
				// content of a leaf
				let i = tm.ch.iter().position(|x| matches!(x, N::C(_) | N::D(_)));
				match i {
					None => continue,
					Some(i) => {
						let is_comment = matches!(tm.ch[i], N::C(_));
						let mut s = gen::text(&mut c.r, Chars::Any);
						let at = c.r.below(s.chars().count() + 1);
						let byte = s.char_indices().nth(at).map(|x| x.0).unwrap_or(s.len());
						s.insert_str(byte, if is_comment { "-->" } else { "]]>" });
						what = format!("content {s:?}");
						c.count("content refused", 1);
						c.count("content judged", 1);
						let x = te.children_mut().nth(i).unwrap();
						let ok = if is_comment { x.as_comment_mut().unwrap().set_content(s.as_str()).is_ok() } else { x.as_cdata_mut().unwrap().set_text(s).is_ok() };
						if ok {
							return Err(fail("content", format!("{what} was accepted"), &text));
						}
					}
				}
			}
		}
		c.count("refusals without trace", 1);
		snap::same(&m, &e, Some(&Scope::new())).map_err(|x| fail("trace", format!("{what} left a trace: {x}"), &text))?;
		if e.to_string() != text {
			return Err(fail("trace", format!("{what} changed the serialized form"), &text));
		}
	}
	Ok(())
}

fn contents(c: &mut Ctx) -> R {
	for _ in 0..3 {
		let mut s = gen::text(&mut c.r, Chars::Any);
		for _ in 0..c.r.below(3) {
			let at = c.r.below(s.chars().count() + 1);
			let byte = s.char_indices().nth(at).map(|x| x.0).unwrap_or(s.len());
			s.insert_str(byte, c.r.pick(&["-", "--", "-->", "->", ">", "]", "]]", "]]>", "]>", "--->", "]]]>", "-- >", "]] >", "--!>", "-\u{200b}->", "&gt;", "--&gt;"]));
		}
		c.nontrivial(s.as_bytes());
		c.count("content judged", 2);
		let ok = !s.contains("-->");
		let old = "old content";
		match guard(|| Comment::new(s.as_str())).map_err(|p| fail("panic", p, &s))? {
			Ok(x) if !ok => return Err(fail("content", format!("a comment was given {:?}", x.get_content()), &s)),
			Err(e) if ok => return Err(fail("content", format!("comment refused: {e}"), &s)),
			Ok(x) if x.get_content() != s => return Err(fail("content", format!("comment content became {:?}", x.get_content()), &s)),
			_ => {}
		}
		let mut x = Comment::new(old).unwrap();
		let r = x.set_content(s.as_str());
		if r.is_ok() != ok || x.get_content() != if ok { s.as_str() } else { old } {
			return Err(fail("content", format!("set_content gives {r:?} and leaves {:?}", x.get_content()), &s));
		}
		let ok2 = !s.contains("]]>");
		match guard(|| CData::new(s.as_str())).map_err(|p| fail("panic", p, &s))? {
			Ok(x) if !ok2 => return Err(fail("content", format!("CDATA was given {:?}", x.get_content()), &s)),
			Err(e) if ok2 => return Err(fail("content", format!("CDATA refused: {e}"), &s)),
			Ok(x) if x.get_content() != s => return Err(fail("content", format!("CDATA content became {:?}", x.get_content()), &s)),
			_ => {}
		}
		let mut x = CData::new(old).unwrap();
		let r = x.set_text(s.as_str());
		if r.is_ok() != ok2 || x.get_content() != if ok2 { s.as_str() } else { old } {
			return Err(fail("content", format!("set_text of CDATA gives {r:?} and leaves {:?}", x.get_content()), &s));
		}
		if !ok {
			c.count("content refused", 1);
		}
		if !ok2 {
			c.count("content refused", 1);
		}
	}
	Ok(())
}

fn heads(c: &mut Ctx) -> R {
	// declarations
	let body = c.r.pick(&["xml version=\"1.0\"", "xml", "xml version='1.0' encoding='é'", "", "xml ?", "xml >", "xml <?"]).to_string();
	let start = *c.r.pick(&["<?", "<?", "<?", "<", "?", "", "<!", " <?", "< ?", "x<?"]);
	let end = *c.r.pick(&["?>", "?>", "?>", ">", "?", "", "-->", "?> ", "? >", "?>x", "/>"]);
	let s = format!("{start}{body}{end}");
	let t = s.trim_matches(is_ws);
	let ok = t.len() >= 4 && t.starts_with("<?") && t.ends_with("?>");
	c.count("declarations judged", 1);
	c.nontrivial(s.as_bytes());
	match guard(|| Declaration::from_str(s.as_str())).map_err(|p| fail("panic", p, &s))? {
		Ok(x) if !ok => return Err(fail("declaration", format!("text without its delimiters was accepted as {x}"), &s)),
		Err(e) if ok => return Err(fail("declaration", format!("refused: {e}"), &s)),
		Ok(x) if x.to_string() != t => return Err(fail("declaration", format!("became {x}"), &s)),
		_ => {}
	}
	// DTDs
	let body = c.r.pick(&[" a", " a []", " a SYSTEM \"x>y\"", " a [<!ENTITY e \"]>\">]", " é", " a >"]).to_string();
	let start = *c.r.pick(&["<!DOCTYPE", "<!DOCTYPE", "<!DOCTYPE", "<!doctype", "!DOCTYPE", "DOCTYPE", "<!ELEMENT", "< !DOCTYPE", "", " <!DOCTYPE", "x<!DOCTYPE"]);
	let end = *c.r.pick(&[">", ">", ">", "", "]", "> ", ">x"]);
	let s = format!("{start}{body}{end}");
	let t = s.trim_matches(is_ws);
	let ok = t.starts_with("<!DOCTYPE") && t.ends_with('>');
	c.count("DTDs judged", 1);
	c.nontrivial(s.as_bytes());
	match guard(|| DTD::from_string(s.as_str())).map_err(|p| fail("panic", p, &s))? {
		Ok(x) if !ok => return Err(fail("dtd", format!("text without its delimiters was accepted as {x}"), &s)),
		Err(e) if ok => return Err(fail("dtd", format!("refused: {e}"), &s)),
		Ok(x) if x.to_string() != t => return Err(fail("dtd", format!("became {x}"), &s)),
		_ => {}
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	if c.idx < BLOCKS {
		return code_points(c, c.idx as u32);
	}
	match c.r.below(6) {
		0 | 1 => hostile_names(c),
		2 | 3 => refusals(c),
		4 => contents(c),
		_ => heads(c),
	}
}
