//! Node types, casts and leaf accessors.
use super::fail;
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::refser;
use crate::rng::Rng;
use crate::runner::*;
use crate::snap;
use kiss_xml::dom::*;

pub static PROP: Prop = Prop {
	id: "C16",
	rule: "a bench of nodes of all four types goes through random histories (constructors and conversions, content set through every kind of mutable cast, refused content, concatenation, cloning, boxing, moving into and out of trees, writing and parsing); after every step the changed node, and at the end all of them, are asked all type questions, all eight casts, as_any, as_node, content and serialized form, and the answers are compared with the model and the node's address; non-trivial: a distinct history with at least three steps",
	quick: 500000,
	thorough: 6000000,
	shards: 8,
	floors: &[("nodes interrogated", 8000), ("right casts", 8000), ("wrong casts refused", 8000), ("content set through a mutable cast", 1000), ("moves through trees", 300), ("clones", 300), ("concatenations", 200), ("leaves parsed back", 200)],
	run,
	probes: &[],
};

fn ty(m: &N) -> DomNodeType {
	match m {
		N::E(_) => DomNodeType::ElementNode,
		N::T(_) => DomNodeType::TextNode,
		N::C(_) => DomNodeType::CommentNode,
		N::D(_) => DomNodeType::CDataNode,
	}
}

fn addr(n: &dyn Node) -> usize {
	n as *const dyn Node as *const u8 as usize
}
fn at<T>(n: &T) -> usize {
	n as *const T as *const u8 as usize
}

/// everything a shared reference can tell
fn ask(n: &dyn Node, m: &N) -> Result<(), String> {
	let t = ty(m);
	let flags = [n.is_element(), n.is_text(), n.is_comment(), n.is_cdata()];
	let want = [t == DomNodeType::ElementNode, t == DomNodeType::TextNode, t == DomNodeType::CommentNode, t == DomNodeType::CDataNode];
	if flags != want {
		return Err(format!("is_element, is_text, is_comment, is_cdata answer {flags:?} for {}", snap::kind(m)));
	}
	if n.node_type() != t {
		return Err(format!("node_type is {:?} for {}", n.node_type(), snap::kind(m)));
	}
	let a = n.as_any();
	let any = [a.is::<Element>(), a.is::<Text>(), a.is::<Comment>(), a.is::<CData>()];
	if any != want {
		return Err(format!("as_any says Element, Text, Comment, CData: {any:?} for {}", snap::kind(m)));
	}
	let casts = [n.as_element().ok().map(at), n.as_text().ok().map(at), n.as_comment().ok().map(at), n.as_cdata().ok().map(at)];
	let downs = [a.downcast_ref::<Element>().map(at), a.downcast_ref::<Text>().map(at), a.downcast_ref::<Comment>().map(at), a.downcast_ref::<CData>().map(at)];
	let here = addr(n);
	for k in 0..4 {
		let w = if want[k] { Some(here) } else { None };
		if casts[k] != w {
			return Err(format!("shared cast number {k} (Element, Text, Comment, CData) of {} {}", snap::kind(m), if casts[k].is_none() { "fails" } else if want[k] { "yields another node" } else { "succeeds" }));
		}
		if downs[k] != w {
			return Err(format!("as_any downcast number {k} of {} is wrong", snap::kind(m)));
		}
	}
	if addr(n.as_node()) != here || n.as_node().node_type() != t {
		return Err("as_node yields another node".into());
	}
	content(n, m)
}

fn content(n: &dyn Node, m: &N) -> Result<(), String> {
	let same = |what: &str, got: &str, want: &str| -> Result<(), String> {
		if got == want {
			Ok(())
		} else {
			Err(format!("{what} of {} is {} instead of {}", snap::kind(m), show(got), show(want)))
		}
	};
	let (c, ser) = match m {
		N::E(e) => {
			snap::same(e, n.as_element().map_err(|e| e.to_string())?, None)?;
			same("text()", &n.text(), &e.text())?;
			return Ok(());
		}
		N::T(t) => {
			same("content", &n.as_text().map_err(|e| e.to_string())?.content, t)?;
			(t, refser::esc_text(t))
		}
		N::C(t) => {
			same("get_content()", n.as_comment().map_err(|e| e.to_string())?.get_content(), t)?;
			(t, format!("<!--{t}-->"))
		}
		N::D(t) => {
			same("get_content()", n.as_cdata().map_err(|e| e.to_string())?.get_content(), t)?;
			(t, format!("<![CDATA[{t}]]>"))
		}
	};
	same("text()", &n.text(), c)?;
	same("to_string()", &n.to_string(), &ser)?;
	same("display", &format!("{n}"), &ser)?;
	for i in ["", "\t", "  ", "     ", "xx", "\n", "&"] {
		same("to_string_with_indent()", &n.to_string_with_indent(i), &ser)?;
	}
	Ok(())
}

/// the mutable casts too
fn ask_mut(c: &mut Ctx, n: &mut dyn Node, m: &N) -> Result<(), String> {
	ask(n, m)?;
	let here = addr(n);
	let want = [matches!(m, N::E(_)), matches!(m, N::T(_)), matches!(m, N::C(_)), matches!(m, N::D(_))];
	let casts = [n.as_element_mut().ok().map(|x| at(x)), n.as_text_mut().ok().map(|x| at(x)), n.as_comment_mut().ok().map(|x| at(x)), n.as_cdata_mut().ok().map(|x| at(x))];
	let downs = [
		n.as_any_mut().downcast_mut::<Element>().map(|x| at(x)),
		n.as_any_mut().downcast_mut::<Text>().map(|x| at(x)),
		n.as_any_mut().downcast_mut::<Comment>().map(|x| at(x)),
		n.as_any_mut().downcast_mut::<CData>().map(|x| at(x)),
	];
	for k in 0..4 {
		let w = if want[k] { Some(here) } else { None };
		if casts[k] != w {
			return Err(format!("mutable cast number {k} (Element, Text, Comment, CData) of {} {}", snap::kind(m), if casts[k].is_none() { "fails" } else if want[k] { "yields another node" } else { "succeeds" }));
		}
		if downs[k] != w {
			return Err(format!("as_any_mut downcast number {k} of {} is wrong", snap::kind(m)));
		}
	}
	if addr(n.as_node_mut()) != here {
		return Err("as_node_mut yields another node".into());
	}
	ask(n, m)?;
	c.count("nodes interrogated", 1);
	c.count("right casts", 2);
	c.count("wrong casts refused", 6);
	Ok(())
}

/// content that the leaf type takes, and now and then content it refuses
fn some_content(r: &mut Rng, like: &N, k: Chars) -> (String, bool) {
	if r.chance(1, 4) {
		// much like what is there
		if let N::T(t) | N::C(t) | N::D(t) = like {
			let s = gen::variant(r, t);
			let ok = match like {
				N::C(_) => !s.contains("-->"),
				N::D(_) => !s.contains("]]>"),
				_ => true,
			};
			return (s, ok);
		}
	}
	let bad = r.chance(1, 8);
	match like {
		N::C(_) => {
			let s = gen::comment_text(r, k, false);
			if bad {
				(format!("{s}-->{}", r.pick(&["", "x", "-->", " "])), false)
			} else {
				(s, true)
			}
		}
		N::D(_) => {
			let s = gen::cdata_text(r, k);
			if bad {
				(format!("{s}]]>{}", r.pick(&["", "x", ">", "]]"])), false)
			} else {
				(s, true)
			}
		}
		_ => (gen::text(r, k), true),
	}
}

fn build_leaf(r: &mut Rng, m: &N) -> Result<Box<dyn Node>, String> {
	let way = r.below(4);
	Ok(match m {
		N::T(t) => match way {
			0 => Text::new(t.as_str()).boxed(),
			1 => Text::new(t.clone()).boxed(),
			2 => Box::new(Text::from(t.as_str())),
			_ => Box::new(Text::from(t.clone())),
		},
		N::C(t) => match way {
			0 => Comment::new(t.as_str()).map_err(|e| e.to_string())?.boxed(),
			1 => Box::new(Comment::new(t.clone()).map_err(|e| e.to_string())?),
			2 => Comment::from(t.as_str()).boxed(),
			_ => Box::new(Comment::from(t.clone())),
		},
		N::D(t) => match way {
			0 => CData::new(t.as_str()).map_err(|e| e.to_string())?.boxed(),
			1 => Box::new(CData::new(t.clone()).map_err(|e| e.to_string())?),
			2 => CData::from(t.as_str()).boxed(),
			_ => Box::new(CData::from(t.clone())),
		},
		N::E(e) => snap::build(r, e)?.boxed(),
	})
}

/// sets content through a mutable cast
fn set(r: &mut Rng, b: &mut dyn Node, m: &mut N, s: &str, ok: bool) -> Result<&'static str, String> {
	let way = r.below(3);
	macro_rules! typed {
		($b:expr, $cast:ident, $t:ty) => {
			match way {
				0 => $b.$cast().map_err(|e| e.to_string())?,
				1 => $b.as_node_mut().$cast().map_err(|e| e.to_string())?,
				_ => $b.as_any_mut().downcast_mut::<$t>().ok_or("as_any_mut does not downcast")?,
			}
		};
	}
	let done = match m {
		N::T(t) => {
			let x: &mut Text = typed!(b, as_text_mut, Text);
			x.content = s.to_string();
			*t = s.to_string();
			return Ok("content");
		}
		N::C(_) => {
			let x: &mut Comment = typed!(b, as_comment_mut, Comment);
			if r.chance(1, 2) { x.set_content(s).is_ok() } else { x.set_content(s.to_string()).is_ok() }
		}
		N::D(_) => {
			let x: &mut CData = typed!(b, as_cdata_mut, CData);
			if r.chance(1, 2) { x.set_text(s).is_ok() } else { x.set_text(s.to_string()).is_ok() }
		}
		N::E(e) => {
			let x: &mut Element = typed!(b, as_element_mut, Element);
			x.set_attr("set", s).map_err(|e| e.to_string())?;
			e.attrs.insert("set".into(), s.to_string());
			return Ok("attribute");
		}
	};
	if done != ok {
		return Err(format!("setting the content {} {}", show(s), if ok { "is refused" } else { "is accepted" }));
	}
	if ok {
		match m {
			N::C(t) | N::D(t) => *t = s.to_string(),
			_ => {}
		}
		Ok("content")
	} else {
		Ok("refused content")
	}
}

fn run(c: &mut Ctx) -> R {
	let k = *c.r.pick(&[Chars::Plain, Chars::Legal, Chars::Any]);
	let cfg = Cfg::new(k);
	let mut bench: Vec<(N, Box<dyn Node>)> = Vec::new();
	let mut log = String::new();
	let steps = c.r.range(3, 14);
	for _ in 0..steps {
		let n = bench.len();
		let pick = if n == 0 { 0 } else { c.r.below(n) };
		let op = if n == 0 { 0 } else if n > 7 { c.r.range(2, 11) } else { c.r.below(12) };
		let mut changed: Vec<usize> = Vec::new();
		let res: Result<(), String> = (|| {
			match op {
				0 | 1 => {
					let mut m = match c.r.below(7) {
						0 | 1 => N::T(String::new()),
						2 | 3 => N::C(String::new()),
						4 | 5 => N::D(String::new()),
						_ => {
							let mut e = gen::tree(&mut c.r, &cfg, Size::Tiny);
							e.ch.retain(|x| !matches!(x, N::T(t) if t.is_empty()));
							N::E(e)
						}
					};
					let (s, _) = loop {
						let x = some_content(&mut c.r, &m, k);
						if x.1 {
							break x;
						}
					};
					if let N::T(t) | N::C(t) | N::D(t) = &mut m {
						*t = s;
					}
					log.push_str(&format!("new {};", snap::kind(&m)));
					let b = build_leaf(&mut c.r, &m)?;
					bench.push((m, b));
					changed.push(bench.len() - 1);
				}
				2..=4 => {
					let (m, b) = &mut bench[pick];
					let (s, ok) = some_content(&mut c.r, m, k);
					log.push_str(&format!("set {pick} to {s:?};"));
					set(&mut c.r, b.as_mut(), m, &s, ok)?;
					c.count("content set through a mutable cast", 1);
					changed.push(pick);
				}
				5 => {
					// concatenation
					let texts: Vec<usize> = (0..n).filter(|&i| matches!(bench[i].0, N::T(_))).collect();
					if texts.is_empty() {
						return Ok(());
					}
					let (i, j) = (*c.r.pick(&texts), *c.r.pick(&texts));
					let (a, b) = (bench[i].1.as_text().map_err(|e| e.to_string())?, bench[j].1.as_text().map_err(|e| e.to_string())?);
					let x = a.concat(b);
					let s = match (&bench[i].0, &bench[j].0) {
						(N::T(a), N::T(b)) => format!("{a}{b}"),
						_ => unreachable!(),
					};
					c.count("concatenations", 1);
					log.push_str(&format!("concat {i} {j};"));
					bench.push((N::T(s), x.boxed()));
					changed.extend([i, j, n]);
				}
				6 | 7 => {
					// clones
					let (m, b) = &bench[pick];
					let x: Box<dyn Node> = match c.r.below(3) {
						0 => clone_node(b),
						1 => clone_node(&clone_node(b)),
						_ => match m {
							N::E(_) => b.as_element().map_err(|e| e.to_string())?.clone().boxed(),
							N::T(_) => b.as_text().map_err(|e| e.to_string())?.clone().boxed(),
							N::C(_) => b.as_comment().map_err(|e| e.to_string())?.clone().boxed(),
							N::D(_) => b.as_cdata().map_err(|e| e.to_string())?.clone().boxed(),
						},
					};
					if addr(x.as_ref()) == addr(b.as_ref()) {
						return Err("the clone is the node itself".into());
					}
					let shown = match m {
						N::E(_) => "Element",
						N::T(_) => "Text",
						N::C(_) => "Comment",
						N::D(_) => "CDATA",
					};
					if x.node_type().to_string() != shown {
						return Err(format!("node_type() of {shown} is shown as {}", x.node_type()));
					}
					if DomNodeType::from(clone_node(&x)) != ty(m) {
						return Err("DomNodeType::from(boxed node) is wrong".into());
					}
					c.count("clones", 1);
					log.push_str(&format!("clone {pick};"));
					let m = m.clone();
					bench.push((m, x));
					changed.extend([pick, n]);
				}
				8 | 9 => {
					// into a tree and out again
					if matches!(&bench[pick].0, N::T(t) if t.is_empty()) {
						return Ok(());
					}
					let (mut m, b) = bench.swap_remove(pick);
					let mut host = Element::new_with_children("h", vec![Text::new("x").boxed(), Element::new_from_name("i").map_err(|e| e.to_string())?.boxed()]).map_err(|e| e.to_string())?;
					log.push_str(&format!("move {} through a tree;", snap::kind(&m)));
					let way = c.r.below(4);
					let pos = match way {
						0 => {
							host.append_boxed(b);
							2
						}
						1 => {
							host.append_all(vec![b, Comment::new("z").map_err(|e| e.to_string())?.boxed()]);
							2
						}
						2 => {
							host.append_boxed(b);
							let y = host.remove(2).map_err(|e| e.to_string())?;
							host.append_boxed(y);
							2
						}
						_ => {
							// by value
							host.insert(2, Comment::new("z").map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
							match &m {
								N::E(_) => host.insert(2, b.as_element().map_err(|e| e.to_string())?.clone()),
								N::T(_) => host.insert(2, b.as_text().map_err(|e| e.to_string())?.clone()),
								N::C(_) => host.insert(2, b.as_comment().map_err(|e| e.to_string())?.clone()),
								N::D(_) => host.insert(2, b.as_cdata().map_err(|e| e.to_string())?.clone()),
							}
							.map_err(|e| e.to_string())?;
							2
						}
					};
					// look at it where it stands, and change it there
					{
						let x = host.children().nth(pos).ok_or("the node is not in the tree")?;
						ask(x.as_ref(), &m)?;
						let x = host.all_children().find(|y| y.node_type() == ty(&m) && addr(y.as_ref()) == addr(x.as_ref())).ok_or("all_children does not give the node")?;
						ask(x.as_ref(), &m)?;
					}
					let (s, ok) = some_content(&mut c.r, &m, k);
					{
						let x = host.children_mut().nth(pos).ok_or("children_mut does not give the node")?;
						ask_mut(c, x.as_mut(), &m)?;
						set(&mut c.r, x.as_mut(), &mut m, &s, ok)?;
						ask_mut(c, x.as_mut(), &m)?;
					}
					let y = host.remove(pos).map_err(|e| e.to_string())?;
					c.count("moves through trees", 1);
					bench.push((m, y));
					changed.push(bench.len() - 1);
				}
				10 => {
					// written and parsed again
					let (m, b) = &bench[pick];
					if matches!(m, N::E(_)) || matches!(m, N::T(t) if all_ws(t)) {
						return Ok(());
					}
					let s = format!("<w>{}</w>", b);
					let mut d = kiss_xml::parse_str(s.as_str()).map_err(|e| format!("{} rejected: {e}", show(&s)))?;
					c.count("leaves parsed back", 1);
					log.push_str(&format!("parse {s:?};"));
					let m = m.clone();
					if d.root_element().children().count() != 1 {
						return Err(format!("{} parses to {} children", show(&s), d.root_element().children().count()));
					}
					let y = d.root_element_mut().children_mut().next().ok_or("no child")?;
					ask_mut(c, y.as_mut(), &m)?;
					let z = d.root_element_mut().remove(0).map_err(|e| e.to_string())?;
					bench.push((m, z));
					changed.push(n);
				}
				_ => {
					// dereference as a node and box again
					let (m, b) = &mut bench[pick];
					log.push_str(&format!("deref {pick};"));
					ask(b.as_ref().as_node(), m)?;
					ask_mut(c, b.as_mut().as_node_mut(), m)?;
					let x: Box<dyn Node> = match m {
						N::E(_) => {
							let e: &Element = b.as_element().map_err(|e| e.to_string())?;
							ask(e, m)?;
							Box::new(e.clone())
						}
						N::T(_) => {
							let e: &Text = b.as_text().map_err(|e| e.to_string())?;
							ask(e, m)?;
							Box::new(e.clone())
						}
						N::C(_) => {
							let e: &Comment = b.as_comment().map_err(|e| e.to_string())?;
							ask(e, m)?;
							Box::new(e.clone())
						}
						N::D(_) => {
							let e: &CData = b.as_cdata().map_err(|e| e.to_string())?;
							ask(e, m)?;
							Box::new(e.clone())
						}
					};
					*b = x;
					changed.push(pick);
				}
			}
			Ok(())
		})();
		res.map_err(|e| fail("inconsistent", e, &log))?;
		for i in changed {
			if let Some((m, b)) = bench.get_mut(i) {
				ask_mut(c, b.as_mut(), m).map_err(|e| fail("inconsistent", e, &log))?;
			}
		}
	}
	for (m, b) in bench.iter_mut() {
		ask_mut(c, b.as_mut(), m).map_err(|e| fail("inconsistent", format!("at the end: {e}"), &log))?;
	}
	c.sample(|| log.clone());
	c.nontrivial(log.as_bytes());
	Ok(())
}
