//! Malformed documents are rejected.
use super::{fail, mutate};
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::refparse::{self, No};
use crate::rng::Rng;
use crate::runner::*;
use crate::surface::{self, Mark};

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 11764;

pub static PROP: Prop = Prop {
	id: "C03",
	rule: "a well-formed document gets exactly one defect of a listed class at a random place (known by construction), or random mutations judged by the reference parser; the library must return an error; non-trivial: a distinct defective text whose undamaged form the library accepts",
	quick: 600000,
	thorough: 8000000,
	shards: 8,
	floors: &[("defects injected", 500), ("defects rejected", 500), ("mutants definitely malformed", 200), ("undamaged form accepted", 400)],
	run,
	probes: &[],
};

/// class, damaged text, position of the offending markup if it is one the error must name
pub struct Bad {
	pub class: &'static str,
	pub text: String,
	pub pos: Option<usize>,
}

pub const CLASSES: usize = 34;

fn without(s: &str, t: &str) -> String {
	let mut s = s.to_string();
	while s.contains(t) {
		s = s.replace(t, "");
	}
	s
}

fn ins(s: &str, at: usize, t: &str) -> String {
	format!("{}{}{}", &s[..at], t, &s[at..])
}

/// places where markup may be inserted as content: right after open tags, before closing tags
fn content_spots(marks: &[Mark]) -> Vec<usize> {
	let mut v = Vec::new();
	for m in marks {
		if let Some(c) = m.close {
			v.push(m.open_end);
			v.push(c);
		}
	}
	for m in marks {
		if m.depth > 0 {
			v.push(m.open);
			v.push(m.end);
		}
	}
	v
}

/// a spot in an open tag where an attribute can stand: just before its end
fn attr_spot(s: &str, m: &Mark) -> usize {
	let t = &s[m.open..m.open_end];
	let t = t.strip_suffix("/>").or_else(|| t.strip_suffix('>')).unwrap_or(t);
	m.open + t.trim_end_matches(is_ws).len()
}

pub fn inject(r: &mut Rng, s: &str, marks: &[Mark], class: usize) -> Option<Bad> {
	let root = &marks[0];
	let any = r.pick(marks).clone();
	let pairs: Vec<&Mark> = marks.iter().filter(|m| m.close.is_some()).collect();
	let spots = content_spots(marks);
	let bad = |class: &'static str, text: String, pos: Option<usize>| Some(Bad { class, text, pos });
	match class {
		0 => {
			// no root at all
			let mut t = s[..root.open].to_string();
			if r.chance(1, 3) {
				t.push_str(r.pick(&["\n", " ", "<!--x-->", ""]));
			}
			bad("missing root", t, None)
		}
		1 => {
			// a closing tag removed
			let m = *pairs.get(r.below(pairs.len().max(1)))?;
			let c = m.close?;
			bad("closing tag removed", format!("{}{}", &s[..c], &s[m.end..]), None)
		}
		2 => {
			// closing tag renamed
			let m = *pairs.get(r.below(pairs.len().max(1)))?;
			let c = m.close?;
			let other = match r.below(6) {
				0 => format!("{}x", m.tag),
				1 => {
					let mut t = m.tag.clone();
					t.pop();
					if t.is_empty() || !valid_name(&t) { "zz".into() } else { t }
				}
				2 => {
					if m.tag.to_uppercase() != m.tag { m.tag.to_uppercase() } else { m.tag.to_lowercase() }
				}
				3 => m.tag.rsplit(':').next().unwrap_or("q").to_string(),
				4 => format!("p:{}", m.tag),
				_ => gen::name(r),
			};
			if other == m.tag || other.is_empty() {
				return None;
			}
			bad("mismatched closing tag", format!("{}</{}>{}", &s[..c], other, &s[m.end..]), Some(c))
		}
		3 => {
			// two closing tags swapped: overlapping elements
			let m = *pairs.get(r.below(pairs.len().max(1)))?;
			let inner: Vec<&&Mark> = pairs.iter().filter(|x| x.open > m.open && x.end <= m.close.unwrap() && x.tag != m.tag).collect();
			let x = **inner.get(r.below(inner.len().max(1)))?;
			let (xc, mc) = (x.close?, m.close?);
			let t = format!("{}</{}>{}</{}>{}", &s[..xc], m.tag, &s[x.end..mc], x.tag, &s[m.end..]);
			bad("overlapping elements", t, Some(xc))
		}
		4 => {
			// surplus closing tag inside
			let at = *spots.get(r.below(spots.len().max(1)))?;
			let name = gen::name(r);
			// the surplus tag itself is the first that does not match, unless it has the name of the element it stands in
			let here = marks.iter().filter(|m| m.open_end <= at && m.close.map(|c| at <= c).unwrap_or(false)).max_by_key(|m| m.open);
			let pos = match here {
				Some(m) if m.tag != name => Some(at),
				_ => None,
			};
			bad("surplus closing tag", ins(s, at, &format!("</{name}>")), pos)
		}
		5 => {
			let gap = r.pick(&["", "\n", " ", "<!-- é\n -->", "\n\n\t"]);
			bad("closing tag after root", ins(s, root.end, &format!("{gap}</{}>", r.pick(&[root.tag.as_str(), "a"]))), Some(root.end + gap.len()))
		}
		6 => bad("closing tag before root", ins(s, root.open, &format!("</{}>", r.pick(&[root.tag.as_str(), "a"]))), Some(root.open)),
		7 => {
			// second root
			let gap = r.pick(&["", "\n", "<!-- c -->", "  "]).to_string();
			let odd = *r.pick(&["</", "</b>", "<!--", "-->", "<![CDATA[", "<?", "?>", "<!DOCTYPE", "/>", ">", "<", "xmlns=''"]);
			let e = match r.below(8) {
				5 => format!("<b k=\"{odd}\">t</b>"),
				6 => format!("<b k=\"{odd}\"/>"),
				7 => format!("<b k=\"{odd}\">"),
				0 => s[root.open..root.end].to_string(),
				1 => "<b/>".to_string(),
				2 => "<b>t</b>".to_string(),
				3 => "<b".to_string() + " x='1'></b>",
				_ => "<b>".to_string(),
			};
			let pos = root.end + gap.len();
			bad("second root", ins(s, root.end, &(gap + &e)), Some(pos))
		}
		8 | 9 | 10 => {
			// text outside the root
			let t = match r.below(11) {
				7 => r.pick(&["\u{feff}", "\u{feff}", "\u{200b}", "\u{85}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{2003}", "\u{1680}", "\u{180e}", "\u{b}", "\u{c}", "\0", "\u{1}", "\u{1c}", "\u{1f}", "\u{7f}", "\u{9f}", "\u{2060}", "\u{fffe}", "\u{ad}"]).to_string(),
				8 => format!("{}{}{}", r.pick(&["", " ", "\n", "\t\r\n"]), r.pick(&["\u{feff}", "-", ";", "\u{a0}", "\u{85}", "\u{c}", "\0", "0", "'", "\"", "="]), r.pick(&["", " ", "\n"])),
				9 => "\u{feff}".repeat(r.range(1, 3)),
				0 => "x".to_string(),
				1 => "\u{a0}".to_string(),
				2 => "&amp;".to_string(),
				3 => " é ".to_string(),
				4 => ">".to_string(),
				5 => "]]>".to_string(),
				6 => "/>".to_string(),
				_ => {
					let t: String = gen::real_text(r, Chars::Plain).chars().filter(|c| !"<&".contains(*c) && !c.is_control() && *c != '\u{feff}').collect();
					if all_ws(&t) { "q".into() } else { t }
				}
			};
			let (cl, at) = match class {
				8 => ("text before root", root.open),
				9 => ("text after root", root.end),
				_ => ("text at the very end", s.len()),
			};
			// a leading byte order mark is no text: make sure there is one already
			let feff = t.starts_with('\u{feff}');
			if feff && class == 8 && at == 0 {
				return bad(cl, format!("\u{feff}{t}{s}"), None);
			}
			if class == 8 && r.chance(1, 4) {
				// before everything else
				let (b, rest) = match s.strip_prefix('\u{feff}') {
					Some(x) => ("\u{feff}", x),
					None => ("", s),
				};
				let b = if feff { "\u{feff}" } else { b };
				return bad(cl, format!("{b}{t}{rest}"), None);
			}
			bad(cl, ins(s, at, &t), None)
		}
		11 => {
			// unterminated last tag: everything from some > on removed
			let k = r.below(3);
			let (at, pos) = match k {
				0 => (root.open_end, root.open),
				1 => (any.open_end, any.open),
				_ => match any.close {
					Some(c) => (any.end, c),
					None => (any.end, any.open),
				},
			};
			// cut within the tag
			let mut cut = at - 1 - r.below((at - 1 - pos).max(1).min(20));
			while !s.is_char_boundary(cut) {
				cut -= 1;
			}
			if cut <= pos {
				return None;
			}
			bad("unterminated tag", s[..cut].to_string(), Some(pos))
		}
		12 => {
			// unterminated comment
			let at = *spots.get(r.below(spots.len().max(1)))?;
			let mut t = format!("{}<!-- {}", &s[..at], s[at..].replace("-->", "--"));
			if t[at..].contains("-->") {
				t.truncate(at + 5);
			}
			bad("unterminated comment", t, Some(at))
		}
		13 => {
			// comments whose delimiters overlap
			let at = *spots.get(r.below(spots.len().max(1)))?;
			let rest = s[at..].replace("-->", "--");
			if rest.contains("-->") {
				return None;
			}
			bad("overlapping comment delimiters", format!("{}{}{}", &s[..at], r.pick(&["<!-->", "<!--->"]), rest), Some(at))
		}
		14 => {
			let at = *spots.get(r.below(spots.len().max(1)))?;
			let t = format!("{}<![CDATA[{}", &s[..at], without(&s[at..], "]]>"));
			bad("unterminated CDATA", t, Some(at))
		}
		15 => {
			// unterminated declaration
			if s.starts_with("<?") || s.starts_with('\u{feff}') {
				let e = s.find("?>")?;
				let t = format!("{}{}", &s[..e], without(&s[e + 2..], "?>"));
				return bad("unterminated declaration", t, Some(0));
			}
			bad("unterminated declaration", format!("<?xml version=\"1.0\"{}", without(s, "?>")), Some(0))
		}
		16 => {
			// unterminated DTD
			let t = *r.pick(&["<!DOCTYPE a [ <!ENTITY b 'c'> ]", "<!DOCTYPE a", "<!DOCTYPE a [", "<!DOCTYPE a SYSTEM 'x'"]);
			if s[root.open..].contains(['>', '<']) {
				// the rest must not close it: drop it
				return bad("unterminated DTD", format!("{}{}", &s[..root.open], t), Some(root.open));
			}
			None
		}
		17 => {
			// declaration not first
			let (at, _) = match r.below(3) {
				0 => (root.open, ()),
				1 => (root.end, ()),
				_ => (*spots.get(r.below(spots.len().max(1)))?, ()),
			};
			let mut t = ins(s, at, "<?xml version=\"1.0\"?>");
			let mut pos = at;
			if at == root.open {
				let before = r.pick(&["<!-- c -->", "<?pi x?>", "<!DOCTYPE a>"]);
				t.insert_str(at, before);
				pos += before.len();
			}
			bad("declaration after other markup", t, Some(pos))
		}
		18 => {
			// attribute twice
			let at = attr_spot(s, &any);
			let k = gen::name(r);
			let v = |r: &mut Rng| r.pick(&["\"1\"", "'2'", "\"\"", "'a b'"]).to_string();
			let a = format!(" {k}={} {k}={}", v(r), v(r));
			let a = if r.chance(1, 3) { format!(" {k}={} other{k}='x' {k} = {}", v(r), v(r)) } else { a };
			bad("repeated attribute", ins(s, at, &a), Some(any.open))
		}
		19 => {
			let at = attr_spot(s, &any);
			let k = gen::name(r);
			let a = match r.below(5) {
				0 => format!(" {k}"),
				1 => format!(" {k}="),
				2 => format!(" {k} ="),
				3 => format!(" zz='1' {k}"),
				_ => format!(" {k} zz='1'"),
			};
			bad("attribute without value", ins(s, at, &a), Some(any.open))
		}
		20 => {
			let at = attr_spot(s, &any);
			let k = gen::name(r);
			let v = *r.pick(&["1", "abc", "a'b'", "\u{201c}x\u{201d}", "x\"y\"", "`x`", "é"]);
			bad("unquoted value", ins(s, at, &format!(" {k}={v}")), Some(any.open))
		}
		21 => {
			let at = attr_spot(s, &any);
			let k = gen::name(r);
			let (a, b) = (r.pick(&["\"1\"", "'2'", "\"\""]), r.pick(&["\"1\"", "'2'"]));
			bad("attributes not separated", ins(s, at, &format!(" u{k}={a}v{k}={b}")), Some(any.open))
		}
		22 => {
			// invalid element name
			let at = *spots.get(r.below(spots.len().max(1)))?;
			let n = *r.pick(&["1", "-a", ".x", "1a", "a$", "a!", "a#b", "a@", "a+b", "\u{b7}a", "\u{300}", "a\u{d7}b", "\u{37e}", "a(b)", "%", "a,b", "*", "a{b}", "☼", "a&b", "a;b", "a~", "a^b", "🦀".trim_matches('🦀'), "x\u{2028}y".trim_matches('x')]);
			if n.is_empty() {
				return None;
			}
			let t = match r.below(2) {
				0 => format!("<{n}/>"),
				_ => format!("<{n}></{n}>"),
			};
			if n.chars().any(|c| c.is_whitespace()) {
				return None;
			}
			bad("invalid element name", ins(s, at, &t), Some(at))
		}
		23 => {
			let at = attr_spot(s, &any);
			let n = *r.pick(&["1", "-a", ".x", "1a", "a$", "a!", "a#b", "a@", "\u{b7}a", "a\u{d7}b", "a(b)", "%", "*", "☼", "a&b", "a;", "{x}"]);
			bad("invalid attribute name", ins(s, at, &format!(" {n}=\"v\"")), Some(any.open))
		}
		24 => {
			let at = *spots.get(r.below(spots.len().max(1)))?;
			bad("empty tag", ins(s, at, r.pick(&["<>", "</>", "< >", "<\n>", "< / >", "<//>"])), Some(at))
		}
		25 => {
			// undeclared prefix on the root: rename its tags
			let mut t = s.to_string();
			let local = root.tag.rsplit(':').next()?.to_string();
			let newtag = format!("zq:{local}");
			if let Some(cl) = root.close {
				let e = root.end;
				t.replace_range(cl..e, &format!("</{newtag}>"));
			}
			t.replace_range(root.open + 1..root.open + 1 + root.tag.len(), &newtag);
			bad("undeclared root prefix", t, Some(root.open))
		}
		26 => {
			let at = *spots.get(r.below(spots.len().max(1)))?;
			bad("markup declaration inside root", ins(s, at, r.pick(&["<!DOCTYPE a>", "<!ELEMENT a ANY>", "<!ENTITY a 'b'>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "<!ATTLIST a b CDATA #IMPLIED>"])), Some(at))
		}
		27 => {
			// stray characters in a tag
			let at = attr_spot(s, &any);
			bad("stray character in tag", ins(s, at, r.pick(&[" /x", " =", " \"x\"", " 'x'", " ,", " = \"x\"", " / ", " k='v'/z", " k='v',", " k='v';", " k=='v'", " k='v'\"", " k=\"v\"\""])), Some(any.open))
		}
		28 => {
			// closing tag with attributes or slash
			let m = *pairs.get(r.below(pairs.len().max(1)))?;
			let c = m.close?;
			let t = match r.below(4) {
				0 => format!("</{} a='b'>", m.tag),
				1 => format!("</{}/>", m.tag),
				2 => format!("</ {}>", m.tag),
				_ => format!("</{} x>", m.tag),
			};
			bad("malformed closing tag", format!("{}{}{}", &s[..c], t, &s[m.end..]), Some(c))
		}
		29 => {
			// space before the name
			let m = &any;
			bad("space before name", ins(s, m.open + 1, r.pick(&[" ", "\n", "\t"])), Some(m.open))
		}
		30 => {
			// open tag without end: a '<' follows inside the tag
			let m = &any;
			let at = attr_spot(s, m);
			bad("open tag runs into the next", ins(s, at, r.pick(&["<b", " <", "<", " <!-- x -->"])), Some(m.open))
		}
		31 => {
			// only prolog material
			let t = *r.pick(&["", " ", "\n\n", "<?xml version=\"1.0\"?>", "<!-- -->", "<?xml version='1.0'?>\n<!DOCTYPE a>\n", "text", "\u{feff}", "\t<!---->\t", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "&lt;a/&gt;"]);
			bad("missing root", t.to_string(), None)
		}
		32 => {
			// an element left open at the very end
			let at = *spots.get(r.below(spots.len().max(1)))?;
			bad("unclosed element", ins(s, at, &format!("<{}>", gen::name(r))), None)
		}
		_ => {
			// quote of an attribute value removed
			let t = &s[any.open..any.open_end];
			let q: Vec<usize> = t.match_indices(['"', '\'']).map(|x| x.0).collect();
			if q.is_empty() {
				return None;
			}
			let k = any.open + *r.pick(&q);
			let mut u = s.to_string();
			u.remove(k);
			// may by accident be well-formed: ask the reference parser
			match refparse::parse(&u) {
				Err(No::Reject(_)) => bad("quote removed", u, None),
				_ => None,
			}
		}
	}
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.strict_comments = true;
	cfg.declared = true;
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let size = huge.unwrap_or(gen::pick_size(&mut c.r, if c.asan { 0 } else { 6 }));
	let m = gen::doc(&mut c.r, &cfg, size);
	let st = surface::Style::random(&mut c.r);
	let (s, marks) = surface::write_doc(&mut c.r, &m, st);
	if c.r.chance(3, 5) {
		// one known defect
		let mut b = None;
		for _ in 0..6 {
			let cl = c.r.below(CLASSES);
			b = inject(&mut c.r, &s, &marks, cl);
			if b.is_some() {
				break;
			}
		}
		let b = match b {
			None => return Ok(()),
			Some(b) => b,
		};
		// agree with the reference parser (Unspecified is allowed for classes it does not judge)
		if let Ok(_) = refparse::parse(&b.text) {
			return Err(fail("harness", format!("reference parser accepts an injected defect: {}", b.class), &b.text));
		}
		c.count("defects injected", 1);
		if guard(|| kiss_xml::parse_str(s.as_str()).is_ok()).unwrap_or(false) {
			c.count("undamaged form accepted", 1);
			c.nontrivial(b.text.as_bytes());
		}
		c.sample(|| format!("{}: {}", b.class, b.text));
		match guard(|| kiss_xml::parse_str(b.text.as_str())) {
			Err(p) => return Err(fail("panic", p, &b.text)),
			Ok(Ok(d)) => return Err(fail("accepted", format!("malformed document accepted ({}): parsed as {}", b.class, show(&d.to_string())), &b.text)),
			Ok(Err(_)) => c.count("defects rejected", 1),
		}
		return Ok(());
	}
	for _ in 0..4 {
		let mut t = s.clone();
		mutate::mutate(&mut c.r, &mut t);
		match refparse::parse(&t) {
			Err(No::Reject(w)) => {
				c.count("mutants definitely malformed", 1);
				c.nontrivial(t.as_bytes());
				match guard(|| kiss_xml::parse_str(t.as_str())) {
					Err(p) => return Err(fail("panic", p, &t)),
					Ok(Ok(d)) => return Err(fail("accepted", format!("malformed document accepted ({w}): parsed as {}", show(&d.to_string())), &t)),
					Ok(Err(_)) => {}
				}
			}
			Err(No::Unspec(_)) => c.count("mutants not judged", 1),
			Ok(_) => c.count("mutants well-formed", 1),
		}
	}
	Ok(())
}
