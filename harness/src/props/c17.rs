//! Positions in syntax errors.
use super::{c03, fail};
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::runner::*;
use crate::surface::{self, Style};

/// one case in so many has an enormous dimension
const HUGE_PERIOD: u64 = 19607;

pub static PROP: Prop = Prop {
	id: "C17",
	rule: "a well-formed document, preceded by a prolog and content with many lines, multi-byte characters, comments, CDATA and quoted markup, gets one defective tag at a place known by construction; the line and column in the error must be those of its <, counted independently; non-trivial: a distinct text whose defect lies after the first line or after a multi-byte character",
	quick: 1000000,
	thorough: 10000000,
	shards: 8,
	floors: &[("positions checked", 600), ("after the first line", 300), ("after multi-byte characters", 100), ("with CRLF line ends", 20), ("before the root ended", 400), ("after the root", 15)],
	run,
	probes: &[],
};

/// all "line N, column M" of a message
pub fn positions(msg: &str) -> Vec<(usize, usize)> {
	let mut v = Vec::new();
	let low = msg.to_lowercase();
	let mut rest = low.as_str();
	while let Some(i) = rest.find("line ") {
		rest = &rest[i + 5..];
		let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
		if d.is_empty() {
			continue;
		}
		let t = &rest[d.len()..];
		let t = match t.strip_prefix(", column ").or_else(|| t.strip_prefix(" column ")) {
			Some(t) => t,
			None => continue,
		};
		let e: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
		if let (Ok(a), Ok(b)) = (d.parse(), e.parse()) {
			v.push((a, b));
		}
	}
	v
}

fn expected(s: &str, pos: usize) -> (usize, usize) {
	let before = &s.as_bytes()[..pos];
	let line = 1 + before.iter().filter(|b| **b == b'\n').count();
	let start = before.iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
	// a character is a byte that does not continue one
	let col = 1 + before[start..].iter().filter(|b| **b & 0xC0 != 0x80).count();
	(line, col)
}

fn run(c: &mut Ctx) -> R {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.strict_comments = true;
	let huge = c.huge(HUGE_PERIOD);
	c.count("enormous documents", huge.is_some() as u64);
	let size = if let Some(h) = huge { h } else if c.r.chance(1, 200) && !c.asan { *c.r.pick(&[Size::Wide, Size::Medium, Size::Long, Size::Deep]) } else { *c.r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Ns]) };
	let mut m = gen::doc(&mut c.r, &cfg, size);
	// a preamble inside the root
	if c.r.chance(2, 3) {
		let mut pre: Vec<N> = Vec::new();
		for _ in 0..c.r.range(1, 4) {
			pre.push(match c.r.below(5) {
				4 => N::T(c.r.pick(&["a\rb", "\r\rx", "x\n\ry", "é\r", "a\u{b}\u{c}\u{1}b", "\u{85}x\u{2028}", "a\u{300}\u{200d}b", "🇩🇪👩\u{200d}👧", "\u{feff}x", "\u{7f}x\0"]).to_string()),
				0 => N::C(c.r.pick(&["\n\n", " <b\n> ", "'", "\"\n", "é\n漢🦀", "</a>\n", "x"]).to_string()),
				1 => N::D(c.r.pick(&["<b>\n</c>", "]]\n>", "é漢\n🦀", "\"\n'", "<!--", "]", "\n"]).to_string()),
				2 => {
					let mut e = El::new("pre");
					e.attrs.insert("k".into(), c.r.pick(&["a\nb", ">\n", "/>", "é漢🦀", "</x>", "'\"\n", ""]).to_string());
					if c.r.chance(1, 2) {
						e.ch.push(N::T(c.r.pick(&["line\nline\n", "é\u{2028}\u{85}\u{0b}".trim_end_matches('\u{0b}'), "🦀\t", "\"", "e\u{301}\u{feff}"]).to_string()));
					}
					N::E(e)
				}
				_ => {
					let n = c.r.range(0, 20);
					N::T(format!("t{}\u{2029}\u{a0}é", "\n".repeat(n)))
				}
			});
		}
		pre.extend(m.root.ch.drain(..));
		m.root.ch = pre;
		norm_children(&mut m.root.ch);
	}
	let mut st = Style::random(&mut c.r);
	st.plain = true;
	if c.r.chance(1, 2) {
		st.indent = 60;
	}
	let (s, marks) = surface::write_doc(&mut c.r, &m, st);
	let mut b = None;
	for _ in 0..8 {
		let cl = c.r.below(c03::CLASSES);
		b = c03::inject(&mut c.r, &s, &marks, cl);
		if matches!(&b, Some(x) if x.pos.is_some()) {
			break;
		}
	}
	let (mut text, mut pos, class) = match b {
		Some(c03::Bad { class, text, pos: Some(p) }) => (text, p, class),
		_ => return Ok(()),
	};
	if text.as_bytes().get(pos) != Some(&b'<') {
		return Err(fail("harness", format!("no < at the place of the defect ({class})"), &text));
	}
	if c.r.chance(1, 8) && !text.contains('\r') {
		let (a, z) = (text[..pos].replace('\n', "\r\n"), text[pos..].replace('\n', "\r\n"));
		pos = a.len();
		text = a + &z;
		c.count("with CRLF line ends", 1);
	}
	let want = expected(&text, pos);
	let e = match guard(|| kiss_xml::parse_str(text.as_str())).map_err(|p| fail("panic", p, &text))? {
		Ok(_) => {
			// another property's concern
			c.count("accepted", 1);
			return Ok(());
		}
		Err(e) => e.to_string(),
	};
	c.sample(|| format!("{class}: {e}\n{text}"));
	c.count("positions checked", 1);
	if want.0 > 1 {
		c.count("after the first line", 1);
	}
	if pos < marks[0].end {
		c.count("before the root ended", 1);
	} else {
		c.count("after the root", 1);
	}
	let multi = text[..pos].bytes().any(|b| b >= 0x80);
	if multi {
		c.count("after multi-byte characters", 1);
	}
	if multi || want.0 > 1 {
		c.nontrivial(text.as_bytes());
	}
	judge(&e, want, class, &text)?;
	// the same again with other line ends in front of it: everything else stays in its place
	if c.r.chance(1, 6) && text.len() < 20_000 {
		let mut t = text.clone().into_bytes();
		let (p, q) = (*c.r.pick(&[0usize, 1, 2, 3]), *c.r.pick(&[b' ', b'\t']));
		let mut n = 0;
		for b in t[..pos].iter_mut().filter(|b| **b == b'\n') {
			n += 1;
			if n % 4 >= p {
				*b = q;
			}
		}
		let t = String::from_utf8(t).unwrap();
		if t != text {
			let w = expected(&t, pos);
			if let Err(e) = guard(|| kiss_xml::parse_str(t.as_str())).map_err(|p| fail("panic", p, &t))? {
				c.count("texts alike checked one after the other", 1);
				judge(&e.to_string(), w, class, &t)?;
			}
		}
	}
	Ok(())
}

fn judge(e: &str, want: (usize, usize), class: &str, text: &str) -> R {
	let got = positions(e);
	if got.is_empty() {
		return Err(fail("no-position", format!("the error for a defective tag ({class}) at line {}, column {} gives no position: {e}", want.0, want.1), text));
	}
	if got.iter().any(|p| *p != want) {
		return Err(fail("position", format!("the defective tag ({class}) is at line {}, column {} but the error says: {e}", want.0, want.1), text));
	}
	Ok(())
}
