//! Escape laws against an own decoder.
use super::fail;
use crate::gen::{self, Chars};
use crate::model::*;
use crate::refser;
use crate::runner::*;

pub static PROP: Prop = Prop {
	id: "C06",
	rule: "strings (reference soups, hostile text, every code point in five written forms) are escaped and unescaped and compared with an own escaper and an own one-pass decoder; non-trivial: a distinct string containing one of & < > ' \" or ;",
	quick: 300000,
	thorough: 4000000,
	shards: 8,
	floors: &[("strings checked", 2000), ("references decoded", 1000), ("references left alone", 500), ("code points in every form", 50)],
	run,
	probes: &[],
};

/// one left-to-right pass; counts (decoded, left)
pub fn decode(s: &str, n: &mut (u64, u64)) -> String {
	let v: Vec<char> = s.chars().collect();
	let mut o = String::with_capacity(s.len());
	let mut i = 0;
	while i < v.len() {
		if v[i] != '&' {
			o.push(v[i]);
			i += 1;
			continue;
		}
		// candidate: up to the first ; with no & between
		let mut j = i + 1;
		while j < v.len() && v[j] != ';' && v[j] != '&' {
			j += 1;
		}
		let mut done = false;
		if j < v.len() && v[j] == ';' {
			let body: String = v[i + 1..j].iter().collect();
			let c = match body.as_str() {
				"amp" => Some('&'),
				"lt" => Some('<'),
				"gt" => Some('>'),
				"apos" => Some('\''),
				"quot" => Some('"'),
				_ => body.strip_prefix('#').and_then(|d| {
					let (d, radix) = if let Some(h) = d.strip_prefix('x') {
						(h, 16)
					} else if d.chars().any(|c| "abcdefABCDEF".contains(c)) {
						(d, 16)
					} else {
						(d, 10)
					};
					if d.is_empty() {
						return None;
					}
					let mut x: u64 = 0;
					for c in d.chars() {
						x = x.saturating_mul(radix as u64).saturating_add(c.to_digit(radix)? as u64);
					}
					if x > 0x10FFFF { None } else { char::from_u32(x as u32) }
				}),
			};
			if let Some(c) = c {
				o.push(c);
				i = j + 1;
				n.0 += 1;
				done = true;
			} else {
				n.1 += 1;
			}
		}
		if !done {
			o.push('&');
			i += 1;
		}
	}
	o
}

fn check(c: &mut Ctx, s: &str) -> R {
	c.count("strings checked", 1);
	if s.contains(['&', '<', '>', '\'', '"', ';']) {
		c.nontrivial(s.as_bytes());
	}
	let g = |name: &str, f: &dyn Fn() -> String| guard(|| f()).map_err(|p| fail("panic", format!("{name} {p}"), s));
	let e = g("escape", &|| kiss_xml::escape(s))?;
	let a = g("attribute_escape", &|| kiss_xml::attribute_escape(s))?;
	let t = g("text_escape", &|| kiss_xml::text_escape(s))?;
	let all = refser::esc_all(s);
	let txt = refser::esc_text(s);
	if e != all {
		return Err(fail("escape", format!("escape gives {} instead of {}", show(&e), show(&all)), s));
	}
	if a != all {
		return Err(fail("escape", format!("attribute_escape gives {} instead of {}", show(&a), show(&all)), s));
	}
	if t != txt {
		return Err(fail("escape", format!("text_escape gives {} instead of {}", show(&t), show(&txt)), s));
	}
	for (name, x) in [("escape", &e), ("attribute_escape", &a), ("text_escape", &t)] {
		let u = g("unescape", &|| kiss_xml::unescape(x.as_str()))?;
		if u != s {
			return Err(fail("inverse", format!("unescape({name}(s)) is {}", show(&u)), s));
		}
	}
	let mut n = (0, 0);
	let want = decode(s, &mut n);
	c.count("references decoded", n.0);
	c.count("references left alone", n.1);
	let u = g("unescape", &|| kiss_xml::unescape(s))?;
	if u != want {
		return Err(fail("unescape", format!("unescape gives {} instead of {}", show(&u), show(&want)), s));
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	const BLOCK: u64 = 2048;
	const BLOCKS: u64 = 0x110000 / BLOCK;
	if c.idx % 100 == 0 && c.idx / 100 < BLOCKS && !c.asan {
		let b = c.idx / 100;
		for u in b * BLOCK..(b + 1) * BLOCK {
			let ch = match char::from_u32(u as u32) {
				None => {
					// not a character: left alone
					for s in [format!("&#{u};"), format!("&#x{u:x};")] {
						if kiss_xml::unescape(s.as_str()) != s {
							return Err(fail("unescape", "a reference to a surrogate is decoded", &s));
						}
					}
					continue;
				}
				Some(ch) => ch,
			};
			c.count("code points in every form", 1);
			for s in [format!("&#{u};"), format!("&#x{u:x};"), format!("&#x{u:X};"), format!("&#000{u};"), format!("a&#x0{u:x};b")] {
				let got = kiss_xml::unescape(s.as_str());
				let want = if s.starts_with('a') { format!("a{ch}b") } else { ch.to_string() };
				if got != want {
					return Err(fail("unescape", format!("unescape gives {} instead of {}", show(&got), show(&want)), &s));
				}
			}
			let lit = format!("{ch}&{ch};&amp{ch};");
			check(c, &lit)?;
		}
		return Ok(());
	}
	for _ in 0..4 {
		let s = match c.r.below(6) {
			0 => gen::text(&mut c.r, Chars::Any),
			1 => {
				let mut s = String::new();
				for _ in 0..c.r.range(1, 16) {
					s.push_str(c.r.pick(&["&", "#", "x", "X", ";", "&amp;", "&#", "&#x", "41", "fff", "é", "🦀", "10FFFF", "110000", "d800", "-", "+1", " ", "lt", "&lt", "&lt;", "&gt;", "0", "00000000000000000041", "4294967361", "18446744073709551681", "quot;", "A", "&apos;", "&quot;", "&AMP;", "&Lt;", "٣", "&#１;", "_", "1e1", "&#65;", "&#9;", "\u{0}"]));
				}
				s
			}
			2 => {
				// a reference with a random body
				let mut b = String::new();
				for _ in 0..c.r.range(0, 9) {
					b.push(*c.r.pick(&['0', '1', '9', 'a', 'F', 'x', 'g', ' ', '-', '#', 'é', '5', '6', '3', 'A', 'X', '.', '_', '+', '\t']));
				}
				format!("{}&{}{};{}", c.r.pick(&["", "a", "é", "&", "🦀"]), c.r.pick(&["", "#", "#x", "#X"]), b, c.r.pick(&["", ";", "&amp;", "é"]))
			}
			3 => {
				// escaped several times
				let mut s = gen::text(&mut c.r, Chars::Legal);
				for _ in 0..c.r.range(1, 4) {
					s = match c.r.below(3) {
						0 => refser::esc_all(&s),
						1 => refser::esc_text(&s),
						_ => s.replace('&', "&#38;"),
					};
				}
				s
			}
			4 => {
				let n = c.r.range(1, if c.idx % 50 == 3 && !c.asan { 20_000 } else { 60 });
				c.r.pick(&["&", "&amp;", "&#x26;", "&#38;amp;", "&;", ";", "<", "\"", "&&amp;;", "é&"]).repeat(n)
			}
			_ => {
				let k = *c.r.pick(&["amp", "lt", "gt", "apos", "quot", "nbsp", "AMP", "Lt", "amp ", " amp", "am", "ampp", "#38", "#x26", "#X26"]);
				format!("&{k};{}&{k}{}", c.r.pick(&["", "x", ";", "é"]), c.r.pick(&["", " ;", "é;", "&"]))
			}
		};
		c.sample(|| s.clone());
		check(c, &s)?;
	}
	Ok(())
}
