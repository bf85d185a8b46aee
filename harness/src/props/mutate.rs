//! Hostile mutations of XML text and token soups.
use crate::gen::{self, Chars};
use crate::rng::Rng;

pub const TOKENS: &[&str] = &[
	"<", ">", "</", "/>", "<a", "<a>", "</a>", "<a/>", "<b>", "</b>", "<root>", "</root>", "\"", "'", "=", "a=\"b\"", " a='b'", " x", "<!--", "-->", "--", "->", "<!-->", "<!--->", "<!---->", "<![CDATA[", "]]>", "]]", "<!DOCTYPE a", "<!DOCTYPE",
	"<!", "<?", "?>", "<?xml", "<?xml version=\"1.0\"?>", "<?xml?>", "<?>", "<? ?>", "[", "]", "<!ENTITY x \"y\">", "&", "&amp;", "&#x41;", "&#", "&#x", "&lt", ";", " ", "\n", "\t", "\r", "\u{a0}", "\u{85}", "é", "☼", "🦀", "\u{feff}", "\0", "x:", ":x", "<x:y>", "xmlns=\"u\"", "xmlns:x=\"u\"",
	"<p:a xmlns:p=\"u\">", "</p:a>", "text", "<1>", "<->", "<a b>", "<a b=>", "<a b=c>", "<a =\"b\">", "<é>", "</é>", "<a\u{a0}b=\"c\">", "\"'", "'\"", "/", "//", "<//>", "< >", "<>", "</>", "<a//>", "<a / >",
];

pub fn soup(r: &mut Rng, n: usize) -> String {
	let mut s = String::new();
	for _ in 0..n {
		match r.below(8) {
			0 => s.push_str(&gen::text_n(r, Chars::Any, 1)),
			1 => s.push_str(&gen::name(r)),
			_ => s.push_str(r.pick(TOKENS)),
		}
	}
	s
}

fn boundary(r: &mut Rng, s: &str) -> usize {
	let mut i = r.below(s.len() + 1);
	while !s.is_char_boundary(i) {
		i -= 1;
	}
	i
}

/// one random change
pub fn once(r: &mut Rng, s: &mut String) {
	if s.is_empty() {
		s.push_str(r.pick(TOKENS));
		return;
	}
	match r.below(10) {
		0 | 1 => {
			// delete one character, preferably markup
			let marks: Vec<usize> = s.char_indices().filter(|(_, c)| "<>/='\"!-?[]&;".contains(*c)).map(|x| x.0).collect();
			if !marks.is_empty() && r.chance(3, 4) {
				let i = *r.pick(&marks);
				s.remove(i);
			} else {
				let i = boundary(r, s);
				if i < s.len() {
					s.remove(i);
				}
			}
		}
		2 | 3 => {
			let i = boundary(r, s);
			s.insert_str(i, r.pick(TOKENS));
		}
		4 => {
			// delete a slice
			let a = boundary(r, s);
			let b = boundary(r, s);
			let (a, b) = (a.min(b), a.max(b));
			let b2 = a + (b - a).min(r.range(1, 30));
			let mut b2 = b2.min(s.len());
			while !s.is_char_boundary(b2) {
				b2 += 1;
			}
			s.replace_range(a..b2, "");
		}
		5 => {
			// duplicate a slice
			let a = boundary(r, s);
			let mut b = (a + r.range(1, 30)).min(s.len());
			while !s.is_char_boundary(b) {
				b += 1;
			}
			let t = s[a..b].to_string();
			let i = if r.chance(1, 2) { b } else { boundary(r, s) };
			s.insert_str(i, &t);
		}
		6 => {
			// replace a character
			let i = boundary(r, s);
			if i < s.len() {
				s.remove(i);
				s.insert_str(i, r.pick(TOKENS));
			}
		}
		7 => {
			// cut the end
			let i = boundary(r, s);
			if r.chance(1, 3) {
				s.truncate(i);
			} else {
				let k = r.range(1, 4);
				for _ in 0..k {
					s.pop();
				}
			}
		}
		8 => {
			// swap two characters
			let cs: Vec<char> = s.chars().collect();
			if cs.len() >= 2 && cs.len() < 5000 {
				let i = r.below(cs.len() - 1);
				let mut cs = cs;
				cs.swap(i, i + 1);
				*s = cs.into_iter().collect();
			}
		}
		_ => {
			// whole tags moved
			if let Some(a) = s[boundary(r, s)..].find('<') {
				let _ = a;
			}
			let lts: Vec<usize> = s.match_indices('<').map(|x| x.0).collect();
			if !lts.is_empty() {
				let a = *r.pick(&lts);
				if let Some(k) = s[a..].find('>') {
					let t = s[a..a + k + 1].to_string();
					match r.below(3) {
						0 => s.replace_range(a..a + k + 1, ""),
						1 => s.insert_str(a, &t),
						_ => {
							let i = boundary(r, s);
							s.insert_str(i, &t)
						}
					}
				}
			}
		}
	}
}

pub fn mutate(r: &mut Rng, s: &mut String) {
	let n = match r.below(10) {
		0..=5 => 1,
		6..=8 => 2,
		_ => r.range(3, 6),
	};
	for _ in 0..n {
		once(r, s);
	}
}
