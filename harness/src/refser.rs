//! Reference printer for the documented layout.
use crate::model::*;

pub fn esc_text(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 8);
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			_ => o.push(c),
		}
	}
	o
}
pub fn esc_all(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 8);
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			'\'' => o.push_str("&apos;"),
			'"' => o.push_str("&quot;"),
			_ => o.push(c),
		}
	}
	o
}

fn leaf(n: &N, o: &mut String) {
	match n {
		N::T(t) => o.push_str(&esc_text(t)),
		N::C(t) => {
			o.push_str("<!--");
			o.push_str(t);
			o.push_str("-->");
		}
		N::D(t) => {
			o.push_str("<![CDATA[");
			o.push_str(t);
			o.push_str("]]>");
		}
		N::E(_) => unreachable!(),
	}
}

fn open(e: &El, o: &mut String) {
	o.push('<');
	o.push_str(&e.tag());
	let is_ns = |k: &str| k.starts_with("xmlns");
	for pass in 0..2 {
		for (k, v) in &e.attrs {
			if is_ns(k) == (pass == 0) {
				o.push(' ');
				o.push_str(k);
				o.push_str("=\"");
				o.push_str(&esc_all(v));
				o.push('"');
			}
		}
	}
}
fn close(e: &El, o: &mut String) {
	o.push_str("</");
	o.push_str(&e.tag());
	o.push('>');
}
/// everything on one line
fn inline(e: &El, o: &mut String) {
	open(e, o);
	if e.ch.is_empty() {
		o.push_str("/>");
		return;
	}
	o.push('>');
	for c in &e.ch {
		match c {
			N::E(x) => inline(x, o),
			_ => leaf(c, o),
		}
	}
	close(e, o);
}
fn block(e: &El, level: usize, indent: &str, o: &mut String) {
	let one_leaf = e.ch.len() == 1 && !matches!(e.ch[0], N::E(_));
	if e.ch.is_empty() || one_leaf || e.has_text() {
		inline(e, o);
		return;
	}
	open(e, o);
	o.push('>');
	for c in &e.ch {
		o.push('\n');
		for _ in 0..level + 1 {
			o.push_str(indent);
		}
		match c {
			N::E(x) => block(x, level + 1, indent, o),
			_ => leaf(c, o),
		}
	}
	o.push('\n');
	for _ in 0..level {
		o.push_str(indent);
	}
	close(e, o);
}

pub fn valid_indent(i: &str) -> bool {
	i == "\t" || i.chars().all(|c| c == ' ')
}
pub fn print_el(e: &El, indent: &str) -> String {
	let mut o = String::new();
	block(e, 0, if valid_indent(indent) { indent } else { "  " }, &mut o);
	o
}
pub fn print_node(n: &N, indent: &str) -> String {
	match n {
		N::E(e) => print_el(e, indent),
		_ => {
			let mut o = String::new();
			leaf(n, &mut o);
			o
		}
	}
}
pub fn print_doc(d: &Doc, indent: &str) -> String {
	let mut o = String::new();
	if let Some(x) = &d.decl {
		o.push_str(x);
		o.push('\n');
	}
	for x in &d.dtds {
		o.push_str(x);
		o.push('\n');
	}
	o.push_str(&print_el(&d.root, indent));
	o.push('\n');
	o
}
