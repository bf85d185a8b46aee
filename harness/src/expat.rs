//! An independent conforming parser: expat, in a python3 child process of this worker.
use crate::model::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

thread_local! {
	static CHILD: RefCell<Option<Child>> = const { RefCell::new(None) };
}

/// Ok(events), Err(true, message): not well-formed, Err(false, message): no answer
pub fn parse(xml: &[u8], ns: bool) -> Result<String, (bool, String)> {
	CHILD.with(|c| {
		let mut c = c.borrow_mut();
		if c.is_none() {
			let k = Command::new("python3").arg("-c").arg(include_str!("expat_server.py")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| (false, format!("cannot start python3: {e}")))?;
			*c = Some(k);
		}
		let k = c.as_mut().unwrap();
		let mut go = || -> std::io::Result<Vec<u8>> {
			let w = k.stdin.as_mut().unwrap();
			let mut h = vec![ns as u8];
			h.extend_from_slice(&(xml.len() as u32).to_le_bytes());
			w.write_all(&h)?;
			w.write_all(xml)?;
			w.flush()?;
			let r = k.stdout.as_mut().unwrap();
			let mut n = [0u8; 4];
			r.read_exact(&mut n)?;
			let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
			r.read_exact(&mut b)?;
			Ok(b)
		};
		match go() {
			Err(e) => {
				*c = None;
				Err((false, e.to_string()))
			}
			Ok(b) => {
				let s = String::from_utf8_lossy(&b[1..]).to_string();
				match b.first() {
					Some(b'K') => Ok(s),
					Some(b'E') => Err((true, s)),
					_ => Err((false, s)),
				}
			}
		}
	})
}

pub fn line_ends(s: &str) -> String {
	s.replace("\r\n", "\n").replace('\r', "\n")
}
pub fn attr_norm(s: &str) -> String {
	line_ends(s).replace(['\n', '\t'], " ")
}

/// the tree with the normalisation every XML parser does, in normal form
pub fn seen(e: &El) -> El {
	let mut x = El { prefix: None, name: e.tag(), ..Default::default() };
	for (k, v) in &e.attrs {
		x.attrs.insert(k.clone(), attr_norm(v));
	}
	for c in &e.ch {
		x.ch.push(match c {
			N::E(c) => N::E(seen(c)),
			N::T(t) => N::T(t.clone()),
			N::C(t) => N::C(line_ends(t)),
			N::D(t) => N::D(line_ends(t)),
		});
	}
	// join before the line ends are judged: a CR and LF may come from two nodes
	norm_children(&mut x.ch);
	for c in x.ch.iter_mut() {
		if let N::T(t) = c {
			*t = line_ends(t);
		}
	}
	x
}

/// rebuilds the tree from the events (names with their prefixes), in normal form
pub fn tree(ev: &str) -> Option<El> {
	let mut stack: Vec<El> = vec![El::new("")];
	let mut i = 0;
	let b = ev.as_bytes();
	let mut key = String::new();
	while i < b.len() {
		let k = b[i];
		let s = i + 1;
		let mut e = s;
		while e < b.len() && !(1..=7).contains(&b[e]) {
			e += 1;
		}
		let t = ev[s..e].to_string();
		match k {
			1 => stack.push(El::new(&t)),
			2 => key = t,
			3 => {
				stack.last_mut()?.attrs.insert(key.clone(), t);
			}
			4 => {
				let mut x = stack.pop()?;
				norm_children(&mut x.ch);
				stack.last_mut()?.ch.push(N::E(x));
			}
			5 => stack.last_mut()?.ch.push(N::T(t)),
			6 => stack.last_mut()?.ch.push(N::C(t)),
			_ => stack.last_mut()?.ch.push(N::D(t)),
		}
		i = e;
	}
	let top = stack.pop()?;
	if !stack.is_empty() {
		return None;
	}
	// comments outside the root are not part of the tree
	top.ch.into_iter().find_map(|c| if let N::E(e) = c { Some(e) } else { None })
}

/// expanded element names and content (namespace-aware parse)
pub fn events_ns(e: &El, outer: &Scope, o: &mut String) {
	let sc = e.scope(outer);
	o.push('\x01');
	if let Some(u) = e.ns(&sc) {
		o.push_str(&attr_norm(u));
		o.push('\x0e');
	}
	o.push_str(&e.name);
	for c in &e.ch {
		if let N::E(x) = c {
			events_ns(x, &sc, o);
		}
	}
	o.push('\x04');
}

/// only element events
pub fn only_elements(ev: &str) -> String {
	let mut out = String::new();
	let mut keep = false;
	for c in ev.chars() {
		if ('\x01'..='\x07').contains(&c) {
			keep = c == '\x01' || c == '\x04';
		}
		if keep {
			out.push(c);
		}
	}
	out
}
