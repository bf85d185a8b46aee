//! Cost grows in proportion to the document.
use super::fail;
use crate::alloc;
use crate::runner::*;
use kiss_xml::dom::*;
use std::hash::{Hash, Hasher};

pub static PROP: Prop = Prop {
	id: "C18",
	rule: "documents of about eighty families (each grows along one dimension) are parsed, written, traversed, queried, cloned, compared, hashed and dropped at sizes n, 4n and 16n; allocation calls, allocated bytes, peak memory (exact) and CPU time of the thread (best of several) must grow by no more than a small factor above the growth in size; and repeated use, on the same document or on ever different ones, must retain no memory and cost the same each time; non-trivial: every family at every random base size",
	quick: 560,
	thorough: 3000,
	shards: 4,
	floors: &[("measurements", 3000), ("size comparisons", 2000), ("repetitions", 1000), ("distinct documents", 10000)],
	run,
	probes: &[],
};

#[repr(C)]
struct Timespec {
	s: i64,
	n: i64,
}
extern "C" {
	fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in microseconds
fn cpu() -> f64 {
	let mut t = Timespec { s: 0, n: 0 };
	unsafe {
		clock_gettime(3, &mut t);
	}
	t.s as f64 * 1e6 + t.n as f64 / 1e3
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
	us: f64,
	calls: u64,
	bytes: u64,
	peak: i64,
}

fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
	let t = cpu();
	let (r, m) = alloc::measure(f);
	let us = cpu() - t;
	(r, Cost { us, calls: m.calls, bytes: m.bytes, peak: m.peak })
}

/// name, base size, text of that size; the last item tells whether the text is rejected
struct Fam {
	name: &'static str,
	base: usize,
	make: fn(usize) -> String,
	ok: bool,
	/// deep documents are only parsed and dropped
	flat: bool,
	/// moderate nesting, all operations: the cost may grow with a power of the depth (indentation, copying from level to level), never exponentially
	nest: bool,
}

macro_rules! fam {
	($name:expr, $base:expr, $f:expr) => {
		Fam { name: $name, base: $base, make: $f, ok: true, flat: true, nest: false }
	};
	(bad $name:expr, $base:expr, $f:expr) => {
		Fam { name: $name, base: $base, make: $f, ok: false, flat: true, nest: false }
	};
	(nest $name:expr, $base:expr, $f:expr) => {
		Fam { name: $name, base: $base, make: $f, ok: true, flat: true, nest: true }
	};
	(deep $name:expr, $base:expr, $f:expr) => {
		Fam { name: $name, base: $base, make: $f, ok: true, flat: false, nest: false }
	};
}

fn wrap(s: String) -> String {
	format!("<r>{s}</r>")
}
fn many(n: usize, f: impl Fn(usize) -> String) -> String {
	let mut s = String::new();
	for i in 0..n {
		s.push_str(&f(i));
	}
	s
}
fn tree(n: usize) -> String {
	// balanced, three children each
	let mut s = String::new();
	fn go(n: usize, s: &mut String) {
		if n == 0 {
			return;
		}
		if n == 1 {
			s.push_str("<l i='1'>x</l>");
			return;
		}
		s.push_str("<b>");
		let k = (n - 1) / 3;
		go(k, s);
		go(k, s);
		go(n - 1 - 2 * k, s);
		s.push_str("</b>");
	}
	go(n, &mut s);
	s
}

static FAMS: &[Fam] = &[
	fam!("empty elements", 400, |n| wrap("<a/>".repeat(n))),
	fam!("elements with text", 300, |n| wrap("<a>text</a>".repeat(n))),
	fam!("elements on lines", 300, |n| wrap("\n  <a>t</a>".repeat(n))),
	fam!("elements with attributes", 200, |n| wrap("<a b='1' c=\"2\"/>".repeat(n))),
	fam!("different element names", 300, |n| wrap(many(n, |i| format!("<e{i}/>")))),
	fam!("mixed content", 200, |n| wrap("text <b>bold</b> ".repeat(n))),
	fam!("mixed content with blanks", 200, |n| wrap(format!("x{}", " <b/>\n".repeat(n)))),
	fam!("text after many elements", 300, |n| wrap(format!("{}x", "<b/> ".repeat(n)))),
	fam!("attributes", 200, |n| format!("<r {}/>", many(n, |i| format!("a{i}='v' ")))),
	fam!("spaced attributes", 200, |n| format!("<r {}/>", many(n, |i| format!("a{i} = 'v' ")))),
	fam!("declarations on one element", 100, |n| format!("<r {}/>", many(n, |i| format!("xmlns:p{i}='u{i}' ")))),
	fam!("declaring siblings", 100, |n| wrap(many(n, |i| format!("<p:a xmlns:p='u{}'/>", i % 7)))),
	fam!("prefixed elements", 200, |n| format!("<r xmlns:p='u' xmlns='v'>{}</r>", "<p:a/><b/>".repeat(n))),
	fam!("comments", 300, |n| wrap("<!-- c -->".repeat(n))),
	fam!("CDATA sections", 300, |n| wrap("<![CDATA[ c ]]>".repeat(n))),
	fam!("comments in text", 200, |n| wrap("t<!-- c -->".repeat(n))),
	fam!("CDATA in text", 200, |n| wrap("t<![CDATA[c]]>".repeat(n))),
	fam!("long text", 20_000, |n| wrap("word ".repeat(n))),
	fam!("long multi-byte text", 10_000, |n| wrap("é漢🦀 ".repeat(n))),
	fam!("long text of lines", 10_000, |n| wrap("line\n".repeat(n))),
	fam!("long blank text", 20_000, |n| wrap(format!("{}<a/>", " ".repeat(n)))),
	fam!("long blanks around text", 10_000, |n| wrap(format!("{}x{}", "\n".repeat(n), " ".repeat(n)))),
	fam!("long attribute value", 20_000, |n| format!("<r a='{}'/>", "word ".repeat(n))),
	fam!("markup in an attribute value", 10_000, |n| format!("<r a='{}'/>", "> = /> ".repeat(n))),
	fam!("long comment", 20_000, |n| wrap(format!("<!--{}-->", "word - > ".repeat(n)))),
	fam!("long CDATA", 20_000, |n| wrap(format!("<![CDATA[{}]]>", "word ] > <a> ".repeat(n)))),
	fam!("brackets in CDATA", 20_000, |n| wrap(format!("<![CDATA[{} ]]>", "]".repeat(n)))),
	fam!("long name", 5_000, |n| format!("<{0}>x</{0}>", "n".repeat(n))),
	fam!("long attribute name", 5_000, |n| format!("<r {}='1'/>", "n".repeat(n))),
	fam!("long prefix", 2_000, |n| format!("<{0}:a xmlns:{0}='u'/>", "n".repeat(n))),
	fam!("entities in text", 3_000, |n| wrap("&amp;&lt;".repeat(n))),
	fam!("references in text", 3_000, |n| wrap("&#65;&#x42;".repeat(n))),
	fam!("references in a value", 3_000, |n| format!("<r a='{}'/>", "&quot;&#x42;".repeat(n))),
	fam!("bare ampersands", 10_000, |n| wrap("& ".repeat(n))),
	fam!("ampersands and semicolons", 5_000, |n| wrap("&;".repeat(n))),
	fam!("unknown references", 5_000, |n| wrap("&x;".repeat(n))),
	fam!("one long reference", 20_000, |n| wrap(format!("&{};", "#".repeat(n)))),
	fam!("one long number", 20_000, |n| wrap(format!("&#x{}41;", "0".repeat(n)))),
	fam!("quotes in text", 10_000, |n| wrap("'\" ".repeat(n))),
	fam!("quotes before elements", 300, |n| wrap("it's \"<a/>".repeat(n))),
	fam!("greater-than signs in text", 10_000, |n| wrap("> ]]".repeat(n))),
	fam!("blanks in tags", 10_000, |n| format!("<r{0}a{0}={0}'1'{0}/>", " ".repeat(n))),
	fam!("comments before the root", 300, |n| format!("{}<r/>", "<!-- c -->\n".repeat(n))),
	fam!("instructions before the root", 300, |n| format!("{}<r/>", "<?p x?>\n".repeat(n))),
	fam!("comments after the root", 300, |n| format!("<r/>{}", "<!-- c -->\n".repeat(n))),
	fam!("blanks around the root", 20_000, |n| format!("{0}<r/>{0}", "\n ".repeat(n))),
	fam!("long comment before the root", 20_000, |n| format!("<!--{}--><r/>", "é x".repeat(n))),
	fam!("DTDs", 200, |n| format!("{}<r/>", "<!DOCTYPE a [<!ENTITY b 'c'>]>".repeat(n))),
	fam!("long DTD", 2_000, |n| format!("<!DOCTYPE a [{}]><r/>", "<!ENTITY b 'c>'>".repeat(n))),
	fam!("comments in a DTD", 2_000, |n| format!("<!DOCTYPE a [{}]><r/>", "<!-- it's -->".repeat(n))),
	fam!("instructions in a DTD", 2_000, |n| format!("<!DOCTYPE a [{}]><r/>", "<?p it's?>".repeat(n))),
	fam!("nesting in a DTD", 5_000, |n| format!("<!DOCTYPE a [{}{}]><r/>", "<!x ".repeat(n), ">".repeat(n))),
	fam!("balanced tree", 300, tree),
	fam!("groups", 100, |n| wrap("<g><h a='1'>t</h><!--c--><i>u<j/></i></g>".repeat(n))),
	fam!("rows", 60, |n| wrap(format!("<row>{}</row>", "<c>v &amp; w</c>".repeat(5)).repeat(1) + &format!("<row>{}</row>", "<c>v</c>".repeat(5)).repeat(n))),
	fam!("lines before one element", 20_000, |n| format!("{}<r>{}</r>", "\n".repeat(n), "\n".repeat(n))),
	fam!(deep "nesting", 300, |n| format!("{}{}", "<a>".repeat(n), "</a>".repeat(n))),
	fam!(deep "nesting with text", 300, |n| format!("{}{}", "<a>t".repeat(n), "u</a>".repeat(n))),
	fam!(deep "nesting with namespaces", 200, |n| format!("<r xmlns:p='u' xmlns='v'>{}{}</r>", "<p:a><b>".repeat(n), "</b></p:a>".repeat(n))),
	fam!(deep "nesting on lines", 300, |n| format!("{}{}", "<a>\n <b/>".repeat(n), "<!-- --></a>\n".repeat(n))),
	fam!(nest "levels", 5, |n| format!("{}{}", "<a>".repeat(n), "</a>".repeat(n))),
	fam!(nest "levels with siblings", 5, |n| format!("{}{}", "<a><b/>".repeat(n), "<c/></a>".repeat(n))),
	fam!(nest "levels with text", 5, |n| format!("{}{}", "<a>t".repeat(n), "</a>u".repeat(n - 1) + "</a>")),
	fam!(nest "levels with comments", 5, |n| format!("{}{}", "<a><!--c-->".repeat(n), "<![CDATA[c]]></a>".repeat(n))),
	fam!(nest "levels with attributes", 5, |n| format!("{}{}", "<a b='1' c='2'>".repeat(n), "</a>".repeat(n))),
	fam!(nest "levels with declarations", 5, |n| format!("{}{}", many(n, |i| format!("<p:a xmlns:p='u{}' xmlns='v{i}'>", i % 3)), "</p:a>".repeat(n))),
	fam!(bad "unclosed elements", 300, |n| "<a>".repeat(n)),
	fam!(bad "error at the end", 300, |n| wrap(format!("{}<b a></b>", "<a/>\n".repeat(n)))),
	fam!(bad "mismatch at the end", 300, |n| format!("<r>{}</s>", "<a>é</a>\n".repeat(n))),
	fam!(bad "unterminated comment", 20_000, |n| format!("<r><!--{}", "- >".repeat(n))),
	fam!(bad "unterminated tag", 20_000, |n| format!("<r a='{}", "x y>".repeat(n))),
	fam!(bad "unterminated DTD", 3_000, |n| format!("<!DOCTYPE a [{}", "<!ENTITY b 'c'>".repeat(n))),
	fam!(bad "opening signs", 10_000, |n| "<".repeat(n)),
	fam!(bad "no root", 300, |n| "<!-- c --><?p x?>\n".repeat(n)),
	fam!(bad "text only", 20_000, |n| "text & > ".repeat(n)),
	fam!(bad "text at the end", 300, |n| format!("<r>{}</r> x", "<a/>".repeat(n))),
	fam!(bad "repeated attribute", 200, |n| format!("<r {} a0='2'/>", many(n, |i| format!("a{i}='v' ")))),
];

/// raised so that the largest size takes tens of milliseconds
const SCALE: usize = 6;

type Row = Vec<(&'static str, Cost)>;

/// everything done with one document, in order, each step measured
fn session(f: &Fam, text: &str) -> Result<Row, String> {
	let mut row: Row = Vec::new();
	let s = text.to_string();
	let (d, k) = measure(move || kiss_xml::parse_str(s));
	row.push((if f.ok { "parse" } else { "reject" }, k));
	let mut d = match (d, f.ok) {
		(Ok(d), true) => d,
		(Err(_), false) => return Ok(row),
		(Ok(_), false) => return Err("accepted".into()),
		(Err(e), true) => return Err(format!("rejected: {e}")),
	};
	if f.flat {
		let e = d.root_element();
		macro_rules! step {
			($name:expr, $e:expr) => {{
				let (r, k) = measure(|| std::hint::black_box($e));
				row.push(($name, k));
				r
			}};
		}
		let out = step!("write", d.to_string());
		step!("write with indent", d.to_string_with_indent("\t"));
		step!("write to a stream", {
			let mut v: Vec<u8> = Vec::new();
			d.write_to_file(&mut v).map(|_| v.len()).unwrap_or(0)
		});
		drop(out);
		step!("text", e.text().len());
		step!("traverse", e.all_children().count());
		step!("traverse children", e.children().filter(|c| c.is_element()).count());
		step!("children_recursive", e.children_recursive().count());
		step!("search elements", e.search_elements(|x| x.name().len() == 1).count());
		step!("search by name", e.search_elements_by_name("a").count());
		step!("search text", e.search_text(|t| t.content.len() > 1).count());
		step!("search comments", e.search_comments(|_| true).count());
		step!("by name", e.elements_by_name("a").count());
		step!("by namespace", e.elements_by_namespace(None).count());
		step!("by prefix", e.elements_by_namespace_prefix(Some("p")).count());
		step!("first by name", e.first_element_by_name("nowhere").is_ok());
		step!("attributes", e.attributes().keys().filter(|k| e.get_attr(k.as_str()).is_some()).count());
		let g = step!("clone", e.clone());
		step!("compare", &g == e);
		step!("hash", {
			let mut h = std::collections::hash_map::DefaultHasher::new();
			e.hash(&mut h);
			h.finish()
		});
		step!("drop the clone", drop(g));
		let text = e.text();
		step!("escape", kiss_xml::escape(text.as_str()).len());
		step!("unescape", kiss_xml::unescape(text.as_str()).len());
		let kids: Vec<Box<dyn Node>> = e.children().map(clone_node).collect();
		if let Ok(mut x) = Element::new_from_name("x") {
			step!("append all", x.append_all(kids));
		}
		let r = d.root_element_mut();
		step!("change children", {
			for c in r.child_elements_mut() {
				let _ = c.set_attr("k", "v");
			}
		});
		step!("clear", r.clear_children());
	}
	if f.ok && !f.flat && !f.nest {
		let e = d.root_element();
		macro_rules! step {
			($name:expr, $e:expr) => {{
				let (r, k) = measure(|| std::hint::black_box($e));
				row.push(($name, k));
				r
			}};
		}
		let g = step!("clone", e.clone());
		step!("compare", &g == e);
		step!("drop the clone", drop(g));
		step!("hash", {
			let mut h = std::collections::hash_map::DefaultHasher::new();
			e.hash(&mut h);
			h.finish()
		});
	}
	let (_, k) = measure(move || drop(d));
	row.push(("drop", k));
	Ok(row)
}

fn best(f: &Fam, text: &str, times: usize) -> Result<Row, String> {
	let mut b = session(f, text)?;
	for _ in 1..times {
		let r = session(f, text)?;
		for (x, y) in b.iter_mut().zip(r.iter()) {
			x.1.us = x.1.us.min(y.1.us);
			x.1.calls = x.1.calls.min(y.1.calls);
			x.1.bytes = x.1.bytes.min(y.1.bytes);
			x.1.peak = x.1.peak.min(y.1.peak);
		}
	}
	Ok(b)
}

/// the measures in which b grew too much over a, given the growth of the input
fn excess(a: &Row, b: &Row, growth: f64, time: bool) -> Vec<String> {
	let mut v = Vec::new();
	// giving memory back is cheap per call, but now and then the allocator tidies up everything at once
	let all = b.first().map(|x| x.1.bytes).unwrap_or(0) as f64;
	for (x, y) in a.iter().zip(b.iter()) {
		let mut j = |what: &str, p: f64, q: f64, slack: f64, factor: f64| {
			if q > growth * factor * p + slack {
				v.push(format!("{}: {what} {:.0} -> {:.0} while the input grew by {:.1}", x.0, p, q, growth));
			}
		};
		j("allocation calls", x.1.calls as f64, y.1.calls as f64, 200.0, 2.0);
		j("allocated bytes", x.1.bytes as f64, y.1.bytes as f64, 40_000.0, 2.6);
		j("peak bytes", x.1.peak as f64, y.1.peak as f64, 40_000.0, 2.6);
		if time {
			// fresh memory costs more per byte once it exceeds the caches
			let memory = 0.003 * y.1.bytes as f64 + 0.0006 * all;
			j("CPU microseconds", x.1.us, y.1.us, 8_000.0 + memory, 4.0);
		}
	}
	v
}

/// depth 5 to 60 in small steps, so that work that doubles with every level shows before it takes forever
fn nest_case(c: &mut Ctx, f: &Fam) -> R {
	let base = f.base + c.r.below(3);
	let h = |e: String, t: &str| fail("harness", format!("{}: {e}", f.name), t);
	c.nontrivial(format!("{}/{base}/{}", f.name, c.idx).as_bytes());
	let sizes = [1, 2, 3, 4, 6, 8, 12];
	let first = (f.make)(base);
	let small = best(f, &first, 4).map_err(|e| h(e, &first))?;
	for k in &sizes[1..] {
		let t = (f.make)(base * k);
		let growth = (t.len() as f64 / first.len() as f64).powi(3);
		let row = best(f, &t, 2).map_err(|e| h(e, &t))?;
		c.count("measurements", row.len() as u64);
		c.count("size comparisons", row.len() as u64);
		c.count("levels of nesting", (base * k) as u64);
		// counts are exact; the time is bounded by its large slack
		let mut ex = excess(&small, &row, growth, true);
		if !ex.is_empty() {
			let row = best(f, &t, 2).map_err(|e| h(e, &t))?;
			ex = excess(&small, &row, growth, true);
		}
		if !ex.is_empty() {
			return Err(fail("superlinear", format!("{} ({} and {} characters; cubic growth allowed): {}", f.name, first.len(), t.len(), ex.join("; ")), &t));
		}
	}
	Ok(())
}

fn growth_case(c: &mut Ctx, f: &Fam) -> R {
	if f.nest {
		return nest_case(c, f);
	}
	let n = (f.base + c.r.below(f.base / 2 + 1)) * SCALE;
	let sizes = [n, n * 4, n * 16, n * 64];
	let last = if c.thorough && c.r.chance(1, 6) { 4 } else { 3 };
	let texts: Vec<String> = sizes[..last].iter().map(|k| (f.make)(*k)).collect();
	let growth = |i: usize, j: usize| texts[j].len() as f64 / texts[i].len() as f64;
	c.nontrivial(format!("{}/{n}", f.name).as_bytes());
	let h = |e: String, t: &str| fail("harness", format!("{}: {e}", f.name), t);
	let mut rows: Vec<Row> = Vec::new();
	for (i, t) in texts.iter().enumerate() {
		let a = cpu();
		let r = best(f, t, if i == 0 { 4 } else { 1 }).map_err(|e| h(e, t))?;
		c.count("measurements", r.len() as u64);
		rows.push(r);
		if i == 0 {
			continue;
		}
		for j in 0..i {
			c.count("size comparisons", rows[i].len() as u64);
			let ex = excess(&rows[j], &rows[i], growth(j, i), true);
			if ex.is_empty() {
				continue;
			}
			// measure again: time is noisy, allocation is not
			let mut again = ex.clone();
			// (when it is minutes of work, noise is not the reason)
			let slow = cpu() - a > 3e6;
			for _ in 0..if slow { 1 } else { 4 } {
				if again.is_empty() {
					break;
				}
				let p = best(f, &texts[j], 6).map_err(|e| h(e, t))?;
				let q = best(f, t, if slow { 1 } else { 3 }).map_err(|e| h(e, t))?;
				let e2 = excess(&p, &q, growth(j, i), true);
				let key = |s: &String| s.split(" microseconds").next().unwrap_or("").split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string();
				let keys: Vec<String> = e2.iter().map(key).collect();
				again.retain(|x| keys.contains(&key(x)));
			}
			if !again.is_empty() {
				return Err(fail("superlinear", format!("{} ({} and {} characters): {}", f.name, texts[j].len(), t.len(), again.join("; ")), &texts[0]));
			}
		}
	}
	Ok(())
}

/// repeated use: no memory kept, the same cost each time
fn repeat_case(c: &mut Ctx, f: &Fam) -> R {
	let n = f.base / 2 + c.r.below(f.base);
	let t = (f.make)(n);
	c.nontrivial(format!("repeat {}/{n}", f.name).as_bytes());
	let h = |e: String| fail("harness", format!("{}: {e}", f.name), &t);
	for _ in 0..2 {
		session(f, &t).map_err(h)?;
	}
	let first = session(f, &t).map_err(h)?;
	let rounds = 12;
	c.count("repetitions", rounds);
	c.count("measurements", rounds * first.len() as u64);
	let live0 = alloc::now().live;
	for _ in 0..rounds {
		drop(session(f, &t).map_err(h)?);
	}
	let kept = alloc::now().live - live0;
	let last = session(f, &t).map_err(h)?;
	if kept > 64 {
		return Err(fail("retained", format!("{}: {kept} bytes more are held after {rounds} repetitions on one document of {} characters", f.name, t.len()), &t));
	}
	let ex = excess(&first, &last, 1.0, false);
	// exactly the same work is expected; the generous bound allows for hash map layout
	if !ex.is_empty() {
		return Err(fail("grows-with-use", format!("{}: {}", f.name, ex.join("; ")), &t));
	}
	let calls = |r: &Row| r.iter().map(|x| x.1.calls).sum::<u64>();
	let (a, b) = (calls(&first), calls(&last));
	if b > a + a / 10 + 50 {
		return Err(fail("grows-with-use", format!("{}: allocation calls {a} the first time, {b} after {rounds} repetitions", f.name), &t));
	}
	Ok(())
}

/// documents that all differ in one kind of content: number -> text
static DISTINCT: &[(&str, fn(usize) -> String)] = &[
	("element names", |i| wrap(many(40, |k| format!("<n{i:07}x{k:03}/>")))),
	("nested names", |i| format!("{}{}", many(30, |k| format!("<n{i:07}x{k:03}>")), many(30, |k| format!("</n{i:07}x{:03}>", 29 - k)))),
	("attribute names", |i| format!("<r {}/>", many(40, |k| format!("a{i:07}x{k:03}='v' ")))),
	("attribute values", |i| wrap(many(40, |k| format!("<e a='{i:07}x{k:03}'/>")))),
	("text", |i| wrap(many(40, |k| format!("<e>{i:07}x{k:03} &amp; &#x{:x};</e>", 0x4e00 + (i * 40 + k) % 20_000)))),
	("comments", |i| format!("<!-- {i:07} --><r>{}</r><!-- {i:07} -->", many(40, |k| format!("<!--{i:07}x{k:03}-->")))),
	("CDATA", |i| wrap(many(40, |k| format!("<e><![CDATA[{i:07}x{k:03}]]></e>")))),
	("namespaces", |i| format!("<r xmlns='u{i:07}'>{}</r>", many(20, |k| format!("<p{k}:e xmlns:p{k}='{i:07}x{k:03}'/>")))),
	("prefixes", |i| wrap(many(20, |k| format!("<q{i:07}x{k:03}:e xmlns:q{i:07}x{k:03}='u'/>")))),
	("declarations", |i| format!("<?xml version='1.0' standalone='{}'?><r/>", many(60, |_| format!("{i:07}")))),
	("DTDs", |i| format!("<!DOCTYPE a [{}]><r/>", many(20, |k| format!("<!ENTITY e{i:07}x{k:03} 'v'>")))),
	("instructions", |i| format!("<?p {}?><r/>", many(60, |_| format!("{i:07}")))),
	("sizes", |i| wrap("<e a='b'>t</e>".repeat(1 + i % 97) + &" ".repeat(i % 1013))),
	("mismatched tags", |i| wrap(many(20, |k| format!("<e{i:07}x{k:03}></e{i:07}x{k:03}>")) + &format!("<a{i:07}></b{i:07}>"))),
	("bad names", |i| wrap(many(20, |k| format!("<e{k}/>")) + &format!("<1{}/>", many(40, |_| format!("{i:07}"))))),
	("repeated attributes", |i| format!("<r {}a{i:07}='1' a{i:07}='2'/>", many(40, |k| format!("b{i:07}x{k:03}='1' ")))),
	("unsupported markup", |i| wrap(format!("<!ENTITY e '{}'>", many(40, |_| format!("{i:07}"))))),
];

/// what differs every time must not be kept either
fn distinct_case(c: &mut Ctx, k: usize) -> R {
	let (name, make) = DISTINCT[k % DISTINCT.len()];
	let start = c.r.below(1_000_000);
	c.nontrivial(format!("distinct {name}/{start}").as_bytes());
	let mut buf = String::with_capacity(8192);
	let mut chars = 0u64;
	let mut go = |i: usize| {
		let t = make(start + i);
		chars += t.len() as u64;
		let d = kiss_xml::parse_str(t.as_str());
		if let Ok(d) = &d {
			buf.clear();
			buf.push_str(&d.to_string());
			let e = d.root_element();
			let mut g = e.clone();
			for (n, x) in e.search_elements(|_| true).enumerate() {
				let nm = x.name();
				std::hint::black_box((g.elements_by_name(nm.as_str()).count(), x.attributes().keys().filter(|k| x.get_attr(k.as_str()).is_some()).count(), x.text(), x.namespace(), x.namespace_prefixes()));
				if n < 8 {
					if let Ok(mut y) = Element::new_with_text(nm.as_str(), nm.as_str()) {
						let _ = y.set_attr(nm.as_str(), nm.as_str());
						let _ = y.set_attr(format!("{nm}<"), "v");
						y.set_text(format!("{}&amp;", nm));
						std::hint::black_box((y.to_string(), kiss_xml::unescape(nm.as_str()), kiss_xml::escape(nm.as_str())));
						g.append(y);
					}
				}
			}
			let mut h = std::collections::hash_map::DefaultHasher::new();
			g.hash(&mut h);
			std::hint::black_box((h.finish(), &g == e, g.remove_elements(|x| x.text().len() > 3)));
		} else if let Err(e) = d {
			std::hint::black_box(e.to_string());
		}
	};
	for i in 0..200 {
		go(i);
	}
	let live0 = alloc::now().live;
	let rounds = 800;
	for i in 200..200 + rounds {
		go(i);
	}
	let kept = alloc::now().live - live0;
	c.count("distinct documents", rounds as u64);
	c.count("characters in distinct documents", chars);
	if std::env::var_os("KMON_SHOW").is_some() {
		eprintln!("{name}: kept {kept} of {chars}");
	}
	// the tables of the matchers may still grow a little
	if kept > (chars / 40 + 4096) as i64 {
		return Err(fail("retained", format!("documents that differ in their {name}: {kept} bytes more are held after {rounds} of them"), &make(start)));
	}
	Ok(())
}

fn run(c: &mut Ctx) -> R {
	let n = FAMS.len() as u64;
	if c.idx % 12 == 7 {
		let k = (c.idx / 12) as usize;
		c.sample(|| format!("distinct: {}", DISTINCT[k % DISTINCT.len()].0));
		return distinct_case(c, k);
	}
	let i = c.idx - (c.idx + 4) / 12;
	let f = &FAMS[(i % n) as usize];
	if (i / n) % 3 == 2 {
		c.sample(|| format!("repeated: {}", f.name));
		repeat_case(c, f)
	} else {
		c.sample(|| format!("growing: {}", f.name));
		growth_case(c, f)
	}
}
