//! Effects: a call has its result and nothing else.
use super::{c03, fail, mutate};
use crate::gen::{self, Cfg, Chars, Size};
use crate::model::*;
use crate::rng::{hash64, mix, Rng};
use crate::runner::*;
use crate::{edit, snap, surface};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static PROP: Prop = Prop {
	id: "C20",
	rule: "a process with a chosen standard input, output and error (working, closed at the other end, closed, full), environment and directory runs a series of calls (well-formed and malformed documents with everything that gives warnings, edits, queries, invalid indents, files read and written, failing paths); what it got is compared with the same calls made here, and what it left is looked at: nothing on standard output, only the files asked for, nothing in the directories for temporary files, files read unchanged, no open handles, threads, changed variables or directory; non-trivial: a distinct series and surroundings",
	quick: 6000,
	thorough: 60000,
	shards: 8,
	floors: &[("calls", 8000), ("warnings that cannot be printed", 200), ("files read", 500), ("files written", 500), ("standard output watched", 250), ("surroundings", 900), ("directories for temporary files watched", 250)],
	run,
	probes: &[],
};

/// the variables that are asked for while a series runs
mod asked {
	use std::ffi::{c_char, CStr};
	use std::sync::atomic::{AtomicBool, Ordering};
	use std::sync::Mutex;
	pub static ON: AtomicBool = AtomicBool::new(false);
	pub static NAMES: Mutex<Vec<String>> = Mutex::new(Vec::new());
	extern "C" {
		static environ: *const *const c_char;
		#[cfg(not(any(miri, kmon_asan)))]
		fn openat64(dir: i32, path: *const c_char, flags: i32, ...) -> i32;
	}
	/// what is opened while a series runs: path and flags
	pub static OPENED: Mutex<Vec<(Vec<u8>, i32)>> = Mutex::new(Vec::new());
	/// takes the place of libc's function of this name, which std::fs opens files with
	#[cfg(not(any(miri, kmon_asan)))]
	#[no_mangle]
	unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
		if ON.load(Ordering::Relaxed) {
			if let Ok(mut v) = OPENED.lock() {
				v.push((CStr::from_ptr(path).to_bytes().to_vec(), flags));
			}
		}
		openat64(-100, path, flags, mode)
	}
	/// takes the place of libc's function of this name, which std::env::var calls
	#[cfg(not(any(miri, kmon_asan)))]
	#[no_mangle]
	unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
		let want = CStr::from_ptr(name).to_bytes();
		if ON.load(Ordering::Relaxed) {
			if let Ok(mut v) = NAMES.lock() {
				v.push(String::from_utf8_lossy(want).into_owned());
			}
		}
		let mut p = environ;
		while !p.is_null() && !(*p).is_null() {
			let e = CStr::from_ptr(*p).to_bytes();
			if e.len() > want.len() && e[want.len()] == b'=' && e.starts_with(want) {
				return (*p).add(want.len() + 1) as *mut c_char;
			}
			p = p.add(1);
		}
		std::ptr::null_mut()
	}
	pub fn start() {
		ON.store(true, Ordering::Relaxed);
	}
	pub fn stop() -> Vec<String> {
		ON.store(false, Ordering::Relaxed);
		let mut v = NAMES.lock().map(|mut v| std::mem::take(&mut *v)).unwrap_or_default();
		v.sort();
		v.dedup();
		// asked for by the standard library when something panics
		v.retain(|n| !n.starts_with("RUST_"));
		v
	}
}

/// every file below a directory, with its content
fn tree(dir: &Path) -> BTreeMap<PathBuf, (u64, bool)> {
	let mut out = BTreeMap::new();
	let mut todo = vec![dir.to_path_buf()];
	while let Some(d) = todo.pop() {
		let Ok(it) = std::fs::read_dir(&d) else { continue };
		for e in it.flatten() {
			let p = e.path();
			let dirp = p.is_dir() && !p.is_symlink();
			let h = if dirp { 0 } else { std::fs::read(&p).map(|b| hash64(&b)).unwrap_or(1) };
			out.insert(p.strip_prefix(dir).unwrap_or(&p).to_path_buf(), (h, dirp));
			if dirp {
				todo.push(p);
			}
		}
	}
	out
}

fn process_state() -> String {
	let mut fds: Vec<String> = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().map(|e| format!("{}", e.file_name().to_string_lossy())).collect()).unwrap_or_default();
	fds.sort();
	let threads = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
	let mut env: Vec<_> = std::env::vars_os().collect();
	env.sort();
	format!("cwd {:?}; handles {}; threads {threads}; variables {:x}", std::env::current_dir().ok(), fds.len(), hash64(format!("{env:?}").as_bytes()))
}

#[derive(Default)]
struct Seen {
	calls: u64,
	warnings: u64,
	read: u64,
	written: u64,
	files: BTreeMap<PathBuf, (u64, bool)>,
}

fn kind(e: &KissXmlError) -> String {
	match e {
		KissXmlError::IOError(e) => format!("io {:?}", e.kind()),
		e => e.to_string(),
	}
}

/// a document, mostly with something that the library warns of
fn text(r: &mut Rng) -> (String, bool) {
	let mut cfg = Cfg::new(Chars::Plain);
	cfg.strict_comments = true;
	let size = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small]);
	let m = gen::doc(r, &cfg, size);
	let st = surface::Style::random(r);
	let (mut s, marks) = surface::write_doc(r, &m, st);
	let mut warn = false;
	match r.below(10) {
		0 => {
			let cl = r.below(c03::CLASSES);
			if let Some(b) = c03::inject(r, &s, &marks, cl) {
				s = b.text;
			}
		}
		1 => mutate::mutate(r, &mut s),
		2..=4 => {
			for _ in 0..r.range(1, 3) {
				s.push_str(r.pick(&["<!--after-->", "\n<!-- é long long long long long long long comment 漢字 -->", "<!---->"]));
			}
			warn = true;
		}
		5..=7 => {
			let mut t = String::new();
			for _ in 0..r.range(1, 3) {
				t.push_str(r.pick(&["<!--before-->", "<!-- é long long long long long long long comment 漢字 -->\n", "<?pi data?>", "<?xml-stylesheet href='a'?>\n", "<!ELEMENT a ANY>", "<!ENTITY b 'c'>"]));
			}
			// (after the XML declaration)
			let at = if s.starts_with("<?xml") { s.find("?>").map(|i| i + 2).unwrap_or(0) } else { 0 };
			if !s.starts_with('\u{feff}') {
				s.insert_str(at, &t);
			}
			warn = true;
		}
		8 if r.chance(1, 4) => {
			// no markup at all
			s = r.pick(&["", " ", "x", "\u{feff}", "no markup é", "\n\n", "&amp;", ">", "--"]).to_string();
		}
		9 if r.chance(1, 60) => {
			// large
			let at = s.rfind("</").unwrap_or(s.len());
			let n = *r.pick(&[70_000usize, 300_000, 600_000]);
			s.insert_str(at, &"text ".repeat(n));
		}
		_ => {}
	}
	(s, warn)
}

/// one series of calls; what they gave as text. Files are made below `dir` ("" for the current directory).
fn series(seed: u64, dir: &Path, seen: &mut Seen) -> Result<String, String> {
	let mut r = Rng::new(seed);
	let mut log = String::new();
	for k in 0..r.range(6, 14) {
		seen.calls += 1;
		let (s, warn) = text(&mut r);
		seen.warnings += warn as u64;
		let how = r.below(4);
		let d = match how {
			0 => {
				let f = dir.join(format!("in{k}.xml"));
				std::fs::write(&f, &s).map_err(|e| format!("harness: {e}"))?;
				seen.files.insert(f.strip_prefix(dir).unwrap_or(&f).to_path_buf(), (hash64(s.as_bytes()), false));
				seen.read += 1;
				guard(|| kiss_xml::parse_filepath(&f))
			}
			1 => guard(|| kiss_xml::parse_stream(s.as_bytes())),
			_ => guard(|| kiss_xml::parse_str(s.as_str())),
		}
		.map_err(|p| format!("parsing {s:?} panicked: {p}"))?;
		let mut d = match d {
			Ok(d) => d,
			Err(e) => {
				log.push_str(&kind(&e));
				log.push('\n');
				continue;
			}
		};
		let indent = *r.pick(&["  ", "\t", "", "x", "\n", "\u{a0}", " \t", "    "]);
		seen.warnings += matches!(indent, "x" | "\n" | "\u{a0}" | " \t") as u64;
		let t = guard(|| {
			let mut t = d.to_string_with_indent(indent);
			t.push_str(&d.root_element().to_string_with_indent(indent));
			t.push_str(&format!("{d}{d:?}{}", d.root_element()));
			t.push_str(&d.to_string());
			let mut v = Vec::new();
			let _ = d.write_to_file(&mut v);
			t.push_str(&String::from_utf8_lossy(&v));
			t
		})
		.map_err(|p| format!("writing {s:?} with {indent:?} panicked: {p}"))?;
		log.push_str(&t);
		// edits and queries
		let n = r.below(5);
		let o = edit::Opt { cfg: Cfg::new(Chars::Plain), ns: true, raw: true, assign: false, invalid: true, keep_root_ns: false };
		let x = guard(|| {
			let mut m = snap::el(d.root_element())?;
			for _ in 0..n {
				edit::step(&mut r, &mut m, d.root_element_mut(), &o, &Scope::new())?;
			}
			let e = d.root_element();
			Ok::<_, String>(format!("{}{}{}{:?}", e.text(), e.search(|n| n.is_comment()).count(), e.clone() == *e, e.search_text(|_| true).map(|t| t.content.len()).sum::<usize>()))
		})
		.map_err(|p| format!("editing {s:?} panicked: {p}"))?;
		match x {
			Ok(x) => log.push_str(&x),
			Err(_) => continue, // judged by the property of edits
		}
		// files
		if r.chance(1, 2) {
			let name = *r.pick(&["out.xml", "sub/out.xml", "sub/more/é.xml", "in0.xml", "out", "sub/out.xml~", ".out.xml"]);
			let f = dir.join(name);
			let tab = r.chance(1, 2);
			let out = if tab { d.to_string_with_indent("\t") } else { d.to_string_with_indent("  ") };
			let w = guard(|| if tab { d.write_to_filepath_with_indent(&f, "\t") } else { d.write_to_filepath(&f) }).map_err(|p| format!("writing to a file panicked: {p}"))?;
			if let Err(e) = w {
				return Err(format!("writing {name} failed: {e}"));
			}
			seen.written += 1;
			let mut p = PathBuf::new();
			for c in Path::new(name).parent().into_iter().flat_map(|x| x.components()) {
				p.push(c);
				seen.files.insert(p.clone(), (0, true));
			}
			seen.files.insert(PathBuf::from(name), (hash64(out.as_bytes()), false));
		}
		if r.chance(1, 6) {
			let f = dir.join("no-such.xml");
			log.push_str(&match guard(|| kiss_xml::parse_filepath(&f)).map_err(|p| format!("a missing file panicked: {p}"))? {
				Ok(_) => "document".to_string(),
				Err(e) => kind(&e),
			});
		}
	}
	Ok(log)
}

fn check_files(dir: &Path, before: &BTreeMap<PathBuf, (u64, bool)>, seen: &Seen) -> Result<(), String> {
	let mut want = before.clone();
	for (k, v) in &seen.files {
		want.insert(k.clone(), *v);
	}
	let got = tree(dir);
	for (k, v) in &got {
		match want.get(k) {
			None => return Err(format!("{k:?} was made, which nobody asked for")),
			Some(w) if w != v => return Err(format!("{k:?} does not hold what it should")),
			_ => {}
		}
	}
	for k in want.keys() {
		if !got.contains_key(k) {
			return Err(format!("{k:?} is gone"));
		}
	}
	Ok(())
}

/// whether processes were started: time, memory and faults of those that ended, and whether one waits to be asked for
fn children() -> String {
	extern "C" {
		fn getrusage(who: i32, to: *mut [i64; 18]) -> i32;
		fn waitid(what: i32, id: u32, to: *mut [u64; 16], how: i32) -> i32;
	}
	let mut u = [0i64; 18];
	let mut w = [0u64; 16];
	// (RUSAGE_CHILDREN; P_ALL, WNOHANG | WEXITED | WNOWAIT)
	let (a, b) = unsafe { (getrusage(-1, &mut u), waitid(0, 0, &mut w, 1 | 4 | 0x0100_0000)) };
	format!("{a} {b} {u:?}")
}

/// nothing is read but the files asked for (what is made or written to stays in the directory or was noticed already)
fn check_opened(seen: &Seen) -> Result<(), String> {
	let list = asked::OPENED.lock().map(|mut v| std::mem::take(&mut *v)).unwrap_or_default();
	for (p, flags) in list {
		let name = String::from_utf8_lossy(&p).into_owned();
		let path = Path::new(&name);
		if ["/proc/", "/sys/", "/usr/", "/lib", "/dev/urandom", "/dev/random", "/dev/null"].iter().any(|s| name.starts_with(s)) || path.is_dir() {
			continue;
		}
		let reads = flags & 0o3 == 0;
		let here = path.strip_prefix(std::env::current_dir().unwrap_or_default()).unwrap_or(path);
		let here = here.strip_prefix(".").unwrap_or(here);
		let asked = seen.files.contains_key(here) || here == Path::new("no-such.xml");
		if here.is_absolute() || (reads && !asked) {
			return Err(format!("{name:?} was opened, which nobody asked for"));
		}
	}
	Ok(())
}

/// kmon child quiet SEED OUT: the series in the current directory; the log (or what went wrong) goes to OUT
pub fn quiet_child(a: &[String]) -> i32 {
	install_hook();
	let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
	let out = a.get(2).cloned().unwrap_or_default();
	let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
		// paths from the root, or from here
		let at = if seed % 4 < 2 { PathBuf::new() } else { std::env::current_dir().unwrap_or_default() };
		let here = at.as_path();
		let mut seen = Seen::default();
		// what is made on first use may stay (the crate has cached patterns)
		let before = tree(Path::new("."));
		let s0 = process_state();
		let c0 = children();
		asked::start();
		let r = series(seed, here, &mut seen);
		let names = asked::stop();
		let s1 = process_state();
		let r = r.and_then(|log| {
			if s0 != s1 {
				return Err(format!("the process changed: {s0} before, {s1} after"));
			}
			// what the program does about panics is its own affair
			let word = format!("a panic of our own {seed}");
			let w = word.clone();
			if !matches!(guard(move || -> () { panic!("{w}") }), Err(m) if m.contains(&word)) {
				return Err("the panic hook of the process was replaced".into());
			}
			check_files(Path::new("."), &before, &seen)?;
			if children() != c0 {
				return Err("a process was started".into());
			}
			check_opened(&seen)?;
			Ok(log)
		});
		match r {
			Ok(log) => format!("{} ok {:016x} {}", names.join(","), mix(hash64(log.as_bytes())), log.len()),
			Err(e) => format!("{} bad {e}", names.join(",")),
		}
	});
	let text = match h.map(|h| h.join()) {
		Ok(Ok(t)) => t,
		_ => " bad the thread of the calls died".to_string(),
	};
	match std::fs::write(out, text) {
		Ok(()) => 0,
		Err(_) => 3,
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Std {
	Working,
	Null,
	Full,
	HungUp,
	Closed,
}

fn hung_up() -> std::io::Result<Stdio> {
	let (r, w) = std::io::pipe()?;
	drop(r);
	Ok(w.into())
}
fn full() -> std::io::Result<Stdio> {
	Ok(std::fs::File::options().write(true).open("/dev/full")?.into())
}

/// kmon child quiet in the given surroundings
fn start(seed: u64, out: Std, err: Std, env: usize, dir: &Path, res: &Path, away: &Path, var: Option<(&str, &str)>) -> std::io::Result<std::process::Output> {
	let exe = std::env::current_exe()?;
	let mut redir = String::from("exec \"$0\" \"$@\"");
	if out == Std::Closed {
		redir.push_str(" >&-");
	}
	if err == Std::Closed {
		redir.push_str(" 2>&-");
	}
	let mut p = Command::new("/bin/sh");
	p.arg("-c").arg(redir).arg(exe).args(["child", "quiet"]).arg(seed.to_string()).arg(res).current_dir(dir).stdin(if seed % 2 == 0 { Stdio::null() } else { hung_up()? });
	p.stdout(match out {
		Std::Working => Stdio::piped(),
		Std::Full => full()?,
		Std::HungUp => hung_up()?,
		_ => Stdio::null(),
	});
	p.stderr(match err {
		Std::Working => Stdio::piped(),
		Std::Full => full()?,
		Std::HungUp => hung_up()?,
		_ => Stdio::null(),
	});
	match env {
		0 => {
			p.env_clear();
		}
		1 => {
			p.env("LANG", "tr_TR.ISO-8859-9").env("LC_ALL", "C").env("TZ", "Asia/Kolkata").env("COLUMNS", "3");
		}
		2 => {
			p.env("HOME", "/nonexistent").env("TMPDIR", "/nonexistent").env("RUST_BACKTRACE", "full").env("PWD", "/nonexistent");
		}
		3 => {
			p.env("RUST_LOG", "trace").env("DEBUG", "1").env("VERBOSE", "1").env("NO_COLOR", "1").env("TERM", "dumb");
		}
		_ => {
			// places where programs leave things
			for n in ["TMPDIR", "TMP", "TEMP", "HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
				p.env(n, away);
			}
		}
	}
	if let Some((n, v)) = var {
		p.env(n, v);
	}
	p.output()
}

fn run(c: &mut Ctx) -> R {
	let seed = c.r.next();
	let out = *c.r.pick(&[Std::Working, Std::Working, Std::Null, Std::Full, Std::HungUp, Std::Closed]);
	let err = *c.r.pick(&[Std::Working, Std::Null, Std::Full, Std::Full, Std::HungUp, Std::HungUp, Std::Closed]);
	let dir = c.scratch.join("c20");
	let res = c.scratch.join("c20.txt");
	let inner = c.scratch.join("c20-here");
	let away = c.scratch.join("c20-away");
	let clean = || {
		let _ = std::fs::remove_dir_all(&dir);
		let _ = std::fs::remove_dir_all(&inner);
		let _ = std::fs::remove_dir_all(&away);
		let _ = std::fs::remove_file(&res);
	};
	clean();
	let h = |e: std::io::Error| fail("harness", e.to_string(), "");
	std::fs::create_dir_all(&dir).map_err(h)?;
	std::fs::create_dir_all(&inner).map_err(h)?;
	std::fs::create_dir_all(&away).map_err(h)?;
	// things that are there already
	let there = c.r.below(3);
	for d in [&dir, &inner] {
		if there > 0 {
			std::fs::write(d.join("other.txt"), "keep").map_err(h)?;
			std::fs::write(d.join("out.xml.bak"), "keep too").map_err(h)?;
		}
		if there > 1 {
			std::fs::create_dir_all(d.join("sub/more")).map_err(h)?;
			std::fs::write(d.join("sub/out.xml"), "old".repeat(1000)).map_err(h)?;
		}
	}
	let env = c.r.below(7);
	let what = format!("kmon child quiet {seed} OUT in a directory with {there} kinds of other files, standard output {out:?}, standard error {err:?}, environment {env}");
	c.nontrivial(what.as_bytes());
	let o = start(seed, out, err, env, &dir, &res, &away, None).map_err(h)?;
	let spilled: Vec<PathBuf> = tree(&away).into_keys().collect();
	let got = std::fs::read_to_string(&res).unwrap_or_default();
	// variables that it asked for must not matter
	let (names, got) = got.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default();
	let mut others = Vec::new();
	for n in names.split(',').filter(|n| !n.is_empty()).take(3) {
		for v in ["", "0", "1", "x", "17", "true", "/tmp"] {
			let _ = std::fs::remove_dir_all(&dir);
			std::fs::create_dir_all(&dir).map_err(h)?;
			let _ = std::fs::remove_file(&res);
			start(seed, Std::Null, Std::Null, env, &dir, &res, &away, Some((n, v))).map_err(h)?;
			let g = std::fs::read_to_string(&res).unwrap_or_default();
			let g = g.split_once(' ').map(|x| x.1.to_string()).unwrap_or_default();
			c.count("variables asked for and changed", 1);
			others.push((format!("{n}={v}"), g));
		}
	}
	// the same calls here
	let mut seen = Seen::default();
	let before = tree(&inner);
	let mine = series(seed, &inner, &mut seen).and_then(|log| check_files(&inner, &before, &seen).map(|_| log));
	clean();
	c.count("surroundings", 1);
	c.count("calls", seen.calls);
	c.count("files read", seen.read);
	c.count("files written", seen.written);
	if err == Std::Full || err == Std::HungUp {
		c.count("warnings that cannot be printed", seen.warnings);
	}
	let log = match mine {
		Ok(l) => l,
		Err(e) if e.starts_with("harness") => return Err(fail("harness", e, &what)),
		Err(e) => return Err(fail("effect", e, &what)),
	};
	let want = format!("ok {:016x} {}", mix(hash64(log.as_bytes())), log.len());
	if let Some(e) = got.strip_prefix("bad ") {
		return Err(fail(if e.starts_with("harness") { "harness" } else { "effect" }, e, &what));
	}
	if got.is_empty() {
		return Err(fail("died", format!("the process ended with {} and without a result", o.status), &what));
	}
	if let Some(p) = spilled.first() {
		return Err(fail("effect", format!("{p:?} was left in the directory for temporary files or in the home directory"), &what));
	}
	c.count("directories for temporary files watched", (env > 3) as u64);
	if got != want {
		return Err(fail("other-result", format!("the process got {got}, the same calls here {want}"), &what));
	}
	for (v, g) in others {
		if g != want && there == 0 {
			return Err(fail("environment", format!("with the variable {v} the process got {g} instead of {want}"), &what));
		}
	}
	if out == Std::Working {
		c.count("standard output watched", 1);
		if !o.stdout.is_empty() {
			return Err(fail("standard-output", format!("printed to standard output: {:?}", String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(200)])), &what));
		}
	}
	c.sample(|| format!("{what}: {got}"));
	Ok(())
}
