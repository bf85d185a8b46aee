//! Supervisor and workers. A case is a pure function of (property, tier, seed, index).
use crate::rng::{hash64, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
	pub sig: String,
	pub msg: String,
	pub input: String,
}
impl Fail {
	pub fn new(sig: &str, msg: impl Into<String>, input: impl Into<String>) -> Fail {
		Fail { sig: sig.to_string(), msg: msg.into(), input: input.into() }
	}
}
pub type R = Result<(), Fail>;

pub struct Ctx {
	pub r: Rng,
	pub idx: u64,
	pub seed: u64,
	pub thorough: bool,
	pub stats: BTreeMap<&'static str, u64>,
	pub distinct: HashSet<u64>,
	pub tried: u64,
	pub samples: Vec<String>,
	pub scratch: PathBuf,
	pub asan: bool,
}
impl Ctx {
	pub fn count(&mut self, k: &'static str, n: u64) {
		*self.stats.entry(k).or_insert(0) += n;
	}
	/// every so often: a size with one enormous dimension (each dimension in turn)
	pub fn huge(&self, period: u64) -> Option<crate::gen::Size> {
		if self.asan || self.idx % period != period - 7 {
			return None;
		}
		Some(crate::gen::Size::Huge((self.idx / period % crate::gen::HUGE as u64) as u8))
	}
	/// records a non-trivial case by its content
	pub fn nontrivial(&mut self, data: &[u8]) {
		self.tried += 1;
		if self.distinct.len() < 2_000_000 {
			self.distinct.insert(hash64(data));
		}
	}
	pub fn sample(&mut self, s: impl FnOnce() -> String) {
		if self.samples.len() < 3 && (self.idx % 37 == 5 || self.samples.is_empty()) {
			let mut t = s();
			if t.len() > 1500 {
				let mut k = 1500;
				while !t.is_char_boundary(k) {
					k -= 1;
				}
				t.truncate(k);
				t.push_str("...");
			}
			self.samples.push(t);
		}
	}
}

pub struct Prop {
	pub id: &'static str,
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub shards: usize,
	/// observed events a full run must reach, else the run is an error: (counter, per mille of cases)
	pub floors: &'static [(&'static str, u64)],
	pub run: fn(&mut Ctx) -> R,
	/// probes for known findings: (signature, probe name)
	pub probes: &'static [&'static str],
}

thread_local! {
	static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static PANIC_ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
		let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let s = format!("panicked at {l}: {m}");
		LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
		if let Ok(mut g) = PANIC_ANY.lock() {
			*g = s;
		}
	}));
}
pub fn last_panic() -> String {
	let s = LAST_PANIC.with(|p| p.borrow().clone());
	if s.is_empty() {
		PANIC_ANY.lock().map(|g| g.clone()).unwrap_or_default()
	} else {
		s
	}
}

/// runs f, turning a panic of the code under test into a message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
	mix(hash64(prop.as_bytes()) ^ mix(seed) ^ mix(idx.wrapping_mul(0x2545F4914F6CDD1D)))
}

pub fn make_ctx(prop: &Prop, thorough: bool, seed: u64, scratch: &Path) -> Ctx {
	let _ = prop;
	Ctx {
		r: Rng::new(0),
		idx: 0,
		seed,
		thorough,
		stats: BTreeMap::new(),
		distinct: HashSet::new(),
		tried: 0,
		samples: Vec::new(),
		scratch: scratch.to_path_buf(),
		asan: option_env!("KMON_ASAN").is_some(),
	}
}

pub fn run_case(prop: &Prop, c: &mut Ctx, idx: u64) -> R {
	c.idx = idx;
	c.r = Rng::new(case_seed(prop.id, c.seed, idx));
	let f = prop.run;
	// now and then something unrelated happens first on the same thread
	if c.r.chance(1, 16) && !c.asan && prop.id != "C18" && prop.id != "C11" {
		let mut r2 = c.r.clone();
		let done = crate::props::disturb(&mut r2).unwrap_or(1);
		c.count("unrelated calls before a case", done);
	}
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c))) {
		Ok(r) => r,
		Err(_) => Err(Fail::new("panic", last_panic(), "(case re-created from its index)")),
	}
}

pub const STACK: usize = 192 << 20;

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
	std::thread::Builder::new().stack_size(STACK).spawn(f).expect("thread").join().expect("worker thread died")
}

fn write_fail(path: &Path, prop: &str, tier: &str, seed: u64, idx: u64, f: &Fail) {
	let s = format!("property={prop}\ntier={tier}\nseed={seed}\nindex={idx}\nsignature={}\n\n{}\n\ninput:\n{}\n", f.sig, f.msg, f.input);
	let _ = fs::write(path, s);
}

/// worker process: cases start, start+step, ... < end
pub fn worker(prop: &'static Prop, tier: String, seed: u64, start: u64, step: u64, end: u64, dir: PathBuf, tag: String, max_secs: u64) -> i32 {
	install_hook();
	on_big_stack(move || {
		let scratch = dir.join(format!("scratch-{tag}"));
		let _ = fs::create_dir_all(&scratch);
		let mut c = make_ctx(prop, tier == "thorough", seed, &scratch);
		let idxf = fs::OpenOptions::new().create(true).write(true).open(dir.join(format!("{tag}.idx"))).expect("index file");
		let t0 = Instant::now();
		let mut i = start;
		let mut fails = 0;
		let mut done = 0u64;
		while i < end {
			idxf.write_all_at(&i.to_le_bytes(), 0).expect("index file");
			let res = run_case(prop, &mut c, i);
			if matches!(&res, Err(f) if f.sig == "harness") {
				// the oracles disagree with each other: no verdict on the library
				c.count("cases without verdict", 1);
				let f = res.unwrap_err();
				write_fail(&dir.join(format!("{tag}-{i}.note")), prop.id, &tier, seed, i, &f);
			} else if let Err(f) = res {
				write_fail(&dir.join(format!("{tag}-{i}.fail")), prop.id, &tier, seed, i, &f);
				fails += 1;
				if fails >= 2 {
					done += 1;
					break;
				}
			}
			done += 1;
			i += step;
			if done % 16 == 0 && t0.elapsed().as_secs() > max_secs {
				break;
			}
		}
		// results
		let mut s = format!("N {done}\nT {}\n", c.tried);
		for (k, v) in &c.stats {
			s.push_str(&format!("C {k} {v}\n"));
		}
		for x in &c.samples {
			s.push_str(&format!("S {}\n", json_str(x)));
		}
		let mut h: Vec<u8> = Vec::with_capacity(c.distinct.len() * 8);
		for x in &c.distinct {
			h.extend_from_slice(&x.to_le_bytes());
		}
		fs::write(dir.join(format!("{tag}.hash")), h).expect("hash file");
		fs::write(dir.join(format!("{tag}.res")), s).expect("result file");
		let _ = fs::remove_dir_all(&scratch);
		0
	})
}

/// runs one case; prints the failure
pub fn one(prop: &'static Prop, tier: String, seed: u64, idx: u64, dir: PathBuf) -> i32 {
	install_hook();
	on_big_stack(move || {
		let _ = fs::create_dir_all(&dir);
		let mut c = make_ctx(prop, tier == "thorough", seed, &dir);
		match run_case(prop, &mut c, idx) {
			Ok(()) => {
				println!("case {idx}: held; observed {:?}", c.stats);
				0
			}
			Err(f) => {
				println!("case {idx}: VIOLATED [{}]\n{}\ninput:\n{}", f.sig, f.msg, f.input);
				1
			}
		}
	})
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
				let mut b = [0u16; 2];
				for u in c.encode_utf16(&mut b) {
					o.push_str(&format!("\\u{:04x}", u));
				}
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn spawn(bin: &Path, args: &[String], asan: bool, cpu: Option<u64>) -> std::io::Result<Child> {
	let mut lim = String::from("ulimit -c 0; ");
	if !asan {
		lim.push_str("ulimit -v 6000000; ");
	}
	if let Some(s) = cpu {
		lim.push_str(&format!("ulimit -t {s}; "));
	}
	lim.push_str("exec \"$0\" \"$@\"");
	let mut c = Command::new("sh");
	c.arg("-c").arg(lim).arg(bin).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
	if asan {
		c.env("ASAN_OPTIONS", "halt_on_error=1:abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:log_path=/dev/null");
	}
	c.spawn()
}

pub struct Phase {
	pub tag: &'static str,
	pub bin: PathBuf,
	pub asan: bool,
	pub start: u64,
	pub end: u64,
}

struct Slot {
	tag: String,
	child: Child,
	last: u64,
	since: Instant,
	restarts: u32,
	idle: Idle,
}

/// watches whether a process does anything at all
#[derive(Default)]
struct Idle {
	cpu: u64,
	seen: u32,
}
impl Idle {
	/// looks at the process once more; true after it, its threads and its children were asleep for 1600 looks in a row
	fn look(&mut self, pid: u32) -> bool {
		let mut cpu = 0;
		let asleep = all_asleep(pid, &mut cpu, 0).unwrap_or(false);
		if asleep && cpu == self.cpu {
			self.seen += 1;
		} else {
			self.seen = 0;
			self.cpu = cpu;
		}
		self.seen >= 1600
	}
}

fn all_asleep(pid: u32, cpu: &mut u64, depth: u32) -> Option<bool> {
	// (the name in parentheses may hold anything)
	let state = |t: &str| -> Option<(String, u64)> {
		let rest: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
		Some((rest.first()?.to_string(), rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?))
	};
	let mut ok = true;
	*cpu += state(&fs::read_to_string(format!("/proc/{pid}/stat")).ok()?)?.1;
	for t in fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
		if state(&fs::read_to_string(t.path().join("stat")).ok()?)?.0 != "S" {
			ok = false;
		}
		if depth < 3 {
			for c in fs::read_to_string(t.path().join("children")).unwrap_or_default().split_whitespace() {
				if !all_asleep(c.parse().ok()?, cpu, depth + 1)? {
					ok = false;
				}
			}
		}
	}
	Some(ok)
}

fn read_idx(dir: &Path, tag: &str) -> Option<u64> {
	let b = fs::read(dir.join(format!("{tag}.idx"))).ok()?;
	if b.len() < 8 {
		return None;
	}
	let mut a = [0u8; 8];
	a.copy_from_slice(&b[..8]);
	Some(u64::from_le_bytes(a))
}

fn describe(st: std::process::ExitStatus) -> String {
	match st.signal() {
		Some(6) => "killed by SIGABRT (abort, stack overflow or out of memory)".into(),
		Some(11) => "killed by SIGSEGV".into(),
		Some(24) => "exceeded its CPU time limit".into(),
		Some(9) => "killed (SIGKILL)".into(),
		Some(s) => format!("killed by signal {s}"),
		None => {
			let c = st.code().unwrap_or(-1);
			match c {
				77 => "AddressSanitizer report".into(),
				134 => "aborted (stack overflow or out of memory)".into(),
				139 => "segmentation fault".into(),
				152 => "exceeded its CPU time limit".into(),
				137 => "killed (SIGKILL)".into(),
				_ => format!("exit code {c}"),
			}
		}
	}
}

pub fn supervise(prop: &'static Prop, tier: &str, seed: u64, root: &Path, phases: Vec<Phase>, notes: Vec<(String, String)>) -> i32 {
	let t0 = Instant::now();
	let dir = root.join(".build").join(format!("run-{}-{}", prop.id, std::process::id()));
	let _ = fs::remove_dir_all(&dir);
	fs::create_dir_all(&dir).expect("run directory");
	let replays = root.join("replays");
	let max_secs: u64 = if tier == "thorough" { 3000 } else { 420 };
	let hang = Duration::from_secs(60);
	let mut violations: Vec<(String, String, PathBuf)> = Vec::new(); // sig, message, replay
	let mut inconclusive: Vec<String> = Vec::new();
	let mut evals = 0u64;
	let mut tried = 0u64;
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let mut samples: Vec<String> = Vec::new();
	let mut stop = false;
	for ph in phases.iter() {
		if stop || ph.end <= ph.start {
			continue;
		}
		let n = prop.shards as u64;
		let mk_args = |tag: &str, start: u64| -> Vec<String> {
			vec!["worker".into(), prop.id.into(), tier.into(), seed.to_string(), start.to_string(), n.to_string(), ph.end.to_string(), dir.to_string_lossy().to_string(), tag.into(), max_secs.to_string()]
		};
		let mut slots: Vec<Slot> = Vec::new();
		for s in 0..n {
			let tag = format!("{}{}", ph.tag, s);
			let child = match spawn(&ph.bin, &mk_args(&tag, ph.start + s), ph.asan, None) {
				Ok(c) => c,
				Err(e) => {
					eprintln!("cannot start worker: {e}");
					return 2;
				}
			};
			slots.push(Slot { tag, child, last: u64::MAX, since: Instant::now(), restarts: 0, idle: Idle::default() });
		}
		let collect = |tag: &str, evals: &mut u64, tried: &mut u64, stats: &mut BTreeMap<String, u64>, hashes: &mut HashSet<u64>, samples: &mut Vec<String>| {
			if let Ok(s) = fs::read_to_string(dir.join(format!("{tag}.res"))) {
				for l in s.lines() {
					if let Some(x) = l.strip_prefix("N ") {
						*evals += x.parse::<u64>().unwrap_or(0);
					} else if let Some(x) = l.strip_prefix("T ") {
						*tried += x.parse::<u64>().unwrap_or(0);
					} else if let Some(x) = l.strip_prefix("C ") {
						if let Some((k, v)) = x.rsplit_once(' ') {
							*stats.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
						}
					} else if let Some(x) = l.strip_prefix("S ") {
						if samples.len() < 6 {
							samples.push(x.to_string());
						}
					}
				}
			}
			if let Ok(b) = fs::read(dir.join(format!("{tag}.hash"))) {
				for c in b.chunks_exact(8) {
					let mut a = [0u8; 8];
					a.copy_from_slice(c);
					hashes.insert(u64::from_le_bytes(a));
				}
			}
		};
		while !slots.is_empty() {
			std::thread::sleep(Duration::from_millis(25));
			let mut k = 0;
			while k < slots.len() {
				let s = &mut slots[k];
				let mut dead: Option<String> = None;
				let mut waiting = false;
				match s.child.try_wait() {
					Ok(Some(st)) => {
						if st.success() {
							collect(&s.tag, &mut evals, &mut tried, &mut stats, &mut hashes, &mut samples);
							slots.remove(k);
							continue;
						}
						dead = Some(describe(st));
					}
					Ok(None) => {
						let cur = read_idx(&dir, &s.tag).unwrap_or(u64::MAX);
						if cur != s.last {
							s.last = cur;
							s.since = Instant::now();
							s.idle = Idle::default();
						} else if s.since.elapsed() > Duration::from_secs(5) && s.idle.look(s.child.id()) {
							let _ = s.child.kill();
							let _ = s.child.wait();
							waiting = true;
							dead = Some("all of its threads waited for ever".into());
						} else if s.since.elapsed() > hang {
							let _ = s.child.kill();
							let _ = s.child.wait();
							dead = Some("made no progress for 60 s".into());
						}
					}
					Err(e) => {
						eprintln!("wait failed: {e}");
						return 2;
					}
				}
				if let Some(why) = dead {
					let idx = match read_idx(&dir, &s.tag) {
						None => {
							eprintln!("worker {} died before its first case: {why}", s.tag);
							let _ = fs::remove_dir_all(&dir);
							return 2;
						}
						Some(i) => i,
					};
					// confirm alone, with a limit on CPU time
					let args = vec!["one".into(), prop.id.into(), tier.to_string(), seed.to_string(), idx.to_string(), dir.join("confirm").to_string_lossy().to_string()];
					let cpu = if ph.asan { 200 } else { 40 };
					let mut confirmed = if waiting { Some("deadlock".to_string()) } else { None };
					if waiting {
						// seen as it is: nothing to confirm
					} else if let Ok(mut c) = spawn(&ph.bin, &args, ph.asan, Some(cpu)) {
						let a = Instant::now();
						let mut idle = Idle::default();
						loop {
							match c.try_wait() {
								Ok(Some(st)) => {
									if !st.success() {
										confirmed = Some(describe(st));
									}
									break;
								}
								Ok(None) => {
									if idle.look(c.id()) {
										let _ = c.kill();
										let _ = c.wait();
										confirmed = Some("all of its threads waited for ever".to_string());
										break;
									}
									if a.elapsed() > Duration::from_secs(250) {
										let _ = c.kill();
										let _ = c.wait();
										break;
									}
									std::thread::sleep(Duration::from_millis(20));
								}
								Err(_) => break,
							}
						}
					}
					match confirmed {
						Some(w) => {
							let f = Fail::new("process-died", format!("the process running this case died: {w} (first seen: {why})"), "(case re-created from its index)");
							write_fail(&dir.join(format!("{}-{idx}.fail", s.tag)), prop.id, tier, seed, idx, &f);
							slots.remove(k);
							// one is enough
							for s in slots.iter_mut() {
								let _ = s.child.kill();
								let _ = s.child.wait();
							}
							slots.clear();
							continue;
						}
						None => {
							inconclusive.push(format!("worker died at case {idx} ({why}) but the case alone did not"));
							s.restarts += 1;
							if s.restarts > 3 {
								slots.remove(k);
								continue;
							}
							match spawn(&ph.bin, &mk_args(&s.tag, idx + n), ph.asan, None) {
								Ok(c) => {
									s.child = c;
									s.last = u64::MAX;
									s.since = Instant::now();
								}
								Err(_) => {
									slots.remove(k);
									continue;
								}
							}
						}
					}
				}
				k += 1;
			}
		}
		if let Ok(rd) = fs::read_dir(&dir) {
			for e in rd.flatten() {
				let p = e.path();
				if p.extension().map(|x| x == "note").unwrap_or(false) && inconclusive.len() < 10 {
					inconclusive.push(fs::read_to_string(&p).unwrap_or_default().chars().take(400).collect());
				}
			}
		}
		// failures of this phase
		if let Ok(rd) = fs::read_dir(&dir) {
			for e in rd.flatten() {
				let p = e.path();
				if p.extension().map(|x| x == "fail").unwrap_or(false) {
					let t = fs::read_to_string(&p).unwrap_or_default();
					let sig = t.lines().find_map(|l| l.strip_prefix("signature=")).unwrap_or("").to_string();
					let idx = t.lines().find_map(|l| l.strip_prefix("index=")).unwrap_or("0").to_string();
					let msg: String = t.split("\n\n").nth(1).unwrap_or("").chars().take(600).collect();
					let _ = fs::create_dir_all(&replays);
					let dst = replays.join(format!("{}-{}-{}.txt", prop.id, seed, idx));
					let _ = fs::copy(&p, &dst);
					violations.push((sig, msg, dst));
					let _ = fs::remove_file(&p);
				}
			}
		}
		if !violations.is_empty() {
			stop = true;
		}
	}
	let _ = fs::remove_dir_all(&dir);

	// known findings: open ones listed in the committed file
	let known = known_findings(root, prop.id);
	for (sig, what) in &known {
		// the probe decides whether it still fails
		if prop.probes.iter().any(|p| p == sig) {
			match crate::props::probe(sig, root) {
				Some(true) => println!("KNOWN-FINDING: property={} {}", prop.id, what),
				Some(false) => {}
				None => inconclusive.push(format!("probe {sig} gave no answer")),
			}
		}
	}
	for p in prop.probes {
		if !known.iter().any(|(s, _)| s == p) {
			if let Some(true) = crate::props::probe(p, root) {
				let _ = fs::create_dir_all(&replays);
				let dst = replays.join(format!("{}-{}.txt", prop.id, p));
				let _ = fs::write(&dst, format!("property={}\nprobe={p}\n", prop.id));
				violations.push((p.to_string(), format!("probe {p} fails"), dst));
			}
		}
	}
	violations.retain(|v| !known.iter().any(|(s, _)| *s == v.0));
	violations.sort_by(|a, b| a.2.cmp(&b.2));

	let planned: u64 = phases.iter().map(|p| p.end - p.start).sum();
	// evidence
	let ev = root.join("evidence");
	let _ = fs::create_dir_all(&ev);
	let mut cov = String::new();
	cov.push_str(&format!("\"evaluations\": {},\n  \"cases\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]", evals.max(tried), hashes.len(), json_str(prop.rule), samples.join(", ")));
	cov.push_str(&format!(",\n  \"planned_cases\": {planned}"));
	cov.push_str(",\n  \"observed\": {");
	let mut first = true;
	for (k, v) in &stats {
		cov.push_str(&format!("{}{}: {}", if first { "" } else { ", " }, json_str(k), v));
		first = false;
	}
	cov.push('}');
	cov.push_str(",\n  \"phases\": [");
	for (i, p) in phases.iter().enumerate() {
		cov.push_str(&format!("{}{{\"build\": {}, \"cases\": {}}}", if i > 0 { ", " } else { "" }, json_str(p.tag), p.end - p.start));
	}
	cov.push(']');
	for (k, v) in &notes {
		cov.push_str(&format!(",\n  {}: {}", json_str(k), json_str(v)));
	}
	cov.push_str(&format!(",\n  \"inconclusive\": [{}]", inconclusive.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")));
	let out = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {cov}\n }},\n \"assumptions\": [\"generated workloads; oracles are the reference models of /verif/harness\"],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
		json_str(prop.id),
		json_str(tier),
		t0.elapsed().as_secs_f64(),
		violations.len()
	);
	if let Ok(mut f) = fs::File::create(ev.join(format!("{}.json", prop.id))) {
		let _ = f.write_all(out.as_bytes());
	}
	for m in &inconclusive {
		println!("INCONCLUSIVE: {m}");
	}
	if !violations.is_empty() {
		for (sig, msg, p) in violations.iter().take(5) {
			println!("[{sig}] {msg}");
			println!("VIOLATION property={} replay={}", prop.id, p.display());
		}
		return 1;
	}
	// a run that observed too little is an error, not a pass
	for (k, per_mille) in prop.floors {
		let got = stats.get(*k).copied().unwrap_or(0);
		let want = evals * per_mille / 1000;
		if got < want {
			println!("ERROR: monitor observed only {got} x {k:?}, expected at least {want}");
			return 2;
		}
	}
	let unclear = stats.get("cases without verdict").copied().unwrap_or(0);
	if unclear * 50 > evals {
		println!("ERROR: {unclear} of {evals} cases gave no verdict");
		return 2;
	}
	if evals == 0 || evals * 10 < planned {
		println!("ERROR: only {evals} of {planned} cases were evaluated");
		return 2;
	}
	println!("{}: held on {evals} cases ({} distinct non-trivial) in {:.1} s", prop.id, hashes.len(), t0.elapsed().as_secs_f64());
	for (k, v) in &stats {
		println!("  observed {v:>12} {k}");
	}
	0
}

/// open entries of known-findings.txt: "finding: property=Cxx signature=<sig> <what>"
pub fn known_findings(root: &Path, id: &str) -> Vec<(String, String)> {
	let mut v = Vec::new();
	if let Ok(s) = fs::read_to_string(root.join("known-findings.txt")) {
		for l in s.lines() {
			if let Some(x) = l.strip_prefix("finding: ") {
				let mut it = x.splitn(3, ' ');
				let p = it.next().and_then(|a| a.strip_prefix("property=")).unwrap_or("");
				let g = it.next().and_then(|a| a.strip_prefix("signature=")).unwrap_or("");
				let w = it.next().unwrap_or("");
				if p == id && !g.is_empty() {
					v.push((g.to_string(), w.to_string()));
				}
			}
		}
	}
	v
}
