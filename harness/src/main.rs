mod alloc;
mod edit;
mod expat;
mod gen;
mod model;
mod props;
mod refparse;
mod refser;
mod rng;
mod runner;
mod snap;
mod surface;

use std::path::PathBuf;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let code = real_main(&a);
	std::process::exit(code);
}

fn real_main(a: &[String]) -> i32 {
	let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
	match arg(1).as_str() {
		"run" => {
			// run <id> <tier> <seed> <root> [asan-binary]
			let prop = match props::find(&arg(2)) {
				Some(p) => p,
				None => {
					eprintln!("unknown property {}", arg(2));
					return 2;
				}
			};
			let tier = arg(3);
			let seed: u64 = arg(4).parse().unwrap_or(1);
			let root = PathBuf::from(arg(5));
			let n = if tier == "thorough" { prop.thorough } else { prop.quick };
			let n = std::env::var("KMON_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(n);
			let mut phases = vec![runner::Phase { tag: "main", bin: std::env::current_exe().unwrap(), asan: false, start: 0, end: n }];
			if a.len() > 6 && !arg(6).is_empty() {
				phases.push(runner::Phase { tag: "asan", bin: PathBuf::from(arg(6)), asan: true, start: n, end: n + n / 6 });
			}
			let mut notes = Vec::new();
			if let Ok(x) = std::env::var("KMON_NOTE") {
				notes.push(("extra_phase".to_string(), x));
			}
			runner::supervise(prop, &tier, seed, &root, phases, notes)
		}
		"worker" => {
			let prop = props::find(&arg(2)).expect("property");
			runner::worker(prop, arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6).parse().unwrap(), arg(7).parse().unwrap(), PathBuf::from(arg(8)), arg(9), arg(10).parse().unwrap())
		}
		"one" => {
			let prop = props::find(&arg(2)).expect("property");
			runner::one(prop, arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap(), PathBuf::from(arg(6)))
		}
		// children of particular checks
		"child" => props::child(&a[2..]),
		// a small in-process batch of every property (interpreters)
		"mini" => {
			runner::install_hook();
			let seed: u64 = arg(2).parse().unwrap_or(1);
			let n: u64 = arg(3).parse().unwrap_or(5);
			props::mini(seed, n)
		}
		_ => {
			eprintln!("usage: kmon run|worker|one|child|mini ...");
			2
		}
	}
}
