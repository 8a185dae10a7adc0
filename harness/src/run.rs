//! Driver. `vh run KIND SEED LO HI STEP OUT` checks the cases LO, LO+STEP, .. < HI and writes OUT.json;
//! OUT.cur always names the case being run, so that a crash or a hang can be attributed to it.
//! `vh replay FILE` runs one recorded case again; `vh case KIND SEED IDX` prints one.
use crate::gen::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize)]
pub struct Replay {
	pub kind: String,
	pub seed: u64,
	pub idx: u64,
	pub error: String,
	pub case: Case,
}
#[derive(Serialize)]
struct Out {
	kind: String,
	cases: u64,
	nontrivial: u64,
	distinct_nontrivial: u64,
	fails: u64,
	samples: Vec<String>,
	first: Option<Replay>,
}

pub fn run_case(c: &Case) -> Result<bool, String> {
	match catch_unwind(AssertUnwindSafe(|| check(c))) {
		Ok(r) => r,
		Err(e) => {
			let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
			Err(format!("PANIC: {} on {}", m, brief(c)))
		}
	}
}
fn brief(c: &Case) -> String {
	let s = describe(c);
	s.chars().take(900).collect()
}

pub fn main() {
	let a: Vec<String> = std::env::args().collect();
	std::panic::set_hook(Box::new(|_| {}));
	match a[1].as_str() {
		"run" => {
			let num = |i: usize| -> u64 { a[i].parse().unwrap() };
			let (kind, seed, lo, hi, step) = (a[2].clone(), num(3), num(4), num(5), num(6));
			let cur = std::fs::File::create(format!("{}.cur", a[7])).unwrap();
			let mut o = Out { kind: kind.clone(), cases: 0, nontrivial: 0, distinct_nontrivial: 0, fails: 0, samples: vec![], first: None };
			let mut seen: HashSet<u64> = HashSet::new();
			let mut best = usize::MAX;
			let mut i = lo;
			while i < hi {
				cur.write_all_at(format!("{:020}", i).as_bytes(), 0).unwrap();
				let c = gen(&kind, seed, i).expect("kind");
				o.cases += 1;
				match run_case(&c) {
					Ok(false) => {}
					Ok(true) => {
						o.nontrivial += 1;
						let mut h = std::collections::hash_map::DefaultHasher::new();
						let d = serde_json::to_string(&c).unwrap();
						d.hash(&mut h);
						if seen.insert(h.finish()) {
							o.distinct_nontrivial += 1;
							if o.samples.len() < 3 && i >= lo + 7 * step {
								o.samples.push(brief(&c));
							}
						}
					}
					Err(e) => {
						o.fails += 1;
						// keep the smallest failing case
						let len = serde_json::to_string(&c).unwrap().len();
						if len < best {
							best = len;
							o.first = Some(Replay { kind: kind.clone(), seed, idx: i, error: e, case: c });
						}
						if o.fails >= 200 {
							break;
						}
					}
				}
				i += step;
			}
			let hb: Vec<u8> = seen.iter().flat_map(|h| h.to_le_bytes()).collect();
			std::fs::write(format!("{}.hash", a[7]), hb).unwrap();
			std::fs::write(format!("{}.json", a[7]), serde_json::to_string(&o).unwrap()).unwrap();
			std::process::exit(if o.fails > 0 { 1 } else { 0 });
		}
		"replay" => {
			let r: Replay = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
			println!("case: {}", brief(&r.case));
			match run_case(&r.case) {
				Ok(_) => println!("the property holds on this case"),
				Err(e) => {
					println!("FAILS: {}", e);
					std::process::exit(1);
				}
			}
		}
		"case" => {
			let c = gen(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()).unwrap();
			println!("{}", serde_json::to_string(&Replay { kind: a[2].clone(), seed: a[3].parse().unwrap(), idx: a[4].parse().unwrap(), error: String::new(), case: c }).unwrap());
		}
		_ => panic!("usage"),
	}
}
