//! vx SPEC REPO OUT [--vacuity] [--stub KEY]...
//! Takes the functions a spec file names out of REPO's current sources, puts their contracts beside them and
//! writes one Verus file. What became of every function is printed as JSON.
mod edit;
mod rules;
mod spec;
mod src;

fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn main() {
	let a: Vec<String> = std::env::args().collect();
	let mut opts = spec::Opts::default();
	let mut i = 4;
	while i < a.len() {
		match a[i].as_str() {
			"--vacuity" => opts.vacuity = true,
			"--stub" => {
				i += 1;
				opts.stubs.push(a[i].clone());
			}
			_ => panic!("argument"),
		}
		i += 1;
	}
	match spec::run(&a[1], &a[2], &opts) {
		Ok((t, done)) => {
			std::fs::write(&a[3], t).expect("write");
			let l: Vec<String> = done
				.iter()
				.map(|d| {
					format!(
						"{{\"key\":{},\"name\":{},\"from\":{},\"to\":{},\"stub\":{},\"props\":[{}],\"lost\":{}}}",
						js(&d.key),
						js(&d.name),
						d.lines.0,
						d.lines.1,
						d.stub,
						d.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
						d.lost.as_ref().map_or("null".to_string(), |e| js(e))
					)
				})
				.collect();
			println!("[{}]", l.join(",\n"));
		}
		Err(e) => {
			eprintln!("LOST-ANCHOR {}", e);
			std::process::exit(3);
		}
	}
}
