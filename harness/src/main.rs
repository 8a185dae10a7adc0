mod model;
mod mutate;
mod misc;
mod query;
mod sel;
mod gen;
mod run;

fn main() {
	run::main();
}
