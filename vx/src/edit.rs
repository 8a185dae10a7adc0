//! Source edits as templates with holes. A hole is a range of the original text, rendered with the
//! edits that lie inside it, so that edits nest.
#[derive(Clone, Debug)]
pub enum Piece {
	Lit(String),
	Src(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Edit {
	pub lo: usize,
	pub hi: usize,
	pub pieces: Vec<Piece>,
	/// insertions at the same place keep this order
	pub rank: i32,
}
pub struct Edits<'a> {
	pub text: &'a str,
	pub v: Vec<Edit>,
}
impl<'a> Edits<'a> {
	pub fn new(text: &'a str) -> Self {
		Edits { text, v: vec![] }
	}
	pub fn insert(&mut self, at: usize, s: String) {
		let rank = self.v.len() as i32;
		self.v.push(Edit { lo: at, hi: at, pieces: vec![Piece::Lit(s)], rank });
	}
	pub fn replace(&mut self, lo: usize, hi: usize, pieces: Vec<Piece>) {
		let rank = self.v.len() as i32;
		self.v.push(Edit { lo, hi, pieces, rank });
	}
	pub fn render(&self, lo: usize, hi: usize) -> String {
		let all: Vec<&Edit> = self.v.iter().collect();
		self.render_in(lo, hi, &all)
	}
	fn render_in(&self, lo: usize, hi: usize, edits: &[&Edit]) -> String {
		// the edits inside, outermost first at each place
		let mut v: Vec<&Edit> = edits.iter().copied().filter(|e| e.lo >= lo && e.hi <= hi).collect();
		v.sort_by(|a, b| {
			// at the same place: pure insertions first, then larger before smaller
			let ins = |e: &Edit| if e.lo == e.hi { 0 } else { 1 };
			a.lo.cmp(&b.lo).then(ins(a).cmp(&ins(b))).then(b.hi.cmp(&a.hi)).then(a.rank.cmp(&b.rank))
		});
		let mut out = String::new();
		let mut at = lo;
		let mut done: Vec<i32> = vec![];
		for e in &v {
			if e.lo < at || done.contains(&e.rank) {
				continue;
			}
			// an insertion at the left border of a hole belongs to the hole only if it is not already behind us
			out.push_str(&self.text[at..e.lo]);
			let rest: Vec<&Edit> = edits.iter().copied().filter(|x| x.rank != e.rank && !done.contains(&x.rank)).collect();
			for p in &e.pieces {
				match p {
					Piece::Lit(s) => out.push_str(s),
					Piece::Src(a, b) => out.push_str(&self.render_in(*a, *b, &rest)),
				}
			}
			done.push(e.rank);
			at = e.hi;
		}
		out.push_str(&self.text[at..hi]);
		out
	}
}
