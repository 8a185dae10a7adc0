//! Selector syntax trees, their rendering to text, and their meaning on the reference model.
use crate::model::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Comb {
	Desc,
	Child,
	Next,
	NextAll,
	// only used for method heads
	Parent,
	ParentAll,
	Prev,
	PrevAll,
	Siblings,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Simple {
	Tag(String),
	Any,
	Class(String),
	Id(String),
	/// name, operator ("" presence, "=", "^=", ...), value, quote ("" / "'" / "\"")
	Attr(String, String, String, String),
	/// pseudo name, a (None: no n), b, text as written
	Nth(String, Option<i64>, i64, String),
	Plain(String),
	Not(Vec<Complex>),
	Has(Vec<Complex>),
	Contains(String, String),
}
pub type Compound = Vec<Simple>;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Complex {
	pub parts: Vec<(Comb, Compound)>,
}

pub fn comb_text(c: Comb, tight: bool) -> &'static str {
	match (c, tight) {
		(Comb::Desc, _) => " ",
		(Comb::Child, true) => ">",
		(Comb::Child, false) => " > ",
		(Comb::Next, true) => "+",
		(Comb::Next, false) => " + ",
		(Comb::NextAll, true) => "~",
		(Comb::NextAll, false) => " ~ ",
		_ => panic!(),
	}
}
pub fn show_simple(s: &Simple) -> String {
	match s {
		Simple::Tag(t) => t.clone(),
		Simple::Any => "*".into(),
		Simple::Class(c) => format!(".{}", c),
		Simple::Id(c) => format!("#{}", c),
		Simple::Attr(k, op, v, q) => {
			if op.is_empty() {
				format!("[{}]", k)
			} else {
				format!("[{}{}{}{}{}]", k, op, q, v, q)
			}
		}
		Simple::Nth(p, _, _, txt) => format!(":{}({})", p, txt),
		Simple::Plain(p) => format!(":{}", p),
		Simple::Not(l) => format!(":not({})", show_list(l)),
		Simple::Has(l) => format!(":has({})", show_list(l)),
		Simple::Contains(t, q) => format!(":contains({}{}{})", q, t, q),
	}
}
pub fn show_complex(c: &Complex) -> String {
	let mut s = String::new();
	for (i, (comb, cp)) in c.parts.iter().enumerate() {
		if i > 0 || *comb != Comb::Desc {
			s.push_str(comb_text(*comb, i % 2 == 0));
		}
		for x in cp {
			s.push_str(&show_simple(x));
		}
	}
	s
}
pub fn show_list(l: &[Complex]) -> String {
	l.iter().map(show_complex).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------ meaning
/// position p (1-based) is of the form a*m + b for some m >= 0
pub fn nth_ok(a: Option<i64>, b: i64, p: i64) -> bool {
	match a {
		None | Some(0) => p == b,
		Some(a) => {
			let d = p as i128 - b as i128;
			let a = a as i128;
			d % a == 0 && d / a >= 0
		}
	}
}

pub fn m_simple(t: &Tree, id: usize, s: &Simple) -> bool {
	if !t.is_el(id) {
		return false;
	}
	let sibs = t.el_children(t.parent[id].unwrap_or(id));
	let tag = t.tag(id).to_ascii_lowercase();
	let same: Vec<usize> = sibs.iter().copied().filter(|&s| t.tag(s).eq_ignore_ascii_case(&tag)).collect();
	let p1 = |v: &Vec<usize>| v.iter().position(|&x| x == id).map(|x| x as i64 + 1).unwrap_or(-1);
	let positional = match s {
		Simple::Nth(..) => true,
		Simple::Plain(p) => p.ends_with("-child") || p.ends_with("-of-type"),
		_ => false,
	};
	// without a parent there is no position
	if positional && t.parent[id].is_none() {
		return false;
	}
	match s {
		Simple::Tag(n) => tag == n.to_ascii_lowercase(),
		Simple::Any => true,
		Simple::Class(c) => match t.attr(id, "class") {
			Some(Some(v)) => v.split_ascii_whitespace().any(|x| x == c),
			_ => false,
		},
		Simple::Id(c) => matches!(t.attr(id, "id"), Some(Some(v)) if v == c),
		Simple::Attr(k, op, want, _) => m_attr(t.attr(id, k), op, want),
		Simple::Nth(p, a, b, _) => {
			let pos = match p.as_str() {
				"nth-child" => p1(&sibs),
				"nth-last-child" => sibs.len() as i64 + 1 - p1(&sibs),
				"nth-of-type" => p1(&same),
				"nth-last-of-type" => same.len() as i64 + 1 - p1(&same),
				_ => panic!(),
			};
			nth_ok(*a, *b, pos)
		}
		Simple::Plain(p) => match p.as_str() {
			"first-child" => p1(&sibs) == 1,
			"last-child" => p1(&sibs) == sibs.len() as i64,
			"only-child" => sibs.len() == 1,
			"first-of-type" => p1(&same) == 1,
			"last-of-type" => p1(&same) == same.len() as i64,
			"only-of-type" => same.len() == 1,
			"empty" => t.children[id].iter().all(|&c| matches!(t.kinds[c], Kind::Comment(_))),
			"header" => matches!(tag.as_str(), "h1" | "h2" | "h3" | "h4" | "h5" | "h6"),
			"input" => matches!(tag.as_str(), "input" | "select" | "textarea" | "button"),
			"submit" => matches!(tag.as_str(), "input" | "button") && matches!(t.attr(id, "type"), Some(Some(v)) if v == "submit"),
			"root" => tag == "html" && t.parent[id] == Some(0),
			"checked" => m_checked(t, id),
			_ => panic!("{}", p),
		},
		Simple::Not(l) => !matches_list(t, id, l),
		Simple::Has(l) => t.el_descendants(id).iter().any(|&d| matches_list(t, d, l)),
		Simple::Contains(x, _) => t.text(id).contains(x.as_str()),
	}
}
fn m_checked(t: &Tree, id: usize) -> bool {
	let tag = t.tag(id).to_ascii_lowercase();
	if tag == "input" {
		return matches!(t.attr(id, "type"), Some(Some(v)) if v.eq_ignore_ascii_case("checkbox") || v.eq_ignore_ascii_case("radio"))
			&& t.attr(id, "checked").is_some();
	}
	if tag == "option" {
		if t.attr(id, "selected").is_some() {
			return true;
		}
		let Some(p) = t.parent[id] else { return false };
		if t.is_el(p) && t.tag(p).eq_ignore_ascii_case("select") && t.attr(p, "multiple").is_none() {
			let first = t.el_children(p).into_iter().find(|&c| t.tag(c).eq_ignore_ascii_case("option"));
			// (an option inside an option is not html: it does not count)
			let in_option = |o: usize| t.ancestors(o).into_iter().take_while(|&a| a != p).any(|a| t.is_el(a) && t.tag(a).eq_ignore_ascii_case("option"));
			let any_selected =
				t.el_descendants(p).iter().any(|&o| t.tag(o).eq_ignore_ascii_case("option") && t.attr(o, "selected").is_some() && !in_option(o));
			return first == Some(id) && !any_selected;
		}
	}
	false
}
/// attribute test; `have` None: the attribute is absent, Some(None): present without a value
pub fn m_attr(have: Option<&Option<String>>, op: &str, want: &str) -> bool {
	if op.is_empty() {
		return have.is_some();
	}
	let v: Option<&str> = match have {
		None => None,
		Some(None) => Some(""),
		Some(Some(v)) => Some(v.as_str()),
	};
	match op {
		"=" => v == Some(want),
		"!=" => v != Some(want),
		"^=" => !want.is_empty() && v.map_or(false, |v| v.starts_with(want)),
		"$=" => !want.is_empty() && v.map_or(false, |v| v.ends_with(want)),
		"*=" => !want.is_empty() && v.map_or(false, |v| v.contains(want)),
		"~=" => !want.is_empty() && v.map_or(false, |v| v.split_ascii_whitespace().any(|x| x == want)),
		"|=" => v.map_or(false, |v| v == want || (v.starts_with(want) && v[want.len()..].starts_with('-'))),
		_ => panic!(),
	}
}
pub fn m_compound(t: &Tree, id: usize, c: &Compound) -> bool {
	c.iter().all(|s| m_simple(t, id, s))
}
pub fn follow(t: &Tree, set: &[usize], c: Comb) -> Vec<usize> {
	let mut r = vec![];
	for &e in set {
		match c {
			Comb::Desc => r.extend(t.el_descendants(e)),
			Comb::Child => r.extend(t.el_children(e)),
			Comb::Next => r.extend(t.next_sibs(e).first()),
			Comb::NextAll => r.extend(t.next_sibs(e)),
			Comb::Prev => r.extend(t.prev_sibs(e).last()),
			Comb::PrevAll => r.extend(t.prev_sibs(e)),
			Comb::Siblings => {
				r.extend(t.prev_sibs(e));
				r.extend(t.next_sibs(e));
			}
			Comb::Parent => r.extend(t.parent[e].filter(|&p| t.is_el(p))),
			Comb::ParentAll => r.extend(t.ancestors(e).into_iter().filter(|&p| t.is_el(p))),
		}
	}
	t.sort_doc(&mut r);
	r
}
pub fn eval_from(t: &Tree, ctx: &[usize], c: &Complex, head: Option<Comb>) -> Vec<usize> {
	let mut cur = ctx.to_vec();
	for (i, (comb, cp)) in c.parts.iter().enumerate() {
		let comb = if i == 0 { head.unwrap_or(*comb) } else { *comb };
		cur = follow(t, &cur, comb).into_iter().filter(|&e| m_compound(t, e, cp)).collect();
	}
	cur
}
pub fn eval_list(t: &Tree, ctx: &[usize], l: &[Complex], head: Option<Comb>) -> Vec<usize> {
	let mut r = vec![];
	for c in l {
		r.extend(eval_from(t, ctx, c, head));
	}
	t.sort_doc(&mut r);
	r
}
/// e matches the selector list within the whole document
pub fn matches_list(t: &Tree, e: usize, l: &[Complex]) -> bool {
	l.iter().any(|c| match_rl(t, e, &c.parts))
}
fn match_rl(t: &Tree, e: usize, parts: &[(Comb, Compound)]) -> bool {
	let (comb, cp) = parts.last().unwrap();
	if !m_compound(t, e, cp) {
		return false;
	}
	let rest = &parts[..parts.len() - 1];
	if rest.is_empty() {
		return true;
	}
	let back = match comb {
		Comb::Desc => Comb::ParentAll,
		Comb::Child => Comb::Parent,
		Comb::Next => Comb::Prev,
		Comb::NextAll => Comb::PrevAll,
		_ => panic!(),
	};
	follow(t, &[e], back).into_iter().any(|p| match_rl(t, p, rest))
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Default)]
pub struct SelCfg {
	pub tags: Vec<&'static str>,
	pub classes: Vec<&'static str>,
	pub ids: bool,
	pub attrs: Vec<(&'static str, Vec<&'static str>)>,
	pub ops: Vec<&'static str>,
	pub nth: bool,
	pub plain: Vec<&'static str>,
	pub nested: bool,
	pub contains: Vec<&'static str>,
	pub max_parts: usize,
	pub max_list: usize,
	/// chance (out of 10) that a compound has a pseudo class
	pub pseudo10: usize,
}
pub fn gen_nth(r: &mut Rng) -> (Option<i64>, i64, String) {
	let ws = |r: &mut Rng| if r.chance(1, 4) { " " } else { "" };
	match r.below(12) {
		0 => return (Some(2), 0, "even".into()),
		1 => return (Some(2), 1, "odd".into()),
		_ => {}
	}
	let num = |r: &mut Rng| -> i64 {
		match r.below(12) {
			0 => 10 + r.below(20) as i64,
			_ => r.below(8) as i64,
		}
	};
	if r.chance(1, 4) {
		let b = num(r);
		let (s, v) = match r.below(3) {
			0 => (format!("+{}", b), b),
			1 => (format!("-{}", b), -b),
			_ => (format!("{}", b), b),
		};
		return (None, v, s);
	}
	let neg = r.chance(1, 3);
	let sign = if neg { "-" } else if r.chance(1, 4) { "+" } else { "" };
	let (an, at) = if r.chance(1, 4) { (1, String::new()) } else { let x = num(r); (x, x.to_string()) };
	let a = if neg { -an } else { an };
	if r.chance(1, 5) {
		return (Some(a), 0, format!("{}{}n", sign, at));
	}
	let b = num(r);
	let bneg = r.chance(1, 3);
	let txt = format!("{}{}n{}{}{}{}", sign, at, ws(r), if bneg { "-" } else { "+" }, ws(r), b);
	(Some(a), if bneg { -b } else { b }, txt)
}
pub fn gen_pseudo(r: &mut Rng, c: &SelCfg, depth: usize) -> Option<Simple> {
	let mut kinds = vec![];
	if c.nth {
		kinds.push(0);
		kinds.push(0);
	}
	if !c.plain.is_empty() {
		kinds.push(1);
		kinds.push(1);
	}
	if c.nested && (depth < 1 || depth < 2 && r.chance(1, 2)) {
		kinds.push(2);
		kinds.push(3);
	}
	if !c.contains.is_empty() {
		kinds.push(4);
	}
	if kinds.is_empty() {
		return None;
	}
	Some(match r.pick(&kinds) {
		0 => {
			let p = *r.pick(&["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"]);
			let (a, b, t) = gen_nth(r);
			Simple::Nth(p.into(), a, b, t)
		}
		1 => Simple::Plain(r.pick(&c.plain).to_string()),
		2 => Simple::Not(gen_list(r, &nested_cfg(c), depth + 1)),
		3 => Simple::Has(gen_list(r, &nested_cfg(c), depth + 1)),
		_ => Simple::Contains(r.pick(&c.contains).to_string(), r.pick(&["", "'", "\""]).to_string()),
	})
}
fn nested_cfg(c: &SelCfg) -> SelCfg {
	let mut d = c.clone();
	d.max_list = 2;
	d.max_parts = 2;
	d
}
pub fn gen_compound(r: &mut Rng, c: &SelCfg, depth: usize) -> Compound {
	let mut v = vec![];
	match r.below(10) {
		0..=4 => {
			let t = r.pick(&c.tags).to_string();
			v.push(Simple::Tag(if r.chance(1, 6) { t.to_ascii_uppercase() } else { t }));
		}
		5 => v.push(Simple::Any),
		_ => {}
	}
	if !c.classes.is_empty() && r.chance(1, 3) {
		v.push(Simple::Class(r.pick(&c.classes).to_string()));
	}
	if c.ids && r.chance(1, 12) {
		v.push(Simple::Id(format!("i{}", r.below(3))));
	}
	if !c.attrs.is_empty() && r.chance(1, 5) {
		let (k, vs) = r.pick(&c.attrs).clone();
		let op = r.pick(&c.ops).to_string();
		let val = r.pick(&vs).to_string();
		let q = if val.is_empty() || val.contains(' ') { r.pick(&["'", "\""]).to_string() } else { r.pick(&["", "'", "\""]).to_string() };
		v.push(Simple::Attr(k.into(), op, val, q));
	}
	if r.below(10) < c.pseudo10 || v.is_empty() {
		if let Some(p) = gen_pseudo(r, c, depth) {
			v.push(p);
			if r.chance(1, 5) {
				if let Some(p) = gen_pseudo(r, c, depth) {
					v.push(p);
				}
			}
		}
	}
	if v.is_empty() {
		v.push(Simple::Any);
	}
	v
}
pub fn gen_complex(r: &mut Rng, c: &SelCfg, depth: usize) -> Complex {
	let n = 1 + r.below(c.max_parts.max(1));
	let mut parts = vec![];
	for i in 0..n {
		let comb = if i == 0 { Comb::Desc } else { *r.pick(&[Comb::Desc, Comb::Desc, Comb::Child, Comb::Next, Comb::NextAll]) };
		parts.push((comb, gen_compound(r, c, depth)));
	}
	Complex { parts }
}
pub fn gen_list(r: &mut Rng, c: &SelCfg, depth: usize) -> Vec<Complex> {
	let n = if r.chance(2, 3) { 1 } else { 1 + r.below(c.max_list.max(1)) };
	(0..n).map(|_| gen_complex(r, c, depth)).collect()
}
