//! Per property: the idx-th case (deterministic in seed and idx), and its check.
use crate::model::*;
use crate::mutate::*;
use crate::misc::*;
use crate::query::*;
use crate::sel::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
	Query(QueryCase),
	Order(QueryCase),
	Mut(MutCase),
	Attr(AttrCase),
	Text(TextCase),
	Copy(CopyCase),
	Syntax(SyntaxCase),
}

pub fn base_sel() -> SelCfg {
	SelCfg {
		tags: vec!["div", "p", "b"],
		classes: vec!["x", "y", "z"],
		ids: true,
		attrs: vec![("k", vec!["v", "v-w", ""])],
		ops: vec!["", "=", "!=", "^=", "$=", "*=", "~=", "|="],
		nth: false,
		plain: vec![],
		nested: false,
		contains: vec![],
		max_parts: 3,
		max_list: 3,
		pseudo10: 0,
	}
}
pub fn full_sel() -> SelCfg {
	SelCfg {
		nth: true,
		plain: vec!["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "empty", "header", "input"],
		nested: true,
		contains: vec!["t", "uv", "tu", ""],
		pseudo10: 4,
		..base_sel()
	}
}

fn single_part(r: &mut Rng, c: &SelCfg) -> Vec<Complex> {
	let mut c = c.clone();
	c.max_parts = 1;
	if r.chance(1, 3) {
		return vec![];
	}
	gen_list(r, &c, 0)
}

pub fn gen_nav(r: &mut Rng, c: &SelCfg) -> Op {
	match r.below(12) {
		0..=7 => {
			let m = ["children", "parent", "parents", "next", "next_all", "prev", "prev_all", "siblings"][r.below(8)];
			Op::Nav(m.into(), single_part(r, c))
		}
		8 => Op::Closest(gen_list(r, c, 0)),
		_ => {
			let m = ["next_until", "prev_until", "parents_until"][r.below(3)];
			let u = if r.chance(1, 5) { vec![] } else { gen_list(r, c, 0) };
			let f = if r.chance(1, 2) { vec![] } else { gen_list(r, c, 0) };
			Op::Until(m.into(), u, f, r.chance(1, 2))
		}
	}
}
pub fn gen_setop(r: &mut Rng, t: &Tree, c: &SelCfg) -> Op {
	let s = gen_subset(r, t);
	match r.below(13) {
		0..=3 => Op::Add(s),
		4 => Op::FilterIn(s),
		5 => Op::NotIn(s),
		6 => Op::HasIn(s),
		7 => Op::IsIn(s),
		8 => Op::IsAllIn(s),
		9 => Op::Filter(gen_list(r, c, 0)),
		10 => Op::Not(gen_list(r, c, 0)),
		11 => Op::Is(gen_list(r, c, 0)),
		_ => Op::IsAll(gen_list(r, c, 0)),
	}
}
pub fn gen_match(r: &mut Rng, c: &SelCfg) -> Op {
	let l = gen_list(r, c, 0);
	match r.below(10) {
		0..=5 => Op::Find(l),
		6 => Op::Filter(l),
		7 => Op::Not(l),
		8 => Op::Has(l),
		_ => {
			if r.chance(1, 2) {
				Op::Is(l)
			} else {
				Op::IsAll(l)
			}
		}
	}
}

fn query(r: &mut Rng, g: &GenCfg, f: impl Fn(&mut Rng, &Tree) -> Vec<Op>) -> QueryCase {
	let tree = gen_tree(r, g);
	let ctx = gen_ctx(r, &tree);
	let ops = f(r, &tree);
	// the document itself is a starting point only for what leads to elements
	let lead = matches!(&ops[0], Op::Find(_) | Op::Has(_) | Op::Nav(..) | Op::Until(..));
	let ctx = if ctx == vec![0] && !lead { tree.els() } else { ctx };
	QueryCase { tree, ctx, ops, out: None, copied: false }
}
/// now and then inside an element that was removed
fn maybe_out(r: &mut Rng, c: QueryCase) -> QueryCase {
	if r.chance(1, 6) {
		out(r, c)
	} else {
		c
	}
}
fn out(r: &mut Rng, mut c: QueryCase) -> QueryCase {
	let tops: Vec<usize> = c.tree.els().into_iter().filter(|&e| !c.tree.el_children(e).is_empty()).collect();
	if tops.is_empty() {
		return c;
	}
	let o = *r.pick(&tops);
	let mut all = vec![o];
	all.extend(c.tree.el_descendants(o));
	let den = 1 + r.below(3);
	c.ctx = all.iter().copied().filter(|_| r.chance(1, den)).collect();
	c.out = Some(o);
	c
}

pub fn gen(prop: &str, seed: u64, idx: u64) -> Option<Case> {
	let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx));
	r.next();
	let mut g = GenCfg::default();
	g.max_nodes = 3 + (idx % 12) as usize;
	if idx % 16 == 15 {
		g.max_nodes = 30;
	}
	if idx % 64 == 63 {
		g.max_nodes = 80;
	}
	g.shape = [0, 0, 1, 2][(idx / 3 % 4) as usize];
	g.messy = idx % 5 == 4;
	Some(match prop {
		"sel" => {
			let q = query(&mut r, &g, |r, _| vec![gen_match(r, &base_sel())]);
			Case::Query(maybe_out(&mut r, q))
		}
		"pseudo" if idx % 16 == 7 => Case::Query(gen_form(&mut r)),
		"pseudo" => {
			let mut s = full_sel();
			if idx % 4 == 3 {
				// forms and the root element
				g.tags = vec!["option", "option", "select", "optgroup", "input", "button", "html", "h6"];
				g.attrs = vec![("type", vec![None, Some("checkbox"), Some("RADIO"), Some("submit"), Some("text")]), ("checked", vec![None, Some("checked")]), ("selected", vec![None, Some("")]), ("multiple", vec![None])];
				s.plain.extend(["checked", "checked", "checked", "submit", "root", "root"]);
				s.attrs = vec![("type", vec!["checkbox", "submit"]), ("checked", vec!["checked"])];
			} else {
				g.tags = vec!["div", "p", "b", "h1", "input"];
			}
			s.tags = g.tags.clone();
			let q = query(&mut r, &g, |r, _| vec![if r.chance(1, 8) { gen_nav(r, &s) } else { gen_match(r, &s) }]);
			Case::Query(maybe_out(&mut r, q))
		}
		"nav" => {
			let q = query(&mut r, &g, |r, _| vec![gen_nav(r, &base_sel())]);
			Case::Query(maybe_out(&mut r, q))
		}
		"set" => Case::Query(query(&mut r, &g, |r, t| vec![gen_setop(r, t, &base_sel())])),
		"order" => Case::Order(query(&mut r, &g, |r, t| {
			let n = 1 + r.below(4);
			(0..n)
				.map(|_| match r.below(3) {
					0 => gen_match(r, &base_sel()),
					1 => gen_nav(r, &base_sel()),
					_ => gen_setop(r, t, &base_sel()),
				})
				.collect()
		})),
		"pos" => Case::Query(query(&mut r, &g, |r, _| {
			let n = |r: &mut Rng| match r.below(12) {
				0 => usize::MAX,
				1 => usize::MAX - 1,
				_ => r.below(8),
			};
			vec![match r.below(14) {
				0 => Op::Eq(n(r)),
				1 => Op::First,
				2 => Op::Last,
				3 => Op::Map,
				4 => Op::ForEach(if r.chance(1, 2) { u64::MAX ^ (1 << r.below(6)) } else { r.next() }, r.chance(1, 2)),
				5 => Op::FilterBy(r.next()),
				6 => Op::NotBy(r.next()),
				7 => Op::IsBy(1 << r.below(12)),
				8 => Op::IsAllBy(if r.chance(1, 2) { u64::MAX } else { u64::MAX ^ (1 << r.below(12)) }),
				9 => Op::Cloned,
				_ => Op::Slice(r.below(7) as u8, n(r), n(r)),
			}]
		})),
		"nth" => Case::Query(gen_nth_case(&mut r, idx)),
		"attrm" => Case::Query(gen_attrm(&mut r, idx)),
		"mut" | "ins" => {
			g.texts = vec!["t", "uv"];
			let s = base_sel();
			Case::Mut(gen_mut(&mut r, &g, 6, prop == "ins", &|r, _| plain_query(r, &s)))
		}
		"class" => Case::Attr(gen_attr(&mut r, true)),
		"attr" => Case::Attr(gen_attr(&mut r, false)),
		"text" => {
			g.texts = vec!["t", "uv", "w x"];
			Case::Text(gen_text(&mut r, &g))
		}
		// queries inside a copy
		"copy" if idx % 4 == 3 => {
			let s = full_sel();
			g.tags = s.tags.clone();
			let q = query(&mut r, &g, |r, _| vec![if r.chance(1, 3) { gen_nav(r, &s) } else { gen_match(r, &s) }]);
			let mut q = out(&mut r, q);
			q.copied = q.out.is_some();
			Case::Query(q)
		}
		"copy" => Case::Copy(gen_copy(&mut r, &g)),
		"syntax" => Case::Syntax(gen_syntax(&mut r, &full_sel())),
		_ => return None,
	})
}

pub fn describe(c: &Case) -> String {
	match c {
		Case::Query(q) | Case::Order(q) => {
			let ops: Vec<String> = q.ops.iter().map(show_op).collect();
			format!("html={:?} on nodes {:?}: {}", q.tree.html(), q.ctx, ops.join(" . "))
		}
		c => format!("{:?}", c),
	}
}

pub fn check(c: &Case) -> Result<bool, String> {
	match c {
		Case::Query(q) => check_query(q, false),
		Case::Order(q) => check_query(q, true),
		Case::Mut(m) => check_mut(m),
		Case::Attr(m) => check_attr(m),
		Case::Text(m) => check_text(m),
		Case::Copy(m) => check_copy(m),
		Case::Syntax(m) => check_syntax(m),
	}
}

pub const NTHS: [&str; 4] = ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"];
/// number of cases that enumerate every (pseudo, a, b, n) of the small domain before random ones start
pub const NTH_EXH: u64 = 4 * 11 * 21 * 9;
fn nth_text(r: &mut Rng, a: Option<i64>, b: i64) -> String {
	let sp = if r.chance(1, 3) { *r.pick(&[(" ", ""), ("", " "), (" ", " "), ("  ", "\t")]) } else { ("", "") };
	let out = if r.chance(1, 6) { *r.pick(&[(" ", ""), ("", " "), (" ", " ")]) } else { ("", "") };
	let b_txt = |b: i64| if b < 0 { format!("{}-{}{}", sp.0, sp.1, b.unsigned_abs()) } else { format!("{}+{}{}", sp.0, sp.1, b) };
	let plus = r.chance(1, 5);
	format!("{}{}{}", out.0, nth_core(r, a, b, plus, &b_txt), out.1)
}
fn nth_core(r: &mut Rng, a: Option<i64>, b: i64, plus: bool, b_txt: &dyn Fn(i64) -> String) -> String {
	match a {
		None if plus && b >= 0 => format!("+{}", b),
		None => format!("{}", b),
		Some(2) if b == 0 && r.chance(1, 3) => "even".into(),
		Some(2) if b == 1 && r.chance(1, 3) => "odd".into(),
		Some(a) => {
			let at = match a {
				1 if r.chance(1, 2) => String::new(),
				-1 if r.chance(1, 2) => "-".into(),
				0 if plus => "-0".into(),
				a if plus && a > 0 => format!("+{}", a),
				a => a.to_string(),
			};
			if b == 0 && r.chance(1, 2) {
				format!("{}n", at)
			} else {
				format!("{}n{}", at, b_txt(b))
			}
		}
	}
}
fn gen_nth_case(r: &mut Rng, idx: u64) -> QueryCase {
	let (p, a, b, n);
	if idx < NTH_EXH {
		let mut k = idx;
		p = NTHS[(k % 4) as usize];
		k /= 4;
		// a in -4..=5, plus "no a"
		a = match k % 11 {
			10 => None,
			x => Some(x as i64 - 4),
		};
		k /= 11;
		b = (k % 21) as i64 - 10;
		k /= 21;
		n = k as usize;
	} else {
		p = *r.pick(&NTHS);
		let big = |r: &mut Rng| -> i64 {
			let v = match r.below(8) {
				// larger numbers are saturated by the library: out of the stated range
				0 => i64::MAX / 4,
				1 => i64::MAX / 4 - r.below(4) as i64,
				2 => i64::MAX / 8 + r.below(3) as i64,
				3 => 1 << 31,
				_ => r.below(45) as i64,
			};
			if r.chance(1, 2) { -v } else { v }
		};
		a = if r.chance(1, 5) { None } else { Some(big(r)) };
		b = big(r);
		n = r.below(40);
	}
	let mut t = Tree::new();
	let root = t.el(0, "ul");
	let mix = idx < NTH_EXH || r.chance(1, 2);
	for i in 0..n {
		let tag = if p.ends_with("child") { if mix { "b" } else { ["b", "p", "div"][r.below(3)] } } else { ["b", "b", "p"][r.below(3)] };
		let tag = if p.ends_with("type") && idx < NTH_EXH { ["b", "p"][i % 2] } else { tag };
		if r.chance(1, 6) {
			t.add(root, Kind::Comment("c".into()));
		}
		let id = t.el(root, tag);
		if r.chance(1, 12) && idx >= NTH_EXH {
			t.add(root, Kind::Text("x".into()));
			t.el(id, "i");
		}
	}
	let txt = nth_text(r, a, b);
	let mut cp = vec![];
	if r.chance(1, 3) {
		cp.push(Simple::Tag("b".into()));
	}
	cp.push(Simple::Nth(p.into(), a, b, txt));
	let comb = if r.chance(1, 2) { Comb::Desc } else { Comb::Child };
	let l = vec![Complex { parts: vec![(Comb::Desc, vec![Simple::Tag("ul".into())]), (comb, cp.clone())] }];
	let l1 = vec![Complex { parts: vec![(Comb::Desc, cp)] }];
	let els = t.els();
	let kids: Vec<usize> = els.iter().copied().filter(|&e| e != root).collect();
	let (ctx, op) = match r.below(6) {
		0..=2 => (vec![0], Op::Find(l)),
		3 => (vec![root], Op::Nav("children".into(), l1)),
		4 if !kids.is_empty() => (kids, Op::Filter(l1)),
		5 if !kids.is_empty() => (kids, Op::Not(l1)),
		_ => (vec![root], Op::Find(l1)),
	};
	QueryCase { tree: t, ctx, ops: vec![op], out: None, copied: false }
}

/// a select with options and groups of options, some of them selected
fn gen_form(r: &mut Rng) -> QueryCase {
	let mut t = Tree::new();
	let form = t.el(0, "form");
	for _ in 0..1 + r.below(2) {
		let sel = t.el(form, "select");
		if r.chance(1, 5) {
			*t.attrs_mut(sel) = vec![("multiple".into(), None)];
		}
		for _ in 0..r.below(5) {
			let grp = r.chance(1, 3);
			let p = if grp { t.el(sel, "optgroup") } else { sel };
			for _ in 0..if grp { r.below(3) } else { 1 } {
				let tag = if r.chance(1, 8) { "p" } else { "option" };
				let o = t.el(p, tag);
				if r.chance(1, 4) {
					*t.attrs_mut(o) = vec![("selected".into(), if r.chance(1, 2) { None } else { Some("selected".into()) })];
				}
			}
			if r.chance(1, 6) {
				t.add(sel, Kind::Comment("c".into()));
			}
		}
	}
	for _ in 0..r.below(3) {
		let i = t.el(form, "input");
		let mut at: Vec<(String, Option<String>)> = vec![];
		if r.chance(4, 5) {
			at.push(("type".into(), Some(r.pick(&["checkbox", "radio", "RADIO", "submit", "text", "checkbox2"]).to_string())));
		}
		if r.chance(1, 2) {
			at.push(("checked".into(), if r.chance(1, 2) { None } else { Some("".into()) }));
		}
		*t.attrs_mut(i) = at;
	}
	let tag = |n: &str| Simple::Tag(n.into());
	let chk = Simple::Plain(r.pick(&["checked", "checked", "checked", "submit", "input"]).to_string());
	let cp = if r.chance(1, 4) { vec![tag("option"), chk] } else { vec![chk] };
	let l = vec![Complex { parts: if r.chance(1, 3) { vec![(Comb::Desc, vec![tag("select")]), (Comb::Desc, cp)] } else { vec![(Comb::Desc, cp)] } }];
	let els = t.els();
	let (ctx, op) = match r.below(4) {
		0 | 1 => (vec![0], Op::Find(l)),
		2 => (els, Op::Filter(l)),
		_ => (els, Op::Not(l)),
	};
	QueryCase { tree: t, ctx, ops: vec![op], out: None, copied: false }
}
/// one or two elements with rich attribute values / texts, one simple selector
fn gen_attrm(r: &mut Rng, idx: u64) -> QueryCase {
	let alpha = ["a", "b", "ab", "-", " ", "\t", "A", "\u{e9}", "-a", "\u{4e2d}", ".", "'"];
	let gen_v = |r: &mut Rng, max: usize| -> String {
		let n = r.below(max + 1);
		(0..n).map(|_| *r.pick(&alpha)).collect()
	};
	let mut t = Tree::new();
	let n = 1 + r.below(4);
	let mut pool = vec![];
	for _ in 0..n {
		let p = if t.kinds.len() > 1 && r.chance(1, 3) { 1 } else { 0 };
		let tag = *r.pick(&["div", "p", "b", "custom-tag", "H1"]);
		let e = t.el(p, tag);
		let mut at = vec![];
		if r.chance(4, 5) {
			let v = if r.chance(1, 10) { None } else { Some(gen_v(r, 5)) };
			if let Some(v) = &v {
				pool.push(v.clone());
			}
			let name = *r.pick(&["k", "data-k", "K", "class"]);
			at.push((name.to_string(), v));
		}
		if r.chance(1, 4) {
			at.push(("kk".into(), Some(gen_v(r, 3))));
		}
		*t.attrs_mut(e) = at;
		if r.chance(1, 2) {
			let v = gen_v(r, 5).replace('\t', " ");
			if !v.trim().is_empty() {
				pool.push(v.clone());
				t.add(e, Kind::Text(v));
			}
		}
	}
	// a wanted value: a piece of an existing one, perhaps disturbed
	let mut want = if pool.is_empty() || r.chance(1, 5) { gen_v(r, 3) } else {
		let v: Vec<char> = r.pick(&pool).chars().collect();
		let a = r.below(v.len() + 1);
		let b = a + r.below(v.len() - a + 1);
		match r.below(4) {
			0 => v[..b].iter().collect(),
			1 => v[a..].iter().collect(),
			2 => v.iter().collect(),
			_ => v[a..b].iter().collect(),
		}
	};
	want = want.replace('\'', "").replace('\t', " ");
	let s = match (idx + r.below(2) as u64) % 6 {
		0..=3 => {
			let op = *r.pick(&["", "=", "!=", "^=", "$=", "*=", "~=", "|="]);
			let q = *r.pick(&["'", "\""]);
			let simple = !want.is_empty() && want.chars().all(|c| c.is_ascii_alphanumeric() || c == '-');
			let q = if simple && r.chance(1, 3) { "" } else { q };
			Simple::Attr(r.pick(&["k", "data-k", "K", "class", "kk"]).to_string(), op.into(), want, q.into())
		}
		4 => {
			let q = *r.pick(&["'", "\""]);
			Simple::Contains(want, q.into())
		}
		_ => match r.below(3) {
			0 => Simple::Tag(r.pick(&["div", "p", "b", "custom-tag", "h1", "H1", "DIV", "bb", "di"]).to_string()),
			1 => Simple::Class(r.pick(&["a", "b", "ab", "A", "aa", "aab", "ba"]).to_string()),
			_ => Simple::Any,
		},
	};
	let l = vec![Complex { parts: vec![(Comb::Desc, vec![s])] }];
	let els = t.els();
	let (ctx, op) = match r.below(5) {
		0 | 1 => (vec![0], Op::Find(l)),
		2 => (els, Op::Filter(l)),
		3 => (els, Op::Not(l)),
		_ => (vec![*r.pick(&els)], Op::Is(l)),
	};
	QueryCase { tree: t, ctx, ops: vec![op], out: None, copied: false }
}
