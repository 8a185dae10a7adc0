//! Cases over read-only queries: selection, filtering, navigation, set algebra, positions.
use crate::model::*;
use crate::sel::*;
use serde::{Deserialize, Serialize};
use visdom::types::Elements;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Find(Vec<Complex>),
	Filter(Vec<Complex>),
	Not(Vec<Complex>),
	Has(Vec<Complex>),
	Is(Vec<Complex>),
	IsAll(Vec<Complex>),
	/// method name, optional compound selector list
	Nav(String, Vec<Complex>),
	/// method name, until, filter, contains
	Until(String, Vec<Complex>, Vec<Complex>, bool),
	Closest(Vec<Complex>),
	Add(Vec<usize>),
	FilterIn(Vec<usize>),
	NotIn(Vec<usize>),
	HasIn(Vec<usize>),
	IsIn(Vec<usize>),
	IsAllIn(Vec<usize>),
	Eq(usize),
	First,
	Last,
	/// kind 0 a..b, 1 a..=b, 2 a.., 3 ..b, 4 ..=b, 5 .., 6 (Excluded(a), Excluded(b))
	Slice(u8, usize, usize),
	/// callbacks: the k-th call answers bit k of the mask
	FilterBy(u64),
	NotBy(u64),
	IsBy(u64),
	IsAllBy(u64),
	/// map: every element once, in order, with its index
	Map,
	/// for_each / each: stops at the first call that answers false
	ForEach(u64, bool),
	/// cloned: the same elements
	Cloned,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueryCase {
	pub tree: Tree,
	pub ctx: Vec<usize>,
	pub ops: Vec<Op>,
	/// this element is removed first, all happens inside it
	#[serde(default)]
	pub out: Option<usize>,
	/// it is copied, not removed
	#[serde(default)]
	pub copied: bool,
}

pub enum Val {
	Set(Vec<usize>),
	Bool(bool),
	Seen(Vec<(usize, usize)>),
}
fn bit(m: u64, k: usize) -> bool {
	m >> (k % 64) & 1 == 1
}

fn uniq(t: &Tree, mut v: Vec<usize>) -> Vec<usize> {
	t.sort_doc(&mut v);
	v
}

pub fn slice_bounds(kind: u8, a: usize, b: usize, n: usize) -> (usize, usize) {
	let (s, e): (u128, u128) = match kind {
		0 => (a as u128, b as u128),
		1 => (a as u128, b as u128 + 1),
		2 => (a as u128, n as u128),
		3 => (0, b as u128),
		4 => (0, b as u128 + 1),
		5 => (0, n as u128),
		_ => (a as u128 + 1, b as u128),
	};
	let n = n as u128;
	let e = e.min(n);
	let s = s.min(e);
	(s as usize, e as usize)
}

pub fn model_op(t: &Tree, cur: &[usize], op: &Op) -> Val {
	use Val::*;
	match op {
		Op::Find(l) => Set(eval_list(t, cur, l, None)),
		Op::Filter(l) => Set(cur.iter().copied().filter(|&e| matches_list(t, e, l)).collect()),
		Op::Not(l) => Set(cur.iter().copied().filter(|&e| !matches_list(t, e, l)).collect()),
		Op::Has(l) => Set(cur.iter().copied().filter(|&e| t.el_descendants(e).iter().any(|&d| matches_list(t, d, l))).collect()),
		Op::Is(l) => Bool(cur.iter().any(|&e| matches_list(t, e, l))),
		Op::IsAll(l) => Bool(!cur.is_empty() && cur.iter().all(|&e| matches_list(t, e, l))),
		Op::Nav(m, l) => {
			let comb = match m.as_str() {
				"children" => Comb::Child,
				"parent" => Comb::Parent,
				"parents" => Comb::ParentAll,
				"next" => Comb::Next,
				"next_all" => Comb::NextAll,
				"prev" => Comb::Prev,
				"prev_all" => Comb::PrevAll,
				"siblings" => Comb::Siblings,
				_ => panic!(),
			};
			Set(if l.is_empty() {
				follow(t, cur, comb)
			} else {
				eval_list(t, cur, l, Some(comb))
			})
		}
		Op::Until(m, u, f, contains) => {
			let mut r = vec![];
			for &e in cur {
				let mut x = match m.as_str() {
					"next_until" => t.next_sibs(e),
					"prev_until" => {
						let mut v = t.prev_sibs(e);
						v.reverse();
						v
					}
					_ => t.ancestors(e).into_iter().filter(|&p| t.is_el(p)).collect(),
				};
				if let Some(k) = x.iter().position(|&y| matches_list(t, y, u)) {
					x.truncate(if *contains { k + 1 } else { k });
				}
				r.extend(x.into_iter().filter(|&y| f.is_empty() || matches_list(t, y, f)));
			}
			Set(uniq(t, r))
		}
		Op::Closest(l) => {
			let mut r = vec![];
			for &e in cur {
				let mut v = vec![e];
				v.extend(t.ancestors(e));
				if let Some(&x) = v.iter().find(|&&x| t.is_el(x) && matches_list(t, x, l)) {
					r.push(x);
				}
			}
			Set(uniq(t, r))
		}
		Op::Add(b) => {
			let mut v = cur.to_vec();
			v.extend(b);
			Set(uniq(t, v))
		}
		Op::FilterIn(b) => Set(cur.iter().copied().filter(|e| b.contains(e)).collect()),
		Op::NotIn(b) => Set(cur.iter().copied().filter(|e| !b.contains(e)).collect()),
		Op::HasIn(b) => Set(cur.iter().copied().filter(|&e| t.el_descendants(e).iter().any(|d| b.contains(d))).collect()),
		Op::IsIn(b) => Bool(cur.iter().any(|e| b.contains(e))),
		Op::IsAllIn(b) => Bool(cur.iter().all(|e| b.contains(e))),
		Op::Eq(i) => Set(cur.get(*i).copied().into_iter().collect()),
		Op::First => Set(cur.first().copied().into_iter().collect()),
		Op::Last => Set(cur.last().copied().into_iter().collect()),
		Op::Slice(k, a, b) => {
			let (s, e) = slice_bounds(*k, *a, *b, cur.len());
			Set(cur[s..e].to_vec())
		}
		Op::FilterBy(m) => Set((0..cur.len()).filter(|&k| bit(*m, k)).map(|k| cur[k]).collect()),
		Op::NotBy(m) => Set((0..cur.len()).filter(|&k| !bit(*m, k)).map(|k| cur[k]).collect()),
		Op::IsBy(m) => Bool((0..cur.len()).any(|k| bit(*m, k))),
		Op::IsAllBy(m) => Bool((0..cur.len()).all(|k| bit(*m, k))),
		Op::Map => Seen(cur.iter().copied().enumerate().collect()),
		Op::ForEach(m, _) => {
			let n = (0..cur.len()).position(|k| !bit(*m, k)).map_or(cur.len(), |k| k + 1);
			Seen(cur[..n].iter().copied().enumerate().collect())
		}
		Op::Cloned => Set(cur.to_vec()),
	}
}

pub enum RVal<'a> {
	Set(Elements<'a>),
	Bool(bool),
	Seen(Vec<(usize, Result<usize, String>)>),
}
/// an operation must leave its argument as it was
fn with<'a, T>(b: &Bound<'a>, x: &[usize], f: impl Fn(&Elements<'a>) -> T) -> T {
	let o = b.set(x);
	let r = f(&o);
	assert!(b.ids(&o) == Ok(x.to_vec()), "the other set was changed");
	r
}
pub fn real_op<'a>(b: &Bound<'a>, cur: &Elements<'a>, op: &Op) -> RVal<'a> {
	use RVal::*;
	use std::ops::Bound as Bd;
	match op {
		Op::Find(l) => Set(cur.find(&show_list(l))),
		Op::Filter(l) => Set(cur.filter(&show_list(l))),
		Op::Not(l) => Set(cur.not(&show_list(l))),
		Op::Has(l) => Set(cur.has(&show_list(l))),
		Op::Is(l) => Bool(cur.is(&show_list(l))),
		Op::IsAll(l) => Bool(cur.is_all(&show_list(l))),
		Op::Nav(m, l) => {
			let s = show_list(l);
			Set(match m.as_str() {
				"children" => cur.children(&s),
				"parent" => cur.parent(&s),
				"parents" => cur.parents(&s),
				"next" => cur.next(&s),
				"next_all" => cur.next_all(&s),
				"prev" => cur.prev(&s),
				"prev_all" => cur.prev_all(&s),
				"siblings" => cur.siblings(&s),
				_ => panic!(),
			})
		}
		Op::Until(m, u, f, c) => {
			let (u, f) = (show_list(u), show_list(f));
			Set(match m.as_str() {
				"next_until" => cur.next_until(&u, &f, *c),
				"prev_until" => cur.prev_until(&u, &f, *c),
				"parents_until" => cur.parents_until(&u, &f, *c),
				_ => panic!(),
			})
		}
		Op::Closest(l) => Set(cur.closest(&show_list(l))),
		Op::Add(x) => Set(cur.add(b.set(x))),
		Op::FilterIn(x) => Set(with(b, x, |o| cur.filter_in(o))),
		Op::NotIn(x) => Set(with(b, x, |o| cur.not_in(o))),
		Op::HasIn(x) => Set(with(b, x, |o| cur.has_in(o))),
		Op::IsIn(x) => Bool(with(b, x, |o| cur.is_in(o))),
		Op::IsAllIn(x) => Bool(with(b, x, |o| cur.is_all_in(o))),
		Op::Eq(i) => Set(cur.eq(*i)),
		Op::First => Set(cur.first()),
		Op::Last => Set(cur.last()),
		Op::Slice(k, s, e) => Set(match k {
			0 => cur.slice(*s..*e),
			1 => cur.slice(*s..=*e),
			2 => cur.slice(*s..),
			3 => cur.slice(..*e),
			4 => cur.slice(..=*e),
			5 => cur.slice(..),
			_ => cur.slice((Bd::Excluded(*s), Bd::Excluded(*e))),
		}),
		Op::FilterBy(m) => Set(cur.filter_by(|k, _| bit(*m, k))),
		Op::NotBy(m) => Set(cur.not_by(|k, _| bit(*m, k))),
		Op::IsBy(m) => Bool(cur.is_by(|k, _| bit(*m, k))),
		Op::IsAllBy(m) => Bool(cur.is_all_by(|k, _| bit(*m, k))),
		Op::Map => Seen(cur.map(|k, e| (k, b.id_of(e)))),
		Op::ForEach(m, short) => {
			let mut seen = vec![];
			let mut c = cur.cloned();
			let h = |k: usize, e: &mut visdom::types::BoxDynElement| {
				seen.push((k, b.id_of(e)));
				bit(*m, k)
			};
			if *short {
				c.each(h);
			} else {
				c.for_each(h);
			}
			Seen(seen)
		}
		Op::Cloned => Set(cur.cloned()),
	}
}

pub fn show_op(op: &Op) -> String {
	let s = |l: &Vec<Complex>| format!("{:?}", show_list(l));
	match op {
		Op::Find(l) => format!("find({})", s(l)),
		Op::Filter(l) => format!("filter({})", s(l)),
		Op::Not(l) => format!("not({})", s(l)),
		Op::Has(l) => format!("has({})", s(l)),
		Op::Is(l) => format!("is({})", s(l)),
		Op::IsAll(l) => format!("is_all({})", s(l)),
		Op::Nav(m, l) => format!("{}({})", m, s(l)),
		Op::Until(m, u, f, c) => format!("{}({}, {}, {})", m, s(u), s(f), c),
		Op::Closest(l) => format!("closest({})", s(l)),
		o => format!("{:?}", o),
	}
}

/// run the whole chain on both sides; after every step contents AND order must agree
pub fn check_query(c: &QueryCase, order_only: bool) -> Result<bool, String> {
	let mut b = match bind(&c.tree) {
		Ok(b) => b,
		Err(e) => return Err(format!("SKIP {}", e)),
	};
	let mut t = c.tree.clone();
	if let Some(o) = c.out {
		if c.copied {
			b = b.copy_of(&t, o).map_err(|e| format!("copy of {} in {:?}: {}", o, c.tree.html(), e))?;
		} else {
			b.set(&[o]).remove();
		}
		t.detach(o);
	}
	let t = &t;
	let mut cur = c.ctx.clone();
	let mut real = b.set(&cur);
	let mut desc = format!("html={:?} {} {:?} ctx={:?}", c.tree.html(), if c.copied { "copied" } else { "removed" }, c.out, c.ctx);
	let mut nontrivial = false;
	for op in &c.ops {
		desc.push_str(" .");
		desc.push_str(&show_op(op));
		let want = model_op(t, &cur, op);
		let got = real_op(&b, &real, op);
		if b.ids(&real).as_ref() != Ok(&cur) {
			return Err(format!("{}: the set itself was changed to {:?}", desc, b.ids(&real)));
		}
		match (want, got) {
			(Val::Bool(w), RVal::Bool(g)) => {
				if !order_only && w != g {
					return Err(format!("{}: got {}, expected {}", desc, g, w));
				}
				nontrivial |= w;
				return Ok(nontrivial);
			}
			(Val::Set(w), RVal::Set(g)) => {
				let ids = b.ids(&g).map_err(|e| format!("{}: {}", desc, e))?;
				if g.length() != ids.len() || g.is_empty() != ids.is_empty() || g.get(ids.len()).is_some() {
					return Err(format!("{}: length {} / is_empty {} / get() disagree on {:?}", desc, g.length(), g.is_empty(), ids));
				}
				if order_only {
					let paths: Vec<_> = ids.iter().map(|&i| t.path(i)).collect();
					for k in 1..paths.len() {
						if paths[k - 1] == paths[k] {
							return Err(format!("{}: duplicate in result {:?}", desc, ids));
						}
						if paths[k - 1] > paths[k] {
							return Err(format!("{}: result {:?} is not in document order", desc, ids));
						}
					}
					nontrivial |= ids.len() > 1;
					cur = ids;
				} else {
					if ids != w {
						return Err(format!("{}: got nodes {:?}, expected {:?}", desc, ids, w));
					}
					nontrivial |= !w.is_empty();
					cur = w;
				}
				real = g;
			}
			(Val::Seen(w), RVal::Seen(g)) => {
				let mut gg = vec![];
				for (k, e) in g {
					gg.push((k, e.map_err(|e| format!("{}: {}", desc, e))?));
				}
				if gg != w {
					return Err(format!("{}: visited (index, node) {:?}, expected {:?}", desc, gg, w));
				}
				return Ok(!w.is_empty());
			}
			_ => return Err("internal: kinds differ".into()),
		}
	}
	Ok(nontrivial)
}

pub fn gen_ctx(r: &mut Rng, t: &Tree) -> Vec<usize> {
	let els = t.els();
	if els.is_empty() || r.chance(1, 5) {
		return vec![0];
	}
	if r.chance(1, 24) {
		return vec![];
	}
	let den = 1 + r.below(4);
	let mut v: Vec<usize> = els.iter().copied().filter(|_| r.chance(1, den)).collect();
	if v.is_empty() {
		v.push(*r.pick(&els));
	}
	v
}
pub fn gen_subset(r: &mut Rng, t: &Tree) -> Vec<usize> {
	let els = t.els();
	let den = 1 + r.below(4);
	els.iter().copied().filter(|_| r.chance(1, den)).collect()
}
