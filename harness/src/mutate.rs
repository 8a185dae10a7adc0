//! Cases over mutation histories: every step is done on the real document and on the model,
//! then the whole real tree is walked and compared with the model.
use crate::model::*;
use crate::query::*;
use crate::sel::*;
use serde::{Deserialize, Serialize};
use visdom::types::{BoxDynElement, BoxDynNode, Elements, INodeType};
use visdom::Vis;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
	/// elements of the document (or detached ones), in this order
	Ids(Vec<usize>),
	/// a new fragment
	Frag(Tree),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
	Remove(Vec<usize>),
	Empty(Vec<usize>),
	SetText(Vec<usize>, String),
	SetHtml(Vec<usize>, Tree),
	/// 0 append, 1 prepend, 2 before, 3 after; called from the source side (append_to, ...) or not
	Insert(u8, Vec<usize>, Src, bool),
	Replace(Vec<usize>, Src),
	/// k-th direct text node of the element: 0 remove, 1 append_text, 2 prepend_text, 3 set_html, 4 set_text
	Text(usize, usize, u8, String, Option<Tree>),
	Query(Vec<usize>, Op),
	/// set or remove the id of one element
	Id(usize, Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MutCase {
	pub tree: Tree,
	pub ops: Vec<Mut>,
}

// ------------------------------------------------------------------ model side
fn graft(t: &mut Tree, f: &Tree) -> Vec<usize> {
	// copy the fragment's nodes into t as detached nodes, give back the ids of its top level nodes
	let base = t.kinds.len();
	let mut tops = vec![];
	for i in 1..f.kinds.len() {
		t.kinds.push(f.kinds[i].clone());
		let p = f.parent[i].unwrap();
		t.parent.push(if p == 0 { None } else { Some(base + p - 1) });
		t.children.push(f.children[i].iter().map(|&c| base + c - 1).collect());
	}
	for &c in &f.children[0] {
		tops.push(base + c - 1);
	}
	tops
}
fn can_insert(t: &Tree, target: usize, node: usize, need_parent: bool) -> bool {
	t.is_el(target) && node != target && node != 0 && !t.ancestors(target).contains(&node) && (!need_parent || t.parent[target].is_some())
}
fn place(t: &mut Tree, kind: u8, target: usize, nodes: &[usize]) {
	for &n in nodes {
		t.detach(n);
	}
	let (p, mut at) = match kind {
		0 => (target, t.children[target].len()),
		1 => (target, 0),
		2 => (t.parent[target].unwrap(), t.pos(target)),
		_ => (t.parent[target].unwrap(), t.pos(target) + 1),
	};
	for &n in nodes {
		t.insert_at(p, at, n);
		at += 1;
	}
}
fn m_insert(t: &mut Tree, kind: u8, targets: &[usize], src: &Src) {
	match src {
		Src::Ids(ids) => {
			for &e in targets {
				let seq: Vec<usize> = if kind == 0 || kind == 2 { ids.clone() } else { ids.iter().rev().copied().collect() };
				for n in seq {
					if can_insert(t, e, n, kind >= 2) {
						place(t, kind, e, &[n]);
					}
				}
			}
		}
		Src::Frag(f) => {
			// the first target that can take it gets the whole fragment
			if let Some(&e) = targets.iter().find(|&&e| t.is_el(e) && (kind < 2 || t.parent[e].is_some())) {
				let tops = graft(t, f);
				place(t, kind, e, &tops);
			}
		}
	}
}
fn m_replace(t: &mut Tree, targets: &[usize], src: &Src) {
	match src {
		Src::Ids(ids) => {
			for &e in targets {
				if let Some((&last, others)) = ids.split_last() {
					let mut cur = e;
					if can_insert(t, e, last, true) {
						place(t, 2, e, &[last]);
						t.detach(e);
						cur = last;
					}
					for &n in others {
						if can_insert(t, cur, n, true) {
							place(t, 2, cur, &[n]);
						}
					}
				}
			}
		}
		Src::Frag(f) => {
			if let Some(&e) = targets.iter().find(|&&e| t.parent[e].is_some()) {
				let tops = graft(t, f);
				if !tops.is_empty() {
					place(t, 2, e, &tops);
					t.detach(e);
				}
			}
		}
	}
}
fn clear(t: &mut Tree, id: usize) {
	for c in t.children[id].clone() {
		t.detach(c);
	}
}
fn m_text_nodes(t: &Tree, id: usize) -> Vec<usize> {
	t.children[id].iter().copied().filter(|&c| matches!(t.kinds[c], Kind::Text(_))).collect()
}
pub fn m_apply(t: &mut Tree, m: &Mut) {
	match m {
		Mut::Remove(v) => {
			for &e in v {
				t.detach(e);
			}
		}
		Mut::Empty(v) => v.iter().for_each(|&e| clear(t, e)),
		Mut::SetText(v, s) => {
			for &e in v {
				clear(t, e);
				if !s.is_empty() {
					t.add(e, Kind::Text(s.clone()));
				}
			}
		}
		Mut::SetHtml(v, f) => {
			for &e in v {
				clear(t, e);
				let tops = graft(t, f);
				place(t, 0, e, &tops);
			}
		}
		Mut::Insert(k, v, s, _) => m_insert(t, *k, v, s),
		Mut::Replace(v, s) => m_replace(t, v, s),
		Mut::Text(e, k, op, s, f) => {
			let tx = m_text_nodes(t, *e);
			if tx.is_empty() {
				return;
			}
			let id = tx[k % tx.len()];
			match op {
				0 => t.detach(id),
				1 | 2 | 4 => {
					if let Kind::Text(x) = &mut t.kinds[id] {
						match op {
							1 => x.push_str(s),
							2 => x.insert_str(0, s),
							_ => {
								if !s.is_empty() {
									*x = s.clone()
								}
							}
						}
					}
				}
				_ => {
					let at = t.pos(id);
					t.detach(id);
					let tops = graft(t, f.as_ref().unwrap());
					for (i, n) in tops.into_iter().enumerate() {
						t.insert_at(*e, at + i, n);
					}
				}
			}
		}
		Mut::Query(..) => {}
		Mut::Id(e, v) => {
			let a = t.attrs_mut(*e);
			match v {
				None => a.retain(|x| x.0 != "id"),
				Some(v) => {
					if let Some(x) = a.iter_mut().find(|x| x.0 == "id") {
						x.1 = Some(v.clone());
					} else {
						a.push(("id".into(), Some(v.clone())));
					}
				}
			}
		}
	}
}

// ------------------------------------------------------------------ real side
fn r_apply<'a>(b: &Bound<'a>, m: &Mut) -> Result<(), String> {
	let set = |v: &Vec<usize>| b.set(v);
	match m {
		Mut::Remove(v) => set(v).remove(),
		Mut::Empty(v) => {
			set(v).empty();
		}
		Mut::SetText(v, s) => {
			set(v).set_text(s);
		}
		Mut::SetHtml(v, f) => {
			set(v).set_html(&f.html());
		}
		Mut::Insert(k, v, s, flip) => {
			let mut target = set(v);
			let mut src = real_src(b, s)?;
			match (k, flip) {
				(0, false) => drop(target.append(&mut src)),
				(0, true) => drop(src.append_to(&mut target)),
				(1, false) => drop(target.prepend(&mut src)),
				(1, true) => drop(src.prepend_to(&mut target)),
				(2, false) => drop(target.before(&mut src)),
				(2, true) => drop(src.insert_before(&mut target)),
				(_, false) => drop(target.after(&mut src)),
				(_, true) => drop(src.insert_after(&mut target)),
			}
		}
		Mut::Replace(v, s) => {
			let mut target = set(v);
			let mut src = real_src(b, s)?;
			target.replace_with(&mut src);
		}
		Mut::Text(e, k, op, s, f) => {
			let e = b.map[*e].as_ref().unwrap();
			let n = e.child_nodes_length();
			let mut tx = vec![];
			for i in 0..n {
				let c = e.child_nodes_item(i).unwrap();
				if let INodeType::Text = c.node_type() {
					tx.push(c);
				}
			}
			if tx.is_empty() {
				return Ok(());
			}
			let k = k % tx.len();
			let node: BoxDynNode = tx.swap_remove(k);
			let mut t = node.typed().into_text().ok_or("not a text")?;
			match op {
				0 => t.remove(),
				1 => t.append_text(s),
				2 => t.prepend_text(s),
				4 => {
					if !s.is_empty() {
						t.set_text(s)
					}
				}
				_ => t.set_html(&f.as_ref().unwrap().html()),
			}
		}
		Mut::Query(..) => {}
		Mut::Id(e, v) => {
			let mut s = set(&vec![*e]);
			match v {
				None => drop(s.remove_attr("id")),
				Some(v) => drop(s.set_attr("id", Some(v))),
			}
		}
	}
	Ok(())
}
fn real_src<'a>(b: &Bound<'a>, s: &Src) -> Result<Elements<'a>, String> {
	Ok(match s {
		Src::Ids(v) => b.set(v),
		Src::Frag(f) => Vis::load(f.html()).map_err(|e| e.to_string())?,
	})
}

/// walk the real tree from `e`, compare with the model below `id`
fn walk<'a>(t: &Tree, id: usize, e: &BoxDynElement<'a>, map: &mut Vec<Option<BoxDynElement<'a>>>) -> Result<(), String> {
	let n = e.child_nodes_length();
	let ch = &t.children[id];
	if n != ch.len() {
		return Err(format!("node {} has {} child nodes, expected {}", id, n, ch.len()));
	}
	let mut els: Vec<BoxDynElement<'a>> = vec![];
	for (i, &c) in ch.iter().enumerate() {
		let node: BoxDynNode<'a> = e.child_nodes_item(i).ok_or("missing child")?;
		if node.index() != i {
			return Err(format!("child {} of node {} says its index is {}", i, id, node.index()));
		}
		match node.parent() {
			Some(p) if p.is(e) => {}
			Some(_) => return Err(format!("child {} of node {} has another parent", i, id)),
			None => return Err(format!("child {} of node {} has no parent", i, id)),
		}
		match (&t.kinds[c], node.node_type()) {
			(Kind::El { tag, .. }, INodeType::Element) => {
				let ce = node.typed().into_element().ok_or("not an element")?;
				if !ce.tag_name().eq_ignore_ascii_case(tag) {
					return Err(format!("node {} is a <{}>, expected <{}>", c, ce.tag_name(), tag));
				}
				match &map[c] {
					Some(m) => {
						if !m.is(&ce) {
							return Err(format!("position {} below node {} holds another element than expected", i, id));
						}
					}
					None => map[c] = Some(ce.cloned()),
				}
				walk(t, c, &ce, map)?;
				els.push(ce);
			}
			(Kind::Text(s), INodeType::Text) => {
				let got: String = node.text_chars().into_iter().collect();
				if got != *s {
					return Err(format!("text node {} is {:?}, expected {:?}", c, got, s));
				}
			}
			(Kind::Comment(_), INodeType::Comment) => {}
			(k, _) => return Err(format!("child {} of node {} has the wrong kind, expected {:?}", i, id, k)),
		}
	}
	for i in 0..els.len() {
		let nx = els[i].next_element_sibling();
		let pv = els[i].previous_element_sibling();
		let ok = |x: &Option<BoxDynElement>, w: Option<&BoxDynElement>| match (x, w) {
			(None, None) => true,
			(Some(a), Some(b)) => a.is(b),
			_ => false,
		};
		if !ok(&nx, els.get(i + 1)) || !ok(&pv, if i == 0 { None } else { els.get(i - 1) }) {
			return Err(format!("wrong neighbours of element child {} of node {}", i, id));
		}
	}
	Ok(())
}

pub fn check_mut(c: &MutCase) -> Result<bool, String> {
	let mut t = c.tree.clone();
	let mut b = match bind(&t) {
		Ok(b) => b,
		Err(e) => return Err(format!("SKIP {}", e)),
	};
	// keep every fragment alive is NOT needed: nodes are owned by their parent
	let mut desc = format!("html={:?}", t.html());
	let mut changed = false;
	for m in &c.ops {
		desc.push_str(&format!(" ; {}", show_mut(m)));
		if let Mut::Query(ctx, op) = m {
			let want = model_op(&t, ctx, op);
			let got = real_op(&b, &b.set(ctx), op);
			match (want, got) {
				(Val::Bool(w), RVal::Bool(g)) => {
					if w != g {
						return Err(format!("{}: got {}, expected {} (document now {:?})", desc, g, w, t.html()));
					}
				}
				(Val::Set(w), RVal::Set(g)) => {
					let ids = b.ids(&g).map_err(|e| format!("{}: {}", desc, e))?;
					if ids != w {
						return Err(format!("{}: got nodes {:?}, expected {:?} (document now {:?})", desc, ids, w, t.html()));
					}
				}
				_ => {}
			}
			continue;
		}
		let before = t.html();
		m_apply(&mut t, m);
		changed |= before != t.html();
		r_apply(&b, m).map_err(|e| format!("{}: {}", desc, e))?;
		while b.map.len() < t.kinds.len() {
			b.map.push(None);
		}
		let r0 = b.root.get(0).unwrap().cloned();
		let fail = |e: String| format!("{}: {} (expected document {:?}, got {:?})", desc, e, t.html(), b.root.get(0).unwrap().outer_html());
		let mut map = vec![];
		for x in &b.map {
			map.push(x.as_ref().map(|x| x.cloned()));
		}
		walk(&t, 0, &r0, &mut map).map_err(fail)?;
		// detached parts: no parent, and their own subtree is intact
		for id in 1..t.kinds.len() {
			if t.is_el(id) && t.parent[id].is_none() {
				if let Some(e) = b.map[id].as_ref().map(|x| x.cloned()) {
					if e.parent().is_some() {
						return Err(format!("{}: detached node {} still has a parent", desc, id));
					}
					walk(&t, id, &e, &mut map).map_err(|e| format!("{}: in detached node {}: {}", desc, id, e))?;
				}
			}
		}
		b.map = map;
		let got = r0.outer_html();
		// a removed attribute may leave its blank behind
		let same = if c.ops.iter().any(|m| matches!(m, Mut::Id(_, None))) {
			let n = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").replace(" >", ">");
			n(&got) == n(&t.html())
		} else {
			got == t.html()
		};
		if !same {
			return Err(format!("{}: serialized {:?}, expected {:?}", desc, got, t.html()));
		}
	}
	Ok(changed)
}
pub fn show_mut(m: &Mut) -> String {
	let src = |s: &Src| match s {
		Src::Ids(v) => format!("nodes {:?}", v),
		Src::Frag(f) => format!("new {:?}", f.html()),
	};
	match m {
		Mut::SetHtml(v, f) => format!("set_html({:?}, {:?})", v, f.html()),
		Mut::Insert(k, v, s, flip) => format!("{}({:?}, {}){}", ["append", "prepend", "before", "after"][*k as usize], v, src(s), if *flip { " from the source" } else { "" }),
		Mut::Replace(v, s) => format!("replace_with({:?}, {})", v, src(s)),
		Mut::Text(e, k, op, s, f) => format!("text {} of node {}: {}({:?})", k, e, ["remove", "append_text", "prepend_text", "set_html", "set_text"][*op as usize], f.as_ref().map_or(s.clone(), |f| f.html())),
		Mut::Query(c, o) => format!("[{:?}].{}", c, show_op(o)),
		m => format!("{:?}", m),
	}
}

// ------------------------------------------------------------------ generation
fn frag(r: &mut Rng) -> Tree {
	let g = GenCfg { max_nodes: 4, ids: false, texts: vec!["t", "uv"], ..Default::default() };
	let mut f = gen_tree(r, &g);
	if r.chance(1, 10) {
		f = Tree::new();
	}
	// ids, some of them used before
	for i in 1..f.kinds.len() {
		if f.is_el(i) && r.chance(1, 4) {
			let id = format!("i{}", r.below(5));
			if !(1..f.kinds.len()).any(|j| f.is_el(j) && f.attr(j, "id") == Some(&Some(id.clone()))) {
				f.attrs_mut(i).push(("id".into(), Some(id)));
			}
		}
	}
	f
}
/// two attached elements share an id
fn dup_ids(t: &Tree) -> bool {
	let mut seen = vec![];
	for e in t.els() {
		if let Some(Some(v)) = t.attr(e, "id") {
			if seen.contains(&v) {
				return true;
			}
			seen.push(v);
		}
	}
	false
}
/// all element ids that still can be named: attached or detached (known to both sides)
fn known(t: &Tree) -> Vec<usize> {
	(1..t.kinds.len()).filter(|&i| t.is_el(i)).collect()
}
fn pick_set(r: &mut Rng, v: &[usize], max: usize) -> Vec<usize> {
	let n = 1 + r.below(max);
	let mut s: Vec<usize> = (0..n).map(|_| *r.pick(v)).collect();
	let mut seen = vec![];
	s.retain(|x| {
		let f = !seen.contains(x);
		seen.push(*x);
		f
	});
	s
}
/// only_insert: just the operations that place nodes
pub fn gen_mut(r: &mut Rng, g: &GenCfg, steps: usize, only_insert: bool, q: &dyn Fn(&mut Rng, &Tree) -> Op) -> MutCase {
	let mut tree = gen_tree(r, g);
	if known(&tree).is_empty() {
		tree.el(0, "div");
	}
	let mut t = tree.clone();
	let mut ops = vec![];
	let steps = 1 + r.below(steps);
	for _ in 0..steps {
		let attached = t.els();
		let pool = if r.chance(1, 8) || attached.is_empty() { known(&t) } else { attached.clone() };
		let multi = if r.chance(1, 4) { 3 } else { 1 };
		let mut targets = pick_set(r, &pool, multi);
		// sets made by the library are in document order; detached nodes cannot be ordered, take one
		if targets.iter().all(|x| attached.contains(x)) {
			t.sort_doc(&mut targets);
		} else {
			targets.truncate(1);
		}
		let src = |r: &mut Rng, t: &Tree| {
			if r.chance(1, 3) {
				Src::Frag(frag(r))
			} else {
				let attached = t.els();
				if attached.is_empty() || r.chance(1, 6) {
					Src::Ids(vec![*r.pick(&known(t))])
				} else {
					let n = 1 + r.below(3);
					let mut s = pick_set(r, &attached, n);
					if r.chance(3, 4) {
						t.sort_doc(&mut s);
					}
					Src::Ids(s)
				}
			}
		};
		let k = if only_insert { 4 + r.below(4) } else { r.below(11) };
		let m = match k {
			0 => Mut::Remove(targets),
			1 => {
				if r.chance(1, 2) {
					Mut::Empty(targets)
				} else {
					Mut::SetText(targets, r.pick(&["", "t", "uv w"]).to_string())
				}
			}
			2 => Mut::SetHtml(targets, frag(r)),
			3 => {
				let cand: Vec<usize> = std::iter::once(0).chain(attached.iter().copied()).filter(|&e| !m_text_nodes(&t, e).is_empty()).collect();
				if cand.is_empty() {
					continue;
				}
				let op = r.below(5) as u8;
				Mut::Text(*r.pick(&cand), r.below(3), op, r.pick(&["s", "tu"]).to_string(), if op == 3 { Some(frag(r)) } else { None })
			}
			4..=6 => {
				let s = src(r, &t);
				Mut::Insert(r.below(4) as u8, targets, s, r.chance(1, 3))
			}
			7 => {
				let s = src(r, &t);
				Mut::Replace(targets, s)
			}
			10 => Mut::Id(targets[0], if r.chance(1, 3) { None } else { Some(format!("i{}", r.below(5))) }),
			_ => {
				if attached.is_empty() {
					continue;
				}
				let den = 1 + r.below(3);
				let mut ctx: Vec<usize> = attached.iter().copied().filter(|_| r.chance(1, den)).collect();
				if ctx.is_empty() {
					ctx.push(attached[0]);
				}
				Mut::Query(ctx, q(r, &t))
			}
		};
		let before = t.clone();
		m_apply(&mut t, &m);
		if dup_ids(&t) {
			t = before;
			continue;
		}
		ops.push(m);
	}
	MutCase { tree, ops }
}
pub fn plain_query(r: &mut Rng, c: &SelCfg) -> Op {
	let l = gen_list(r, c, 0);
	match r.below(3) {
		0 => Op::Filter(l),
		_ => Op::Find(l),
	}
}
