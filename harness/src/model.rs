//! Reference document model: a plain tree, independent of the crate under test.
use serde::{Deserialize, Serialize};
use visdom::types::{BoxDynElement, BoxDynNode, Elements, INodeType};
use visdom::Vis;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			return 0;
		}
		(self.next() % n as u64) as usize
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		let i = self.below(v.len());
		&v[i]
	}
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
	Root,
	El {
		tag: String,
		attrs: Vec<(String, Option<String>)>,
	},
	Text(String),
	Comment(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
	pub kinds: Vec<Kind>,
	pub parent: Vec<Option<usize>>,
	pub children: Vec<Vec<usize>>,
}

pub const VOID: &[&str] = &["br", "img", "input", "hr", "meta", "link"];

impl Tree {
	pub fn new() -> Self {
		Tree {
			kinds: vec![Kind::Root],
			parent: vec![None],
			children: vec![vec![]],
		}
	}
	pub fn add(&mut self, parent: usize, kind: Kind) -> usize {
		let id = self.kinds.len();
		self.kinds.push(kind);
		self.parent.push(Some(parent));
		self.children.push(vec![]);
		self.children[parent].push(id);
		id
	}
	pub fn el(&mut self, parent: usize, tag: &str) -> usize {
		self.add(
			parent,
			Kind::El {
				tag: tag.into(),
				attrs: vec![],
			},
		)
	}
	pub fn is_el(&self, id: usize) -> bool {
		matches!(self.kinds[id], Kind::El { .. })
	}
	pub fn tag(&self, id: usize) -> &str {
		match &self.kinds[id] {
			Kind::El { tag, .. } => tag,
			_ => "",
		}
	}
	pub fn attr(&self, id: usize, name: &str) -> Option<&Option<String>> {
		match &self.kinds[id] {
			Kind::El { attrs, .. } => attrs.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|x| &x.1),
			_ => None,
		}
	}
	pub fn attrs_mut(&mut self, id: usize) -> &mut Vec<(String, Option<String>)> {
		match &mut self.kinds[id] {
			Kind::El { attrs, .. } => attrs,
			_ => panic!("not an element"),
		}
	}
	pub fn el_children(&self, id: usize) -> Vec<usize> {
		self.children[id].iter().copied().filter(|&c| self.is_el(c)).collect()
	}
	/// proper descendants that are elements, in document order
	pub fn el_descendants(&self, id: usize) -> Vec<usize> {
		let mut r = vec![];
		for &c in &self.children[id] {
			if self.is_el(c) {
				r.push(c);
				r.extend(self.el_descendants(c));
			}
		}
		r
	}
	pub fn els(&self) -> Vec<usize> {
		self.el_descendants(0)
	}
	/// proper ancestors, nearest first, the root last
	pub fn ancestors(&self, id: usize) -> Vec<usize> {
		let mut r = vec![];
		let mut c = self.parent[id];
		while let Some(p) = c {
			r.push(p);
			c = self.parent[p];
		}
		r
	}
	pub fn pos(&self, id: usize) -> usize {
		let p = self.parent[id].unwrap();
		self.children[p].iter().position(|&c| c == id).unwrap()
	}
	pub fn path(&self, id: usize) -> Vec<usize> {
		let mut r = vec![];
		let mut c = id;
		while let Some(p) = self.parent[c] {
			r.push(self.pos(c));
			c = p;
		}
		r.reverse();
		r
	}
	pub fn sort_doc(&self, v: &mut Vec<usize>) {
		v.sort_by_key(|&i| self.path(i));
		v.dedup();
	}
	pub fn prev_sibs(&self, id: usize) -> Vec<usize> {
		match self.parent[id] {
			Some(p) => {
				let ch = self.el_children(p);
				let k = ch.iter().position(|&c| c == id).unwrap();
				ch[..k].to_vec()
			}
			None => vec![],
		}
	}
	pub fn next_sibs(&self, id: usize) -> Vec<usize> {
		match self.parent[id] {
			Some(p) => {
				let ch = self.el_children(p);
				let k = ch.iter().position(|&c| c == id).unwrap();
				ch[k + 1..].to_vec()
			}
			None => vec![],
		}
	}
	pub fn text(&self, id: usize) -> String {
		match &self.kinds[id] {
			Kind::Text(s) => s.clone(),
			Kind::Comment(_) => String::new(),
			_ => self.children[id].iter().map(|&c| self.text(c)).collect(),
		}
	}
	pub fn html_of(&self, id: usize) -> String {
		match &self.kinds[id] {
			Kind::Root => self.inner_html(id),
			Kind::Text(s) => esc_text(s),
			Kind::Comment(s) => format!("<!--{}-->", s),
			Kind::El { tag, attrs } => {
				let mut s = format!("<{}", tag);
				for (k, v) in attrs {
					match v {
						Some(v) => {
							if v.contains('"') {
								s.push_str(&format!(" {}='{}'", k, v));
							} else {
								s.push_str(&format!(" {}=\"{}\"", k, v));
							}
						}
						None => s.push_str(&format!(" {}", k)),
					}
				}
				s.push('>');
				if !VOID.contains(&tag.to_ascii_lowercase().as_str()) {
					s.push_str(&self.inner_html(id));
					s.push_str(&format!("</{}>", tag));
				}
				s
			}
		}
	}
	pub fn inner_html(&self, id: usize) -> String {
		self.children[id].iter().map(|&c| self.html_of(c)).collect()
	}
	pub fn html(&self) -> String {
		self.html_of(0)
	}
	// ---- mutation of the model ----
	pub fn detach(&mut self, id: usize) {
		if let Some(p) = self.parent[id].take() {
			self.children[p].retain(|&c| c != id);
		}
	}
	pub fn insert_at(&mut self, parent: usize, at: usize, id: usize) {
		assert!(self.parent[id].is_none());
		self.children[parent].insert(at, id);
		self.parent[id] = Some(parent);
	}
}

pub fn esc_text(s: &str) -> String {
	s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

// ---------------------------------------------------------------- generators
#[derive(Clone)]
pub struct GenCfg {
	pub tags: Vec<&'static str>,
	pub max_nodes: usize,
	pub text: bool,
	pub comment: bool,
	pub classes: Vec<&'static str>,
	pub ids: bool,
	pub attrs: Vec<(&'static str, Vec<Option<&'static str>>)>,
	pub texts: Vec<&'static str>,
	/// 0 mixed, 1 wide, 2 deep
	pub shape: u8,
	/// vary letter case of tags and attribute names, and the blanks in class lists
	pub messy: bool,
}
impl Default for GenCfg {
	fn default() -> Self {
		GenCfg {
			tags: vec!["div", "p", "b"],
			max_nodes: 9,
			text: true,
			comment: true,
			classes: vec!["x", "y", "z"],
			ids: true,
			attrs: vec![("k", vec![None, Some(""), Some("v"), Some("v-w")])],
			texts: vec!["t", "uv", " "],
			shape: 0,
			messy: false,
		}
	}
}

pub fn gen_tree(r: &mut Rng, c: &GenCfg) -> Tree {
	let mut t = Tree::new();
	let n = 1 + r.below(c.max_nodes);
	let mut idc = 0;
	let mut spots = vec![0usize];
	for _ in 0..n {
		// favour recent nodes: gives depth
		let parent = if c.shape == 1 && r.chance(5, 6) {
			spots[spots.len().min(2) - 1]
		} else if r.chance(if c.shape == 2 { 5 } else { 2 }, 6) { *spots.last().unwrap() } else { *r.pick(&spots) };
		let k = r.below(10);
		let last_is_text = t.children[parent].last().map_or(false, |&l| matches!(t.kinds[l], Kind::Text(_)));
		if c.text && k == 0 && !last_is_text {
			let s = r.pick(&c.texts).to_string();
			t.add(parent, Kind::Text(s));
			continue;
		}
		if c.comment && k == 1 {
			t.add(parent, Kind::Comment("c".into()));
			continue;
		}
		let tag = *r.pick(&c.tags);
		let messy = c.messy && r.chance(1, 3);
		let id = if messy { t.el(parent, &tag.to_ascii_uppercase()) } else { t.el(parent, tag) };
		let mut attrs: Vec<(String, Option<String>)> = vec![];
		if !c.classes.is_empty() && r.chance(1, 2) {
			let m = 1 + r.below(2);
			let mut v: Vec<&str> = vec![];
			for _ in 0..m {
				v.push(r.pick(&c.classes));
			}
			v.dedup();
			let s = if messy { format!(" {}\t", v.join(r.pick(&["  ", "\n", " \t", " "]))) } else { v.join(" ") };
			attrs.push((if messy { "CLASS" } else { "class" }.into(), Some(s)));
		}
		if c.ids && r.chance(1, 4) {
			attrs.push(("id".into(), Some(format!("i{}", idc))));
			idc += 1;
		}
		for (k, vs) in &c.attrs {
			if r.chance(1, 3) {
				let v = *r.pick(vs);
				attrs.push((if messy { k.to_ascii_uppercase() } else { k.to_string() }, v.map(|s| s.to_string())));
			}
		}
		*t.attrs_mut(id) = attrs;
		if !VOID.contains(&tag) {
			spots.push(id);
		}
	}
	t
}

/// all ordered forest shapes with exactly n nodes, as parent vectors (parent index < own index; 0 = root)
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
	// preorder: node i+1 is attached to the last node or one of its ancestors
	fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
		if cur.len() == n {
			out.push(cur.clone());
			return;
		}
		// chain of candidates
		let mut cand = vec![];
		let mut node = cur.len();
		loop {
			cand.push(node);
			if node == 0 {
				break;
			}
			node = cur[node - 1];
		}
		for c in cand {
			cur.push(c);
			rec(cur, n, out);
			cur.pop();
		}
	}
	let mut out = vec![];
	rec(&mut vec![], n, &mut out);
	out
}

// ---------------------------------------------------------------- binding to the real document
pub struct Bound<'a> {
	pub root: Elements<'a>,
	/// real element for every model element (and the root); None for text and comment
	pub map: Vec<Option<BoxDynElement<'a>>>,
}

fn bind_rec<'a>(t: &Tree, id: usize, e: BoxDynElement<'a>, map: &mut Vec<Option<BoxDynElement<'a>>>) -> Result<(), String> {
	let n = e.child_nodes_length();
	if n != t.children[id].len() {
		return Err(format!("parsed shape differs at node {}: {} children, expected {}", id, n, t.children[id].len()));
	}
	for (i, &c) in t.children[id].iter().enumerate() {
		let node: BoxDynNode<'a> = e.child_nodes_item(i).ok_or("child missing")?;
		match (&t.kinds[c], node.node_type()) {
			(Kind::El { tag, .. }, INodeType::Element) => {
				let ce = node.typed().into_element().ok_or("not an element")?;
				if !ce.tag_name().eq_ignore_ascii_case(tag) {
					return Err(format!("tag differs at {}", c));
				}
				bind_rec(t, c, ce, map)?;
			}
			(Kind::Text(_), INodeType::Text) => {}
			(Kind::Comment(_), INodeType::Comment) => {}
			(k, _) => return Err(format!("kind differs at {}: {:?}", c, k)),
		}
	}
	map[id] = Some(e);
	Ok(())
}

pub fn bind<'a>(t: &Tree) -> Result<Bound<'a>, String> {
	let root = Vis::load(t.html()).map_err(|e| e.to_string())?;
	bind_to(t, root)
}
pub fn bind_to<'a>(t: &Tree, root: Elements<'a>) -> Result<Bound<'a>, String> {
	let mut map: Vec<Option<BoxDynElement<'a>>> = vec![];
	for _ in 0..t.kinds.len() {
		map.push(None);
	}
	let r0 = root.get(0).ok_or("no root")?.cloned();
	bind_rec(t, 0, r0, &mut map)?;
	Ok(Bound { root, map })
}
impl<'a> Bound<'a> {
	/// the same tree from node `id` on, but as a copy
	pub fn copy_of(&self, t: &Tree, id: usize) -> Result<Bound<'a>, String> {
		let mut map: Vec<Option<BoxDynElement<'a>>> = t.kinds.iter().map(|_| None).collect();
		let c: BoxDynElement<'a> = self.map[id].as_ref().unwrap().copied();
		let root = Elements::with_nodes(vec![c.cloned()]);
		bind_rec(t, id, c, &mut map)?;
		Ok(Bound { root, map })
	}
	pub fn ids(&self, e: &Elements) -> Result<Vec<usize>, String> {
		let mut r = vec![];
		for x in e.get_ref() {
			r.push(self.id_of(x)?);
		}
		Ok(r)
	}
	pub fn id_of(&self, x: &BoxDynElement) -> Result<usize, String> {
		for (i, m) in self.map.iter().enumerate() {
			if let Some(m) = m {
				if m.is(x) {
					return Ok(i);
				}
			}
		}
		Err(format!("result element <{}> is not a node of the document", x.tag_name()))
	}
	pub fn set(&self, ids: &[usize]) -> Elements<'a> {
		Elements::with_nodes(ids.iter().map(|&i| self.map[i].as_ref().unwrap().cloned()).collect())
	}
}
