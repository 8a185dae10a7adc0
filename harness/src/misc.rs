//! Cases over attributes, class lists, texts, copies and selector syntax.
use crate::model::*;
use crate::mutate::*;
use crate::sel::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use visdom::types::{BoxDynElement, Elements, IAttrValue, INodeType};
use visdom::Vis;

// =================================================================== attributes and classes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
	Set(String, Option<String>),
	Remove(String),
	AddClass(String),
	RemoveClass(String),
	ToggleClass(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AttrCase {
	/// attributes as written: name, value, quote ("" none)
	pub init: Vec<(String, Option<String>, String)>,
	pub ops: Vec<AOp>,
	/// only the class list is judged
	pub class_only: bool,
}
type Attrs = Vec<(String, Option<String>)>;

fn a_get<'x>(a: &'x Attrs, n: &str) -> Option<&'x Option<String>> {
	a.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map(|x| &x.1)
}
fn a_set(a: &mut Attrs, n: &str, v: Option<String>) {
	if let Some(x) = a.iter_mut().find(|x| x.0.eq_ignore_ascii_case(n)) {
		x.1 = v;
	} else {
		a.push((n.to_ascii_lowercase(), v));
	}
}
fn tokens(s: &str) -> Vec<String> {
	let mut r: Vec<String> = vec![];
	for x in s.split_ascii_whitespace() {
		if !r.iter().any(|y| y == x) {
			r.push(x.to_string());
		}
	}
	r
}
fn class_of(a: &Attrs) -> Vec<String> {
	match a_get(a, "class") {
		Some(Some(v)) => tokens(v),
		_ => vec![],
	}
}
fn a_apply(a: &mut Attrs, o: &AOp) {
	match o {
		AOp::Set(n, v) => a_set(a, n, v.clone()),
		AOp::Remove(n) => a.retain(|x| !x.0.eq_ignore_ascii_case(n)),
		AOp::AddClass(s) => {
			let mut c = class_of(a);
			for x in tokens(s) {
				if !c.contains(&x) {
					c.push(x);
				}
			}
			if !tokens(s).is_empty() {
				a_set(a, "class", Some(c.join(" ")));
			}
		}
		AOp::RemoveClass(s) => {
			let d = tokens(s);
			if let Some(Some(_)) = a_get(a, "class") {
				let c: Vec<String> = class_of(a).into_iter().filter(|x| !d.contains(x)).collect();
				a_set(a, "class", Some(c.join(" ")));
			}
		}
		AOp::ToggleClass(s) => {
			let d = tokens(s);
			let old = class_of(a);
			let mut c: Vec<String> = old.iter().filter(|x| !d.contains(x)).cloned().collect();
			for x in &d {
				if !old.contains(x) {
					c.push(x.clone());
				}
			}
			if !d.is_empty() {
				a_set(a, "class", Some(c.join(" ")));
			}
		}
	}
}
fn real_attr(e: &BoxDynElement, n: &str) -> Option<Option<String>> {
	e.get_attribute(n).map(|v| match v {
		IAttrValue::Value(s, _) => Some(s),
		IAttrValue::True => None,
	})
}
fn has_both_quotes(s: &str) -> bool {
	s.contains('"') && s.contains('\'')
}
fn unquote_entities(s: &str) -> String {
	s.replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&#x27;", "'")
}
fn same_value(got: &Option<String>, want: &Option<String>) -> bool {
	match (got, want) {
		(Some(g), Some(w)) if has_both_quotes(w) => unquote_entities(g) == *w,
		(g, w) => g == w,
	}
}
const NAMES: &[&str] = &["k", "K", "data-x", "DATA-x", "class", "Class", "id", "href", "hidden"];
const CNAMES: &[&str] = &["a", "b", "ab", "a-b", "A", "c", "\u{a0}", "b\u{b}"];

fn build_attr_html(init: &[(String, Option<String>, String)]) -> String {
	let mut s = String::from("<div><p");
	for (k, v, q) in init {
		match v {
			None => s.push_str(&format!(" {}", k)),
			Some(v) => s.push_str(&format!(" {}={}{}{}", k, q, v, q)),
		}
	}
	s.push_str(">t<b k=\"1\" class=\"b a\">u</b></p><i k='2'></i></div>");
	s
}

fn attr_state(root: &Elements, a: &Attrs, class_only: bool, what: &str) -> Result<(), String> {
	let p = root.find("p");
	if p.length() != 1 || root.find("*").length() != 4 {
		return Err(format!("{}: the document has other elements now: {:?}", what, root.outer_html()));
	}
	let e = p.get(0).unwrap();
	let show = || format!("{:?}", root.outer_html());
	if root.find("b").attr("k").map(|v| v.to_string()) != Some("1".into()) || root.find("i").attr("k").map(|v| v.to_string()) != Some("2".into()) || root.find("b").attr("class").map(|v| v.to_string()) != Some("b a".into()) {
		return Err(format!("{}: another element was changed: {}", what, show()));
	}
	// class list
	let cl = class_of(a);
	let got = match real_attr(e, "class") {
		Some(Some(v)) => tokens(&v),
		_ => vec![],
	};
	if got != cl {
		return Err(format!("{}: class list is {:?}, expected {:?} in {}", what, got, cl, show()));
	}
	for c in CNAMES {
		let want = cl.iter().any(|x| x == c);
		if p.has_class(c) != want {
			return Err(format!("{}: has_class({:?}) is {}, expected {}", what, c, !want, want));
		}
		if c.chars().all(|x| x.is_ascii() && !x.is_ascii_control()) && (root.find(&format!("p.{}", c)).length() == 1) != want {
			return Err(format!("{}: selector p.{} disagrees with the class list {:?}", what, c, cl));
		}
		for d in CNAMES {
			let want = want && cl.iter().any(|x| x == d);
			if p.has_class(&format!("{} {}", c, d)) != want {
				return Err(format!("{}: has_class(\"{} {}\") is {}, expected {}", what, c, d, !want, want));
			}
		}
	}
	if class_only {
		return Ok(());
	}
	for n in NAMES {
		if n.eq_ignore_ascii_case("class") {
			continue;
		}
		let g = real_attr(e, n);
		let w = a_get(a, n).cloned();
		let ok = match (&g, &w) {
			(None, None) => true,
			(Some(g), Some(w)) => same_value(g, w),
			_ => false,
		};
		if !ok {
			return Err(format!("{}: attribute {:?} is {:?}, expected {:?} in {}", what, n, g, w, show()));
		}
		if p.has_attr(n) != w.is_some() || e.has_attribute(n) != w.is_some() {
			return Err(format!("{}: has_attr({:?}) is wrong", what, n));
		}
	}
	// the list of attributes
	let mut names: Vec<String> = e.get_attributes().iter().map(|x| x.0.clone()).collect();
	let mut want: Vec<String> = a.iter().map(|x| x.0.clone()).collect();
	names.sort();
	want.sort();
	if names != want {
		return Err(format!("{}: attributes listed {:?}, expected {:?}", what, names, want));
	}
	for (n, v) in e.get_attributes() {
		let v = match v {
			IAttrValue::Value(s, _) => Some(s),
			IAttrValue::True => None,
		};
		if n != "class" && !same_value(&v, a_get(a, &n).unwrap()) {
			return Err(format!("{}: attribute {:?} listed as {:?}", what, n, v));
		}
	}
	Ok(())
}
/// a class name that is listed twice
fn repeated(p: &Elements) -> Option<String> {
	let v = p.attr("class").map(|v| v.to_string()).unwrap_or_default();
	let l: Vec<&str> = v.split_ascii_whitespace().collect();
	(0..l.len()).find(|i| l[..*i].contains(&l[*i])).map(|i| l[i].to_string())
}
pub fn check_attr(c: &AttrCase) -> Result<bool, String> {
	let html = build_attr_html(&c.init);
	let mut a: Attrs = vec![];
	for x in &c.init {
		if a_get(&a, &x.0).is_none() {
			a.push((x.0.to_ascii_lowercase(), x.1.clone()));
		}
	}
	let root = Vis::load(&html).map_err(|e| format!("SKIP {}", e))?;
	let mut what = format!("html={:?}", html);
	attr_state(&root, &a, c.class_only, &what)?;
	for o in &c.ops {
		what.push_str(&format!(" ; {:?}", o));
		a_apply(&mut a, o);
		let mut p = root.find("p");
		let once_before = repeated(&p) == None;
		match o {
			AOp::Set(n, v) => drop(p.set_attr(n, v.as_deref())),
			AOp::Remove(n) => drop(p.remove_attr(n)),
			AOp::AddClass(s) => drop(p.add_class(s)),
			AOp::RemoveClass(s) => drop(p.remove_class(s)),
			AOp::ToggleClass(s) => drop(p.toggle_class(s)),
		}
		if let AOp::AddClass(s) | AOp::RemoveClass(s) | AOp::ToggleClass(s) = o {
			if once_before && tokens(s).len() == s.split_ascii_whitespace().count() {
				if let Some(n) = repeated(&p) {
					return Err(format!("{}: the class {:?} is listed twice: {:?}", what, n, root.outer_html()));
				}
			}
		}
		attr_state(&root, &a, c.class_only, &what)?;
		// what is written out reads back as the same attributes
		let out = root.outer_html();
		let again = Vis::load(&out).map_err(|e| format!("{}: {:?} does not parse: {}", what, out, e))?;
		attr_state(&again, &a, c.class_only, &format!("{} ; read back from {:?}", what, out))?;
	}
	Ok(!c.ops.is_empty())
}
fn rand_str(r: &mut Rng, alphabet: &[&str], max: usize) -> String {
	let n = r.below(max + 1);
	(0..n).map(|_| *r.pick(alphabet)).collect()
}
fn class_str(r: &mut Rng) -> String {
	let ws = [" ", " ", " ", "  ", "\t", "\n", " \t ", "\r", "\x0c", "\r\n"];
	let n = 1 + r.below(4);
	let mut s = String::new();
	if r.chance(1, 6) {
		s.push_str(r.pick(&ws));
	}
	for i in 0..n {
		if i > 0 {
			s.push_str(r.pick(&ws));
		}
		s.push_str(r.pick(CNAMES));
	}
	if r.chance(1, 6) {
		s.push_str(r.pick(&ws));
	}
	if r.chance(1, 15) {
		s = r.pick(&["", " "]).to_string();
	}
	s
}
fn value_str(r: &mut Rng) -> String {
	rand_str(r, &["a", "b", " ", "\"", "'", "<", ">", "=", "/", "\u{e9}", "-", "\t", "v", "\\", "`"], 6)
}
pub fn gen_attr(r: &mut Rng, class_only: bool) -> AttrCase {
	let mut init: Vec<(String, Option<String>, String)> = vec![];
	let n = r.below(4);
	for _ in 0..n {
		let k = if class_only { "class" } else { *r.pick(NAMES) };
		// sometimes an attribute is repeated in the tag: the first one counts
		if init.iter().any(|x| x.0.eq_ignore_ascii_case(k)) && (class_only || r.chance(1, 2)) {
			continue;
		}
		let (v, q) = if k.eq_ignore_ascii_case("class") {
			if r.chance(1, 8) {
				(None, "")
			} else {
				(Some(class_str(r)), *r.pick(&["'", "\""]))
			}
		} else {
			match r.below(4) {
				0 => (None, ""),
				1 => (Some(rand_str(r, &["a", "v", "-"], 3) + "x"), ""),
				_ => (Some(rand_str(r, &["a", "v", "-", " ", "<", ">", "="], 4)), *r.pick(&["'", "\""])),
			}
		};
		init.push((k.into(), v, q.into()));
	}
	let m = 1 + r.below(4);
	let ops = (0..m)
		.map(|_| {
			let k = if class_only { 2 + r.below(3) } else { r.below(5) };
			match k {
				0 | 1 if k == 0 || r.chance(1, 3) => {
					let n = *r.pick(NAMES);
					let v = if r.chance(1, 6) { None } else if n.eq_ignore_ascii_case("class") { Some(class_str(r)) } else { Some(value_str(r)) };
					AOp::Set(n.into(), v)
				}
				1 => AOp::Remove(r.pick(NAMES).to_string()),
				2 => AOp::AddClass(class_str(r)),
				3 => AOp::RemoveClass(class_str(r)),
				_ => AOp::ToggleClass(class_str(r)),
			}
		})
		.collect();
	AttrCase { init, ops, class_only }
}

// =================================================================== texts
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TextCase {
	/// document, target element, text
	Set(Tree, usize, String),
	/// set_text on a raw text element
	Raw(String, String),
	/// texts(depth) and text() of a set
	List(Tree, Vec<usize>, usize, u64),
}
const RAW: [&str; 4] = ["textarea", "title", "script", "style"];
fn is_raw(t: &Tree, id: usize) -> bool {
	t.is_el(id) && RAW.contains(&t.tag(id).to_ascii_lowercase().as_str())
}
/// the content that is given to a raw text element
fn raw_text(id: usize) -> String {
	if id % 3 == 0 { String::new() } else { format!("r<{}", id) }
}
/// (depth, text) of every text; an element for which `rec` says no is not entered
fn m_texts(t: &Tree, id: usize, depth: usize, limit: usize, rec: &dyn Fn(usize) -> bool, out: &mut Vec<(usize, String)>) {
	if is_raw(t, id) {
		out.push((depth, raw_text(id)));
	}
	for &c in &t.children[id] {
		match &t.kinds[c] {
			Kind::Text(s) => out.push((depth, s.clone())),
			Kind::El { .. } if is_raw(t, c) => out.push((depth, raw_text(c))),
			Kind::El { .. } => {
				if depth + 1 < limit && rec(c) {
					m_texts(t, c, depth + 1, limit, rec, out);
				}
			}
			_ => {}
		}
	}
}
fn m_all_text(t: &Tree, id: usize) -> String {
	if is_raw(t, id) {
		return raw_text(id);
	}
	match &t.kinds[id] {
		Kind::Text(s) => s.clone(),
		Kind::Comment(_) => String::new(),
		_ => t.children[id].iter().map(|&c| m_all_text(t, c)).collect(),
	}
}
pub fn check_text(c: &TextCase) -> Result<bool, String> {
	match c {
		TextCase::Set(t, id, s) => {
			let b = bind(t).map_err(|e| format!("SKIP {}", e))?;
			let what = format!("html={:?} set_text({}, {:?})", t.html(), id, s);
			let mut t2 = t.clone();
			m_apply(&mut t2, &Mut::SetText(vec![*id], s.clone()));
			let mut set = b.set(&[*id]);
			set.set_text(s);
			if set.text() != *s {
				return Err(format!("{}: text() gives back {:?}", what, set.text()));
			}
			let e = b.map[*id].as_ref().unwrap();
			let want_n = if s.is_empty() { 0 } else { 1 };
			if e.child_nodes_length() != want_n {
				return Err(format!("{}: {} child nodes", what, e.child_nodes_length()));
			}
			if want_n == 1 && !matches!(e.child_nodes_item(0).unwrap().node_type(), INodeType::Text) {
				return Err(format!("{}: the child is not a text", what));
			}
			for x in t2.els() {
				let got = b.map[x].as_ref().unwrap().text();
				if got != t2.text(x) {
					return Err(format!("{}: text of element {} is {:?}, expected {:?}", what, x, got, t2.text(x)));
				}
			}
			// written out and read back: same elements, same text, no markup smuggled in
			let out = b.root.outer_html();
			let again = Vis::load(&out).map_err(|e| format!("{}: {:?} does not parse: {}", what, out, e))?;
			let tags: Vec<String> = again.find("*").map(|_, e| e.tag_name().to_ascii_lowercase());
			let want: Vec<String> = t2.els().iter().map(|&e| t2.tag(e).to_ascii_lowercase()).collect();
			if tags != want {
				return Err(format!("{}: written out {:?} has elements {:?}, expected {:?}", what, out, tags, want));
			}
			let got: Vec<String> = again.find("*").map(|_, e| e.text());
			let want: Vec<String> = t2.els().iter().map(|&e| t2.text(e)).collect();
			if got != want {
				return Err(format!("{}: written out {:?} has the texts {:?}, expected {:?}", what, out, got, want));
			}
			Ok(!s.is_empty())
		}
		TextCase::Raw(tag, s) => {
			let html = format!("<div><{}>old</{}><i>x</i></div>", tag, tag);
			let root = Vis::load(&html).map_err(|e| format!("SKIP {}", e))?;
			let mut e = root.find(tag);
			e.set_text(s);
			if e.text() != *s {
				return Err(format!("html={:?} {}.set_text({:?}): content is {:?}", html, tag, s, e.text()));
			}
			if root.find("i").text() != "x" || root.find("div").children("").length() != 2 {
				return Err(format!("html={:?} {}.set_text({:?}): the rest changed", html, tag, s));
			}
			// the text can be added to, also when there is none
			e.texts(0).for_each(|_, t| {
				t.append_text("q");
				t.prepend_text("p");
				true
			});
			if e.text() != format!("p{}q", s) || root.find("div").children("").length() != 2 {
				return Err(format!("html={:?} {}.set_text({:?}), then append_text(q), prepend_text(p): content is {:?}", html, tag, s, e.text()));
			}
			e.texts(0).for_each(|_, t| {
				t.set_text(s);
				true
			});
			Ok(true)
		}
		TextCase::List(t, ids, limit, mask) => {
			let b = bind(t).map_err(|e| format!("SKIP {}", e))?;
			let what = format!("html={:?} nodes {:?} texts({}) mask {:x}", t.html(), ids, limit, mask);
			for e in t.els() {
				if is_raw(t, e) {
					b.set(&[e]).set_text(&raw_text(e));
				}
			}
			let set = b.set(ids);
			let lim = if *limit == 0 { usize::MAX } else { *limit };
			let list = |rec: &dyn Fn(usize) -> bool| {
				let mut w = vec![];
				for &e in ids {
					m_texts(t, e, 0, lim, rec, &mut w);
				}
				w
			};
			let want = list(&|_| true);
			let strs = |w: &[(usize, String)]| w.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
			let mut tx = set.texts(*limit);
			let got: Vec<String> = tx.get_ref().iter().map(|x| x.text()).collect();
			if got != strs(&want) || tx.length() != want.len() || tx.is_empty() != want.is_empty() {
				return Err(format!("{}: got {:?}, expected {:?}", what, got, want));
			}
			// chosen by position, and called back in order
			let bit = |k: usize| mask >> (k % 64) & 1 == 1;
			let f: Vec<String> = tx.filter_by(|k, _| bit(k)).get_ref().iter().map(|x| x.text()).collect();
			let wf: Vec<String> = want.iter().enumerate().filter(|(k, _)| bit(*k)).map(|x| x.1 .1.clone()).collect();
			if f != wf {
				return Err(format!("{}: filter_by gives {:?}, expected {:?}", what, f, wf));
			}
			let mut seen = vec![];
			tx.for_each(|k, x| {
				seen.push((k, x.text()));
				bit(k)
			});
			let n = (0..want.len()).position(|k| !bit(k)).map_or(want.len(), |k| k + 1);
			if seen != strs(&want[..n]).into_iter().enumerate().collect::<Vec<_>>() {
				return Err(format!("{}: for_each visits {:?}, expected the first {} of {:?}", what, seen, n, want));
			}
			// the callbacks: depth and text; elements not entered
			let wb: Vec<(usize, String)> = want.iter().filter(|x| bit(x.0)).cloned().collect();
			let m = *mask;
			let got: Vec<String> = set.texts_by(*limit, Box::new(move |d, _| m >> (d % 64) & 1 == 1)).get_ref().iter().map(|x| x.text()).collect();
			if got != strs(&wb) {
				return Err(format!("{}: texts_by gives {:?}, expected {:?}", what, got, wb));
			}
			let not_b = list(&|c| !t.tag(c).eq_ignore_ascii_case("b"));
			let got: Vec<String> = set.texts_by_rec(*limit, Box::new(|_, _| true), Box::new(|e| e.tag_name() != "B")).get_ref().iter().map(|x| x.text()).collect();
			if got != strs(&not_b) {
				return Err(format!("{}: texts_by_rec gives {:?}, expected {:?}", what, got, not_b));
			}
			let all: String = ids.iter().map(|&e| m_all_text(t, e)).collect();
			if set.text() != all {
				return Err(format!("{}: text() is {:?}, expected {:?}", what, set.text(), all));
			}
			Ok(!want.is_empty())
		}
	}
}
pub fn gen_text(r: &mut Rng, g: &GenCfg) -> TextCase {
	let mut t = gen_tree(r, g);
	if t.els().is_empty() {
		t.el(0, "div");
	}
	let els = t.els();
	match r.below(10) {
		0..=5 => {
			let mut s = rand_str(r, &["a", " ", "<", ">", "&", "\"", "'", "\u{e9}", "\u{4e2d}", "&lt;", "&amp;", "&#60;", "&nbsp;", "</b>", "<b>", "<!--", "-->", ";", "\u{a0}", "\n", "/"], 6);
			if s.trim().is_empty() {
				s.push('z');
			}
			TextCase::Set(t.clone(), *r.pick(&els), s)
		}
		6 => TextCase::Raw(r.pick(&["textarea", "title", "script", "style"]).to_string(), rand_str(r, &["a", " ", "b", "x<y", "&lt;", "\"", "="], 5)),
		_ => {
			let den = 1 + r.below(3);
			let ids: Vec<usize> = els.iter().copied().filter(|_| r.chance(1, den)).collect();
			for _ in 0..r.below(3) {
				let p = *r.pick(&els);
				if !VOID.contains(&t.tag(p).to_ascii_lowercase().as_str()) {
					t.el(p, r.pick(&RAW));
				}
			}
			let raws: Vec<usize> = t.els().into_iter().filter(|&e| is_raw(&t, e) && r.chance(1, 4)).collect();
			let mut ids = ids;
			ids.extend(raws);
			t.sort_doc(&mut ids);
			TextCase::List(t, ids, r.below(5), if r.chance(1, 2) { u64::MAX ^ (1 << r.below(5)) } else { r.next() })
		}
	}
}

// =================================================================== deep copies
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CopyCase {
	pub tree: Tree,
	pub node: usize,
	/// attribute set on the copy / the original
	pub on_copy: Vec<(usize, u8)>,
	pub on_orig: Vec<(usize, u8)>,
}
fn sub_html(e: &BoxDynElement) -> String {
	e.outer_html()
}
fn poke(root: &BoxDynElement, k: usize, how: u8) {
	let me = Elements::with_nodes(vec![root.cloned()]);
	let all = me.find("*");
	let mut target = if all.is_empty() || k == 0 { me } else { all.eq((k - 1) % all.length()) };
	match how {
		0 => drop(target.set_attr("k", Some("changed"))),
		1 => drop(target.add_class("changed")),
		2 => drop(target.set_text("changed")),
		3 => drop(target.set_html("<u>changed</u>")),
		4 => {
			if k > 0 && target.length() > 0 && !target.get(0).unwrap().is(root) {
				target.remove()
			}
		}
		5 => drop(target.append(&mut Vis::load("<s>new</s>").unwrap())),
		6 => drop(target.remove_attr("class")),
		_ => {
			for mut t in target.texts(1) {
				t.append_text("changed");
			}
		}
	}
}
pub fn check_copy(c: &CopyCase) -> Result<bool, String> {
	let t = &c.tree;
	let b = bind(t).map_err(|e| format!("SKIP {}", e))?;
	let what = format!("html={:?} copy of node {}, then {:?} on the copy, {:?} on the original", t.html(), c.node, c.on_copy, c.on_orig);
	let orig = b.map[c.node].as_ref().unwrap();
	let copy = orig.copied();
	if copy.is(orig) {
		return Err(format!("{}: the copy is the original", what));
	}
	if copy.parent().is_some() {
		return Err(format!("{}: the copy has a parent", what));
	}
	if sub_html(&copy) != t.html_of(c.node) {
		return Err(format!("{}: the copy is {:?}, expected {:?}", what, sub_html(&copy), t.html_of(c.node)));
	}
	// no node is shared
	let ce = Elements::with_nodes(vec![copy.cloned()]);
	for x in ce.find("*").get_ref() {
		if b.id_of(x).is_ok() {
			return Err(format!("{}: the copy shares a node with the original", what));
		}
	}
	if ce.find("*").length() != t.el_descendants(c.node).len() {
		return Err(format!("{}: find in the copy gives {} elements", what, ce.find("*").length()));
	}
	for (k, h) in &c.on_copy {
		poke(&copy, *k, *h);
		if b.root.outer_html() != t.html() {
			return Err(format!("{}: changing the copy changed the original to {:?}", what, b.root.outer_html()));
		}
	}
	let now = sub_html(&copy);
	for (k, h) in &c.on_orig {
		poke(orig, *k, *h);
		if sub_html(&copy) != now {
			return Err(format!("{}: changing the original changed the copy to {:?}", what, sub_html(&copy)));
		}
	}
	Ok(true)
}
pub fn gen_copy(r: &mut Rng, g: &GenCfg) -> CopyCase {
	let mut t = gen_tree(r, g);
	if t.els().is_empty() {
		t.el(0, "div");
	}
	let node = *r.pick(&t.els());
	let pokes = |r: &mut Rng| {
		let n = 1 + r.below(3);
		(0..n).map(|_| (r.below(5), r.below(8) as u8)).collect::<Vec<_>>()
	};
	CopyCase { tree: t, node, on_copy: pokes(r), on_orig: pokes(r) }
}

// =================================================================== selector syntax
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SyntaxCase {
	pub sel: String,
	/// 0: nothing known, 1: must be refused, 2: must be accepted
	pub expect: u8,
	pub method: u8,
}
pub const METHODS: &[&str] = &[
	"find", "filter", "not", "has", "is", "is_all", "children", "parent", "parents", "next", "next_all", "prev", "prev_all", "siblings", "closest", "parents_until", "next_until", "prev_until", "find on an empty set",
];
fn call(d: &Elements, m: u8, s: &str) -> usize {
	let ps = d.find("div *");
	match m {
		0 => d.find(s).length(),
		1 => ps.filter(s).length(),
		2 => ps.not(s).length(),
		3 => ps.has(s).length(),
		4 => ps.is(s) as usize,
		5 => ps.is_all(s) as usize,
		6 => ps.children(s).length(),
		7 => ps.parent(s).length(),
		8 => ps.parents(s).length(),
		9 => ps.next(s).length(),
		10 => ps.next_all(s).length(),
		11 => ps.prev(s).length(),
		12 => ps.prev_all(s).length(),
		13 => ps.siblings(s).length(),
		14 => ps.closest(s).length(),
		15 => ps.parents_until(s, "", false).length(),
		16 => ps.next_until(s, "", false).length(),
		17 => ps.prev_until(s, "", false).length(),
		_ => d.find("nothing").find(s).length(),
	}
}
pub fn check_syntax(c: &SyntaxCase) -> Result<bool, String> {
	let html = "<div><p class='a b'>t<i></i></p><p class='c' id=i0 k='v'>u<b>x</b></p><h1></h1><input type='checkbox' checked></div>";
	let errs = Rc::new(RefCell::new(0usize));
	let e2 = Rc::clone(&errs);
	let d = Vis::load_catch(html, Box::new(move |_| *e2.borrow_mut() += 1));
	let what = format!("{}({:?})", METHODS[c.method as usize], c.sel);
	let n = call(&d, c.method, &c.sel);
	let ne = *errs.borrow();
	if c.expect == 1 {
		if c.method != 18 && ne == 0 {
			return Err(format!("{}: a malformed selector was not reported", what));
		}
		if n != 0 {
			return Err(format!("{}: a malformed selector selected {} elements", what, n));
		}
	}
	if c.expect == 2 && ne != 0 {
		return Err(format!("{}: a well-formed selector was reported as an error", what));
	}
	if c.expect == 0 && ne != 0 && n != 0 {
		return Err(format!("{}: reported as an error but selected {} elements", what, n));
	}
	// the library still works
	if d.find("p").length() != 2 || d.find("p:not(.c)").length() != 1 || d.find("p:nth-child(2) > b, .a i").length() != 2 {
		return Err(format!("{}: later queries give wrong results", what));
	}
	Ok(c.expect != 0 || ne > 0)
}
pub fn gen_syntax(r: &mut Rng, full: &SelCfg) -> SyntaxCase {
	let method = r.below(METHODS.len()) as u8;
	match r.below(4) {
		0 => {
			let toks = ["p", ".a", "#i0", "[", "]", "(", ")", ":not(", ":has(", ":nth-child(", "2n+1", ":contains(", "'", "\"", ",", ">", "+", "~", " ", "*", "\\", "=", "a", "b", "^=", ":", "\u{e9}", ":only-child", ":checked", "-", "|", "\0", "\t", ".", "#", "1", "n", ":last-child", ":nth-last-of-type(", "99999999999999999999", "even"];
			let n = 1 + r.below(9);
			SyntaxCase { sel: (0..n).map(|_| *r.pick(&toks)).collect(), expect: 0, method }
		}
		1 => SyntaxCase { sel: show_list(&gen_list(r, full, 0)), expect: 2, method },
		_ => {
			let s = show_list(&gen_list(r, full, 0));
			let s2 = show_list(&gen_list(r, full, 0));
			let sel = match r.below(4) {
				0 => format!("{}{}", s, r.pick(&[",", " ,", ">", " +", "~ ", ".", "#", "[", ":", "(", ")", "]", "[k", "[k=", "[k='v'", "[]", "[=v]", ":not(", ":not(p", ":has(p", ":has(", ":nth-child(", ":nth-child(x)", ":nth-child()", ":nth-child(2", ":nth-child(1\u{663})", ":nth-child(n+2\u{663})", ":nosuch", "::", "!", "&", "'", "\"", "$", ":contains(", ":contains('x", ".1", "#-", ":not(p", ", :not(.a"])),
				1 => format!("{}{}", r.pick(&[",", ")", "!", "]", "(", "'", "=", ":", ". ", "# ", "> > ", ", ", "[ "]), s),
				2 => format!("{}{}{}", s, r.pick(&[",,", " > > ", " + > ", " ~ ~ ", ", ,", " >, ", " ! ", ")", "(", " [ ", " . "]), s2),
				_ => r.pick(&["", " ", "\t"]).to_string() + r.pick(&[",", ">", "+", "~", ".", "#", "[", ":", ")", "(", "]", "!", "\\", "&", "="]),
			};
			let mut sel = sel;
			for _ in 0..[0, 0, 1, 2][r.below(4)] {
				sel = format!("{}{}{}{})", r.pick(&["", "p", "nosuch", "i > nosuch"]), r.pick(&[":not(", ":has(", ":not( "]), sel, r.pick(&["", " "]));
			}
			SyntaxCase { sel, expect: 1, method }
		}
	}
}
