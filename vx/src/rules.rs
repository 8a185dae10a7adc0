//! The mechanical rewrites, each a syntactic rule.
use crate::edit::*;
use crate::src::range;
use std::collections::HashMap;
use syn::visit::Visit;

/// what the spec file says about one function
#[derive(Default, Clone)]
pub struct FnSpec {
	pub path: String,
	pub file: String,
	pub rename: Option<String>,
	pub ret: Option<String>,
	pub sig: Option<String>,
	pub header: String,
	pub attrs: String,
	pub loops: HashMap<usize, String>,
	pub loop_kind: HashMap<usize, String>,
	pub at: Vec<(String, String)>,
	pub rules: Vec<(String, String)>,
	pub closure: Option<String>,
	pub init: Option<String>,
	/// the body of one arm of a `match`, by its pattern
	pub arm: Option<String>,
	pub tail: String,
	pub stub: bool,
	pub props: Vec<String>,
}

pub struct Rw<'a> {
	pub e: Edits<'a>,
	pub spec: &'a FnSpec,
	pub nloops: usize,
	pub nboxed: usize,
	pub err: Option<String>,
	/// per block: the functions and lifted closures it defines, with their names outside
	pub defs: HashMap<usize, Vec<(String, String, String)>>,
	pub scopes: Vec<Vec<(String, String, String)>>,
	/// local variables that hold a borrowed node
	pub guards: Vec<(String, bool)>,
}

/// inner functions and closures that are taken out on their own: `inner NAME => A B ..` and `lift NAME => A(+x) ..`,
/// one name per definition in the order of the text
pub struct Defs<'b> {
	pub spec: &'b FnSpec,
	pub count: HashMap<String, usize>,
	pub out: HashMap<usize, Vec<(String, String, String)>>,
}
impl<'b> Defs<'b> {
	fn def(&mut self, kind: &str, name: &str, block: usize) {
		let key = format!("{} {}", kind, name);
		if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| *k == key) {
			let n = self.count.entry(key).or_insert(0);
			if let Some(w) = v.split_whitespace().nth(*n) {
				let (a, x) = match w.split_once("(+") {
					Some((a, x)) => (a, x.trim_end_matches(')')),
					None => (w, ""),
				};
				self.out.entry(block).or_default().push((name.to_string(), a.to_string(), x.replace("~", " ")));
			}
			*n += 1;
		}
	}
}
pub fn closure_let(s: &syn::Stmt) -> Option<String> {
	if let syn::Stmt::Local(l) = s {
		if let (syn::Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
			if matches!(&*x.expr, syn::Expr::Closure(_)) {
				return Some(i.ident.to_string());
			}
		}
	}
	None
}
impl<'b, 'ast> Visit<'ast> for Defs<'b> {
	fn visit_block(&mut self, b: &'ast syn::Block) {
		let lo = range(b).0;
		for s in &b.stmts {
			if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
				self.def("inner", &f.sig.ident.to_string(), lo);
			}
			if let Some(n) = closure_let(s) {
				self.def("lift", &n, lo);
			}
			self.visit_stmt(s);
		}
	}
}
/// `return`, `?`, `break`, `continue` that leave the piece of text they stand in
pub struct Leaves {
	pub found: bool,
	pub loops: usize,
}
impl<'ast> Visit<'ast> for Leaves {
	fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
		self.found = true;
	}
	fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
		self.found = true;
	}
	fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
		if self.loops == 0 || b.label.is_some() {
			self.found = true;
		}
	}
	fn visit_expr_continue(&mut self, b: &'ast syn::ExprContinue) {
		if self.loops == 0 || b.label.is_some() {
			self.found = true;
		}
	}
	fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
		self.loops += 1;
		syn::visit::visit_expr_loop(self, l);
		self.loops -= 1;
	}
	fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
		self.loops += 1;
		syn::visit::visit_expr_while(self, l);
		self.loops -= 1;
	}
	fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
		self.loops += 1;
		syn::visit::visit_expr_for_loop(self, l);
		self.loops -= 1;
	}
	fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
	fn visit_item(&mut self, _: &'ast syn::Item) {}
}
pub fn leaves(e: &syn::Expr) -> bool {
	let mut l = Leaves { found: false, loops: 0 };
	l.visit_expr(e);
	l.found
}
/// the closure of `Box::new(|..| ..)` or of `|..| ..`
fn boxed_closure(e: &syn::Expr) -> Option<&syn::ExprClosure> {
	match e {
		syn::Expr::Closure(c) => Some(c),
		syn::Expr::Call(c) if c.args.len() == 1 => match &*c.func {
			syn::Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Box" => boxed_closure(&c.args[0]),
			_ => None,
		},
		_ => None,
	}
}
/// X of `X.borrow()`, `X.borrow_mut()`, `(*X.borrow_mut())`
fn guard_of(e: &syn::Expr) -> Option<(&syn::Expr, bool)> {
	match e {
		syn::Expr::Paren(p) => guard_of(&p.expr),
		syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => guard_of(&u.expr),
		syn::Expr::Reference(r) => guard_of(&r.expr),
		syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "borrow" => Some((&m.receiver, false)),
		syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "borrow_mut" => Some((&m.receiver, true)),
		_ => None,
	}
}
pub fn norm(s: &str) -> String {
	s.split_whitespace().collect::<Vec<_>>().join(" ")
}

impl<'a> Rw<'a> {
	fn src(&self, r: (usize, usize)) -> &'a str {
		&self.e.text[r.0..r.1]
	}
	fn anchor(&self, what: &str) -> String {
		let mut s = String::new();
		for (k, v) in &self.spec.at {
			if k == what {
				s.push_str(v);
			}
		}
		s
	}
	fn has(&self, rule: &str) -> bool {
		self.spec.rules.iter().any(|(k, _)| k == rule)
	}
	fn loop_spec(&self, k: usize) -> String {
		self.spec.loops.get(&k).cloned().unwrap_or_default()
	}
	fn for_loop(&mut self, l: &syn::ExprForLoop, label: String) {
		let k = self.nloops;
		self.nloops += 1;
		let pat = self.src(range(&*l.pat)).to_string();
		let body = range(&l.body);
		let (lo, hi) = range(l);
		let mut it = &*l.expr;
		while let syn::Expr::Paren(p) = it {
			it = &p.expr;
		}
		// peel adapters
		let mut chain: Vec<String> = vec![];
		let mut base = it;
		while let syn::Expr::MethodCall(m) = base {
			let n = m.method.to_string();
			if m.args.is_empty() && ["iter", "rev", "enumerate", "chars", "into_iter", "iter_mut"].contains(&n.as_str()) {
				chain.push(n);
				base = &m.receiver;
			} else {
				break;
			}
		}
		while let syn::Expr::Paren(p) = base {
			base = &p.expr;
		}
		chain.reverse();
		let i = format!("__i{}", k);
		let s = format!("__s{}", k);
		let mut pre = String::new();
		let mut pieces: Vec<Piece> = vec![];
		let bind;
		let enumerated = chain.last().map_or(false, |c| c == "enumerate");
		let mut core: Vec<&str> = chain.iter().map(|s| s.as_str()).filter(|s| *s != "enumerate").collect();
		// `for x in &mut v` is `for x in v.iter_mut()`
		if let syn::Expr::Reference(r) = base {
			if r.mutability.is_some() && core.is_empty() {
				base = &r.expr;
				core = vec!["iter_mut"];
			}
		}
		// `for x in f()` over a mutable borrow that f returns
		if core.is_empty() && self.spec.loop_kind.get(&k).map_or(false, |s| s == "mut") {
			core = vec!["iter_mut"];
		}
		if let syn::Expr::Range(r) = base {
			let (a, b) = match (&r.start, &r.end) {
				(Some(a), Some(b)) => (range(&**a), range(&**b)),
				_ => return self.fail(format!("loop {}: open range", k)),
			};
			if enumerated {
				return self.fail(format!("loop {}: unsupported range", k));
			}
			let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
			pre.push_str("{ ");
			pieces.push(Piece::Lit(pre));
			pieces.push(Piece::Lit(format!("let __a{}: usize = ", k)));
			pieces.push(Piece::Src(a.0, a.1));
			pieces.push(Piece::Lit(format!("; let __e{}: usize = ", k)));
			pieces.push(Piece::Src(b.0, b.1));
			match core.as_slice() {
				[] if closed => {
					pieces.push(Piece::Lit(format!("; let mut {i}: usize = __a{k}; let mut __more{k}: bool = __a{k} <= __e{k};\n{} {label} while __more{k}\n", self.anchor(&format!("pre-loop {}", k)))));
					bind = format!("let {pat}: usize = {i}; if {i} == __e{k} {{ __more{k} = false; }} else {{ {i} = {i} + 1; }}");
				}
				_ if closed => return self.fail(format!("loop {}: unsupported range adapter", k)),
				[] => {
					pieces.push(Piece::Lit(format!("; let mut {i}: usize = __a{k};\n{} {label} while {i} < __e{k}\n", self.anchor(&format!("pre-loop {}", k)))));
					bind = format!("let {pat}: usize = {i}; {i} = {i} + 1;");
				}
				["rev"] => {
					pieces.push(Piece::Lit(format!("; let mut {i}: usize = __e{k};\n{} {label} while {i} > __a{k}\n", self.anchor(&format!("pre-loop {}", k)))));
					bind = format!("{i} = {i} - 1; let {pat}: usize = {i};");
				}
				_ => return self.fail(format!("loop {}: unsupported range adapter", k)),
			}
			pieces.push(Piece::Lit(format!("{}\n", self.loop_spec(k))));
			if !self.loop_spec(k).contains("decreases") {
				pieces.push(Piece::Lit(if closed { format!("decreases __e{k} - {i} + (if __more{k} {{ 1int }} else {{ 0int }})\n") } else if core.is_empty() { format!("decreases __e{k} - {i}\n") } else { format!("decreases {i} - __a{k}\n") }));
			}
		} else if core.as_slice() == ["iter_mut"] {
			// the elements of a place, one after the other, each borrowed for one turn of the loop
			fn place(e: &syn::Expr) -> bool {
				match e {
					syn::Expr::Path(_) => true,
					syn::Expr::Field(f) => place(&f.base),
					_ => false,
				}
			}
			// `v[a..]`: from the element at a
			let mut from = "0".to_string();
			if let syn::Expr::Index(x) = base {
				if let syn::Expr::Range(r) = &*x.index {
					if let (Some(a), None) = (&r.start, &r.end) {
						from = self.src(range(&**a)).to_string();
						base = &x.expr;
					}
				}
			}
			let b = range(base);
			let mut bs = self.src(b).to_string();
			if from != "0" && !place(base) {
				return self.fail(format!("loop {}: part of a call", k));
			}
			if place(base) {
				pieces.push(Piece::Lit(if from == "0" { "{".into() } else { format!("{{ vx_part({bs}.len(), {from});") }));
			} else {
				// a call that returns a mutable borrow
				pieces.push(Piece::Lit(format!("{{ let {s} = ")));
				pieces.push(Piece::Src(b.0, b.1));
				pieces.push(Piece::Lit(";".into()));
				bs = s.clone();
			}
			pieces.push(Piece::Lit(format!(" let mut {i}: usize = {from};\n{} {label} while {i} < {bs}.len()\n{}\n", self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k))));
			if !self.loop_spec(k).contains("decreases") {
				pieces.push(Piece::Lit(format!("decreases {bs}.len() - {i}\n")));
			}
			bind = if enumerated {
				match &*l.pat {
					syn::Pat::Tuple(t) if t.elems.len() == 2 => {
						let p0 = self.src(range(&t.elems[0]));
						let p1 = self.src(range(&t.elems[1]));
						let ip = if p0 == "_" { String::new() } else { format!("let {p0}: usize = {i}; ") };
						format!("{ip} let {p1} = &mut {bs}[{i}]; {i} = {i} + 1;")
					}
					_ => return self.fail(format!("loop {}: unsupported pattern", k)),
				}
			} else {
				format!("let {pat} = &mut {bs}[{i}]; {i} = {i} + 1;")
			};
		} else {
			let kind = self.spec.loop_kind.get(&k).map(|s| s.as_str()).unwrap_or("");
			let is_ref = matches!(base, syn::Expr::Reference(_)) && core.is_empty();
			let b = if is_ref { if let syn::Expr::Reference(r) = base { range(&*r.expr) } else { unreachable!() } } else { range(base) };
			// how the elements are reached
			let (init, elem) = match (core.as_slice(), kind) {
				(["chars"], _) => ((format!("let {s}: Vec<char> = vx_chars(&"), ")".to_string()), format!("{s}[{i}]")),
				([], "val") => ((format!("let mut {s} = vx_into("), ")".to_string()), format!("vx_take(&mut {s}, {i})")),
				(["into_iter"], "val") => ((format!("let mut {s} = vx_into("), ")".to_string()), format!("vx_take(&mut {s}, {i})")),
				(["iter"], _) | ([], "ref") => ((format!("let {s} = vx_slice(&"), ")".to_string()), format!("&{s}[{i}]")),
				([], _) if is_ref => ((format!("let {s} = vx_slice(&"), ")".to_string()), format!("&{s}[{i}]")),
				(["iter", "rev"], _) => ((format!("let {s} = vx_slice(&"), ")".to_string()), format!("&{s}[{s}.len() - 1 - {i}]")),
				([], _) => ((format!("let {s} = vx_slice(&"), ")".to_string()), format!("&{s}[{i}]")),
				_ => return self.fail(format!("loop {}: unsupported iterator {:?}", k, chain)),
			};
			pieces.push(Piece::Lit(format!("{{ {}", init.0)));
			pieces.push(Piece::Src(b.0, b.1));
			pieces.push(Piece::Lit(format!("{}; let mut {i}: usize = 0;\n{} {label} while {i} < {s}.len()\n{}\n", init.1, self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k))));
			if !self.loop_spec(k).contains("decreases") {
				pieces.push(Piece::Lit(format!("decreases {s}.len() - {i}\n")));
			}
			bind = if enumerated {
				match &*l.pat {
					syn::Pat::Tuple(t) if t.elems.len() == 2 => {
						let p0 = self.src(range(&t.elems[0]));
						let p1 = self.src(range(&t.elems[1]));
						let ip = if p0 == "_" { String::new() } else { format!("let {p0}: usize = {i}; ") };
						format!("{ip}{} {i} = {i} + 1;", bind_pat(p1, &elem))
					}
					_ => return self.fail(format!("loop {}: unsupported pattern", k)),
				}
			} else {
				format!("{} {i} = {i} + 1;", bind_pat(&pat, &elem))
			};
		}
		pieces.push(Piece::Lit(format!("{{ {} {}", bind, self.anchor(&format!("loop-start {}", k)))));
		pieces.push(Piece::Src(body.0 + 1, body.1 - 1));
		pieces.push(Piece::Lit(format!("{} }} {} }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-exit {}", k)))));
		self.e.replace(lo, hi, pieces);
		syn::visit::visit_expr_for_loop(self, l);
	}
	fn fail(&mut self, s: String) {
		if self.err.is_none() {
			self.err = Some(s);
		}
	}
	fn body_anchors(&mut self, k: usize, body: &syn::Block) {
		let (lo, hi) = range(body);
		let sp = self.loop_spec(k);
		self.e.insert(lo, format!("\n{}\n", sp));
		let s = self.anchor(&format!("loop-start {}", k));
		if !s.is_empty() {
			self.e.insert(lo + 1, s);
		}
		let s = self.anchor(&format!("loop-end {}", k));
		if !s.is_empty() {
			self.e.insert(hi - 1, s);
		}
	}
}
fn bind_pat(p: &str, elem: &str) -> String {
	if let Some(q) = p.strip_prefix('&') {
		let rest = elem.strip_prefix('&').unwrap_or(elem);
		return format!("let {q} = {rest};");
	}
	if p == "_" {
		return String::new();
	}
	format!("let {p} = {elem};")
}

impl<'a, 'ast> Visit<'ast> for Rw<'a> {
	fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
		let label = l.label.as_ref().map(|x| self.src(range(x)).to_string()).unwrap_or_default();
		self.for_loop(l, label);
	}
	fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
		let k = self.nloops;
		self.nloops += 1;
		if let syn::Expr::Let(c) = &*l.cond {
			// while let P = E B   ->   loop { if let P = E B else { break; } }
			let (lo, hi) = range(l);
			let label = l.label.as_ref().map(|x| self.src(range(x)).to_string()).unwrap_or_default();
			let (p, e, b) = (range(&*c.pat), range(&*c.expr), range(&l.body));
			let pieces = vec![
				Piece::Lit(format!("{} {label} loop\n{}\n{{ if let ", self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k))),
				Piece::Src(p.0, p.1),
				Piece::Lit(" = ".into()),
				Piece::Src(e.0, e.1),
				Piece::Lit(format!(" {{ {}", self.anchor(&format!("loop-start {}", k)))),
				Piece::Src(b.0 + 1, b.1 - 1),
				Piece::Lit(format!("{} }} else {{ {} break; }} }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-break {}", k)))),
			];
			self.e.replace(lo, hi, pieces);
			syn::visit::visit_expr_while(self, l);
			return;
		}
		self.body_anchors(k, &l.body);
		let hi = range(l).1;
		self.e.insert(hi, format!("; {}", self.anchor(&format!("loop-exit {}", k))));
		syn::visit::visit_expr_while(self, l);
	}
	fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
		let k = self.nloops;
		self.nloops += 1;
		self.body_anchors(k, &l.body);
		syn::visit::visit_expr_loop(self, l);
	}
	fn visit_block(&mut self, b: &'ast syn::Block) {
		let d = self.defs.get(&range(b).0).cloned().unwrap_or_default();
		self.scopes.push(d);
		let g = self.guards.len();
		syn::visit::visit_block(self, b);
		self.guards.truncate(g);
		self.scopes.pop();
	}
	fn visit_expr_struct(&mut self, x: &'ast syn::ExprStruct) {
		// `err`: Error::.. { .. } -> vx_error(), whatever the message
		if self.has("err") && x.path.segments.len() == 2 && x.path.segments[0].ident == "Error" {
			let (lo, hi) = range(x);
			self.e.replace(lo, hi, vec![Piece::Lit("vx_error()".into())]);
			return;
		}
		syn::visit::visit_expr_struct(self, x);
	}
	fn visit_arm(&mut self, a: &'ast syn::Arm) {
		let key = format!("arm {}", norm(self.src(range(&a.pat))));
		if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| *k == key) {
			let r = range(&*a.body);
			self.e.replace(r.0, r.1, vec![Piece::Lit(v.clone())]);
			return;
		}
		syn::visit::visit_arm(self, a);
	}
	fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
		let r = range(u);
		// what a unit declares is in its one module; `use Enum::*` keeps its meaning
		if ["crate", "super", "std", "self"].iter().any(|h| matches!(&u.tree, syn::UseTree::Path(p) if p.ident == *h)) {
			self.e.replace(r.0, r.1, vec![]);
		}
	}
	fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
		let r = range(s);
		if let Some(n) = closure_let(s) {
			if self.has(&format!("lift {}", n)) {
				self.e.replace(r.0, r.1, vec![]);
				return;
			}
		}
		if let (syn::Stmt::Local(l), true) = (s, self.has("heap")) {
			if let (syn::Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
				if let Some((b, m)) = guard_of(&x.expr) {
					self.guards.push((i.ident.to_string(), m));
					let br = range(b);
					self.e.replace(r.0, r.1, vec![Piece::Lit(format!("let {} = vx_rc(&", i.ident)), Piece::Src(br.0, br.1), Piece::Lit(");".into())]);
				}
			}
		}
		let txt = norm(self.src(r));
		for (k, v) in &self.spec.at {
			if let Some(w) = k.strip_prefix("before ") {
				if txt.starts_with(w) {
					self.e.insert(r.0, v.clone());
				}
			}
			if let Some(w) = k.strip_prefix("after ") {
				if txt.starts_with(w) {
					self.e.insert(r.1, v.clone());
				}
			}
		}
		syn::visit::visit_stmt(self, s);
	}
	fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
		let neg = match b.op {
			syn::BinOp::Eq(_) => "",
			syn::BinOp::Ne(_) => "!",
			_ => return syn::visit::visit_expr_binary(self, b),
		};
		// numbers are not texts
		let num = |e: &syn::Expr| match e {
			syn::Expr::MethodCall(m) => m.method == "len" || m.method == "length",
			syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_)),
			_ => false,
		};
		if self.has("streq") && !num(&b.left) && !num(&b.right) {
			let (lo, hi) = range(b);
			let (l, r) = (range(&*b.left), range(&*b.right));
			self.e.replace(lo, hi, vec![
				Piece::Lit(format!("{}vx_eq(&(", neg)), Piece::Src(l.0, l.1), Piece::Lit("), &(".into()), Piece::Src(r.0, r.1), Piece::Lit("))".into()),
			]);
		}
		syn::visit::visit_expr_binary(self, b);
	}
	fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
		// `strmatch`: match on string literals -> if chain
		fn strs(p: &syn::Pat, out: &mut Vec<String>) -> bool {
			match p {
				syn::Pat::Lit(l) => match &l.lit {
					syn::Lit::Str(s) => {
						out.push(s.value());
						true
					}
					_ => false,
				},
				syn::Pat::Or(o) => o.cases.iter().all(|c| strs(c, out)),
				_ => false,
			}
		}
		if self.has("strmatch") && m.arms.iter().any(|a| strs(&a.pat, &mut vec![])) {
			let (lo, hi) = range(m);
			let x = range(&*m.expr);
			let mut p = vec![Piece::Lit("{ let __m = ".into()), Piece::Src(x.0, x.1), Piece::Lit("; ".into())];
			let mut closed = false;
			for a in &m.arms {
				let b = range(&*a.body);
				let mut v = vec![];
				if a.guard.is_some() {
					return self.fail("guard in a match on strings".into());
				}
				if strs(&a.pat, &mut v) {
					let c: Vec<String> = v.iter().map(|s| format!("vx_eq(&__m, &{:?})", s)).collect();
					p.push(Piece::Lit(format!("if {} {{ ", c.join(" || "))));
					p.push(Piece::Src(b.0, b.1));
					p.push(Piece::Lit(" } else ".into()));
				} else if matches!(&a.pat, syn::Pat::Wild(_)) {
					p.push(Piece::Lit("{ ".into()));
					p.push(Piece::Src(b.0, b.1));
					p.push(Piece::Lit(" }".into()));
					closed = true;
					break;
				} else {
					return self.fail("pattern in a match on strings".into());
				}
			}
			if !closed {
				return self.fail("match on strings without `_`".into());
			}
			p.push(Piece::Lit(" }".into()));
			self.e.replace(lo, hi, p);
		}
		syn::visit::visit_expr_match(self, m);
	}
	fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
		// `heap`: X.borrow().F is the field F of the node X in the heap; so is G.F for a guard `let G = X.borrow_mut()`
		if self.has("heap") {
			if let syn::Member::Named(n) = &f.member {
				let (lo, hi) = range(f);
				if let Some((x, mutable)) = guard_of(&f.base) {
					let r = range(x);
					let how = format!(".{})", self.heap_field(&n.to_string(), mutable));
					self.e.replace(lo, hi, vec![Piece::Lit("(*".into()), Piece::Src(r.0, r.1), Piece::Lit(how)]);
					return self.visit_expr(x);
				}
				if let syn::Expr::Path(p) = &*f.base {
					if let Some(g) = p.path.get_ident().and_then(|i| self.guards.iter().rev().find(|g| *i == g.0)).cloned() {
						let how = self.heap_field(&n.to_string(), g.1);
						self.e.replace(lo, hi, vec![Piece::Lit(format!("(*{}.{})", g.0, how))]);
						return;
					}
				}
			}
		}
		syn::visit::visit_expr_field(self, f);
	}
	fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
		// `hf PATH => NAME(ARGS)`: another name and further arguments in front
		if self.spec.rules.iter().any(|(k, _)| k.starts_with("hf ")) {
			let f = norm(self.src(range(&*c.func))).replace(' ', "");
			if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| k.strip_prefix("hf ") == Some(&f)) {
				let (name, args) = match v.split_once('(') {
					Some((n, a)) => (n.trim().to_string(), a.trim().trim_end_matches(')').to_string()),
					None => (v.clone(), String::new()),
				};
				let (lo, hi) = range(c);
				let mut p = vec![Piece::Lit(format!("{}({}", name, args))];
				for (i, a) in c.args.iter().enumerate() {
					if i > 0 || !args.is_empty() {
						p.push(Piece::Lit(", ".into()));
					}
					let r = range(a);
					p.push(Piece::Src(r.0, r.1));
				}
				p.push(Piece::Lit(")".into()));
				self.e.replace(lo, hi, p);
				for a in &c.args {
					self.visit_expr(a);
				}
				return;
			}
		}
		// `err`: Box::new(IError::.. { .. }) -> vx_err(), whatever the message
		if self.has("err") && norm(self.src(range(&*c.func))).replace(' ', "") == "Box::new" && c.args.len() == 1 {
			if let syn::Expr::Struct(x) = &c.args[0] {
				if x.path.segments.first().map_or(false, |s| s.ident == "IError") {
					let (lo, hi) = range(c);
					self.e.replace(lo, hi, vec![Piece::Lit("vx_err()".into())]);
					return;
				}
			}
		}
		// `boxed K => TEXT`: the K-th Box::new(closure) not inside another is TEXT, which stands for that closure
		if self.spec.rules.iter().any(|(k, _)| k.starts_with("boxed ")) && norm(self.src(range(&*c.func))).replace(' ', "") == "Box::new" && c.args.len() == 1 {
			if let syn::Expr::Closure(_) = &c.args[0] {
				let key = format!("boxed {}", self.nboxed);
				self.nboxed += 1;
				return match self.spec.rules.iter().find(|(k, _)| *k == key) {
					Some((_, v)) => {
						let (lo, hi) = range(c);
						self.e.replace(lo, hi, vec![Piece::Lit(v.clone())])
					}
					None => self.fail(format!("no text for closure {}", key)),
				};
			}
		}
		// `apply`: Box::new(|p| body), called at once -> body
		if self.has("apply") && norm(self.src(range(&*c.func))).replace(' ', "") == "Box::new" && c.args.len() == 1 {
			if let syn::Expr::Closure(k) = &c.args[0] {
				let (lo, hi) = range(c);
				let b = range(&*k.body);
				self.e.replace(lo, hi, vec![Piece::Lit("{ ".into()), Piece::Src(b.0, b.1), Piece::Lit(" }".into())]);
				return self.visit_expr(&k.body);
			}
		}
		if let syn::Expr::Path(p) = &*c.func {
			if let Some(id) = p.path.get_ident() {
				let id = id.to_string();
				let fr = range(&*c.func);
				if let Some(k) = c.args.last().and_then(boxed_closure) {
					if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| *k == format!("cb {}", id)) {
						let args: Vec<(usize, usize)> = c.args.iter().take(c.args.len() - 1).map(range).collect();
						return self.callback(range(c), fr, &args, k, v, false, &c.args);
					}
				}
				// `group F`: F(E, |T| K, |D| B) is B for every group of E, one after the other, with K for its total
				if self.has(&format!("group {}", id)) && c.args.len() == 3 {
					if let (syn::Expr::Closure(t), syn::Expr::Closure(d)) = (&c.args[1], &c.args[2]) {
						return self.groups(range(c), &c.args[0], t, d);
					}
				}
				if self.has(&format!("call {}", id)) {
					self.e.replace(fr.0, fr.1, vec![Piece::Lit(format!("{}.call", id))]);
				} else if let Some(d) = self.scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|d| d.0 == id).cloned() {
					self.e.replace(fr.0, fr.1, vec![Piece::Lit(d.1.clone())]);
					if !d.2.is_empty() {
						let hi = range(c).1;
						self.e.insert(hi - 1, format!(", {}", d.2));
					}
				}
			}
		}
		syn::visit::visit_expr_call(self, c);
	}
	fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
		// a local constant is a local value
		let r = range(&c.const_token);
		self.e.replace(r.0, r.1, vec![Piece::Lit("let".into())]);
	}
	fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
		// inner functions are taken out on their own, not inside their parent
		let r = range(f);
		self.e.replace(r.0, r.1, vec![]);
	}
	fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
		let r = range(a);
		self.e.replace(r.0, r.1, vec![]);
	}
	fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
		self.mac(&m.mac, range(m));
	}
	fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
		self.mac(&m.mac, range(&m.mac));
	}
	fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
		let name = m.method.to_string();
		let (lo, hi) = range(m);
		let rc = range(&*m.receiver);
		// v.iter().collect::<String>()
		if name == "collect" {
			let t = m.turbofish.as_ref().map(|t| norm(self.src(range(t))).replace(' ', "")).unwrap_or_default();
			if let syn::Expr::MethodCall(in_) = &*m.receiver {
				let inn = in_.method.to_string();
				let b = range(&*in_.receiver);
				if inn == "iter" && t == "::<String>" {
					self.e.replace(lo, hi, vec![Piece::Lit("vx_string(&".into()), Piece::Src(b.0, b.1), Piece::Lit(")".into())]);
					syn::visit::visit_expr_method_call(self, in_);
					return;
				}
				if inn == "chars" && (t == "::<Vec<char>>" || t.is_empty()) {
					self.e.replace(lo, hi, vec![Piece::Lit("vx_chars(&".into()), Piece::Src(b.0, b.1), Piece::Lit(")".into())]);
					syn::visit::visit_expr_method_call(self, in_);
					return;
				}
			}
		}
		// `mapcollect K => SRC OUT TYPE`: X.iter().map(|p| e).collect(), X.into_iter().map(..).collect(): a loop over SRC(X) that pushes e, then OUT of the list
		if name == "collect" {
			if let syn::Expr::MethodCall(mm) = &*m.receiver {
				if mm.method == "map" && mm.args.len() == 1 {
					if let (syn::Expr::MethodCall(it), syn::Expr::Closure(c)) = (&*mm.receiver, &mm.args[0]) {
						let by = if it.method == "iter" { "&" } else { "" };
						let k = self.nloops;
						let v = self.spec.rules.iter().find(|(n, _)| *n == format!("mapcollect {}", k)).map(|(_, v)| v.clone());
						if let (Some(v), true) = (v, (it.method == "iter" || it.method == "into_iter") && it.args.is_empty() && c.inputs.len() == 1 && !leaves(&c.body)) {
							self.nloops += 1;
							let mut w = v.split_whitespace();
							let (src, out) = (w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string());
							let ty = w.collect::<Vec<_>>().join(" ");
							let b = range(&*it.receiver);
							let p = self.src(range(&c.inputs[0])).to_string();
							let e = range(&*c.body);
							let dec = if self.loop_spec(k).contains("decreases") { String::new() } else { format!("decreases __s{k}.len() - __i{k}\n") };
							self.e.replace(lo, hi, vec![
								Piece::Lit(format!("{{ let mut __s{k} = {src}({by}")),
								Piece::Src(b.0, b.1),
								Piece::Lit(format!("); let mut __i{k}: usize = 0; let mut __o{k}: Vec<{ty}> = Vec::new();\n{} while __i{k} < __s{k}.len()\n{}\n{dec} {{ let {p} = vx_take(&mut __s{k}, __i{k}); __i{k} = __i{k} + 1; {} let __x{k} = ",
									self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k), self.anchor(&format!("loop-start {}", k)))),
								Piece::Src(e.0, e.1),
								Piece::Lit(format!("; __o{k}.push(__x{k}); {} }} {} {out}(__o{k}) }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-exit {}", k)))),
							]);
							self.visit_expr(&it.receiver);
							self.visit_expr(&c.body);
							return;
						}
					}
				}
			}
		}
		// `setmap K => TYPE`: S.map(|i, p| e) of a set: a loop over its elements (what Elements::map does, proved in unit set)
		if name == "map" && m.args.len() == 1 {
			if let syn::Expr::Closure(c) = &m.args[0] {
				let k = self.nloops;
				let v = self.spec.rules.iter().find(|(n, _)| *n == format!("setmap {}", k)).map(|(_, v)| v.clone());
				if let (Some(ty), true) = (v, c.inputs.len() == 2 && !leaves(&c.body)) {
					self.nloops += 1;
					let (i, p) = (self.src(range(&c.inputs[0])).to_string(), self.src(range(&c.inputs[1])).to_string());
					let e = range(&*c.body);
					let dec = if self.loop_spec(k).contains("decreases") { String::new() } else { format!("decreases __s{k}.len() - __i{k}\n") };
					self.e.replace(lo, hi, vec![
						Piece::Lit(format!("{{ let __s{k} = vx_slice(")),
						Piece::Src(rc.0, rc.1),
						Piece::Lit(format!(".get_ref()); let mut __i{k}: usize = 0; let mut __o{k}: Vec<{ty}> = Vec::new();\n{} while __i{k} < __s{k}.len()\n{}\n{dec} {{ {} {} __i{k} = __i{k} + 1; {} let __x{k} = ",
							self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k), bind_pat(&i, &format!("__i{k}")), bind_pat(&p, &format!("&__s{k}[__i{k}]")), self.anchor(&format!("loop-start {}", k)))),
						Piece::Src(e.0, e.1),
						Piece::Lit(format!("; __o{k}.push(__x{k}); {} }} {} __o{k} }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-exit {}", k)))),
					]);
					self.visit_expr(&m.receiver);
					self.visit_expr(&c.body);
					return;
				}
			}
		}
		// X.iter().any(|p| e) / all: a loop that stops at the first element that decides
		// X.iter().position(|p| e): the index it stops at
		if (name == "any" || name == "all" || name == "position") && m.args.len() == 1 {
			if let (syn::Expr::MethodCall(in_), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
				if in_.method == "iter" && in_.args.is_empty() && c.inputs.len() == 1 {
					let k = self.nloops;
					self.nloops += 1;
					let b = range(&*in_.receiver);
					let p = self.src(range(&c.inputs[0])).to_string();
					let e = range(&*c.body);
					let pos = name == "position";
					let (neg, init) = if name != "all" { ("!", "false") } else { ("", "true") };
					let dec = if self.loop_spec(k).contains("decreases") { String::new() } else { format!("decreases __s{k}.len() - __i{k}\n") };
					self.e.replace(lo, hi, vec![
						Piece::Lit(format!("{{ let __s{k} = vx_slice(&")),
						Piece::Src(b.0, b.1),
						Piece::Lit(format!("); let mut __i{k}: usize = 0; let mut __f{k}: bool = {init};\n{} while __i{k} < __s{k}.len() && {neg}__f{k}\n{}\n{dec} {{ {} __i{k} = __i{k} + 1; {} __f{k} = ",
							self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k), bind_pat(&p, &format!("&__s{k}[__i{k}]")), self.anchor(&format!("loop-start {}", k)))),
						Piece::Src(e.0, e.1),
						Piece::Lit(format!("; {} }} {} {} }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-exit {}", k)),
							if pos { format!("if __f{k} {{ Some(__i{k} - 1) }} else {{ None }}") } else { format!("__f{k}") })),
					]);
					self.visit_expr(&in_.receiver);
					self.visit_expr(&c.body);
					return;
				}
			}
		}
		// `cb METHOD => LIST`: X.METHOD(a, Box::new(|p| B)) calls B for the items of LIST(&X, a), in order;
		// `cbwhile`: as long as B says so
		if let Some(k) = m.args.last().and_then(boxed_closure) {
			for (w, stop) in [("cb", false), ("cbwhile", true)] {
				if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| *k == format!("{} .{}", w, name)) {
					let args: Vec<(usize, usize)> = m.args.iter().take(m.args.len() - 1).map(range).collect();
					self.visit_expr(&m.receiver);
					return self.callback((lo, hi), rc, &args, k, v, stop, &m.args);
				}
			}
		}
		// `orelse`: X.or_else(|| B) -> match X { Some(x) => Some(x), None => B }
		if name == "or_else" && self.has("orelse") && m.args.len() == 1 {
			if let syn::Expr::Closure(c) = &m.args[0] {
				let b = range(&*c.body);
				if !leaves(&c.body) {
					self.e.replace(lo, hi, vec![
						Piece::Lit("(match ".into()), Piece::Src(rc.0, rc.1), Piece::Lit(" { Some(__x) => Some(__x), None => ".into()), Piece::Src(b.0, b.1), Piece::Lit(" })".into()),
					]);
					self.visit_expr(&m.receiver);
					self.visit_expr(&c.body);
					return;
				}
			}
		}
		// `optmap`: OPT.map(|p| e) -> match OPT { Some(p) => Some(e), None => None }; with .unwrap_or(d) behind it: the value
		let optmap = self.spec.rules.iter().any(|(k, _)| k == "optmap");
		if optmap {
			let closure = |m: &syn::ExprMethodCall| -> Option<((usize, usize), (usize, usize))> {
				if m.args.len() != 1 {
					return None;
				}
				match &m.args[0] {
					syn::Expr::Closure(c) if c.inputs.len() == 1 => Some((range(&c.inputs[0]), range(&*c.body))),
					_ => None,
				}
			};
			if name == "unwrap_or" {
				if let syn::Expr::MethodCall(in_) = &*m.receiver {
					if in_.method == "map" {
						if let Some((p, b)) = closure(in_) {
							let o = range(&*in_.receiver);
							let d = range(&m.args[0]);
							self.e.replace(lo, hi, vec![
								Piece::Lit("(match ".into()), Piece::Src(o.0, o.1), Piece::Lit(" { Some(".into()), Piece::Src(p.0, p.1),
								Piece::Lit(") => ".into()), Piece::Src(b.0, b.1), Piece::Lit(", None => ".into()), Piece::Src(d.0, d.1), Piece::Lit(" })".into()),
							]);
							self.visit_expr(&in_.receiver);
							if let syn::Expr::Closure(c) = &in_.args[0] {
								self.visit_expr(&c.body);
							}
							return;
						}
					}
				}
			}
			// OPT.map_or(d, |p| e)
			if name == "map_or" && m.args.len() == 2 {
				if let syn::Expr::Closure(c) = &m.args[1] {
					if c.inputs.len() == 1 {
						let (p, b, d) = (range(&c.inputs[0]), range(&*c.body), range(&m.args[0]));
						self.e.replace(lo, hi, vec![
							Piece::Lit("(match ".into()), Piece::Src(rc.0, rc.1), Piece::Lit(" { Some(".into()), Piece::Src(p.0, p.1),
							Piece::Lit(") => ".into()), Piece::Src(b.0, b.1), Piece::Lit(", None => ".into()), Piece::Src(d.0, d.1), Piece::Lit(" })".into()),
						]);
						self.visit_expr(&m.receiver);
						self.visit_expr(&m.args[0]);
						self.visit_expr(&c.body);
						return;
					}
				}
			}
			if name == "map" {
				if let Some((p, b)) = closure(m) {
					self.e.replace(lo, hi, vec![
						Piece::Lit("(match ".into()), Piece::Src(rc.0, rc.1), Piece::Lit(" { Some(".into()), Piece::Src(p.0, p.1),
						Piece::Lit(") => Some(".into()), Piece::Src(b.0, b.1), Piece::Lit("), None => None })".into()),
					]);
					self.visit_expr(&m.receiver);
					if let syn::Expr::Closure(c) = &m.args[0] {
						self.visit_expr(&c.body);
					}
					return;
				}
			}
		}
		// `mname A => B`: another name for a method
		if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| k.strip_prefix("mname ") == Some(&name)) {
			let r = range(&m.method);
			self.e.replace(r.0, r.1, vec![Piece::Lit(v.clone())]);
		}
		// `hm NAME => ARGS`: X.NAME(a) -> X.NAME(ARGS, a)
		if let Some((_, v)) = self.spec.rules.iter().find(|(k, _)| k.strip_prefix("hm ") == Some(&name)) {
			let at = range(&m.paren_token.span.open()).1;
			let sep = if m.args.is_empty() { "" } else { ", " };
			self.e.insert(at, format!("{}{}", v, sep));
			return syn::visit::visit_expr_method_call(self, m);
		}
		// rules of the spec file: `method NAME => FN`: X.NAME(args) -> FN(&X, args) ; `=> FN(mut)`; `=> FN(val)`
		for (k, v) in &self.spec.rules {
			if let Some(n) = k.strip_prefix("method ") {
				if n == name {
					let (f, pre) = if let Some(f) = v.strip_suffix("(mut)") {
						(f, "&mut ")
					} else if let Some(f) = v.strip_suffix("(val)") {
						(f, "")
					} else {
						(v.as_str(), "&")
					};
					let mut p = vec![Piece::Lit(format!("{}({}", f, pre)), Piece::Src(rc.0, rc.1)];
					for a in &m.args {
						let ar = range(a);
						p.push(Piece::Lit(", ".into()));
						p.push(Piece::Src(ar.0, ar.1));
					}
					p.push(Piece::Lit(")".into()));
					self.e.replace(lo, hi, p);
					break;
				}
			}
		}
		syn::visit::visit_expr_method_call(self, m);
	}
}
impl<'a> Rw<'a> {
	/// `hfield F => NAME`: the field is reached by another name than `h.F`
	fn heap_field(&self, n: &str, mutable: bool) -> String {
		let key = format!("hfield {}", n);
		match self.spec.rules.iter().find(|(k, _)| *k == key) {
			Some((_, v)) => format!("{}({})", if mutable { "at_mut" } else { "at" }, v),
			None if mutable => format!("at_mut(&mut h.{})", n),
			None => format!("at(&h.{})", n),
		}
	}
	fn groups(&mut self, whole: (usize, usize), eles: &syn::Expr, t: &syn::ExprClosure, d: &syn::ExprClosure) {
		if leaves(&t.body) || leaves(&d.body) || t.inputs.len() != 1 || d.inputs.len() != 1 {
			return self.fail("a callback that returns early".into());
		}
		let k = self.nloops;
		self.nloops += 1;
		let (e, tp, tb, dp, db) = (range(eles), range(&t.inputs[0]), range(&*t.body), range(&d.inputs[0]), range(&*d.body));
		let dec = if self.loop_spec(k).contains("decreases") { String::new() } else { format!("decreases __s{k}.len() - __i{k}\n") };
		let p = vec![
			Piece::Lit(format!("{{ let __s{k} = vx_groups(")),
			Piece::Src(e.0, e.1),
			Piece::Lit(format!(
				"); let mut __i{k}: usize = 0;\n{} while __i{k} < __s{k}.len()\n{}\n{dec} {{ let ",
				self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k)
			)),
			Piece::Src(tp.0, tp.1),
			Piece::Lit(format!(" = vx_total(&__s{k}[__i{k}]); let mut __d{k} = vx_group(&__s{k}[__i{k}], {{ ")),
			Piece::Src(tb.0, tb.1),
			Piece::Lit(" }); let ".into()),
			Piece::Src(dp.0, dp.1),
			Piece::Lit(format!(" = &mut __d{k}; __i{k} = __i{k} + 1; {} ", self.anchor(&format!("loop-start {}", k)))),
			Piece::Src(db.0, db.1),
			Piece::Lit(format!(" {} }} {} }}", self.anchor(&format!("loop-end {}", k)), self.anchor(&format!("loop-exit {}", k)))),
		];
		self.e.replace(whole.0, whole.1, p);
		self.visit_expr(eles);
		self.visit_expr(&t.body);
		self.visit_expr(&d.body);
	}
	fn callback(&mut self, whole: (usize, usize), recv: (usize, usize), args: &[(usize, usize)], c: &syn::ExprClosure, list: &str, stop: bool, all: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) {
		if leaves(&c.body) {
			return self.fail("a callback that returns early".into());
		}
		let k = self.nloops;
		self.nloops += 1;
		let mut p = vec![Piece::Lit(format!("{{ let __s{k} = {list}(&")), Piece::Src(recv.0, recv.1)];
		for a in args {
			p.push(Piece::Lit(", ".into()));
			p.push(Piece::Src(a.0, a.1));
		}
		let mut bind = String::new();
		let n = c.inputs.len();
		for (j, q) in c.inputs.iter().enumerate() {
			let q = self.src(range(q)).to_string();
			if q == "_" {
				continue;
			}
			if n == 1 {
				bind.push_str(&format!("let {q} = &__s{k}[__i{k}]; "));
			} else if j == 0 {
				bind.push_str(&format!("let {q} = &__s{k}[__i{k}].0; "));
			} else {
				bind.push_str(&format!("let {q} = __s{k}[__i{k}].{j}; "));
			}
		}
		let dec = if self.loop_spec(k).contains("decreases") { String::new() } else { format!("decreases __s{k}.len() - __i{k}\n") };
		let b = range(&*c.body);
		p.push(Piece::Lit(format!(
			"); let mut __i{k}: usize = 0;\n{} while __i{k} < __s{k}.len()\n{}\n{dec} {{ {bind} __i{k} = __i{k} + 1; {} {}",
			self.anchor(&format!("pre-loop {}", k)), self.loop_spec(k), self.anchor(&format!("loop-start {}", k)), if stop { "let __go: bool = " } else { "" }
		)));
		p.push(Piece::Src(b.0, b.1));
		p.push(Piece::Lit(format!(
			"; {} {} }} {} }}",
			self.anchor(&format!("loop-end {}", k)), if stop { "if !__go { break; }" } else { "" }, self.anchor(&format!("loop-exit {}", k))
		)));
		self.e.replace(whole.0, whole.1, p);
		for a in all.iter().take(args.len()) {
			self.visit_expr(a);
		}
		self.visit_expr(&c.body);
	}
	fn mac(&mut self, m: &syn::Macro, r: (usize, usize)) {
		let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
		match n.as_str() {
			"matches" => {
				// look at the scrutinee for rewrites
				if let Ok(x) = m.parse_body_with(|i: syn::parse::ParseStream| {
					let e: syn::Expr = i.parse()?;
					i.parse::<syn::Token![,]>()?;
					let p = syn::Pat::parse_multi_with_leading_vert(i)?;
					if i.peek(syn::Token![if]) {
						i.parse::<syn::Token![if]>()?;
						let _: syn::Expr = i.parse()?;
					}
					let _: Option<syn::Token![,]> = i.parse()?;
					Ok((e, p))
				}) {
					fn strs(p: &syn::Pat, out: &mut Vec<String>) -> bool {
						match p {
							syn::Pat::Lit(l) => match &l.lit {
								syn::Lit::Str(s) => {
									out.push(s.value());
									true
								}
								_ => false,
							},
							syn::Pat::Or(o) => o.cases.iter().all(|c| strs(c, out)),
							_ => false,
						}
					}
					let mut v = vec![];
					if self.has("strmatch") && strs(&x.1, &mut v) {
						let c: Vec<String> = v.iter().map(|s| format!("vx_eq(&__m, &{:?})", s)).collect();
						let b = range(&x.0);
						self.e.replace(r.0, r.1, vec![Piece::Lit("{ let __m = ".into()), Piece::Src(b.0, b.1), Piece::Lit(format!("; {} }}", c.join(" || ")))]);
					}
					self.visit_expr(&x.0);
				}
			}
			"vec" => {
				if m.tokens.is_empty() {
					self.e.replace(r.0, r.1, vec![Piece::Lit("Vec::new()".into())]);
				} else if let Ok(x) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
					if x.len() == 1 {
						let b = range(&x[0]);
						self.e.replace(r.0, r.1, vec![Piece::Lit("vx_vec1(".into()), Piece::Src(b.0, b.1), Piece::Lit(")".into())]);
						self.visit_expr(&x[0]);
					} else {
						let mut p = vec![Piece::Lit("{ let mut __v = Vec::new();".into())];
						for a in &x {
							let b = range(a);
							p.push(Piece::Lit(" __v.push(".into()));
							p.push(Piece::Src(b.0, b.1));
							p.push(Piece::Lit(");".into()));
						}
						p.push(Piece::Lit(" __v }".into()));
						self.e.replace(r.0, r.1, p);
						for a in &x {
							self.visit_expr(a);
						}
					}
				} else {
					self.fail("vec! form".into());
				}
			}
			"format" if self.has("fmt") => {
				// format!("a{}b{}c", x, y) -> vx_cat(&vx_cat(..), ..), all arguments being texts
				let x = match m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
					Ok(x) => x,
					_ => return self.fail("format! form".into()),
				};
				let lit = match x.first() {
					Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
					_ => return self.fail("format! form".into()),
				};
				let parts: Vec<&str> = lit.split("{}").collect();
				if parts.len() != x.len() || parts.iter().any(|p| p.contains('{') || p.contains('}')) {
					return self.fail("format! form".into());
				}
				let mut p = vec![Piece::Lit(format!("{}vx_text(&{:?})", "vx_cat(&".repeat((parts.len() - 1) * 2), parts[0]))];
				for i in 1..parts.len() {
					let a = range(&x[i]);
					p.push(Piece::Lit(", &".into()));
					p.push(Piece::Src(a.0, a.1));
					p.push(Piece::Lit(format!("), &{:?})", parts[i])));
					self.visit_expr(&x[i]);
				}
				self.e.replace(r.0, r.1, p);
			}
			"format" => self.e.replace(r.0, r.1, vec![Piece::Lit("vx_format()".into())]),
			"unreachable" | "panic" | "unimplemented" | "todo" => self.e.replace(r.0, r.1, vec![Piece::Lit("vx_panic()".into())]),
			_ => self.fail(format!("macro {}!", n)),
		}
	}
}
