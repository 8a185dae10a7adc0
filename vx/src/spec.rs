//! Spec files: line directives starting with `//@`, everything else is text of the current section.
use crate::edit::*;
use crate::rules::*;
use crate::src::*;
use syn::visit::Visit;

enum Sect {
	Emit,
	Header,
	Attrs,
	Sig,
	Loop(usize),
	At(String),
	None,
}

/// what happened to one function: its name in the spec file, the lines it takes in the output, and why it is only a stub
pub struct Done {
	pub key: String,
	pub name: String,
	pub lines: (usize, usize),
	pub lost: Option<String>,
	pub stub: bool,
	pub props: Vec<String>,
}
#[derive(Default)]
pub struct Opts {
	pub vacuity: bool,
	pub stubs: Vec<String>,
}

pub fn run(spec: &str, repo: &str, opts: &Opts) -> Result<(String, Vec<Done>), String> {
	let mut out = String::new();
	let mut src = Sources::new(repo);
	let mut done = vec![];
	process(spec, &mut src, &mut out, opts, &mut done, None)?;
	Ok((out, done))
}

/// one function: taken from the source as it is, or, when that is impossible, its bare contract (reported as lost)
fn take_fn(f: &FnSpec, src: &mut Sources, out: &mut String, opts: &Opts, done: &mut Vec<Done>) -> Result<(), String> {
	let mut key = format!("{} {}", f.file, f.path);
	if let Some(k) = &f.closure {
		key.push_str(&format!("#{}", k));
	}
	if let Some(k) = &f.init {
		key.push_str(&format!("#let {}", k));
	}
	if let Some(k) = &f.arm {
		key.push_str(&format!("#{} =>", k));
	}
	if let Some(n) = &f.rename {
		key.push_str(&format!(" as {}", n));
	}
	let from = out.matches('\n').count() + 1;
	let mut lost = None;
	let mut txt = String::new();
	let forced = opts.stubs.contains(&key);
	if forced {
		lost = Some("set aside".to_string());
	} else if let Err(e) = emit_fn(f, src, &mut txt, opts) {
		lost = Some(e);
	}
	if lost.is_some() {
		txt.clear();
		let mut g = f.clone();
		g.stub = true;
		g.attrs.push_str("#[verifier::external_body]\n");
		if emit_fn(&g, src, &mut txt, opts).is_err() {
			txt.clear();
		}
	}
	out.push_str(&txt);
	let to = out.matches('\n').count();
	let last = f.path.rsplit(|c| c == ':' || c == '/').next().unwrap_or("").to_string();
	done.push(Done { key, name: f.rename.clone().unwrap_or(last), lines: (from, to), lost, stub: f.stub, props: f.props.clone() });
	Ok(())
}

/// a function of another unit: only its contract, which that unit proves
fn take_contract(f: &FnSpec, unit: &str, src: &mut Sources, out: &mut String, opts: &Opts, done: &mut Vec<Done>) -> Result<(), String> {
	let mut g = f.clone();
	g.stub = true;
	g.attrs = "#[verifier::external_body]\n".to_string();
	let from = out.matches('\n').count() + 1;
	emit_fn(&g, src, out, opts)?;
	let to = out.matches('\n').count();
	done.push(Done { key: format!("{} {} (proved in unit {})", f.file, f.path, unit), name: String::new(), lines: (from, to), lost: None, stub: true, props: f.props.clone() });
	Ok(())
}

/// `only`: nothing but the contract of one function
fn process(path: &str, src: &mut Sources, out: &mut String, opts: &Opts, done: &mut Vec<Done>, only: Option<&str>) -> Result<(), String> {
	let unit = std::path::Path::new(path).file_stem().unwrap().to_string_lossy().to_string();
	let mut found = false;
	let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
	let dir = std::path::Path::new(path).parent().unwrap().to_string_lossy().to_string();
	let mut sect = Sect::Emit;
	let mut cur: Option<FnSpec> = None;
	let mut common: Vec<(String, String)> = vec![];
	for (ln, line) in text.lines().enumerate() {
		if let Some(d) = line.trim_start().strip_prefix("//@") {
			let d = d.trim();
			let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
			let rest = rest.trim();
			match w {
				"emit" | "fn" | "item" | "include" | "stub" | "closure" | "init" | "arm" | "contract" | "rule-all" => {
					if let Some(f) = cur.take() {
						match only {
							None => take_fn(&f, src, out, opts, done)?,
							Some(o) if f.rename.as_deref().unwrap_or(&f.path) == o => {
								found = true;
								take_contract(&f, &unit, src, out, opts, done)?
							}
							_ => {}
						}
					}
					sect = Sect::Emit;
				}
				_ => {}
			}
			match w {
				"emit" => {}
				"include" | "item" | "contract" if only.is_some() => {}
				"include" => process(&format!("{}/{}", dir, rest), src, out, opts, done, None)?,
				"contract" => {
					let (u, p) = rest.split_once(' ').ok_or("contract: file and function")?;
					process(&format!("{}/{}", dir, u), src, out, opts, done, Some(p.trim()))?
				}
				"rule-all" => {
					let (a, b) = rest.split_once("=>").ok_or("rule")?;
					common.push((a.trim().into(), b.trim().into()));
				}
				"item" => {
					let mut p = rest.split_whitespace();
					let file = p.next().ok_or("item: file")?;
					let name = p.next().ok_or("item: name")?;
					let extra: Vec<&str> = p.collect();
					src.load(file)?;
					let f = src.get(file);
					let (lo, hi, it) = find_item(f, name).map_err(|e| format!("{}: {}", file, e))?;
					let mut e = Edits::new(&f.text);
					strip_item(&it, &mut e);
					if !extra.is_empty() {
						out.push_str(&format!("#[derive({})]\n", extra.join(", ")));
					}
					// `rule-all type A => B`
					let mut t = e.render(lo, hi);
					for (k, v) in common.iter() {
						if let Some(a) = k.strip_prefix("type ") {
							t = t.replace(a, v);
						}
					}
					out.push_str(&t);
					out.push('\n');
				}
				"fn" | "stub" | "closure" | "init" | "arm" => {
					let mut p = rest.split_whitespace();
					let file = p.next().ok_or("fn: file")?.to_string();
					let path = p.next().ok_or("fn: path")?.to_string();
					let mut f = FnSpec { file, path, ..Default::default() };
					f.rules = common.clone();
					f.stub = w == "stub";
					if w == "closure" {
						f.closure = Some(p.next().ok_or("closure number")?.to_string());
					}
					if w == "init" {
						f.init = Some(p.next().ok_or("name of the variable")?.to_string());
					}
					if w == "arm" {
						f.arm = Some(p.next().ok_or("pattern of the arm")?.to_string());
					}
					if let Some("as") = p.next() {
						f.rename = p.next().map(|s| s.to_string());
					}
					cur = Some(f);
					sect = Sect::None;
				}
				_ => {
					let f = cur.as_mut().ok_or_else(|| format!("{}:{}: `{}` outside a function", path, ln + 1, w))?;
					match w {
						"prop" => f.props = rest.split_whitespace().map(|s| s.to_string()).collect(),
						"ret" => f.ret = Some(rest.to_string()),
						"tail" => f.tail = rest.to_string(),
						"header" => sect = Sect::Header,
						"attrs" => sect = Sect::Attrs,
						"sig" => sect = Sect::Sig,
						"loop" => {
							let mut p = rest.split_whitespace();
							let k: usize = p.next().ok_or("loop")?.parse().map_err(|_| "loop number")?;
							if let Some(kind) = p.next() {
								f.loop_kind.insert(k, kind.to_string());
							}
							f.loops.entry(k).or_default();
							sect = Sect::Loop(k);
						}
						"at" => sect = Sect::At(rest.to_string()),
						"rule" => {
							let (a, b) = rest.split_once("=>").unwrap_or((rest, ""));
							f.rules.push((a.trim().into(), b.trim().into()));
						}
						_ => return Err(format!("{}:{}: unknown directive {}", path, ln + 1, w)),
					}
				}
			}
			continue;
		}
		let l = format!("{}\n", line);
		match (&sect, cur.as_mut()) {
			(Sect::Emit, _) => {
				if only.is_none() {
					out.push_str(&l)
				}
			}
			(Sect::Header, Some(f)) => f.header.push_str(&l),
			(Sect::Attrs, Some(f)) => f.attrs.push_str(&l),
			(Sect::Sig, Some(f)) => {
				f.sig.get_or_insert_with(String::new).push_str(&l);
			}
			(Sect::Loop(k), Some(f)) => f.loops.get_mut(k).unwrap().push_str(&l),
			(Sect::At(w), Some(f)) => {
				let w = w.clone();
				if let Some(x) = f.at.iter_mut().find(|x| x.0 == w) {
					x.1.push_str(&l);
				} else {
					f.at.push((w, format!("\n{}", l)));
				}
			}
			(_, Some(_)) if line.trim().is_empty() => {}
			_ => return Err(format!("{}:{}: stray text", path, ln + 1)),
		}
	}
	if let Some(f) = cur.take() {
		match only {
			None => take_fn(&f, src, out, opts, done)?,
			Some(o) if f.rename.as_deref().unwrap_or(&f.path) == o => {
				found = true;
				take_contract(&f, &unit, src, out, opts, done)?
			}
			_ => {}
		}
	}
	if let (Some(o), false) = (only, found) {
		return Err(format!("{}: no contract of {}", path, o));
	}
	Ok(())
}

fn strip_item(it: &syn::Item, e: &mut Edits) {
	struct V<'b, 'a>(&'b mut Edits<'a>);
	impl<'b, 'a, 'ast> Visit<'ast> for V<'b, 'a> {
		fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
			let r = range(a);
			self.0.replace(r.0, r.1, vec![]);
		}
		fn visit_visibility(&mut self, a: &'ast syn::Visibility) {
			if !matches!(a, syn::Visibility::Inherited) {
				let r = range(a);
				self.0.replace(r.0, r.1, vec![]);
			}
		}
	}
	V(e).visit_item(it);
	if let syn::Item::Const(c) = it {
		// `&str` of a constant is `&'static str`
		struct T<'a, 'b>(&'a mut Edits<'b>);
		impl<'a, 'b, 'ast> Visit<'ast> for T<'a, 'b> {
			fn visit_type_reference(&mut self, r: &'ast syn::TypeReference) {
				if r.lifetime.is_none() {
					self.0.insert(range(&r.and_token).1, "'static ".into());
				}
				syn::visit::visit_type_reference(self, r);
			}
		}
		T(e).visit_type(&c.ty);
	}
}

struct Closures(Vec<syn::ExprClosure>);
impl<'ast> Visit<'ast> for Closures {
	fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
		self.0.push(c.clone());
		syn::visit::visit_expr_closure(self, c);
	}
}
struct Arms(Vec<syn::Arm>);
impl<'ast> Visit<'ast> for Arms {
	fn visit_arm(&mut self, a: &'ast syn::Arm) {
		self.0.push(a.clone());
		syn::visit::visit_arm(self, a);
	}
}
/// values of the struct fields of one name
struct Fields(String, Vec<syn::Expr>);
impl<'ast> Visit<'ast> for Fields {
	fn visit_field_value(&mut self, c: &'ast syn::FieldValue) {
		if matches!(&c.member, syn::Member::Named(n) if *n == self.0) {
			self.1.push(c.expr.clone());
		}
		syn::visit::visit_field_value(self, c);
	}
}
/// initial values of the local variables of one name
struct Inits(String, Vec<syn::Expr>);
impl<'ast> Visit<'ast> for Inits {
	fn visit_local(&mut self, l: &'ast syn::Local) {
		let mut p = &l.pat;
		if let syn::Pat::Type(t) = p {
			p = &t.pat;
		}
		if let (syn::Pat::Ident(i), Some(x)) = (p, &l.init) {
			if i.ident == self.0 && x.diverge.is_none() {
				self.1.push((*x.expr).clone());
			}
		}
		syn::visit::visit_local(self, l);
	}
}

fn emit_fn(f: &FnSpec, src: &mut Sources, out: &mut String, opts: &Opts) -> Result<(), String> {
	src.load(&f.file)?;
	let file = src.get(&f.file);
	let loc = |e: String| format!("{} {}: {}", f.file, f.path, e);
	let x = find_fn(file, &f.path).map_err(&loc)?;
	let mut defs = Defs { spec: f, count: Default::default(), out: Default::default() };
	if let Some(b) = &x.block {
		defs.visit_block(b);
	}
	let mut rw = Rw { e: Edits::new(&file.text), spec: f, nloops: 0, nboxed: 0, err: None, defs: defs.out, scopes: vec![], guards: vec![] };
	if let (Some(n), true) = (&f.rename, f.path.contains('/') && f.closure.is_none() && f.init.is_none()) {
		// calls of itself
		rw.scopes.push(vec![(x.sig.ident.to_string(), n.clone(), String::new())]);
	}
	out.push_str(&format!("// ---- from src/{} {}\n", f.file, f.path));
	out.push_str(&f.attrs);
	// signature
	let (body_lo, body_hi, expr_body);
	let mut cl = None;
	if let Some(k) = &f.closure {
		// a number, or `NAME` / `NAME#n`: the first closure in the n-th struct field (or local variable) of that name
		let mut c = Closures(vec![]);
		let b = x.block.as_ref().ok_or_else(|| loc("no body".into()))?;
		let n;
		if let Ok(i) = k.parse::<usize>() {
			c.visit_block(b);
			n = i;
		} else {
			let (name, i) = k.split_once('#').unwrap_or((k, "0"));
			let mut v = Fields(name.to_string(), vec![]);
			v.visit_block(b);
			let mut l = Inits(name.to_string(), vec![]);
			l.visit_block(b);
			v.1.extend(l.1);
			let i: usize = i.parse().map_err(|_| loc("closure number".into()))?;
			if i >= v.1.len() {
				return Err(loc(format!("closure {} not found", k)));
			}
			c.visit_expr(&v.1[i]);
			n = 0;
		}
		if n >= c.0.len() {
			return Err(loc(format!("closure {} not found", k)));
		}
		let c = c.0.remove(n);
		let r = range(&*c.body);
		expr_body = !matches!(&*c.body, syn::Expr::Block(_));
		body_lo = r.0;
		body_hi = r.1;
		cl = Some((*c.body).clone());
	} else if let Some(k) = &f.init {
		let (name, i) = k.split_once('#').unwrap_or((k, "0"));
		let mut l = Inits(name.to_string(), vec![]);
		l.visit_block(x.block.as_ref().ok_or_else(|| loc("no body".into()))?);
		let i: usize = i.parse().map_err(|_| loc("number".into()))?;
		if i >= l.1.len() {
			return Err(loc(format!("variable {} not found", k)));
		}
		let c = l.1.remove(i);
		let r = range(&c);
		expr_body = true;
		body_lo = r.0;
		body_hi = r.1;
		cl = Some(c);
	} else if let Some(k) = &f.arm {
		let mut a = Arms(vec![]);
		a.visit_block(x.block.as_ref().ok_or_else(|| loc("no body".into()))?);
		let mut v: Vec<syn::Expr> = a.0.into_iter().filter(|a| norm(&file.text[range(&a.pat).0..range(&a.pat).1]) == *k && a.guard.is_none()).map(|a| *a.body).collect();
		if v.len() != 1 {
			return Err(loc(format!("{} arms `{}`", v.len(), k)));
		}
		let c = v.remove(0);
		if leaves(&c) {
			return Err(loc(format!("the arm `{}` returns", k)));
		}
		let r = range(&c);
		expr_body = true;
		body_lo = r.0;
		body_hi = r.1;
		cl = Some(c);
	} else if let Some(b) = &x.block {
		let r = range(b);
		body_lo = r.0;
		body_hi = r.1;
		expr_body = false;
	} else {
		body_lo = 0;
		body_hi = 0;
		expr_body = false;
	}
	let sig = if let Some(s) = &f.sig {
		s.trim_end().to_string()
	} else {
		if f.closure.is_some() || f.init.is_some() || f.arm.is_some() {
			return Err(loc("a closure needs `//@ sig`".into()));
		}
		let (slo, _) = range(&x.sig);
		let mut e = Edits::new(&file.text);
		if let Some(n) = &f.rename {
			let r = range(&x.sig.ident);
			e.replace(r.0, r.1, vec![Piece::Lit(n.clone())]);
		}
		let mut end = range(&x.sig).1;
		let mut wh = String::new();
		if let Some(w) = &x.sig.generics.where_clause {
			let r = range(w);
			wh = format!(" {}", &file.text[r.0..r.1]);
			end = range(&x.sig.paren_token.span.close()).1;
			if let syn::ReturnType::Type(_, t) = &x.sig.output {
				end = range(&**t).1;
			}
		}
		if let (Some(n), syn::ReturnType::Type(_, t)) = (&f.ret, &x.sig.output) {
			let r = range(&**t);
			e.replace(r.0, r.1, vec![Piece::Lit(format!("({}: ", n)), Piece::Src(r.0, r.1), Piece::Lit(")".into())]);
		}
		for (k, v) in &f.rules {
			// `sigarg => TEXT`: a parameter behind `self`, or the first one
			if k == "sigarg" {
				match x.sig.inputs.first() {
					Some(syn::FnArg::Receiver(r)) => e.insert(range(r).1, format!(", {}", v)),
					Some(a) => e.insert(range(a).0, format!("{}, ", v)),
					None => e.insert(range(&x.sig.paren_token.span.open()).1, v.clone()),
				}
			}
			if k == "sig where" {
				wh = format!(" {}", v);
			} else if let Some(o) = k.strip_prefix("sig ") {
				let t = &file.text[slo..end];
				let at = t.find(o).ok_or_else(|| loc(format!("signature has no `{}`", o)))?;
				e.replace(slo + at, slo + at + o.len(), vec![Piece::Lit(v.clone())]);
			}
		}
		format!("{}{}", e.render(slo, end), wh)
	};
	// parameter names used by the contract must still be there
	out.push_str(&sig);
	out.push('\n');
	out.push_str(&f.header);
	if f.stub {
		out.push_str("{ unimplemented!() }\n");
		return Ok(());
	}
	if body_hi == 0 {
		out.push_str(";\n");
		return Ok(());
	}
	match &cl {
		Some(c) => rw.visit_expr(c),
		None => rw.visit_block(x.block.as_ref().unwrap()),
	}
	if let Some(e) = rw.err.take() {
		return Err(loc(e));
	}
	// every loop the contract talks about must exist, and no other
	for k in f.loops.keys() {
		if *k >= rw.nloops {
			return Err(loc(format!("loop {} not found ({} loops)", k, rw.nloops)));
		}
	}
	if !f.loops.is_empty() && f.loops.len() != rw.nloops {
		return Err(loc(format!("{} loops, contract covers {}", rw.nloops, f.loops.len())));
	}
	if f.loops.is_empty() && rw.nloops > 0 {
		return Err(loc(format!("{} loops, contract covers none", rw.nloops)));
	}
	// text rules: `text A => B`, applied to every occurrence inside the body; optional ones may be absent
	for (k, v) in &f.rules {
		let (o, opt) = if let Some(o) = k.strip_prefix("text ") {
			(o, false)
		} else if let Some(o) = k.strip_prefix("text? ") {
			(o, true)
		} else {
			continue;
		};
		let t = &file.text[body_lo..body_hi];
		let mut from = 0;
		let mut n = 0;
		while let Some((p, q)) = find_loose(t, o, from) {
			rw.e.replace(body_lo + p, body_lo + q, vec![Piece::Lit(v.clone())]);
			from = q;
			n += 1;
		}
		if n == 0 && !opt {
			return Err(loc(format!("text `{}` not found", o)));
		}
	}
	for (k, _) in &f.at {
		let w = k.split_whitespace().next().unwrap_or("");
		if w == "before" || w == "after" {
			let (_, t) = k.split_once(' ').unwrap();
			let body = norm(&file.text[body_lo..body_hi]);
			if !body.contains(t) {
				return Err(loc(format!("statement `{}` not found", t)));
			}
		}
	}
	let start: String = f.at.iter().filter(|a| a.0 == "start").map(|a| a.1.clone()).collect();
	let end: String = f.at.iter().filter(|a| a.0 == "end").map(|a| a.1.clone()).collect();
	let mut inner = if expr_body { rw.e.render(body_lo, body_hi) } else { rw.e.render(body_lo + 1, body_hi - 1) };
	if !f.tail.is_empty() {
		inner.push_str(&format!(" {}", f.tail));
	}
	out.push_str("{");
	out.push_str(&start);
	if opts.vacuity {
		// must fail: the precondition can be met
		out.push_str(" proof { assert(false); } ");
	}
	if end.is_empty() {
		out.push_str(&inner);
	} else {
		// proof text behind the value of the body
		out.push_str(&format!(" let __r = {{ {} }}; {} __r ", inner, end));
	}
	out.push_str("}\n\n");
	Ok(())
}

/// the next place where o stands in t, however it is broken into lines and spaced
fn find_loose(t: &str, o: &str, from: usize) -> Option<(usize, usize)> {
	let w: Vec<char> = o.chars().filter(|c| !c.is_whitespace()).collect();
	let v: Vec<(usize, char)> = t.char_indices().filter(|(i, c)| *i >= from && !c.is_whitespace()).collect();
	if w.is_empty() || v.len() < w.len() {
		return None;
	}
	(0..=v.len() - w.len()).find(|&i| (0..w.len()).all(|j| v[i + j].1 == w[j])).map(|i| {
		let (e, c) = v[i + w.len() - 1];
		(v[i].0, e + c.len_utf8())
	})
}
