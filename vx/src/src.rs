//! Finding items in the sources of the crate under test, also inside its `cfg_feat_*! { .. }` wrappers.
use std::collections::HashMap;
use syn::spanned::Spanned;

pub struct File {
	pub text: String,
	pub ast: syn::File,
}
pub struct Sources {
	root: String,
	files: HashMap<String, File>,
}
pub fn range<T: Spanned>(t: &T) -> (usize, usize) {
	let r = t.span().byte_range();
	(r.start, r.end)
}

/// a function found in the source
#[derive(Clone)]
pub struct FnRef {
	pub attrs: Vec<syn::Attribute>,
	pub sig: syn::Signature,
	pub block: Option<syn::Block>,
	/// whole item without attributes and visibility
	pub lo: usize,
	pub hi: usize,
}

impl Sources {
	pub fn new(root: &str) -> Self {
		Sources { root: root.to_string(), files: HashMap::new() }
	}
	pub fn load(&mut self, name: &str) -> Result<(), String> {
		if self.files.contains_key(name) {
			return Ok(());
		}
		let path = format!("{}/src/{}", self.root, name);
		let text = std::fs::read_to_string(&path).map_err(|e| format!("{}: {}", path, e))?;
		// the span offsets must be offsets into this text
		let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
		self.files.insert(name.to_string(), File { text, ast });
		Ok(())
	}
	pub fn get(&self, name: &str) -> &File {
		&self.files[name]
	}
}

/// items of a file, the wrappers opened
pub fn items(f: &File) -> Vec<syn::Item> {
	fn open(v: &[syn::Item], out: &mut Vec<syn::Item>) {
		for i in v {
			match i {
				syn::Item::Macro(m) if is_wrapper(&m.mac) => {
					if let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
						open(&f.items, out);
					}
				}
				syn::Item::Mod(m) => {
					if m.ident != "tests" {
						if let Some((_, v)) = &m.content {
							open(v, out);
						}
					}
				}
				i => out.push(i.clone()),
			}
		}
	}
	let mut out = vec![];
	open(&f.ast.items, &mut out);
	out
}
fn is_wrapper(m: &syn::Macro) -> bool {
	m.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("cfg_feat"))
}
struct ImplItems(Vec<syn::ImplItem>);
impl syn::parse::Parse for ImplItems {
	fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			v.push(i.parse()?);
		}
		Ok(ImplItems(v))
	}
}
struct TraitItems(Vec<syn::TraitItem>);
impl syn::parse::Parse for TraitItems {
	fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			v.push(i.parse()?);
		}
		Ok(TraitItems(v))
	}
}
fn type_name(t: &syn::Type) -> String {
	// the outermost path's last ident; Rc<RefCell<Node>> is called "Rc", a slice "[]"
	match t {
		syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
		syn::Type::Reference(r) => type_name(&r.elem),
		syn::Type::Slice(_) => "[]".into(),
		_ => String::new(),
	}
}
fn mk(attrs: &[syn::Attribute], sig: &syn::Signature, block: Option<&syn::Block>, hi: usize) -> FnRef {
	FnRef { attrs: attrs.to_vec(), sig: sig.clone(), block: block.cloned(), lo: range(sig).0, hi }
}
fn in_impl(v: &[syn::ImplItem], name: &str, out: &mut Vec<FnRef>) {
	for i in v {
		match i {
			syn::ImplItem::Fn(f) if f.sig.ident == name => out.push(mk(&f.attrs, &f.sig, Some(&f.block), range(&f.block).1)),
			syn::ImplItem::Macro(m) if is_wrapper(&m.mac) => {
				if let Ok(x) = syn::parse2::<ImplItems>(m.mac.tokens.clone()) {
					in_impl(&x.0, name, out);
				}
			}
			_ => {}
		}
	}
}
fn in_trait(v: &[syn::TraitItem], name: &str, out: &mut Vec<FnRef>) {
	for i in v {
		match i {
			syn::TraitItem::Fn(f) if f.sig.ident == name => out.push(mk(&f.attrs, &f.sig, f.default.as_ref(), range(f).1)),
			syn::TraitItem::Macro(m) if is_wrapper(&m.mac) => {
				if let Ok(x) = syn::parse2::<TraitItems>(m.mac.tokens.clone()) {
					in_trait(&x.0, name, out);
				}
			}
			_ => {}
		}
	}
}
/// PATH: `name`, `Type::name`, `Trait@Type::name`, `trait:Trait::name`, each perhaps followed by `/inner` functions
pub fn find_fn(f: &File, path: &str) -> Result<FnRef, String> {
	let mut parts = path.split('/');
	let head = parts.next().unwrap();
	let mut out: Vec<FnRef> = vec![];
	let its = items(f);
	if let Some(p) = head.strip_prefix("trait:") {
		let (t, n) = p.split_once("::").ok_or("bad path")?;
		for i in &its {
			if let syn::Item::Trait(tr) = i {
				if tr.ident == t {
					in_trait(&tr.items, n, &mut out);
				}
			}
		}
	} else if let Some((ty, n)) = head.split_once("::") {
		let (tr, ty) = match ty.split_once('@') {
			Some((a, b)) => (Some(a), b),
			None => (None, ty),
		};
		for i in &its {
			if let syn::Item::Impl(im) = i {
				let this = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
				if this.as_deref() == tr && type_name(&im.self_ty) == ty {
					in_impl(&im.items, n, &mut out);
				}
			}
		}
	} else {
		for i in &its {
			if let syn::Item::Fn(x) = i {
				if x.sig.ident == head {
					out.push(mk(&x.attrs, &x.sig, Some(&x.block), range(&*x.block).1));
				}
			}
		}
	}
	for inner in parts {
		// `name#n`: the n-th of that name
		let (inner, nth) = match inner.split_once('#') {
			Some((a, n)) => (a, n.parse::<usize>().ok()),
			None => (inner, None),
		};
		let mut v = Inner { name: inner.to_string(), out: vec![] };
		for o in &out {
			if let Some(b) = &o.block {
				syn::visit::Visit::visit_block(&mut v, b);
			}
		}
		out = v.out;
		if let Some(n) = nth {
			out = out.into_iter().skip(n).take(1).collect();
		}
	}
	match out.len() {
		1 => Ok(out.remove(0)),
		0 => Err(format!("function `{}` not found", path)),
		n => Err(format!("function `{}` found {} times", path, n)),
	}
}
struct Inner {
	name: String,
	out: Vec<FnRef>,
}
impl<'ast> syn::visit::Visit<'ast> for Inner {
	fn visit_item_fn(&mut self, x: &'ast syn::ItemFn) {
		if x.sig.ident == self.name {
			self.out.push(mk(&x.attrs, &x.sig, Some(&x.block), range(&*x.block).1));
		}
		syn::visit::visit_item_fn(self, x);
	}
}
/// struct, enum, const, type alias: the range without attributes and visibility
pub fn find_item(f: &File, name: &str) -> Result<(usize, usize, syn::Item), String> {
	for i in items(f) {
		let (id, lo) = match &i {
			syn::Item::Struct(s) => (s.ident.to_string(), range(&s.struct_token).0),
			syn::Item::Enum(s) => (s.ident.to_string(), range(&s.enum_token).0),
			syn::Item::Const(s) => (s.ident.to_string(), range(&s.const_token).0),
			syn::Item::Type(s) => (s.ident.to_string(), range(&s.type_token).0),
			_ => continue,
		};
		if id == name {
			return Ok((lo, range(&i).1, i.clone()));
		}
	}
	Err(format!("item `{}` not found", name))
}
