//@ include base.vx
global size_of usize == 8;
//@ item mesdoc/interface/element.rs IAttrValue
//@ emit
enum AttrV { True, Value(Seq<char>) }
spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32u32) as char } else { c } }
spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low(s[i])) }
spec fn up(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32) - 32u32) as char } else { c } }
spec fn same_nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> up(#[trigger] a[i]) == up(b[i]) }
proof fn lemma_nocase(a: Seq<char>, b: Seq<char>)
    ensures same_nocase(a, b) == (lower(a) == lower(b)),
{
    if lower(a) == lower(b) {
        assert(lower(a).len() == lower(b).len());
        assert forall|i: int| 0 <= i < a.len() implies up(#[trigger] a[i]) == up(b[i]) by { assert(lower(a)[i] == lower(b)[i]); }
    }
    if same_nocase(a, b) {
        assert forall|i: int| 0 <= i < a.len() implies low(#[trigger] a[i]) == low(b[i]) by { assert(up(a[i]) == up(b[i])); }
        assert(lower(a) =~= lower(b));
    }
}
/// TRUSTED: `str::to_ascii_lowercase`
#[verifier::external_body]
fn vx_lower(s: &str) -> (r: String)
    ensures r@ == lower(s@),
{ s.to_ascii_lowercase() }
/// proved in unit `cond`
#[verifier::external_body]
fn is_equal_chars_ignore_case(target: &[char], cmp: &[char]) -> (r: bool)
    ensures r == same_nocase(target@, cmp@),
{ unimplemented!() }
// ---------------------------------------------------------------- the attribute part of a node (types of the rphtml crate)
struct AttrData { content: Vec<char> }
struct Attr { key: Option<AttrData>, value: Option<AttrData>, quote: Option<char>, need_quote: bool }
/// stands for HashMap<String, usize>
#[verifier::external_body]
struct LcMap(std::collections::HashMap<String, usize>);
impl View for LcMap { type V = Map<Seq<char>, usize>; uninterp spec fn view(&self) -> Map<Seq<char>, usize>; }
impl LcMap {
    /// TRUSTED: HashMap::get
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<usize>)
        ensures r == (if self@.contains_key(k@) { Some(self@[k@]) } else { None }),
    { self.0.get(k).copied() }
    /// TRUSTED: HashMap::insert
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: usize)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { self.0.insert(k, v); }
    /// TRUSTED: HashMap::remove
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<usize>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.contains_key(k@),
    { self.0.remove(k) }
    /// TRUSTED: HashMap::is_empty
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r ==> self@ == Map::<Seq<char>, usize>::empty(),
    { self.0.is_empty() }
}
struct TagMeta { attrs: Vec<Attr>, lc_name_map: LcMap }
struct Node { meta: Option<TagMeta> }
/// TRUSTED: Attr::default() of rphtml has nothing set
#[verifier::external_body]
fn vx_attr_default() -> (r: Attr)
    ensures r.key is None, r.value is None,
{ unimplemented!() }
/// TRUSTED: Attr::need_quoted_char of rphtml; its answer only matters for output with quotes removed
#[verifier::external_body]
fn vx_need_quoted_char(c: &char) -> bool { unimplemented!() }
/// the reference written for a quote, such as `&quot;`
uninterp spec fn ent(q: char) -> Seq<char>;
#[verifier::external_body]
struct Entity(());
uninterp spec fn ent_of(e: &Entity) -> char;
/// TRUSTED: encode_char of the htmlentity crate knows a named reference for both quotes
#[verifier::external_body]
fn vx_encode_char(c: &char) -> (r: Option<Entity>)
    requires is_quote(*c),
    ensures r is Some, ent_of(&r->0) == *c,
{ unimplemented!() }
impl Entity {
    /// TRUSTED: appends the characters of the reference
    #[verifier::external_body]
    fn write_chars(&self, v: &mut Vec<char>)
        ensures final(v)@ == old(v)@ + ent(ent_of(self)),
    { unimplemented!() }
}
/// TRUSTED: a named reference contains no quotes
axiom fn axiom_ent(q: char)
    ensures forall|i: int| 0 <= i < ent(q).len() ==> !is_quote(#[trigger] ent(q)[i]);
spec fn is_quote(c: char) -> bool { c == '"' || c == '\'' }
// ---------------------------------------------------------------- what is stored for a value
/// the quote put around the value: the other kind than the first quote inside
spec fn delim(v: Seq<char>) -> char
    decreases v.len(),
{
    if v.len() == 0 { '"' } else if has_quote(v.drop_last()) { delim(v.drop_last()) } else if v.last() == '"' { '\'' } else { '"' }
}
spec fn has_quote(v: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && is_quote(#[trigger] v[i]) }
/// every occurrence of q written as a reference
spec fn enc(v: Seq<char>, q: char) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else if v.last() == q { enc(v.drop_last(), q) + ent(q) } else { enc(v.drop_last(), q).push(v.last()) }
}
spec fn stored(v: Seq<char>) -> Seq<char> { enc(v, delim(v)) }
proof fn lemma_enc_same(v: Seq<char>, q: char)
    requires !v.contains(q),
    ensures enc(v, q) == v,
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last();
        assert(!d.contains(q)) by { if d.contains(q) { let i = choose|i: int| 0 <= i < d.len() && d[i] == q; assert(v[i] == q); } }
        lemma_enc_same(d, q);
        assert(v[v.len() - 1] != q);
        assert(d.push(v.last()) =~= v);
    } else { assert(enc(v, q) =~= v); }
}
proof fn lemma_enc_free(v: Seq<char>, q: char)
    requires is_quote(q),
    ensures !enc(v, q).contains(q),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_enc_free(v.drop_last(), q);
        axiom_ent(q);
        let e = enc(v.drop_last(), q);
        let f = enc(v, q);
        if f.contains(q) {
            let i = choose|i: int| 0 <= i < f.len() && f[i] == q;
            if i < e.len() { assert(e[i] == q); assert(e.contains(q)); }
            else if v.last() == q { assert(f[i] == ent(q)[i - e.len()]); }
        }
    }
}
proof fn lemma_delim_quote(v: Seq<char>)
    ensures is_quote(delim(v)),
    decreases v.len(),
{ if v.len() > 0 { lemma_delim_quote(v.drop_last()); } }
/// a value without both kinds of quotes is stored as it is
proof fn lemma_stored_same(v: Seq<char>)
    requires !(v.contains('"') && v.contains('\'')),
    ensures stored(v) == v,
{
    lemma_delim_absent(v);
    lemma_enc_same(v, delim(v));
}
proof fn lemma_delim_absent(v: Seq<char>)
    ensures v.contains(delim(v)) ==> v.contains('"') && v.contains('\''),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last();
        lemma_delim_absent(d);
        lemma_delim_quote(d);
        assert(v[v.len() - 1] == v.last());
        assert forall|c: char| d.contains(c) implies v.contains(c) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; assert(v[i] == c); }
        if has_quote(d) {
            // the first quote is the other kind
            lemma_first_quote(d);
            if v.contains(delim(v)) {
                let i = choose|i: int| 0 <= i < v.len() && v[i] == delim(v);
                if i < d.len() { assert(d[i] == delim(d)); assert(d.contains(delim(d))); }
            }
        } else if v.contains(delim(v)) {
            let i = choose|i: int| 0 <= i < v.len() && v[i] == delim(v);
            if i < d.len() { assert(is_quote(d[i])); }
        }
    }
}
proof fn lemma_first_quote(v: Seq<char>)
    requires has_quote(v),
    ensures v.contains(if delim(v) == '"' { '\'' } else { '"' }),
    decreases v.len(),
{
    let d = v.drop_last();
    assert(v[v.len() - 1] == v.last());
    if has_quote(d) {
        lemma_first_quote(d);
        let c = if delim(v) == '"' { '\'' } else { '"' };
        let i = choose|i: int| 0 <= i < d.len() && d[i] == c;
        assert(v[i] == c);
    } else {
        let i = choose|i: int| 0 <= i < v.len() && is_quote(#[trigger] v[i]);
        if i < d.len() { assert(is_quote(d[i])); }
    }
}
// ---------------------------------------------------------------- the attributes of an element
spec fn val(m: &TagMeta, n: Seq<char>) -> Option<AttrV> {
    if m.lc_name_map@.contains_key(n) {
        match m.attrs@[m.lc_name_map@[n] as int].value { Some(d) => Some(AttrV::Value(d.content@)), None => Some(AttrV::True) }
    } else { None }
}
spec fn key_is(a: Attr, n: Seq<char>) -> bool { a.key is Some && lower(a.key->0.content@) == n }
/// the name map and the list agree: every listed name is in the map, which points at the first attribute of that name
spec fn wf(m: &TagMeta) -> bool {
    &&& forall|n: Seq<char>| #[trigger] m.lc_name_map@.contains_key(n) ==> m.lc_name_map@[n] < m.attrs@.len() && key_is(m.attrs@[m.lc_name_map@[n] as int], n)
    &&& forall|i: int| 0 <= i < m.attrs@.len() && (#[trigger] m.attrs@[i]).key is Some ==>
            m.lc_name_map@.contains_key(lower(m.attrs@[i].key->0.content@)) && m.lc_name_map@[lower(m.attrs@[i].key->0.content@)] <= i
}
/// the value as written out, between its quotes, does not end early
spec fn writable(a: Attr) -> bool { a.value is Some && a.quote is Some ==> is_quote(a.quote->0) && !a.value->0.content@.contains(a.quote->0) }
spec fn abs_val(v: Option<IAttrValue>) -> Option<AttrV> {
    match v {
        None => None,
        Some(IAttrValue::True) => Some(AttrV::True),
        Some(IAttrValue::Value(s, _)) => Some(AttrV::Value(s@)),
    }
}
// ---------------------------------------------------------------- the list of attributes
/// TRUSTED: the entries of a HashMap, each once
#[verifier::external_body]
fn vx_entries<'b>(m: &'b LcMap) -> (r: Vec<(&'b String, &'b usize)>)
    ensures entries(m@, r@),
{ unimplemented!() }
spec fn entries(m: Map<Seq<char>, usize>, s: Seq<(&String, &usize)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == n
}
spec fn name_in(m: &TagMeta, e: (usize, String)) -> bool { m.lc_name_map@.contains_key(e.1@) && m.lc_name_map@[e.1@] == e.0 }
/// each name once, with its index
spec fn indexed(m: &TagMeta, s: Seq<(usize, String)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] name_in(m, s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1@ != (#[trigger] s[j]).1@
    &&& forall|n: Seq<char>| #[trigger] m.lc_name_map@.contains_key(n) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1@ == n
}
proof fn lemma_entries(m: &TagMeta, s: Seq<(&String, &usize)>, l: Seq<(usize, String)>)
    requires entries(m.lc_name_map@, s), s.len() == l.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] l[i]).0 == *s[i].1 && l[i].1@ == s[i].0@, wf(m),
    ensures indexed(m, l), forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0,
{
    assert forall|n: Seq<char>| #[trigger] m.lc_name_map@.contains_key(n) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1@ == n by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == n; assert(l[i].1@ == n);
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] name_in(m, l[i]) by { assert(s[i].0@ == l[i].1@); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).1@ != (#[trigger] l[j]).1@ by { assert(s[i].0@ != s[j].0@); }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by {
        assert(name_in(m, l[i]) && name_in(m, l[j]));
        assert(key_is(m.attrs@[l[i].0 as int], l[i].1@));
        assert(key_is(m.attrs@[l[j].0 as int], l[j].1@));
    }
}
/// stands for BTreeMap<usize, String>
#[verifier::external_body]
struct ByIndex(std::collections::BTreeMap<usize, String>);
uninterp spec fn made_of(b: &ByIndex) -> Seq<(usize, String)>;
/// TRUSTED: collecting into a BTreeMap
#[verifier::external_body]
fn vx_by_index(v: Vec<(usize, String)>) -> (r: ByIndex)
    ensures made_of(&r) == v@,
{ unimplemented!() }
/// TRUSTED: the entries of a BTreeMap made of pairs with different keys are those pairs, in the order of the keys
#[verifier::external_body]
fn vx_sorted(b: ByIndex) -> (r: Vec<(usize, String)>)
    ensures
        (forall|i: int, j: int| 0 <= i < j < made_of(&b).len() ==> (#[trigger] made_of(&b)[i]).0 != (#[trigger] made_of(&b)[j]).0) ==> {
            &&& forall|m: &TagMeta| #[trigger] indexed(m, made_of(&b)) ==> indexed(m, r@)
            &&& r@.len() == made_of(&b).len()
            &&& forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 < (#[trigger] r@[j]).0
        },
{ unimplemented!() }
fn vx_list(v: Vec<(String, IAttrValue)>) -> (r: Vec<(String, IAttrValue)>)
    ensures r == v,
{ v }
/// TRUSTED: moving the elements out, one after the other (each index is taken once)
#[verifier::external_body]
fn vx_take<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@ == old(v)@,
{ unimplemented!() }
/// every attribute of the element once, with its value
spec fn listing(m: &TagMeta, r: Seq<(String, IAttrValue)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> abs_val(Some((#[trigger] r[i]).1)) == val(m, r[i].0@)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@
    &&& forall|n: Seq<char>| (#[trigger] val(m, n)) is Some ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == n
}
proof fn lemma_listing(m: &TagMeta, s: Seq<(usize, String)>, r: Seq<(String, IAttrValue)>)
    requires indexed(m, s), r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == s[i].1@ && abs_val(Some(r[i].1)) == val(m, s[i].1@),
    ensures listing(m, r),
{
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@ by { assert(s[i].1@ != s[j].1@); }
    assert forall|n: Seq<char>| (#[trigger] val(m, n)) is Some implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == n by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1@ == n; assert(r[i].0@ == n);
    }
}
impl Node {
//@ fn lib.rs IElementTrait@Rc::set_attribute
//@ prop C05 C06
//@ rule optmap
//@ rule text &self.borrow().meta => &mut self.meta
//@ rule text meta.borrow() => meta
//@ rule text meta.borrow_mut() => meta
//@ rule text Attr::need_quoted_char => vx_need_quoted_char
//@ rule text encode_char(&ch, &EncodeType::Named) => vx_encode_char(&ch)
//@ rule text Some(&index) => Some(index)
//@ rule method to_ascii_lowercase => vx_lower
//@ header
    requires old(self).meta is Some, wf(&old(self).meta->0),
    ensures
        final(self).meta is Some,
        wf(&final(self).meta->0),
        val(&final(self).meta->0, lower(name@)) == Some(match value { Some(v) => AttrV::Value(stored(v@)), None => AttrV::True }),
        forall|n: Seq<char>| n != lower(name@) ==> #[trigger] val(&final(self).meta->0, n) == val(&old(self).meta->0, n),
        // it can be written out and read back
        writable(final(self).meta->0.attrs@[final(self).meta->0.lc_name_map@[lower(name@)] as int]),
        final(self).meta->0.attrs@.len() >= old(self).meta->0.attrs@.len(),
        forall|i: int| 0 <= i < old(self).meta->0.attrs@.len() && i != final(self).meta->0.lc_name_map@[lower(name@)] ==> final(self).meta->0.attrs@[i] == old(self).meta->0.attrs@[i],
//@ loop 0
    invariant
        __s0@ == v@, __i0 <= __s0.len(),
        find_quote == has_quote(v@.take(__i0 as int)),
        quote == delim(v@.take(__i0 as int)),
        content@ == enc(v@.take(__i0 as int), quote),
//@ at pre-loop 0
    proof { assert(v@.take(0) =~= Seq::empty()); }
//@ at loop-start 0
    let ghost t = v@.take(__i0 as int);
    let ghost d = v@.take(__i0 - 1);
    proof {
        assert(t.drop_last() =~= d);
        assert(t.last() == ch);
        assert(has_quote(t) == (has_quote(d) || is_quote(ch))) by {
            if has_quote(d) { let i = choose|i: int| 0 <= i < d.len() && is_quote(#[trigger] d[i]); assert(is_quote(t[i])); }
            if is_quote(ch) { assert(is_quote(t[t.len() - 1])); }
            if has_quote(t) { let i = choose|i: int| 0 <= i < t.len() && is_quote(#[trigger] t[i]); if i < d.len() { assert(is_quote(d[i])); } }
        }
        lemma_delim_quote(d);
        if !has_quote(d) {
            assert forall|q: char| is_quote(q) implies !d.contains(q) by { if d.contains(q) { let i = choose|i: int| 0 <= i < d.len() && d[i] == q; assert(is_quote(d[i])); } }
            lemma_enc_same(d, '"');
            lemma_enc_same(d, '\'');
        }
    }
//@ at loop-exit 0
    proof { assert(v@.take(__i0 as int) =~= v@); lemma_delim_quote(v@); lemma_enc_free(v@, quote); }
//@ fn lib.rs IElementTrait@Rc::get_attribute
//@ prop C05 C06 C10
//@ ret r
//@ rule text &self.borrow() => self
//@ rule text node.meta.as_ref()? => (match &node.meta { Some(m) => m, None => return None })
//@ rule text meta.borrow() => meta
//@ rule text Some(&index) => Some(index)
//@ rule text value.content.clone() => vx_clone_chars(&value.content)
//@ rule text attr_value.iter().collect() => vx_string(&attr_value)
//@ rule method to_ascii_lowercase => vx_lower
//@ header
    requires self.meta is Some ==> wf(&self.meta->0),
    ensures abs_val(r) == (if self.meta is Some { val(&self.meta->0, lower(name@)) } else { None }),
//@ fn lib.rs IElementTrait@Rc::get_attributes
//@ prop C06
//@ ret r
//@ rule text &self.borrow() => self
//@ rule text meta.borrow() => meta
//@ rule text value.content.clone() => vx_clone_chars(&value.content)
//@ rule text attr_value.iter().collect() => vx_string(&attr_value)
//@ rule mapcollect 0 => vx_entries vx_by_index (usize, String)
//@ rule mapcollect 1 => vx_sorted vx_list (String, IAttrValue)
//@ header
    requires self.meta is Some ==> wf(&self.meta->0),
    ensures
        self.meta is None ==> r@.len() == 0,
        self.meta is Some ==> listing(&self.meta->0, r@),
//@ loop 0
    invariant
        node.meta is Some, *meta == node.meta->0, wf(meta), entries(meta.lc_name_map@, __s0@), __i0 <= __s0@.len(), __o0@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] __o0@[i]).0 == *__s0@[i].1 && __o0@[i].1@ == __s0@[i].0@,
//@ at loop-exit 0
    let ghost list: Seq<(usize, String)> = __o0@;
    proof { lemma_entries(meta, __s0@, list); }
//@ loop 1
    invariant
        node.meta is Some, *meta == node.meta->0, wf(meta), indexed(meta, __s1@), attrs@ == meta.attrs@, __i1 <= __s1@.len(), __o1@.len() == __i1,
        forall|i: int| 0 <= i < __i1 ==> (#[trigger] __o1@[i]).0@ == __s1@[i].1@ && abs_val(Some(__o1@[i].1)) == val(meta, __s1@[i].1@),
//@ at loop-start 1
    proof { assert(name_in(meta, __s1@[__i1 - 1])); }
//@ at loop-exit 1
    proof { lemma_listing(meta, __s1@, __o1@); }
//@ fn lib.rs IElementTrait@Rc::remove_attribute
//@ prop C06
//@ rule text &self.borrow().meta => &mut self.meta
//@ rule text let mut meta = meta.borrow_mut(); => 
//@ rule text Attr::default() => vx_attr_default()
//@ rule method to_ascii_lowercase => vx_lower
//@ header
    requires old(self).meta is Some, wf(&old(self).meta->0),
    ensures
        final(self).meta is Some,
        wf(&final(self).meta->0),
        forall|n: Seq<char>| #[trigger] val(&final(self).meta->0, n) == (if n == lower(name@) { None } else { val(&old(self).meta->0, n) }),
        // nor is it written out any more
        forall|i: int| 0 <= i < final(self).meta->0.attrs@.len() ==> !key_is(#[trigger] final(self).meta->0.attrs@[i], lower(name@)),
//@ at start
    let ghost m0 = self.meta->0;
    let ghost gn = lower(name@);
    let ghost raw = name@;
//@ loop 0
    invariant
        wf(&m0),
        name@ == raw, gn == lower(raw),
        m0.lc_name_map@.contains_key(gn),
        meta.lc_name_map@ == m0.lc_name_map@.remove(gn),
        meta.attrs@.len() == m0.attrs@.len(),
        __i0 <= meta.attrs@.len(),
        forall|j: int| 0 <= j < __i0 ==> if key_is(m0.attrs@[j], gn) { (#[trigger] meta.attrs@[j]).key is None } else { meta.attrs@[j] == m0.attrs@[j] },
        forall|j: int| __i0 <= j < meta.attrs@.len() ==> #[trigger] meta.attrs@[j] == m0.attrs@[j],
//@ at loop-start 0
    proof { if attr.key is Some { lemma_nocase(attr.key->0.content@, name@); } }
//@ at loop-exit 0
    proof {
        let m1 = *meta;
        assert forall|j: int| 0 <= j < m1.attrs@.len() implies !key_is(#[trigger] m1.attrs@[j], gn) by {}
        assert forall|n: Seq<char>| #[trigger] m1.lc_name_map@.contains_key(n) implies m1.lc_name_map@[n] < m1.attrs@.len() && key_is(m1.attrs@[m1.lc_name_map@[n] as int], n) by {
            assert(m0.lc_name_map@.contains_key(n));
            let j = m0.lc_name_map@[n] as int;
            assert(m1.attrs@[j] == m0.attrs@[j]);
        }
        assert forall|i: int| 0 <= i < m1.attrs@.len() && (#[trigger] m1.attrs@[i]).key is Some implies
            m1.lc_name_map@.contains_key(lower(m1.attrs@[i].key->0.content@)) && m1.lc_name_map@[lower(m1.attrs@[i].key->0.content@)] <= i by {
            assert(m1.attrs@[i] == m0.attrs@[i]);
            assert(m0.attrs@[i].key is Some);
        }
        assert forall|n: Seq<char>| #[trigger] val(&m1, n) == (if n == gn { None } else { val(&m0, n) }) by {
            if n != gn && m0.lc_name_map@.contains_key(n) {
                let j = m0.lc_name_map@[n] as int;
                assert(m1.attrs@[j] == m0.attrs@[j]);
            }
        }
    }
//@ emit
}
/// TRUSTED: a copy of a list of characters
#[verifier::external_body]
fn vx_clone_chars(x: &Vec<char>) -> (r: Vec<char>)
    ensures r@ == x@,
{ x.clone() }
}
fn main() {}
