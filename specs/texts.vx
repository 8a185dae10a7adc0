//@ include base.vx
//@ include tree.vx
//@ emit
// ---------------------------------------------------------------- text handles
/// identity of the node behind a text handle
uninterp spec fn text_id(e: &TextH) -> int;
uninterp spec fn tag(n: int) -> Seq<char>;
uninterp spec fn content_tag(name: Seq<char>) -> bool;
/// an element whose content is text only (script, style, title, textarea): it is a text of its own
spec fn raw(n: int) -> bool { content_tag(tag(n)) }
/// ASSUMED: `check_if_content_tag` is a function of the name (proved so in unit domtext)
#[verifier::external_body]
fn check_if_content_tag(name: &[char]) -> (r: bool)
    ensures r == content_tag(name@),
{ unimplemented!() }
#[derive(Debug)]
struct DynError;
/// a capacity only
const DEF_NODES_LEN: usize = 20;
/// Result::ok
fn vx_ok<T>(r: Result<T, DynError>) -> (o: Option<T>)
    ensures o == (match r { Ok(x) => Some(x), Err(_) => None }),
{ match r { Ok(x) => Some(x), Err(_) => None } }
fn vx_err() -> DynError { DynError }
impl<'a> Ele<'a> {
    /// ASSUMED: the tag name
    #[verifier::external_body]
    fn tag_names(&self) -> (r: Vec<char>)
        ensures r@ == tag(id_of(self)),
    { unimplemented!() }
    /// ASSUMED: the node itself as a trait object of the other kind
    #[verifier::external_body]
    fn vx_as_text<'b>(self) -> (r: TextH<'b>)
        ensures text_id(&r) == id_of(&self),
    { unimplemented!() }
}
impl<'a> NodeH<'a> {
    #[verifier::external_body]
    fn clone_node<'b>(&self) -> (r: NodeH<'b>)
        ensures node_id(&r) == node_id(self),
    { unimplemented!() }
}
impl<'a> TextH<'a> {
    #[verifier::external_body]
    fn clone_node<'b>(&self) -> (r: NodeH<'b>)
        ensures node_id(&r) == text_id(self),
    { unimplemented!() }
}
/// ASSUMED (proved on the heap in unit domread): `typed` names the kind and keeps the node
#[verifier::external_body]
fn typed_any<'a, 'b>(n: NodeH<'a>) -> (r: IEnumTyped<'b>)
    ensures
        kind(node_id(&n)) is Element ==> (r matches IEnumTyped::Element(e) && id_of(&e) == node_id(&n)),
        kind(node_id(&n)) is Text ==> (r matches IEnumTyped::Text(e) && text_id(&e) == node_id(&n)),
{ unimplemented!() }
//@ item mesdoc/interface/texts.rs Texts
//@ emit
spec fn tids(s: Seq<TextH>) -> Seq<int> { Seq::new(s.len(), |i: int| text_id(&s[i])) }
impl<'a> Texts<'a> {
    spec fn ids(&self) -> Seq<int> { tids(self.nodes@) }
}
/// a callback `Fn(usize, &BoxDynText) -> bool`: any function of the depth (or position) and the text
#[verifier::external_body]
struct TextFn(());
uninterp spec fn keeps(f: &TextFn, d: usize, n: int) -> bool;
impl TextFn {
    #[verifier::external_body]
    fn call(&self, d: usize, t: &TextH) -> (r: bool)
        ensures r == keeps(self, d, text_id(t)),
    { unimplemented!() }
}
/// a callback `Fn(&BoxDynElement) -> bool`
#[verifier::external_body]
struct EleFn(());
uninterp spec fn enters(f: &EleFn, n: int) -> bool;
impl EleFn {
    #[verifier::external_body]
    fn call(&self, e: &Ele) -> (r: bool)
        ensures r == enters(self, id_of(e)),
    { unimplemented!() }
}
/// `|_, _| true` and `|_| true`
#[verifier::external_body]
fn vx_all_texts() -> (r: TextFn)
    ensures every_text(&r),
{ unimplemented!() }
#[verifier::external_body]
fn vx_all_eles() -> (r: EleFn)
    ensures every(&r),
{ unimplemented!() }
// ---------------------------------------------------------------- what the listing means
spec fn keep(n: int, d: int, h: &TextFn) -> Seq<int> { if keeps(h, d as usize, n) { seq![n] } else { Seq::empty() } }
/// the texts below n, in document order, whose depth below the start is under the limit; d: the depth of the children of n
spec fn texts_of(n: int, d: int, lim: int, h: &TextFn, r: &EleFn) -> Seq<int>
    decreases height(n), 0int, 1int,
{
    if kids(n).len() > 0 { texts_upto(n, kids(n).len() as int, d, lim, h, r) } else if raw(n) { keep(n, d, h) } else { Seq::empty() }
}
/// those of the first k children
spec fn texts_upto(n: int, k: int, d: int, lim: int, h: &TextFn, r: &EleFn) -> Seq<int>
    decreases height(n), 0int, 0int, k,
{
    if k <= 0 || k > kids(n).len() { Seq::empty() } else {
        let c = kids(n)[k - 1];
        texts_upto(n, k - 1, d, lim, h, r) + (
            if kind(c) is Text || kind(c) is Element && raw(c) { keep(c, d, h) }
            else if kind(c) is Element && d + 1 < lim && enters(r, c) && height(c) < height(n) { texts_of(c, d + 1, lim, h, r) }
            else { Seq::empty() })
    }
}
spec fn limit(l: usize) -> int { if l == 0 { usize::MAX as int } else { l as int } }
/// only what the callbacks say matters
proof fn lemma_same(n: int, d: int, lim: int, h: &TextFn, r: &EleFn, h2: &TextFn, r2: &EleFn)
    requires forall|d: usize, n: int| keeps(h, d, n) == keeps(h2, d, n), forall|n: int| enters(r, n) == enters(r2, n),
    ensures texts_of(n, d, lim, h, r) == texts_of(n, d, lim, h2, r2),
    decreases height(n), 1int, 0int,
{ if kids(n).len() > 0 { lemma_same_upto(n, kids(n).len() as int, d, lim, h, r, h2, r2); } }
proof fn lemma_same_upto(n: int, k: int, d: int, lim: int, h: &TextFn, r: &EleFn, h2: &TextFn, r2: &EleFn)
    requires forall|d: usize, n: int| keeps(h, d, n) == keeps(h2, d, n), forall|n: int| enters(r, n) == enters(r2, n), k <= kids(n).len(),
    ensures texts_upto(n, k, d, lim, h, r) == texts_upto(n, k, d, lim, h2, r2),
    decreases height(n), 0int, k,
{
    if k > 0 {
        lemma_same_upto(n, k - 1, d, lim, h, r, h2, r2);
        let c = kids(n)[k - 1];
        if height(c) < height(n) { lemma_same(c, d + 1, lim, h, r, h2, r2); }
    }
}
/// the texts of one element to a depth, every element entered
spec fn every(r: &EleFn) -> bool { forall|n: int| enters(r, n) }
spec fn every_text(h: &TextFn) -> bool { forall|d: usize, n: int| keeps(h, d, n) }
spec fn listed(n: int, l: usize, h: &TextFn) -> Seq<int> { texts_of(n, 0, limit(l), h, &choose|r: EleFn| every(&r)) }
spec fn all_texts(n: int, l: usize) -> Seq<int> { listed(n, l, &choose|h: TextFn| every_text(&h)) }
proof fn lemma_listed(n: int, l: usize, h: &TextFn)
    ensures forall|r: EleFn| every(&r) ==> #[trigger] texts_of(n, 0, limit(l), h, &r) == listed(n, l, h),
{
    assert forall|r: EleFn| every(&r) implies #[trigger] texts_of(n, 0, limit(l), h, &r) == listed(n, l, h) by {
        let r2 = choose|r: EleFn| every(&r);
        assert(every(&r2));
        lemma_same(n, 0, limit(l), h, &r, h, &r2);
    }
}
proof fn lemma_all(n: int, l: usize)
    ensures forall|h: TextFn| every_text(&h) ==> #[trigger] listed(n, l, &h) == all_texts(n, l),
{
    assert forall|h: TextFn| every_text(&h) implies #[trigger] listed(n, l, &h) == all_texts(n, l) by {
        let h2 = choose|h: TextFn| every_text(&h);
        assert(every_text(&h2));
        let r2 = choose|r: EleFn| every(&r);
        lemma_same(n, 0, limit(l), &h, &r2, &h2, &r2);
    }
}
/// one after the other
spec fn concat(s: Seq<int>, f: spec_fn(int) -> Seq<int>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { concat(s.drop_last(), f) + f(s.last()) } }
proof fn lemma_concat(s: Seq<int>, k: int, f: spec_fn(int) -> Seq<int>)
    requires 0 <= k < s.len(),
    ensures concat(s.take(k + 1), f) == concat(s.take(k), f) + f(s[k]),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
proof fn lemma_concat_same(s: Seq<int>, f: spec_fn(int) -> Seq<int>, g: spec_fn(int) -> Seq<int>)
    requires forall|n: int| #[trigger] f(n) == g(n),
    ensures concat(s, f) == concat(s, g),
    decreases s.len(),
{ if s.len() > 0 { lemma_concat_same(s.drop_last(), f, g); } }
spec fn f_of(l: usize, h: &TextFn, r: &EleFn) -> spec_fn(int) -> Seq<int> { |n: int| texts_of(n, 0, limit(l), h, r) }
spec fn f_listed(l: usize, h: &TextFn) -> spec_fn(int) -> Seq<int> { |n: int| listed(n, l, h) }
spec fn f_all(l: usize) -> spec_fn(int) -> Seq<int> { |n: int| all_texts(n, l) }
proof fn lemma_listed_all(s: Seq<int>, l: usize, h: &TextFn)
    ensures forall|r: EleFn| #[trigger] every(&r) ==> concat(s, f_of(l, h, &r)) == concat(s, f_listed(l, h)),
{
    assert forall|r: EleFn| #[trigger] every(&r) implies concat(s, f_of(l, h, &r)) == concat(s, f_listed(l, h)) by {
        let f = f_of(l, h, &r);
        let g = f_listed(l, h);
        assert forall|n: int| #[trigger] f(n) == g(n) by { lemma_listed(n, l, h); }
        lemma_concat_same(s, f, g);
    }
}
/// TRUSTED: `Vec::extend` appends what the iterator of a set of texts gives: its nodes, in order
#[verifier::external_body]
fn vx_extend<'a>(v: &mut Vec<TextH<'a>>, t: Texts<'a>)
    ensures final(v)@ == old(v)@ + t.nodes@, tids(final(v)@) == tids(old(v)@) + t.ids(),
{ unimplemented!() }
/// a text node, or an element that is a text of its own
spec fn texty(n: int) -> bool { kind(n) is Text || kind(n) is Element && raw(n) }
spec fn all_texty(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> texty(#[trigger] s[i]) }
/// a listing holds nothing else
proof fn lemma_texty(n: int, d: int, lim: int, h: &TextFn, r: &EleFn)
    requires is_el(n) || kids(n).len() > 0 || !raw(n),
    ensures all_texty(texts_of(n, d, lim, h, r)),
    decreases height(n), 1int, 0int,
{ if kids(n).len() > 0 { lemma_texty_upto(n, kids(n).len() as int, d, lim, h, r); } }
proof fn lemma_texty_upto(n: int, k: int, d: int, lim: int, h: &TextFn, r: &EleFn)
    requires k <= kids(n).len(),
    ensures all_texty(texts_upto(n, k, d, lim, h, r)),
    decreases height(n), 0int, k,
{
    if k > 0 {
        lemma_texty_upto(n, k - 1, d, lim, h, r);
        let c = kids(n)[k - 1];
        if height(c) < height(n) && kind(c) is Element { lemma_texty(c, d + 1, lim, h, r); }
    }
}
/// the nodes at the positions for which the callback says yes
spec fn picked(s: Seq<int>, h: &TextFn, k: int) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else { picked(s, h, k - 1) + keep(s[k - 1], k - 1, h) } }
proof fn lemma_push(a: Seq<TextH>, b: Seq<TextH>, t: TextH)
    requires b == a.push(t),
    ensures tids(b) == tids(a) + seq![text_id(&t)],
{ assert(tids(b) =~= tids(a) + seq![text_id(&t)]); }
//@ emit
impl<'a> Ele<'a> {
//@ contract elemfn.vx trait:IElementTrait::child_nodes
//@ fn lib.rs IElementTrait@Rc::into_text
//@ prop C13
//@ sig
fn into_text<'b>(self) -> (r: Result<TextH<'b>, DynError>)
//@ header
    ensures r is Ok == raw(id_of(&self)), r matches Ok(t) ==> text_id(&t) == id_of(&self),
//@ rule text self as BoxDynText => self.vx_as_text()
//@ rule err
//@ emit
}
impl<'a> IEnumTyped<'a> {
//@ contract elemfn.vx IEnumTyped::into_element
//@ fn mesdoc/interface/node.rs IEnumTyped::into_text
//@ prop C13
//@ ret r
//@ header
    ensures r == (match self { IEnumTyped::Text(e) => Some(e), _ => None }),
//@ emit
}
impl<'a> Texts<'a> {
//@ fn mesdoc/interface/texts.rs Texts::with_capacity
//@ prop C13
//@ ret r
//@ header
    ensures r.ids() == Seq::<int>::empty(),
//@ at end
    proof { assert(__r.ids() =~= Seq::<int>::empty()); }
//@ fn mesdoc/interface/texts.rs Texts::length
//@ prop C13
//@ ret r
//@ header
    ensures r == self.ids().len(),
//@ fn mesdoc/interface/texts.rs Texts::is_empty
//@ prop C13
//@ ret r
//@ header
    ensures r == (self.ids().len() == 0),
//@ fn mesdoc/interface/texts.rs Texts::get_ref
//@ prop C13
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/texts.rs Texts::get_mut_ref
//@ prop C13
//@ ret r
//@ header
    ensures *r == old(self).nodes, final(self).nodes == *final(r),
//@ fn mesdoc/interface/texts.rs Texts::filter_by
//@ prop C13
//@ sig
fn filter_by(&self, handle: &TextFn) -> (r: Texts<'a>)
//@ header
    requires all_texty(self.ids()),
    ensures r.ids() == picked(self.ids(), handle, self.ids().len() as int),
//@ rule call handle
//@ rule method typed => typed_any(val)
//@ rule method ok => vx_ok(val)
//@ attrs
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), result.ids() == picked(self.ids(), handle, __i0 as int),
//@ at loop-start 0
    let ghost v1 = result.nodes@;
    proof { assert(texty(self.ids()[__i0 - 1])); }
//@ at loop-end 0
    proof {
        if result.nodes@.len() == v1.len() + 1 { lemma_push(v1, result.nodes@, result.nodes@.last()); }
        assert(result.ids() =~= picked(self.ids(), handle, __i0 as int));
    }
//@ emit
}
//@ fn lib.rs IElementTrait@Rc::texts_by_rec/loop_handle as texts_loop
//@ prop C13
//@ rule sig &dyn Fn(usize, &BoxDynText) -> bool => &TextFn
//@ rule sig &dyn Fn(&BoxDynElement) -> bool => &EleFn
//@ rule call handle
//@ rule call rec_handle
//@ rule method typed => typed_any(val)
//@ rule text? loop_handle( => texts_loop(
//@ header
    requires cur_depth < limit_depth,
    ensures final(result).ids() == old(result).ids() + texts_of(id_of(&ele), cur_depth as int, limit_depth as int, handle, rec_handle),
    decreases height(id_of(&ele)),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    let ghost n = id_of(&ele);
    let ghost d = cur_depth as int;
    let ghost lim = limit_depth as int;
    let ghost r0 = result.ids();
    proof { axiom_tree(n); assert(r0 + Seq::<int>::empty() =~= r0); }
//@ loop 0
    invariant
        __s0@ == child_nodes@, __i0 <= __s0.len(),
        result.ids() == r0 + texts_upto(n, __i0 as int, d, lim, handle, rec_handle),
//@ at loop-start 0
    let ghost c = kids(n)[__i0 - 1];
    let ghost r1 = result.ids();
    let ghost v1 = result.nodes@;
    proof { axiom_tree(c); }
//@ at loop-end 0
    proof {
        assert(r1 + Seq::<int>::empty() =~= r1);
        if (kind(c) is Text || raw(c)) && result.nodes@.len() == v1.len() + 1 { lemma_push(v1, result.nodes@, result.nodes@.last()); }
        assert(result.ids() =~= r0 + texts_upto(n, __i0 as int, d, lim, handle, rec_handle));
    }
//@ emit
impl<'a> Ele<'a> {
//@ fn lib.rs IElementTrait@Rc::texts_by_rec
//@ prop C13
//@ rule sig &dyn Fn(usize, &BoxDynText) -> bool => &TextFn
//@ rule sig &dyn Fn(&BoxDynElement) -> bool => &EleFn
//@ rule inner loop_handle => texts_loop
//@ rule text Box::new(Rc::clone(self)) as BoxDynElement => self.cloned()
//@ ret r
//@ header
    ensures
        r is None ==> texts_of(id_of(self), 0, limit(limit_depth), handle, rec_handle) =~= Seq::<int>::empty(),
        r matches Some(t) ==> t.ids() == texts_of(id_of(self), 0, limit(limit_depth), handle, rec_handle),
//@ at start
    let ghost want = texts_of(id_of(self), 0, limit(limit_depth), handle, rec_handle);
    proof { assert(Seq::<int>::empty() + want =~= want); }
//@ emit
//@ fn mesdoc/interface/element.rs trait:IElementTrait::texts_by
//@ prop C13
//@ rule sig &dyn Fn(usize, &BoxDynText) -> bool => &TextFn
//@ rule text Box::new(|_: &BoxDynElement|true) => vx_all_eles()
//@ ret r
//@ header
    ensures ({
        let want = listed(id_of(self), limit_depth, handle);
        (r is None ==> want =~= Seq::<int>::empty()) && (r matches Some(t) ==> t.ids() == want)
    }),
//@ at start
    proof { lemma_listed(id_of(self), limit_depth, handle); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::texts
//@ prop C13
//@ rule text Box::new(|_: usize, _: &BoxDynText| true) => vx_all_texts()
//@ ret r
//@ header
    ensures ({
        let want = all_texts(id_of(self), limit_depth);
        (r is None ==> want =~= Seq::<int>::empty()) && (r matches Some(t) ==> t.ids() == want)
    }),
//@ at start
    proof { lemma_all(id_of(self), limit_depth); }
//@ emit
}
impl<'a> Elements<'a> {
//@ contract elements.vx Elements::get_ref
//@ fn mesdoc/interface/elements.rs Elements::texts
//@ prop C13
//@ ret r
//@ header
    ensures r.ids() == concat(self.ids(), f_all(limit_depth)),
//@ rule method extend => vx_extend(mut)
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), result.ids() == concat(self.ids().take(__i0 as int), f_all(limit_depth)),
//@ at loop-end 0
    proof { lemma_concat(self.ids(), __i0 - 1, f_all(limit_depth)); }
//@ at end
    proof { assert(self.ids().take(self.ids().len() as int) =~= self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::texts_by_rec
//@ prop C13
//@ rule sig Box<dyn Fn(usize, &BoxDynText) -> bool> => TextFn
//@ rule sig Box<dyn Fn(&BoxDynElement) -> bool> => EleFn
//@ ret r
//@ header
    ensures r.ids() == concat(self.ids(), f_of(limit_depth, &handle, &rec_handle)),
//@ rule method extend => vx_extend(mut)
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), result.ids() == concat(self.ids().take(__i0 as int), f_of(limit_depth, &handle, &rec_handle)),
//@ at loop-end 0
    proof { lemma_concat(self.ids(), __i0 - 1, f_of(limit_depth, &handle, &rec_handle)); }
//@ at end
    proof { assert(self.ids().take(self.ids().len() as int) =~= self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::texts_by
//@ prop C13
//@ rule sig Box<dyn Fn(usize, &BoxDynText) -> bool> => TextFn
//@ rule text Box::new(|_: &BoxDynElement|true) => vx_all_eles()
//@ ret r
//@ header
    ensures r.ids() == concat(self.ids(), f_listed(limit_depth, &handle)),
//@ at start
    proof { lemma_listed_all(self.ids(), limit_depth, &handle); }
//@ emit
}
}
fn main() {}
