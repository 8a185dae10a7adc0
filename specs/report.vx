//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include rep.vx
//@ include sel.vx
//@ include sent.vx
//@ emit
impl<'a> Doc<'a> {
//@ fn mesdoc/interface/document.rs trait:IDocumentTrait::trigger_error
//@ prop C09
//@ rule sigarg => lg: &mut Log
//@ rule text handle(error) => handle.call(lg, error)
//@ header
    ensures final(lg)@ == (match handler(doc_id(self)) { Some(h) => old(lg)@.push(h), None => old(lg)@ }),
//@ emit
}
/// white space cut off at both ends
uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_trim<'b>(s: &'b str) -> (r: &'b str)
    ensures r@ == trim(s@),
{ s.trim() }
/// TRUSTED: Result::expect on a result that is one
#[verifier::external_body]
fn vx_expect<T>(r: Result<T, Error>, m: &str) -> (t: T)
    requires r is Ok,
    ensures t == r->Ok_0,
{ unimplemented!() }
/// TRUSTED: Vec::extend with the elements of a set appends them
#[verifier::external_body]
fn vx_extend_els<'a>(v: &mut Vec<Ele<'a>>, x: Elements<'a>)
    ensures final(v)@ == old(v)@ + x.nodes@,
{ unimplemented!() }
trait Dflt { spec fn is_default(&self) -> bool; fn default() -> (r: Self) where Self: Sized ensures r.is_default(); }
/// `bool::default()` is false
impl Dflt for bool { spec fn is_default(&self) -> bool { !*self } fn default() -> (r: bool) { false } }
/// `#[derive(Default)]` of Elements
impl<'a> Dflt for Elements<'a> {
    spec fn is_default(&self) -> bool { self.ids().len() == 0 }
    fn default() -> (r: Elements<'a>) { Elements { nodes: Vec::new(), doc: None } }
}
//@ contract moves.vx has_loop
//@ contract moves.vx has_in_loop
//@ emit
impl Selector {
//@ contract moves.vx Selector::head_combinator
//@ emit
}
/// a selector as the parser makes it for the filtering methods
spec fn parsed(s: &Selector, text: Seq<char>) -> bool { s.process@ == procs(text, false) && wfs(s) && wff(s) && plain(s.process@) }
impl<'a> Elements<'a> {
//@ contract order.vx Elements::sort_and_unique
//@ contract walk.vx Elements::unique_sibling_first
//@ contract walk.vx Elements::unique_sibling_last
//@ contract walk.vx Elements::unique_all_siblings
//@ contract query.vx Elements::find_selector
//@ contract query.vx Elements::filter_type_handle
//@ fn mesdoc/interface/elements.rs Elements::document
//@ prop C09
//@ ret r
//@ header
    ensures
        r is Some == (first_owner(self.ids(), self.ids().len() as int) is Some),
        r matches Some(d) ==> first_owner(self.ids(), self.ids().len() as int) == Some(doc_id(&d)),
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), first_owner(self.ids(), __i0 as int) is None,
//@ at loop-start 0
    proof { assert(self.ids()[__i0 - 1] == id_of(ele)); lemma_first_owner(self.ids(), __i0 as int, self.ids().len() as int); }
//@ fn mesdoc/interface/elements.rs Elements::trigger_method_throw_error
//@ prop C09
//@ rule sigarg => lg: &mut Log
//@ rule text doc.trigger_error( => doc.trigger_error(lg, 
//@ rule err
//@ header
    ensures final(lg)@ == old(lg)@ + told(self.ids()),
//@ at start
    proof { assert(old(lg)@ + Seq::<int>::empty() =~= old(lg)@); if let Some(d) = first_owner(self.ids(), self.ids().len() as int) { if let Some(h) = handler(d) { assert(old(lg)@ + seq![h] =~= old(lg)@.push(h)); } } }
//@ fn mesdoc/interface/elements.rs Elements::trigger_method
//@ prop C09 C02
//@ ret r
//@ rule sig T: Default => T: Dflt
//@ rule sigarg => lg: &mut Log

//@ rule text self.trigger_method_throw_error( => self.trigger_method_throw_error(lg, 
//@ rule method unwrap_err => vx_unwrap_err(val)
//@ rule text Default::default() => T::default()
//@ header
    requires forall|s: &mut Selector| parsed(s, selector@) ==> #[trigger] handle.requires((s,)),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> exists|s: &mut Selector| parsed(s, selector@) && #[trigger] handle.ensures((s,), r),
        self.ids().len() == 0 || malformed(selector@) ==> r.is_default(),
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ at start
    proof { assert(self.ids().len() == 0 ==> told(self.ids()) =~= Seq::<int>::empty()); assert(old(lg)@ + Seq::<int>::empty() =~= old(lg)@); }
//@ emit
}
proof fn lemma_first_owner(s: Seq<int>, i: int, k: int)
    requires 0 <= i <= k <= s.len(),
    ensures first_owner(s, i) is Some ==> first_owner(s, k) == first_owner(s, i),
    decreases k - i,
{ if i < k { lemma_first_owner(s, i, k - 1); } }
proof fn lemma_hreach_none(b: spec_fn(int) -> bool, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires hreach(b, q, k, n),
    ensures exists|m: int| #[trigger] b(m),
    decreases k,
{
    if k > 0 && !(k == 1 && q[0]@[0].1 is ChildrenAll) {
        let m = choose|m: int| hreach(b, q, k - 1, m) && #[trigger] rel(q[k - 1]@[0].1, m, n);
        lemma_hreach_none(b, q, k - 1, m);
    } else { assert(b(n)); }
}
/// nothing is reached from nowhere
proof fn lemma_moved_none(s: Seq<int>, c: Combinator, text: Seq<char>, n: int)
    requires s.len() == 0,
    ensures !moved_by(from_fn(s, c), text, n),
{
    let b = from_fn(s, c);
    if text.len() > 0 && moved(b, procs(text, false), n) {
        let ps = procs(text, false);
        let i = choose|i: int| 0 <= i < ps.len() && hreach(b, (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n);
        lemma_hreach_none(b, ps[i].query@, ps[i].query@.len() as int, n);
        let m = choose|m: int| #[trigger] b(m);
        assert(from(s, c, m));
    }
}
/// moves that look only at the parent, or only one way along the siblings
proof fn lemma_rel_sib(c: Combinator, asc: bool, x: int, e: int, n: int)
    requires rel(c, e, n), c is Parent || c is ParentAll || (c is NextAll && asc) || (c is PrevAll && !asc), par(x) == par(e), if asc { idx(x) <= idx(e) } else { idx(x) >= idx(e) },
    ensures rel(c, x, n),
{
    axiom_tree(e); axiom_tree(x);
    match c {
        NextAll => { lemma_nexts(e); lemma_nexts(x); }
        PrevAll => { lemma_prevs(e); lemma_prevs(x); }
        _ => {}
    }
}
proof fn lemma_rel_par(c: Combinator, e: int, n: int)
    requires rel(c, e, n), c is Parent || c is ParentAll || c is NextAll || c is PrevAll,
    ensures par(e) is Some,
{
    match c {
        NextAll => { lemma_nexts(e); }
        PrevAll => { lemma_prevs(e); }
        _ => { axiom_tree(e); }
    }
}
/// one of several siblings stands for all of them
proof fn lemma_reps_from(s: Seq<int>, u: Seq<int>, asc: bool, c: Combinator)
    requires good(s), reps(s, u, asc), c is Parent || c is ParentAll || (c is NextAll && asc) || (c is PrevAll && !asc),
    ensures from_fn(u, c) =~= from_fn(s, c), good(u),
{
    hide(rel); hide(sorted); hide(good);
    lemma_reps_one(s, u, asc);
    assert forall|n: int| from(u, c, n) == from(s, c, n) by {
        if from(u, c, n) {
            let i = choose|i: int| 0 <= i < u.len() && rel(c, #[trigger] u[i], n);
            assert(s.contains(u[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
            assert(rel(c, s[j], n));
        }
        if from(s, c, n) {
            let j = choose|j: int| 0 <= j < s.len() && rel(c, #[trigger] s[j], n);
            let e = s[j];
            lemma_rel_par(c, e, n);
            assert(s.contains(e));
            assert(repped(u, e, asc));
            let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e) && (if asc { idx(u[i]) <= idx(e) } else { idx(u[i]) >= idx(e) });
            lemma_rel_sib(c, asc, u[i], e, n);
            assert(rel(c, u[i], n));
        }
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::find
//@ prop C02 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method_throw_error( => self.trigger_method_throw_error(lg, 
//@ rule method unwrap_err => vx_unwrap_err(val)
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()),
        !malformed(selector@) ==> forall|n: int| #[trigger] r.ids().contains(n) <==> found(self.ids(), procs(selector@, true), procs(selector@, true).len() as int, n),
        malformed(selector@) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::filter
//@ prop C02 C03 C04 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: Elements<'a>) requires wff(old(selector)), good(self.ids()) ensures picked(self.ids(), hits_fn(old(selector).process@, old(selector).process@.len() as int), r.ids()) {
//@ header
    requires good(self.ids()),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> picked(self.ids(), hits_fn(procs(selector@, false), procs(selector@, false).len() as int), r.ids()),
        self.ids().len() == 0 || malformed(selector@) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::not
//@ prop C02 C03 C04 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: Elements<'a>) requires wff(old(selector)), good(self.ids()) ensures picked(self.ids(), miss_fn(old(selector).process@), r.ids()) {
//@ header
    requires good(self.ids()),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> picked(self.ids(), miss_fn(procs(selector@, false)), r.ids()),
        self.ids().len() == 0 || malformed(selector@) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::is
//@ prop C02 C03 C04 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: bool) requires wff(old(selector)), good(self.ids()) ensures r == exists|n: int| #[trigger] self.ids().contains(n) && hits(old(selector).process@, old(selector).process@.len() as int, n) {
//@ header
    requires good(self.ids()),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> r == exists|n: int| #[trigger] self.ids().contains(n) && hits(procs(selector@, false), procs(selector@, false).len() as int, n),
        self.ids().len() == 0 || malformed(selector@) ==> !r,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::is_all
//@ prop C02 C03 C04 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: bool) requires wff(old(selector)), good(self.ids()) ensures r == forall|n: int| #[trigger] self.ids().contains(n) ==> hits(old(selector).process@, old(selector).process@.len() as int, n) {
//@ header
    requires good(self.ids()),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> r == forall|n: int| #[trigger] self.ids().contains(n) ==> hits(procs(selector@, false), procs(selector@, false).len() as int, n),
        self.ids().len() == 0 || malformed(selector@) ==> !r,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::select_with_comb
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: Elements<'a>) requires wfs(old(selector)), plain(old(selector).process@), good(self.ids()) ensures good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved(from_fn(self.ids(), comb), old(selector).process@, n) {
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), comb), selector@, n),
        log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), self.ids(), final(lg)@),
//@ at before return self.find_selector(&selector);
    proof { lemma_all(comb, self.ids(), selector.process@); assert(wfs(&selector)); }
//@ at before let segment = Selector::make_comb_all(comb);
    proof { axiom_all(); }
//@ at start
    proof { if self.ids().len() == 0 { assert forall|n: int| !#[trigger] moved_by(from_fn(self.ids(), comb), selector@, n) by { lemma_moved_none(self.ids(), comb, selector@, n); } } }
//@ at after selector.head_combinator(comb);
    proof { lemma_headeds(self.ids(), comb, old(selector).process@, selector.process@); }
//@ fn mesdoc/interface/elements.rs Elements::children
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), Children), selector@, n),
        log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::prev
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), Prev), selector@, n),
        log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::next
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), Next), selector@, n),
        log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), self.ids(), final(lg)@),
//@ fn mesdoc/interface/elements.rs Elements::prev_all
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), PrevAll), selector@, n),
        exists|u: Seq<int>| #[trigger] reps(self.ids(), u, false) && log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), u, final(lg)@),
//@ at after let uniques
    proof { lemma_reps_from(self.ids(), uniques.ids(), false, PrevAll); }
//@ fn mesdoc/interface/elements.rs Elements::next_all
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), NextAll), selector@, n),
        exists|u: Seq<int>| #[trigger] reps(self.ids(), u, true) && log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), u, final(lg)@),
//@ at after let uniques
    proof { lemma_reps_from(self.ids(), uniques.ids(), true, NextAll); }
//@ fn mesdoc/interface/elements.rs Elements::parent
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), Parent), selector@, n),
        exists|u: Seq<int>| #[trigger] reps(self.ids(), u, true) && log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), u, final(lg)@),
//@ at after let uniques
    proof { lemma_reps_from(self.ids(), uniques.ids(), true, Parent); }
//@ fn mesdoc/interface/elements.rs Elements::parents
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb( => .select_with_comb(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), ParentAll), selector@, n),
        exists|u: Seq<int>| #[trigger] reps(self.ids(), u, true) && log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), u, final(lg)@),
//@ at after let uniques
    proof { lemma_reps_from(self.ids(), uniques.ids(), true, ParentAll); }
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
    proof { lemma_one_root(r1); }
//@ at after result.sort_and_unique();
    proof { lemma_members_one(r1, result.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::filter_by
//@ prop C12 C02
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
//@ header
    requires forall|i: usize, e: &Ele| #[trigger] handle.requires((i, e)),
    ensures
        exists|b: Seq<bool>| b.len() == self.ids().len() && (forall|i: int| 0 <= i < b.len() ==> handle.ensures((i as usize, &self.nodes@[i]), #[trigger] b[i])) && r.ids() == #[trigger] pick(self.ids(), b, b.len() as int),
//@ at start
    let ghost mut b = Seq::<bool>::empty();
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), b.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> handle.ensures((i as usize, &self.nodes@[i]), #[trigger] b[i]),
        result.ids() == pick(self.ids(), b, __i0 as int),
//@ at loop-start 0
    let ghost b0 = b;
    let ghost r0 = result.ids();
//@ at loop-end 0
    proof {
        let yes = result.ids().len() > r0.len();
        b = b0.push(yes);
        assert(self.ids()[__i0 - 1] == id_of(ele));
        lemma_pick_same(self.ids(), b0, b, __i0 - 1);
        assert(b[__i0 - 1] == yes);
    }
//@ fn mesdoc/interface/elements.rs Elements::has
//@ prop C02 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule inner loop_handle => has_loop
//@ rule text self.trigger_method( => self.trigger_method(lg, 
//@ rule text |selector| { => |selector: &mut Selector| -> (r: Elements<'a>) requires wff(old(selector)), good(self.ids()) ensures picked(self.ids(), below_fn(hits_fn(old(selector).process@, old(selector).process@.len() as int)), r.ids()) {
//@ rule text |_, ele| loop_handle(ele, selector) => |_i: usize, ele: &Ele| -> (b: bool) requires wff(selector) ensures b == below(id_of(ele), hits_fn(selector.process@, selector.process@.len() as int)) { has_loop(ele, selector) }
//@ header
    requires good(self.ids()),
    ensures
        self.ids().len() > 0 && !malformed(selector@) ==> picked(self.ids(), below_fn(hits_fn(procs(selector@, false), procs(selector@, false).len() as int)), r.ids()),
        self.ids().len() == 0 || malformed(selector@) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@), self.ids(), final(lg)@),
//@ at start
    proof { lemma_picks(self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::has_in
//@ prop C04 C03
//@ ret r
//@ rule inner loop_handle => has_in_loop
//@ rule text |_, ele| loop_handle(ele, search) => |_i: usize, ele: &Ele| -> (b: bool) ensures b == below(id_of(ele), inside(search.ids())) { has_in_loop(ele, search) }
//@ header
    requires good(self.ids()),
    ensures picked(self.ids(), below_fn(inside(search.ids())), r.ids()),
//@ at start
    proof { lemma_picks(self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::siblings
//@ prop C11 C03 C09
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method_throw_error( => self.trigger_method_throw_error(lg, 
//@ rule err
//@ rule text DEF_NODES_LEN => 20
//@ rule method trim => vx_trim
//@ rule method expect => vx_expect(val)
//@ rule method extend => vx_extend_els(mut)
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> moved_by(from_fn(self.ids(), Siblings), trim(selector@), n),
        log_of(old(lg)@, trim(selector@).len() > 0 && malformed(trim(selector@)), self.ids(), final(lg)@),
//@ at start
    let ghost s = self.ids();
    let ghost text = trim(selector@);
    let ghost lg0 = lg@;
    proof { axiom_all(); }
//@ at before let mut result
    let ghost cs = child_selector.process@;
    let ghost ss = siblings_selector.process@;
    let ghost v = uniques@;
    proof {
        lemma_heads(text, Children, cs);
        lemma_heads(text, Siblings, ss);
        assert(log_of(lg0, false, s, lg@));
    }
//@ loop 0
    invariant
        __s0@ == v, __i0 <= __s0.len(), one(result.ids()), els(result.ids()), s.len() > 0 ==> one_root(result.ids(), root(s[0])), wfs(&child_selector), wfs(&siblings_selector),
        forall|n: int| #[trigger] result.ids().contains(n) <==> some_entry(v, __i0 as int, text, n),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    let ghost r0 = result.ids();
    proof { assert(*ele == v[k].0 && *is_parent == v[k].1); lemma_entry(s, v, k); }
//@ at after let eles = Elements::with_node(ele);
    proof { assert(eles.ids() == seq![id_of(&v[k].0)]); }
//@ at loop-end 0
    proof { lemma_some_entry(s, v, k, text, r0, finded_ids, result.ids()); }
//@ at before result.get_mut_ref().extend(finded)
    let ghost finded_ids = finded.ids();
    proof { assert(ids(result.nodes@ + finded.nodes@) =~= result.ids() + finded.ids()); }
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
    proof { lemma_one_root(r1); lemma_families_from(s, v); assert forall|n: int| #[trigger] some_entry(v, v.len() as int, text, n) == moved_by(from_fn(s, Siblings), text, n) by { lemma_entries(s, v, text, n); } }
//@ at after result.sort_and_unique();
    proof { lemma_members_one(r1, result.ids()); }
//@ emit
}
/// where an entry of the families leads
spec fn efn(x: (Ele, bool)) -> spec_fn(int) -> bool { from_fn(seq![id_of(&x.0)], if x.1 { Children } else { Siblings }) }
spec fn some_entry(v: Seq<(Ele, bool)>, k: int, text: Seq<char>, n: int) -> bool { exists|j: int| 0 <= j < k && moved_by(efn(#[trigger] v[j]), text, n) }
/// ts: the parsed text with c at its head
spec fn heads(text: Seq<char>, c: Combinator, ts: Seq<QueryProcess>) -> bool {
    if text.len() == 0 { ts.len() == 1 && ts[0].should_in is None && ts[0].query@.len() == 1 && ts[0].query@[0]@ == seq![(all_matcher(), c)] }
    else { !malformed(text) && plain(procs(text, false)) && (forall|i: int| 0 <= i < procs(text, false).len() ==> wfp(#[trigger] procs(text, false)[i])) && headeds(procs(text, false), c, ts) }
}
proof fn lemma_heads(text: Seq<char>, c: Combinator, ts: Seq<QueryProcess>)
    requires heads(text, c, ts),
    ensures
        forall|i: int| 0 <= i < ts.len() ==> wfp(#[trigger] ts[i]),
        forall|s: Seq<int>, n: int| #[trigger] found(s, ts, ts.len() as int, n) == moved_by(from_fn(s, c), text, n),
{
    assert forall|s: Seq<int>, n: int| #[trigger] found(s, ts, ts.len() as int, n) == moved_by(from_fn(s, c), text, n) by {
        if text.len() == 0 { lemma_all(c, s, ts); } else { lemma_headeds(s, c, procs(text, false), ts); }
    }
    if text.len() == 0 { lemma_all(c, Seq::empty(), ts); } else { lemma_headeds(Seq::empty(), c, procs(text, false), ts); }
}
/// every entry is an element of the tree of s
proof fn lemma_entry(s: Seq<int>, v: Seq<(Ele, bool)>, k: int)
    requires good(s), families(s, v), 0 <= k < v.len(),
    ensures good(seq![id_of(&v[k].0)]), s.len() > 0, root(id_of(&v[k].0)) == root(s[0]),
{
    let x = v[k];
    let a = id_of(&x.0);
    assert(entry(s, x));
    axiom_tree(a);
    if x.1 {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && par(#[trigger] s[i]) == Some(a) && par(#[trigger] s[j]) == Some(a);
        axiom_tree(s[i]);
        lemma_path_len(s[i]);
        assert(root(s[i]) == root(s[0]));
    } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
        assert(root(s[i]) == root(s[0]));
        assert(is_el(s[i]) || par(s[i]) is None);
    }
}
proof fn lemma_some_entry(s: Seq<int>, v: Seq<(Ele, bool)>, k: int, text: Seq<char>, r0: Seq<int>, f: Seq<int>, r: Seq<int>)
    requires
        good(s), families(s, v), 0 <= k < v.len(), r == r0 + f, good(f), one_root(r0, root(s[0])), els(r0),
        forall|n: int| #[trigger] r0.contains(n) <==> some_entry(v, k, text, n),
        forall|n: int| #[trigger] f.contains(n) <==> moved_by(efn(v[k]), text, n),
    ensures one(r), els(r), one_root(r, root(s[0])), forall|n: int| #[trigger] r.contains(n) <==> some_entry(v, k + 1, text, n),
{
    lemma_entry(s, v, k);
    let rt = root(s[0]);
    let o = seq![id_of(&v[k].0)];
    assert(o[0] == id_of(&v[k].0));
    assert(is_el(o[0]) || par(o[0]) is None);
    assert forall|i: int| 0 <= i < r.len() implies root(#[trigger] r[i]) == rt && (is_el(r[i]) || par(r[i]) is None) by {
        if i >= r0.len() {
            let n = f[i - r0.len()];
            assert(f.contains(n));
            lemma_moved_root(id_of(&v[k].0), if v[k].1 { Children } else { Siblings }, text, n);
            assert(is_el(n) || par(n) is None);
        }
    }
    assert forall|n: int| #[trigger] r.contains(n) <==> some_entry(v, k + 1, text, n) by {
        lemma_contains_add(r0, f);
        if some_entry(v, k, text, n) { let j = choose|j: int| 0 <= j < k && moved_by(efn(#[trigger] v[j]), text, n); assert(0 <= j < k + 1); }
        if f.contains(n) { assert(moved_by(efn(v[k]), text, n)); }
        if some_entry(v, k + 1, text, n) { let j = choose|j: int| 0 <= j < k + 1 && moved_by(efn(#[trigger] v[j]), text, n); if j < k { assert(some_entry(v, k, text, n)); } }
    }
}
proof fn lemma_hreach_root(x: int, c: Combinator, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires hreach(from_fn(seq![x], c), q, k, n), is_el(x) || par(x) is None,
    ensures root(n) == root(x), is_el(n) || par(n) is None,
    decreases k,
{
    if k > 0 && !(k == 1 && q[0]@[0].1 is ChildrenAll) {
        let m = choose|m: int| hreach(from_fn(seq![x], c), q, k - 1, m) && #[trigger] rel(q[k - 1]@[0].1, m, n);
        lemma_hreach_root(x, c, q, k - 1, m);
        lemma_rel(q[k - 1]@[0].1, m, n);
    } else {
        let s = seq![x];
        let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], n);
        lemma_rel(c, x, n);
    }
}
proof fn lemma_moved_root(x: int, c: Combinator, text: Seq<char>, n: int)
    requires moved_by(from_fn(seq![x], c), text, n), is_el(x) || par(x) is None,
    ensures root(n) == root(x), is_el(n) || par(n) is None,
{
    let b = from_fn(seq![x], c);
    if text.len() == 0 { let s = seq![x]; let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], n); lemma_rel(c, x, n); }
    else {
        let ps = procs(text, false);
        let i = choose|i: int| 0 <= i < ps.len() && hreach(b, (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n);
        lemma_hreach_root(x, c, ps[i].query@, ps[i].query@.len() as int, n);
    }
}
proof fn lemma_sib(e: int, n: int)
    ensures rel(Siblings, e, n) == (is_el(n) && par(e) is Some && par(n) == par(e) && n != e),
{ lemma_nexts(e); lemma_prevs(e); axiom_tree(e); axiom_tree(n); }
/// the families lead where the elements of s lead
proof fn lemma_families_from(s: Seq<int>, v: Seq<(Ele, bool)>)
    requires good(s), families(s, v),
    ensures forall|n: int| #[trigger] from(s, Siblings, n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n),
{
    assert forall|n: int| #[trigger] from(s, Siblings, n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n) by {
        if from(s, Siblings, n) {
            let i = choose|i: int| 0 <= i < s.len() && rel(Siblings, #[trigger] s[i], n);
            let e = s[i];
            lemma_sib(e, n);
            let p = par(e)->0;
            assert(has_fam(v, p));
            let k = choose|k: int| 0 <= k < v.len() && fam(#[trigger] v[k]) == p;
            assert(entry(s, v[k]));
            let a = id_of(&v[k].0);
            let o = seq![a];
            if v[k].1 { assert(rel(Children, o[0], n)); } else { assert(a == e); assert(rel(Siblings, o[0], n)); }
            assert(efn(v[k])(n));
        }
        if exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n) {
            let j = choose|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n);
            assert(entry(s, v[j]));
            let a = id_of(&v[j].0);
            let o = seq![a];
            let z = choose|z: int| 0 <= z < o.len() && rel(if v[j].1 { Children } else { Siblings }, #[trigger] o[z], n);
            if v[j].1 {
                let (i1, i2) = choose|i1: int, i2: int| 0 <= i1 < i2 < s.len() && par(#[trigger] s[i1]) == Some(a) && par(#[trigger] s[i2]) == Some(a);
                lemma_sorted_distinct(s);
                lemma_sib(s[i1], n);
                lemma_sib(s[i2], n);
                if n != s[i1] { assert(rel(Siblings, s[i1], n)); } else { assert(rel(Siblings, s[i2], n)); }
            } else {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
                assert(rel(Siblings, s[i], n));
            }
        }
    }
}
/// a walk from several starts is the walks from each
proof fn lemma_hreach_union(b: spec_fn(int) -> bool, v: Seq<(Ele, bool)>, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires forall|n: int| #[trigger] b(n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n),
    ensures hreach(b, q, k, n) == exists|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k, n),
    decreases k,
{
    assert(b(n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n));
    if k <= 0 || (k == 1 && q[0]@[0].1 is ChildrenAll) {
        if b(n) { let j = choose|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n); assert(hreach(efn(v[j]), q, k, n) == (k <= 0 || cm(q[0]@, n))); }
        if exists|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k, n) { let j = choose|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k, n); assert(efn(v[j])(n)); }
    } else {
        let c = q[k - 1]@[0].1;
        if hreach(b, q, k, n) {
            let m = choose|m: int| hreach(b, q, k - 1, m) && #[trigger] rel(c, m, n);
            lemma_hreach_union(b, v, q, k - 1, m);
            let j = choose|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k - 1, m);
            assert(hreach(efn(v[j]), q, k, n));
        }
        if exists|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k, n) {
            let j = choose|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), q, k, n);
            let m = choose|m: int| hreach(efn(v[j]), q, k - 1, m) && #[trigger] rel(c, m, n);
            lemma_hreach_union(b, v, q, k - 1, m);
            assert(hreach(b, q, k - 1, m));
        }
    }
}
proof fn lemma_entries(s: Seq<int>, v: Seq<(Ele, bool)>, text: Seq<char>, n: int)
    requires forall|n: int| #[trigger] from(s, Siblings, n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n), !malformed(text) || text.len() == 0,
    ensures some_entry(v, v.len() as int, text, n) == moved_by(from_fn(s, Siblings), text, n),
{
    let b = from_fn(s, Siblings);
    assert forall|n: int| #[trigger] b(n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n) by { assert(b(n) == from(s, Siblings, n)); }
    let ps = procs(text, false);
    if text.len() == 0 {
        assert(b(n) == exists|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n));
        if b(n) { let j = choose|j: int| 0 <= j < v.len() && efn(#[trigger] v[j])(n); assert(moved_by(efn(v[j]), text, n)); }
        if some_entry(v, v.len() as int, text, n) { let j = choose|j: int| 0 <= j < v.len() && moved_by(efn(#[trigger] v[j]), text, n); assert(efn(v[j])(n)); }
    } else {
        if moved(b, ps, n) {
            let i = choose|i: int| 0 <= i < ps.len() && hreach(b, (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n);
            lemma_hreach_union(b, v, ps[i].query@, ps[i].query@.len() as int, n);
            let j = choose|j: int| 0 <= j < v.len() && hreach(efn(#[trigger] v[j]), ps[i].query@, ps[i].query@.len() as int, n);
            assert(moved_by(efn(v[j]), text, n));
        }
        if some_entry(v, v.len() as int, text, n) {
            let j = choose|j: int| 0 <= j < v.len() && moved_by(efn(#[trigger] v[j]), text, n);
            let i = choose|i: int| 0 <= i < ps.len() && hreach(efn(v[j]), (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n);
            lemma_hreach_union(b, v, ps[i].query@, ps[i].query@.len() as int, n);
        }
    }
}
spec fn below_fn(f: spec_fn(int) -> bool) -> spec_fn(int) -> bool { |n: int| below(n, f) }
/// the elements with a yes among the first k
spec fn pick(s: Seq<int>, b: Seq<bool>, k: int) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else if b[k - 1] { pick(s, b, k - 1).push(s[k - 1]) } else { pick(s, b, k - 1) } }
proof fn lemma_pick_same(s: Seq<int>, a: Seq<bool>, b: Seq<bool>, k: int)
    requires forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures pick(s, a, k) == pick(s, b, k),
    decreases k,
{ if k > 0 { lemma_pick_same(s, a, b, k - 1); } }
proof fn lemma_pick(s: Seq<int>, b: Seq<bool>, k: int)
    requires good(s), 0 <= k <= s.len(),
    ensures ahead(pick(s, b, k), s, k), forall|n: int| #[trigger] pick(s, b, k).contains(n) <==> exists|i: int| 0 <= i < k && s[i] == n && b[i],
    decreases k,
{
    if k > 0 {
        lemma_pick(s, b, k - 1);
        lemma_ahead(pick(s, b, k - 1), s, k - 1);
        lemma_contains_push(pick(s, b, k - 1), s[k - 1]);
        assert forall|n: int| #[trigger] pick(s, b, k).contains(n) <==> exists|i: int| 0 <= i < k && s[i] == n && b[i] by {
            if pick(s, b, k).contains(n) && !(b[k - 1] && n == s[k - 1]) { let i = choose|i: int| 0 <= i < k - 1 && s[i] == n && b[i]; assert(s[i] == n); }
            if exists|i: int| 0 <= i < k && s[i] == n && b[i] {
                let i = choose|i: int| 0 <= i < k && s[i] == n && b[i];
                if i < k - 1 { assert(pick(s, b, k - 1).contains(n)); }
            }
        }
    }
}
/// answers that are those of f
spec fn answers(s: Seq<int>, f: spec_fn(int) -> bool, b: Seq<bool>) -> bool { b.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] == f(s[i]) }
proof fn lemma_picks(s: Seq<int>)
    requires good(s),
    ensures forall|f: spec_fn(int) -> bool, r: Seq<int>| (exists|b: Seq<bool>| answers(s, f, b) && r == #[trigger] pick(s, b, b.len() as int)) ==> #[trigger] picked(s, f, r),
{
    assert forall|f: spec_fn(int) -> bool, r: Seq<int>| (exists|b: Seq<bool>| answers(s, f, b) && r == #[trigger] pick(s, b, b.len() as int)) implies #[trigger] picked(s, f, r) by {
        let b = choose|b: Seq<bool>| answers(s, f, b) && r == #[trigger] pick(s, b, b.len() as int);
        lemma_pick(s, b, s.len() as int);
        assert forall|n: int| #[trigger] r.contains(n) <==> s.contains(n) && f(n) by {
            if s.contains(n) && f(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(b[i]); }
            if r.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n && b[i]; assert(b[i] == f(s[i])); }
        }
    }
}
//@ emit
}
fn main() {}
