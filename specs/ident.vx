//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include vxstr.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include sel.vx
//@ include kept.vx
//@ item mesdoc/interface/element.rs IAttrValue
//@ emit
// ---------------------------------------------------------------- ids
/// the value of an attribute of a node; `tag` without a value is None inside
uninterp spec fn attr_at(n: int, name: Seq<char>) -> Option<Option<Seq<char>>>;
spec fn val_of(v: Option<IAttrValue>) -> Option<Option<Seq<char>>> {
    match v { None => None, Some(IAttrValue::True) => Some(None), Some(IAttrValue::Value(s, _)) => Some(Some(s@)) }
}
/// `#id` holds for n
spec fn idm(n: int, id: Seq<char>) -> bool { !is_doc(n) && (attr_at(n, "id"@) == Some(Some(id)) || (id.len() == 0 && attr_at(n, "id"@) == Some(None::<Seq<char>>))) }
spec fn idf(id: Seq<char>) -> spec_fn(int) -> bool { |n: int| idm(n, id) }
/// ASSUMED (property C02): no two elements of a tree have the same id
axiom fn axiom_unique(a: int, b: int, id: Seq<char>)
    requires idm(a, id), idm(b, id), is_el(a), is_el(b), root(a) == root(b),
    ensures a == b;
spec fn lk(l: Option<&[Vec<SelectorSegment>]>) -> Seq<Vec<SelectorSegment>> { match l { Some(q) => q@, None => Seq::empty() } }
impl<'a> Doc<'a> {
    /// TRUSTED: the ids collected at parse time; whatever it gives is an element, which may have changed since
    #[verifier::external_body]
    fn get_element_by_id<'b>(&self, id: &str) -> (r: Option<Ele<'b>>)
        ensures r matches Some(e) ==> is_el(id_of(&e)),
    { unimplemented!() }
}
impl<'a> Ele<'a> {
    /// TRUSTED: goes to the document by the root link
    #[verifier::external_body]
    fn owner_document(&self) -> (r: MaybeDoc<'_>)
    { unimplemented!() }
    /// ASSUMED here, proved in unit attr on the heap
    #[verifier::external_body]
    fn get_attribute(&self, name: &str) -> (r: Option<IAttrValue>)
        ensures val_of(r) == attr_at(id_of(self), name@),
    { unimplemented!() }
}
impl IAttrValue {
//@ fn mesdoc/interface/element.rs IAttrValue::is_str
//@ prop C02
//@ ret r
//@ rule text v == value => vx_eq(v, value)
//@ rule text value.is_empty() => vx_no_text(value)
//@ header
    ensures r == (match self { IAttrValue::Value(s, _) => s@ == value@, IAttrValue::True => value@.len() == 0 }),
//@ emit
}
/// TRUSTED: `str::is_empty`
#[verifier::external_body]
fn vx_no_text(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0),
{ s.is_empty() }
//@ fn mesdoc/rules/id.rs has_id
//@ prop C02
//@ ret r
//@ rule optmap
//@ header
    ensures r == idm(id_of(ele), id@),
//@ emit
impl<'a> Elements<'a> {
//@ contract query.vx Elements::has_ele
//@ emit
}
// ---------------------------------------------------------------- all descendants
/// above the heights of all of s
spec fn over(s: Seq<int>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { let t = over(s.drop_last()); if t > height(s.last()) { t } else { height(s.last()) + 1 } } }
proof fn lemma_over(s: Seq<int>, i: int)
    requires 0 <= i < s.len(),
    ensures height(s[i]) < over(s),
    decreases s.len(),
{ if i < s.len() - 1 { lemma_over(s.drop_last(), i); } }
proof fn lemma_over_of(s: Seq<int>, b: nat)
    requires forall|i: int| 0 <= i < s.len() ==> height(#[trigger] s[i]) < b,
    ensures over(s) <= b,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies height(#[trigger] s.drop_last()[i]) < b by { assert(s.drop_last()[i] == s[i]); }
        lemma_over_of(s.drop_last(), b);
        assert(height(s[s.len() - 1]) < b);
    }
}
/// below e: a child element, or below one
proof fn lemma_below(e: int, n: int)
    ensures rel(ChildrenAll, e, n) == (elkids(e).contains(n) || from(elkids(e), ChildrenAll, n)),
{
    lemma_elkids(e);
    axiom_tree(e);
    let k = elkids(e);
    if rel(ChildrenAll, e, n) {
        let i = lemma_anc_kid(e, n);
        let c = kids(e)[i];
        axiom_tree(c);
        lemma_kid(e, i);
        if c != n { assert(is_el(c)); assert(k.contains(c)); let j = choose|j: int| 0 <= j < k.len() && k[j] == c; assert(rel(ChildrenAll, k[j], n)); } else { assert(k.contains(n)); }
    }
    if k.contains(n) { let j = choose|j: int| 0 <= j < k.len() && k[j] == n; assert(par(n) == Some(e)); axiom_tree(n); lemma_kid(e, idx(n) as int); }
    if from(k, ChildrenAll, n) {
        let j = choose|j: int| 0 <= j < k.len() && rel(ChildrenAll, #[trigger] k[j], n);
        assert(k.contains(k[j]));
        axiom_tree(k[j]);
        lemma_kid(e, idx(k[j]) as int);
        lemma_anc_trans(e, k[j], n);
    }
}
spec fn below_with(s: Seq<int>, id: Seq<char>, n: int) -> bool { idm(n, id) && from(s, ChildrenAll, n) }
proof fn lemma_from_take(s: Seq<int>, k: int, c: Combinator, n: int)
    requires 0 <= k < s.len(),
    ensures from(s.take(k + 1), c, n) == (from(s.take(k), c, n) || rel(c, s[k], n)),
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); lemma_from_push(s.take(k), s[k], c, n); }
//@ fn mesdoc/rules/id.rs find_by_id
//@ prop C02
//@ header
    ensures forall|n: int| #[trigger] final(result).ids().contains(n) <==> old(result).ids().contains(n) || below_with(eles.ids(), id@, n),
    decreases over(eles.ids()),
//@ at start
    let ghost s = eles.ids();
    let ghost was = result.ids();
    proof { assert(s.take(0) =~= Seq::<int>::empty()); }
//@ loop 0
    invariant
        s == eles.ids(), __s0@ == eles.nodes@, __i0 <= __s0.len(),
        forall|n: int| #[trigger] result.ids().contains(n) <==> was.contains(n) || below_with(s.take(__i0 as int), id@, n),
//@ at loop-start 0
    let ghost had = result.ids();
    let ghost e = s[__i0 - 1];
    let ghost k = elkids(e);
    proof { assert(e == id_of(ele)); assert(k.take(0) =~= Seq::<int>::empty()); lemma_elkids(e); }
//@ loop 1
    invariant
        __s1@ == childs.nodes@, childs.ids() == k, __i1 <= __s1.len(),
        forall|n: int| #[trigger] result.ids().contains(n) <==> had.contains(n) || (idm(n, id@) && k.take(__i1 as int).contains(n)),
//@ at loop-start 1
    let ghost now = result.ids();
    proof {
        let x = k[__i1 - 1];
        assert(x == id_of(child));
        lemma_contains_push(k.take(__i1 - 1), x);
        assert(k.take(__i1 as int) =~= k.take(__i1 - 1).push(x));
        lemma_contains_push(now, x);
    }
//@ at before find_by_id(&childs, id, result);
    let ghost mid = result.ids();
    proof {
        assert(k.take(k.len() as int) =~= k);
        assert forall|i: int| 0 <= i < k.len() implies height(#[trigger] k[i]) < height(e) by { assert(k.contains(k[i])); axiom_tree(k[i]); }
        lemma_over_of(k, height(e));
        lemma_over(s, __i0 - 1);
    }
//@ at loop-end 0
    proof {
        assert forall|n: int| #[trigger] result.ids().contains(n) <==> was.contains(n) || below_with(s.take(__i0 as int), id@, n) by {
            lemma_below(e, n);
            lemma_from_take(s, __i0 - 1, ChildrenAll, n);
            assert(result.ids().contains(n) <==> mid.contains(n) || below_with(k, id@, n));
            assert(mid.contains(n) <==> had.contains(n) || (idm(n, id@) && k.contains(n)));
            assert(had.contains(n) <==> was.contains(n) || below_with(s.take(__i0 - 1), id@, n));
        }
    }
//@ at loop-exit 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@ emit
// ---------------------------------------------------------------- the matcher of '#id'
/// the element below s that has the id is the only one
proof fn lemma_only(s: Seq<int>, id: Seq<char>, x: int)
    requires good(s), s.len() > 0, idm(x, id), is_el(x), from(s, ChildrenAll, x),
    ensures cached(s, idf(id), seq![x]),
{
    let r = seq![x];
    let i = choose|i: int| 0 <= i < s.len() && rel(ChildrenAll, #[trigger] s[i], x);
    lemma_anc_path(s[i], x);
    assert(root(s[i]) == root(s[0]));
    assert forall|n: int| idf(id)(n) && #[trigger] from(s, ChildrenAll, n) implies r.contains(n) by {
        let j = choose|j: int| 0 <= j < s.len() && rel(ChildrenAll, #[trigger] s[j], n);
        lemma_anc_path(s[j], n);
        assert(root(s[j]) == root(s[0]));
        axiom_unique(n, x, id);
        assert(r[0] == x);
    }
}
proof fn lemma_found(s: Seq<int>, id: Seq<char>, r: Seq<int>)
    requires good(s), forall|n: int| #[trigger] r.contains(n) <==> below_with(s, id, n),
    ensures cached(s, idf(id), r),
{
    assert forall|n: int| #[trigger] r.contains(n) implies idf(id)(n) && is_el(n) && (s.len() > 0 && root(n) == root(s[0])) by {
        assert(below_with(s, id, n));
        let j = choose|j: int| 0 <= j < s.len() && rel(ChildrenAll, #[trigger] s[j], n);
        lemma_anc_path(s[j], n);
        assert(root(s[j]) == root(s[0]));
    }
    assert forall|n: int| idf(id)(n) && #[trigger] from(s, ChildrenAll, n) implies r.contains(n) by { assert(below_with(s, id, n)); }
}
//@ closure mesdoc/rules/id.rs init all_handle as id_all
//@ prop C02
//@ sig
fn id_all<'a, 'r>(id: String, eles: &'a Elements<'r>, use_cache: Option<bool>) -> (r: Elements<'r>)
//@ header
    requires
        use_cache != Some(true) ==> grouped(eles.ids()) && els(eles.ids()),
        use_cache == Some(true) ==> good(eles.ids()),
    ensures
        use_cache != Some(true) ==> matching(eles.ids(), idf(id@), r.ids()),
        use_cache == Some(true) ==> cached(eles.ids(), idf(id@), r.ids()),
//@ at start
    let ghost s = eles.ids();
    let ghost f = idf(id@);
    let ghost all = use_cache == Some(true);
//@ at pre-loop 0
    proof { lemma_kept_none(s, f); }
//@ loop 0
    invariant
        __s0@ == eles.nodes@, __i0 <= __s0.len(), s == eles.ids(), f == idf(id@), !all,
        kept(s, f, __i0 as int, result.ids()),
//@ at loop-start 0
    proof { lemma_kept(s, f, __i0 - 1, result.ids()); assert(s[__i0 - 1] == id_of(ele)); }
//@ at loop-exit 0
    proof { lemma_kept_all(s, f, result.ids()); }
//@ at before result.push(id_element);
    proof { lemma_only(s, id@, id_of(&id_element)); lemma_contains_push(result.ids(), id_of(&id_element)); }
//@ at after find_by_id(eles, &id, &mut result);
    proof { lemma_found(s, id@, result.ids()); }
//@ emit
}
fn main() {}
