//@ emit
// ---------------------------------------------------------------- relations between elements
use Combinator::*;
//@ item mesdoc/selector/mod.rs Combinator Clone Copy PartialEq Eq Structural
//@ emit
/// the document itself, which is no element
uninterp spec fn is_doc(n: int) -> bool;
/// ASSUMED: the document is the top of its tree
axiom fn axiom_doc(n: int)
    ensures is_doc(n) ==> par(n) is None && !is_el(n), par(n) is None && kids(n).len() > 0 && !is_doc(n) ==> is_el(n);
impl<'a> Ele<'a> {
    #[verifier::external_body]
    fn is_root_element(&self) -> (r: bool)
        ensures r == is_doc(id_of(self)),
    { unimplemented!() }
}
/// n stands to e as the combinator says
spec fn rel(c: Combinator, e: int, n: int) -> bool {
    match c {
        ChildrenAll => anc(e, n) && is_el(n),
        Children => par(n) == Some(e) && is_el(n),
        Parent => par(e) == Some(n) && !is_doc(n),
        ParentAll => anc(n, e) && !is_doc(n),
        NextAll => nexts(e).contains(n),
        Next => nexts(e).len() > 0 && nexts(e)[0] == n,
        PrevAll => prevs(e).contains(n),
        Prev => prevs(e).len() > 0 && prevs(e).last() == n,
        Siblings => prevs(e).contains(n) || nexts(e).contains(n),
        Chain => e == n,
    }
}
spec fn from(s: Seq<int>, c: Combinator, n: int) -> bool { exists|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], n) }
/// all of one tree
spec fn one(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> root(#[trigger] s[i]) == root(#[trigger] s[j]) }
/// elements, or the document
spec fn els(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_el(#[trigger] s[i]) || par(s[i]) is None }
/// what every set is: in document order, of one tree, elements
spec fn good(s: Seq<int>) -> bool { sorted(s) && one(s) && els(s) }
/// siblings keep their order, nothing twice
spec fn grouped(s: Seq<int>) -> bool {
    s.no_duplicates() && forall|i: int, j: int| 0 <= i < j < s.len() && par(#[trigger] s[i]) is Some && par(s[i]) == par(#[trigger] s[j]) ==> idx(s[i]) < idx(s[j])
}
/// what a filter has to give
spec fn matching(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>) -> bool {
    &&& forall|n: int| #[trigger] r.contains(n) <==> s.contains(n) && f(n)
    &&& sorted(s) ==> sorted(r)
}
proof fn lemma_one_root(s: Seq<int>)
    requires one(s),
    ensures exists|r: int| one_root(s, r), s.len() > 0 ==> one_root(s, root(s[0])),
{ if s.len() > 0 { assert(one_root(s, root(s[0]))); } else { assert(one_root(s, 0)); } }
proof fn lemma_anc_path(a: int, n: int)
    requires anc(a, n),
    ensures prefix(path(a), path(n)), root(a) == root(n), depth(a) < depth(n), height(n) < height(a),
    decreases depth(n),
{
    axiom_tree(n);
    lemma_path_len(n);
    let p = par(n)->0;
    if p != a { lemma_anc_path(a, p); }
}
proof fn lemma_path_anc(a: int, n: int)
    requires prefix(path(a), path(n)), root(a) == root(n),
    ensures anc(a, n),
    decreases depth(n),
{
    axiom_tree(n);
    lemma_path_len(n);
    lemma_path_len(a);
    let p = par(n)->0;
    if path(a).len() == path(p).len() {
        assert(path(a) =~= path(p));
        lemma_path_inj(a, p);
    } else {
        assert(prefix(path(a), path(p)));
        lemma_path_anc(a, p);
    }
}
proof fn lemma_anc_trans(a: int, b: int, c: int)
    requires anc(a, b), anc(b, c),
    ensures anc(a, c),
    decreases depth(c),
{ axiom_tree(c); let p = par(c)->0; if p != b { lemma_anc_trans(a, b, p); } }
proof fn lemma_anc_before(a: int, n: int)
    requires anc(a, n),
    ensures before(a, n),
{ lemma_anc_path(a, n); lemma_lt_at(path(a), path(n), path(a).len() as int); }
/// d lies below n: below or at one child of n
proof fn lemma_anc_kid(n: int, d: int) -> (i: int)
    requires anc(n, d),
    ensures 0 <= i < kids(n).len(), kids(n)[i] == d || anc(kids(n)[i], d), kids(n)[i] != d ==> kids(kids(n)[i]).len() > 0,
    decreases depth(d),
{
    axiom_tree(d);
    let p = par(d)->0;
    if p == n { idx(d) as int } else {
        let i = lemma_anc_kid(n, p);
        axiom_tree(n);
        if kids(n)[i] == p { axiom_tree(p); }
        i
    }
}
proof fn lemma_kid(n: int, i: int)
    requires 0 <= i < kids(n).len(),
    ensures par(kids(n)[i]) == Some(n), idx(kids(n)[i]) == i, path(kids(n)[i]) == path(n).push(i as usize), anc(n, kids(n)[i]),
        height(kids(n)[i]) < height(n), depth(kids(n)[i]) == depth(n) + 1, root(kids(n)[i]) == root(n), i < usize::MAX,
{
    axiom_tree(n);
    axiom_tree(kids(n)[i]);
    lemma_path_len(kids(n)[i]);
}
// ---------------------------------------------------------------- child elements
proof fn lemma_filter_props(s: Seq<int>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        forall|x: int| #[trigger] s.take(k).filter(el()).contains(x) <==> is_el(x) && exists|i: int| 0 <= i < k && s[i] == x,
    decreases k,
{
    if k == 0 { lemma_filter_none(s.take(0)); } else {
        lemma_filter_props(s, k - 1);
        lemma_filter_at(s, k - 1);
        let a = s.take(k - 1).filter(el());
        let b = s.take(k).filter(el());
        assert forall|x: int| #[trigger] b.contains(x) <==> is_el(x) && exists|i: int| 0 <= i < k && s[i] == x by {
            if is_el(s[k - 1]) {
                assert(b == a.push(s[k - 1]));
                if b.contains(x) {
                    let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
                    if i < a.len() { assert(a[i] == x); assert(a.contains(x)); }
                }
                if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
                if s[k - 1] == x { assert(b[a.len() as int] == x); }
            }
            if b.contains(x) && a.contains(x) { let i = choose|i: int| 0 <= i < k - 1 && s[i] == x; assert(s[i] == x); }
            if is_el(x) && exists|i: int| 0 <= i < k && s[i] == x {
                let i = choose|i: int| 0 <= i < k && s[i] == x;
                if i < k - 1 { assert(a.contains(x)); }
            }
        }
    }
}
/// the child elements in the order of their positions
proof fn lemma_elkids_upto(n: int, a: int, k: int)
    requires 0 <= a <= k <= kids(n).len(),
    ensures ({
        let e = kids(n).subrange(a, k).filter(el());
        &&& forall|x: int| #[trigger] e.contains(x) <==> is_el(x) && par(x) == Some(n) && a <= idx(x) < k
        &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> idx(#[trigger] e[i]) < idx(#[trigger] e[j])
    }),
    decreases k - a,
{
    let s = kids(n);
    axiom_tree(n);
    if k == a { lemma_filter_none(s.subrange(a, a)); } else {
        lemma_elkids_upto(n, a, k - 1);
        lemma_filter_sub(s, a, k - 1);
        let e0 = s.subrange(a, k - 1).filter(el());
        let e = s.subrange(a, k).filter(el());
        assert forall|x: int| #[trigger] e.contains(x) <==> is_el(x) && par(x) == Some(n) && a <= idx(x) < k by {
            axiom_tree(x);
            if e.contains(x) {
                let i = choose|i: int| 0 <= i < e.len() && e[i] == x;
                if i < e0.len() { assert(e0[i] == x); assert(e0.contains(x)); }
            }
            if is_el(x) && par(x) == Some(n) && a <= idx(x) < k {
                if idx(x) == k - 1 { assert(e[e.len() - 1] == x); }
                else { assert(e0.contains(x)); let i = choose|i: int| 0 <= i < e0.len() && e0[i] == x; assert(e[i] == x); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies idx(#[trigger] e[i]) < idx(#[trigger] e[j]) by {
            if j < e0.len() { assert(e0[i] == e[i] && e0[j] == e[j]); } else { assert(e0[i] == e[i]); assert(e0.contains(e0[i])); }
        }
    }
}
proof fn lemma_elkids(n: int)
    ensures
        forall|x: int| #[trigger] elkids(n).contains(x) <==> is_el(x) && par(x) == Some(n),
        forall|i: int, j: int| 0 <= i < j < elkids(n).len() ==> idx(#[trigger] elkids(n)[i]) < idx(#[trigger] elkids(n)[j]),
        forall|i: int| 0 <= i < elkids(n).len() ==> is_el(#[trigger] elkids(n)[i]) && par(elkids(n)[i]) == Some(n),
        elkids(n).len() <= kids(n).len(),
        good(elkids(n)),
{
    let s = kids(n);
    assert(s.subrange(0, s.len() as int) =~= s);
    lemma_elkids_upto(n, 0, s.len() as int);
    assert forall|x: int| #[trigger] elkids(n).contains(x) <==> is_el(x) && par(x) == Some(n) by { axiom_tree(x); axiom_tree(n); }
    assert forall|i: int| 0 <= i < elkids(n).len() implies is_el(#[trigger] elkids(n)[i]) && par(elkids(n)[i]) == Some(n) by { assert(elkids(n).contains(elkids(n)[i])); }
    lemma_filter_len(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    lemma_sib_good(elkids(n));
}
proof fn lemma_filter_len(s: Seq<int>, k: int)
    requires 0 <= k <= s.len(),
    ensures s.take(k).filter(el()).len() <= k,
    decreases k,
{ if k == 0 { lemma_filter_none(s.take(0)); } else { lemma_filter_len(s, k - 1); lemma_filter_at(s, k - 1); } }
/// siblings in the order of their positions stand in document order
proof fn lemma_sib_good(s: Seq<int>)
    requires
        forall|i: int, j: int| 0 <= i < j < s.len() ==> idx(#[trigger] s[i]) < idx(#[trigger] s[j]),
        forall|i: int| 0 <= i < s.len() ==> is_el(#[trigger] s[i]) && par(s[i]) is Some,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> par(#[trigger] s[i]) == par(#[trigger] s[j]),
    ensures good(s),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies before(#[trigger] s[i], #[trigger] s[j]) by { lemma_sib_before(s[i], s[j]); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies root(#[trigger] s[i]) == root(#[trigger] s[j]) by {
        lemma_path_len(s[i]);
        lemma_path_len(s[j]);
    }
}
proof fn lemma_sib_before(a: int, b: int)
    requires par(a) is Some, par(a) == par(b), idx(a) < idx(b),
    ensures before(a, b),
{
    lemma_path_len(a);
    lemma_path_len(b);
    let k = path(a).len() - 1;
    assert(lt_at(path(a), path(b), k));
    lemma_lt_at(path(a), path(b), k);
}
proof fn lemma_before_sib(a: int, b: int)
    requires par(a) is Some, par(a) == par(b), before(a, b),
    ensures idx(a) < idx(b),
{
    if idx(b) < idx(a) { lemma_sib_before(b, a); lemma_lt_asym(path(a), path(b)); }
    if idx(a) == idx(b) { lemma_path_len(a); lemma_path_len(b); lemma_lt_irrefl(path(a)); }
}
/// the elements behind and before an element
proof fn lemma_nexts(n: int)
    ensures
        forall|x: int| #[trigger] nexts(n).contains(x) <==> is_el(x) && par(n) is Some && par(x) == par(n) && idx(n) < idx(x),
        forall|i: int, j: int| 0 <= i < j < nexts(n).len() ==> idx(#[trigger] nexts(n)[i]) < idx(#[trigger] nexts(n)[j]),
        forall|i: int| 0 <= i < nexts(n).len() ==> is_el(#[trigger] nexts(n)[i]) && par(nexts(n)[i]) == par(n) && par(n) is Some && idx(n) < idx(nexts(n)[i]),
        good(nexts(n)),
{
    axiom_tree(n);
    if let Some(p) = par(n) {
        axiom_tree(p);
        lemma_elkids_upto(p, idx(n) + 1, kids(p).len() as int);
        assert forall|x: int| #[trigger] nexts(n).contains(x) <==> is_el(x) && par(n) is Some && par(x) == par(n) && idx(n) < idx(x) by { axiom_tree(x); }
        assert forall|i: int| 0 <= i < nexts(n).len() implies is_el(#[trigger] nexts(n)[i]) && par(nexts(n)[i]) == par(n) && par(n) is Some && idx(n) < idx(nexts(n)[i]) by { assert(nexts(n).contains(nexts(n)[i])); }
        lemma_sib_good(nexts(n));
    }
}
proof fn lemma_prevs(n: int)
    ensures
        forall|x: int| #[trigger] prevs(n).contains(x) <==> is_el(x) && par(n) is Some && par(x) == par(n) && idx(x) < idx(n),
        forall|i: int, j: int| 0 <= i < j < prevs(n).len() ==> idx(#[trigger] prevs(n)[i]) < idx(#[trigger] prevs(n)[j]),
        forall|i: int| 0 <= i < prevs(n).len() ==> is_el(#[trigger] prevs(n)[i]) && par(prevs(n)[i]) == par(n) && par(n) is Some && idx(prevs(n)[i]) < idx(n),
        good(prevs(n)),
{
    axiom_tree(n);
    if let Some(p) = par(n) {
        axiom_tree(p);
        lemma_elkids_upto(p, 0, idx(n) as int);
        assert forall|i: int| 0 <= i < prevs(n).len() implies is_el(#[trigger] prevs(n)[i]) && par(prevs(n)[i]) == par(n) && par(n) is Some && idx(prevs(n)[i]) < idx(n) by { assert(prevs(n).contains(prevs(n)[i])); }
        lemma_sib_good(prevs(n));
    }
}
/// whatever a combinator reaches is of the same tree, and an element
proof fn lemma_rel(c: Combinator, e: int, n: int)
    requires rel(c, e, n), is_el(e) || par(e) is None,
    ensures root(n) == root(e), is_el(n) || par(n) is None, !(c is Chain) ==> is_el(n),
{
    axiom_tree(e);
    axiom_tree(n);
    lemma_path_len(e);
    lemma_path_len(n);
    lemma_nexts(e);
    lemma_prevs(e);
    axiom_doc(n);
    match c {
        ChildrenAll => { lemma_anc_path(e, n); }
        Children => {}
        Parent => { axiom_tree(n); }
        ParentAll => {
            lemma_anc_path(n, e);
            let i = lemma_anc_kid(n, e);
        }
        NextAll => { lemma_path_len(n); }
        Next => { assert(nexts(e).contains(n)); }
        PrevAll => {}
        Prev => { assert(prevs(e).contains(n)); }
        Siblings => {}
        Chain => {}
    }
}
