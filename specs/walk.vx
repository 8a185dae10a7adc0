//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include rep.vx
//@ emit
// ---------------------------------------------------------------- proved in unit order
//@ contract order.vx get_tree_indexs
//@ emit
impl<'a> Elements<'a> {
//@ contract order.vx Elements::sort_and_unique
//@ contract order.vx Elements::unique_parents
//@ emit
}
impl Matcher {
//@ fn mesdoc/selector/rule.rs Matcher::apply
//@ prop C02 C11 C16
//@ ret r
//@ rule call handle
//@ rule text &**ele => ele
//@ header
    requires
        wf(self),
        use_cache != Some(true) ==> grouped(eles.ids()) && els(eles.ids()),
        use_cache == Some(true) ==> self.in_cache && good(eles.ids()),
        use_cache == Some(false) ==> exists|p: int| eles.ids() == elkids(p),
    ensures
        use_cache != Some(true) ==> matching(eles.ids(), mt_fn(self), r.ids()),
        use_cache == Some(true) ==> cached(eles.ids(), mt_fn(self), r.ids()),
//@ loop 0
    invariant
        __s0@ == eles.nodes@, __i0 <= __s0.len(), handle == self.one_handle->0, self.one_handle is Some,
        kept(eles.ids(), mt_fn(self), __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_kept_none(eles.ids(), mt_fn(self)); }
//@ at loop-start 0
    proof { lemma_kept(eles.ids(), mt_fn(self), __i0 - 1, result.ids()); assert(eles.ids()[__i0 - 1] == id_of(ele)); }
//@ at loop-exit 0
    proof { lemma_kept_all(eles.ids(), mt_fn(self), result.ids()); }
//@ fn mesdoc/selector/rule.rs Matcher::get_all_handle
//@ prop C02
//@ ret r
//@ header
    requires self.all_handle is Some,
    ensures *r == self.all_handle->0,
//@ emit
}
//@ include kept.vx
//@ emit
// ---------------------------------------------------------------- descendants, in document order
spec fn pick(f: spec_fn(int) -> bool, c: int) -> Seq<int> { if f(c) { seq![c] } else { Seq::empty() } }
/// what f holds for among the first k child elements of n and below them, depth first
spec fn pre_k(n: int, k: nat, f: spec_fn(int) -> bool) -> Seq<int>
    decreases height(n), k,
{
    if k == 0 || k > elkids(n).len() { Seq::empty() } else {
        let c = elkids(n)[k - 1];
        pre_k(n, (k - 1) as nat, f) + pick(f, c) + (if height(c) < height(n) { pre_k(c, elkids(c).len(), f) } else { Seq::empty() })
    }
}
spec fn pre(n: int, f: spec_fn(int) -> bool) -> Seq<int> { pre_k(n, elkids(n).len(), f) }
proof fn lemma_pre_step(n: int, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k < elkids(n).len(),
    ensures
        pre_k(n, (k + 1) as nat, f) == pre_k(n, k as nat, f) + pick(f, elkids(n)[k]) + pre(elkids(n)[k], f),
        kids(elkids(n)[k]).len() == 0 ==> pre(elkids(n)[k], f) == Seq::<int>::empty(),
        height(elkids(n)[k]) < height(n), is_el(elkids(n)[k]), par(elkids(n)[k]) == Some(n),
{
    lemma_elkids(n);
    let c = elkids(n)[k];
    axiom_tree(c);
    lemma_elkids(c);
}
/// d lies below the first k child elements of n, or is one of them
spec fn under(n: int, k: int, d: int) -> bool { exists|i: int| 0 <= i < k && i < elkids(n).len() && (#[trigger] elkids(n)[i] == d || anc(elkids(n)[i], d)) }
proof fn lemma_under_all(n: int, d: int)
    ensures is_el(d) ==> under(n, elkids(n).len() as int, d) == anc(n, d),
{
    lemma_elkids(n);
    if is_el(d) {
        if anc(n, d) {
            let i = lemma_anc_kid(n, d);
            lemma_kid(n, i);
            let c = kids(n)[i];
            axiom_tree(c);
            assert(is_el(c));
            assert(elkids(n).contains(c));
            let j = choose|j: int| 0 <= j < elkids(n).len() && elkids(n)[j] == c;
            assert(elkids(n)[j] == c);
        }
        if under(n, elkids(n).len() as int, d) {
            let i = choose|i: int| 0 <= i < elkids(n).len() && (#[trigger] elkids(n)[i] == d || anc(elkids(n)[i], d));
            let c = elkids(n)[i];
            axiom_tree(c);
            assert(anc(n, c));
            if c != d { lemma_anc_trans(n, c, d); }
        }
    }
}
proof fn lemma_pre_members(n: int, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= elkids(n).len(),
    ensures forall|d: int| #[trigger] pre_k(n, k as nat, f).contains(d) <==> is_el(d) && f(d) && under(n, k, d),
    decreases height(n), k,
{
    let r = pre_k(n, k as nat, f);
    if k > 0 {
        lemma_pre_step(n, k - 1, f);
        let c = elkids(n)[k - 1];
        lemma_pre_members(n, k - 1, f);
        lemma_pre_members(c, elkids(c).len() as int, f);
        let a = pre_k(n, (k - 1) as nat, f);
        lemma_contains_add(a, pick(f, c));
        lemma_contains_add(a + pick(f, c), pre(c, f));
        let b = a + pick(f, c);
        assert(r == b + pre(c, f));
        let m = elkids(c).len() as int;
        assert(pre(c, f) == pre_k(c, m as nat, f));
        assert forall|d: int| #[trigger] pre(c, f).contains(d) <==> is_el(d) && f(d) && under(c, m, d) by {
            assert(pre_k(c, m as nat, f).contains(d) <==> is_el(d) && f(d) && under(c, m, d));
        }
        assert forall|d: int| #[trigger] r.contains(d) implies is_el(d) && f(d) && under(n, k, d) by {
            lemma_under_all(c, d);
            if a.contains(d) {
                let i = choose|i: int| 0 <= i < k - 1 && i < elkids(n).len() && (#[trigger] elkids(n)[i] == d || anc(elkids(n)[i], d));
                assert(elkids(n)[i] == d || anc(elkids(n)[i], d));
            } else if pick(f, c).contains(d) {
                assert(d == c && f(c));
                assert(elkids(n)[k - 1] == d);
            } else {
                assert(b.contains(d) <==> a.contains(d) || pick(f, c).contains(d));
                assert(pre(c, f).contains(d));
                assert(anc(elkids(n)[k - 1], d));
            }
        }
        assert forall|d: int| is_el(d) && f(d) && under(n, k, d) implies #[trigger] r.contains(d) by {
            lemma_under_all(c, d);
            let i = choose|i: int| 0 <= i < k && i < elkids(n).len() && (#[trigger] elkids(n)[i] == d || anc(elkids(n)[i], d));
            if i < k - 1 { assert(under(n, k - 1, d)); assert(a.contains(d)); assert(b.contains(d)); }
            else if c == d { assert(pick(f, c)[0] == d); assert(pick(f, c).contains(d)); assert(b.contains(d)); }
            else { assert(anc(c, d)); assert(pre(c, f).contains(d)); }
        }
    }
}
spec fn at_or_below(a: int, x: int) -> bool { a == x || anc(a, x) }
/// two nodes apart, the first before the second: everything below the first is before everything below the second
proof fn lemma_apart(a: int, b: int, x: int, y: int)
    requires before(a, b), !prefix(path(a), path(b)), at_or_below(a, x), at_or_below(b, y),
    ensures before(x, y),
{
    reveal(lt);
    let k = choose|k: int| #[trigger] lt_at(path(a), path(b), k);
    assert(k < path(a).len());
    if a != x { lemma_anc_path(a, x); }
    if b != y { lemma_anc_path(b, y); }
    assert(lt_at(path(x), path(y), k));
}
proof fn lemma_sib_apart(a: int, b: int)
    requires par(a) is Some, par(a) == par(b), idx(a) < idx(b),
    ensures before(a, b), !prefix(path(a), path(b)),
{
    lemma_sib_before(a, b);
    lemma_path_len(a);
    lemma_path_len(b);
}
proof fn lemma_sorted_add(a: Seq<int>, b: Seq<int>)
    requires sorted(a), sorted(b), forall|x: int, y: int| a.contains(x) && b.contains(y) ==> before(x, y),
    ensures sorted(a + b),
{
    let q = a + b;
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies before(#[trigger] q[i], #[trigger] q[j]) by {
        if j < a.len() { lemma_sorted_at(a, i, j); }
        else if i >= a.len() { lemma_sorted_at(b, i - a.len(), j - a.len()); }
        else { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
    }
}
proof fn lemma_pre_sorted(n: int, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= elkids(n).len(),
    ensures sorted(pre_k(n, k as nat, f)),
    decreases height(n), k,
{
    if k > 0 {
        lemma_pre_step(n, k - 1, f);
        let c = elkids(n)[k - 1];
        lemma_pre_sorted(n, k - 1, f);
        lemma_pre_sorted(c, elkids(c).len() as int, f);
        lemma_pre_members(n, k - 1, f);
        lemma_pre_members(c, elkids(c).len() as int, f);
        lemma_elkids(n);
        let a = pre_k(n, (k - 1) as nat, f);
        assert forall|x: int, y: int| a.contains(x) && at_or_below(c, y) implies before(x, y) by {
            let i = choose|i: int| 0 <= i < k - 1 && i < elkids(n).len() && (#[trigger] elkids(n)[i] == x || anc(elkids(n)[i], x));
            lemma_sib_apart(elkids(n)[i], c);
            lemma_apart(elkids(n)[i], c, x, y);
        }
        lemma_sorted_add(a, pick(f, c));
        assert forall|x: int, y: int| (a + pick(f, c)).contains(x) && pre(c, f).contains(y) implies before(x, y) by {
            lemma_under_all(c, y);
            lemma_contains_add(a, pick(f, c));
            if pick(f, c).contains(x) { assert(x == c); lemma_anc_before(c, y); }
        }
        lemma_sorted_add(a + pick(f, c), pre(c, f));
    }
}
proof fn lemma_pre(n: int, f: spec_fn(int) -> bool)
    ensures sorted(pre(n, f)), forall|d: int| #[trigger] pre(n, f).contains(d) <==> rel(ChildrenAll, n, d) && f(d),
{
    lemma_pre_sorted(n, elkids(n).len() as int, f);
    lemma_pre_members(n, elkids(n).len() as int, f);
    assert forall|d: int| #[trigger] pre(n, f).contains(d) <==> rel(ChildrenAll, n, d) && f(d) by { lemma_under_all(n, d); }
}
/// the walks below the first k of t, one after the other
spec fn pres(t: Seq<int>, k: int, f: spec_fn(int) -> bool) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else { pres(t, k - 1, f) + pre(t[k - 1], f) } }
proof fn lemma_pres_members(t: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= t.len(),
    ensures forall|d: int| #[trigger] pres(t, k, f).contains(d) <==> f(d) && from(t.take(k), ChildrenAll, d),
    decreases k,
{
    if k > 0 {
        lemma_pres_members(t, k - 1, f);
        lemma_pre(t[k - 1], f);
        lemma_contains_add(pres(t, k - 1, f), pre(t[k - 1], f));
        assert forall|d: int| #[trigger] pres(t, k, f).contains(d) <==> f(d) && from(t.take(k), ChildrenAll, d) by {
            lemma_from_push(t.take(k - 1), t[k - 1], ChildrenAll, d);
            assert(t.take(k) =~= t.take(k - 1).push(t[k - 1]));
        }
    }
}
proof fn lemma_pres_sorted(t: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= t.len(), sorted(t), forall|i: int, j: int| 0 <= i < j < t.len() ==> !prefix(path(#[trigger] t[i]), path(#[trigger] t[j])),
    ensures sorted(pres(t, k, f)),
    decreases k,
{
    if k > 0 {
        lemma_pres_sorted(t, k - 1, f);
        lemma_pres_members(t, k - 1, f);
        lemma_pre(t[k - 1], f);
        assert forall|x: int, y: int| pres(t, k - 1, f).contains(x) && pre(t[k - 1], f).contains(y) implies before(x, y) by {
            let i = choose|i: int| 0 <= i < k - 1 && rel(ChildrenAll, #[trigger] t.take(k - 1)[i], x);
            lemma_sorted_at(t, i, k - 1);
            lemma_apart(t[i], t[k - 1], x, y);
        }
        lemma_sorted_add(pres(t, k - 1, f), pre(t[k - 1], f));
    }
}
/// every element lies at or below one of the tops
proof fn lemma_tops_cover(s: Seq<int>, t: Seq<int>, e: int) -> (a: int)
    requires tops(s, t), s.contains(e), one(s),
    ensures t.contains(a), at_or_below(a, e),
    decreases depth(e),
{
    if covered(s, e) {
        let i = choose|i: int| 0 <= i < s.len() && prefix(path(#[trigger] s[i]), path(e));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == e;
        assert(root(s[i]) == root(s[j]));
        lemma_path_anc(s[i], e);
        lemma_anc_path(s[i], e);
        assert(s.contains(s[i]));
        let a = lemma_tops_cover(s, t, s[i]);
        if a != s[i] { lemma_anc_trans(a, s[i], e); }
        a
    } else {
        assert(t.contains(e));
        e
    }
}
proof fn lemma_tops_from(s: Seq<int>, t: Seq<int>, d: int)
    requires tops(s, t), one(s),
    ensures from(t, ChildrenAll, d) == from(s, ChildrenAll, d),
{
    if from(t, ChildrenAll, d) {
        let i = choose|i: int| 0 <= i < t.len() && rel(ChildrenAll, #[trigger] t[i], d);
        assert(t.contains(t[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i];
        assert(rel(ChildrenAll, s[j], d));
    }
    if from(s, ChildrenAll, d) {
        let i = choose|i: int| 0 <= i < s.len() && rel(ChildrenAll, #[trigger] s[i], d);
        assert(s.contains(s[i]));
        let a = lemma_tops_cover(s, t, s[i]);
        if a != s[i] { lemma_anc_trans(a, s[i], d); }
        let j = choose|j: int| 0 <= j < t.len() && t[j] == a;
        assert(rel(ChildrenAll, t[j], d));
    }
}
proof fn lemma_tops_apart(s: Seq<int>, t: Seq<int>)
    requires tops(s, t),
    ensures forall|i: int, j: int| 0 <= i < j < t.len() ==> !prefix(path(#[trigger] t[i]), path(#[trigger] t[j])),
{
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !prefix(path(#[trigger] t[i]), path(#[trigger] t[j])) by {
        assert(t.contains(t[i]) && t.contains(t[j]));
        let a = choose|a: int| 0 <= a < s.len() && s[a] == t[i];
        if prefix(path(t[i]), path(t[j])) { assert(prefix(path(s[a]), path(t[j]))); }
    }
}
proof fn lemma_walked(s: Seq<int>, t: Seq<int>, f: spec_fn(int) -> bool)
    requires one(s), sorted(s), tops(s, t) || (t == s && s.len() <= 1),
    ensures sorted(pres(t, t.len() as int, f)), stepped(s, ChildrenAll, f, pres(t, t.len() as int, f)),
{
    if tops(s, t) { lemma_tops_apart(s, t); }
    lemma_pres_sorted(t, t.len() as int, f);
    lemma_pres_members(t, t.len() as int, f);
    assert(t.take(t.len() as int) =~= t);
    assert forall|d: int| #[trigger] pres(t, t.len() as int, f).contains(d) <==> f(d) && from(s, ChildrenAll, d) by { if tops(s, t) { lemma_tops_from(s, t, d); } }
}
//@ emit
// ---------------------------------------------------------------- one sibling of each family
/// TRUSTED: std HashSet of positions
#[verifier::external_body]
struct PathSet;
impl PathSet {
    uninterp spec fn view(&self) -> Set<Seq<usize>>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: PathSet)
        ensures r.view() == Set::<Seq<usize>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get<'b>(&'b self, k: &VecDeque<usize>) -> (r: Option<&'b VecDeque<usize>>)
        ensures r is Some == self.view().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: VecDeque<usize>) -> (r: bool)
        ensures final(self).view() == old(self).view().insert(k@), r == !old(self).view().contains(k@),
    { unimplemented!() }
}
spec fn has_par(u: Seq<int>, p: Option<int>) -> bool { exists|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == p }
/// the first of each family
spec fn us(t: Seq<int>) -> Seq<int>
    decreases t.len(),
{
    if t.len() == 0 { Seq::empty() } else {
        let u = us(t.drop_last());
        if has_par(u, par(t.last())) { u } else { u.push(t.last()) }
    }
}
spec fn ordered(t: Seq<int>, asc: bool) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] ord2(t[i], t[j], asc) }
spec fn ord2(a: int, b: int, asc: bool) -> bool { if asc { before(a, b) } else { before(b, a) } }
spec fn led(u: Seq<int>, e: int, asc: bool) -> bool { exists|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e) && (u[i] == e || ord2(u[i], e, asc)) }
proof fn lemma_us(t: Seq<int>, asc: bool)
    requires ordered(t, asc),
    ensures
        ordered(us(t), asc),
        forall|x: int| #[trigger] us(t).contains(x) ==> t.contains(x),
        forall|i: int, j: int| 0 <= i < j < us(t).len() ==> par(#[trigger] us(t)[i]) != par(#[trigger] us(t)[j]),
        forall|x: int| #[trigger] t.contains(x) ==> led(us(t), x, asc),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = t.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] ord2(d[i], d[j], asc) by { assert(ord2(t[i], t[j], asc)); }
        lemma_us(d, asc);
        let e = t.last();
        let u = us(d);
        let r = us(t);
        assert(d.push(e) =~= t);
        lemma_contains_push(d, e);
        lemma_contains_push(u, e);
        if !has_par(u, par(e)) {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] ord2(r[i], r[j], asc) by {
                if j < u.len() { assert(ord2(u[i], u[j], asc)); } else {
                    assert(u.contains(u[i]));
                    let m = choose|m: int| 0 <= m < d.len() && d[m] == u[i];
                    assert(ord2(t[m], t[t.len() - 1], asc));
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies par(#[trigger] r[i]) != par(#[trigger] r[j]) by {
                if j < u.len() { assert(par(u[i]) != par(u[j])); } else { assert(par(u[i]) != par(e)); }
            }
        }
        assert forall|x: int| #[trigger] t.contains(x) implies led(r, x, asc) by {
            if d.contains(x) {
                let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(x) && (u[i] == x || ord2(u[i], x, asc));
                assert(r[i] == u[i]);
            } else if has_par(u, par(e)) {
                let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e);
                assert(u.contains(u[i]));
                let m = choose|m: int| 0 <= m < d.len() && d[m] == u[i];
                assert(ord2(t[m], t[t.len() - 1], asc));
                assert(r[i] == u[i]);
            } else { assert(r[u.len() as int] == e); }
        }
    }
}
proof fn lemma_reps(s: Seq<int>, t: Seq<int>, u: Seq<int>, asc: bool)
    requires
        sorted(s), t == (if asc { s } else { s.reverse() }), u == (if asc { us(t) } else { us(t).reverse() }),
    ensures reps(s, u, asc),
{
    assert(t.len() == s.len());
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] ord2(t[i], t[j], asc) by {
        if asc { lemma_sorted_at(s, i, j); } else { lemma_sorted_at(s, s.len() - 1 - j, s.len() - 1 - i); }
    }
    lemma_us(t, asc);
    let q = us(t);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies before(#[trigger] u[i], #[trigger] u[j]) && par(u[i]) != par(u[j]) by {
        if asc { assert(ord2(q[i], q[j], asc)); } else { assert(ord2(q[q.len() - 1 - j], q[q.len() - 1 - i], asc)); }
    }
    assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) by {
        let j = if asc { i } else { q.len() - 1 - i };
        assert(q.contains(q[j]));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == q[j];
        if !asc { assert(s[s.len() - 1 - k] == t[k]); }
    }
    assert forall|e: int| #[trigger] s.contains(e) && par(e) is Some implies repped(u, e, asc) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == e;
        assert(t[if asc { k } else { s.len() - 1 - k }] == e);
        assert(t.contains(e));
        let i = choose|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) == par(e) && (q[i] == e || ord2(q[i], e, asc));
        let j = if asc { i } else { q.len() - 1 - i };
        assert(u[j] == q[i]);
        if q[i] != e { if asc { lemma_before_sib(q[i], e); } else { lemma_before_sib(e, q[i]); } }
    }
}
/// what the loop keeps of the elements it has passed, and their parents
spec fn us_state(u: Seq<int>, v: Set<Seq<usize>>, prev: Option<Ele>, has_root: bool, rt: int) -> bool {
    &&& forall|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) is Some ==> root(u[i]) == rt && v.contains(path(par(u[i])->0))
    &&& forall|p: Seq<usize>| #[trigger] v.contains(p) ==> exists|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) is Some && path(par(u[i])->0) == p
    &&& prev matches Some(q) ==> has_par(u, Some(id_of(&q)))
    &&& has_root == has_par(u, None)
}
proof fn lemma_us_path(u: Seq<int>, v: Set<Seq<usize>>, prev: Option<Ele>, has_root: bool, e: int)
    requires us_state(u, v, prev, has_root, root(e)),
    ensures par(e) matches Some(p) ==> v.contains(path(p)) == has_par(u, Some(p)),
{
    if let Some(p) = par(e) {
        lemma_path_len(e);
        if v.contains(path(p)) {
            let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) is Some && path(par(u[i])->0) == path(p);
            lemma_path_len(u[i]);
            lemma_path_inj(par(u[i])->0, p);
        }
        if has_par(u, Some(p)) { let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == Some(p); assert(v.contains(path(par(u[i])->0))); }
    }
}
proof fn lemma_us_push(u: Seq<int>, x: int, p: Option<int>)
    ensures has_par(u.push(x), p) == (has_par(u, p) || par(x) == p),
{
    let q = u.push(x);
    if has_par(q, p) { let i = choose|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) == p; if i < u.len() { assert(par(u[i]) == p); } }
    if has_par(u, p) { let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == p; assert(par(q[i]) == p); }
    if par(x) == p { assert(par(q[u.len() as int]) == p); }
}
proof fn lemma_us_step(u: Seq<int>, v: Set<Seq<usize>>, prev: Option<Ele>, has_root: bool, rt: int, e: int, v2: Set<Seq<usize>>, prev2: Option<Ele>, has_root2: bool)
    requires
        us_state(u, v, prev, has_root, rt), root(e) == rt, !has_par(u, par(e)),
        match par(e) { Some(p) => v2 == v.insert(path(p)) && prev2 is Some && id_of(&prev2->0) == p && has_root2 == has_root, None => v2 == v && prev2 == prev && has_root2 },
    ensures us_state(u.push(e), v2, prev2, has_root2, rt),
{
    let q = u.push(e);
    lemma_us_push(u, e, None);
    lemma_us_push(u, e, par(e));
    if let Some(x) = prev2 { lemma_us_push(u, e, Some(id_of(&x))); }
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some implies root(q[i]) == rt && v2.contains(path(par(q[i])->0)) by {
        if i < u.len() { assert(par(u[i]) is Some); }
    }
    assert forall|p: Seq<usize>| #[trigger] v2.contains(p) implies exists|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some && path(par(q[i])->0) == p by {
        if v.contains(p) {
            let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) is Some && path(par(u[i])->0) == p;
            assert(q[i] == u[i]);
        } else { assert(q[u.len() as int] == e); }
    }
}
//@ closure mesdoc/interface/elements.rs Elements::unique_sibling handle as unique_sibling_step
//@ prop C02 C03
//@ sig
fn unique_sibling_step<'a>(ele: &BoxDynElement<'a>, prev_parent: &mut Option<BoxDynElement<'a>>, parents_indexs: &mut PathSet, uniques: &mut Vec<BoxDynElement<'a>>, has_root: &mut bool)
//@ rule text = &prev_parent => = &*prev_parent
//@ rule text prev_parent = Some => *prev_parent = Some
//@ rule text !has_root => !*has_root
//@ rule text has_root = true => *has_root = true
//@ header
    requires us_state(ids(old(uniques)@), old(parents_indexs).view(), *old(prev_parent), *old(has_root), root(id_of(ele))),
    ensures
        us_state(ids(final(uniques)@), final(parents_indexs).view(), *final(prev_parent), *final(has_root), root(id_of(ele))),
        ids(final(uniques)@) == (if has_par(ids(old(uniques)@), par(id_of(ele))) { ids(old(uniques)@) } else { ids(old(uniques)@).push(id_of(ele)) }),
//@ at start
    let ghost u = ids(old(uniques)@);
    proof { lemma_us_path(u, old(parents_indexs).view(), *old(prev_parent), *old(has_root), id_of(ele)); }
//@ at end
    proof {
        if !has_par(u, par(id_of(ele))) {
            assert(ids(uniques@) =~= u.push(id_of(ele)));
            lemma_us_step(u, old(parents_indexs).view(), *old(prev_parent), *old(has_root), root(id_of(ele)), id_of(ele), parents_indexs.view(), *prev_parent, *has_root);
        } else { assert(ids(uniques@) =~= u); }
    }
//@ emit
/// TRUSTED: Vec::reverse
#[verifier::external_body]
fn vx_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse(),
{ unimplemented!() }
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::unique_sibling
//@ prop C02 C03
//@ ret r
//@ rule lift handle => unique_sibling_step(+&mut~prev_parent,&mut~parents_indexs,&mut~uniques,&mut~has_root)
//@ rule text HashSet<VecDeque<usize>> => PathSet
//@ rule text HashSet::with_capacity => PathSet::with_capacity
//@ rule method reverse => vx_reverse(mut)
//@ header
    requires good(self.ids()),
    ensures reps(self.ids(), r.ids(), asc),
//@ at start
    let ghost s = self.ids();
    let ghost rt = if s.len() > 0 { root(s[0]) } else { 0 };
    proof { assert(us(Seq::<int>::empty()) =~= Seq::<int>::empty()); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), s == self.ids(), one(s), rt == (if s.len() > 0 { root(s[0]) } else { 0 }),
        us_state(ids(uniques@), parents_indexs.view(), prev_parent, has_root, rt),
        ids(uniques@) == us(s.take(__i0 as int)),
//@ at loop-start 0
    proof { assert(s[__i0 - 1] == id_of(ele)); assert(root(s[0]) == root(s[__i0 - 1])); assert(s.take(__i0 as int).drop_last() =~= s.take(__i0 - 1)); }
//@ at loop-exit 0
    proof { assert(s.take(s.len() as int) =~= s); lemma_reps(s, s, ids(uniques@), true); }
//@ loop 1
    invariant
        __s1@ == self.nodes@, __i1 <= __s1.len(), s == self.ids(), one(s), rt == (if s.len() > 0 { root(s[0]) } else { 0 }),
        us_state(ids(uniques@), parents_indexs.view(), prev_parent, has_root, rt),
        ids(uniques@) == us(s.reverse().take(__i1 as int)),
//@ at loop-start 1
    proof { assert(s.reverse()[__i1 - 1] == id_of(ele)); assert(root(s[0]) == root(s[s.len() - __i1])); assert(s.reverse().take(__i1 as int).drop_last() =~= s.reverse().take(__i1 - 1)); }
//@ at after uniques.reverse();
    proof {
        assert(s.reverse().take(s.len() as int) =~= s.reverse());
        assert(ids(uniques@) =~= us(s.reverse()).reverse());
        lemma_reps(s, s.reverse(), ids(uniques@), false);
    }
//@ fn mesdoc/interface/elements.rs Elements::unique_sibling_first
//@ prop C02 C03
//@ ret r
//@ header
    requires good(self.ids()),
    ensures reps(self.ids(), r.ids(), true),
//@ fn mesdoc/interface/elements.rs Elements::unique_sibling_last
//@ prop C02 C03
//@ ret r
//@ header
    requires good(self.ids()),
    ensures reps(self.ids(), r.ids(), false),
//@ emit
}
//@ emit
// ---------------------------------------------------------------- ChildrenAll: the walks
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule/loop_handle#0 as walk_one
//@ prop C02 C03
//@ rule sig &dyn IElementTrait => &Ele
//@ rule cb .children_by => vx_children
//@ rule call handle
//@ header
    ensures final(result).ids() == old(result).ids() + pre(id_of(ele), one_fn(handle)),
    decreases height(id_of(ele)),
//@ at start
    let ghost f = one_fn(handle);
    let ghost n = id_of(ele);
    let ghost r0 = result.ids();
    proof { lemma_elkids(n); }
//@ loop 0
    invariant
        n == id_of(ele), ids(__s0@) == elkids(n), __i0 <= __s0.len(), f == one_fn(handle),
        result.ids() == r0 + pre_k(n, __i0 as nat, f),
//@ at pre-loop 0
    proof { assert(r0 + pre_k(n, 0, f) =~= r0); }
//@ at loop-start 0
    proof { lemma_pre_step(n, __i0 - 1, f); assert(id_of(child) == elkids(n)[__i0 - 1]); }
    let ghost r1 = result.ids();
//@ at loop-end 0
    proof { assert(result.ids() =~= r1 + pick(f, id_of(child)) + pre(id_of(child), f)); assert(result.ids() =~= r0 + pre_k(n, __i0 as nat, f)); }
//@ emit
proof fn lemma_pre_none(n: int, k: nat, f: spec_fn(int) -> bool)
    requires k <= elkids(n).len(), forall|x: int| !#[trigger] f(x),
    ensures pre_k(n, k, f) == Seq::<int>::empty(),
    decreases height(n), k,
{
    if k > 0 {
        let c = elkids(n)[k - 1];
        lemma_pre_none(n, (k - 1) as nat, f);
        lemma_elkids(n);
        assert(elkids(n).contains(c));
        axiom_tree(c);
        lemma_pre_none(c, elkids(c).len(), f);
        lemma_pre_step(n, k - 1, f);
        assert(pre_k(n, k, f) =~= Seq::<int>::empty());
    } else { assert(pre_k(n, 0, f) =~= Seq::<int>::empty()); }
}
proof fn lemma_seqsel_none(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= s.len(), forall|x: int| !#[trigger] f(x),
    ensures seqsel(s, k, f) == Seq::<int>::empty(),
    decreases k,
{ if k > 0 { lemma_seqsel_none(s, k - 1, f); } }
spec fn spec_fn_of(h: &MatchSpecifiedHandle) -> spec_fn(int) -> bool { |n: int| spec_f(h, n) }
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule/loop_handle#1 as walk_specified
//@ prop C02 C03
//@ rule sig &dyn IElementTrait => &Ele
//@ rule cb handle => vx_visits
//@ header
    ensures final(result).ids() == old(result).ids() + pre(id_of(ele), spec_fn_of(handle)),
    decreases height(id_of(ele)),
//@ at start
    let ghost f = spec_fn_of(handle);
    let ghost n = id_of(ele);
    let ghost r0 = result.ids();
    proof { lemma_elkids(n); }
//@ loop 0
    invariant
        n == id_of(ele), visits(handle, n, __s0@), __i0 <= __s0.len(), f == spec_fn_of(handle),
        result.ids() == r0 + pre_k(n, __i0 as nat, f),
//@ at pre-loop 0
    proof { assert(r0 + pre_k(n, 0, f) =~= r0); }
//@ at loop-start 0
    proof { lemma_pre_step(n, __i0 - 1, f); assert(id_of(child) == elkids(n)[__i0 - 1]); }
    let ghost r1 = result.ids();
//@ at loop-end 0
    proof { assert(result.ids() =~= r1 + pick(f, id_of(child)) + pre(id_of(child), f)); assert(result.ids() =~= r0 + pre_k(n, __i0 as nat, f)); }
//@ at loop-exit 0
    proof {
        if __s0@.len() != elkids(n).len() {
            lemma_pre_none(n, elkids(n).len(), f);
            lemma_pre_none(n, 0, f);
        }
    }
//@ emit
/// the matched among the first i are the first q of m
spec fn paired(s: Seq<int>, m: Seq<int>, i: int, q: int) -> bool {
    &&& 0 <= i <= s.len() && 0 <= q <= m.len()
    &&& forall|j: int| 0 <= j < q ==> s.take(i).contains(#[trigger] m[j])
    &&& forall|j: int| q <= j < m.len() ==> s.skip(i).contains(#[trigger] m[j])
}
proof fn lemma_paired(s: Seq<int>, f: spec_fn(int) -> bool, m: Seq<int>, i: int, q: int)
    requires sorted(s), matching(s, f, m), paired(s, m, i, q), i < s.len(),
    ensures
        f(s[i]) == (q < m.len() && m[q] == s[i]),
        paired(s, m, i + 1, if f(s[i]) { q + 1 } else { q }),
{
    lemma_sorted_distinct(s);
    let c = s[i];
    assert(s.contains(c));
    if q < m.len() && m[q] == c { assert(m.contains(c)); }
    if f(c) {
        assert(m.contains(c));
        let p = choose|p: int| 0 <= p < m.len() && m[p] == c;
        if p < q {
            assert(s.take(i).contains(m[p]));
            let k = choose|k: int| 0 <= k < i && s.take(i)[k] == c;
            assert(s[k] == s[i]);
        }
        if q < p {
            lemma_sorted_at(m, q, p);
            assert(s.skip(i).contains(m[q]));
            let k = choose|k: int| 0 <= k < s.len() - i && s.skip(i)[k] == m[q];
            if k > 0 { lemma_sorted_at(s, i, i + k); lemma_lt_asym(path(c), path(m[q])); } else { lemma_lt_irrefl(path(c)); }
        }
    }
    let q2 = if f(c) { q + 1 } else { q };
    assert forall|j: int| 0 <= j < q2 implies s.take(i + 1).contains(#[trigger] m[j]) by {
        if j < q {
            assert(s.take(i).contains(m[j]));
            let k = choose|k: int| 0 <= k < i && s.take(i)[k] == m[j];
            assert(s.take(i + 1)[k] == m[j]);
        } else { assert(s.take(i + 1)[i] == m[j]); }
    }
    lemma_sorted_distinct(m);
    assert forall|j: int| q2 <= j < m.len() implies s.skip(i + 1).contains(#[trigger] m[j]) by {
        assert(s.skip(i).contains(m[j]));
        let k = choose|k: int| 0 <= k < s.len() - i && s.skip(i)[k] == m[j];
        if k == 0 { assert(m.contains(m[j])); assert(m[j] == c && f(c)); assert(m[q] == m[j]); } else { assert(s.skip(i + 1)[k - 1] == m[j]); }
    }
}
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule/loop_handle#2 as walk_all
//@ prop C02 C03
//@ rule call handle
//@ header
    ensures final(result).ids() == old(result).ids() + pre(id_of(ele), all_fn(handle)),
    decreases height(id_of(ele)),
//@ at start
    let ghost f = all_fn(handle);
    let ghost n = id_of(ele);
    let ghost r0 = result.ids();
    proof { lemma_elkids(n); lemma_good_grouped(elkids(n)); assert(r0 + pre_k(n, 0, f) =~= r0); }
//@ loop 0
    invariant
        n == id_of(ele), __s0@ == childs.nodes@, childs.ids() == elkids(n), __i0 <= __s0.len(), f == all_fn(handle),
        total_matched == matched_childs@.len(), matching(elkids(n), f, ids(matched_childs@)), sorted(elkids(n)),
        paired(elkids(n), ids(matched_childs@), __i0 as int, cmp_index as int),
        result.ids() == r0 + pre_k(n, __i0 as nat, f),
//@ at pre-loop 0
    proof {
        let m = ids(matched_childs@);
        assert forall|j: int| 0 <= j < m.len() implies elkids(n).skip(0).contains(#[trigger] m[j]) by { assert(m.contains(m[j])); assert(elkids(n).skip(0) =~= elkids(n)); }
    }
//@ at loop-start 0
    proof {
        lemma_pre_step(n, __i0 - 1, f);
        assert(childs.ids()[__i0 - 1] == id_of(child));
        lemma_paired(elkids(n), f, ids(matched_childs@), __i0 - 1, cmp_index as int);
    }
    let ghost r1 = result.ids();
//@ at loop-end 0
    proof { assert(result.ids() =~= r1 + pick(f, id_of(child)) + pre(id_of(child), f)); assert(result.ids() =~= r0 + pre_k(n, __i0 as nat, f)); }
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule ChildrenAll as arm_children_all
//@ prop C02 C03
//@ sig
fn arm_children_all<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule text &**ele => ele
//@ rule lift exec => walk_one(+handle) walk_specified(+handle) walk_all(+handle)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), ChildrenAll, mt_fn(matcher), r.ids()), sorted(r.ids()),
//@ loop 0
    invariant
        __s0@ == uniques.nodes@, __i0 <= __s0.len(), result.ids() == pres(uniques.ids(), __i0 as int, one_fn(handle)),
//@ at loop-exit 0
    proof { lemma_walked(elements.ids(), uniques.ids(), one_fn(handle)); lemma_same_f(elements.ids(), ChildrenAll, one_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 1
    invariant
        __s1@ == elements.nodes@, __i1 <= __s1.len(), result.ids() == pres(elements.ids(), __i1 as int, one_fn(handle)),
//@ at loop-exit 1
    proof { lemma_walked(elements.ids(), elements.ids(), one_fn(handle)); lemma_same_f(elements.ids(), ChildrenAll, one_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 2
    invariant
        __s2@ == uniques.nodes@, __i2 <= __s2.len(), result.ids() == pres(uniques.ids(), __i2 as int, spec_fn_of(handle)),
//@ at loop-exit 2
    proof { lemma_walked(elements.ids(), uniques.ids(), spec_fn_of(handle)); lemma_same_f(elements.ids(), ChildrenAll, spec_fn_of(handle), mt_fn(matcher), result.ids()); }
//@ loop 3
    invariant
        __s3@ == elements.nodes@, __i3 <= __s3.len(), result.ids() == pres(elements.ids(), __i3 as int, spec_fn_of(handle)),
//@ at loop-exit 3
    proof { lemma_walked(elements.ids(), elements.ids(), spec_fn_of(handle)); lemma_same_f(elements.ids(), ChildrenAll, spec_fn_of(handle), mt_fn(matcher), result.ids()); }
//@ loop 4
    invariant
        __s4@ == uniques.nodes@, __i4 <= __s4.len(), result.ids() == pres(uniques.ids(), __i4 as int, all_fn(handle)),
//@ at loop-exit 4
    proof { lemma_walked(elements.ids(), uniques.ids(), all_fn(handle)); lemma_same_f(elements.ids(), ChildrenAll, all_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 5
    invariant
        __s5@ == elements.nodes@, __i5 <= __s5.len(), result.ids() == pres(elements.ids(), __i5 as int, all_fn(handle)),
//@ at loop-exit 5
    proof { lemma_walked(elements.ids(), elements.ids(), all_fn(handle)); lemma_same_f(elements.ids(), ChildrenAll, all_fn(handle), mt_fn(matcher), result.ids()); }
//@ emit
//@ emit
// ---------------------------------------------------------------- steps that put together what each element gives
/// what the first i elements give
spec fn partial(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, i: int, r: Seq<int>) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s.take(i), c, d)
    &&& i <= 1 ==> sorted(r)
    &&& i == 0 ==> r == Seq::<int>::empty()
}
proof fn lemma_partial_none(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool)
    ensures partial(s, c, f, 0, Seq::empty()),
{}
proof fn lemma_partial_add(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, i: int, r: Seq<int>, q: Seq<int>)
    requires partial(s, c, f, i, r), i < s.len(), sorted(q), forall|d: int| #[trigger] q.contains(d) <==> f(d) && rel(c, s[i], d),
    ensures partial(s, c, f, i + 1, r + q),
{
    lemma_contains_add(r, q);
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|d: int| #[trigger] (r + q).contains(d) <==> f(d) && from(s.take(i + 1), c, d) by { lemma_from_push(s.take(i), s[i], c, d); }
    if i == 0 { assert(r + q =~= q); }
}
proof fn lemma_partial_all(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>)
    requires partial(s, c, f, s.len() as int, r),
    ensures stepped(s, c, f, r), s.len() <= 1 ==> sorted(r),
{ assert(s.take(s.len() as int) =~= s); }
/// the matched among the first k, in order
spec fn seqsel(s: Seq<int>, k: int, f: spec_fn(int) -> bool) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else { seqsel(s, k - 1, f) + pick(f, s[k - 1]) } }
proof fn lemma_seqsel(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= s.len(),
    ensures kept(s, f, k, seqsel(s, k, f)), k == s.len() ==> matching(s, f, seqsel(s, k, f)),
    decreases k,
{
    if k > 0 {
        lemma_seqsel(s, k - 1, f);
        let r = seqsel(s, k - 1, f);
        lemma_kept(s, f, k - 1, r);
        if f(s[k - 1]) { assert(r + pick(f, s[k - 1]) =~= r.push(s[k - 1])); } else { assert(r + pick(f, s[k - 1]) =~= r); }
    } else { lemma_kept_none(s, f); }
    if k == s.len() { lemma_kept_all(s, f, seqsel(s, k, f)); }
}
proof fn lemma_kids_step(s: Seq<int>, f: spec_fn(int) -> bool, i: int, r: Seq<int>, q: Seq<int>)
    requires partial(s, Children, f, i, r), i < s.len(), matching(elkids(s[i]), f, q),
    ensures partial(s, Children, f, i + 1, r + q),
{
    lemma_elkids(s[i]);
    assert forall|d: int| #[trigger] q.contains(d) <==> f(d) && rel(Children, s[i], d) by {}
    lemma_partial_add(s, Children, f, i, r, q);
}
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Children as arm_children
//@ prop C02 C03
//@ sig
fn arm_children<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule text &**ele => ele
//@ rule cb .children_by => vx_children
//@ rule cb handle => vx_visits
//@ rule call handle
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Children, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    let ghost s = elements.ids();
//@ loop 0
    invariant
        s == elements.ids(), __s0@ == elements.nodes@, __i0 <= __s0.len(), partial(s, Children, one_fn(handle), __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_partial_none(s, Children, one_fn(handle)); }
//@ at loop-start 0
    let ghost r1 = result.ids();
    proof { assert(s[__i0 - 1] == id_of(ele)); lemma_elkids(id_of(ele)); }
//@ at loop-exit 0
    proof { lemma_partial_all(s, Children, one_fn(handle), result.ids()); lemma_same_f(s, Children, one_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 1
    invariant
        ids(__s1@) == elkids(id_of(ele)), __i1 <= __s1.len(), result.ids() == r1 + seqsel(elkids(id_of(ele)), __i1 as int, one_fn(handle)),
//@ at pre-loop 1
    proof { assert(r1 + seqsel(elkids(id_of(ele)), 0, one_fn(handle)) =~= r1); }
//@ at loop-start 1
    proof { assert(id_of(child) == elkids(id_of(ele))[__i1 - 1]); }
    let ghost r2 = result.ids();
//@ at loop-end 1
    proof { assert(result.ids() =~= r2 + pick(one_fn(handle), id_of(child))); assert(result.ids() =~= r1 + seqsel(elkids(id_of(ele)), __i1 as int, one_fn(handle))); }
//@ at loop-exit 1
    proof { lemma_seqsel(elkids(id_of(ele)), elkids(id_of(ele)).len() as int, one_fn(handle)); lemma_kids_step(s, one_fn(handle), __i0 - 1, r1, seqsel(elkids(id_of(ele)), elkids(id_of(ele)).len() as int, one_fn(handle))); }
//@ loop 2
    invariant
        s == elements.ids(), __s2@ == elements.nodes@, __i2 <= __s2.len(), partial(s, Children, spec_fn_of(handle), __i2 as int, result.ids()),
//@ at pre-loop 2
    proof { lemma_partial_none(s, Children, spec_fn_of(handle)); }
//@ at loop-start 2
    let ghost r1 = result.ids();
    let ghost n = id_of(ele);
    proof { assert(s[__i2 - 1] == n); lemma_elkids(n); }
//@ at loop-exit 2
    proof { lemma_partial_all(s, Children, spec_fn_of(handle), result.ids()); lemma_same_f(s, Children, spec_fn_of(handle), mt_fn(matcher), result.ids()); }
//@ loop 3
    invariant
        visits(handle, n, __s3@), __i3 <= __s3.len(), result.ids() == r1 + seqsel(elkids(n), __i3 as int, spec_fn_of(handle)),
//@ at pre-loop 3
    proof { assert(r1 + seqsel(elkids(n), 0, spec_fn_of(handle)) =~= r1); }
//@ at loop-start 3
    let ghost r2 = result.ids();
    proof { assert(id_of(ele) == elkids(n)[__i3 - 1]); }
//@ at loop-end 3
    proof { assert(result.ids() =~= r2 + pick(spec_fn_of(handle), elkids(n)[__i3 - 1])); assert(result.ids() =~= r1 + seqsel(elkids(n), __i3 as int, spec_fn_of(handle))); }
//@ at loop-exit 3
    proof {
        if __s3@.len() != elkids(n).len() {
            assert forall|x: int| !#[trigger] spec_fn_of(handle)(x) by { assert(!spec_f(handle, x)); }
            lemma_seqsel_none(elkids(n), elkids(n).len() as int, spec_fn_of(handle));
            lemma_seqsel_none(elkids(n), 0, spec_fn_of(handle));
        }
    }
    proof { lemma_seqsel(elkids(n), elkids(n).len() as int, spec_fn_of(handle)); lemma_kids_step(s, spec_fn_of(handle), __i2 - 1, r1, seqsel(elkids(n), elkids(n).len() as int, spec_fn_of(handle))); }
//@ loop 4
    invariant
        s == elements.ids(), __s4@ == elements.nodes@, __i4 <= __s4.len(), partial(s, Children, all_fn(handle), __i4 as int, result.ids()),
//@ at pre-loop 4
    proof { lemma_partial_none(s, Children, all_fn(handle)); }
//@ at loop-start 4
    let ghost r1 = result.ids();
    let ghost n = id_of(ele);
    proof { assert(s[__i4 - 1] == n); lemma_elkids(n); lemma_good_grouped(elkids(n)); }
//@ at before if !match_childs.is_empty()
    proof { lemma_kids_step(s, all_fn(handle), __i4 - 1, r1, match_childs.ids()); assert(match_childs.ids().len() == 0 ==> r1 + match_childs.ids() =~= r1); }
//@ at loop-exit 4
    proof { lemma_partial_all(s, Children, all_fn(handle), result.ids()); lemma_same_f(s, Children, all_fn(handle), mt_fn(matcher), result.ids()); }
//@ emit
// ---------------------------------------------------------------- Parent
proof fn lemma_reps_small(s: Seq<int>, u: Seq<int>, asc: bool)
    requires reps(s, u, asc), s.len() <= 1,
    ensures u.len() <= 1,
{
    if u.len() > 1 {
        assert(s.contains(u[0]) && s.contains(u[1]));
        lemma_sorted_at(u, 0, 1);
        lemma_lt_irrefl(path(u[0]));
    }
}
proof fn lemma_reps_parent(s: Seq<int>, u: Seq<int>, asc: bool, d: int)
    requires reps(s, u, asc),
    ensures from(u, Parent, d) == from(s, Parent, d),
{
    if from(u, Parent, d) {
        let i = choose|i: int| 0 <= i < u.len() && rel(Parent, #[trigger] u[i], d);
        let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
        assert(s.contains(u[i]));
        assert(rel(Parent, s[j], d));
    }
    if from(s, Parent, d) {
        let i = choose|i: int| 0 <= i < s.len() && rel(Parent, #[trigger] s[i], d);
        assert(s.contains(s[i]));
        assert(repped(u, s[i], asc));
        let j = choose|j: int| 0 <= j < u.len() && par(#[trigger] u[j]) == par(s[i]);
        assert(rel(Parent, u[j], d));
    }
}
spec fn opar(n: int) -> Seq<int> { match par(n) { Some(p) if !is_doc(p) => seq![p], _ => Seq::empty() } }
spec fn onext(n: int) -> Seq<int> { if nexts(n).len() > 0 { seq![nexts(n)[0]] } else { Seq::empty() } }
spec fn oprev(n: int) -> Seq<int> { if prevs(n).len() > 0 { seq![prevs(n).last()] } else { Seq::empty() } }
/// what Parent, Next and Prev reach from n, one node or none
spec fn step1(c: Combinator, n: int) -> Seq<int> { match c { Parent => opar(n), Next => onext(n), Prev => oprev(n), _ => Seq::empty() } }
spec fn single(c: Combinator) -> bool { c is Parent || c is Next || c is Prev }
proof fn lemma_step1(c: Combinator, n: int, d: int)
    requires single(c),
    ensures step1(c, n).contains(d) == rel(c, n, d), step1(c, n).len() <= 1,
{ if rel(c, n, d) { assert(step1(c, n)[0] == d); } }
/// all that the first k reach
spec fn pars(c: Combinator, u: Seq<int>, k: int) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else { pars(c, u, k - 1) + step1(c, u[k - 1]) } }
proof fn lemma_pars_members(c: Combinator, u: Seq<int>, k: int, d: int)
    requires single(c), 0 <= k <= u.len(),
    ensures pars(c, u, k).contains(d) == from(u.take(k), c, d),
    decreases k,
{
    if k > 0 {
        lemma_pars_members(c, u, k - 1, d);
        lemma_contains_add(pars(c, u, k - 1), step1(c, u[k - 1]));
        lemma_from_push(u.take(k - 1), u[k - 1], c, d);
        lemma_step1(c, u[k - 1], d);
        assert(u.take(k) =~= u.take(k - 1).push(u[k - 1]));
        assert((pars(c, u, k - 1) + step1(c, u[k - 1])).contains(d) == (pars(c, u, k - 1).contains(d) || step1(c, u[k - 1]).contains(d)));
    }
}
proof fn lemma_pars_grouped(u: Seq<int>, k: int)
    requires
        0 <= k <= u.len(), sorted(u),
        forall|i: int, j: int| 0 <= i < j < u.len() && par(#[trigger] u[i]) is Some ==> par(u[i]) != par(#[trigger] u[j]),
    ensures grouped(pars(Parent, u, k)),
    decreases k,
{
    let c = Parent;
    if k > 0 {
        lemma_pars_grouped(u, k - 1);
        let a = pars(c, u, k - 1);
        let q = pars(c, u, k);
        let e = u[k - 1];
        if step1(c, e).len() > 0 {
            let p = par(e)->0;
            assert(q == a.push(p)) by { assert(a + step1(c, e) =~= a.push(p)); }
            assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != p && (par(a[i]) is Some && par(a[i]) == par(p) ==> idx(a[i]) < idx(p)) by {
                lemma_pars_members(c, u, k - 1, a[i]);
                assert(a.contains(a[i]));
                let j = choose|j: int| 0 <= j < k - 1 && rel(Parent, #[trigger] u.take(k - 1)[j], a[i]);
                assert(par(u[j]) != par(u[k - 1]));
                lemma_sorted_at(u, j, k - 1);
                if par(a[i]) is Some && par(a[i]) == par(p) {
                    axiom_tree(a[i]);
                    axiom_tree(p);
                    axiom_tree(u[j]);
                    axiom_tree(e);
                    if idx(p) < idx(a[i]) {
                        lemma_sib_apart(p, a[i]);
                        lemma_apart(p, a[i], e, u[j]);
                        lemma_lt_asym(path(e), path(u[j]));
                    }
                }
            }
            assert(q.no_duplicates());
            assert forall|i: int, j: int| 0 <= i < j < q.len() && par(#[trigger] q[i]) is Some && par(q[i]) == par(#[trigger] q[j]) implies idx(q[i]) < idx(q[j]) by {
                if j < a.len() { assert(idx(a[i]) < idx(a[j])); } else { assert(a[i] == q[i]); }
            }
        } else { assert(a + step1(c, e) =~= a); }
    }
}
proof fn lemma_reps_grouped(s: Seq<int>, u: Seq<int>, asc: bool)
    requires reps(s, u, asc),
    ensures grouped(pars(Parent, u, u.len() as int)),
{ lemma_pars_grouped(u, u.len() as int); }
proof fn lemma_good_els(s: Seq<int>)
    requires good(s),
    ensures els(s),
{}
proof fn lemma_pars_els(c: Combinator, u: Seq<int>)
    requires single(c), els(u),
    ensures els(pars(c, u, u.len() as int)),
{
    let r = pars(c, u, u.len() as int);
    assert(u.take(u.len() as int) =~= u);
    assert forall|i: int| 0 <= i < r.len() implies is_el(#[trigger] r[i]) || par(r[i]) is None by {
        assert(r.contains(r[i]));
        lemma_pars_members(c, u, u.len() as int, r[i]);
        let j = choose|j: int| 0 <= j < u.len() && rel(c, #[trigger] u[j], r[i]);
        lemma_rel(c, u[j], r[i]);
    }
}
proof fn lemma_reps_els(s: Seq<int>, u: Seq<int>, asc: bool)
    requires reps(s, u, asc), good(s),
    ensures els(u),
{
    assert forall|i: int| 0 <= i < u.len() implies is_el(#[trigger] u[i]) || par(u[i]) is None by {
        assert(s.contains(u[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
        assert(is_el(s[j]) || par(s[j]) is None);
    }
}
proof fn lemma_pars_small(c: Combinator, u: Seq<int>)
    requires u.len() <= 1, single(c),
    ensures sorted(pars(c, u, u.len() as int)),
{ if u.len() == 1 { assert(pars(c, u, 0) =~= Seq::<int>::empty()); assert(pars(c, u, 1) =~= step1(c, u[0])); } }
proof fn lemma_parents(s: Seq<int>, u: Seq<int>, asc: bool, f: spec_fn(int) -> bool, r: Seq<int>)
    requires reps(s, u, asc), matching(pars(Parent, u, u.len() as int), f, r),
    ensures stepped(s, Parent, f, r), s.len() <= 1 ==> sorted(r),
{
    let c = Parent;
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, Parent, d) by {
        lemma_pars_members(c, u, u.len() as int, d);
        assert(u.take(u.len() as int) =~= u);
        lemma_reps_parent(s, u, asc, d);
    }
    if s.len() <= 1 { lemma_reps_small(s, u, asc); lemma_pars_small(c, u); }
}
/// what f holds for among the parents of the first k
spec fn selpars(c: Combinator, u: Seq<int>, k: int, f: spec_fn(int) -> bool) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else { selpars(c, u, k - 1, f) + seqsel(step1(c, u[k - 1]), step1(c, u[k - 1]).len() as int, f) } }
proof fn lemma_seqsel1(o: Seq<int>, f: spec_fn(int) -> bool)
    requires o.len() <= 1,
    ensures
        o.len() == 0 ==> seqsel(o, o.len() as int, f) == Seq::<int>::empty(),
        o.len() == 1 ==> seqsel(o, o.len() as int, f) == pick(f, o[0]),
{
    if o.len() == 1 { assert(seqsel(o, 0, f) =~= Seq::<int>::empty()); assert(seqsel(o, 1, f) =~= pick(f, o[0])); }
}
proof fn lemma_selpars(c: Combinator, u: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires single(c), 0 <= k <= u.len(),
    ensures forall|d: int| #[trigger] selpars(c, u, k, f).contains(d) <==> pars(c, u, k).contains(d) && f(d), u.len() <= 1 ==> sorted(selpars(c, u, k, f)),
    decreases k,
{
    if k > 0 {
        lemma_selpars(c, u, k - 1, f);
        let o = step1(c, u[k - 1]);
        lemma_step1(c, u[k - 1], 0);
        lemma_seqsel1(o, f);
        lemma_contains_add(pars(c, u, k - 1), o);
        lemma_contains_add(selpars(c, u, k - 1, f), seqsel(o, o.len() as int, f));
        assert forall|d: int| #[trigger] selpars(c, u, k, f).contains(d) <==> pars(c, u, k).contains(d) && f(d) by {
            assert(selpars(c, u, k - 1, f).contains(d) <==> pars(c, u, k - 1).contains(d) && f(d));
            let q = seqsel(o, o.len() as int, f);
            if o.contains(d) { assert(o[0] == d); if f(d) { assert(q[0] == d); } }
            if q.contains(d) { assert(o.len() == 1 && o[0] == d); }
        }
        if u.len() <= 1 { assert(selpars(c, u, 0, f) =~= Seq::<int>::empty()); assert(selpars(c, u, 1, f) =~= seqsel(o, o.len() as int, f)); }
    }
}
proof fn lemma_parents_one(s: Seq<int>, u: Seq<int>, asc: bool, f: spec_fn(int) -> bool)
    requires reps(s, u, asc),
    ensures stepped(s, Parent, f, selpars(Parent, u, u.len() as int, f)), s.len() <= 1 ==> sorted(selpars(Parent, u, u.len() as int, f)),
{
    let c = Parent;
    let r = selpars(c, u, u.len() as int, f);
    lemma_selpars(c, u, u.len() as int, f);
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, Parent, d) by {
        lemma_pars_members(c, u, u.len() as int, d);
        assert(u.take(u.len() as int) =~= u);
        lemma_reps_parent(s, u, asc, d);
    }
    if s.len() <= 1 { lemma_reps_small(s, u, asc); }
}
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Parent as arm_parent
//@ prop C02 C03
//@ sig
fn arm_parent<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule text &*parent => &parent
//@ rule call handle
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Parent, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(reps); hide(good); hide(grouped); hide(matching); hide(stepped);
//@ loop 0
    invariant
        __s0@ == uniques.nodes@, __i0 <= __s0.len(), result.ids() == selpars(Parent, uniques.ids(), __i0 as int, one_fn(handle)),
//@ at loop-start 0
    let ghost r1 = result.ids();
    proof { assert(uniques.ids()[__i0 - 1] == id_of(ele)); lemma_seqsel1(step1(Parent, id_of(ele)), one_fn(handle)); }
//@ at loop-end 0
    proof { assert(result.ids() =~= r1 + seqsel(step1(Parent, id_of(ele)), step1(Parent, id_of(ele)).len() as int, one_fn(handle))); }
//@ at loop-exit 0
    proof { lemma_parents_one(elements.ids(), uniques.ids(), true, one_fn(handle)); lemma_same_f(elements.ids(), Parent, one_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 1
    invariant
        __s1@ == uniques.nodes@, __i1 <= __s1.len(), parents.ids() == pars(Parent, uniques.ids(), __i1 as int),
//@ at loop-start 1
    let ghost r1 = parents.ids();
    proof { assert(uniques.ids()[__i1 - 1] == id_of(ele)); }
//@ at loop-end 1
    proof { assert(parents.ids() =~= r1 + step1(Parent, id_of(ele))); }
//@ at loop-exit 1
    proof { lemma_reps_grouped(elements.ids(), uniques.ids(), true); lemma_reps_els(elements.ids(), uniques.ids(), true); lemma_pars_els(Parent, uniques.ids()); }
//@ at before if !matched_parents.is_empty()
    proof { lemma_parents(elements.ids(), uniques.ids(), true, all_fn(handle), matched_parents.ids()); lemma_same_f(elements.ids(), Parent, all_fn(handle), mt_fn(matcher), matched_parents.ids()); assert(Seq::<int>::empty() + matched_parents.ids() =~= matched_parents.ids()); assert(matched_parents.ids().len() == 0 ==> matched_parents.ids() =~= Seq::<int>::empty()); }
//@ emit
// ---------------------------------------------------------------- ParentAll
/// what f holds for among the ancestors, the outermost first
spec fn ups(n: int, f: spec_fn(int) -> bool) -> Seq<int>
    decreases depth(n),
{ match par(n) { Some(p) if depth(p) < depth(n) && !is_doc(p) => ups(p, f) + pick(f, p), _ => Seq::empty() } }
proof fn lemma_ups(n: int, f: spec_fn(int) -> bool)
    ensures
        sorted(ups(n, f)), forall|d: int| #[trigger] ups(n, f).contains(d) <==> f(d) && rel(ParentAll, n, d),
        ups(n, f) == (match par(n) { Some(p) if !is_doc(p) => ups(p, f) + pick(f, p), _ => Seq::empty() }),
        par(n) matches Some(p) ==> depth(p) < depth(n),
    decreases depth(n),
{
    axiom_tree(n);
    if let Some(p) = par(n) {
        axiom_doc(p);
        if !is_doc(p) {
            lemma_ups(p, f);
            let a = ups(p, f);
            lemma_contains_add(a, pick(f, p));
            assert forall|d: int| #[trigger] ups(n, f).contains(d) <==> f(d) && rel(ParentAll, n, d) by {
                if pick(f, p).contains(d) { assert(d == p); }
                if d == p && f(p) { assert(pick(f, p)[0] == p); }
            }
            assert forall|x: int, y: int| a.contains(x) && pick(f, p).contains(y) implies before(x, y) by { lemma_anc_before(x, p); }
            lemma_sorted_add(a, pick(f, p));
        } else {
            assert forall|d: int| !(f(d) && rel(ParentAll, n, d)) by { assert(anc(d, n) ==> d == p || anc(d, p)); }
        }
    }
}
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule/loop_handle#3 as up_one
//@ prop C02 C03
//@ rule text &*parent => &parent
//@ rule call handle
//@ header
    ensures final(result).ids() == old(result).ids() + ups(id_of(ele), one_fn(handle)),
    decreases depth(id_of(ele)),
//@ at start
    proof { lemma_ups(id_of(ele), one_fn(handle)); }
//@ at before if handle
    let ghost r1 = result.ids();
//@ at after result.get_mut_ref().push(parent);
    proof { assert(result.ids() =~= r1.push(par(id_of(ele))->0)); }
//@ at end
    proof {
        let p = par(id_of(ele))->0;
        assert(pick(one_fn(handle), p) == (if one_f(handle, p) { seq![p] } else { Seq::<int>::empty() }));
        assert(result.ids() =~= old(result).ids() + ups(id_of(ele), one_fn(handle)));
    }
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule/loop_handle#4 as up_all
//@ prop C02 C03
//@ header
    ensures final(parents).ids() == old(parents).ids() + ups(id_of(ele), any()),
    decreases depth(id_of(ele)),
//@ at start
    proof { lemma_ups(id_of(ele), any()); }
//@ at end
    proof { assert(parents.ids() =~= old(parents).ids() + ups(id_of(ele), any())); }
//@ emit
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule ParentAll as arm_parent_all
//@ prop C02 C03
//@ sig
fn arm_parent_all<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule lift exec => _ _ _ up_one(+handle)
//@ rule inner loop_handle => _ _ _ _ up_all
//@ rule call handle
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), ParentAll, mt_fn(matcher), r.ids()), sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(partial); hide(sorted); hide(same_members); hide(one_root);
    let ghost s = elements.ids();
//@ loop 0
    invariant
        s == elements.ids(), __s0@ == elements.nodes@, __i0 <= __s0.len(), partial(s, ParentAll, one_fn(handle), __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_partial_none(s, ParentAll, one_fn(handle)); }
//@ at loop-start 0
    proof { assert(s[__i0 - 1] == id_of(ele)); lemma_ups(id_of(ele), one_fn(handle)); lemma_partial_add(s, ParentAll, one_fn(handle), __i0 - 1, result.ids(), ups(id_of(ele), one_fn(handle))); }
//@ at loop-exit 0
    proof { lemma_partial_all(s, ParentAll, one_fn(handle), result.ids()); lemma_stepped_one(s, ParentAll, one_fn(handle), result.ids()); }
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
//@ at after result.sort_and_unique();
    proof { lemma_stepped_same(s, ParentAll, one_fn(handle), r1, result.ids()); lemma_same_f(s, ParentAll, one_fn(handle), mt_fn(matcher), result.ids()); }
//@ loop 1
    invariant
        s == elements.ids(), __s1@ == elements.nodes@, __i1 <= __s1.len(), partial(s, ParentAll, any(), __i1 as int, all_parents.ids()),
//@ at pre-loop 1
    proof { lemma_partial_none(s, ParentAll, any()); }
//@ at loop-start 1
    proof { assert(s[__i1 - 1] == id_of(ele)); lemma_ups(id_of(ele), any()); lemma_partial_add(s, ParentAll, any(), __i1 - 1, all_parents.ids(), ups(id_of(ele), any())); }
//@ at loop-exit 1
    proof { lemma_partial_all(s, ParentAll, any(), all_parents.ids()); lemma_stepped_one(s, ParentAll, any(), all_parents.ids()); }
//@ at before all_parents.sort_and_unique();
    let ghost r1 = all_parents.ids();
//@ at after all_parents.sort_and_unique();
    proof { lemma_stepped_same(s, ParentAll, any(), r1, all_parents.ids()); lemma_good_grouped(all_parents.ids()); lemma_stepped_one(s, ParentAll, any(), all_parents.ids()); }
//@ at before if !matched_parents.is_empty()
    proof {
        lemma_matching_sorted(all_parents.ids(), all_fn(handle), matched_parents.ids());
        lemma_stepped_any(s, ParentAll, all_fn(handle), all_parents.ids(), matched_parents.ids());
        lemma_same_f(s, ParentAll, all_fn(handle), mt_fn(matcher), matched_parents.ids());
        assert(Seq::<int>::empty() + matched_parents.ids() =~= matched_parents.ids());
        assert(matched_parents.ids().len() == 0 ==> matched_parents.ids() =~= Seq::<int>::empty());
    }
//@ emit
proof fn lemma_matching_sorted(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires matching(s, f, r), sorted(s),
    ensures sorted(r),
{}
// ---------------------------------------------------------------- NextAll, PrevAll
proof fn lemma_farther(asc: bool, e: int, u: int, d: int)
    requires par(u) == par(e), if asc { idx(u) <= idx(e) } else { idx(u) >= idx(e) },
    ensures rel(if asc { NextAll } else { PrevAll }, e, d) ==> par(e) is Some && rel(if asc { NextAll } else { PrevAll }, u, d),
{ if asc { lemma_nexts(e); lemma_nexts(u); } else { lemma_prevs(e); lemma_prevs(u); } }
proof fn lemma_reps_sibs(s: Seq<int>, u: Seq<int>, asc: bool, d: int)
    requires reps(s, u, asc),
    ensures from(u, if asc { NextAll } else { PrevAll }, d) == from(s, if asc { NextAll } else { PrevAll }, d),
{
    hide(sorted); hide(rel);
    let c = if asc { NextAll } else { PrevAll };
    if from(u, c, d) {
        let i = choose|i: int| 0 <= i < u.len() && rel(c, #[trigger] u[i], d);
        assert(s.contains(u[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
        assert(rel(c, s[j], d));
    }
    if from(s, c, d) {
        let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], d);
        assert(s.contains(s[i]));
        lemma_farther(asc, s[i], s[i], d);
        assert(repped(u, s[i], asc));
        let j = choose|j: int| 0 <= j < u.len() && par(#[trigger] u[j]) == par(s[i]) && (if asc { idx(u[j]) <= idx(s[i]) } else { idx(u[j]) >= idx(s[i]) });
        lemma_farther(asc, s[i], u[j], d);
        assert(rel(c, u[j], d));
    }
}
proof fn lemma_sibs_done(s: Seq<int>, u: Seq<int>, asc: bool, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>)
    requires reps(s, u, asc), c == (if asc { NextAll } else { PrevAll }), partial(u, c, f, u.len() as int, r),
    ensures stepped(s, c, f, r), s.len() <= 1 ==> sorted(r),
{
    lemma_partial_all(u, c, f, r);
    if s.len() <= 1 { lemma_reps_small(s, u, asc); }
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, c, d) by { lemma_reps_sibs(s, u, asc, d); }
}
spec fn sibs(asc: bool, n: int) -> Seq<int> { if asc { nexts(n) } else { prevs(n) } }
proof fn lemma_sibs_step(u: Seq<int>, asc: bool, c: Combinator, f: spec_fn(int) -> bool, i: int, r: Seq<int>, q: Seq<int>)
    requires
        partial(u, c, f, i, r), i < u.len(), c == (if asc { NextAll } else { PrevAll }),
        matching(sibs(asc, u[i]), f, q),
    ensures partial(u, c, f, i + 1, r + q),
{
    lemma_nexts(u[i]);
    lemma_prevs(u[i]);
    assert forall|d: int| #[trigger] q.contains(d) <==> f(d) && rel(c, u[i], d) by {}
    lemma_partial_add(u, c, f, i, r, q);
}
proof fn lemma_sibs_grouped(n: int)
    ensures grouped(nexts(n)), grouped(prevs(n)),
{ lemma_nexts(n); lemma_prevs(n); lemma_good_grouped(nexts(n)); lemma_good_grouped(prevs(n)); }
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule NextAll as arm_next_all
//@ prop C02 C03
//@ sig
fn arm_next_all<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), NextAll, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(partial); hide(sorted); hide(reps);
//@ at after let uniques
    let ghost u = uniques.ids();
    let ghost f = mt_fn(matcher);
//@ loop 0
    invariant
        wf(matcher), f == mt_fn(matcher), u == uniques.ids(), __s0@ == uniques.nodes@, __i0 <= __s0.len(), partial(u, NextAll, f, __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_partial_none(u, NextAll, f); }
//@ at loop-start 0
    proof { assert(u[__i0 - 1] == id_of(ele)); lemma_sibs_grouped(id_of(ele)); }
    let ghost r1 = result.ids();
//@ at before if !matched_nexts.is_empty()
    proof { assert(r1 + matched_nexts.ids() =~= r1 || matched_nexts.ids().len() > 0); }
//@ at loop-end 0
    proof {
        let q = choose|q: Seq<int>| matching(sibs(true, id_of(ele)), f, q) && #[trigger] (r1 + q) == result.ids();
        lemma_sibs_step(u, true, NextAll, f, __i0 - 1, r1, q);
    }
//@ at loop-exit 0
    proof { lemma_sibs_done(elements.ids(), u, true, NextAll, f, result.ids()); }
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule PrevAll as arm_prev_all
//@ prop C02 C03
//@ sig
fn arm_prev_all<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), PrevAll, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(partial); hide(sorted); hide(reps);
//@ at after let uniques
    let ghost u = uniques.ids();
    let ghost f = mt_fn(matcher);
//@ loop 0
    invariant
        wf(matcher), f == mt_fn(matcher), u == uniques.ids(), __s0@ == uniques.nodes@, __i0 <= __s0.len(), partial(u, PrevAll, f, __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_partial_none(u, PrevAll, f); }
//@ at loop-start 0
    proof { assert(u[__i0 - 1] == id_of(ele)); lemma_sibs_grouped(id_of(ele)); }
    let ghost r1 = result.ids();
//@ at loop-end 0
    proof {
        let q = choose|q: Seq<int>| matching(sibs(false, id_of(ele)), f, q) && #[trigger] (r1 + q) == result.ids();
        lemma_sibs_step(u, false, PrevAll, f, __i0 - 1, r1, q);
    }
//@ at loop-exit 0
    proof { lemma_sibs_done(elements.ids(), u, false, PrevAll, f, result.ids()); }
//@ emit
// ---------------------------------------------------------------- Next, Prev
proof fn lemma_near(c: Combinator, a: int, b: int)
    requires c is Next || c is Prev, is_el(a) || par(a) is None, is_el(b) || par(b) is None, before(a, b), step1(c, a).len() > 0, step1(c, b).len() > 0,
    ensures step1(c, a)[0] != step1(c, b)[0], par(step1(c, a)[0]) == par(step1(c, b)[0]) ==> idx(step1(c, a)[0]) < idx(step1(c, b)[0]),
{
    let x = step1(c, a)[0];
    let y = step1(c, b)[0];
    if c is Next {
        lemma_nexts(a);
        lemma_nexts(b);
        if par(a) == par(b) {
            lemma_before_sib(a, b);
            assert(nexts(a).contains(b));
            let k = choose|k: int| 0 <= k < nexts(a).len() && nexts(a)[k] == b;
            if k > 0 { assert(idx(nexts(a)[0]) < idx(nexts(a)[k])); }
        }
    } else {
        lemma_prevs(a);
        lemma_prevs(b);
        assert(prevs(a).contains(x) && prevs(b).contains(y));
        if par(a) == par(b) {
            lemma_before_sib(a, b);
            assert(prevs(b).contains(a));
            let k = choose|k: int| 0 <= k < prevs(b).len() && prevs(b)[k] == a;
            let m = prevs(b).len() - 1;
            if k < m { assert(idx(prevs(b)[k]) < idx(prevs(b)[m])); }
        }
    }
}
proof fn lemma_near_grouped(c: Combinator, u: Seq<int>, k: int)
    requires 0 <= k <= u.len(), good(u), c is Next || c is Prev,
    ensures grouped(pars(c, u, k)),
    decreases k,
{
    if k > 0 {
        lemma_near_grouped(c, u, k - 1);
        let a = pars(c, u, k - 1);
        let q = pars(c, u, k);
        let e = u[k - 1];
        lemma_step1(c, e, 0);
        if step1(c, e).len() > 0 {
            let p = step1(c, e)[0];
            assert(q == a.push(p)) by { assert(a + step1(c, e) =~= a.push(p)); }
            assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != p && (par(a[i]) is Some && par(a[i]) == par(p) ==> idx(a[i]) < idx(p)) by {
                lemma_pars_members(c, u, k - 1, a[i]);
                assert(a.contains(a[i]));
                let j = choose|j: int| 0 <= j < k - 1 && rel(c, #[trigger] u.take(k - 1)[j], a[i]);
                lemma_step1(c, u[j], a[i]);
                assert(step1(c, u[j]).contains(a[i]));
                lemma_sorted_at(u, j, k - 1);
                lemma_near(c, u[j], e);
            }
            assert(q.no_duplicates());
            assert forall|i: int, j: int| 0 <= i < j < q.len() && par(#[trigger] q[i]) is Some && par(q[i]) == par(#[trigger] q[j]) implies idx(q[i]) < idx(q[j]) by {
                if j < a.len() { assert(idx(a[i]) < idx(a[j])); } else { assert(a[i] == q[i]); }
            }
        } else { assert(a + step1(c, e) =~= a); }
    }
}
proof fn lemma_near_all(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>)
    requires single(c), matching(pars(c, s, s.len() as int), f, r),
    ensures stepped(s, c, f, r), s.len() <= 1 ==> sorted(r),
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, c, d) by { lemma_pars_members(c, s, s.len() as int, d); }
    if s.len() <= 1 { lemma_pars_small(c, s); }
}
proof fn lemma_near_one(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool)
    requires single(c),
    ensures stepped(s, c, f, selpars(c, s, s.len() as int, f)), s.len() <= 1 ==> sorted(selpars(c, s, s.len() as int, f)),
{
    let r = selpars(c, s, s.len() as int, f);
    assert(s.take(s.len() as int) =~= s);
    lemma_selpars(c, s, s.len() as int, f);
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, c, d) by { lemma_pars_members(c, s, s.len() as int, d); }
}
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Next as arm_next
//@ prop C02 C03
//@ sig
fn arm_next<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule text &*next => &next
//@ rule call handle
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Next, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(sorted);
    let ghost s = elements.ids();
//@ loop 0
    invariant
        s == elements.ids(), __s0@ == elements.nodes@, __i0 <= __s0.len(), nexts.ids() == selpars(Next, s, __i0 as int, one_fn(handle)),
//@ at loop-start 0
    let ghost r1 = nexts.ids();
    proof { assert(s[__i0 - 1] == id_of(ele)); lemma_seqsel1(step1(Next, id_of(ele)), one_fn(handle)); }
//@ at loop-end 0
    proof { assert(nexts.ids() =~= r1 + seqsel(step1(Next, id_of(ele)), step1(Next, id_of(ele)).len() as int, one_fn(handle))); }
//@ at loop-exit 0
    proof { lemma_near_one(s, Next, one_fn(handle)); lemma_same_f(s, Next, one_fn(handle), mt_fn(matcher), nexts.ids()); }
//@ loop 1
    invariant
        s == elements.ids(), __s1@ == elements.nodes@, __i1 <= __s1.len(), nexts.ids() == pars(Next, s, __i1 as int),
//@ at loop-start 1
    let ghost r1 = nexts.ids();
    proof { assert(s[__i1 - 1] == id_of(ele)); }
//@ at loop-end 1
    proof { assert(nexts.ids() =~= r1 + step1(Next, id_of(ele))); }
//@ at loop-exit 1
    proof { lemma_near_grouped(Next, s, s.len() as int); lemma_good_els(s); lemma_pars_els(Next, s); }
//@ at after result = matcher.apply(&nexts, None);
    proof { lemma_near_all(s, Next, mt_fn(matcher), result.ids()); }
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Prev as arm_prev
//@ prop C02 C03
//@ sig
fn arm_prev<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule text &*prev => &prev
//@ rule call handle
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Prev, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(sorted);
    let ghost s = elements.ids();
//@ loop 0
    invariant
        s == elements.ids(), __s0@ == elements.nodes@, __i0 <= __s0.len(), prevs.ids() == selpars(Prev, s, __i0 as int, one_fn(handle)),
//@ at loop-start 0
    let ghost r1 = prevs.ids();
    proof { assert(s[__i0 - 1] == id_of(ele)); lemma_seqsel1(step1(Prev, id_of(ele)), one_fn(handle)); }
//@ at loop-end 0
    proof { assert(prevs.ids() =~= r1 + seqsel(step1(Prev, id_of(ele)), step1(Prev, id_of(ele)).len() as int, one_fn(handle))); }
//@ at loop-exit 0
    proof { lemma_near_one(s, Prev, one_fn(handle)); lemma_same_f(s, Prev, one_fn(handle), mt_fn(matcher), prevs.ids()); }
//@ loop 1
    invariant
        s == elements.ids(), __s1@ == elements.nodes@, __i1 <= __s1.len(), prevs.ids() == pars(Prev, s, __i1 as int),
//@ at loop-start 1
    let ghost r1 = prevs.ids();
    proof { assert(s[__i1 - 1] == id_of(ele)); }
//@ at loop-end 1
    proof { assert(prevs.ids() =~= r1 + step1(Prev, id_of(ele))); }
//@ at loop-exit 1
    proof { lemma_near_grouped(Prev, s, s.len() as int); lemma_good_els(s); lemma_pars_els(Prev, s); }
//@ at after result = matcher.apply(&prevs, None);
    proof { lemma_near_all(s, Prev, mt_fn(matcher), result.ids()); }
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Chain as arm_chain
//@ prop C02 C03
//@ sig
fn arm_chain<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Chain, mt_fn(matcher), r.ids()), sorted(r.ids()),
//@ at start
    proof { lemma_good_grouped(elements.ids()); }
//@ at after result = matcher.apply(elements, None);
    proof { lemma_chain(elements.ids(), mt_fn(matcher), result.ids()); }
//@ emit
//@ emit
// ---------------------------------------------------------------- Siblings
/// TRUSTED: std HashMap from positions, and from indexes
#[verifier::external_body]
struct PathMap;
impl PathMap {
    uninterp spec fn view(&self) -> Map<Seq<usize>, (usize, bool)>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: PathMap)
        ensures r.view() == Map::<Seq<usize>, (usize, bool)>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'b>(&'b mut self, k: &VecDeque<usize>) -> (r: Option<&'b mut (usize, bool)>)
        ensures
            r is Some == old(self).view().contains_key(k@),
            r matches Some(x) ==> *x == old(self).view()[k@] && final(self).view() == old(self).view().insert(k@, *final(x)),
            r is None ==> final(self).view() == old(self).view(),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: VecDeque<usize>, v: (usize, bool)) -> (r: Option<(usize, bool)>)
        ensures final(self).view() == old(self).view().insert(k@, v),
    { unimplemented!() }
}
#[verifier::external_body]
struct EleMap<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> EleMap<'a> {
    uninterp spec fn view(&self) -> Map<usize, int>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: EleMap<'a>)
        ensures r.view() == Map::<usize, int>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &usize) -> (r: Option<Ele<'a>>)
        ensures
            r is Some == old(self).view().contains_key(*k),
            r matches Some(e) ==> id_of(&e) == old(self).view()[*k],
            final(self).view() == old(self).view().remove(*k),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: usize, e: Ele<'a>) -> (r: Option<Ele<'a>>)
        ensures final(self).view() == old(self).view().insert(k, id_of(&e)),
    { unimplemented!() }
}
spec fn indexed(v: Seq<(Ele, bool)>, m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>, rt: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> root(fam(#[trigger] v[k])) == rt && m.contains_key(path(fam(v[k]))) && m[path(fam(v[k]))] == (k as usize, v[k].1)
    &&& forall|k: int| 0 <= k < v.len() && !(#[trigger] v[k]).1 ==> ps.contains_key(k as usize) && ps[k as usize] == fam(v[k])
    &&& forall|q: Seq<usize>| #[trigger] m.contains_key(q) ==> m[q].0 < v.len() && path(fam(v[m[q].0 as int])) == q
}
proof fn lemma_entry_push(t: Seq<int>, e: int, x: (Ele, bool))
    requires entry(t, x), par(e) != Some(fam(x)) || x.1,
    ensures entry(t.push(e), x),
{
    let q = t.push(e);
    if x.1 {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < t.len() && par(#[trigger] t[i]) == Some(id_of(&x.0)) && par(#[trigger] t[j]) == Some(id_of(&x.0));
        assert(par(q[i]) == Some(id_of(&x.0)) && par(q[j]) == Some(id_of(&x.0)));
    } else {
        let a = id_of(&x.0);
        let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
        assert(q[i] == a);
        assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) == par(a) implies q[i] == a by { if i < t.len() { assert(par(t[i]) == par(a)); } }
    }
}
proof fn lemma_has_fam_push(v: Seq<(Ele, bool)>, x: (Ele, bool), p: int)
    ensures has_fam(v.push(x), p) == (has_fam(v, p) || fam(x) == p),
{
    let q = v.push(x);
    if has_fam(q, p) { let i = choose|i: int| 0 <= i < q.len() && fam(#[trigger] q[i]) == p; if i < v.len() { assert(fam(v[i]) == p); } }
    if has_fam(v, p) { let i = choose|i: int| 0 <= i < v.len() && fam(#[trigger] v[i]) == p; assert(fam(q[i]) == p); }
    if fam(x) == p { assert(fam(q[v.len() as int]) == p); }
}
/// a node without a parent adds nothing
proof fn lemma_fam_none(t: Seq<int>, v: Seq<(Ele, bool)>, e: int)
    requires families(t, v), par(e) is None,
    ensures families(t.push(e), v),
{
    let q = t.push(e);
    assert forall|k: int| 0 <= k < v.len() implies entry(q, #[trigger] v[k]) by { lemma_entry_push(t, e, v[k]); }
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some implies has_fam(v, par(q[i])->0) by { assert(q[i] == t[i]); }
}
proof fn lemma_fam_known(v: Seq<(Ele, bool)>, m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>, e: int)
    requires indexed(v, m, ps, root(e)), par(e) is Some,
    ensures
        m.contains_key(path(par(e)->0)) == has_fam(v, par(e)->0),
        m.contains_key(path(par(e)->0)) ==> m[path(par(e)->0)].0 < v.len() && fam(v[m[path(par(e)->0)].0 as int]) == par(e)->0 && v[m[path(par(e)->0)].0 as int].1 == m[path(par(e)->0)].1,
{
    let p = par(e)->0;
    lemma_path_len(e);
    if m.contains_key(path(p)) {
        let k = m[path(p)].0 as int;
        lemma_path_inj(fam(v[k]), p);
        assert(fam(v[k]) == p);
    }
    if has_fam(v, p) { let k = choose|k: int| 0 <= k < v.len() && fam(#[trigger] v[k]) == p; assert(m.contains_key(path(fam(v[k])))); }
}
/// the family stands already as its parent
proof fn lemma_fam_more(t: Seq<int>, v: Seq<(Ele, bool)>, e: int, k: int)
    requires families(t, v), par(e) is Some, 0 <= k < v.len(), fam(v[k]) == par(e)->0, v[k].1,
    ensures families(t.push(e), v),
{
    let q = t.push(e);
    assert forall|i: int| 0 <= i < v.len() implies entry(q, #[trigger] v[i]) by { if i < k { assert(fam(v[i]) != fam(v[k])); } else if k < i { assert(fam(v[k]) != fam(v[i])); } lemma_entry_push(t, e, v[i]); }
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some implies has_fam(v, par(q[i])->0) by { if i < t.len() { assert(q[i] == t[i]); } else { assert(fam(v[k]) == par(e)->0); } }
}
/// the second of a family
proof fn lemma_fam_second(t: Seq<int>, v: Seq<(Ele, bool)>, e: int, k: int, x: (Ele, bool), m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>)
    requires
        families(t, v), indexed(v, m, ps, root(e)), par(e) is Some, 0 <= k < v.len(), k <= usize::MAX, fam(v[k]) == par(e)->0, !v[k].1, !t.contains(e),
        x.1, id_of(&x.0) == par(e)->0,
    ensures
        families(t.push(e), v.update(k, x)),
        indexed(v.update(k, x), m.insert(path(par(e)->0), (k as usize, true)), ps.remove(k as usize), root(e)),
{
    let q = t.push(e);
    let w = v.update(k, x);
    let p = par(e)->0;
    let a = id_of(&v[k].0);
    assert(entry(t, v[k]));
    let i0 = choose|i: int| 0 <= i < t.len() && t[i] == a;
    assert(par(q[i0]) == Some(p) && par(q[t.len() as int]) == Some(p));
    assert(two(q, p));
    assert forall|i: int| 0 <= i < w.len() implies entry(q, #[trigger] w[i]) by {
        if i < k { assert(fam(v[i]) != fam(v[k])); lemma_entry_push(t, e, v[i]); }
        else if k < i { assert(fam(v[k]) != fam(v[i])); lemma_entry_push(t, e, v[i]); }
    }
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some implies has_fam(w, par(q[i])->0) by {
        if i < t.len() {
            assert(q[i] == t[i]);
            let j = choose|j: int| 0 <= j < v.len() && fam(#[trigger] v[j]) == par(t[i])->0;
            assert(fam(w[j]) == fam(v[j]));
        } else { assert(fam(w[k]) == p); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies fam(#[trigger] w[i]) != fam(#[trigger] w[j]) by { assert(fam(v[i]) != fam(v[j])); assert(fam(w[i]) == fam(v[i]) && fam(w[j]) == fam(v[j])); }
    let m2 = m.insert(path(p), (k as usize, true));
    lemma_path_len(e);
    assert forall|j: int| 0 <= j < w.len() implies root(fam(#[trigger] w[j])) == root(e) && m2.contains_key(path(fam(w[j]))) && m2[path(fam(w[j]))] == (j as usize, w[j].1) by {
        assert(fam(w[j]) == fam(v[j]));
        assert(root(fam(v[j])) == root(e));
        if j != k { if path(fam(v[j])) == path(p) { lemma_path_inj(fam(v[j]), p); if j < k { assert(fam(v[j]) != fam(v[k])); } else { assert(fam(v[k]) != fam(v[j])); } } }
    }
    assert forall|j: int| 0 <= j < w.len() && !(#[trigger] w[j]).1 implies ps.remove(k as usize).contains_key(j as usize) && ps.remove(k as usize)[j as usize] == fam(w[j]) by {
        assert(!v[j].1);
        assert(m[path(fam(v[j]))] == (j as usize, v[j].1));
        assert(m[path(fam(v[k]))] == (k as usize, v[k].1));
        lemma_idx(v, m, ps, root(e), j);
        lemma_idx(v, m, ps, root(e), k);
    }
    assert forall|r: Seq<usize>| #[trigger] m2.contains_key(r) implies m2[r].0 < w.len() && path(fam(w[m2[r].0 as int])) == r by {
        if r != path(p) { assert(m.contains_key(r)); assert(fam(w[m[r].0 as int]) == fam(v[m[r].0 as int])); }
    }
}
proof fn lemma_idx(v: Seq<(Ele, bool)>, m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>, rt: int, k: int)
    requires indexed(v, m, ps, rt), 0 <= k < v.len(),
    ensures (k as usize) < v.len() && fam(v[(k as usize) as int]) == fam(v[k]),
{
    let q = path(fam(v[k]));
    assert(m.contains_key(q) && m[q].0 == k as usize);
    assert(root(fam(v[m[q].0 as int])) == rt);
    lemma_path_inj(fam(v[m[q].0 as int]), fam(v[k]));
}
/// the first of a family
proof fn lemma_fam_first(t: Seq<int>, v: Seq<(Ele, bool)>, e: int, x: (Ele, bool), m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>)
    requires
        families(t, v), indexed(v, m, ps, root(e)), par(e) is Some, !has_fam(v, par(e)->0), v.len() < usize::MAX,
        !x.1, id_of(&x.0) == e,
    ensures
        families(t.push(e), v.push(x)),
        indexed(v.push(x), m.insert(path(par(e)->0), (v.len() as usize, false)), ps.insert(v.len() as usize, par(e)->0), root(e)),
{
    let q = t.push(e);
    let w = v.push(x);
    let p = par(e)->0;
    assert(q[t.len() as int] == e);
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) == par(e) implies q[i] == e by { if i < t.len() { assert(par(t[i]) is Some); assert(has_fam(v, par(t[i])->0)); } }
    assert(only(q, e));
    assert forall|i: int| 0 <= i < w.len() implies entry(q, #[trigger] w[i]) by { if i < v.len() { assert(fam(v[i]) != p); lemma_entry_push(t, e, v[i]); } }
    assert forall|i: int| 0 <= i < q.len() && par(#[trigger] q[i]) is Some implies has_fam(w, par(q[i])->0) by { lemma_has_fam_push(v, x, par(q[i])->0); if i < t.len() { assert(q[i] == t[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies fam(#[trigger] w[i]) != fam(#[trigger] w[j]) by { if j < v.len() { assert(fam(v[i]) != fam(v[j])); } else { assert(fam(v[i]) != p); } }
    let m2 = m.insert(path(p), (v.len() as usize, false));
    lemma_path_len(e);
    assert forall|j: int| 0 <= j < w.len() implies root(fam(#[trigger] w[j])) == root(e) && m2.contains_key(path(fam(w[j]))) && m2[path(fam(w[j]))] == (j as usize, w[j].1) by {
        if j < v.len() { assert(root(fam(v[j])) == root(e)); if path(fam(v[j])) == path(p) { lemma_path_inj(fam(v[j]), p); } }
    }
    assert forall|j: int| 0 <= j < w.len() && !(#[trigger] w[j]).1 implies ps.insert(v.len() as usize, p).contains_key(j as usize) && ps.insert(v.len() as usize, p)[j as usize] == fam(w[j]) by { if j < v.len() { assert(!v[j].1); } }
    assert forall|r: Seq<usize>| #[trigger] m2.contains_key(r) implies m2[r].0 < w.len() && path(fam(w[m2[r].0 as int])) == r by {
        if r != path(p) { assert(m.contains_key(r)); assert(w[m[r].0 as int] == v[m[r].0 as int]); }
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::unique_all_siblings
//@ prop C02 C03
//@ ret r
//@ rule text HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity => PathMap = PathMap::with_capacity
//@ rule text HashMap<usize, BoxDynElement> = HashMap::with_capacity => EleMap = EleMap::with_capacity
//@ header
    requires good(self.ids()),
    ensures families(self.ids(), r@),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    hide(families); hide(indexed); hide(sorted); hide(path);
    let ghost s = self.ids();
    let ghost rt = if s.len() > 0 { root(s[0]) } else { 0 };
    proof { self.nodes.len(); lemma_sorted_distinct(s); reveal(families); reveal(indexed); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        families(s.take(__i0 as int), uniques@), uniques@.len() <= __i0,
        indexed(uniques@, parents_indexs.view(), parents.view(), rt),
//@ at loop-start 0
    let ghost t = s.take(__i0 - 1);
    let ghost v = uniques@;
    let ghost m = parents_indexs.view();
    let ghost ps = parents.view();
    let ghost e = id_of(ele);
    proof {
        assert(s[__i0 - 1] == e);
        assert(root(s[0]) == root(s[__i0 - 1]));
        assert(s.take(__i0 as int) =~= t.push(e));
        assert(!t.contains(e));
        if par(e) is None { lemma_fam_none(t, v, e); } else { lemma_fam_known(v, m, ps, e); }
        if par(e) is Some && has_fam(v, par(e)->0) && v[m[path(par(e)->0)].0 as int].1 { lemma_fam_more(t, v, e, m[path(par(e)->0)].0 as int); }
        if par(e) is Some && has_fam(v, par(e)->0) && !v[m[path(par(e)->0)].0 as int].1 { let k = m[path(par(e)->0)].0 as int; lemma_ps(v, m, ps, rt, k); }
    }
//@ at loop-end 0
    proof {
        if par(e) is Some {
            let p = par(e)->0;
            if has_fam(v, p) {
                let k = m[path(p)].0 as int;
                if !v[k].1 {
                    lemma_fam_second(t, v, e, k, uniques@[k], m, ps);
                    assert(uniques@ =~= v.update(k, uniques@[k]));
                } else { assert(parents_indexs.view() =~= m); }
            } else {
                lemma_fam_first(t, v, e, uniques@[v.len() as int], m, ps);
                assert(uniques@ =~= v.push(uniques@[v.len() as int]));
            }
        }
    }
//@ at loop-exit 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@ emit
}
proof fn lemma_ps(v: Seq<(Ele, bool)>, m: Map<Seq<usize>, (usize, bool)>, ps: Map<usize, int>, rt: int, k: int)
    requires indexed(v, m, ps, rt), 0 <= k < v.len(), !v[k].1, k <= usize::MAX,
    ensures ps.contains_key(k as usize), ps[k as usize] == fam(v[k]),
{}
//@ emit
spec fn outp(x: (Ele, bool)) -> Seq<int> { if x.1 { elkids(id_of(&x.0)) } else { prevs(id_of(&x.0)) + nexts(id_of(&x.0)) } }
spec fn some_out(v: Seq<(Ele, bool)>, i: int, d: int) -> bool { exists|k: int| 0 <= k < i && k < v.len() && outp(#[trigger] v[k]).contains(d) }
proof fn lemma_siblings(n: int)
    ensures
        good(prevs(n) + nexts(n)), grouped(prevs(n) + nexts(n)),
        forall|d: int| #[trigger] (prevs(n) + nexts(n)).contains(d) <==> rel(Siblings, n, d),
{
    lemma_prevs(n);
    lemma_nexts(n);
    let a = prevs(n);
    let b = nexts(n);
    lemma_contains_add(a, b);
    let q = a + b;
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies idx(#[trigger] q[i]) < idx(#[trigger] q[j]) by {
        if j < a.len() { assert(idx(a[i]) < idx(a[j])); } else if i >= a.len() { assert(idx(b[i - a.len()]) < idx(b[j - a.len()])); } else { assert(idx(a[i]) < idx(n)); assert(idx(n) < idx(b[j - a.len()])); }
    }
    assert forall|i: int| 0 <= i < q.len() implies is_el(#[trigger] q[i]) && par(q[i]) is Some && par(q[i]) == par(n) by { if i < a.len() { assert(is_el(a[i])); } else { assert(is_el(b[i - a.len()])); } }
    lemma_sib_good(q);
    lemma_good_grouped(q);
}
proof fn lemma_out_from(s: Seq<int>, v: Seq<(Ele, bool)>, d: int)
    requires families(s, v), good(s),
    ensures some_out(v, v.len() as int, d) == from(s, Siblings, d),
{
    lemma_sorted_distinct(s);
    if some_out(v, v.len() as int, d) {
        let k = choose|k: int| 0 <= k < v.len() && outp(#[trigger] v[k]).contains(d);
        assert(entry(s, v[k]));
        if v[k].1 {
            let p = id_of(&v[k].0);
            lemma_elkids(p);
            let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && par(#[trigger] s[i]) == Some(p) && par(#[trigger] s[j]) == Some(p);
            assert(s[i] != s[j]);
            axiom_tree(s[i]); axiom_tree(s[j]); axiom_tree(d); axiom_tree(p);
            if idx(s[i]) != idx(d) { lemma_sib_rel(s[i], d); assert(rel(Siblings, s[i], d)); } else { lemma_sib_rel(s[j], d); assert(rel(Siblings, s[j], d)); }
        } else {
            let a = id_of(&v[k].0);
            lemma_siblings(a);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
            assert(rel(Siblings, s[i], d));
        }
    }
    if from(s, Siblings, d) {
        let i = choose|i: int| 0 <= i < s.len() && rel(Siblings, #[trigger] s[i], d);
        lemma_prevs(s[i]);
        lemma_nexts(s[i]);
        let p = par(s[i])->0;
        assert(has_fam(v, p));
        let k = choose|k: int| 0 <= k < v.len() && fam(#[trigger] v[k]) == p;
        assert(entry(s, v[k]));
        if v[k].1 { lemma_elkids(p); } else { lemma_siblings(s[i]); }
        assert(outp(v[k]).contains(d));
    }
}
proof fn lemma_sib_rel(e: int, d: int)
    requires par(e) is Some, par(d) == par(e), is_el(d), idx(d) != idx(e),
    ensures rel(Siblings, e, d),
{ lemma_prevs(e); lemma_nexts(e); }
proof fn lemma_fam_small(s: Seq<int>, v: Seq<(Ele, bool)>)
    requires families(s, v), s.len() <= 1,
    ensures v.len() <= 1,
{
    if v.len() > 1 {
        assert(entry(s, v[0]) && entry(s, v[1]));
        assert(fam(v[0]) != fam(v[1]));
    }
}
/// what the first i entries give
spec fn upartial(v: Seq<(Ele, bool)>, f: spec_fn(int) -> bool, i: int, r: Seq<int>) -> bool {
    &&& 0 <= i <= v.len()
    &&& forall|d: int| #[trigger] r.contains(d) <==> f(d) && some_out(v, i, d)
    &&& i <= 1 ==> sorted(r)
    &&& i == 0 ==> r == Seq::<int>::empty()
}
proof fn lemma_out(x: (Ele, bool))
    ensures grouped(outp(x)), sorted(outp(x)),
{ if x.1 { lemma_elkids(id_of(&x.0)); lemma_good_grouped(elkids(id_of(&x.0))); } else { lemma_siblings(id_of(&x.0)); } }
proof fn lemma_upartial(v: Seq<(Ele, bool)>, f: spec_fn(int) -> bool, i: int, r: Seq<int>, q: Seq<int>)
    requires upartial(v, f, i, r), i < v.len(), matching(outp(v[i]), f, q),
    ensures upartial(v, f, i + 1, r + q),
{
    lemma_out(v[i]);
    lemma_contains_add(r, q);
    if i == 0 { assert(r + q =~= q); }
    assert forall|d: int| #[trigger] (r + q).contains(d) <==> f(d) && some_out(v, i + 1, d) by {
        if some_out(v, i + 1, d) { let k = choose|k: int| 0 <= k < i + 1 && k < v.len() && outp(#[trigger] v[k]).contains(d); if k < i { assert(some_out(v, i, d)); } }
        if some_out(v, i, d) { let k = choose|k: int| 0 <= k < i && k < v.len() && outp(#[trigger] v[k]).contains(d); assert(outp(v[k]).contains(d)); }
        if outp(v[i]).contains(d) { assert(some_out(v, i + 1, d)); }
    }
}
proof fn lemma_upartial_all(s: Seq<int>, v: Seq<(Ele, bool)>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires families(s, v), good(s), upartial(v, f, v.len() as int, r),
    ensures stepped(s, Siblings, f, r), s.len() <= 1 ==> sorted(r),
{
    if s.len() <= 1 { lemma_fam_small(s, v); }
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, Siblings, d) by { lemma_out_from(s, v, d); }
}
proof fn lemma_upartial_none(v: Seq<(Ele, bool)>, f: spec_fn(int) -> bool)
    ensures upartial(v, f, 0, Seq::empty()),
{}
//@ arm mesdoc/interface/elements.rs Elements::select_by_rule Siblings as arm_siblings
//@ prop C02 C03
//@ sig
fn arm_siblings<'a>(elements: &Elements<'a>, matcher: &Matcher, mut result: Elements<'a>) -> (r: Elements<'a>)
//@ tail result
//@ rule method extend => vx_extend(val)
//@ header
    requires wf(matcher), good(elements.ids()), result.ids() == Seq::<int>::empty(),
    ensures
        stepped(elements.ids(), Siblings, mt_fn(matcher), r.ids()), elements.ids().len() <= 1 ==> sorted(r.ids()),
//@ at start
    hide(good); hide(grouped); hide(matching); hide(stepped); hide(sorted); hide(upartial); hide(families);
//@ loop 0 val
    invariant
        wf(matcher), families(elements.ids(), __s0@), __i0 <= __s0.len(), upartial(__s0@, mt_fn(matcher), __i0 as int, result.ids()),
//@ at pre-loop 0
    proof { lemma_upartial_none(__s0@, mt_fn(matcher)); }
//@ at loop-start 0
    let ghost r1 = result.ids();
    proof { lemma_out(__s0@[__i0 - 1]); }
//@ at loop-end 0
    proof {
        let q = choose|q: Seq<int>| matching(outp(__s0@[__i0 - 1]), mt_fn(matcher), q) && #[trigger] (r1 + q) == result.ids();
        lemma_upartial(__s0@, mt_fn(matcher), __i0 - 1, r1, q);
    }
//@ at loop-exit 0
    proof { lemma_upartial_all(elements.ids(), __s0@, mt_fn(matcher), result.ids()); }
//@ emit
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::select_by_rule
//@ prop C02 C03 C11
//@ ret r
//@ rule arm ChildrenAll => { result = arm_children_all(elements, matcher, result); }
//@ rule arm Children => { result = arm_children(elements, matcher, result); }
//@ rule arm Parent => { result = arm_parent(elements, matcher, result); }
//@ rule arm ParentAll => { result = arm_parent_all(elements, matcher, result); }
//@ rule arm NextAll => { result = arm_next_all(elements, matcher, result); }
//@ rule arm Next => { result = arm_next(elements, matcher, result); }
//@ rule arm PrevAll => { result = arm_prev_all(elements, matcher, result); }
//@ rule arm Prev => { result = arm_prev(elements, matcher, result); }
//@ rule arm Siblings => { result = arm_siblings(elements, matcher, result); }
//@ rule arm Chain => { result = arm_chain(elements, matcher, result); }
//@ rule text DEF_NODES_LEN => 20
//@ header
    requires wf(&rule_item.0), good(elements.ids()),
    ensures
        good(r.ids()), stepped(elements.ids(), comb_of(rule_item, comb), mt_fn(&rule_item.0), r.ids()),
//@ at before if elements.length() > 1
    let ghost r1 = result.ids();
    proof { lemma_stepped_one(elements.ids(), *cur_comb, mt_fn(matcher), r1); }
//@ at after if elements.length() > 1
    proof {
        if r1 != result.ids() { lemma_stepped_same(elements.ids(), *cur_comb, mt_fn(matcher), r1, result.ids()); }
        lemma_stepped_one(elements.ids(), *cur_comb, mt_fn(matcher), result.ids());
    }
//@ emit
}
//@ emit
}
fn main() {}
