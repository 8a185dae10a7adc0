//@ include base.vx
use std::collections::VecDeque;
use std::collections::HashMap;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ fn mesdoc/interface/elements.rs get_tree_indexs/loop_handle as tree_indexs_loop
//@ prop C03 C04 C02
//@ rule text loop_handle( => tree_indexs_loop(
//@ header
    ensures final(indexs)@ == path(id_of(ele)) + old(indexs)@,
    decreases depth(id_of(ele)),
//@ at start
    proof { axiom_tree(id_of(ele)); lemma_path_len(id_of(ele)); }
//@ at end
    proof { assert(indexs@ =~= path(id_of(ele)) + old(indexs)@); }
//@ fn mesdoc/interface/elements.rs get_tree_indexs
//@ prop C03 C04 C02
//@ ret r
//@ rule text loop_handle(ele, &mut => tree_indexs_loop(ele, &mut
//@ rule text DEF_NODES_LEN => 20
//@ header
    ensures r@ == path(id_of(ele)),
//@ at end
    proof { assert(__r@ =~= path(id_of(ele))); }
//@ fn mesdoc/interface/elements.rs compare_indexs
//@ prop C03 C04 C02
//@ ret r
//@ header
    ensures
        r is Less == lt(a@, b@),
        r is Equal == (a@ == b@),
        r is Greater == lt(b@, a@),
//@ loop 0
    invariant
        a_total == a@.len(), b_total == b@.len(), loop_total == (if a_total > b_total { b_total } else { a_total }),
        __a0 == 0, __e0 == loop_total, __i0 <= loop_total, agree(a@, b@, __i0 as int),
//@ at before match a_index.cmp(&b_index)
    proof {
        if a_index < b_index { lemma_lt_at(a@, b@, i as int); lemma_lt_asym(a@, b@); }
        if b_index < a_index { assert(agree(b@, a@, i as int)); lemma_lt_at(b@, a@, i as int); lemma_lt_asym(b@, a@); }
    }
//@ at before a_total.cmp(&b_total)
    proof {
        if a_total < b_total { lemma_lt_at(a@, b@, a_total as int); lemma_lt_asym(a@, b@); }
        else if b_total < a_total { assert(agree(b@, a@, b_total as int)); lemma_lt_at(b@, a@, b_total as int); lemma_lt_asym(b@, a@); }
        else { assert(a@ =~= b@); lemma_lt_irrefl(a@); }
    }
//@ emit
//@ item mesdoc/interface/elements.rs ElementRelation
//@ fn mesdoc/interface/elements.rs relation_of
//@ prop C03 C02
//@ ret r
//@ header
    ensures
        r is Equal == (a@ == b@),
        r is Ancestor == prefix(a@, b@),
        r is Descendant == prefix(b@, a@),
//@ loop 0
    invariant_except_break
        equal_num == __i0,
    invariant
        a_total == a@.len(), b_total == b@.len(), loop_total == (if a_total > b_total { b_total } else { a_total }),
        __a0 == 0, __e0 == loop_total, __i0 <= loop_total, equal_num <= loop_total, agree(a@, b@, equal_num as int),
    ensures
        equal_num < loop_total ==> a@[equal_num as int] != b@[equal_num as int],
//@ at before match (a_left == 0, b_left == 0)
    proof {
        assert(agree(b@, a@, equal_num as int));
        if a_left == 0 && b_left == 0 { assert(a@ =~= b@); }
    }
//@ emit
// ---------------------------------------------------------------- sort and unique
spec fn cmp_of(a: &Ele, b: &Ele, r: Ordering) -> bool {
    (r is Less == before(id_of(a), id_of(b))) && (r is Equal == (path(id_of(a)) == path(id_of(b)))) && (r is Greater == before(id_of(b), id_of(a)))
}
/// TRUSTED: slice::sort_by puts the elements in the order of the comparator and keeps them all
#[verifier::external_body]
fn vx_sort_by<'a, F: Fn(&Ele<'a>, &Ele<'a>) -> Ordering>(v: &mut Vec<Ele<'a>>, f: F)
    requires
        forall|a: &Ele<'a>, b: &Ele<'a>| #[trigger] f.requires((a, b)),
        forall|a: &Ele<'a>, b: &Ele<'a>, r: Ordering| #[trigger] f.ensures((a, b), r) ==> cmp_of(a, b, r),
    ensures
        ids(final(v)@).to_multiset() == ids(old(v)@).to_multiset(),
        wsorted(ids(final(v)@)),
{ unimplemented!() }
spec fn dedup(s: Seq<int>) -> Seq<int>
    decreases s.len(),
{
    if s.len() <= 1 { s } else if s.last() == s[s.len() - 2] { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) }
}
/// TRUSTED: Vec::dedup_by keeps the first of each run
#[verifier::external_body]
fn vx_dedup_by<'a, F: Fn(&Ele<'a>, &Ele<'a>) -> bool>(v: &mut Vec<Ele<'a>>, f: F)
    requires
        forall|a: &Ele<'a>, b: &Ele<'a>| #[trigger] f.requires((a, b)),
        forall|a: &Ele<'a>, b: &Ele<'a>, r: bool| #[trigger] f.ensures((a, b), r) ==> r == (id_of(a) == id_of(b)),
    ensures ids(final(v)@) == dedup(ids(old(v)@)),
{ unimplemented!() }
proof fn lemma_multiset_members(a: Seq<int>, b: Seq<int>)
    requires a.to_multiset() == b.to_multiset(),
    ensures same_members(a, b),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|n: int| #![trigger a.contains(n)] #![trigger b.contains(n)] a.contains(n) == b.contains(n) by {
        assert(a.contains(n) <==> a.to_multiset().count(n) > 0);
        assert(b.contains(n) <==> b.to_multiset().count(n) > 0);
    }
}
proof fn lemma_dedup(s: Seq<int>, r: int)
    requires wsorted(s), one_root(s, r),
    ensures sorted(dedup(s)), same_members(s, dedup(s)), s.len() > 0 ==> dedup(s).len() > 0 && dedup(s).last() == s.last(),
    decreases s.len(),
{
    if s.len() > 1 {
        let d = s.drop_last();
        let t = dedup(s);
        assert(wsorted(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies before(#[trigger] d[i], #[trigger] d[j]) || path(d[i]) == path(d[j]) by { assert(s[i] == d[i] && s[j] == d[j]); } }
        assert(one_root(d, r)) by { assert forall|i: int| 0 <= i < d.len() implies root(#[trigger] d[i]) == r by { assert(s[i] == d[i]); } }
        lemma_dedup(d, r);
        let e = dedup(d);
        assert(d.last() == s[s.len() - 2]);
        if s.last() != d.last() {
            assert(root(s[s.len() - 1]) == r && root(s[s.len() - 2]) == r);
            if path(s.last()) == path(d.last()) { lemma_path_inj(s.last(), d.last()); }
            assert(before(s[s.len() - 2], s[s.len() - 1]));
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies before(#[trigger] t[i], #[trigger] t[j]) by {
                if j < e.len() { assert(t[i] == e[i] && t[j] == e[j]); }
                else if i == e.len() - 1 { }
                else { assert(before(e[i], e[e.len() - 1])); lemma_lt_trans(path(e[i]), path(d.last()), path(s.last())); }
            }
        }
        assert forall|n: int| #![trigger s.contains(n)] #![trigger t.contains(n)] s.contains(n) == t.contains(n) by {
            if s.contains(n) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == n;
                if i < d.len() { assert(d[i] == n); assert(d.contains(n)); assert(e.contains(n)); let k = choose|k: int| 0 <= k < e.len() && e[k] == n; assert(t[k] == n); }
                else { assert(t[t.len() - 1] == n); }
            }
            if t.contains(n) {
                let k = choose|k: int| 0 <= k < t.len() && t[k] == n;
                if k < e.len() { assert(e[k] == n); assert(e.contains(n)); assert(d.contains(n)); let i = choose|i: int| 0 <= i < d.len() && d[i] == n; assert(s[i] == n); }
                else { assert(s[s.len() - 1] == n); }
            }
        }
    }
}
proof fn lemma_one_root_members(a: Seq<int>, b: Seq<int>, r: int)
    requires same_members(a, b), one_root(a, r),
    ensures one_root(b, r),
{
    assert forall|i: int| 0 <= i < b.len() implies root(#[trigger] b[i]) == r by {
        assert(b.contains(b[i]));
        assert(a.contains(b[i]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
        assert(root(a[k]) == r);
    }
}
/// some element of s is a proper ancestor of n
spec fn ids_of_pairs(v: Seq<(VecDeque<usize>, &Ele)>) -> Seq<int> { Seq::new(v.len(), |i: int| id_of(v[i].1)) }
proof fn lemma_prefix_lt(a: Seq<usize>, b: Seq<usize>)
    requires prefix(a, b),
    ensures lt(a, b),
{ lemma_lt_at(a, b, a.len() as int); }
/// what lies between a node and one of its descendants is a descendant too
proof fn lemma_prefix_between(p: Seq<usize>, t: Seq<usize>, e: Seq<usize>)
    requires prefix(p, e), lt(p, t), lt(t, e),
    ensures prefix(p, t),
{
    reveal(lt);
    let j = choose|k: int| lt_at(p, t, k);
    let k = choose|k: int| lt_at(t, e, k);
    if j < p.len() {
        if k > j { assert(t[j] == e[j]); assert(p[j] == e[j]); }
        else { if k < t.len() { assert(t[k] < e[k]); if k < j { assert(t[k] == p[k]); } else { assert(p[j] < t[j]); } } else { assert(k == t.len()); } }
    }
}
proof fn lemma_prefix_trans(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>)
    requires prefix(a, b), prefix(b, c),
    ensures prefix(a, c),
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b[i]); } }
proof fn lemma_has_top(s: Seq<int>, t: Seq<int>, m: int) -> (i: int)
    requires tops(s, t), s.contains(m),
    ensures 0 <= i < t.len(), t[i] == m || prefix(path(t[i]), path(m)),
    decreases path(m).len(),
{
    if !covered(s, m) {
        assert(t.contains(m));
        choose|i: int| 0 <= i < t.len() && t[i] == m
    } else {
        let j = choose|j: int| 0 <= j < s.len() && prefix(path(#[trigger] s[j]), path(m));
        assert(s.contains(s[j]));
        let i = lemma_has_top(s, t, s[j]);
        if t[i] != s[j] { lemma_prefix_trans(path(t[i]), path(s[j]), path(m)); }
        i
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(50)]
proof fn lemma_tops_step(s: Seq<int>, t: Seq<int>, k: int)
    requires sorted(s), 0 <= k < s.len(), tops(s.take(k), t),
    ensures
        k > 0 ==> t.len() > 0,
        t.len() > 0 ==> before(t.last(), s[k]) && !prefix(path(s[k]), path(t.last())) && path(s[k]) != path(t.last()),
        t.len() > 0 && prefix(path(t.last()), path(s[k])) ==> tops(s.take(k + 1), t),
        t.len() == 0 || !prefix(path(t.last()), path(s[k])) ==> tops(s.take(k + 1), t.push(s[k])),
{
    let e = s[k];
    let s1 = s.take(k);
    let s2 = s.take(k + 1);
    assert forall|i: int| 0 <= i < t.len() implies before(#[trigger] t[i], e) && s1.contains(t[i]) && !prefix(path(e), path(t[i])) by {
        assert(t.contains(t[i]));
        let j = choose|j: int| 0 <= j < s1.len() && s1[j] == t[i];
        assert(before(s[j], s[k]));
        lemma_lt_asym(path(t[i]), path(e));
        if prefix(path(e), path(t[i])) { lemma_prefix_lt(path(e), path(t[i])); }
    }
    if t.len() > 0 { assert(before(t[t.len() - 1], e)); lemma_lt_asym(path(t.last()), path(e)); }
    if k > 0 { assert(s1.contains(s1[0])); let _ = lemma_has_top(s1, t, s1[0]); }
    // covering by e itself
    assert forall|n: int| s2.contains(n) implies covered(s2, n) == covered(s1, n) by {
        if covered(s1, n) { let i = choose|i: int| 0 <= i < s1.len() && prefix(path(#[trigger] s1[i]), path(n)); assert(s2[i] == s1[i]); }
        if covered(s2, n) {
            let i = choose|i: int| 0 <= i < s2.len() && prefix(path(#[trigger] s2[i]), path(n));
            if i < k { assert(s1[i] == s2[i]); }
            else {
                lemma_prefix_lt(path(e), path(n));
                let j = choose|j: int| 0 <= j < s2.len() && s2[j] == n;
                if j < k { assert(before(s[j], s[k])); lemma_lt_asym(path(s[j]), path(s[k])); } else { lemma_lt_irrefl(path(e)); }
            }
        }
    }
    assert(s2[k] == e);
    assert(s2.contains(e));
    if covered(s1, e) {
        let i = choose|i: int| 0 <= i < s1.len() && prefix(path(#[trigger] s1[i]), path(e));
        assert(s1.contains(s1[i]));
        let j = lemma_has_top(s1, t, s1[i]);
        if t[j] != s1[i] { lemma_prefix_trans(path(t[j]), path(s1[i]), path(e)); }
        if j < t.len() - 1 {
            assert(before(t[j], t[t.len() - 1]));
            lemma_prefix_between(path(t[j]), path(t.last()), path(e));
            assert(s1.contains(t[j]));
            let x = choose|x: int| 0 <= x < s1.len() && s1[x] == t[j];
            assert(covered(s1, t.last()));
            assert(t.contains(t[t.len() - 1]));
            assert(false);
        }
        assert(prefix(path(t.last()), path(e)));
    }
    if t.len() > 0 && prefix(path(t.last()), path(e)) {
        assert(s1.contains(t[t.len() - 1]));
        let x = choose|x: int| 0 <= x < s1.len() && s1[x] == t.last();
        assert(covered(s1, e));
        assert forall|n: int| #[trigger] t.contains(n) <==> s2.contains(n) && !covered(s2, n) by {
            if t.contains(n) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == n; assert(s2[i] == n); }
            if s2.contains(n) && !covered(s2, n) { let i = choose|i: int| 0 <= i < s2.len() && s2[i] == n; assert(i < k); assert(s1[i] == n); }
        }
    } else {
        let u = t.push(e);
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies before(#[trigger] u[i], #[trigger] u[j]) by {
            if j < t.len() { assert(before(t[i], t[j])); } else { assert(before(t[i], e)); }
        }
        assert forall|n: int| #[trigger] u.contains(n) <==> s2.contains(n) && !covered(s2, n) by {
            if u.contains(n) {
                let i = choose|i: int| 0 <= i < u.len() && u[i] == n;
                if i < t.len() { assert(t[i] == n); assert(t.contains(n)); let j = choose|j: int| 0 <= j < s1.len() && s1[j] == n; assert(s2[j] == n); }
            }
            if s2.contains(n) && !covered(s2, n) {
                let i = choose|i: int| 0 <= i < s2.len() && s2[i] == n;
                if i < k { assert(s1[i] == n); assert(s1.contains(n)); assert(t.contains(n)); let j = choose|j: int| 0 <= j < t.len() && t[j] == n; assert(u[j] == n); }
                else { assert(u[u.len() - 1] == n); }
            }
        }
    }
}
// ---------------------------------------------------------------- union
/// stands for HashMap<usize, VecDeque<usize>>
#[verifier::external_body]
struct PathCache(HashMap<usize, VecDeque<usize>>);
impl View for PathCache { type V = Map<usize, Seq<usize>>; uninterp spec fn view(&self) -> Map<usize, Seq<usize>>; }
#[verifier::external_body]
fn vx_cache() -> (r: PathCache)
    ensures r@ == Map::<usize, Seq<usize>>::empty(),
{ unimplemented!() }
/// TRUSTED: HashMap::entry(k).or_insert_with(f)
#[verifier::external_body]
fn vx_or_insert<'a, F: FnOnce() -> VecDeque<usize>>(m: &'a mut PathCache, k: usize, f: F) -> (r: &'a mut VecDeque<usize>)
    requires f.requires(()),
    ensures
        old(m)@.contains_key(k) ==> r@ == old(m)@[k],
        !old(m)@.contains_key(k) ==> f.ensures((), *r),
        final(m)@ == old(m)@.insert(k, final(r)@),
{ unimplemented!() }
spec fn cache_ok(m: Map<usize, Seq<usize>>, a: Seq<int>) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> k < a.len() && m[k] == path(a[k as int]) }
/// the j-th of b belongs before the p-th of a
spec fn placed(a: Seq<int>, b: Seq<int>, j: int, p: int) -> bool {
    0 <= j < b.len() && 0 <= p <= a.len() && (p > 0 ==> before(a[p - 1], b[j])) && (p < a.len() ==> before(b[j], a[p]))
}
/// every one of the first s of b is in a, or has its place in m, in order
#[verifier::opaque]
spec fn mids_ok(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, s: int) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 < s && placed(a, b, m[i].0 as int, m[i].1 as int)
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 < (#[trigger] m[j]).0
    &&& forall|j: int| 0 <= j < s ==> a.contains(#[trigger] b[j]) || exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == j
}
/// everything before the f-th of a stands before the s-th of b
spec fn past(a: Seq<int>, b: Seq<int>, f: int, s: int) -> bool { forall|i: int| 0 <= i < f && i < a.len() && s < b.len() ==> before(#[trigger] a[i], b[s]) }
proof fn lemma_mids_push(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, s: int, p: usize)
    requires mids_ok(a, b, m, s), placed(a, b, s, p as int), s < usize::MAX,
    ensures mids_ok(a, b, m.push((s as usize, p)), s + 1),
{
    reveal(mids_ok);
    let n = m.push((s as usize, p));
    assert forall|j: int| 0 <= j < s + 1 implies a.contains(#[trigger] b[j]) || exists|i: int| 0 <= i < n.len() && (#[trigger] n[i]).0 == j by {
        if j < s { if !a.contains(b[j]) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == j; assert(n[i].0 == j); } }
        else { assert(n[m.len() as int].0 == j); }
    }
}
proof fn lemma_mids_skip(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, s: int)
    requires mids_ok(a, b, m, s), a.contains(b[s]),
    ensures mids_ok(a, b, m, s + 1),
{ reveal(mids_ok); }
proof fn lemma_mids_empty(a: Seq<int>, b: Seq<int>)
    ensures mids_ok(a, b, Seq::<(usize, usize)>::empty(), 0),
{ reveal(mids_ok); }
/// what stands before one element of b stands before all later ones
proof fn lemma_before_all(b: Seq<int>, s: int, t: int, x: int)
    requires sorted(b), 0 <= s <= t < b.len(), before(x, b[s]),
    ensures before(x, b[t]),
{ if s < t { assert(before(b[s], b[t])); lemma_lt_trans(path(x), path(b[s]), path(b[t])); } }
proof fn lemma_all_before(b: Seq<int>, s: int, t: int, x: int)
    requires sorted(b), 0 <= s <= t < b.len(), before(b[t], x),
    ensures before(b[s], x),
{ if s < t { assert(before(b[s], b[t])); lemma_lt_trans(path(b[s]), path(b[t]), path(x)); } }
proof fn lemma_past(a: Seq<int>, b: Seq<int>, f: int, s: int, g: int, t: int)
    requires sorted(a), sorted(b), 0 <= s <= t, 0 <= g <= a.len(), s < b.len(), g > 0 && t < b.len() ==> before(a[g - 1], b[t]),
    ensures past(a, b, g, t),
{
    assert forall|i: int| 0 <= i < g && i < a.len() && t < b.len() implies before(#[trigger] a[i], b[t]) by { lemma_all_before(a, i, g - 1, b[t]); }
}
/// the positions of the places do not go down
proof fn lemma_places(a: Seq<int>, b: Seq<int>, j: int, p: int, k: int, q: int)
    requires sorted(a), sorted(b), placed(a, b, j, p), placed(a, b, k, q), j < k,
    ensures p <= q,
{
    if q < p {
        assert(before(b[j], b[k]));
        // a[p-1] < b[j] < b[k] < a[q]
        lemma_lt_trans(path(a[p - 1]), path(b[j]), path(b[k]));
        lemma_lt_trans(path(a[p - 1]), path(b[k]), path(a[q]));
        lemma_all_before(a, q, p - 1, a[q]);
        lemma_lt_irrefl(path(a[q]));
    }
}
proof fn lemma_mids_len(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, s: int, k: int)
    requires mids_ok(a, b, m, s), 0 <= k < m.len(),
    ensures k <= m[k].0 < s,
    decreases k,
{
    reveal(mids_ok);
    if k > 0 { lemma_mids_len(a, b, m, s, k - 1); assert(m[k - 1].0 < m[k].0); }
}
/// TRUSTED: a vector of handles (two words each) cannot have more than isize::MAX / 16 elements
axiom fn axiom_room(v: &Vec<Ele>)
    ensures v@.len() < usize::MAX / 4;
proof fn lemma_cache_empty(a: Seq<int>)
    ensures cache_ok(Map::<usize, Seq<usize>>::empty(), a),
{}
proof fn lemma_union_empty(a: Seq<int>, b: Seq<int>)
    requires sorted(a), sorted(b),
    ensures a.len() == 0 ==> union_of(a, b, b), b.len() == 0 ==> union_of(a, b, a),
{}
/// what the merge has produced: the first i of a and the elements of the first k places
#[verifier::opaque]
spec fn merged(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, i: int, k: int, r: Seq<int>) -> bool {
    &&& sorted(r)
    &&& 0 <= i <= a.len()
    &&& 0 <= k <= m.len()
    &&& forall|n: int| #[trigger] r.contains(n) <==> (exists|x: int| 0 <= x < i && #[trigger] a[x] == n) || (exists|y: int| 0 <= y < k && b[(#[trigger] m[y]).0 as int] == n)
    &&& r.len() > 0 && i < a.len() ==> before(r.last(), a[i])
    &&& r.len() > 0 && k < m.len() ==> before(r.last(), b[m[k].0 as int])
}
proof fn lemma_push_sorted(r: Seq<int>, x: int)
    requires sorted(r), r.len() > 0 ==> before(r.last(), x),
    ensures sorted(r.push(x)), forall|n: int| #[trigger] r.push(x).contains(n) <==> r.contains(n) || n == x,
{
    let u = r.push(x);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies before(#[trigger] u[i], #[trigger] u[j]) by {
        if j < r.len() { assert(before(r[i], r[j])); } else { lemma_all_before(r, i, r.len() - 1, x); }
    }
    assert forall|n: int| #[trigger] u.contains(n) <==> r.contains(n) || n == x by {
        if r.contains(n) { let i = choose|i: int| 0 <= i < r.len() && r[i] == n; assert(u[i] == n); }
        if n == x { assert(u[r.len() as int] == n); }
        if u.contains(n) { let i = choose|i: int| 0 <= i < u.len() && u[i] == n; if i < r.len() { assert(r[i] == n); } }
    }
}
proof fn lemma_merge_mid(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, i: int, k: int, r: Seq<int>)
    requires sorted(a), sorted(b), mids_ok(a, b, m, b.len() as int), merged(a, b, m, i, k, r), k < m.len(), m[k].1 == i,
    ensures merged(a, b, m, i, k + 1, r.push(b[m[k].0 as int])),
{
    hide(sorted);
    reveal(mids_ok);
    reveal(merged);
    let x = b[m[k].0 as int];
    lemma_push_sorted(r, x);
    let u = r.push(x);
    if k + 1 < m.len() { assert(m[k].0 < m[k + 1].0); lemma_sorted_at(b, m[k].0 as int, m[k + 1].0 as int); }
    assert forall|n: int| #[trigger] u.contains(n) <==> (exists|x: int| 0 <= x < i && #[trigger] a[x] == n) || (exists|y: int| 0 <= y < k + 1 && b[(#[trigger] m[y]).0 as int] == n) by {
        if exists|y: int| 0 <= y < k + 1 && b[(#[trigger] m[y]).0 as int] == n {
            let y = choose|y: int| 0 <= y < k + 1 && b[(#[trigger] m[y]).0 as int] == n;
            if y < k { assert(r.contains(n)); }
        }
        if n == x { assert(b[m[k].0 as int] == n); }
        if r.contains(n) && !(exists|x: int| 0 <= x < i && #[trigger] a[x] == n) {
            let y = choose|y: int| 0 <= y < k && b[(#[trigger] m[y]).0 as int] == n;
            assert(0 <= y < k + 1 && b[m[y].0 as int] == n);
        }
    }
}
proof fn lemma_merge_first(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, i: int, k: int, r: Seq<int>)
    requires sorted(a), sorted(b), mids_ok(a, b, m, b.len() as int), merged(a, b, m, i, k, r), i < a.len(), k < m.len() ==> m[k].1 > i,
    ensures merged(a, b, m, i + 1, k, r.push(a[i])),
{
    hide(sorted);
    reveal(mids_ok);
    reveal(merged);
    let x = a[i];
    lemma_push_sorted(r, x);
    let u = r.push(x);
    if i + 1 < a.len() { lemma_sorted_at(a, i, i + 1); }
    if k < m.len() {
        let p = m[k].1 as int;
        assert(placed(a, b, m[k].0 as int, p));
        lemma_all_before(a, i, p - 1, b[m[k].0 as int]);
    }
    assert forall|n: int| #[trigger] u.contains(n) <==> (exists|x: int| 0 <= x < i + 1 && #[trigger] a[x] == n) || (exists|y: int| 0 <= y < k && b[(#[trigger] m[y]).0 as int] == n) by {
        if exists|x: int| 0 <= x < i + 1 && #[trigger] a[x] == n {
            let x = choose|x: int| 0 <= x < i + 1 && #[trigger] a[x] == n;
            if x < i { assert(r.contains(n)); }
        }
        if n == x { assert(a[i] == n); }
        if r.contains(n) && !(exists|y: int| 0 <= y < k && b[(#[trigger] m[y]).0 as int] == n) {
            let x = choose|x: int| 0 <= x < i && #[trigger] a[x] == n;
            assert(0 <= x < i + 1 && a[x] == n);
        }
    }
}
proof fn lemma_merge_start(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>)
    ensures merged(a, b, m, 0, 0, Seq::<int>::empty()),
{ reveal(merged); }
proof fn lemma_merge_done(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, r: Seq<int>)
    requires merged(a, b, m, a.len() as int, m.len() as int, r), mids_ok(a, b, m, b.len() as int),
    ensures union_of(a, b, r),
{
    reveal(mids_ok);
    reveal(merged);
    assert forall|n: int| #[trigger] r.contains(n) <==> a.contains(n) || b.contains(n) by {
        if a.contains(n) { let x = choose|x: int| 0 <= x < a.len() && a[x] == n; assert(r.contains(n)); }
        if b.contains(n) && !a.contains(n) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == n;
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == j;
            assert(b[m[i].0 as int] == n);
        }
        if r.contains(n) && !(exists|x: int| 0 <= x < a.len() && #[trigger] a[x] == n) {
            let y = choose|y: int| 0 <= y < m.len() && b[(#[trigger] m[y]).0 as int] == n;
            assert(placed(a, b, m[y].0 as int, m[y].1 as int));
            assert(b.contains(n));
        }
    }
}
/// behind the places used so far all places are at i or later
#[verifier::opaque]
spec fn rest_from(m: Seq<(usize, usize)>, k: int, i: int) -> bool { forall|y: int| k <= y < m.len() ==> i <= (#[trigger] m[y]).1 }
proof fn lemma_rest(a: Seq<int>, b: Seq<int>, m: Seq<(usize, usize)>, k: int, i: int)
    requires sorted(a), sorted(b), mids_ok(a, b, m, b.len() as int), 0 <= k < m.len(), m[k].1 >= i,
    ensures rest_from(m, k, i),
{
    reveal(mids_ok);
    reveal(rest_from);
    assert forall|y: int| k <= y < m.len() implies i <= (#[trigger] m[y]).1 by {
        if y > k { assert(m[k].0 < m[y].0); lemma_places(a, b, m[k].0 as int, m[k].1 as int, m[y].0 as int, m[y].1 as int); }
    }
}
//@ fn mesdoc/interface/elements.rs Elements::add/get_first_index_cached
//@ prop C03 C04
//@ ret r
//@ rule sig HashMap<usize, VecDeque<usize>> => PathCache
//@ rule sig first: &[BoxDynElement] => first: &Vec<BoxDynElement>
//@ rule text .entry(index) => 
//@ rule text || get_tree_indexs(&first[index]) => index, || -> (r: VecDeque<usize>) requires index < first@.len() ensures r@ == path(id_of(&first@[index as int])) { get_tree_indexs(&first[index]) }
//@ rule method or_insert_with => vx_or_insert(val)
//@ header
    requires index < first@.len(), cache_ok(old(first_indexs)@, ids(first@)),
    ensures
        r@ == path(ids(first@)[index as int]),
        final(r)@ == r@ ==> cache_ok(final(first_indexs)@, ids(first@)),
//@ emit
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::sort
//@ prop C03
//@ rule method sort_by => vx_sort_by(val)
//@ rule text |a, b| { => |a: &Ele, b: &Ele| -> (r: Ordering) ensures cmp_of(a, b, r) {
//@ header
    ensures wsorted(final(self).ids()), same_members(final(self).ids(), old(self).ids()),
//@ at end
    proof { lemma_multiset_members(self.ids(), old(self).ids()); }
//@ fn mesdoc/interface/elements.rs Elements::unique
//@ prop C03
//@ rule method dedup_by => vx_dedup_by(val)
//@ rule text |a, b| a.is(b) => |a: &Ele, b: &Ele| -> (r: bool) ensures r == (id_of(a) == id_of(b)) { a.is(b) }
//@ header
    ensures final(self).ids() == dedup(old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::sort_and_unique
//@ prop C03 C11
//@ header
    ensures
        same_members(final(self).ids(), old(self).ids()) || !exists|r: int| one_root(old(self).ids(), r),
        (exists|r: int| one_root(old(self).ids(), r)) ==> sorted(final(self).ids()),
//@ at after self.sort();
    let ghost mid = self.ids();
//@ at after self.unique();
    proof {
        if exists|r: int| one_root(old(self).ids(), r) {
            let r = choose|r: int| one_root(old(self).ids(), r);
            lemma_one_root_members(old(self).ids(), mid, r);
            lemma_dedup(mid, r);
        }
    }
//@ fn mesdoc/interface/elements.rs Elements::unique_parents
//@ prop C02 C03
//@ ret r
//@ header
    requires sorted(self.ids()),
    ensures
        tops(self.ids(), r.ids()),
//@ at start
    proof { assert(tops(self.ids().take(0), Seq::<int>::empty())); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), sorted(self.ids()),
        tops(self.ids().take(__i0 as int), ids_of_pairs(ancestors@)),
        forall|i: int| 0 <= i < ancestors@.len() ==> (#[trigger] ancestors@[i]).0@ == path(id_of(ancestors@[i].1)),
//@ at pre-loop 0
    proof { assert(ids_of_pairs(ancestors@) =~= Seq::<int>::empty()); }
//@ at loop-start 0
    let ghost k = __i0 - 1;
    let ghost a0 = ids_of_pairs(ancestors@);
    proof { lemma_tops_step(self.ids(), a0, k); assert(self.ids()[k] == id_of(ele)); if a0.len() > 0 { assert(ancestors@[ancestors@.len() - 1].0@ == path(a0.last())); } }
//@ at loop-end 0
    proof {
        assert(ids_of_pairs(ancestors@) =~= a0 || ids_of_pairs(ancestors@) =~= a0.push(id_of(ele)));
    }
//@ loop 1 ref
    invariant
        __i1 <= __s1.len(), result.ids() == all.take(__i1 as int), all == ids_of_pairs(__s1@),
//@ at before let mut result
    let ghost all = ids_of_pairs(ancestors@);
    proof { assert(self.ids().take(self.ids().len() as int) =~= self.ids()); }
//@ at loop-end 1
    proof { assert(all.take(__i1 as int) =~= all.take(__i1 - 1).push(all[__i1 - 1])); }
//@ at loop-exit 1
    proof { assert(all.take(all.len() as int) =~= all); }
//@ fn mesdoc/interface/elements.rs Elements::add
//@ prop C03 C04
//@ ret r
//@ attrs
#[verifier::rlimit(60)] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ header
    requires sorted(self.ids()), sorted(eles.ids()), exists|r: int| one_root(self.ids(), r) && one_root(eles.ids(), r),
    ensures union_of(self.ids(), eles.ids(), r.ids()),
//@ rule text HashMap<usize, VecDeque<usize>> => PathCache
//@ rule text HashMap::with_capacity(first_count) => vx_cache()
//@ at start
    hide(sorted); hide(one_root); hide(union_of); hide(cache_ok);
    let ghost a = self.ids();
    let ghost b = eles.ids();
    let ghost rt = choose|r: int| one_root(self.ids(), r) && one_root(eles.ids(), r);
    proof { lemma_cache_empty(a); lemma_union_empty(a, b); axiom_room(&self.nodes); axiom_room(&eles.nodes); lemma_mids_empty(a, b); assert(self.nodes.len() == a.len()); assert(eles.nodes.len() == b.len()); }
//@ loop 0
    invariant_except_break
        fir_left_index <= a.len(), sec_left_index <= b.len(),
        past(a, b, fir_left_index as int, sec_left_index as int),
    invariant
        cache_ok(first_indexs@, a),
        mids_ok(a, b, mids@, sec_left_index as int),
        sec_left_index <= b.len(),
    ensures
        sec_left_index < b.len() ==> fir_left_index == a.len() && past(a, b, a.len() as int, sec_left_index as int),
    decreases b.len() - sec_left_index,
//@ at loop-start 0
    let ghost x = b[sec_left_index as int];
    let ghost s0 = sec_left_index as int;
    let ghost f0 = fir_left_index as int;
    proof {
        assert(x == id_of(&eles.nodes@[s0]));
        if path(x) == path(a[f0]) { lemma_root_at(a, rt, f0); lemma_root_at(b, rt, s0); lemma_path_inj(x, a[f0]); assert(a.contains(x)); }
        if s0 + 1 < b.len() { lemma_sorted_at(b, s0, s0 + 1); }
    }
//@ loop 1
    invariant
        __e1 == b.len() - 1, s0 <= __i1 <= __e1, mids_ok(a, b, mids@, if __more1 { __i1 as int } else { b.len() as int }),
//@ at pre-loop 1
    proof { assert(before(a[a.len() - 1], x)); }
//@ at loop-start 1
    proof { lemma_before_all(b, s0, index as int, a[a.len() - 1]); lemma_mids_push(a, b, mids@, index as int, cur_fir_index); }
//@ loop 2
    invariant_except_break
        !find_equal, l < r,
    invariant
        f0 <= l <= mid, mid <= r <= fir_right_index, mid == (l + r) / 2,
        before(a[l as int], x), before(x, a[r as int]), cache_ok(first_indexs@, a),
    ensures
        find_equal ==> a[mid as int] == x,
        !find_equal ==> before(a[mid as int], x) && before(x, a[mid + 1]) && mid < fir_right_index,
    decreases r - l,
//@ at loop-start 2
    proof { if path(a[mid as int]) == path(x) { lemma_root_at(a, rt, mid as int); lemma_root_at(b, rt, s0); lemma_path_inj(x, a[mid as int]); } }
//@ at before if !find_equal
    proof {
        if find_equal { assert(a.contains(a[mid as int])); lemma_mids_skip(a, b, mids@, s0); }
        else { lemma_mids_push(a, b, mids@, s0, (mid + 1) as usize); }
        if s0 + 1 < b.len() {
            if !find_equal { lemma_lt_trans(path(a[mid as int]), path(x), path(b[s0 + 1])); }
            assert(before(a[mid as int], b[s0 + 1]));
            lemma_past(a, b, f0, s0, mid + 1, s0 + 1);
        }
    }
//@ loop 3
    invariant
        __e3 == b.len() - 1, __more3 ==> s0 + 1 <= __i3 <= __e3, mids_ok(a, b, mids@, if __more3 { __i3 as int } else { b.len() as int }),
//@ at pre-loop 3
    proof {
        lemma_root_at(a, rt, a.len() - 1); lemma_root_at(b, rt, s0);
        lemma_path_inj(x, a[a.len() - 1]);
        assert(a.contains(a[a.len() - 1]));
        lemma_mids_skip(a, b, mids@, s0);
    }
//@ at loop-start 3
    proof { lemma_sorted_at(b, s0, index as int); lemma_mids_push(a, b, mids@, index as int, cur_fir_index); }
//@ loop 4
    invariant
        __e4 == b.len() - 1, s0 <= __i4 <= __e4, mids_ok(a, b, mids@, if __more4 { __i4 as int } else { b.len() as int }),
//@ at pre-loop 4
    proof { assert(eles.nodes@[b.len() - 1] == sec_right); assert(before(b[b.len() - 1], a[f0])); }
//@ at loop-start 4
    proof {
        lemma_all_before(b, index as int, b.len() - 1, a[f0]);
        if f0 > 0 { assert(before(a[f0 - 1], b[s0])); lemma_before_all(b, s0, index as int, a[f0 - 1]); }
        lemma_mids_push(a, b, mids@, index as int, fir_left_index);
    }
//@ loop 5
    invariant
        __e5 == b.len() - 1, s0 <= __i5 <= __e5, mids_ok(a, b, mids@, __i5 as int),
//@ at pre-loop 5
    proof {
        lemma_root_at(a, rt, f0); lemma_root_at(b, rt, b.len() - 1);
        lemma_path_inj(b[b.len() - 1], a[f0]);
        assert(a.contains(a[f0]));
    }
//@ at loop-start 5
    proof {
        lemma_sorted_at(b, index as int, b.len() - 1);
        if f0 > 0 { assert(before(a[f0 - 1], b[s0])); lemma_before_all(b, s0, index as int, a[f0 - 1]); }
        lemma_mids_push(a, b, mids@, index as int, fir_left_index);
    }
//@ at loop-exit 5
    proof { lemma_mids_skip(a, b, mids@, b.len() - 1); }
//@ at before mids.push((sec_left_index, fir_left_index))
    proof {
        if f0 > 0 { assert(before(a[f0 - 1], b[s0])); }
        lemma_mids_push(a, b, mids@, s0, fir_left_index);
        if s0 + 1 < b.len() && f0 > 0 { lemma_lt_trans(path(a[f0 - 1]), path(x), path(b[s0 + 1])); lemma_past(a, b, f0, s0, f0, s0 + 1); }
    }
//@ at before fir_left_index += 1
    proof {
        lemma_mids_skip(a, b, mids@, s0);
        lemma_past(a, b, f0, s0, f0 + 1, s0 + 1);
    }
//@ loop 6
    invariant
        __e6 == b.len(), __a6 <= __i6 <= __e6, mids_ok(a, b, mids@, __i6 as int),
        __a6 < b.len() ==> past(a, b, a.len() as int, __a6 as int),
//@ at loop-start 6
    proof {
        assert(before(a[a.len() - 1], b[__a6 as int]));
        lemma_before_all(b, __a6 as int, index as int, a[a.len() - 1]);
        lemma_mids_push(a, b, mids@, index as int, first_count);
    }
//@ at before let mut result
    proof { if mids@.len() > 0 { lemma_mids_len(a, b, mids@, b.len() as int, mids@.len() - 1); } }
//@ at before let mut mid_loop
    let ghost m = mids@;
    proof { lemma_merge_start(a, b, m); assert(rest_from(m, 0, 0)) by { reveal(rest_from); } }
//@ loop 7
    invariant
        __s7@ == self.nodes@, __i7 <= __s7.len(), mid_loop <= m.len(),
        merged(a, b, m, __i7 as int, mid_loop as int, result.ids()),
        rest_from(m, mid_loop as int, __i7 as int),
//@ at loop-start 7
    let ghost k0 = mid_loop as int;
    proof { reveal(rest_from); assert(a[index as int] == id_of(ele)); }
//@ loop 8
    invariant_except_break
        mid_loop == k0 + __i8,
    invariant
        __s8@ == m.subrange(k0, m.len() as int), __i8 <= __s8.len(), mid_loop <= m.len(), mid_loop >= k0,
        merged(a, b, m, index as int, mid_loop as int, result.ids()),
        rest_from(m, mid_loop as int, index as int),
    ensures
        mid_loop < m.len() ==> m[mid_loop as int].1 > index,
//@ at loop-start 8
    proof {
        reveal(rest_from);
        assert(m[mid_loop as int] == __s8@[__i8 - 1]);
        reveal(mids_ok);
        assert(placed(a, b, m[mid_loop as int].0 as int, m[mid_loop as int].1 as int));
        if m[mid_loop as int].1 == index { lemma_merge_mid(a, b, m, index as int, mid_loop as int, result.ids()); }
    }
//@ at before result.push(ele.cloned())
    proof {
        lemma_merge_first(a, b, m, index as int, mid_loop as int, result.ids());
        if mid_loop < m.len() { lemma_rest(a, b, m, mid_loop as int, index + 1); } else { reveal(rest_from); }
    }
//@ at before if mid_loop < mids_count { for (sec_index, _)
    let ghost k1 = mid_loop as int;
    proof { if k1 >= m.len() { lemma_merge_done(a, b, m, result.ids()); } }
//@ loop 9
    invariant
        __s9@ == m.subrange(k1, m.len() as int), __i9 <= __s9.len(), k1 <= m.len(),
        merged(a, b, m, a.len() as int, k1 + __i9, result.ids()),
        rest_from(m, k1, a.len() as int),
//@ at loop-start 9
    proof {
        reveal(rest_from);
        let y = k1 + __i9 - 1;
        assert(m[y] == __s9@[__i9 - 1]);
        reveal(mids_ok);
        assert(placed(a, b, m[y].0 as int, m[y].1 as int));
        lemma_merge_mid(a, b, m, a.len() as int, y, result.ids());
    }
//@ at loop-exit 9
    proof { lemma_merge_done(a, b, m, result.ids()); }
//@ emit
}
}
fn main() {}
