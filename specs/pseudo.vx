//@ include base.vx
global size_of usize == 8;
use std::ops::Range;
use std::collections::VecDeque;
//@ include tree.vx
//@ include ord.vx
//@ include vxstr.vx
//@ include nthdef.vx
//@ emit
// ---------------------------------------------------------------- positions among siblings
/// where n stands among the child elements of p
spec fn pos(p: int, n: int) -> int { elkids(p).index_of(n) }
/// what filtering keeps, and that it keeps the order
proof fn lemma_filter(s: Seq<int>, f: spec_fn(int) -> bool)
    ensures
        s.filter(f).len() <= s.len(),
        forall|n: int| #[trigger] s.filter(f).contains(n) <==> s.contains(n) && f(n),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter(d, f);
        assert forall|n: int| #[trigger] s.filter(f).contains(n) <==> s.contains(n) && f(n) by {
            assert(d.filter(f).contains(n) <==> d.contains(n) && f(n));
            if d.contains(n) { let i = choose|i: int| 0 <= i < d.len() && d[i] == n; assert(s[i] == n); }
            if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; if i < d.len() { assert(d[i] == n); } }
            if f(s.last()) {
                assert(s.filter(f) == d.filter(f).push(s.last()));
                assert(s.filter(f)[d.filter(f).len() as int] == s.last());
                if d.filter(f).contains(n) { let i = choose|i: int| 0 <= i < d.filter(f).len() && d.filter(f)[i] == n; assert(s.filter(f)[i] == n); }
                if s.filter(f).contains(n) { let i = choose|i: int| 0 <= i < s.filter(f).len() && s.filter(f)[i] == n; if i < d.filter(f).len() { assert(d.filter(f)[i] == n); } }
            } else { assert(s.filter(f) == d.filter(f)); }
        }
    }
}
proof fn lemma_take_filter(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).filter(f) == (if f(s[k]) { s.take(k).filter(f).push(s[k]) } else { s.take(k).filter(f) }),
{
    reveal(Seq::filter);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
proof fn lemma_filter_empty(f: spec_fn(int) -> bool)
    ensures Seq::<int>::empty().filter(f) == Seq::<int>::empty(),
{ reveal(Seq::filter); }
/// nothing more is kept behind k
proof fn lemma_filter_rest(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> !f(#[trigger] s[i]),
    ensures s.filter(f) == s.take(k).filter(f),
    decreases s.len() - k,
{
    if k < s.len() { lemma_filter_rest(s, k + 1, f); lemma_take_filter(s, k, f); } else { assert(s.take(k) =~= s); }
}
/// positions grow along the sequence
spec fn inc(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> idx(#[trigger] s[i]) < idx(#[trigger] s[j]) }
proof fn lemma_filter_inc(s: Seq<int>, f: spec_fn(int) -> bool)
    requires inc(s),
    ensures inc(s.filter(f)),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_inc(d, f);
        lemma_filter(d, f);
        if f(s.last()) {
            let r = s.filter(f);
            assert(r == d.filter(f).push(s.last()));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies idx(#[trigger] r[i]) < idx(#[trigger] r[j]) by {
                assert(d.filter(f).contains(d.filter(f)[i]));
                let m = choose|m: int| 0 <= m < d.len() && d[m] == d.filter(f)[i];
                assert(s[m] == r[i]);
                if j < d.filter(f).len() { assert(r[j] == d.filter(f)[j]); }
            }
        }
    }
}
/// the same elements in the same order
proof fn lemma_same(a: Seq<int>, b: Seq<int>)
    requires inc(a), inc(b), forall|n: int| #[trigger] a.contains(n) <==> b.contains(n),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a.last()));
        assert(b.contains(a.last()));
        assert(b.contains(b.last()));
        assert(a.contains(b.last()));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b.last();
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a.last();
        assert(a.last() == b.last());
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|n: int| #[trigger] c.contains(n) <==> d.contains(n) by {
            if c.contains(n) { let k = choose|k: int| 0 <= k < c.len() && c[k] == n; assert(a[k] == n); assert(a.contains(n)); assert(b.contains(n)); let m = choose|m: int| 0 <= m < b.len() && b[m] == n; assert(idx(a[k]) < idx(a.last())); assert(d[m] == n); }
            if d.contains(n) { let k = choose|k: int| 0 <= k < d.len() && d[k] == n; assert(b[k] == n); assert(b.contains(n)); assert(a.contains(n)); let m = choose|m: int| 0 <= m < a.len() && a[m] == n; assert(idx(b[k]) < idx(b.last())); assert(c[m] == n); }
        }
        lemma_same(c, d);
        assert(a =~= c.push(a.last()));
        assert(b =~= d.push(b.last()));
    }
}
/// the child elements: in order, and exactly those that name p as their parent
proof fn lemma_elkid(p: int)
    ensures
        inc(elkids(p)), elkids(p).no_duplicates(), elkids(p).len() <= 0x0fff_ffff_ffff_ffff,
        forall|n: int| #[trigger] elkids(p).contains(n) <==> par(n) == Some(p) && is_el(n),
{
    axiom_tree(p);
    let k = kids(p);
    lemma_filter(k, el());
    assert(inc(k)) by { assert forall|i: int, j: int| 0 <= i < j < k.len() implies idx(#[trigger] k[i]) < idx(#[trigger] k[j]) by {} }
    lemma_filter_inc(k, el());
    assert forall|n: int| #[trigger] elkids(p).contains(n) <==> par(n) == Some(p) && is_el(n) by {
        axiom_tree(n);
        if k.contains(n) { let i = choose|i: int| 0 <= i < k.len() && k[i] == n; assert(par(k[i]) == Some(p)); }
        if par(n) == Some(p) { assert(k[idx(n) as int] == n); }
    }
    let e = elkids(p);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
        if i < j { assert(idx(e[i]) < idx(e[j])); } else { assert(idx(e[j]) < idx(e[i])); }
    }
}
/// child elements of p, in order, none twice
spec fn run(s: Seq<int>, p: int) -> bool { inc(s) && forall|i: int| 0 <= i < s.len() ==> par(#[trigger] s[i]) == Some(p) && is_el(s[i]) }
proof fn lemma_pos(p: int, n: int)
    requires par(n) == Some(p), is_el(n),
    ensures 0 <= pos(p, n) < elkids(p).len(), elkids(p)[pos(p, n)] == n,
{ lemma_elkid(p); assert(elkids(p).contains(n)); }
proof fn lemma_pos_at(p: int, i: int)
    requires 0 <= i < elkids(p).len(),
    ensures pos(p, elkids(p)[i]) == i,
{ lemma_elkid(p); assert(elkids(p).contains(elkids(p)[i])); }
proof fn lemma_pos_lt(p: int, a: int, b: int)
    requires par(a) == Some(p), is_el(a), par(b) == Some(p), is_el(b),
    ensures idx(a) < idx(b) <==> pos(p, a) < pos(p, b), pos(p, a) == pos(p, b) <==> a == b,
{
    lemma_pos(p, a);
    lemma_pos(p, b);
    lemma_elkid(p);
    let (i, j) = (pos(p, a), pos(p, b));
    if i < j { assert(idx(elkids(p)[i]) < idx(elkids(p)[j])); }
    if j < i { assert(idx(elkids(p)[j]) < idx(elkids(p)[i])); }
}
proof fn lemma_run_pos(s: Seq<int>, p: int, i: int, j: int)
    requires run(s, p), 0 <= i < j < s.len(),
    ensures pos(p, s[i]) < pos(p, s[j]),
{ lemma_pos_lt(p, s[i], s[j]); assert(idx(s[i]) < idx(s[j])); }
/// as many as there are children: all of them
proof fn lemma_run_all(s: Seq<int>, p: int)
    requires run(s, p), s.len() == elkids(p).len(),
    ensures s == elkids(p),
{
    lemma_run_low(s, p, s.len() as int);
    lemma_run_high(s, p, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == elkids(p)[i] by { lemma_pos(p, s[i]); }
    assert(s =~= elkids(p));
}
proof fn lemma_run_low(s: Seq<int>, p: int, k: int)
    requires run(s, p), 0 <= k <= s.len(),
    ensures forall|i: int| 0 <= i < k ==> pos(p, #[trigger] s[i]) >= i,
    decreases k,
{ if k > 0 { lemma_run_low(s, p, k - 1); lemma_pos(p, s[k - 1]); if k > 1 { lemma_run_pos(s, p, k - 2, k - 1); } } }
proof fn lemma_run_high(s: Seq<int>, p: int, k: int)
    requires run(s, p), 0 <= k <= s.len(), s.len() == elkids(p).len(),
    ensures forall|i: int| s.len() - k <= i < s.len() ==> pos(p, #[trigger] s[i]) <= i,
    decreases k,
{ if k > 0 { lemma_run_high(s, p, k - 1); let i = s.len() - k; lemma_pos(p, s[i]); if k > 1 { lemma_run_pos(s, p, i, i + 1); } } }
/// the positions in the list, counted from the start or from the end
spec fn at(p: int, allow: Seq<usize>, asc: bool) -> spec_fn(int) -> bool {
    |n: int| if asc { has(allow, pos(p, n)) } else { has(allow, elkids(p).len() - 1 - pos(p, n)) }
}
spec fn has(s: Seq<usize>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k }
spec fn below(s: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n }
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ emit
/// `len` of a range of positions
fn vx_len(r: &Range<usize>) -> (n: usize)
    requires r.start <= r.end,
    ensures n == r.end - r.start,
{ r.end - r.start }
proof fn lemma_ids_sub(s: Seq<Ele>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures ids(s.subrange(a, b)) == ids(s).subrange(a, b),
{ assert(ids(s.subrange(a, b)) =~= ids(s).subrange(a, b)); }
proof fn lemma_ids_push(a: Seq<Ele>, e: Ele)
    ensures ids(a.push(e)) == ids(a).push(id_of(&e)),
{ assert(ids(a.push(e)) =~= ids(a).push(id_of(&e))); }
/// picking the children at ascending positions is filtering the children
proof fn lemma_pick(p: int, allow: Seq<usize>, r: Seq<int>)
    requires ascending(allow), below(allow, elkids(p).len() as int), r.len() == allow.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == elkids(p)[allow[i] as int],
    ensures r == elkids(p).filter(at(p, allow, true)),
{
    let k = elkids(p);
    let f = at(p, allow, true);
    lemma_elkid(p);
    lemma_filter(k, f);
    lemma_filter_inc(k, f);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies idx(#[trigger] r[i]) < idx(#[trigger] r[j]) by {
        assert(allow[i] < allow[j]);
        assert(allow[j] < k.len());
        assert(idx(k[allow[i] as int]) < idx(k[allow[j] as int]));
    }
    assert forall|n: int| #[trigger] r.contains(n) <==> k.filter(f).contains(n) by {
        if r.contains(n) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == n;
            assert(allow[i] < k.len());
            lemma_pos_at(p, allow[i] as int);
            assert(has(allow, pos(p, n)));
            assert(k.contains(n));
            assert(f(n));
        }
        if k.filter(f).contains(n) {
            assert(k.contains(n) && f(n));
            let i = choose|i: int| 0 <= i < allow.len() && allow[i] == pos(p, n);
            lemma_pos(p, n);
            assert(r[i] == n);
        }
    }
    lemma_same(r, k.filter(f));
}
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_handle 0 as nth_child_asc
//@ prop C01 C16
//@ sig
fn nth_child_asc<'r>(Ghost(p): Ghost<int>, eles: &Elements<'r>, range: &Range<usize>, allow_indexs: &[usize], childs: &Elements<'r>) -> (r: Vec<BoxDynElement<'r>>)
//@ header
    requires
        range.start <= range.end <= eles.nodes@.len(), run(eles.ids().subrange(range.start as int, range.end as int), p), childs.ids() == elkids(p),
        ascending(allow_indexs@), below(allow_indexs@, elkids(p).len() as int),
    ensures ids(r@) == eles.ids().subrange(range.start as int, range.end as int).filter(at(p, allow_indexs@, true)),
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at start
    let ghost K = elkids(p);
    let ghost S = eles.ids().subrange(range.start as int, range.end as int);
    let ghost A = allow_indexs@;
    let ghost f = at(p, A, true);
    proof { lemma_elkid(p); lemma_filter_empty(f); if S.len() == K.len() { lemma_run_all(S, p); } }
//@ rule text range.len() => vx_len(range)
//@ loop 0
    invariant __i0 <= A.len(), __s0@ == A, finded@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> id_of(&#[trigger] finded@[i]) == K[A[i] as int],
//@ at loop-start 0
    proof { assert(A[__i0 - 1] < K.len()); assert(childs@.len() == K.len()); }
//@ at loop-end 0
    proof { assert(childs@.len() == ids(childs@).len()); assert(ids(childs@)[index as int] == K[index as int]); }
//@ at loop-exit 0
    proof { assert(ids(childs@).len() == childs@.len()); assert(S.len() == K.len()); lemma_pick(p, A, ids(finded@)); assert(ids(finded@) == S.filter(f)); }
//@ at pre-loop 1
    proof { assert(ids(__s1@) =~= S); assert(S.take(0) =~= Seq::<int>::empty()); assert(ids(finded@) =~= Seq::<int>::empty()); }
//@ loop 1
    invariant_except_break
        ids(finded@) == S.take(__i1 as int).filter(f), start_index <= K.len(), allow_start_index <= A.len(),
        __i1 > 0 ==> start_index == pos(p, S[__i1 - 1]) + 1, __i1 == 0 ==> start_index == 0,
        forall|i: int| 0 <= i < allow_start_index ==> #[trigger] A[i] < start_index,
    invariant __i1 <= __s1@.len(), ids(__s1@) == S, run(S, p),
    ensures ids(finded@) == S.filter(f),
//@ at loop-start 1
    let ghost t = __i1 - 1;
    let ghost n = S[t];
    let ghost d = ids(finded@);
    let ghost st = start_index as int;
    proof {
        assert(id_of(ele) == ids(__s1@)[t]);
        lemma_pos(p, n);
        lemma_take_filter(S, t, f);
        if t > 0 { lemma_run_pos(S, p, t - 1, t); }
        assert(st <= pos(p, n));
        assert(childs@.len() == ids(childs@).len());
    }
//@ at loop-exit 1
    proof { assert(S.take(S.len() as int) =~= S); }
//@ loop 2
    invariant_except_break
        ids(finded@) == d, start_index == st,
        forall|i: int| 0 <= i < allow_start_index ==> #[trigger] A[i] < start_index,
        forall|c: int| st <= c < st + __i2 ==> #[trigger] K[c] != n, allow_start_index <= A.len(),
    invariant __i2 <= __s2@.len(), __s2@ == childs@.subrange(st, K.len() as int),
    ensures
        ids(finded@) == S.take(__i1 as int).filter(f), start_index == pos(p, n) + 1, allow_start_index <= A.len(),
        forall|i: int| 0 <= i < allow_start_index ==> #[trigger] A[i] < start_index,
//@ at loop-start 2
    proof { assert(id_of(child) == ids(childs@)[st + __i2 - 1]); }
//@ at before let actual_index
    proof { lemma_pos_at(p, st + __i2 - 1); assert(index + st == pos(p, n)); }
//@ at pre-loop 3
    let ghost a0 = allow_start_index as int;
//@ loop 3
    invariant_except_break
        ids(finded@) == d, allow_start_index == a0 + __i3,
    invariant
        __i3 <= __s3@.len(), __s3@ == A.subrange(a0, A.len() as int), 0 <= a0 <= allow_start_index <= A.len(),
        forall|i: int| 0 <= i < allow_start_index ==> #[trigger] A[i] < actual_index + 1, 
        forall|i: int| 0 <= i < a0 + __i3 - 1 ==> #[trigger] A[i] < actual_index,
        allow_start_index == a0 + __i3 ==> forall|i: int| 0 <= i < allow_start_index ==> #[trigger] A[i] < actual_index,
    ensures ids(finded@) == (if has(A, pos(p, n)) { d.push(n) } else { d }),
//@ at loop-start 3
    let ghost u = __i3 - 1;
    proof { assert(allow_index == A[a0 + u]); }
//@ at before break 'loop_sibling
    proof {
        assert forall|j: int| t <= j < S.len() implies !f(#[trigger] S[j]) by { if j > t { lemma_run_pos(S, p, t, j); } }
        lemma_filter_rest(S, t, f);
    }
//@ emit
/// TRUSTED: `binary_search` on an ascending list finds a value exactly when it is there
#[verifier::external_body]
fn vx_search(s: &[usize], k: &usize) -> (r: Result<usize, usize>)
    requires ascending(s@),
    ensures (r is Ok) == has(s@, *k as int),
{ s.binary_search(k) }
/// TRUSTED: `reverse`
#[verifier::external_body]
fn vx_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse(),
{ v.reverse() }
proof fn lemma_skip_filter(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k < s.len(),
    ensures s.skip(k).filter(f) == (if f(s[k]) { seq![s[k]] + s.skip(k + 1).filter(f) } else { s.skip(k + 1).filter(f) }),
{
    let a = seq![s[k]];
    assert(s.skip(k) =~= a + s.skip(k + 1));
    Seq::filter_distributes_over_add(a, s.skip(k + 1), f);
    reveal(Seq::filter);
    assert(a.drop_last() =~= Seq::<int>::empty());
    lemma_filter_empty(f);
    assert(a.filter(f) =~= (if f(s[k]) { a } else { Seq::<int>::empty() }));
}
proof fn lemma_skip_none(s: Seq<int>, i: int, j: int, f: spec_fn(int) -> bool)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> !f(#[trigger] s[k]),
    ensures s.skip(i).filter(f) == s.skip(j).filter(f),
    decreases j - i,
{ if i < j { lemma_skip_filter(s, i, f); lemma_skip_none(s, i + 1, j, f); } }
proof fn lemma_filter_ext(s: Seq<int>, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i]),
    ensures s.filter(f) == s.filter(g),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) == g(d[i]) by { assert(d[i] == s[i]); }
        lemma_filter_ext(d, f, g);
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
    }
}
/// the same, counted from the end
proof fn lemma_pick_back(p: int, allow: Seq<usize>, r: Seq<int>)
    requires
        ascending(allow), below(allow, elkids(p).len() as int), r.len() == allow.len(),
        forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == elkids(p)[elkids(p).len() - 1 - allow[allow.len() - 1 - i]],
    ensures r == elkids(p).filter(at(p, allow, false)),
{
    lemma_elkid(p);
    let k = elkids(p);
    let b = Seq::<usize>::new(allow.len(), |i: int| (k.len() - 1 - allow[allow.len() - 1 - i]) as usize);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by {
        let m = allow.len() - 1;
        assert(allow[m - j] < allow[m - i]);
        assert(allow[m - i] < k.len());
    }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < k.len() by { assert(allow[allow.len() - 1 - i] < k.len()); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == k[b[i] as int] by { assert(allow[allow.len() - 1 - i] < k.len()); }
    lemma_pick(p, b, r);
    assert forall|i: int| 0 <= i < k.len() implies at(p, b, true)(#[trigger] k[i]) == at(p, allow, false)(k[i]) by {
        lemma_pos_at(p, i);
        let m = allow.len() - 1;
        if has(b, i) { let j = choose|j: int| 0 <= j < b.len() && b[j] == i; assert(allow[m - j] < k.len()); assert(allow[m - j] == k.len() - 1 - i); }
        if has(allow, k.len() - 1 - i) { let j = choose|j: int| 0 <= j < allow.len() && allow[j] == k.len() - 1 - i; assert(b[m - j] == i); }
    }
    lemma_filter_ext(k, at(p, b, true), at(p, allow, false));
}
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_handle 1 as nth_child_desc
//@ prop C01 C16
//@ sig
fn nth_child_desc<'r>(Ghost(p): Ghost<int>, eles: &Elements<'r>, range: &Range<usize>, allow_indexs: &[usize], childs: &Elements<'r>) -> (r: Vec<BoxDynElement<'r>>)
//@ header
    requires
        range.start <= range.end <= eles.nodes@.len(), run(eles.ids().subrange(range.start as int, range.end as int), p), childs.ids() == elkids(p),
        ascending(allow_indexs@), below(allow_indexs@, elkids(p).len() as int),
    ensures ids(r@) == eles.ids().subrange(range.start as int, range.end as int).filter(at(p, allow_indexs@, false)),
//@ attrs
#[verifier::rlimit(40)]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ rule text range.len() => vx_len(range)
//@ rule method binary_search => vx_search
//@ rule method reverse => vx_reverse(mut)
//@ at start
    let ghost K = elkids(p);
    let ghost S = eles.ids().subrange(range.start as int, range.end as int);
    let ghost A = allow_indexs@;
    let ghost f = at(p, A, false);
    proof { lemma_elkid(p); lemma_filter_empty(f); if S.len() == K.len() { lemma_run_all(S, p); } assert(childs.ids().len() == childs.nodes@.len()); }
//@ loop 0
    invariant __i0 <= A.len(), __s0@ == A, finded@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> id_of(&#[trigger] finded@[i]) == K[K.len() - 1 - A[A.len() - 1 - i]],
//@ at loop-start 0
    proof { assert(A[A.len() - __i0] < K.len()); assert(childs@.len() == K.len()); }
//@ at loop-end 0
    proof { assert(ids(childs@)[total - index - 1] == K[total - index - 1]); }
//@ at loop-exit 0
    proof { lemma_pick_back(p, A, ids(finded@)); assert(ids(finded@) == S.filter(f)); }
//@ at pre-loop 1
    proof {
        assert(ids(siblings@) =~= S);
        assert(S.skip(S.len() as int) =~= Seq::<int>::empty());
        assert(ids(finded@).reverse() =~= Seq::<int>::empty());
        assert forall|j: int| 0 <= j < S.len() implies pos(p, #[trigger] S[j]) < K.len() by { lemma_pos(p, S[j]); }
    }
//@ loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == childs@, cur_end <= S.len(), ids(finded@).reverse() == S.skip(cur_end as int).filter(f),
        forall|j: int| 0 <= j < cur_end && f(#[trigger] S[j]) ==> pos(p, S[j]) < K.len() - __i1,
//@ at loop-start 1
    let ghost q = K.len() - __i1;
    let ghost e0 = cur_end as int;
    proof {
        assert(id_of(child) == ids(childs@)[q]);
        lemma_pos_at(p, q);
        assert(f(K[q]) == has(A, index as int));
        assert forall|j: int| 0 <= j < cur_end && f(#[trigger] S[j]) && !f(K[q]) implies pos(p, S[j]) < q by { lemma_pos(p, S[j]); }
    }
//@ loop 2
    invariant
        __i2 <= __s2@.len(), __s2@ == siblings@.subrange(0, e0), cur_end == e0, ids(finded@).reverse() == S.skip(e0).filter(f),
        forall|j: int| e0 - __i2 <= j < e0 ==> #[trigger] S[j] != K[q],
//@ at loop-start 2
    proof { assert(id_of(ele) == ids(siblings@)[e0 - __i2]); }
//@ at before cur_end -= i + 1
    let ghost fd = ids(finded@);
    let ghost c = e0 - __i2;
    proof {
        assert(S[c] == K[q]);
        assert forall|j: int| c < j < e0 implies !f(#[trigger] S[j]) by { lemma_run_pos(S, p, c, j); }
        lemma_skip_none(S, c + 1, e0, f);
        lemma_skip_filter(S, c, f);
        assert forall|j: int| 0 <= j < c implies pos(p, #[trigger] S[j]) < q by { lemma_run_pos(S, p, j, c); }
    }
//@ at after finded.push(ele.cloned())
    proof { assert(ids(finded@) =~= fd.push(K[q])); assert(ids(finded@).reverse() =~= seq![K[q]] + fd.reverse()); }
//@ at loop-exit 2
    proof {
        assert forall|j: int| 0 <= j < cur_end && f(#[trigger] S[j]) implies pos(p, S[j]) < q by { lemma_pos(p, S[j]); }
    }
//@ at loop-exit 1
    proof {
        assert forall|j: int| 0 <= j < cur_end && __i1 == K.len() implies !f(#[trigger] S[j]) by { lemma_pos(p, S[j]); }
        lemma_skip_none(S, 0, cur_end as int, f);
        assert(S.skip(0) =~= S);
    }
//@ at after finded.reverse()
    proof { assert(ids(finded@) =~= S.filter(f)); }
//@ emit
// ---------------------------------------------------------------- groups of siblings
//@ item mesdoc/rules/pseudo.rs SiblingsNodeData
//@ item mesdoc/constants.rs DEF_NODES_LEN
//@ emit
struct Nth;
impl Nth {
//@ contract nth.vx Nth::get_allowed_indexs
//@ emit
}
/// one group: the elements start..end of a set, children of the same parent
ghost struct Grp { start: int, end: int, parent: int }
/// `is_empty` of a range of positions
fn vx_no_range(r: &Range<usize>) -> (b: bool)
    ensures b == (r.start >= r.end),
{ r.start >= r.end }
/// what computes the positions for a number of children
#[verifier::external_body]
struct AllowFn;
impl AllowFn {
    uninterp spec fn gives(&self, total: int, r: Option<Vec<usize>>) -> bool;
    #[verifier::external_body]
    fn call(&self, total: usize) -> (r: Option<Vec<usize>>)
        ensures self.gives(total as int, r),
    { unimplemented!() }
}
/// the calls of the callback
#[verifier::external_body]
struct Groups;
impl Groups {
    uninterp spec fn log(&self) -> Seq<Grp>;
    uninterp spec fn allows(&self) -> Seq<Option<Vec<usize>>>;
    #[verifier::external_body]
    fn call(&mut self, data: &mut SiblingsNodeData)
        requires old(data).parent is Some,
        ensures
            final(self).log() == old(self).log().push(Grp { start: old(data).range.start as int, end: old(data).range.end as int, parent: id_of(&old(data).parent->0) }),
            final(self).allows() == old(self).allows().push(old(data).allow_indexs),
    { unimplemented!() }
}
spec fn endof(g: Seq<Grp>, i: int) -> int { if i <= 0 { 0 } else { g[i - 1].end } }
spec fn gap(s: Seq<int>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> par(#[trigger] s[j]) is None }
spec fn fam_of(s: Seq<int>, a: int, b: int, p: int) -> bool { forall|j: int| a <= j < b ==> par(#[trigger] s[j]) == Some(p) }
spec fn group_ok(s: Seq<int>, from: int, g: Grp) -> bool { 0 <= from <= g.start < g.end <= s.len() && gap(s, from, g.start) && fam_of(s, g.start, g.end, g.parent) }
/// the groups, in order; what is outside of every group has no parent
spec fn parted(s: Seq<int>, k: int, g: Seq<Grp>) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> #[trigger] group_ok(s, endof(g, i), g[i])
    &&& 0 <= endof(g, g.len() as int) <= k <= s.len() && gap(s, endof(g, g.len() as int), k)
}
proof fn lemma_parted_push(s: Seq<int>, k: int, g: Seq<Grp>, x: Grp)
    requires parted(s, x.start, g), x.start < x.end == k, k <= s.len(), fam_of(s, x.start, k, x.parent),
    ensures parted(s, k, g.push(x)),
{
    let q = g.push(x);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] group_ok(s, endof(q, i), q[i]) by {
        assert(endof(q, i) == endof(g, i));
        if i < g.len() { assert(group_ok(s, endof(g, i), g[i])); }
    }
    assert(endof(q, q.len() as int) == k);
}
proof fn lemma_parted_grow(s: Seq<int>, k: int, g: Seq<Grp>)
    requires parted(s, k, g), k < s.len(), par(s[k]) is None,
    ensures parted(s, k + 1, g),
{}
//@ fn mesdoc/rules/pseudo.rs group_siblings_then_done
//@ prop C01 C16
//@ rule sig <T, F> => 
//@ rule sig allow_indexs_fn: T => allow_indexs_fn: &AllowFn
//@ rule sig mut cb: F => cb: &mut Groups
//@ rule sig where =>
//@ rule call cb
//@ rule call allow_indexs_fn
//@ rule text data.range.is_empty() => vx_no_range(&data.range)
//@ header
    requires old(cb).log().len() == 0, old(cb).allows().len() == 0,
    ensures
        parted(eles.ids(), eles.ids().len() as int, final(cb).log()),
        // what it is called with
        final(cb).allows().len() == final(cb).log().len(),
        forall|i: int| 0 <= i < final(cb).log().len() ==> allow_indexs_fn.gives(elkids((#[trigger] final(cb).log()[i]).parent).len() as int, final(cb).allows()[i]),
//@ at start
    let ghost s = eles.ids();
//@ loop 0
    invariant
        s == eles.ids(), __s0@ == eles.nodes@, __i0 <= __s0.len(),
        data.parent is None ==> data.range.start >= data.range.end && parted(s, __i0 as int, cb.log()),
        data.parent is Some ==> {
            &&& data.range.start < data.range.end == __i0
            &&& parted(s, data.range.start as int, cb.log())
            &&& fam_of(s, data.range.start as int, __i0 as int, id_of(&data.parent->0))
            &&& allow_indexs_fn.gives(elkids(id_of(&data.parent->0)).len() as int, data.allow_indexs)
        },
        cb.allows().len() == cb.log().len(),
        forall|i: int| 0 <= i < cb.log().len() ==> allow_indexs_fn.gives(elkids((#[trigger] cb.log()[i]).parent).len() as int, cb.allows()[i]),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    let ghost st = data.range.start as int;
    let ghost pp = data.parent;
    let ghost lg = cb.log();
    proof {
        assert(id_of(ele) == s[k]);
        if pp is Some { lemma_parted_push(s, k, lg, Grp { start: st, end: k, parent: id_of(&pp->0) }); }
        if par(s[k]) is None {
            if pp is Some { lemma_parted_grow(s, k, lg.push(Grp { start: st, end: k, parent: id_of(&pp->0) })); } else { lemma_parted_grow(s, k, lg); }
        }
    }
//@ at loop-exit 0
    proof {
        if data.parent is Some { lemma_parted_push(s, s.len() as int, cb.log(), Grp { start: data.range.start as int, end: data.range.end as int, parent: id_of(&data.parent->0) }); }
    }
//@ emit
/// the same, as a list to go through (rule `group`): justified by the contract of group_siblings_then_done above
#[verifier::external_body]
struct GrpH;
impl GrpH { uninterp spec fn g(&self) -> Grp; }
spec fn grps(v: Seq<GrpH>) -> Seq<Grp> { Seq::new(v.len(), |i: int| v[i].g()) }
#[verifier::external_body]
fn vx_groups(eles: &Elements) -> (r: Vec<GrpH>)
    ensures parted(eles.ids(), eles.ids().len() as int, grps(r@)),
{ unimplemented!() }
#[verifier::external_body]
fn vx_total(g: &GrpH) -> (r: usize)
    ensures r == elkids(g.g().parent).len(), r <= 0x0fff_ffff_ffff_ffff,   // axiom_tree
{ unimplemented!() }
#[verifier::external_body]
fn vx_group<'b>(g: &GrpH, allow: Option<Vec<usize>>) -> (r: SiblingsNodeData<'b>)
    ensures r.range.start == g.g().start, r.range.end == g.g().end, r.allow_indexs == allow, r.parent is Some, id_of(&r.parent->0) == g.g().parent,
{ unimplemented!() }
/// what a set is when a matcher gets it
spec fn asked(s: Seq<int>) -> bool { grouped(s) && els(s) }
proof fn lemma_group_run(s: Seq<int>, a: int, b: int, p: int)
    requires asked(s), 0 <= a <= b <= s.len(), fam_of(s, a, b, p),
    ensures run(s.subrange(a, b), p),
{
    let r = s.subrange(a, b);
    assert forall|i: int| 0 <= i < r.len() implies par(#[trigger] r[i]) == Some(p) && is_el(r[i]) by { assert(par(s[a + i]) == Some(p)); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies idx(#[trigger] r[i]) < idx(#[trigger] r[j]) by { assert(par(s[a + i]) == par(s[a + j])); }
}
/// a definition that holds only for elements with a parent, group by group
proof fn lemma_group_step(s: Seq<int>, g: Seq<Grp>, i: int, f: spec_fn(int) -> bool, h: spec_fn(int) -> bool)
    requires
        parted(s, s.len() as int, g), 0 <= i < g.len(),
        forall|n: int| #[trigger] f(n) ==> par(n) is Some,
        forall|j: int| g[i].start <= j < g[i].end ==> f(#[trigger] s[j]) == h(s[j]),
    ensures
        s.take(g[i].end).filter(f) == s.take(endof(g, i)).filter(f) + s.subrange(g[i].start, g[i].end).filter(h),
        0 <= g[i].start < g[i].end <= s.len(),
{
    assert(group_ok(s, endof(g, i), g[i]));
    let (e, a, b) = (endof(g, i), g[i].start, g[i].end);
    let m = s.subrange(e, a);
    let r = s.subrange(a, b);
    assert forall|k: int| 0 <= k < m.len() implies !f(#[trigger] m[k]) by { assert(par(s[e + k]) is None); }
    lemma_filter_rest(m, 0, f);
    assert(m.take(0) =~= Seq::<int>::empty());
    lemma_filter_empty(f);
    assert forall|k: int| 0 <= k < r.len() implies f(#[trigger] r[k]) == h(r[k]) by { assert(f(s[a + k]) == h(s[a + k])); }
    lemma_filter_ext(r, f, h);
    assert(s.take(a) =~= s.take(e) + m);
    assert(s.take(b) =~= s.take(a) + r);
    Seq::filter_distributes_over_add(s.take(e), m, f);
    Seq::filter_distributes_over_add(s.take(a), r, f);
    assert(s.take(e).filter(f) + Seq::<int>::empty() =~= s.take(e).filter(f));
}
proof fn lemma_group_end(s: Seq<int>, g: Seq<Grp>, f: spec_fn(int) -> bool)
    requires parted(s, s.len() as int, g), forall|n: int| #[trigger] f(n) ==> par(n) is Some,
    ensures s.filter(f) == s.take(endof(g, g.len() as int)).filter(f),
{
    let e = endof(g, g.len() as int);
    assert forall|i: int| e <= i < s.len() implies !f(#[trigger] s[i]) by { assert(par(s[i]) is None); }
    lemma_filter_rest(s, e, f);
}
/// DEFINITION of :nth-child and :nth-last-child (and of :first-child, :last-child): the position among the element children of the parent
spec fn nth_def(asc: bool, n: Option<String>, index: Option<String>) -> spec_fn(int) -> bool {
    |e: int| par(e) is Some && is_el(e) && nth_wants(n, index, if asc { pos(par(e)->0, e) + 1 } else { elkids(par(e)->0).len() - pos(par(e)->0, e) })
}
spec fn first_def(asc: bool) -> spec_fn(int) -> bool {
    |e: int| par(e) is Some && is_el(e) && (if asc { pos(par(e)->0, e) == 0 } else { pos(par(e)->0, e) == elkids(par(e)->0).len() - 1 })
}
proof fn lemma_nth_at(p: int, allow: Seq<usize>, asc: bool, n: Option<String>, index: Option<String>, e: int)
    requires exact_indexs(allow, n, index, elkids(p).len() as int), par(e) == Some(p), is_el(e),
    ensures nth_def(asc, n, index)(e) == at(p, allow, asc)(e),
{
    lemma_pos(p, e);
    let k = if asc { pos(p, e) } else { elkids(p).len() - 1 - pos(p, e) };
    if has(allow, k) { let i = choose|i: int| 0 <= i < allow.len() && #[trigger] allow[i] == k; assert(nth_wants(n, index, allow[i] + 1)); }
    if nth_wants(n, index, k + 1) { assert(exists|i: int| 0 <= i < allow.len() && #[trigger] allow[i] == (k + 1) - 1); }
}
proof fn lemma_first_at(p: int, allow: Seq<usize>, asc: bool, e: int)
    requires allow == seq![0usize], par(e) == Some(p), is_el(e),
    ensures first_def(asc)(e) == at(p, allow, asc)(e),
{
    lemma_pos(p, e);
    assert(allow[0] == 0);
    let k = if asc { pos(p, e) } else { elkids(p).len() - 1 - pos(p, e) };
    assert(has(allow, k) == (k == 0));
}
proof fn lemma_exact_below(allow: Seq<usize>, n: Option<String>, index: Option<String>, total: int)
    requires exact_indexs(allow, n, index, total),
    ensures below(allow, total), ascending(allow),
{ assert forall|i: int| 0 <= i < allow.len() implies #[trigger] allow[i] < total by {} }
proof fn lemma_no_allow(s: Seq<int>, p: int, allow: Seq<usize>, asc: bool)
    requires allow.len() == 0,
    ensures s.filter(at(p, allow, asc)) == Seq::<int>::empty(),
{
    let f = at(p, allow, asc);
    assert forall|i: int| 0 <= i < s.len() implies !f(#[trigger] s[i]) by {}
    lemma_filter_rest(s, 0, f);
    assert(s.take(0) =~= Seq::<int>::empty());
    lemma_filter_empty(f);
}
/// `Box<dyn Fn>` around one of the two closures above
struct NthChildHandle { asc: bool }
impl NthChildHandle {
    fn call<'r>(&self, eles: &Elements<'r>, range: &Range<usize>, allow_indexs: &[usize], childs: &Elements<'r>) -> (r: Vec<BoxDynElement<'r>>)
        requires
            range.start <= range.end <= eles.nodes@.len(), ascending(allow_indexs@),
            exists|p: int| #![trigger elkids(p)] childs.ids() == elkids(p) && run(eles.ids().subrange(range.start as int, range.end as int), p) && below(allow_indexs@, elkids(p).len() as int),
        ensures
            forall|p: int| #![trigger elkids(p)] childs.ids() == elkids(p) && run(eles.ids().subrange(range.start as int, range.end as int), p)
                ==> ids(r@) == eles.ids().subrange(range.start as int, range.end as int).filter(at(p, allow_indexs@, self.asc)),
    {
        let ghost s = eles.ids().subrange(range.start as int, range.end as int);
        let ghost p = choose|p: int| #![trigger elkids(p)] childs.ids() == elkids(p) && run(s, p) && below(allow_indexs@, elkids(p).len() as int);
        proof {
            assert forall|q: int| #![trigger elkids(q)] childs.ids() == elkids(q) && run(s, q) implies s.filter(at(p, allow_indexs@, self.asc)) == s.filter(at(q, allow_indexs@, self.asc)) by {
                lemma_filter_ext(s, at(p, allow_indexs@, self.asc), at(q, allow_indexs@, self.asc));
            }
        }
        if self.asc { nth_child_asc(Ghost(p), eles, range, allow_indexs, childs) } else { nth_child_desc(Ghost(p), eles, range, allow_indexs, childs) }
    }
}
/// TRUSTED: Vec::extend
#[verifier::external_body]
fn vx_append<'r>(v: &mut Vec<Ele<'r>>, x: Vec<Ele<'r>>)
    ensures ids(final(v)@) == ids(old(v)@) + ids(x@),
{ v.extend(x) }
//@ fn mesdoc/rules/pseudo.rs handle_nth_child
//@ prop C01 C16
//@ rule call handle
//@ rule method extend => vx_append(mut)
//@ header
    requires
        data.parent is Some, data.allow_indexs is Some, data.range.start <= data.range.end <= eles.nodes@.len(),
        run(eles.ids().subrange(data.range.start as int, data.range.end as int), id_of(&data.parent->0)),
        ascending(data.allow_indexs->0@), below(data.allow_indexs->0@, elkids(id_of(&data.parent->0)).len() as int),
    ensures
        final(result).ids() == old(result).ids()
            + eles.ids().subrange(data.range.start as int, data.range.end as int).filter(at(id_of(&data.parent->0), data.allow_indexs->0@, handle.asc)),
//@ at start
    let ghost p = id_of(&data.parent->0);
    let ghost s = eles.ids().subrange(data.range.start as int, data.range.end as int);
    proof { if data.allow_indexs->0@.len() == 0 { lemma_no_allow(s, p, data.allow_indexs->0@, handle.asc); assert(result.ids() + Seq::<int>::empty() =~= result.ids()); } }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child all_handle as nth_child_all
//@ prop C01 C16
//@ rule group group_siblings_then_done
//@ rule call handle
//@ rule method extend => vx_append(mut)
//@ sig
fn nth_child_all<'a, 'r>(n: Option<String>, index: Option<String>, handle: NthChildHandle, eles: &'a Elements<'r>, is_all: Option<bool>) -> (r: Elements<'r>)
//@ header
    requires
        n is None ==> index is Some, asked(eles.ids()),
        is_all is Some ==> exists|p: int| eles.ids() == elkids(p),
    ensures r.ids() == eles.ids().filter(nth_def(handle.asc, n, index)),
//@ at start
    let ghost s = eles.ids();
    let ghost f = nth_def(handle.asc, n, index);
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); if is_all is Some { lemma_elkid(choose|p: int| s == elkids(p)); } }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == nth_def(handle.asc, n, index), n is None ==> index is Some,
        __i0 <= __s0@.len(), parted(s, s.len() as int, grps(__s0@)), result.ids() == s.take(endof(grps(__s0@), __i0 as int)).filter(f),
//@ at loop-start 0
    let ghost g = grps(__s0@);
    let ghost k = __i0 - 1;
    let ghost a = data.allow_indexs->0@;
    let ghost p = id_of(&data.parent->0);
    proof {
        assert(g[k] == __s0@[k].g());
        assert(group_ok(s, endof(g, k), g[k]));
        lemma_group_run(s, g[k].start, g[k].end, p);
        lemma_exact_below(a, n, index, elkids(p).len() as int);
        assert forall|j: int| g[k].start <= j < g[k].end implies f(#[trigger] s[j]) == at(p, a, handle.asc)(s[j]) by {
            assert(par(s[j]) == Some(p));
            lemma_nth_at(p, a, handle.asc, n, index, s[j]);
        }
        lemma_group_step(s, g, k, f, at(p, a, handle.asc));
        assert(endof(g, k + 1) == g[k].end);
    }
//@ at loop-exit 0
    proof { lemma_group_end(s, grps(__s0@), f); }
//@ at before let finded = handle
    let ghost p = choose|p: int| s == elkids(p);
    proof {
        let a = allow_indexs@;
        lemma_exact_below(a, n, index, total as int);
        assert(s.subrange(0, total as int) =~= s);
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) == at(p, a, handle.asc)(s[i]) by {
            assert(s.contains(s[i]));
            lemma_nth_at(p, a, handle.asc, n, index, s[i]);
        }
        lemma_filter_ext(s, f, at(p, a, handle.asc));
        assert forall|i: int| 0 <= i < s.len() implies par(#[trigger] s[i]) == Some(p) && is_el(s[i]) by { assert(s.contains(s[i])); }
        assert(run(s, p));
    }
//@ at end
    proof { assert(Seq::<int>::empty() + __r.ids() =~= __r.ids()); }
//@ closure mesdoc/rules/pseudo.rs make_first_or_last_child all_handle as first_child_all
//@ prop C01 C16
//@ rule group group_siblings_then_done
//@ sig
fn first_child_all<'a, 'r>(handle: NthChildHandle, eles: &'a Elements<'r>) -> (r: Elements<'r>)
//@ header
    requires asked(eles.ids()),
    ensures r.ids() == eles.ids().filter(first_def(handle.asc)),
//@ at start
    let ghost s = eles.ids();
    let ghost f = first_def(handle.asc);
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == first_def(handle.asc),
        __i0 <= __s0@.len(), parted(s, s.len() as int, grps(__s0@)), result.ids() == s.take(endof(grps(__s0@), __i0 as int)).filter(f),
//@ at loop-start 0
    let ghost g = grps(__s0@);
    let ghost k = __i0 - 1;
    let ghost a = data.allow_indexs->0@;
    let ghost p = id_of(&data.parent->0);
    proof {
        assert(g[k] == __s0@[k].g());
        assert(group_ok(s, endof(g, k), g[k]));
        lemma_group_run(s, g[k].start, g[k].end, p);
        assert(a =~= seq![0usize]);
        assert(par(s[g[k].start]) == Some(p));
        lemma_pos(p, s[g[k].start]);
        assert forall|j: int| g[k].start <= j < g[k].end implies f(#[trigger] s[j]) == at(p, a, handle.asc)(s[j]) by {
            assert(par(s[j]) == Some(p));
            lemma_first_at(p, a, handle.asc, s[j]);
        }
        lemma_group_step(s, g, k, f, at(p, a, handle.asc));
        assert(endof(g, k + 1) == g[k].end);
    }
//@ at loop-exit 0
    proof { lemma_group_end(s, grps(__s0@), f); }
//@ emit
// ---------------------------------------------------------------- what a `specified` closure tells its callback, child by child
#[verifier::external_body]
struct Calls;
impl Calls {
    uninterp spec fn log(&self) -> Seq<(int, bool, bool)>;
    #[verifier::external_body]
    fn call(&mut self, e: &Ele, matched: bool, below: bool)
        ensures final(self).log() == old(self).log().push((id_of(e), matched, below)),
    { unimplemented!() }
}
/// every child of e in order, with the answer, and all to be searched further; or nothing is selected at all
spec fn answers(e: int, f: spec_fn(int) -> bool, k: int) -> Seq<(int, bool, bool)> { Seq::new(k as nat, |i: int| (elkids(e)[i], f(elkids(e)[i]), true)) }
proof fn lemma_answer(l: Seq<(int, bool, bool)>, e: int, f: spec_fn(int) -> bool, k: int)
    requires 0 <= k < elkids(e).len(),
    ensures (l + answers(e, f, k)).push((elkids(e)[k], f(elkids(e)[k]), true)) == l + answers(e, f, k + 1),
{ assert((l + answers(e, f, k)).push((elkids(e)[k], f(elkids(e)[k]), true)) =~= l + answers(e, f, k + 1)); }
/// the calls that `child_nodes_item_since_by` makes as long as they are answered with true (proved in unit domread)
#[verifier::external_body]
fn vx_since<'b>(e: &Ele, start: usize, reverse: bool) -> (r: Vec<Ele<'b>>)
    requires if reverse { start < kids(id_of(e)).len() } else { start <= kids(id_of(e)).len() },
    ensures
        !reverse ==> ids(r@) == kids(id_of(e)).skip(start as int).filter(el()),
        reverse ==> ids(r@) == kids(id_of(e)).take(start + 1).reverse().filter(el()),
{ unimplemented!() }
proof fn lemma_filter_rev(s: Seq<int>, f: spec_fn(int) -> bool)
    ensures s.reverse().filter(f) == s.filter(f).reverse(),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s.reverse() =~= Seq::<int>::empty());
        assert(s =~= Seq::<int>::empty());
        lemma_filter_empty(f);
        assert(s.filter(f).reverse() =~= Seq::<int>::empty());
    } else {
        let d = s.drop_last();
        let a = seq![s.last()];
        lemma_filter_rev(d, f);
        assert(s.reverse() =~= a + d.reverse());
        Seq::filter_distributes_over_add(a, d.reverse(), f);
        assert(s =~= d + a);
        Seq::filter_distributes_over_add(d, a, f);
        reveal(Seq::filter);
        assert(a.drop_last() =~= Seq::<int>::empty());
        lemma_filter_empty(f);
        assert(a.filter(f) =~= (if f(s.last()) { a } else { Seq::<int>::empty() }));
        assert(s.reverse().filter(f) =~= s.filter(f).reverse());
    }
}
/// child number k, from the start or from the end
spec fn nth_at(asc: bool, k: int) -> spec_fn(int) -> bool {
    |e: int| par(e) is Some && is_el(e) && (if asc { pos(par(e)->0, e) == k } else { elkids(par(e)->0).len() - 1 - pos(par(e)->0, e) == k })
}
proof fn lemma_nth_at_kid(e: int, asc: bool, k: int, i: int)
    requires 0 <= i < elkids(e).len(),
    ensures nth_at(asc, k)(elkids(e)[i]) == (if asc { i == k } else { elkids(e).len() - 1 - i == k }),
{ lemma_elkid(e); assert(elkids(e).contains(elkids(e)[i])); lemma_pos_at(e, i); }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_specified 0 as nth_child_specified_asc
//@ prop C01 C16
//@ rule cbwhile .child_nodes_item_since_by => vx_since
//@ rule call callback
//@ sig
fn nth_child_specified_asc(index: usize, ele: &Ele, callback: &mut Calls)
//@ header
    ensures final(callback).log() == old(callback).log() + answers(id_of(ele), nth_at(true, index as int), elkids(id_of(ele)).len() as int),
//@ at start
    let ghost n = id_of(ele);
    let ghost l = callback.log();
    let ghost f = nth_at(true, index as int);
    proof { assert(kids(n).skip(0) =~= kids(n)); lemma_elkid(n); assert(l + answers(n, f, 0) =~= l); }
//@ loop 0
    invariant
        n == id_of(ele), f == nth_at(true, index as int), ids(__s0@) == elkids(n), __i0 <= __s0.len(), cur_index == __i0, callback.log() == l + answers(n, f, __i0 as int),
        elkids(n).len() <= 0x0fff_ffff_ffff_ffff,
    ensures __i0 == __s0.len(),
//@ at pre-loop 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ at loop-start 0
    proof { assert(ids(__s0@).len() == __s0@.len()); assert(id_of(child) == ids(__s0@)[__i0 - 1]); lemma_nth_at_kid(n, true, index as int, __i0 - 1); lemma_answer(l, n, f, __i0 - 1); }
//@ at loop-exit 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_specified 2 as nth_child_specified_desc
//@ prop C01 C16
//@ rule cbwhile .child_nodes_item_since_by => vx_since
//@ rule call callback
//@ sig
fn nth_child_specified_desc(index: usize, ele: &Ele, callback: &mut Calls)
//@ header
    ensures final(callback).log() == old(callback).log() + answers(id_of(ele), nth_at(false, index as int), elkids(id_of(ele)).len() as int),
//@ at start
    let ghost n = id_of(ele);
    let ghost l = callback.log();
    let ghost f = nth_at(false, index as int);
    let ghost t = elkids(n).len() as int;
    proof {
        assert(kids(n).skip(0) =~= kids(n));
        assert(kids(n).take(kids(n).len() as int) =~= kids(n));
        lemma_elkid(n);
        lemma_filter_rev(kids(n), el());
        lemma_filter(kids(n), el());
        assert(l + answers(n, f, 0) =~= l);
    }
//@ loop 0
    invariant
        n == id_of(ele), f == nth_at(false, index as int), __s0@.len() == t, __i0 <= t, t == elkids(n).len(), t <= 0x0fff_ffff_ffff_ffff, cur_index == __i0,
        matched@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> matched@[i] == (__i0 - 1 - i == index),
    ensures __i0 == __s0.len(),
//@ at pre-loop 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ at pre-loop 1
    proof { assert(ids(__s1@).len() == __s1@.len()); }
//@ loop 1
    invariant
        n == id_of(ele), f == nth_at(false, index as int), ids(__s1@) == elkids(n), __i1 <= __s1.len(), loop_index == __i1, callback.log() == l + answers(n, f, __i1 as int),
        matched@.len() == t, t == elkids(n).len(), t <= 0x0fff_ffff_ffff_ffff, forall|i: int| 0 <= i < t ==> matched@[i] == (t - 1 - i == index),
    ensures __i1 == __s1.len(),
//@ at loop-exit 1
    proof { assert(ids(__s1@).len() == __s1@.len()); }
//@ at loop-start 1
    proof { assert(ids(__s1@).len() == __s1@.len()); assert(id_of(child) == ids(__s1@)[__i1 - 1]); lemma_nth_at_kid(n, false, index as int, __i1 - 1); lemma_answer(l, n, f, __i1 - 1); }
//@ emit
// ---------------------------------------------------------------- of-type
/// the tag name in capitals
uninterp spec fn tname(n: int) -> Seq<char>;
impl<'a> Ele<'a> {
    /// ASSUMED here (proved in unit domread)
    #[verifier::external_body]
    fn tag_name(&self) -> (r: String)
        ensures r@ == tname(id_of(self)),
    { unimplemented!() }
}
/// TRUSTED: std HashMap from names to numbers
#[verifier::external_body]
struct NameMap;
impl NameMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: NameMap)
        ensures r.view() == Map::<Seq<char>, usize>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'b>(&'b mut self, k: &String) -> (r: Option<&'b mut usize>)
        ensures
            r is Some == old(self).view().contains_key(k@),
            r matches Some(x) ==> *x == old(self).view()[k@] && final(self).view() == old(self).view().insert(k@, *final(x)),
            r is None ==> final(self).view() == old(self).view(),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: usize) -> (r: Option<usize>)
        ensures final(self).view() == old(self).view().insert(k@, v),
    { unimplemented!() }
}
type NameCounterHashMap = NameMap;
spec fn named(t: Seq<char>) -> spec_fn(int) -> bool { |n: int| tname(n) == t }
spec fn cnt(s: Seq<int>, t: Seq<char>) -> int { s.filter(named(t)).len() as int }
/// position among the siblings with the same tag name
spec fn tpos(asc: bool, p: int, n: int) -> int {
    if asc { cnt(elkids(p).take(pos(p, n)), tname(n)) } else { cnt(elkids(p).skip(pos(p, n) + 1), tname(n)) }
}
spec fn tat(p: int, allow: Seq<usize>, asc: bool) -> spec_fn(int) -> bool { |n: int| has(allow, tpos(asc, p, n)) }
/// the map holds, for every name met in q, how often it was met, less one
spec fn counted(m: Map<Seq<char>, usize>, q: Seq<int>) -> bool {
    forall|t: Seq<char>| #![trigger m.contains_key(t)] #![trigger m[t]] #![trigger cnt(q, t)] m.contains_key(t) == (cnt(q, t) > 0) && (m.contains_key(t) ==> m[t] == cnt(q, t) - 1)
}
spec fn met(m: Map<Seq<char>, usize>, t: Seq<char>) -> int { if m.contains_key(t) { m[t] + 1 } else { 0 } }
proof fn lemma_counted_none(m: Map<Seq<char>, usize>)
    requires m == Map::<Seq<char>, usize>::empty(),
    ensures counted(m, Seq::empty()),
{ assert forall|t: Seq<char>| #[trigger] cnt(Seq::empty(), t) == 0 by { lemma_filter_empty(named(t)); } }
proof fn lemma_counted_add(m: Map<Seq<char>, usize>, q: Seq<int>, r: Seq<int>, n: int, k: usize)
    requires
        counted(m, q), k == met(m, tname(n)),
        forall|t: Seq<char>| #[trigger] cnt(r, t) == cnt(q, t) + (if tname(n) == t { 1int } else { 0 }),
    ensures counted(m.insert(tname(n), k), r),
{
    let m2 = m.insert(tname(n), k);
    assert forall|t: Seq<char>| m2.contains_key(t) == (#[trigger] cnt(r, t) > 0) && (m2.contains_key(t) ==> m2[t] == cnt(r, t) - 1) by {
        assert(cnt(q, t) >= 0);
        assert(m.contains_key(t) == (cnt(q, t) > 0));
    }
}
spec fn idxs(s: Seq<int>) -> Seq<usize> { Seq::new(s.len(), |i: int| idx(s[i])) }
proof fn lemma_idxs_has(s: Seq<int>, p: int, e: int)
    requires par(e) == Some(p), forall|i: int| 0 <= i < s.len() ==> par(#[trigger] s[i]) == Some(p),
    ensures has(idxs(s), idx(e) as int) == s.contains(e),
{
    let v = idxs(s);
    axiom_tree(e);
    if has(v, idx(e) as int) {
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == idx(e);
        axiom_tree(s[i]);
        assert(s[i] == e);
    }
    if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(v[i] == idx(e)); }
}
//@ fn mesdoc/rules/pseudo.rs get_allowed_name_ele
//@ prop C01 C16
//@ ret r
//@ rule sig &dyn IElementTrait => &Ele
//@ rule method binary_search => vx_search
//@ header
    requires allow_indexs@.len() > 0, ascending(allow_indexs@), met(old(names).view(), tname(id_of(ele))) < usize::MAX,
    ensures
        final(names).view() == old(names).view().insert(tname(id_of(ele)), met(old(names).view(), tname(id_of(ele))) as usize),
        r == has(allow_indexs@, met(old(names).view(), tname(id_of(ele)))),
        final(node_indexs)@ == (if r { old(node_indexs)@.push(idx(id_of(ele))) } else { old(node_indexs)@ }),
//@ at start
    let ghost A = allow_indexs@;
    proof {
        if has(A, 0) { let i = choose|i: int| 0 <= i < A.len() && #[trigger] A[i] == 0; if i > 0 { assert(A[0] < A[i]); } }
        if A[0] == 0 { assert(has(A, 0)); }
    }
//@ emit
spec fn idx_in(v: Seq<usize>) -> spec_fn(int) -> bool { |n: int| has(v, idx(n) as int) }
//@ fn mesdoc/rules/pseudo.rs collect_avail_name_eles
//@ prop C01 C16
//@ rule sig &mut [usize] => &[usize]
//@ header
    requires ascending(node_indexs@), forall|i: int, j: int| 0 <= i < j < siblings@.len() ==> idx(#[trigger] ids(siblings@)[i]) < idx(#[trigger] ids(siblings@)[j]),
    ensures ids(final(finded)@) == ids(old(finded)@) + ids(siblings@).filter(idx_in(node_indexs@)),
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at start
    let ghost A = node_indexs@;
    let ghost S = ids(siblings@);
    let ghost f = idx_in(A);
    let ghost f0 = ids(finded@);
    proof {
        lemma_filter_empty(f);
        assert(S.take(0) =~= Seq::<int>::empty());
        assert(f0 + Seq::<int>::empty() =~= f0);
        if A.len() == 0 { lemma_filter_rest(S, 0, f); }
    }
//@ loop 0
    invariant
        av_total == A.len(), sib_total == S.len(), S.len() == siblings@.len(), av_index <= av_total, sib_index <= sib_total,
        ids(finded@) == f0 + S.take(sib_index as int).filter(f),
        forall|i: int, j: int| 0 <= i < av_index && sib_index <= j < S.len() ==> #[trigger] A[i] < idx(#[trigger] S[j]),
    decreases av_total - av_index,
//@ at loop-start 0
    let ghost sb = sib_index as int;
    let ghost av = av_index as int;
//@ loop 1
    invariant_except_break
        sib_index == sb + __i1, ids(finded@) == f0 + S.take(sib_index as int).filter(f),
        forall|j: int| sb <= j < sib_index ==> idx(#[trigger] S[j]) < A[av],
    invariant
        __i1 <= __s1@.len(), __s1@ == siblings@.subrange(sb, S.len() as int), sb <= sib_index <= S.len(),
    ensures
        ids(finded@) == f0 + S.take(sib_index as int).filter(f),
        forall|j: int| sib_index <= j < S.len() ==> A[av] < idx(#[trigger] S[j]),
//@ at loop-start 1
    let ghost k = sib_index as int;
    let ghost d = ids(finded@);
    proof {
        assert(S[k] == id_of(ele));
        lemma_take_filter(S, k, f);
        assert(has(A, idx(S[k]) as int) && idx(S[k]) < A[av] ==> false) by {
            if has(A, idx(S[k]) as int) {
                let i = choose|i: int| 0 <= i < A.len() && #[trigger] A[i] == idx(S[k]);
                if i < av { assert(A[i] < idx(S[k])); }
                if i > av { assert(A[av] < A[i]); }
            }
        }
        assert(A[av] == A[av]);
        assert(idx(S[k]) == A[av] ==> has(A, idx(S[k]) as int));
    }
//@ at after finded.push(ele.cloned())
    proof { assert(ids(finded@) =~= d.push(S[k])); assert(ids(finded@) =~= f0 + S.take(k + 1).filter(f)); }
//@ at loop-exit 0
    proof {
        if sib_index == sib_total { assert(S.take(S.len() as int) =~= S); }
        else {
            assert forall|j: int| sib_index <= j < S.len() implies !f(#[trigger] S[j]) by { if f(S[j]) { let i = choose|i: int| 0 <= i < A.len() && #[trigger] A[i] == idx(S[j]); assert(A[i] < idx(S[j])); } }
            lemma_filter_rest(S, sib_index as int, f);
        }
    }
//@ emit
proof fn lemma_take_named(k: Seq<int>, i: int)
    requires 0 <= i < k.len(),
    ensures forall|t: Seq<char>| #[trigger] cnt(k.take(i + 1), t) == cnt(k.take(i), t) + (if tname(k[i]) == t { 1int } else { 0 }),
{
    assert forall|t: Seq<char>| #[trigger] cnt(k.take(i + 1), t) == cnt(k.take(i), t) + (if tname(k[i]) == t { 1int } else { 0 }) by { lemma_take_filter(k, i, named(t)); }
}
proof fn lemma_skip_named(k: Seq<int>, i: int)
    requires 0 <= i < k.len(),
    ensures forall|t: Seq<char>| #[trigger] cnt(k.skip(i), t) == cnt(k.skip(i + 1), t) + (if tname(k[i]) == t { 1int } else { 0 }),
{
    assert forall|t: Seq<char>| #[trigger] cnt(k.skip(i), t) == cnt(k.skip(i + 1), t) + (if tname(k[i]) == t { 1int } else { 0 }) by { lemma_skip_filter(k, i, named(t)); }
}
proof fn lemma_met(m: Map<Seq<char>, usize>, q: Seq<int>, t: Seq<char>)
    requires counted(m, q),
    ensures met(m, t) == cnt(q, t), 0 <= cnt(q, t) <= q.len(),
{
    lemma_filter(q, named(t));
    assert(m.contains_key(t) == (cnt(q, t) > 0));
}
/// the chosen among the children, found again among the elements of a set
proof fn lemma_chosen(p: int, s: Seq<int>, f: spec_fn(int) -> bool)
    requires run(s, p),
    ensures s.filter(idx_in(idxs(elkids(p).filter(f)))) == s.filter(f), ascending(idxs(elkids(p).filter(f))),
{
    let c = elkids(p).filter(f);
    lemma_elkid(p);
    lemma_filter(elkids(p), f);
    lemma_filter_inc(elkids(p), f);
    assert forall|i: int| 0 <= i < c.len() implies par(#[trigger] c[i]) == Some(p) by { assert(c.contains(c[i])); assert(elkids(p).contains(c[i])); }
    assert forall|i: int| 0 <= i < s.len() implies idx_in(idxs(c))(#[trigger] s[i]) == f(s[i]) by {
        lemma_idxs_has(c, p, s[i]);
        assert(c.contains(s[i]) <==> elkids(p).contains(s[i]) && f(s[i]));
    }
    lemma_filter_ext(s, idx_in(idxs(c)), f);
    assert forall|i: int, j: int| 0 <= i < j < idxs(c).len() implies idxs(c)[i] < idxs(c)[j] by { assert(idx(c[i]) < idx(c[j])); }
}
proof fn lemma_no_tallow(s: Seq<int>, p: int, allow: Seq<usize>, asc: bool)
    requires allow.len() == 0,
    ensures s.filter(tat(p, allow, asc)) == Seq::<int>::empty(),
{
    let f = tat(p, allow, asc);
    assert forall|i: int| 0 <= i < s.len() implies !f(#[trigger] s[i]) by {}
    lemma_filter_rest(s, 0, f);
    assert(s.take(0) =~= Seq::<int>::empty());
    lemma_filter_empty(f);
}
//@ fn mesdoc/rules/pseudo.rs handle_nth_of_type
//@ prop C01 C16
//@ rule text HashMap::with_capacity => NameMap::with_capacity
//@ rule text &**child => child
//@ rule method reverse => vx_reverse(mut)
//@ rule text &mut node_indexs, siblings => &node_indexs, siblings
//@ header
    requires
        data.allow_indexs is Some, data.range.start <= data.range.end <= eles.nodes@.len(),
        data.allow_indexs->0@.len() > 0 ==> data.parent is Some
            && run(eles.ids().subrange(data.range.start as int, data.range.end as int), id_of(&data.parent->0)),
        ascending(data.allow_indexs->0@),
    ensures
        final(result).ids() == old(result).ids()
            + eles.ids().subrange(data.range.start as int, data.range.end as int).filter(tat(id_of(&data.parent->0), data.allow_indexs->0@, asc)),
//@ at start
    let ghost p = id_of(&data.parent->0);
    let ghost A = data.allow_indexs->0@;
    let ghost f = tat(p, A, asc);
    let ghost K = elkids(p);
    let ghost S = eles.ids().subrange(data.range.start as int, data.range.end as int);
    let ghost r0 = result.ids();
    proof {
        lemma_elkid(p);
        lemma_filter_empty(f);
        lemma_counted_none(Map::empty());
        assert(K.take(0) =~= Seq::<int>::empty());
        assert(K.skip(K.len() as int) =~= Seq::<int>::empty());
        if A.len() == 0 { lemma_no_tallow(S, p, A, asc); assert(r0 + Seq::<int>::empty() =~= r0); }
    }
//@ loop 0
    invariant
        asc, f == tat(p, A, asc), A == allow_indexs@, A.len() > 0, ascending(A), K == elkids(p), K.len() <= 0x0fff_ffff_ffff_ffff,
        ids(__s0@) == K, __i0 <= __s0@.len(), counted(names.view(), K.take(__i0 as int)), node_indexs@ == idxs(K.take(__i0 as int).filter(f)),
//@ at loop-start 0
    proof {
        let i = __i0 - 1;
        assert(ids(__s0@)[i] == K[i] && id_of(child) == K[i]);
        lemma_take_named(K, i);
        lemma_take_filter(K, i, f);
        lemma_met(names.view(), K.take(i), tname(K[i]));
        lemma_pos_at(p, i);
        lemma_counted_add(names.view(), K.take(i), K.take(i + 1), K[i], met(names.view(), tname(K[i])) as usize);
        assert(idxs(K.take(i).filter(f).push(K[i])) =~= idxs(K.take(i).filter(f)).push(idx(K[i])));
    }
//@ at pre-loop 0
    proof { assert(node_indexs@ =~= idxs(Seq::<int>::empty())); }
//@ at loop-exit 0
    proof { assert(ids(__s0@).len() == __s0@.len()); assert(K.take(K.len() as int) =~= K); }
//@ loop 1
    invariant
        !asc, f == tat(p, A, asc), A == allow_indexs@, A.len() > 0, ascending(A), K == elkids(p), K.len() <= 0x0fff_ffff_ffff_ffff,
        ids(__s1@) == K, __i1 <= __s1@.len(), __s1@.len() == K.len(), counted(names.view(), K.skip(K.len() - __i1)), node_indexs@.reverse() == idxs(K.skip(K.len() - __i1).filter(f)),
//@ at loop-start 1
    let ghost nd = node_indexs@;
    let ghost w = K.len() - __i1;
    proof {
        assert(ids(__s1@)[w] == K[w] && id_of(child) == K[w]);
        lemma_skip_named(K, w);
        lemma_skip_filter(K, w, f);
        lemma_met(names.view(), K.skip(w + 1), tname(K[w]));
        lemma_pos_at(p, w);
        lemma_counted_add(names.view(), K.skip(w + 1), K.skip(w), K[w], met(names.view(), tname(K[w])) as usize);
        assert(idxs(seq![K[w]] + K.skip(w + 1).filter(f)) =~= seq![idx(K[w])] + idxs(K.skip(w + 1).filter(f)));
        assert(nd.push(idx(K[w])).reverse() =~= seq![idx(K[w])] + nd.reverse());
    }
//@ at pre-loop 1
    proof { assert(ids(__s1@).len() == __s1@.len()); assert(node_indexs@.reverse() =~= idxs(Seq::<int>::empty())); }
//@ at loop-exit 1
    proof { assert(K.skip(0) =~= K); }
//@ at before collect_avail_name_eles
    proof {
        assert(ids(siblings@) =~= S);
        lemma_chosen(p, S, f);
        assert(node_indexs@ == idxs(K.filter(f)));
    }
//@ emit
/// DEFINITION of :nth-of-type, :nth-last-of-type; of :first-of-type, :last-of-type
spec fn type_def(asc: bool, n: Option<String>, index: Option<String>) -> spec_fn(int) -> bool {
    |e: int| par(e) is Some && is_el(e) && nth_wants(n, index, tpos(asc, par(e)->0, e) + 1)
}
spec fn first_type_def(asc: bool) -> spec_fn(int) -> bool { |e: int| par(e) is Some && is_el(e) && tpos(asc, par(e)->0, e) == 0 }
proof fn lemma_tpos(asc: bool, p: int, e: int)
    requires par(e) == Some(p), is_el(e),
    ensures 0 <= tpos(asc, p, e) < elkids(p).len(),
{
    lemma_pos(p, e);
    lemma_filter(elkids(p).take(pos(p, e)), named(tname(e)));
    lemma_filter(elkids(p).skip(pos(p, e) + 1), named(tname(e)));
}
proof fn lemma_type_at(p: int, allow: Seq<usize>, asc: bool, n: Option<String>, index: Option<String>, e: int)
    requires exact_indexs(allow, n, index, elkids(p).len() as int), par(e) == Some(p), is_el(e),
    ensures type_def(asc, n, index)(e) == tat(p, allow, asc)(e),
{
    lemma_tpos(asc, p, e);
    let k = tpos(asc, p, e);
    if has(allow, k) { let i = choose|i: int| 0 <= i < allow.len() && #[trigger] allow[i] == k; assert(nth_wants(n, index, allow[i] + 1)); }
    if nth_wants(n, index, k + 1) { assert(exists|i: int| 0 <= i < allow.len() && #[trigger] allow[i] == (k + 1) - 1); }
}
proof fn lemma_first_type_at(p: int, allow: Seq<usize>, asc: bool, e: int)
    requires allow == seq![0usize], par(e) == Some(p), is_el(e),
    ensures first_type_def(asc)(e) == tat(p, allow, asc)(e),
{ assert(allow[0] == 0); assert(has(allow, tpos(asc, p, e)) == (tpos(asc, p, e) == 0)); }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type all_handle as nth_type_all
//@ prop C01 C16
//@ rule group group_siblings_then_done
//@ sig
fn nth_type_all<'a, 'r>(n: Option<String>, index: Option<String>, asc: bool, eles: &'a Elements<'r>, is_all: Option<bool>) -> (r: Elements<'r>)
//@ header
    requires
        n is None ==> index is Some, asked(eles.ids()),
        is_all is Some ==> exists|p: int| eles.ids() == elkids(p),
    ensures r.ids() == eles.ids().filter(type_def(asc, n, index)),
//@ at start
    let ghost s = eles.ids();
    let ghost f = type_def(asc, n, index);
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); if is_all is Some { lemma_elkid(choose|p: int| s == elkids(p)); } }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == type_def(asc, n, index), n is None ==> index is Some,
        __i0 <= __s0@.len(), parted(s, s.len() as int, grps(__s0@)), result.ids() == s.take(endof(grps(__s0@), __i0 as int)).filter(f),
//@ at loop-start 0
    let ghost g = grps(__s0@);
    let ghost k = __i0 - 1;
    let ghost a = data.allow_indexs->0@;
    let ghost p = id_of(&data.parent->0);
    proof {
        assert(g[k] == __s0@[k].g());
        assert(group_ok(s, endof(g, k), g[k]));
        lemma_group_run(s, g[k].start, g[k].end, p);
        lemma_exact_below(a, n, index, elkids(p).len() as int);
        assert forall|j: int| g[k].start <= j < g[k].end implies f(#[trigger] s[j]) == tat(p, a, asc)(s[j]) by {
            assert(par(s[j]) == Some(p));
            lemma_type_at(p, a, asc, n, index, s[j]);
        }
        lemma_group_step(s, g, k, f, tat(p, a, asc));
        assert(endof(g, k + 1) == g[k].end);
    }
//@ at loop-exit 0
    proof { lemma_group_end(s, grps(__s0@), f); }
//@ at before handle_nth_of_type(asc, &data
    proof {
        let p = choose|p: int| s == elkids(p);
        let a = data.allow_indexs->0@;
        lemma_elkid(p);
        lemma_exact_below(a, n, index, total as int);
        assert(s.subrange(0, total as int) =~= s);
        assert forall|i: int| 0 <= i < s.len() implies par(#[trigger] s[i]) == Some(p) && is_el(s[i]) by { assert(s.contains(s[i])); }
        assert(run(s, p));
        assert(total > 0 ==> par(s[0]) == Some(p));
        if total > 0 { assert(id_of(&data.parent->0) == p); }
        if a.len() > 0 { assert(a[0] < total); }
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) == tat(p, a, asc)(s[i]) by { lemma_type_at(p, a, asc, n, index, s[i]); }
        lemma_filter_ext(s, f, tat(p, a, asc));
        if s.len() == 0 { assert(s =~= Seq::<int>::empty()); lemma_filter_empty(f); lemma_filter_empty(tat(id_of(&data.parent->0), a, asc)); }
    }
//@ closure mesdoc/rules/pseudo.rs make_first_or_last_of_type all_handle as first_type_all
//@ prop C01 C16
//@ rule group group_siblings_then_done
//@ sig
fn first_type_all<'a, 'r>(asc: bool, eles: &'a Elements<'r>) -> (r: Elements<'r>)
//@ header
    requires asked(eles.ids()),
    ensures r.ids() == eles.ids().filter(first_type_def(asc)),
//@ at start
    let ghost s = eles.ids();
    let ghost f = first_type_def(asc);
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == first_type_def(asc),
        __i0 <= __s0@.len(), parted(s, s.len() as int, grps(__s0@)), result.ids() == s.take(endof(grps(__s0@), __i0 as int)).filter(f),
//@ at loop-start 0
    let ghost g = grps(__s0@);
    let ghost k = __i0 - 1;
    let ghost a = data.allow_indexs->0@;
    let ghost p = id_of(&data.parent->0);
    proof {
        assert(g[k] == __s0@[k].g());
        assert(group_ok(s, endof(g, k), g[k]));
        lemma_group_run(s, g[k].start, g[k].end, p);
        assert(a =~= seq![0usize]);
        assert forall|j: int| g[k].start <= j < g[k].end implies f(#[trigger] s[j]) == tat(p, a, asc)(s[j]) by {
            assert(par(s[j]) == Some(p));
            lemma_first_type_at(p, a, asc, s[j]);
        }
        lemma_group_step(s, g, k, f, tat(p, a, asc));
        assert(endof(g, k + 1) == g[k].end);
    }
//@ at loop-exit 0
    proof { lemma_group_end(s, grps(__s0@), f); }
//@ emit
spec fn tnth_at(asc: bool, k: int) -> spec_fn(int) -> bool { |e: int| par(e) is Some && is_el(e) && tpos(asc, par(e)->0, e) == k }
proof fn lemma_tnth_at_kid(e: int, asc: bool, k: int, i: int)
    requires 0 <= i < elkids(e).len(),
    ensures tnth_at(asc, k)(elkids(e)[i]) == ((if asc { cnt(elkids(e).take(i), tname(elkids(e)[i])) } else { cnt(elkids(e).skip(i + 1), tname(elkids(e)[i])) }) == k),
{ lemma_elkid(e); assert(elkids(e).contains(elkids(e)[i])); lemma_pos_at(e, i); }
proof fn lemma_has_one(k: usize)
    ensures forall|j: int| #[trigger] has(seq![k], j) == (j == k),
{ assert(seq![k][0] == k); }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type_specified 0 as nth_type_specified_asc
//@ prop C01 C16
//@ rule text HashMap::with_capacity => NameMap::with_capacity
//@ rule cbwhile .child_nodes_item_since_by => vx_since
//@ rule call callback
//@ sig
fn nth_type_specified_asc(allow_indexs: Vec<usize>, ele: &Ele, callback: &mut Calls)
//@ header
    requires allow_indexs@.len() == 1,
    ensures final(callback).log() == old(callback).log() + answers(id_of(ele), tnth_at(true, allow_indexs@[0] as int), elkids(id_of(ele)).len() as int),
//@ at start
    let ghost n = id_of(ele);
    let ghost l = callback.log();
    let ghost x = allow_indexs@[0];
    let ghost f = tnth_at(true, x as int);
    let ghost K = elkids(n);
    proof { assert(kids(n).skip(0) =~= kids(n)); lemma_elkid(n); assert(l + answers(n, f, 0) =~= l); assert(allow_indexs@ =~= seq![x]); lemma_has_one(x); lemma_counted_none(Map::empty()); assert(K.take(0) =~= Seq::<int>::empty()); }
//@ loop 0
    invariant
        n == id_of(ele), K == elkids(n), f == tnth_at(true, x as int), ids(__s0@) == K, __i0 <= __s0.len(), callback.log() == l + answers(n, f, __i0 as int),
        K.len() <= 0x0fff_ffff_ffff_ffff, counted(names.view(), K.take(__i0 as int)), allow_indexs@ == seq![x],
    ensures __i0 == __s0.len(),
//@ at pre-loop 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ at loop-start 0
    proof {
        let i = __i0 - 1;
        assert(ids(__s0@).len() == __s0@.len());
        assert(id_of(child) == ids(__s0@)[i]);
        lemma_tnth_at_kid(n, true, x as int, i);
        lemma_answer(l, n, f, i);
        lemma_has_one(x);
        lemma_take_named(K, i);
        lemma_met(names.view(), K.take(i), tname(K[i]));
        lemma_counted_add(names.view(), K.take(i), K.take(i + 1), K[i], met(names.view(), tname(K[i])) as usize);
    }
//@ at loop-exit 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type_specified 2 as nth_type_specified_desc
//@ prop C01 C16
//@ rule text HashMap::with_capacity => NameMap::with_capacity
//@ rule cbwhile .child_nodes_item_since_by => vx_since
//@ rule call callback
//@ sig
fn nth_type_specified_desc(allow_indexs: Vec<usize>, ele: &Ele, callback: &mut Calls)
//@ header
    requires allow_indexs@.len() == 1,
    ensures final(callback).log() == old(callback).log() + answers(id_of(ele), tnth_at(false, allow_indexs@[0] as int), elkids(id_of(ele)).len() as int),
//@ at start
    let ghost n = id_of(ele);
    let ghost l = callback.log();
    let ghost x = allow_indexs@[0];
    let ghost f = tnth_at(false, x as int);
    let ghost K = elkids(n);
    let ghost t = K.len() as int;
    proof {
        lemma_elkid(n);
        lemma_filter_rev(kids(n), el());
        lemma_filter(kids(n), el());
        assert(kids(n).skip(0) =~= kids(n));
        assert(kids(n).take(kids(n).len() as int) =~= kids(n));
        assert(kids(n).take((kids(n).len() - 1) + 1) =~= kids(n));
        assert(l + answers(n, f, 0) =~= l);
        if kids(n).len() == 0 { assert(kids(n) =~= Seq::<int>::empty()); lemma_filter_empty(el()); }
        assert(allow_indexs@ =~= seq![x]);
        lemma_counted_none(Map::empty());
        assert(K.skip(t) =~= Seq::<int>::empty());
    }
//@ loop 0
    invariant
        n == id_of(ele), K == elkids(n), f == tnth_at(false, x as int), ids(__s0@) == K.reverse(), __s0@.len() == t, __i0 <= t, t == K.len(), t <= 0x0fff_ffff_ffff_ffff,
        counted(names.view(), K.skip(t - __i0)), allow_indexs@ == seq![x],
        matched@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] matched@[i] == f(K[t - __i0 + i]),
    ensures __i0 == __s0.len(),
//@ at loop-start 0
    let ghost w = t - __i0;
    let ghost md = matched@;
    proof {
        assert(ids(__s0@)[__i0 - 1] == K[w]);
        assert(id_of(child) == K[w]);
        lemma_tnth_at_kid(n, false, x as int, w);
        lemma_has_one(x);
        lemma_skip_named(K, w);
        lemma_met(names.view(), K.skip(w + 1), tname(K[w]));
        lemma_counted_add(names.view(), K.skip(w + 1), K.skip(w), K[w], met(names.view(), tname(K[w])) as usize);
    }
//@ at pre-loop 0
    proof { assert(ids(__s0@).len() == __s0@.len()); }
//@ at pre-loop 1
    proof { assert(ids(__s1@).len() == __s1@.len()); }
//@ loop 1
    invariant
        n == id_of(ele), f == tnth_at(false, x as int), K == elkids(n), ids(__s1@) == K, __i1 <= __s1.len(), loop_index == __i1, callback.log() == l + answers(n, f, __i1 as int),
        matched@.len() == t, t == K.len(), t <= 0x0fff_ffff_ffff_ffff, forall|i: int| 0 <= i < t ==> #[trigger] matched@[i] == f(K[i]),
    ensures __i1 == __s1.len(),
//@ at loop-exit 1
    proof { assert(ids(__s1@).len() == __s1@.len()); }
//@ at loop-start 1
    proof { assert(ids(__s1@).len() == __s1@.len()); assert(id_of(child) == ids(__s1@)[__i1 - 1]); lemma_answer(l, n, f, __i1 - 1); }
//@ emit
// ---------------------------------------------------------------- :only-child
impl<'a> Ele<'a> {
    /// ASSUMED here (proved in unit domread)
    #[verifier::external_body]
    fn node_type(&self) -> (r: INodeType)
        ensures r == kind(id_of(self)),
    { unimplemented!() }
}
spec fn only_def() -> spec_fn(int) -> bool { |e: int| par(e) is Some && is_el(e) && elkids(par(e)->0).len() == 1 }
proof fn lemma_filter_mono(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k <= s.len(),
    ensures s.take(k).filter(f).len() <= s.filter(f).len(),
    decreases s.len() - k,
{ if k < s.len() { lemma_filter_mono(s, k + 1, f); lemma_take_filter(s, k, f); } else { assert(s.take(k) =~= s); } }
proof fn lemma_two_kids(a: int, b: int)
    requires a != b, par(a) is Some, par(a) == par(b), is_el(a), is_el(b),
    ensures elkids(par(a)->0).len() >= 2,
{ lemma_pos(par(a)->0, a); lemma_pos(par(a)->0, b); lemma_pos_lt(par(a)->0, a, b); }
//@ closure mesdoc/rules/pseudo.rs pseudo_only_child all_handle as only_child_all
//@ prop C01 C16
//@ sig
fn only_child_all<'a, 'r>(eles: &'a Elements<'r>) -> (r: Elements<'r>)
//@ header
    requires asked(eles.ids()),
    ensures r.ids() == eles.ids().filter(only_def()),
//@ at start
    let ghost s = eles.ids();
    let ghost f = only_def();
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == only_def(), __s0@ == eles.nodes@, __i0 <= __s0@.len(), result.ids() == s.take(__i0 as int).filter(f),
        prev_parent is Some ==> exists|j: int| 0 <= j < __i0 && par(#[trigger] s[j]) == Some(id_of(&prev_parent->0)),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    proof {
        assert(id_of(ele) == s[k]);
        lemma_take_filter(s, k, f);
        assert(s.contains(s[k]));
        if prev_parent is Some {
            let j = choose|j: int| 0 <= j < k && par(#[trigger] s[j]) == Some(id_of(&prev_parent->0));
            assert(s.contains(s[j]));
            if par(s[j]) == par(s[k]) { lemma_two_kids(s[j], s[k]); }
        }
    }
//@ at pre-loop 1
    let ghost q = kids(id_of(&parent));
    proof { assert(q.take(q.len() as int) =~= q); assert(q.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(el()); }
//@ loop 1
    invariant_except_break count <= 1,
    invariant
        q.take(q.len() as int) == q, __s1@ == child_nodes@, __i1 <= __s1@.len(), __s1@.len() == q.len(), forall|i: int| 0 <= i < q.len() ==> node_id(&#[trigger] child_nodes@[i]) == q[i],
        count == q.take(__i1 as int).filter(el()).len(),
    ensures (count == 1) == (q.filter(el()).len() == 1),
//@ at loop-start 1
    proof { lemma_take_filter(q, __i1 - 1, el()); lemma_filter_mono(q, __i1 as int, el()); }
//@ at loop-end 0
    proof { assert(par(s[k]) is Some ==> par(s[k]) == Some(id_of(&prev_parent->0))); }
//@ at loop-exit 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@ emit
// ---------------------------------------------------------------- :empty, :root
spec fn empty_def(e: int) -> bool { forall|i: int| 0 <= i < kids(e).len() ==> kind(#[trigger] kids(e)[i]) is Comment }
//@ closure mesdoc/rules/pseudo.rs pseudo_empty one_handle as empty_one
//@ prop C01 C16
//@ sig
fn empty_one(ele: &Ele) -> (r: bool)
//@ header
    ensures r == empty_def(id_of(ele)),
//@ loop 0
    invariant_except_break
        only_comments, forall|i: int| 0 <= i < __i0 ==> kind(#[trigger] kids(id_of(ele))[i]) is Comment,
    invariant
        __i0 <= __s0@.len(), __s0@.len() == kids(id_of(ele)).len(), forall|i: int| 0 <= i < __s0@.len() ==> node_id(&#[trigger] __s0@[i]) == kids(id_of(ele))[i],
    ensures only_comments == empty_def(id_of(ele)),
//@ at loop-start 0
    proof { assert(node_id(&node) == kids(id_of(ele))[__i0 - 1]); }
//@ emit
spec fn root_def(e: int) -> bool { tname(e) == "HTML"@ && par(e) is Some && kind(par(e)->0) is Document }
//@ closure mesdoc/rules/pseudo.rs pseudo_root one_handle as root_one
//@ prop C01 C16
//@ rule streq
//@ sig
fn root_one(ele: &Ele) -> (r: bool)
//@ header
    ensures r == root_def(id_of(ele)),
//@ emit
// ---------------------------------------------------------------- :only-of-type
spec fn only_type_def() -> spec_fn(int) -> bool { |e: int| par(e) is Some && is_el(e) && cnt(elkids(par(e)->0), tname(e)) == 1 }
spec fn lone(K: Seq<int>) -> spec_fn(int) -> bool { |n: int| cnt(K, tname(n)) == 1 }
/// the names met once, with their positions
spec fn once(K: Seq<int>, i: int, v: Seq<(String, usize)>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).1 < (#[trigger] v[b]).1
    &&& forall|a: int| 0 <= a < v.len() ==> (#[trigger] v[a]).1 < i && tname(K[v[a].1 as int]) == v[a].0@ && cnt(K.take(i), v[a].0@) == 1
    &&& forall|j: int| 0 <= j < i && cnt(K.take(i), tname(#[trigger] K[j])) == 1 ==> listed(v, j)
}
spec fn listed(v: Seq<(String, usize)>, j: int) -> bool { exists|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == j }
spec fn hasname(w: Seq<String>, t: Seq<char>) -> bool { exists|a: int| 0 <= a < w.len() && #[trigger] w[a]@ == t }
spec fn twice(K: Seq<int>, i: int, w: Seq<String>) -> bool { forall|t: Seq<char>| #![trigger hasname(w, t)] #![trigger cnt(K.take(i), t)] hasname(w, t) == (cnt(K.take(i), t) >= 2) }
/// TRUSTED: `contains` of a list of strings
#[verifier::external_body]
fn vx_has_name(w: &Vec<String>, t: &String) -> (r: bool)
    ensures r == hasname(w@, t@),
{ w.contains(t) }
proof fn lemma_cnt_one(s: Seq<int>, t: Seq<char>, a: int, b: int)
    requires cnt(s, t) == 1, 0 <= a < s.len(), 0 <= b < s.len(), tname(s[a]) == t, tname(s[b]) == t,
    ensures a == b,
{
    if a < b { lemma_cnt_two(s, t, a, b); } else if b < a { lemma_cnt_two(s, t, b, a); }
}
proof fn lemma_cnt_two(s: Seq<int>, t: Seq<char>, a: int, b: int)
    requires 0 <= a < b < s.len(), tname(s[a]) == t, tname(s[b]) == t,
    ensures cnt(s, t) >= 2,
{
    let f = named(t);
    lemma_take_filter(s, b, f);
    lemma_take_filter(s, a, f);
    assert(s.take(b).take(a + 1) =~= s.take(a + 1));
    lemma_filter_mono(s.take(b), a + 1, f);
    lemma_filter_mono(s, b + 1, f);
}
/// a name that was met was met somewhere
proof fn lemma_cnt_some(s: Seq<int>, t: Seq<char>) -> (j: int)
    requires cnt(s, t) > 0,
    ensures 0 <= j < s.len(), tname(s[j]) == t,
{
    lemma_filter(s, named(t));
    let n = s.filter(named(t))[0];
    assert(s.filter(named(t)).contains(n));
    choose|j: int| 0 <= j < s.len() && s[j] == n
}
proof fn lemma_once_push(K: Seq<int>, i: int, v: Seq<(String, usize)>, x: (String, usize))
    requires once(K, i, v), 0 <= i < K.len(), x.1 == i, x.0@ == tname(K[i]), cnt(K.take(i), tname(K[i])) == 0,
    ensures once(K, i + 1, v.push(x)),
{
    let w = v.push(x);
    lemma_take_named(K, i);
    assert forall|j: int| 0 <= j < i + 1 && cnt(K.take(i + 1), tname(#[trigger] K[j])) == 1 implies listed(w, j) by {
        if j < i {
            if tname(K[j]) == tname(K[i]) { assert(K.take(i)[j] == K[j]); lemma_cnt_at(K.take(i), j); }
            assert(listed(v, j));
            let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == j;
            assert(w[a].1 == j);
        } else { assert(w[v.len() as int].1 == j); }
    }
}
proof fn lemma_cnt_at(s: Seq<int>, j: int)
    requires 0 <= j < s.len(),
    ensures cnt(s, tname(s[j])) > 0,
{ lemma_take_filter(s, j, named(tname(s[j]))); lemma_filter_mono(s, j + 1, named(tname(s[j]))); }
proof fn lemma_once_drop(K: Seq<int>, i: int, v: Seq<(String, usize)>, a: int)
    requires once(K, i, v), 0 <= i < K.len(), 0 <= a < v.len(), v[a].0@ == tname(K[i]),
    ensures once(K, i + 1, v.remove(a)), cnt(K.take(i), tname(K[i])) == 1,
{
    let w = v.remove(a);
    lemma_take_named(K, i);
    assert forall|b: int| 0 <= b < w.len() implies (#[trigger] w[b]).1 < i + 1 && tname(K[w[b].1 as int]) == w[b].0@ && cnt(K.take(i + 1), w[b].0@) == 1 by {
        let c = if b < a { b } else { b + 1 };
        assert(w[b] == v[c]);
        if v[c].0@ == tname(K[i]) {
            let (x, y) = (v[a].1 as int, v[c].1 as int);
            assert(K.take(i)[x] == K[x] && K.take(i)[y] == K[y]);
            lemma_cnt_one(K.take(i), tname(K[i]), x, y);
        }
    }
    assert forall|j: int| 0 <= j < i + 1 && cnt(K.take(i + 1), tname(#[trigger] K[j])) == 1 implies listed(w, j) by {
        assert(j < i && tname(K[j]) != tname(K[i]));
        assert(listed(v, j));
        let b = choose|b: int| 0 <= b < v.len() && (#[trigger] v[b]).1 == j;
        if b < a { assert(w[b] == v[b]); } else { assert(w[b - 1] == v[b]); }
    }
}
proof fn lemma_once_keep(K: Seq<int>, i: int, v: Seq<(String, usize)>)
    requires once(K, i, v), 0 <= i < K.len(), cnt(K.take(i), tname(K[i])) >= 2,
    ensures once(K, i + 1, v),
{ lemma_take_named(K, i); }
/// the listed ones are the lone ones
proof fn lemma_lone(p: int, v: Seq<(String, usize)>)
    requires once(elkids(p), elkids(p).len() as int, v),
    ensures
        forall|a: int| 0 <= a < v.len() ==> 0 <= (#[trigger] v[a]).1 < elkids(p).len() && lone(elkids(p))(elkids(p)[v[a].1 as int]),
        forall|n: int| par(n) == Some(p) && is_el(n) && #[trigger] lone(elkids(p))(n) ==> listed(v, pos(p, n)),
{
    let K = elkids(p);
    assert(K.take(K.len() as int) =~= K);
    assert forall|n: int| par(n) == Some(p) && is_el(n) && #[trigger] lone(K)(n) implies listed(v, pos(p, n)) by { lemma_pos(p, n); assert(K[pos(p, n)] == n); }
}
proof fn lemma_lone_pick(p: int, v: Seq<(String, usize)>, r: Seq<int>)
    requires once(elkids(p), elkids(p).len() as int, v), r.len() == v.len(), forall|a: int| 0 <= a < r.len() ==> #[trigger] r[a] == elkids(p)[v[a].1 as int],
    ensures r == elkids(p).filter(lone(elkids(p))),
{
    let K = elkids(p);
    let f = lone(K);
    lemma_lone(p, v);
    lemma_elkid(p);
    lemma_filter(K, f);
    lemma_filter_inc(K, f);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies idx(#[trigger] r[i]) < idx(#[trigger] r[j]) by { assert(v[i].1 < v[j].1); assert(idx(K[v[i].1 as int]) < idx(K[v[j].1 as int])); }
    assert forall|n: int| #[trigger] r.contains(n) <==> K.filter(f).contains(n) by {
        if r.contains(n) { let a = choose|a: int| 0 <= a < r.len() && r[a] == n; assert(K[v[a].1 as int] == n); assert(K.contains(n)); }
        if K.filter(f).contains(n) {
            assert(K.contains(n) && f(n));
            assert(listed(v, pos(p, n)));
            let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == pos(p, n);
            lemma_pos(p, n);
            assert(r[a] == n);
        }
    }
    lemma_same(r, K.filter(f));
}
//@ closure mesdoc/rules/pseudo.rs pseudo_only_of_type all_handle as only_type_all
//@ prop C01 C16
//@ rule group group_siblings_then_done
//@ rule streq
//@ rule text repeated.contains(&name) => vx_has_name(&repeated, &name)
//@ sig
fn only_type_all<'a, 'r>(eles: &'a Elements<'r>) -> (r: Elements<'r>)
//@ header
    requires asked(eles.ids()),
    ensures r.ids() == eles.ids().filter(only_type_def()),
//@ at start
    let ghost s = eles.ids();
    let ghost f = only_type_def();
    proof { assert(s.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(f); }
//@ loop 0
    invariant
        s == eles.ids(), asked(s), f == only_type_def(),
        __i0 <= __s0@.len(), parted(s, s.len() as int, grps(__s0@)), result.ids() == s.take(endof(grps(__s0@), __i0 as int)).filter(f),
//@ at loop-start 0
    let ghost g = grps(__s0@);
    let ghost k = __i0 - 1;
    let ghost p = id_of(&data.parent->0);
    let ghost K = elkids(p);
    let ghost h = lone(K);
    let ghost S = s.subrange(data.range.start as int, data.range.end as int);
    proof {
        assert(g[k] == __s0@[k].g());
        assert(group_ok(s, endof(g, k), g[k]));
        lemma_group_run(s, g[k].start, g[k].end, p);
        assert forall|j: int| g[k].start <= j < g[k].end implies f(#[trigger] s[j]) == h(s[j]) by { assert(par(s[j]) == Some(p)); assert(s.contains(s[j])); }
        lemma_group_step(s, g, k, f, h);
        assert(endof(g, k + 1) == g[k].end);
    }
//@ at pre-loop 1
    proof { assert(childs.ids().len() == childs.nodes@.len()); assert forall|t: Seq<char>| #[trigger] cnt(K.take(0), t) == 0 by { assert(K.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(named(t)); } }
//@ loop 1
    invariant
        K == elkids(p), __s1@ == childs.nodes@, ids(__s1@) == K, __i1 <= __s1@.len(), __s1@.len() == K.len(),
        once(K, __i1 as int, only_names@), twice(K, __i1 as int, repeated@),
//@ at loop-start 1
    let ghost i = __i1 - 1;
    let ghost v = only_names@;
    let ghost w = repeated@;
    let ghost nm = tname(K[i]);
    proof {
        assert(ids(__s1@)[i] == K[i]);
        lemma_take_named(K, i);
        assert(hasname(w, nm) == (cnt(K.take(i), nm) >= 2));
    }
//@ loop 2
    invariant
        __s2@ == v, __i2 <= v.len(), name@ == nm,
        __f2 ==> __i2 > 0 && v[__i2 - 1].0@ == nm,
        !__f2 ==> forall|a: int| 0 <= a < __i2 ==> (#[trigger] v[a]).0@ != nm,
//@ at loop-end 1
    proof {
        if cnt(K.take(i), nm) >= 2 {
            lemma_once_keep(K, i, v);
        } else if exists|a: int| 0 <= a < v.len() && (#[trigger] v[a]).0@ == nm {
            let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).0@ == nm && only_names@ == v.remove(a);
            lemma_once_drop(K, i, v, a);
            assert forall|t: Seq<char>| hasname(repeated@, t) == (cnt(K.take(i + 1), t) >= 2) by {
                assert(hasname(w, t) == (cnt(K.take(i), t) >= 2));
                if hasname(w, t) { let c = choose|c: int| 0 <= c < w.len() && #[trigger] w[c]@ == t; assert(repeated@[c]@ == t); }
                if hasname(repeated@, t) && t != nm { let c = choose|c: int| 0 <= c < repeated@.len() && #[trigger] repeated@[c]@ == t; assert(w[c]@ == t); }
                if t == nm { assert(repeated@[w.len() as int]@ == t); }
            }
        } else {
            if cnt(K.take(i), nm) > 0 {
                let j = lemma_cnt_some(K.take(i), nm);
                assert(K[j] == K.take(i)[j]);
                assert(listed(v, j));
                let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == j;
                assert(v[a].0@ == nm);
            }
            lemma_once_push(K, i, v, only_names@.last());
        }
        assert forall|t: Seq<char>| hasname(repeated@, t) == (cnt(K.take(i + 1), t) >= 2) by { assert(hasname(w, t) == (cnt(K.take(i), t) >= 2)); }
    }
//@ at loop-exit 1
    proof { assert(K.take(K.len() as int) =~= K); }
//@ at before if !only_names
    let ghost v = only_names@;
    let ghost r0 = result.ids();
    proof {
        lemma_lone(p, v);
        assert(ids(siblings@) =~= S);
        assert(S.len() == siblings@.len());
        if S.len() == K.len() { lemma_run_all(S, p); }
        if v.len() == 0 {
            assert forall|j: int| 0 <= j < S.len() implies !h(#[trigger] S[j]) by {}
            lemma_filter_rest(S, 0, h);
            assert(S.take(0) =~= Seq::<int>::empty());
            lemma_filter_empty(h);
            assert(r0 + Seq::<int>::empty() =~= r0);
        }
    }
//@ loop 3
    invariant
        __s3@ == v, __i3 <= v.len(), siblings@.len() == K.len(), ids(siblings@) == K, S == K,
        forall|a: int| 0 <= a < v.len() ==> 0 <= (#[trigger] v[a]).1 < K.len(),
        ids(finded@).len() == r0.len() + __i3,
        ids(finded@).take(r0.len() as int) == r0, forall|a: int| 0 <= a < __i3 ==> ids(finded@)[r0.len() + a] == K[(#[trigger] v[a]).1 as int],
//@ at loop-start 3
    let ghost fd = ids(finded@);
    proof { assert(v[__i3 - 1].1 < K.len()); assert(id_of(&siblings@[v[__i3 - 1].1 as int]) == ids(siblings@)[v[__i3 - 1].1 as int]); }
//@ at loop-end 3
    proof { assert(ids(finded@) =~= fd.push(K[v[__i3 - 1].1 as int])); assert(ids(finded@).take(r0.len() as int) =~= r0); }
//@ at loop-exit 3
    proof {
        let x = ids(finded@).skip(r0.len() as int);
        assert forall|a: int| 0 <= a < x.len() implies #[trigger] x[a] == K[v[a].1 as int] by {}
        lemma_lone_pick(p, v, x);
        assert(ids(finded@) =~= r0 + x);
    }
//@ at pre-loop 4
    proof { assert(S.take(0) =~= Seq::<int>::empty()); lemma_filter_empty(h); assert(r0 + Seq::<int>::empty() =~= r0); }
//@ loop 4
    invariant
        K == elkids(p), h == lone(K), __s4@ == v, __i4 <= v.len(), ids(siblings@) == S, run(S, p), once(K, K.len() as int, v),
        forall|a: int| 0 <= a < v.len() ==> 0 <= (#[trigger] v[a]).1 < K.len() && h(K[v[a].1 as int]),
        forall|n: int| par(n) == Some(p) && is_el(n) && #[trigger] h(n) ==> listed(v, pos(p, n)),
        cur_index <= S.len() <= usize::MAX, ids(finded@) == r0 + S.take(cur_index as int).filter(h),
        forall|j: int, a: int| cur_index <= j < S.len() && 0 <= a < __i4 ==> pos(p, #[trigger] S[j]) != (#[trigger] v[a]).1,
//@ at loop-start 4
    let ghost x = __i4 - 1;
    let ghost c0 = cur_index as int;
    let ghost nx = K[v[x].1 as int];
    let ghost fd = ids(finded@);
    proof {
        assert(v[x].0@ == tname(nx) && h(nx));
        assert(K.contains(nx));
        lemma_elkid(p);
        lemma_pos_at(p, v[x].1 as int);
        assert(siblings@.len() == S.len());
        assert forall|j: int| 0 <= j < S.len() && tname(#[trigger] S[j]) == tname(nx) implies pos(p, S[j]) == v[x].1 by {
            lemma_pos(p, S[j]);
            lemma_cnt_one(K, tname(nx), pos(p, S[j]), v[x].1 as int);
        }
        assert forall|j: int| 0 <= j < S.len() && pos(p, #[trigger] S[j]) == v[x].1 implies tname(S[j]) == tname(nx) by { lemma_pos(p, S[j]); }
    }
//@ loop 5
    invariant_except_break
        cur_index == c0, ids(finded@) == fd,
        forall|j: int| c0 <= j < c0 + __i5 ==> tname(#[trigger] S[j]) != tname(nx),
    invariant
        __s5@ == siblings@.subrange(c0, S.len() as int), __i5 <= __s5@.len(), name@ == tname(nx),
        0 <= c0 <= S.len() <= usize::MAX, siblings@.len() == S.len(), ids(siblings@) == S,
    ensures
        (cur_index == c0 && ids(finded@) == fd && forall|j: int| c0 <= j < S.len() ==> tname(#[trigger] S[j]) != tname(nx))
        || (c0 < cur_index <= S.len() && tname(S[cur_index - 1]) == tname(nx) && ids(finded@) == fd.push(S[cur_index - 1]) && forall|j: int| c0 <= j < cur_index - 1 ==> tname(#[trigger] S[j]) != tname(nx)),
//@ at loop-start 5
    proof { assert(ids(siblings@)[c0 + __i5 - 1] == S[c0 + __i5 - 1]); assert(id_of(ele) == S[c0 + __i5 - 1]); }
//@ at after finded.push(ele.cloned())
    proof { assert(ids(finded@) =~= fd.push(S[cur_index - 1])); }
//@ at loop-end 4
    proof {
        if cur_index > c0 {
            let q = cur_index - 1;
            assert(pos(p, S[q]) == v[x].1);
            lemma_pos(p, S[q]);
            assert(S[q] == nx);
            assert forall|j: int| c0 <= j < q implies !h(#[trigger] S[j]) by {
                if h(S[j]) {
                    assert(listed(v, pos(p, S[j])));
                    let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == pos(p, S[j]);
                    lemma_run_pos(S, p, j, q);
                    if a > x { assert(v[x].1 < v[a].1); }
                    if a == x { assert(tname(S[j]) == tname(nx)); }
                }
            }
            assert forall|j: int| c0 <= j < q implies !h(#[trigger] S.take(q)[j]) by { assert(S.take(q)[j] == S[j]); }
            lemma_filter_rest(S.take(q), c0, h);
            assert(S.take(q).take(c0) =~= S.take(c0));
            lemma_take_filter(S, q, h);
            assert(ids(finded@) =~= r0 + S.take(q + 1).filter(h));
            assert forall|j: int, a: int| cur_index <= j < S.len() && 0 <= a < __i4 implies pos(p, #[trigger] S[j]) != (#[trigger] v[a]).1 by {
                lemma_run_pos(S, p, q, j);
                if a < x { assert(v[a].1 < v[x].1); }
            }
        } else {
            assert forall|j: int, a: int| cur_index <= j < S.len() && 0 <= a < __i4 implies pos(p, #[trigger] S[j]) != (#[trigger] v[a]).1 by {}
        }
    }
//@ at loop-exit 4
    proof {
        assert forall|j: int| cur_index <= j < S.len() implies !h(#[trigger] S[j]) by {
            if h(S[j]) { assert(listed(v, pos(p, S[j]))); let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).1 == pos(p, S[j]); }
        }
        lemma_filter_rest(S, cur_index as int, h);
    }
//@ at loop-exit 0
    proof { lemma_group_end(s, grps(__s0@), f); }
//@ emit
// ---------------------------------------------------------------- which closure stands behind which name
/// the boxed closures of this file: each value stands for the closure of that name proved above (rule `boxed`)
enum MatchAllHandle {
    NthChild { n: Option<String>, index: Option<String>, handle: NthChildHandle },
    FirstChild { handle: NthChildHandle },
    NthType { n: Option<String>, index: Option<String>, asc: bool },
    FirstType { asc: bool },
    OnlyChild,
    OnlyType,
    Not { selector: String },
    Has { selector: String },
    Filter { alias: &'static str },
}
enum MatchOneHandle { Root, Empty }
enum MatchSpecifiedHandle {
    ChildAsc { index: usize },
    ChildDesc { index: usize },
    TypeAsc { allow_indexs: Vec<usize> },
    TypeDesc { allow_indexs: Vec<usize> },
    Nothing,
    Root,
}
enum MatcherFactory { NthChild { asc: bool }, FirstChild { asc: bool }, NthType { asc: bool }, FirstType { asc: bool }, OnlyChild, OnlyType, Root, Empty, Not, Has, Alias { alias: &'static str } }
//@ item mesdoc/selector/rule.rs Matcher
//@ item mesdoc/selector/rule.rs RuleDefItem
//@ item mesdoc/selector/pattern.rs Matched
//@ item mesdoc/constants.rs PRIORITY_PSEUDO_SELECTOR
//@ item mesdoc/constants.rs SELECTOR_ALIAS_NAME_HEADER
//@ item mesdoc/constants.rs SELECTOR_ALIAS_NAME_SUBMIT
//@ item mesdoc/constants.rs SELECTOR_ALIAS_NAME_INPUT
//@ item mesdoc/rules/pseudo.rs PRIORITY
//@ emit
type MatchedQueue = Vec<Matched>;
type MatchedData = DataMap;
/// TRUSTED: std HashMap from texts to texts
#[verifier::external_body]
struct DataMap;
impl DataMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, String>;
    #[verifier::external_body]
    fn get<'b>(&'b self, k: &str) -> (r: Option<&'b String>)
        ensures r is Some == self.view().contains_key(k@), r matches Some(x) ==> *x == self.view()[k@],
    { unimplemented!() }
}
spec fn look(m: &DataMap, k: Seq<char>) -> Option<Seq<char>> { if m.view().contains_key(k) { Some(m.view()[k]@) } else { None } }
spec fn txt(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// a rule in the list of rules
#[verifier::external_body]
struct RuleItem;
impl RuleItem { uninterp spec fn def(&self) -> RuleDefItem; }
/// ASSUMED: `RuleItem::from` keeps the parts of the definition
#[verifier::external_body]
fn vx_item(d: RuleDefItem) -> (r: RuleItem)
    ensures r.def() == d,
{ unimplemented!() }
/// the definitions behind :not, :has and the aliases: proved for Elements::not, has and filter in unit query
uninterp spec fn not_def(sel: Seq<char>) -> spec_fn(int) -> bool;
uninterp spec fn has_def(sel: Seq<char>) -> spec_fn(int) -> bool;
uninterp spec fn filter_def(sel: Seq<char>) -> spec_fn(int) -> bool;
spec fn all_def(h: &MatchAllHandle) -> spec_fn(int) -> bool {
    match h {
        MatchAllHandle::NthChild { n, index, handle } => nth_def(handle.asc, *n, *index),
        MatchAllHandle::FirstChild { handle } => first_def(handle.asc),
        MatchAllHandle::NthType { n, index, asc } => type_def(*asc, *n, *index),
        MatchAllHandle::FirstType { asc } => first_type_def(*asc),
        MatchAllHandle::OnlyChild => only_def(),
        MatchAllHandle::OnlyType => only_type_def(),
        MatchAllHandle::Not { selector } => not_def(selector@),
        MatchAllHandle::Has { selector } => has_def(selector@),
        MatchAllHandle::Filter { alias } => filter_def(alias@),
    }
}
spec fn spec_log(h: &MatchSpecifiedHandle, e: int) -> Seq<(int, bool, bool)> {
    match h {
        MatchSpecifiedHandle::ChildAsc { index } => answers(e, nth_at(true, *index as int), elkids(e).len() as int),
        MatchSpecifiedHandle::ChildDesc { index } => answers(e, nth_at(false, *index as int), elkids(e).len() as int),
        MatchSpecifiedHandle::TypeAsc { allow_indexs } => answers(e, tnth_at(true, allow_indexs@[0] as int), elkids(e).len() as int),
        MatchSpecifiedHandle::TypeDesc { allow_indexs } => answers(e, tnth_at(false, allow_indexs@[0] as int), elkids(e).len() as int),
        _ => Seq::empty(),
    }
}
spec fn spec_ok(h: &MatchSpecifiedHandle) -> bool {
    match h {
        MatchSpecifiedHandle::TypeAsc { allow_indexs } => allow_indexs@.len() == 1,
        MatchSpecifiedHandle::TypeDesc { allow_indexs } => allow_indexs@.len() == 1,
        MatchSpecifiedHandle::Root => false,
        _ => true,
    }
}
#[verifier::external_body]
fn vx_dup<T: Clone>(x: &T) -> (r: T)
    ensures r == *x,
{ x.clone() }
impl MatchAllHandle {
    /// what a call of the boxed closure does
    fn call<'r>(&self, eles: &Elements<'r>, is_all: Option<bool>) -> (r: Elements<'r>)
        requires
            !(self is Not || self is Has || self is Filter), asked(eles.ids()),
            is_all is Some ==> exists|p: int| eles.ids() == elkids(p),
            self matches MatchAllHandle::NthChild { n, index, handle } ==> (n is None ==> index is Some),
            self matches MatchAllHandle::NthType { n, index, asc } ==> (n is None ==> index is Some),
        ensures r.ids() == eles.ids().filter(all_def(self)),
    {
        match self {
            MatchAllHandle::NthChild { n, index, handle } => nth_child_all(vx_dup(n), vx_dup(index), NthChildHandle { asc: handle.asc }, eles, is_all),
            MatchAllHandle::FirstChild { handle } => first_child_all(NthChildHandle { asc: handle.asc }, eles),
            MatchAllHandle::NthType { n, index, asc } => nth_type_all(vx_dup(n), vx_dup(index), *asc, eles, is_all),
            MatchAllHandle::FirstType { asc } => first_type_all(*asc, eles),
            MatchAllHandle::OnlyChild => only_child_all(eles),
            MatchAllHandle::OnlyType => only_type_all(eles),
            _ => vx_panic(),
        }
    }
}
impl MatchSpecifiedHandle {
    fn call(&self, ele: &Ele, callback: &mut Calls)
        requires spec_ok(self),
        ensures final(callback).log() == old(callback).log() + spec_log(self, id_of(ele)),
    {
        proof { assert(callback.log() + Seq::<(int, bool, bool)>::empty() =~= callback.log()); }
        match self {
            MatchSpecifiedHandle::ChildAsc { index } => nth_child_specified_asc(*index, ele, callback),
            MatchSpecifiedHandle::ChildDesc { index } => nth_child_specified_desc(*index, ele, callback),
            MatchSpecifiedHandle::TypeAsc { allow_indexs } => nth_type_specified_asc(vx_dup(allow_indexs), ele, callback),
            MatchSpecifiedHandle::TypeDesc { allow_indexs } => nth_type_specified_desc(vx_dup(allow_indexs), ele, callback),
            _ => {}
        }
    }
}
/// the specified form calls back for every child with what the all form says, or for none when it selects none
spec fn forms_agree(m: &Matcher) -> bool {
    m.specified_handle is Some && m.all_handle is Some ==> {
        let (h, a) = (m.specified_handle->0, m.all_handle->0);
        &&& spec_ok(&h)
        &&& forall|e: int| #![trigger spec_log(&h, e)] spec_log(&h, e) == answers(e, all_def(&a), elkids(e).len() as int) || (spec_log(&h, e).len() == 0 && none_of(e, all_def(&a)))
    }
}
spec fn none_of(e: int, f: spec_fn(int) -> bool) -> bool { forall|i: int| 0 <= i < elkids(e).len() ==> !f(#[trigger] elkids(e)[i]) }
proof fn lemma_answers_ext(e: int, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < elkids(e).len() ==> f(#[trigger] elkids(e)[i]) == g(elkids(e)[i]),
    ensures answers(e, f, elkids(e).len() as int) == answers(e, g, elkids(e).len() as int),
{ assert(answers(e, f, elkids(e).len() as int) =~= answers(e, g, elkids(e).len() as int)); }
proof fn lemma_child_forms(e: int, asc: bool, n: Option<String>, index: Option<String>, k: int)
    requires n is None, index is Some, k == clamp_lim(written(index->0@)),
    ensures
        answers(e, nth_at(asc, k - 1), elkids(e).len() as int) == answers(e, nth_def(asc, n, index), elkids(e).len() as int),
        k <= 0 ==> none_of(e, nth_def(asc, n, index)),
{
    assert forall|i: int| 0 <= i < elkids(e).len() implies nth_at(asc, k - 1)(#[trigger] elkids(e)[i]) == nth_def(asc, n, index)(elkids(e)[i]) by { lemma_elkid(e); lemma_pos_at(e, i); }
    assert forall|i: int| k <= 0 && 0 <= i < elkids(e).len() implies !nth_def(asc, n, index)(#[trigger] elkids(e)[i]) by { lemma_elkid(e); assert(elkids(e).contains(elkids(e)[i])); lemma_pos_at(e, i); }
    lemma_answers_ext(e, nth_at(asc, k - 1), nth_def(asc, n, index));
}
proof fn lemma_type_forms(e: int, asc: bool, n: Option<String>, index: Option<String>, k: int)
    requires n is None, index is Some, k == clamp_lim(written(index->0@)),
    ensures
        answers(e, tnth_at(asc, k - 1), elkids(e).len() as int) == answers(e, type_def(asc, n, index), elkids(e).len() as int),
        k <= 0 ==> none_of(e, type_def(asc, n, index)),
{
    assert forall|i: int| 0 <= i < elkids(e).len() implies tnth_at(asc, k - 1)(#[trigger] elkids(e)[i]) == type_def(asc, n, index)(elkids(e)[i]) by {}
    assert forall|i: int| k <= 0 && 0 <= i < elkids(e).len() implies !type_def(asc, n, index)(#[trigger] elkids(e)[i]) by {
        lemma_elkid(e);
        assert(elkids(e).contains(elkids(e)[i]));
        lemma_tpos(asc, e, elkids(e)[i]);
    }
    lemma_answers_ext(e, tnth_at(asc, k - 1), type_def(asc, n, index));
}
proof fn lemma_child_forms_all(h: MatchSpecifiedHandle, asc: bool, n: Option<String>, index: Option<String>, k: int)
    requires
        n is None, index is Some, k == clamp_lim(written(index->0@)),
        k <= 0 ==> h is Nothing,
        k > 0 ==> h == (if asc { MatchSpecifiedHandle::ChildAsc { index: (k - 1) as usize } } else { MatchSpecifiedHandle::ChildDesc { index: (k - 1) as usize } }),
    ensures
        forall|e: int| #![trigger spec_log(&h, e)] spec_log(&h, e) == answers(e, nth_def(asc, n, index), elkids(e).len() as int) || (spec_log(&h, e).len() == 0 && none_of(e, nth_def(asc, n, index))),
{
    assert forall|e: int| #![trigger spec_log(&h, e)] spec_log(&h, e) == answers(e, nth_def(asc, n, index), elkids(e).len() as int) || (spec_log(&h, e).len() == 0 && none_of(e, nth_def(asc, n, index))) by { lemma_child_forms(e, asc, n, index, k); }
}
proof fn lemma_type_forms_all(h: MatchSpecifiedHandle, asc: bool, n: Option<String>, index: Option<String>, k: int)
    requires
        n is None, index is Some, k == clamp_lim(written(index->0@)),
        k <= 0 ==> h is Nothing,
        k > 0 && asc ==> (h matches MatchSpecifiedHandle::TypeAsc { allow_indexs } && allow_indexs@ == seq![(k - 1) as usize]),
        k > 0 && !asc ==> (h matches MatchSpecifiedHandle::TypeDesc { allow_indexs } && allow_indexs@ == seq![(k - 1) as usize]),
    ensures
        forall|e: int| #![trigger spec_log(&h, e)] spec_log(&h, e) == answers(e, type_def(asc, n, index), elkids(e).len() as int) || (spec_log(&h, e).len() == 0 && none_of(e, type_def(asc, n, index))),
{
    assert forall|e: int| #![trigger spec_log(&h, e)] spec_log(&h, e) == answers(e, type_def(asc, n, index), elkids(e).len() as int) || (spec_log(&h, e).len() == 0 && none_of(e, type_def(asc, n, index))) by { lemma_type_forms(e, asc, n, index, k); }
}
proof fn lemma_first_forms(e: int, asc: bool)
    ensures
        answers(e, nth_at(asc, 0), elkids(e).len() as int) == answers(e, first_def(asc), elkids(e).len() as int),
        answers(e, tnth_at(asc, 0), elkids(e).len() as int) == answers(e, first_type_def(asc), elkids(e).len() as int),
{
    assert forall|i: int| 0 <= i < elkids(e).len() implies nth_at(asc, 0)(#[trigger] elkids(e)[i]) == first_def(asc)(elkids(e)[i]) by { lemma_elkid(e); lemma_pos_at(e, i); }
    lemma_answers_ext(e, nth_at(asc, 0), first_def(asc));
    assert forall|i: int| 0 <= i < elkids(e).len() implies tnth_at(asc, 0)(#[trigger] elkids(e)[i]) == first_type_def(asc)(elkids(e)[i]) by {}
    lemma_answers_ext(e, tnth_at(asc, 0), first_type_def(asc));
}
impl Nth {
//@ contract nth.vx Nth::to_number
//@ emit
}
//@ fn mesdoc/rules/pseudo.rs nth_index_to_number
//@ prop C01 C16
//@ ret r
//@ header
    requires index is Some,
    ensures r == clamp_lim(written(index->0@)),
//@ fn mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_handle
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => NthChildHandle { asc: true }
//@ rule boxed 1 => NthChildHandle { asc: false }
//@ header
    ensures r.asc == asc,
//@ fn mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child_specified
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatchSpecifiedHandle::ChildAsc { index }
//@ rule boxed 1 => MatchSpecifiedHandle::ChildDesc { index }
//@ rule boxed 2 => MatchSpecifiedHandle::Nothing
//@ header
    ensures
        index <= 0 ==> r is Nothing,
        index > 0 ==> r == (if asc { MatchSpecifiedHandle::ChildAsc { index: (index - 1) as usize } } else { MatchSpecifiedHandle::ChildDesc { index: (index - 1) as usize } }),
//@ fn mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type_specified
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatchSpecifiedHandle::TypeAsc { allow_indexs }
//@ rule boxed 1 => MatchSpecifiedHandle::TypeDesc { allow_indexs }
//@ rule boxed 2 => MatchSpecifiedHandle::Nothing
//@ header
    ensures
        index <= 0 ==> r is Nothing,
        index > 0 && asc ==> (r matches MatchSpecifiedHandle::TypeAsc { allow_indexs } && allow_indexs@ == seq![(index - 1) as usize]),
        index > 0 && !asc ==> (r matches MatchSpecifiedHandle::TypeDesc { allow_indexs } && allow_indexs@ == seq![(index - 1) as usize]),
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child 0 as nth_child_maker
//@ prop C01 C16
//@ rule optmap
//@ rule boxed 0 => MatchAllHandle::NthChild { n, index, handle }
//@ rule text ..Default::default() => one_handle: None, priority: 0, in_cache: false
//@ sig
fn nth_child_maker(asc: bool, data: MatchedQueue) -> (r: Matcher)
//@ header
    requires
        data@.len() > 2, look(&data@[2].data, "n"@) is None ==> look(&data@[2].data, "index"@) is Some,
    ensures
        r.one_handle is None && forms_agree(&r),
        r.all_handle matches Some(MatchAllHandle::NthChild { n, index, handle }) && handle.asc == asc && txt(n) == look(&data@[2].data, "n"@) && txt(index) == look(&data@[2].data, "index"@),
//@ at before Matcher {
    proof {
        if n is None {
            lemma_child_forms_all(specified_handle->0, asc, n, index, clamp_lim(written(index->0@)));
        }
    }
//@ closure mesdoc/rules/pseudo.rs make_first_or_last_child 0 as first_child_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::FirstChild { handle }
//@ rule text ..Default::default() => one_handle: None, priority: 0, in_cache: false
//@ sig
fn first_child_maker(asc: bool) -> (r: Matcher)
//@ header
    ensures r.one_handle is None, forms_agree(&r), r.all_handle matches Some(MatchAllHandle::FirstChild { handle }) && handle.asc == asc,
//@ at before Matcher {
    proof { assert forall|e: int| #![trigger elkids(e)] answers(e, nth_at(asc, 0), elkids(e).len() as int) == answers(e, first_def(asc), elkids(e).len() as int) by { lemma_first_forms(e, asc); } }
//@ closure mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type 0 as nth_type_maker
//@ prop C01 C16
//@ rule optmap
//@ rule boxed 0 => MatchAllHandle::NthType { n, index, asc }
//@ rule text ..Default::default() => one_handle: None, priority: 0, in_cache: false
//@ sig
fn nth_type_maker(asc: bool, mut data: MatchedQueue) -> (r: Matcher)
//@ header
    requires
        data@.len() > 2, look(&data@[2].data, "n"@) is None ==> look(&data@[2].data, "index"@) is Some,
    ensures
        r.one_handle is None && forms_agree(&r),
        r.all_handle matches Some(MatchAllHandle::NthType { n, index, asc: x }) && x == asc && txt(n) == look(&data@[2].data, "n"@) && txt(index) == look(&data@[2].data, "index"@),
//@ at before Matcher {
    proof {
        if n is None { lemma_type_forms_all(specified_handle->0, asc, n, index, clamp_lim(written(index->0@))); }
    }
//@ closure mesdoc/rules/pseudo.rs make_first_or_last_of_type 0 as first_type_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::FirstType { asc }
//@ rule text ..Default::default() => one_handle: None, priority: 0, in_cache: false
//@ sig
fn first_type_maker(asc: bool) -> (r: Matcher)
//@ header
    ensures r.one_handle is None, forms_agree(&r), r.all_handle matches Some(MatchAllHandle::FirstType { asc: x }) && x == asc,
//@ at before Matcher {
    proof { assert forall|e: int| #![trigger elkids(e)] answers(e, tnth_at(asc, 0), elkids(e).len() as int) == answers(e, first_type_def(asc), elkids(e).len() as int) by { lemma_first_forms(e, asc); } }
//@ fn mesdoc/rules/pseudo.rs make_asc_or_desc_nth_child
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatcherFactory::NthChild { asc }
//@ header
    ensures r.1 == selector, r.3 == (MatcherFactory::NthChild { asc }),
//@ fn mesdoc/rules/pseudo.rs make_first_or_last_child
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatcherFactory::FirstChild { asc }
//@ header
    ensures r.1 == selector, r.3 == (MatcherFactory::FirstChild { asc }),
//@ fn mesdoc/rules/pseudo.rs make_asc_or_desc_nth_of_type
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatcherFactory::NthType { asc }
//@ header
    ensures r.1 == selector, r.3 == (MatcherFactory::NthType { asc }),
//@ fn mesdoc/rules/pseudo.rs make_first_or_last_of_type
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatcherFactory::FirstType { asc }
//@ header
    ensures r.1 == selector, r.3 == (MatcherFactory::FirstType { asc }),
//@ emit
/// the rule that was added last
spec fn added(old_rules: Seq<RuleItem>, rules: Seq<RuleItem>, context: Seq<char>, f: MatcherFactory) -> bool {
    rules.len() == old_rules.len() + 1 && rules.drop_last() == old_rules && rules.last().def().1@ == context && rules.last().def().3 == f
}
//@ fn mesdoc/rules/pseudo.rs pseudo_nth_child
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":nth-child({spaces}{nth}{spaces})"@, MatcherFactory::NthChild { asc: true }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_nth_last_child
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":nth-last-child({spaces}{nth}{spaces})"@, MatcherFactory::NthChild { asc: false }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_first_child
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":first-child"@, MatcherFactory::FirstChild { asc: true }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_last_child
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":last-child"@, MatcherFactory::FirstChild { asc: false }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_nth_of_type
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":nth-of-type({spaces}{nth}{spaces})"@, MatcherFactory::NthType { asc: true }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_nth_last_of_type
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":nth-last-of-type({spaces}{nth}{spaces})"@, MatcherFactory::NthType { asc: false }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_first_of_type
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":first-of-type"@, MatcherFactory::FirstType { asc: true }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_last_of_type
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ header
    ensures added(old(rules)@, final(rules)@, ":last-of-type"@, MatcherFactory::FirstType { asc: false }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_only_child
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::OnlyChild
//@ header
    ensures added(old(rules)@, final(rules)@, ":only-child"@, MatcherFactory::OnlyChild),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_only_of_type
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::OnlyType
//@ header
    ensures added(old(rules)@, final(rules)@, ":only-of-type"@, MatcherFactory::OnlyType),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_root
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Root
//@ header
    ensures added(old(rules)@, final(rules)@, ":root"@, MatcherFactory::Root),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_empty
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Empty
//@ header
    ensures added(old(rules)@, final(rules)@, ":empty"@, MatcherFactory::Empty),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_not
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Not
//@ header
    ensures added(old(rules)@, final(rules)@, ":not({spaces}{selector}{spaces})"@, MatcherFactory::Not),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_has
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Has
//@ header
    ensures added(old(rules)@, final(rules)@, ":has({spaces}{selector}{spaces})"@, MatcherFactory::Has),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_alias_header
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Alias { alias }
//@ header
    ensures ({
        let r = final(rules)@;
        &&& r.len() == old(rules)@.len() + 1 && r.drop_last() == old(rules)@ && r.last().def().1@ == ":header"@
        &&& r.last().def().3 matches MatcherFactory::Alias { alias } && alias@ == "h1,h2,h3,h4,h5,h6"@
    }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_alias_input
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Alias { alias }
//@ header
    ensures ({
        let r = final(rules)@;
        &&& r.len() == old(rules)@.len() + 1 && r.drop_last() == old(rules)@ && r.last().def().1@ == ":input"@
        &&& r.last().def().3 matches MatcherFactory::Alias { alias } && alias@ == "input,select,textarea,button"@
    }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ fn mesdoc/rules/pseudo.rs pseudo_alias_submit
//@ prop C01 C16
//@ rule method into => vx_item(val)
//@ rule boxed 0 => MatcherFactory::Alias { alias }
//@ header
    ensures ({
        let r = final(rules)@;
        &&& r.len() == old(rules)@.len() + 1 && r.drop_last() == old(rules)@ && r.last().def().1@ == ":submit"@
        &&& r.last().def().3 matches MatcherFactory::Alias { alias } && alias@ == "input[type='submit'],button[type='submit']"@
    }),
//@ at end
    proof { assert(rules@.drop_last() =~= old(rules)@); }
//@ closure mesdoc/rules/pseudo.rs pseudo_only_child 0 as only_child_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::OnlyChild
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn only_child_maker() -> (r: Matcher)
//@ header
    ensures r.all_handle == Some(MatchAllHandle::OnlyChild), r.one_handle is None, r.specified_handle is None,
//@ closure mesdoc/rules/pseudo.rs pseudo_only_of_type 0 as only_type_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::OnlyType
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn only_type_maker() -> (r: Matcher)
//@ header
    ensures r.all_handle == Some(MatchAllHandle::OnlyType), r.one_handle is None, r.specified_handle is None,
//@ closure mesdoc/rules/pseudo.rs pseudo_not 0 as not_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::Not { selector }
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn not_maker(data: MatchedQueue) -> (r: Matcher)
//@ header
    requires data@.len() > 2,
    ensures r.one_handle is None && r.specified_handle is None && (r.all_handle matches Some(MatchAllHandle::Not { selector }) && selector@ == data@[2].chars@),
//@ closure mesdoc/rules/pseudo.rs pseudo_has 0 as has_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchAllHandle::Has { selector }
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn has_maker(data: MatchedQueue) -> (r: Matcher)
//@ header
    requires data@.len() > 2,
    ensures r.one_handle is None && r.specified_handle is None && (r.all_handle matches Some(MatchAllHandle::Has { selector }) && selector@ == data@[2].chars@),
//@ closure mesdoc/rules/pseudo.rs pseudo_empty 0 as empty_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchOneHandle::Empty
//@ rule text ..Default::default() => all_handle: None, specified_handle: None, priority: 0, in_cache: false
//@ sig
fn empty_maker() -> (r: Matcher)
//@ header
    ensures r.one_handle == Some(MatchOneHandle::Empty), r.all_handle is None, r.specified_handle is None,
//@ closure mesdoc/rules/pseudo.rs pseudo_root 0 as root_maker
//@ prop C01 C16
//@ rule boxed 0 => MatchSpecifiedHandle::Root
//@ rule boxed 1 => MatchOneHandle::Root
//@ rule text ..Default::default() => all_handle: None, priority: 0, in_cache: false
//@ sig
fn root_maker() -> (r: Matcher)
//@ header
    ensures r.one_handle == Some(MatchOneHandle::Root), r.all_handle is None,
//@ emit
struct Rule;
impl Rule {
//@ fn mesdoc/selector/rule.rs Rule::make_alias
//@ prop C01 C16
//@ ret r
//@ rule boxed 0 => MatchAllHandle::Filter { alias: selector }
//@ rule text ..Default::default() => one_handle: None, specified_handle: None, in_cache: false
//@ header
    ensures r.one_handle is None && r.specified_handle is None && r.all_handle == Some(MatchAllHandle::Filter { alias: selector }),
//@ emit
}
//@ closure mesdoc/rules/pseudo.rs pseudo_alias_header 0 as header_maker
//@ prop C01 C16
//@ sig
fn header_maker(alias: &'static str) -> (r: Matcher)
//@ header
    ensures r.one_handle is None && r.specified_handle is None && r.all_handle == Some(MatchAllHandle::Filter { alias }),
//@ closure mesdoc/rules/pseudo.rs pseudo_alias_input 0 as input_maker
//@ prop C01 C16
//@ sig
fn input_maker(alias: &'static str) -> (r: Matcher)
//@ header
    ensures r.one_handle is None && r.specified_handle is None && r.all_handle == Some(MatchAllHandle::Filter { alias }),
//@ closure mesdoc/rules/pseudo.rs pseudo_alias_submit 0 as submit_maker
//@ prop C01 C16
//@ sig
fn submit_maker(alias: &'static str) -> (r: Matcher)
//@ header
    ensures r.one_handle is None && r.specified_handle is None && r.all_handle == Some(MatchAllHandle::Filter { alias }),
//@ emit
}
fn main() {}
