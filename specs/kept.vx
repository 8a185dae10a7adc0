//@ emit
/// r: the first k of s for which f holds
spec fn kept(s: Seq<int>, f: spec_fn(int) -> bool, k: int, r: Seq<int>) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|n: int| #[trigger] r.contains(n) <==> f(n) && s.take(k).contains(n)
    &&& sorted(s) ==> sorted(r)
}
proof fn lemma_kept_none(s: Seq<int>, f: spec_fn(int) -> bool)
    ensures kept(s, f, 0, Seq::empty()),
{}
proof fn lemma_kept(s: Seq<int>, f: spec_fn(int) -> bool, k: int, r: Seq<int>)
    requires kept(s, f, k, r), k < s.len(),
    ensures f(s[k]) ==> kept(s, f, k + 1, r.push(s[k])), !f(s[k]) ==> kept(s, f, k + 1, r),
{
    lemma_contains_push(r, s[k]);
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_contains_push(s.take(k), s[k]);
    if sorted(s) {
        let q = r.push(s[k]);
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies before(#[trigger] q[i], #[trigger] q[j]) by {
            if j < r.len() { lemma_sorted_at(r, i, j); } else {
                assert(r.contains(r[i]));
                let m = choose|m: int| 0 <= m < k && s.take(k)[m] == r[i];
                lemma_sorted_at(s, m, k);
            }
        }
    }
}
proof fn lemma_kept_all(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires kept(s, f, s.len() as int, r),
    ensures matching(s, f, r),
{ assert(s.take(s.len() as int) =~= s);
}
