// ---------------------------------------------------------------- removing by index
spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// the first n elements without those at the given indexes
spec fn keep<T>(s: Seq<T>, n: int, idx: Seq<usize>) -> Seq<T>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if exists|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == n - 1 { keep(s, n - 1, idx) } else { keep(s, n - 1, idx).push(s[n - 1]) }
}
proof fn lemma_keep_gap<T>(s: Seq<T>, a: int, b: int, idx: Seq<usize>)
    requires
        0 <= a <= b <= s.len(),
        forall|k: int| 0 <= k < idx.len() ==> !(a <= #[trigger] idx[k] < b),
    ensures keep(s, b, idx) == keep(s, a, idx) + s.subrange(a, b),
    decreases b - a,
{
    if a == b {
        assert(keep(s, a, idx) + s.subrange(a, b) =~= keep(s, a, idx));
    } else {
        lemma_keep_gap(s, a, b - 1, idx);
        assert(keep(s, a, idx) + s.subrange(a, b) =~= (keep(s, a, idx) + s.subrange(a, b - 1)).push(s[b - 1]));
    }
}
//@ emit
proof fn lemma_keep_len<T>(s: Seq<T>, n: int, idx: Seq<usize>)
    requires 0 <= n <= s.len(), ascending(idx), forall|k: int| 0 <= k < idx.len() ==> (#[trigger] idx[k]) < s.len(),
    ensures
        n == s.len() ==> keep(s, n, idx).len() == n - idx.len(),
{
    if n == s.len() { lemma_keep_count(s, n, idx, idx.len() as int); }
}
proof fn lemma_keep_count<T>(s: Seq<T>, n: int, idx: Seq<usize>, c: int)
    requires 0 <= n <= s.len(), 0 <= c <= idx.len(), ascending(idx), forall|k: int| 0 <= k < idx.len() ==> ((#[trigger] idx[k]) < n <==> k < c),
    ensures keep(s, n, idx).len() == n - c,
    decreases n,
{
    if n <= 0 { if c > 0 { assert(idx[0] < n); } }
    else if c > 0 && idx[c - 1] == n - 1 {
        assert forall|k: int| 0 <= k < idx.len() implies ((#[trigger] idx[k]) < n - 1 <==> k < c - 1) by { if k < c - 1 { assert(idx[k] < idx[c - 1]); } }
        lemma_keep_count(s, n - 1, idx, c - 1);
    } else {
        assert forall|k: int| 0 <= k < idx.len() implies ((#[trigger] idx[k]) < n - 1 <==> k < c) by { if k < c { if k < c - 1 { assert(idx[k] < idx[c - 1]); } assert(idx[c - 1] < n); } }
        lemma_keep_count(s, n - 1, idx, c);
    }
}
