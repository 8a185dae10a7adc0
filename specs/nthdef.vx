//@ emit
// ---------------------------------------------------------------- the nth formula
/// the number written in a selector; what `to_number` makes of it is within this range
uninterp spec fn written(s: Seq<char>) -> int;
spec fn LIM() -> int { 0x1fff_ffff_ffff_ffff }
spec fn clamp_lim(v: int) -> int { if v > LIM() { LIM() } else if v < -LIM() { -LIM() } else { v } }
/// position p (counted from 1) is selected by an+b: some m >= 0 has a*m + b == p
spec fn nth_sel(a: int, b: int, p: int) -> bool { exists|m: int| m >= 0 && #[trigger] (m * a) + b == p }
spec fn nth_wants(n: Option<String>, index: Option<String>, p: int) -> bool {
    if n is Some {
        nth_sel(clamp_lim(written(n->0@)), if index is Some { clamp_lim(written(index->0@)) } else { 0 }, p)
    } else {
        index is Some && p == clamp_lim(written(index->0@))
    }
}
spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// exactly the wanted positions among 1..=total, as indexes from 0, ascending
spec fn exact_indexs(r: Seq<usize>, n: Option<String>, index: Option<String>, total: int) -> bool {
    &&& ascending(r)
    &&& forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] < total && nth_wants(n, index, r[i] + 1)
    &&& forall|p: int| 1 <= p <= total && nth_wants(n, index, p) ==> exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == p - 1
}
