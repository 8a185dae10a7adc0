//@ emit
// ---------------------------------------------------------------- sets in document order
spec fn prefix(a: Seq<usize>, b: Seq<usize>) -> bool { a.len() < b.len() && agree(a, b, a.len() as int) }
/// no later element stands before an earlier one
spec fn wsorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j]) || path(s[i]) == path(s[j]) }
spec fn same_members(a: Seq<int>, b: Seq<int>) -> bool { forall|n: int| #![trigger a.contains(n)] #![trigger b.contains(n)] a.contains(n) == b.contains(n) }
spec fn covered(s: Seq<int>, n: int) -> bool { exists|i: int| 0 <= i < s.len() && prefix(path(#[trigger] s[i]), path(n)) }
/// t: the elements of s that lie in no other element of s
spec fn tops(s: Seq<int>, t: Seq<int>) -> bool {
    sorted(t) && forall|n: int| #[trigger] t.contains(n) <==> s.contains(n) && !covered(s, n)
}
spec fn union_of(a: Seq<int>, b: Seq<int>, r: Seq<int>) -> bool {
    sorted(r) && forall|n: int| #[trigger] r.contains(n) <==> a.contains(n) || b.contains(n)
}
