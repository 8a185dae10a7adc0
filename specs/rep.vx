//@ emit
// ---------------------------------------------------------------- representatives of sibling groups
/// u: of the elements of s with the same parent the first, or the last
spec fn reps(s: Seq<int>, u: Seq<int>, asc: bool) -> bool {
    &&& sorted(u)
    &&& forall|i: int| 0 <= i < u.len() ==> s.contains(#[trigger] u[i])
    &&& forall|i: int, j: int| 0 <= i < j < u.len() && par(#[trigger] u[i]) is Some ==> par(u[i]) != par(#[trigger] u[j])
    &&& forall|e: int| #[trigger] s.contains(e) && par(e) is Some ==> repped(u, e, asc)
}
spec fn repped(u: Seq<int>, e: int, asc: bool) -> bool {
    exists|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e) && (if asc { idx(u[i]) <= idx(e) } else { idx(u[i]) >= idx(e) })
}
/// the parent of the family that an entry stands for
spec fn fam(x: (Ele, bool)) -> int { if x.1 { id_of(&x.0) } else { par(id_of(&x.0))->0 } }
spec fn two(t: Seq<int>, p: int) -> bool { exists|i: int, j: int| 0 <= i < j < t.len() && par(#[trigger] t[i]) == Some(p) && par(#[trigger] t[j]) == Some(p) }
spec fn only(t: Seq<int>, a: int) -> bool { t.contains(a) && par(a) is Some && forall|i: int| 0 <= i < t.len() && par(#[trigger] t[i]) == par(a) ==> t[i] == a }
/// a family with one element in t stands as that element, one with more as the parent
spec fn entry(t: Seq<int>, x: (Ele, bool)) -> bool { if x.1 { two(t, id_of(&x.0)) } else { only(t, id_of(&x.0)) } }
spec fn has_fam(v: Seq<(Ele, bool)>, p: int) -> bool { exists|k: int| 0 <= k < v.len() && fam(#[trigger] v[k]) == p }
spec fn families(t: Seq<int>, v: Seq<(Ele, bool)>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> entry(t, #[trigger] v[k])
    &&& forall|i: int| 0 <= i < t.len() && par(#[trigger] t[i]) is Some ==> has_fam(v, par(t[i])->0)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> fam(#[trigger] v[i]) != fam(#[trigger] v[j])
}
