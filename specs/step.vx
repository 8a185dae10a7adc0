//@ emit
// ---------------------------------------------------------------- one step of a query
proof fn lemma_contains_push(r: Seq<int>, x: int)
    ensures forall|n: int| #[trigger] r.push(x).contains(n) <==> r.contains(n) || n == x,
{
    assert forall|n: int| #[trigger] r.push(x).contains(n) <==> r.contains(n) || n == x by {
        let q = r.push(x);
        if q.contains(n) { let i = choose|i: int| 0 <= i < q.len() && q[i] == n; if i < r.len() { assert(r[i] == n); } }
        if r.contains(n) { let i = choose|i: int| 0 <= i < r.len() && r[i] == n; assert(q[i] == n); }
        assert(q[r.len() as int] == x);
    }
}
proof fn lemma_contains_add(a: Seq<int>, b: Seq<int>)
    ensures forall|n: int| #[trigger] (a + b).contains(n) <==> a.contains(n) || b.contains(n),
{
    assert forall|n: int| #[trigger] (a + b).contains(n) <==> a.contains(n) || b.contains(n) by {
        let q = a + b;
        if q.contains(n) { let i = choose|i: int| 0 <= i < q.len() && q[i] == n; if i < a.len() { assert(a[i] == n); } else { assert(b[i - a.len()] == n); } }
        if a.contains(n) { let i = choose|i: int| 0 <= i < a.len() && a[i] == n; assert(q[i] == n); }
        if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(q[i + a.len()] == n); }
    }
}
proof fn lemma_good_grouped(s: Seq<int>)
    requires sorted(s),
    ensures grouped(s),
{
    lemma_sorted_distinct(s);
    assert forall|i: int, j: int| 0 <= i < j < s.len() && par(#[trigger] s[i]) is Some && par(s[i]) == par(#[trigger] s[j]) implies idx(s[i]) < idx(s[j]) by {
        lemma_sorted_at(s, i, j);
        lemma_before_sib(s[i], s[j]);
    }
}
/// what one step has to give
spec fn stepped(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>) -> bool { forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, c, d) }
proof fn lemma_same_f(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, r: Seq<int>)
    requires stepped(s, c, f, r), forall|n: int| #[trigger] f(n) == g(n),
    ensures stepped(s, c, g, r),
{
    assert forall|d: int| #[trigger] r.contains(d) <==> g(d) && from(s, c, d) by { assert(f(d) == g(d)); }
}
proof fn lemma_stepped_one(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>)
    requires good(s), stepped(s, c, f, r),
    ensures one(r), els(r), exists|x: int| one_root(r, x),
{
    assert forall|i: int| 0 <= i < r.len() implies root(#[trigger] r[i]) == root(s[0]) && (is_el(r[i]) || par(r[i]) is None) by {
        assert(r.contains(r[i]));
        let j = choose|j: int| 0 <= j < s.len() && rel(c, #[trigger] s[j], r[i]);
        lemma_rel(c, s[j], r[i]);
        assert(root(s[j]) == root(s[0]));
    }
    lemma_one_root(r);
}
proof fn lemma_stepped_same(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>, q: Seq<int>)
    requires stepped(s, c, f, r), same_members(q, r),
    ensures stepped(s, c, f, q),
{ assert forall|d: int| #[trigger] q.contains(d) <==> f(d) && from(s, c, d) by { assert(q.contains(d) == r.contains(d)); } }
proof fn lemma_stepped_any(s: Seq<int>, c: Combinator, f: spec_fn(int) -> bool, r: Seq<int>, q: Seq<int>)
    requires stepped(s, c, any(), r), matching(r, f, q),
    ensures stepped(s, c, f, q),
{ assert forall|d: int| #[trigger] q.contains(d) <==> f(d) && from(s, c, d) by { assert(r.contains(d) <==> any()(d) && from(s, c, d)); } }
proof fn lemma_chain(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires matching(s, f, r), sorted(s),
    ensures stepped(s, Chain, f, r), sorted(r),
{
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, Chain, d) by {
        if s.contains(d) { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; assert(rel(Chain, s[i], d)); }
        if from(s, Chain, d) { let i = choose|i: int| 0 <= i < s.len() && rel(Chain, #[trigger] s[i], d); assert(s.contains(s[i])); }
    }
}
spec fn comb_of(item: &SelectorSegment, c: Option<&Combinator>) -> Combinator { match c { Some(x) => *x, None => item.1 } }
spec fn any() -> spec_fn(int) -> bool { |n: int| true }
proof fn lemma_from_push(s: Seq<int>, x: int, c: Combinator, d: int)
    ensures from(s.push(x), c, d) <==> from(s, c, d) || rel(c, x, d),
{
    let q = s.push(x);
    if from(q, c, d) { let i = choose|i: int| 0 <= i < q.len() && rel(c, #[trigger] q[i], d); if i < s.len() { assert(rel(c, s[i], d)); } }
    if from(s, c, d) { let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], d); assert(rel(c, q[i], d)); }
    if rel(c, x, d) { assert(rel(c, q[s.len() as int], d)); }
}
fn vx_into<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@,
{ v }
/// TRUSTED: `for x in v` moves the elements out, one after the other (each index is taken once)
#[verifier::external_body]
fn vx_take<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@ == old(v)@,
{ unimplemented!() }
