//@ emit
// ---------------------------------------------------------------- selectors
//@ item mesdoc/selector/mod.rs SelectorGroupsItem
//@ item mesdoc/selector/mod.rs QueryProcess
//@ item mesdoc/selector/mod.rs Selector
//@ item mesdoc/interface/elements.rs FilterType
//@ emit
/// a compound selector holds for n: all its parts do
spec fn cm(rules: Seq<SelectorSegment>, n: int) -> bool { forall|i: int| 0 <= i < rules.len() ==> mt(&(#[trigger] rules[i]).0, n) }
spec fn cm_fn(rules: Seq<SelectorSegment>) -> spec_fn(int) -> bool { |n: int| cm(rules, n) }
/// a compound: the combinator stands at the first part
spec fn wfr(rules: Seq<SelectorSegment>) -> bool {
    rules.len() > 0 && (forall|i: int| 0 <= i < rules.len() ==> wf(&(#[trigger] rules[i]).0)) && forall|i: int| 1 <= i < rules.len() ==> (#[trigger] rules[i]).1 is Chain
}
/// a complex selector: compounds
spec fn wfq(q: Seq<Vec<SelectorSegment>>) -> bool { forall|i: int| 0 <= i < q.len() ==> wfr(#[trigger] q[i]@) }
spec fn downward(c: Combinator) -> bool { c is ChildrenAll || c is Children || c is NextAll || c is Next }
spec fn down(q: Seq<Vec<SelectorSegment>>) -> bool { forall|i: int| 0 <= i < q.len() ==> downward((#[trigger] q[i])@[0].1) }
/// n is reached from s through the first k compounds
spec fn reach(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, n: int) -> bool
    decreases k,
{
    if k <= 0 { s.contains(n) } else { cm(q[k - 1]@, n) && exists|m: int| reach(s, q, k - 1, m) && #[trigger] rel(q[k - 1]@[0].1, m, n) }
}
spec fn reach_fn(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int) -> spec_fn(int) -> bool { |n: int| reach(s, q, k, n) }
spec fn comb_at(q: Seq<Vec<SelectorSegment>>, c: Combinator, j: int) -> Combinator { if j >= q.len() { c } else { q[j]@[0].1 } }
/// e is reached from s through all of q and then c
spec fn leads(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, c: Combinator, e: int) -> bool { exists|m: int| #[trigger] reach(s, q, q.len() as int, m) && rel(c, m, e) }
spec fn full(p: QueryProcess) -> Seq<Vec<SelectorSegment>> { match p.should_in { Some(l) => l@ + p.query@, None => p.query@ } }
spec fn child_type(c: Combinator) -> bool { c is Children || c is ChildrenAll }
/// a complex selector as the parser makes it: what is split off at the front goes down from a child or descendant
spec fn wfp(p: QueryProcess) -> bool {
    &&& p.query@.len() > 0 && wfq(p.query@)
    &&& p.should_in matches Some(l) ==> l@.len() > 0 && wfq(l@) && down(l@) && child_type(l@[0]@[0].1) && downward(p.query@[0]@[0].1)
}
spec fn wfs(s: &Selector) -> bool { forall|i: int| 0 <= i < s.process@.len() ==> wfp(#[trigger] s.process@[i]) }
/// n is described by one of the first k selectors of the list, seen from s
spec fn found(s: Seq<int>, ps: Seq<QueryProcess>, k: int, n: int) -> bool {
    exists|i: int| 0 <= i < k && reach(s, full(#[trigger] ps[i]), full(ps[i]).len() as int, n)
}
spec fn reached(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, r: Seq<int>) -> bool { forall|n: int| #[trigger] r.contains(n) <==> reach(s, q, k, n) }
/// e is described by the complex selector q, in its tree
spec fn hit(q: Seq<Vec<SelectorSegment>>, e: int) -> bool {
    q.len() > 0 && cm(q.last()@, e) && (q.len() > 1 ==> above(root(e), q, e))
}
/// the compounds before the last lead to e, from the top of its tree; a top that is no document may match the first one itself
spec fn above(r: int, q: Seq<Vec<SelectorSegment>>, e: int) -> bool {
    leads(seq![r], q.drop_last(), q.last()@[0].1, e) || (top_ok(r, q) && leads(seq![r], q.drop_last().skip(1), q.last()@[0].1, e))
}
spec fn top_ok(r: int, q: Seq<Vec<SelectorSegment>>) -> bool { !is_doc(r) && q[0]@[0].1 is ChildrenAll && cm(q[0]@, r) }
spec fn root_of(s: Seq<int>) -> int { root(s[0]) }
spec fn top(n: int) -> int { root(n) }
/// by one of the first k selectors of the list
spec fn hits(ps: Seq<QueryProcess>, k: int, e: int) -> bool { exists|i: int| 0 <= i < k && hit((#[trigger] ps[i]).query@, e) }
/// a selector list as the parser makes it for the filtering methods
spec fn wff(s: &Selector) -> bool { forall|i: int| 0 <= i < s.process@.len() ==> wfq((#[trigger] s.process@[i]).query@) && down(s.process@[i].query@) }
/// r: the elements of s of which f holds
spec fn picked(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>) -> bool { sorted(r) && forall|n: int| #[trigger] r.contains(n) <==> s.contains(n) && f(n) }
spec fn hits_fn(ps: Seq<QueryProcess>, k: int) -> spec_fn(int) -> bool { |n: int| hits(ps, k, n) }
spec fn hit_fn(q: Seq<Vec<SelectorSegment>>) -> spec_fn(int) -> bool { |n: int| hit(q, n) }
spec fn miss_fn(ps: Seq<QueryProcess>) -> spec_fn(int) -> bool { |n: int| !hits(ps, ps.len() as int, n) }
spec fn outside(b: Seq<int>) -> spec_fn(int) -> bool { |n: int| !b.contains(n) }
proof fn lemma_reach(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires 0 <= k < q.len(),
    ensures reach(s, q, k + 1, n) == (cm(q[k]@, n) && exists|m: int| #[trigger] reach(s, q, k, m) && rel(q[k]@[0].1, m, n)),
{
    let k1 = k + 1;
    if reach(s, q, k1, n) {
        let m = choose|m: int| reach(s, q, k1 - 1, m) && #[trigger] rel(q[k1 - 1]@[0].1, m, n);
        assert(reach(s, q, k, m));
    }
    if cm(q[k]@, n) && exists|m: int| #[trigger] reach(s, q, k, m) && rel(q[k]@[0].1, m, n) {
        let m = choose|m: int| #[trigger] reach(s, q, k, m) && rel(q[k]@[0].1, m, n);
        assert(reach(s, q, k1 - 1, m) && rel(q[k1 - 1]@[0].1, m, n));
    }
}
proof fn lemma_chain_from(s: Seq<int>, d: int)
    ensures from(s, Chain, d) == s.contains(d),
{
    if s.contains(d) { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; assert(rel(Chain, s[i], d)); }
    if from(s, Chain, d) { let i = choose|i: int| 0 <= i < s.len() && rel(Chain, #[trigger] s[i], d); assert(s.contains(s[i])); }
}
proof fn lemma_root_top(n: int)
    ensures par(root(n)) is None, els(seq![root(n)]),
    decreases depth(n),
{ axiom_tree(n); if par(n) is Some { lemma_root_top(par(n)->0); } }
/// g is sorted and stands before all of s from k on
spec fn ahead(g: Seq<int>, s: Seq<int>, k: int) -> bool { sorted(g) && forall|i: int, j: int| 0 <= i < g.len() && k <= j < s.len() ==> before(#[trigger] g[i], #[trigger] s[j]) }
proof fn lemma_ahead(g: Seq<int>, s: Seq<int>, k: int)
    requires sorted(s), 0 <= k < s.len(), ahead(g, s, k),
    ensures ahead(g, s, k + 1), ahead(g.push(s[k]), s, k + 1),
{
    let q = g.push(s[k]);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies before(#[trigger] q[i], #[trigger] q[j]) by {
        if j < g.len() { lemma_sorted_at(g, i, j); } else { assert(before(g[i], s[k])); }
    }
    assert forall|i: int, j: int| 0 <= i < q.len() && k + 1 <= j < s.len() implies before(#[trigger] q[i], #[trigger] s[j]) by {
        if i < g.len() { assert(before(g[i], s[j])); } else { lemma_sorted_at(s, k, j); }
    }
}
proof fn lemma_picked_good(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires good(s), picked(s, f, r),
    ensures good(r), s.len() > 0 ==> one_root(r, root(s[0])),
{
    assert forall|i: int| 0 <= i < r.len() implies s.len() > 0 && root(#[trigger] r[i]) == root(s[0]) && (is_el(r[i]) || par(r[i]) is None) by {
        assert(r.contains(r[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == r[i];
        assert(root(s[j]) == root(s[0]));
        assert(is_el(s[j]) || par(s[j]) is None);
    }
}
