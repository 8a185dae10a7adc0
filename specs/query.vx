//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include sel.vx
//@ emit
// ---------------------------------------------------------------- proved in units order, set and walk
impl Matcher {
//@ contract walk.vx Matcher::apply
//@ emit
}
impl<'a> Elements<'a> {
//@ contract order.vx Elements::sort_and_unique
//@ contract order.vx Elements::add
//@ contract walk.vx Elements::select_by_rule
//@ contract set.vx Elements::not_in
//@ emit
}
// ---------------------------------------------------------------- the parts of a compound, one after the other
proof fn lemma_cm_first(rules: Seq<SelectorSegment>, n: int)
    requires rules.len() > 0,
    ensures cm(rules.take(1), n) == mt(&rules[0].0, n),
{
    let t = rules.take(1);
    assert(t[0] == rules[0]);
    if cm(t, n) { assert(mt(&t[0].0, n)); }
}
proof fn lemma_cm_step(rules: Seq<SelectorSegment>, k: int, n: int)
    requires 0 <= k < rules.len(),
    ensures cm(rules.take(k + 1), n) == (cm(rules.take(k), n) && mt(&rules[k].0, n)),
{
    let a = rules.take(k);
    let b = rules.take(k + 1);
    if cm(b, n) {
        assert forall|i: int| 0 <= i < a.len() implies mt(&(#[trigger] a[i]).0, n) by { assert(a[i] == b[i]); assert(mt(&b[i].0, n)); }
        assert(b[k] == rules[k]);
        assert(mt(&b[k].0, n));
    }
    if cm(a, n) && mt(&rules[k].0, n) {
        assert forall|i: int| 0 <= i < b.len() implies mt(&(#[trigger] b[i]).0, n) by { if i < k { assert(a[i] == b[i]); assert(mt(&a[i].0, n)); } else { assert(b[i] == rules[k]); } }
    }
}
/// filtering by the next part
proof fn lemma_part(s: Seq<int>, c: Combinator, rules: Seq<SelectorSegment>, k: int, r: Seq<int>, q: Seq<int>)
    requires 0 < k < rules.len(), stepped(s, c, cm_fn(rules.take(k)), r), stepped(r, Chain, mt_fn(&rules[k].0), q),
    ensures stepped(s, c, cm_fn(rules.take(k + 1)), q),
{
    assert forall|d: int| #[trigger] q.contains(d) <==> cm_fn(rules.take(k + 1))(d) && from(s, c, d) by {
        lemma_cm_step(rules, k, d);
        assert(r.contains(d) <==> cm_fn(rules.take(k))(d) && from(s, c, d));
        lemma_chain_from(r, d);
    }
}
proof fn lemma_part_first(s: Seq<int>, c: Combinator, rules: Seq<SelectorSegment>, r: Seq<int>)
    requires rules.len() > 0, stepped(s, c, mt_fn(&rules[0].0), r),
    ensures stepped(s, c, cm_fn(rules.take(1)), r),
{
    assert forall|d: int| #[trigger] r.contains(d) <==> cm_fn(rules.take(1))(d) && from(s, c, d) by { lemma_cm_first(rules, d); assert(r.contains(d) <==> mt_fn(&rules[0].0)(d) && from(s, c, d)); }
}
/// nothing is left: nothing matches
proof fn lemma_part_none(s: Seq<int>, c: Combinator, rules: Seq<SelectorSegment>, k: int, r: Seq<int>)
    requires 0 < k <= rules.len(), stepped(s, c, cm_fn(rules.take(k)), r), r.len() == 0,
    ensures stepped(s, c, cm_fn(rules), r),
{
    assert forall|d: int| #[trigger] r.contains(d) <==> cm_fn(rules)(d) && from(s, c, d) by {
        assert(r.contains(d) <==> cm_fn(rules.take(k))(d) && from(s, c, d));
        if cm(rules, d) { assert forall|i: int| 0 <= i < k implies mt(&(#[trigger] rules.take(k)[i]).0, d) by { assert(mt(&rules[i].0, d)); } }
    }
}
/// looked up by id, then checked against the starting elements
proof fn lemma_cached(s: Seq<int>, f: spec_fn(int) -> bool, c: Seq<int>, r: Seq<int>)
    requires cached(s, f, c), forall|d: int| #[trigger] r.contains(d) <==> c.contains(d) && from(s, ChildrenAll, d),
    ensures stepped(s, ChildrenAll, f, r),
{
    assert forall|d: int| #[trigger] r.contains(d) <==> f(d) && from(s, ChildrenAll, d) by { if f(d) && from(s, ChildrenAll, d) { assert(c.contains(d)); } }
}
// ---------------------------------------------------------------- relations the other way round
spec fn rev(c: Combinator) -> Combinator {
    match c { ChildrenAll => ParentAll, Children => Parent, NextAll => PrevAll, Next => Prev, x => x }
}
impl Combinator {
//@ fn mesdoc/selector/mod.rs Combinator::reverse
//@ prop C02
//@ ret r
//@ header
    requires downward(*self) || *self is Chain,
    ensures r == rev(*self),
//@ emit
}
proof fn lemma_rev(c: Combinator, a: int, b: int)
    requires downward(c), is_el(b) || par(b) is None,
    ensures is_el(a) ==> rel(rev(c), b, a) == rel(c, a, b), rel(rev(c), b, a) ==> is_el(a),
{
    axiom_doc(a);
    lemma_nexts(a);
    lemma_prevs(b);
    match c {
        ChildrenAll => { if anc(a, b) && !is_doc(a) { lemma_rel(ParentAll, b, a); } }
        Children => { if par(b) == Some(a) && !is_doc(a) { lemma_rel(Parent, b, a); } }
        NextAll => { if prevs(b).contains(a) { assert(is_el(a)); } }
        Next => {
            if prevs(b).len() > 0 { assert(prevs(b).contains(prevs(b).last())); }
            if nexts(a).len() > 0 { assert(nexts(a).contains(nexts(a)[0])); }
            if is_el(a) && par(a) is Some && par(a) == par(b) && idx(a) < idx(b) {
                assert(nexts(a).contains(b) && prevs(b).contains(a));
                let i = choose|i: int| 0 <= i < nexts(a).len() && nexts(a)[i] == b;
                let j = choose|j: int| 0 <= j < prevs(b).len() && prevs(b)[j] == a;
                let x = nexts(a)[0];
                let y = prevs(b).last();
                if i > 0 {
                    assert(idx(nexts(a)[0]) < idx(nexts(a)[i]));
                    assert(prevs(b).contains(x));
                    let m = choose|m: int| 0 <= m < prevs(b).len() && prevs(b)[m] == x;
                    if m < prevs(b).len() - 1 { assert(idx(prevs(b)[m]) < idx(prevs(b)[prevs(b).len() - 1])); }
                }
                if j < prevs(b).len() - 1 {
                    assert(idx(prevs(b)[j]) < idx(prevs(b)[prevs(b).len() - 1]));
                    assert(nexts(a).contains(y));
                    let m = choose|m: int| 0 <= m < nexts(a).len() && nexts(a)[m] == y;
                    if m > 0 { assert(idx(nexts(a)[0]) < idx(nexts(a)[m])); }
                }
            }
        }
        _ => {}
    }
}
// ---------------------------------------------------------------- from the last compound back to the starting elements
/// some node reached through the first j compounds has one of e as its next
spec fn goal(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, c: Combinator, j: int, e: Seq<int>) -> bool {
    exists|m: int, n: int| #[trigger] reach(s, q, j, m) && #[trigger] e.contains(n) && rel(comb_at(q, c, j), m, n)
}
proof fn lemma_down_el(c: Combinator, a: int, b: int)
    requires downward(c), rel(c, a, b),
    ensures is_el(b),
{ lemma_nexts(a); if c is Next { assert(nexts(a).contains(b)); } }
proof fn lemma_goal_last(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, c: Combinator, e: int)
    ensures goal(s, q, c, q.len() as int, seq![e]) == leads(s, q, c, e),
{
    let x = seq![e];
    if leads(s, q, c, e) { let m = choose|m: int| #[trigger] reach(s, q, q.len() as int, m) && rel(c, m, e); assert(x[0] == e); assert(x.contains(e)); }
    if goal(s, q, c, q.len() as int, x) {
        let (m, n) = choose|m: int, n: int| #[trigger] reach(s, q, q.len() as int, m) && #[trigger] x.contains(n) && rel(comb_at(q, c, q.len() as int), m, n);
        assert(n == e);
    }
}
proof fn lemma_goal_step(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, c: Combinator, j: int, e: Seq<int>, f: Seq<int>)
    requires
        0 <= j < q.len(), down(q), downward(c), els(e), stepped(e, rev(comb_at(q, c, j + 1)), cm_fn(q[j]@), f),
    ensures goal(s, q, c, j + 1, e) == goal(s, q, c, j, f), els(f), downward(comb_at(q, c, j)),
{
    let c1 = comb_at(q, c, j + 1);
    let c0 = comb_at(q, c, j);
    assert(downward(q[j]@[0].1));
    if j + 1 < q.len() { assert(downward(q[j + 1]@[0].1)); }
    assert forall|i: int| 0 <= i < f.len() implies is_el(#[trigger] f[i]) || par(f[i]) is None by {
        assert(f.contains(f[i]));
        let k = choose|k: int| 0 <= k < e.len() && rel(rev(c1), #[trigger] e[k], f[i]);
        lemma_rev(c1, f[i], e[k]);
    }
    if goal(s, q, c, j + 1, e) {
        let (m, n) = choose|m: int, n: int| #[trigger] reach(s, q, j + 1, m) && #[trigger] e.contains(n) && rel(c1, m, n);
        let k = choose|k: int| 0 <= k < e.len() && e[k] == n;
        lemma_reach(s, q, j, m);
        assert(cm(q[j]@, m) && exists|x: int| #[trigger] reach(s, q, j, x) && rel(q[j]@[0].1, x, m));
        let x = choose|x: int| #[trigger] reach(s, q, j, x) && rel(q[j]@[0].1, x, m);
        lemma_down_el(c0, x, m);
        lemma_rev(c1, m, n);
        assert(rel(rev(c1), e[k], m));
        assert(from(e, rev(c1), m));
        assert(cm_fn(q[j]@)(m));
        assert(f.contains(m));
    }
    if goal(s, q, c, j, f) {
        let (x, m) = choose|x: int, m: int| #[trigger] reach(s, q, j, x) && #[trigger] f.contains(m) && rel(c0, x, m);
        assert(cm_fn(q[j]@)(m) && from(e, rev(c1), m));
        let k = choose|k: int| 0 <= k < e.len() && rel(rev(c1), #[trigger] e[k], m);
        lemma_rev(c1, m, e[k]);
        lemma_reach(s, q, j, m);
        assert(reach(s, q, j + 1, m));
        assert(e.contains(e[k]));
    }
}
/// the last test: one of e stands in the relation to one of s
proof fn lemma_goal_first(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, c: Combinator, e: Seq<int>)
    ensures goal(s, q, c, 0, e) == exists|i: int| 0 <= i < e.len() && from(s, comb_at(q, c, 0), #[trigger] e[i]),
{
    let c0 = comb_at(q, c, 0);
    if goal(s, q, c, 0, e) {
        let (m, n) = choose|m: int, n: int| #[trigger] reach(s, q, 0, m) && #[trigger] e.contains(n) && rel(c0, m, n);
        let i = choose|i: int| 0 <= i < e.len() && e[i] == n;
        let k = choose|k: int| 0 <= k < s.len() && s[k] == m;
        assert(rel(c0, s[k], e[i]));
        assert(from(s, c0, e[i]));
    }
    if exists|i: int| 0 <= i < e.len() && from(s, c0, #[trigger] e[i]) {
        let i = choose|i: int| 0 <= i < e.len() && from(s, c0, #[trigger] e[i]);
        let k = choose|k: int| 0 <= k < s.len() && rel(c0, #[trigger] s[k], e[i]);
        assert(s.contains(s[k]));
        assert(reach(s, q, 0, s[k]));
        assert(e.contains(e[i]));
    }
}
/// the same, as membership of what stands to e in the reversed relation
proof fn lemma_from_rev(s: Seq<int>, c: Combinator, e: int)
    requires is_el(e) || par(e) is None, els(s),
    ensures
        c is Children ==> from(s, c, e) == (par(e) is Some && s.contains(par(e)->0)),
        c is ChildrenAll ==> from(s, c, e) == (par(e) is Some && (s.contains(par(e)->0) || (par(par(e)->0) is Some && (s.contains(par(par(e)->0)->0) || from(s, ChildrenAll, par(par(e)->0)->0))))),
        c is Next ==> from(s, c, e) == (prevs(e).len() > 0 && s.contains(prevs(e).last())),
        c is NextAll ==> from(s, c, e) == exists|i: int| 0 <= i < prevs(e).len() && s.contains(#[trigger] prevs(e)[i]),
        c is Chain ==> from(s, c, e) == s.contains(e),
        par(e) is Some ==> is_el(par(e)->0) || par(par(e)->0) is None,
        par(e) is Some ==> depth(par(e)->0) < depth(e),
        par(e) is Some && par(par(e)->0) is Some ==> depth(par(par(e)->0)->0) < depth(e) && (is_el(par(par(e)->0)->0) || par(par(par(e)->0)->0) is None),
{
    axiom_tree(e);
    if par(e) is Some { axiom_tree(par(e)->0); if par(par(e)->0) is Some { axiom_tree(par(par(e)->0)->0); } }
    lemma_prevs(e);
    lemma_chain_from(s, e);
    match c {
        Children => {
            if from(s, c, e) { let k = choose|k: int| 0 <= k < s.len() && rel(c, #[trigger] s[k], e); assert(s.contains(s[k])); }
            if par(e) is Some && s.contains(par(e)->0) { let k = choose|k: int| 0 <= k < s.len() && s[k] == par(e)->0; assert(rel(c, s[k], e)); }
        }
        ChildrenAll => {
            if par(e) is Some {
                let p = par(e)->0;
                if s.contains(p) { let k = choose|k: int| 0 <= k < s.len() && s[k] == p; assert(rel(c, s[k], e)); }
                if par(p) is Some {
                    let a = par(p)->0;
                    if s.contains(a) { let k = choose|k: int| 0 <= k < s.len() && s[k] == a; assert(anc(a, p)); assert(rel(c, s[k], e)); }
                    if from(s, c, a) { let k = choose|k: int| 0 <= k < s.len() && rel(c, #[trigger] s[k], a); assert(anc(s[k], p)); assert(rel(c, s[k], e)); }
                }
                if from(s, c, e) {
                    let k = choose|k: int| 0 <= k < s.len() && rel(c, #[trigger] s[k], e);
                    assert(s.contains(s[k]));
                    if s[k] != p {
                        assert(anc(s[k], p));
                        let a = par(p)->0;
                        if s[k] != a { assert(anc(s[k], a)); assert(is_el(a)); assert(rel(c, s[k], a)); }
                    }
                }
            }
        }
        Next => {
            if from(s, c, e) { let k = choose|k: int| 0 <= k < s.len() && rel(c, #[trigger] s[k], e); lemma_nexts(s[k]); assert(nexts(s[k]).contains(e)); lemma_rev(c, s[k], e); assert(s.contains(s[k])); }
            if prevs(e).len() > 0 && s.contains(prevs(e).last()) { let k = choose|k: int| 0 <= k < s.len() && s[k] == prevs(e).last(); assert(is_el(prevs(e)[prevs(e).len() - 1])); lemma_rev(c, s[k], e); assert(rel(c, s[k], e)); }
        }
        NextAll => {
            if from(s, c, e) {
                let k = choose|k: int| 0 <= k < s.len() && rel(c, #[trigger] s[k], e);
                lemma_nexts(s[k]);
                assert(prevs(e).contains(s[k]));
                let i = choose|i: int| 0 <= i < prevs(e).len() && prevs(e)[i] == s[k];
                assert(s.contains(prevs(e)[i]));
            }
            if exists|i: int| 0 <= i < prevs(e).len() && s.contains(#[trigger] prevs(e)[i]) {
                let i = choose|i: int| 0 <= i < prevs(e).len() && s.contains(#[trigger] prevs(e)[i]);
                let k = choose|k: int| 0 <= k < s.len() && s[k] == prevs(e)[i];
                lemma_nexts(s[k]);
                assert(rel(c, s[k], e));
            }
        }
        _ => {}
    }
}
spec fn lk(l: Option<&[Vec<SelectorSegment>]>) -> Seq<Vec<SelectorSegment>> { match l { Some(q) => q@, None => Seq::empty() } }
#[verifier::external_body]
fn vx_unreachable() requires false, { unimplemented!() }
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::has_ele
//@ prop C02 C04
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ rule text panic!("Unsupported lookup combinator:{:?}", comb) => vx_unreachable()
//@ header
    requires
        is_el(id_of(ele)) || par(id_of(ele)) is None, els(self.ids()),
        downward(*comb) || (*comb is Chain && lookup is None),
        wfq(lk(lookup)), down(lk(lookup)),
    ensures
        lookup is None ==> r == from(self.ids(), *comb, id_of(ele)),
        lookup is Some ==> r == leads(self.ids(), lk(lookup), *comb, id_of(ele)),
    decreases (if lookup is Some { 2int } else { 0int }), depth(id_of(ele)),
//@ at start
    let ghost s = self.ids();
    let ghost q = lk(lookup);
    let ghost e = id_of(ele);
    let ghost c = *comb;
    proof { lemma_goal_last(s, q, c, e); }
//@ at pre-loop 0
    let ghost n = q.len() as int;
    proof { assert(good(elements.ids())); }
//@ loop 0
    invariant
        __s0@ == q, __i0 <= __s0.len(),
        good(elements.ids()), lookup_comb == rev(comb_at(q, c, n - __i0)), downward(comb_at(q, c, n - __i0)),
        goal(s, q, c, n - __i0, elements.ids()) == leads(s, q, c, e),
//@ at loop-start 0
    let ghost j = n - __i0;
    let ghost cur = elements.ids();
    proof { assert(rules@ == q[j]@); assert(wfr(q[j]@)); }
//@ at after let finded = Elements::select(&elements, rules, Some(&lookup_comb));
    proof { lemma_goal_step(s, q, c, j, cur, finded.ids()); }
//@ at before match lookup_comb
    let ghost el = elements.ids();
    let ghost c0 = comb_at(q, c, 0);
    let ghost want = exists|i: int| 0 <= i < el.len() && from(s, c0, #[trigger] el[i]);
    proof {
        lemma_goal_first(s, q, c, el);
        if lookup is None {
            assert(el[0] == e);
            assert(want == from(s, c, e)) by { if want { let i = choose|i: int| 0 <= i < el.len() && from(s, c0, #[trigger] el[i]); assert(i == 0); } }
        }
        assert forall|i: int| 0 <= i < el.len() implies is_el(#[trigger] el[i]) || par(el[i]) is None by {}
    }
//@ loop 1
    invariant
        __s1@ == elements.nodes@, __i1 <= __s1.len(), forall|i: int| 0 <= i < __i1 ==> !from(s, c0, #[trigger] el[i]),
//@ at loop-start 1
    proof { assert(el[__i1 - 1] == id_of(ele)); lemma_from_rev(s, c0, el[__i1 - 1]); }
//@ loop 2
    invariant
        __s2@ == elements.nodes@, __i2 <= __s2.len(), forall|i: int| 0 <= i < __i2 ==> !from(s, c0, #[trigger] el[i]),
//@ at loop-start 2
    proof { assert(el[__i2 - 1] == id_of(ele)); lemma_from_rev(s, c0, el[__i2 - 1]); }
//@ loop 3
    invariant
        __s3@ == elements.nodes@, __i3 <= __s3.len(), forall|i: int| 0 <= i < __i3 ==> !from(s, c0, #[trigger] el[i]),
//@ at loop-start 3
    proof { assert(el[__i3 - 1] == id_of(ele)); lemma_from_rev(s, c0, el[__i3 - 1]); }
//@ loop 4
    invariant
        __s4@ == elements.nodes@, __i4 <= __s4.len(), forall|i: int| 0 <= i < __i4 ==> !from(s, c0, #[trigger] el[i]),
//@ at loop-start 4
    proof { assert(el[__i4 - 1] == id_of(ele)); lemma_from_rev(s, c0, el[__i4 - 1]); }
//@ loop 6
    invariant
        __s6@ == elements.nodes@, __i6 <= __s6.len(), forall|i: int| 0 <= i < __i6 ==> !from(s, c0, #[trigger] el[i]),
//@ at loop-start 6
    proof { assert(el[__i6 - 1] == id_of(ele)); lemma_from_rev(s, c0, el[__i6 - 1]); }
//@ loop 5
    invariant
        __s5@ == prevs.nodes@, __i5 <= __s5.len(), forall|i: int| 0 <= i < __i5 ==> !s.contains(#[trigger] prevs.ids()[i]),
//@ at loop-start 5
    proof { assert(prevs.ids()[__i5 - 1] == id_of(prev)); }
//@ fn mesdoc/interface/elements.rs Elements::select
//@ prop C02 C03 C11
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ header
    requires good(elements.ids()), wfr(rules@),
    ensures good(r.ids()), stepped(elements.ids(), comb_of(&rules@[0], comb), cm_fn(rules@), r.ids()),
    decreases 1int, 0nat,
//@ at start
    let ghost s = elements.ids();
    let ghost c = comb_of(&rules@[0], comb);
    proof { assert(wf(&rules@[0].0)); assert(rules@.take(rules@.len() as int) =~= rules@); }
//@ loop 0
    invariant
        __s0@ == cached.nodes@, __i0 <= __s0.len(),
        forall|d: int| #[trigger] result.ids().contains(d) <==> cached.ids().take(__i0 as int).contains(d) && from(s, ChildrenAll, d),
//@ at loop-start 0
    let ghost had = result.ids();
    proof { let x = cached.ids()[__i0 - 1]; assert(x == id_of(ele)); assert(cached.ids().contains(x)); lemma_contains_push(cached.ids().take(__i0 - 1), x); lemma_contains_push(had, x); assert(cached.ids().take(__i0 as int) =~= cached.ids().take(__i0 - 1).push(x)); }
//@ at before result.sort_and_unique();
    let ghost pre = result.ids();
    proof {
        assert(cached.ids().take(cached.ids().len() as int) =~= cached.ids());
        lemma_cached(s, mt_fn(&rules@[0].0), cached.ids(), pre);
        lemma_stepped_one(s, c, mt_fn(&rules@[0].0), pre);
    }
//@ at after result.sort_and_unique();
    proof { lemma_stepped_same(s, c, mt_fn(&rules@[0].0), pre, result.ids()); lemma_stepped_one(s, c, mt_fn(&rules@[0].0), result.ids()); }
//@ at before Elements::new()
    proof { assert(cached.ids().len() == 0); lemma_cached(s, mt_fn(&rules@[0].0), cached.ids(), Seq::empty()); }
//@ at before if !elements.is_empty() && rules.len() > 1
    proof {
        lemma_part_first(s, c, rules@, elements.ids());
        assert(good(elements.ids()));
        if elements.ids().len() == 0 { lemma_part_none(s, c, rules@, 1, elements.ids()); }
        if rules@.len() == 1 { assert(rules@.take(1) =~= rules@); }
    }
//@ at loop-start 1
    let ghost k = __i1 as int;
    let ghost had = elements.ids();
    proof { assert(*rule == rules@[k]); assert(wf(&rules@[k].0)); assert(rules@[k].1 is Chain); }
//@ at after elements = Elements::select_by_rule(&elements, rule, None);
    proof { lemma_part(s, c, rules@, k, had, elements.ids()); if elements.ids().len() == 0 { lemma_part_none(s, c, rules@, k + 1, elements.ids()); } }
//@ loop 1
    invariant_except_break stepped(s, c, cm_fn(rules@.take(__i1 + 1)), elements.ids()),
    invariant
        __s1@ == rules@.subrange(1, rules@.len() as int), __i1 <= __s1.len(), good(elements.ids()),
    ensures stepped(s, c, cm_fn(rules@), elements.ids()),
//@ emit
}
// ---------------------------------------------------------------- whole selectors
proof fn lemma_reach_prefix(s: Seq<int>, a: Seq<Vec<SelectorSegment>>, b: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires 0 <= k <= a.len(),
    ensures reach(s, a + b, k, n) == reach(s, a, k, n),
    decreases k,
{
    if k > 0 {
        lemma_reach(s, a, k - 1, n);
        lemma_reach(s, a + b, k - 1, n);
        assert((a + b)[k - 1] == a[k - 1]);
        assert forall|m: int| #![trigger reach(s, a + b, k - 1, m)] #![trigger reach(s, a, k - 1, m)] reach(s, a + b, k - 1, m) == reach(s, a, k - 1, m) by { lemma_reach_prefix(s, a, b, k - 1, m); }
    }
}
proof fn lemma_reach_root(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires good(s), 0 <= k <= q.len(), reach(s, q, k, n),
    ensures s.len() > 0, root(n) == root(s[0]), is_el(n) || par(n) is None,
    decreases k,
{
    if k > 0 {
        lemma_reach(s, q, k - 1, n);
        let m = choose|m: int| #[trigger] reach(s, q, k - 1, m) && rel(q[k - 1]@[0].1, m, n);
        lemma_reach_root(s, q, k - 1, m);
        lemma_rel(q[k - 1]@[0].1, m, n);
    } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == n;
        assert(root(s[i]) == root(s[0]));
    }
}
proof fn lemma_down_anc(c: Combinator, a: int, m: int, n: int)
    requires downward(c), rel(c, m, n), anc(a, m),
    ensures anc(a, n), is_el(n),
{
    axiom_tree(n);
    lemma_nexts(m);
    lemma_down_el(c, m, n);
    if c is ChildrenAll { lemma_anc_trans(a, m, n); }
    if c is Next { assert(nexts(m).contains(n)); }
}
proof fn lemma_reach_below(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires 0 < k <= q.len(), down(q), child_type(q[0]@[0].1), reach(s, q, k, n),
    ensures from(s, ChildrenAll, n),
    decreases k,
{
    lemma_reach(s, q, k - 1, n);
    let c = q[k - 1]@[0].1;
    let m = choose|m: int| #[trigger] reach(s, q, k - 1, m) && rel(c, m, n);
    assert(downward(q[k - 1]@[0].1));
    if k == 1 {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == m;
        axiom_tree(n);
        assert(rel(ChildrenAll, s[i], n));
    } else {
        lemma_reach_below(s, q, k - 1, m);
        let i = choose|i: int| 0 <= i < s.len() && rel(ChildrenAll, #[trigger] s[i], m);
        lemma_down_anc(c, s[i], m, n);
        assert(rel(ChildrenAll, s[i], n));
    }
}
proof fn lemma_reach_none(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, j: int, n: int)
    requires 0 <= k <= j <= q.len(), forall|m: int| !#[trigger] reach(s, q, k, m),
    ensures !reach(s, q, j, n),
    decreases j,
{
    if j > k {
        lemma_reach(s, q, j - 1, n);
        assert forall|m: int| !(#[trigger] reach(s, q, j - 1, m)) by { lemma_reach_none(s, q, k, j - 1, m); }
    }
}
/// one more compound
proof fn lemma_reached_step(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, g: Seq<int>, r: Seq<int>)
    requires 0 <= k < q.len(), reached(s, q, k, g), stepped(g, q[k]@[0].1, cm_fn(q[k]@), r),
    ensures reached(s, q, k + 1, r),
{
    assert forall|n: int| #[trigger] r.contains(n) <==> reach(s, q, k + 1, n) by {
        lemma_reach(s, q, k, n);
        if from(g, q[k]@[0].1, n) { let i = choose|i: int| 0 <= i < g.len() && rel(q[k]@[0].1, #[trigger] g[i], n); assert(g.contains(g[i])); assert(reach(s, q, k, g[i])); }
        if reach(s, q, k + 1, n) {
            let m = choose|m: int| #[trigger] reach(s, q, k, m) && rel(q[k]@[0].1, m, n);
            assert(g.contains(m));
            let i = choose|i: int| 0 <= i < g.len() && g[i] == m;
            assert(rel(q[k]@[0].1, g[i], n));
        }
    }
}
proof fn lemma_reached_start(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, r: Seq<int>)
    requires q.len() > 0, stepped(s, q[0]@[0].1, cm_fn(q[0]@), r),
    ensures reached(s, q, 1, r),
{
    assert(reached(s, q, 0, s));
    lemma_reached_step(s, q, 0, s, r);
}
/// found by the compound in the middle, and kept where the front leads
proof fn lemma_reached_lookup(s: Seq<int>, l: Seq<Vec<SelectorSegment>>, q: Seq<Vec<SelectorSegment>>, f: Seq<int>, r: Seq<int>)
    requires
        l.len() > 0, q.len() > 0, down(l), child_type(l[0]@[0].1), downward(q[0]@[0].1),
        stepped(s, ChildrenAll, cm_fn(q[0]@), f),
        forall|n: int| #[trigger] r.contains(n) <==> f.contains(n) && leads(s, l, q[0]@[0].1, n),
    ensures reached(s, l + q, l.len() as int + 1, r),
{
    let c = q[0]@[0].1;
    let k = l.len() as int;
    assert((l + q)[k] == q[0]);
    assert forall|n: int| #[trigger] r.contains(n) <==> reach(s, l + q, k + 1, n) by {
        lemma_reach(s, l + q, k, n);
        assert forall|m: int| #![trigger reach(s, l + q, k, m)] #![trigger reach(s, l, k, m)] reach(s, l + q, k, m) == reach(s, l, k, m) by { lemma_reach_prefix(s, l, q, k, m); }
        assert(f.contains(n) <==> cm_fn(q[0]@)(n) && from(s, ChildrenAll, n));
        if leads(s, l, c, n) {
            let m = choose|m: int| #[trigger] reach(s, l, k, m) && rel(c, m, n);
            assert(reach(s, l + q, k, m));
            lemma_reach_below(s, l, k, m);
            let i = choose|i: int| 0 <= i < s.len() && rel(ChildrenAll, #[trigger] s[i], m);
            lemma_down_anc(c, s[i], m, n);
            assert(rel(ChildrenAll, s[i], n));
        }
        if reach(s, l + q, k + 1, n) {
            let m = choose|m: int| #[trigger] reach(s, l + q, k, m) && rel(c, m, n);
            assert(reach(s, l, k, m));
            assert(leads(s, l, c, n));
        }
    }
}
proof fn lemma_reached_good(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, k: int, r: Seq<int>)
    requires good(s), 0 <= k <= q.len(), reached(s, q, k, r),
    ensures one(r), els(r), s.len() > 0 ==> one_root(r, root(s[0])),
{
    assert forall|i: int| 0 <= i < r.len() implies root(#[trigger] r[i]) == root(s[0]) && (is_el(r[i]) || par(r[i]) is None) && s.len() > 0 by {
        assert(r.contains(r[i]));
        lemma_reach_root(s, q, k, r[i]);
    }
}
proof fn lemma_found_push(s: Seq<int>, ps: Seq<QueryProcess>, k: int, r: Seq<int>, g: Seq<int>, t: Seq<int>)
    requires
        0 <= k < ps.len(), forall|n: int| #[trigger] r.contains(n) <==> found(s, ps, k, n), reached(s, full(ps[k]), full(ps[k]).len() as int, g),
        forall|n: int| #[trigger] t.contains(n) <==> r.contains(n) || g.contains(n),
    ensures forall|n: int| #[trigger] t.contains(n) <==> found(s, ps, k + 1, n),
{
    assert forall|n: int| #[trigger] t.contains(n) <==> found(s, ps, k + 1, n) by {
        if found(s, ps, k, n) { let i = choose|i: int| 0 <= i < k && reach(s, full(#[trigger] ps[i]), full(ps[i]).len() as int, n); assert(0 <= i < k + 1); }
        if g.contains(n) { assert(reach(s, full(ps[k]), full(ps[k]).len() as int, n)); }
        if found(s, ps, k + 1, n) { let i = choose|i: int| 0 <= i < k + 1 && reach(s, full(#[trigger] ps[i]), full(ps[i]).len() as int, n); if i < k { assert(found(s, ps, k, n)); } else { assert(g.contains(n)); } }
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::find_selector
//@ prop C02 C03
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ rule text DEF_NODES_LEN => 20
//@ rule text let QueryProcess { should_in, query } = p; => let should_in = &p.should_in; let query = &p.query;
//@ rule text Some(lookup)) => Some(lookup.as_slice()))
//@ header
    requires good(self.ids()), wfs(selector),
    ensures good(r.ids()), forall|n: int| #[trigger] r.ids().contains(n) <==> found(self.ids(), selector.process@, selector.process@.len() as int, n),
//@ at start
    let ghost s = self.ids();
    let ghost ps = selector.process@;
    proof { assert forall|i: int, n: int| 0 <= i < ps.len() && s.len() == 0 implies !#[trigger] reach(s, full(ps[i]), full(ps[i]).len() as int, n) by { if reach(s, full(ps[i]), full(ps[i]).len() as int, n) { lemma_reach_root(s, full(ps[i]), full(ps[i]).len() as int, n); } } }
//@ loop 0
    invariant
        __s0@ == ps, __i0 <= __s0.len(), sorted(result.ids()), one_root(result.ids(), root(s[0])), els(result.ids()),
        forall|n: int| #[trigger] result.ids().contains(n) <==> found(s, ps, __i0 as int, n),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    let ghost q = full(ps[k]);
    let ghost had = result.ids();
    let ghost nl = (q.len() - p.query@.len()) as int;
    proof { assert(wfp(ps[k])); assert(wfr(p.query@[0]@)); }
//@ at before if !finded.is_empty()
    let ghost l = lookup@;
    let ghost c = p.query@[0]@[0].1;
    proof { if finded.ids().len() == 0 { lemma_reached_lookup(s, l, p.query@, finded.ids(), group.ids()); } }
//@ loop 1
    invariant
        __s1@ == finded.nodes@, __i1 <= __s1.len(), ahead(group.ids(), finded.ids(), __i1 as int),
        forall|n: int| #[trigger] group.ids().contains(n) <==> finded.ids().take(__i1 as int).contains(n) && leads(s, l, c, n),
//@ at loop-start 1
    let ghost g0 = group.ids();
    proof {
        let x = finded.ids()[__i1 - 1];
        assert(x == id_of(ele));
        lemma_contains_push(finded.ids().take(__i1 - 1), x);
        lemma_contains_push(g0, x);
        assert(finded.ids().take(__i1 as int) =~= finded.ids().take(__i1 - 1).push(x));
        lemma_ahead(g0, finded.ids(), __i1 - 1);
        assert(finded.ids().contains(x));
        assert(is_el(x)) by { let j = choose|j: int| 0 <= j < s.len() && rel(ChildrenAll, #[trigger] s[j], x); }
    }
//@ at loop-exit 1
    proof {
        assert(finded.ids().take(finded.ids().len() as int) =~= finded.ids());
        lemma_reached_lookup(s, l, p.query@, finded.ids(), group.ids());
    }
//@ at after group = Elements::select(self, first_query, None);
    proof { lemma_reached_start(s, p.query@, group.ids()); }
//@ at before if !group.is_empty()
    proof {
        assert(reached(s, q, nl + 1, group.ids()));
        lemma_reached_good(s, q, nl + 1, group.ids());
        assert(good(group.ids()));
        if group.ids().len() == 0 {
            assert forall|m: int| !#[trigger] reach(s, q, nl + 1, m) by { assert(!group.ids().contains(m)); }
            assert forall|n: int| !#[trigger] reach(s, q, q.len() as int, n) by { lemma_reach_none(s, q, nl + 1, q.len() as int, n); }
            assert(reached(s, q, q.len() as int, group.ids()));
            lemma_found_push(s, ps, k, had, group.ids(), had);
        }
    }
//@ loop 2
    invariant_except_break
        need_combine, reached(s, q, nl + 1 + __i2, group.ids()),
    invariant
        __s2@ == p.query@.subrange(1, p.query@.len() as int), __i2 <= __s2.len(), good(group.ids()),
    ensures
        need_combine ==> reached(s, q, q.len() as int, group.ids()),
        !need_combine ==> forall|n: int| !#[trigger] reach(s, q, q.len() as int, n),
//@ at loop-start 2
    let ghost j = nl + __i2;
    let ghost cur = group.ids();
    proof { assert(rules@ == p.query@[__i2 as int]@); assert(q[j] == p.query@[__i2 as int]); assert(wfr(p.query@[__i2 as int]@)); }
//@ at after group = Elements::select(&group, rules, None);
    proof {
        lemma_reached_step(s, q, j, cur, group.ids());
        if group.ids().len() == 0 {
            assert forall|m: int| !#[trigger] reach(s, q, j + 1, m) by { assert(!group.ids().contains(m)); }
            assert forall|n: int| !#[trigger] reach(s, q, q.len() as int, n) by { lemma_reach_none(s, q, j + 1, q.len() as int, n); }
        }
    }
//@ at before if need_combine
    proof {
        if need_combine { assert(reached(s, q, q.len() as int, group.ids())); lemma_reached_good(s, q, q.len() as int, group.ids()); }
        else { assert(reached(s, q, q.len() as int, Seq::empty())); lemma_found_push(s, ps, k, had, Seq::empty(), had); }
    }
    let ghost gr = group.ids();
//@ at after result = result.add(group);
    proof {
        lemma_found_push(s, ps, k, had, gr, result.ids());
        assert forall|i: int| 0 <= i < result.ids().len() implies root(#[trigger] result.ids()[i]) == root(s[0]) && (is_el(result.ids()[i]) || par(result.ids()[i]) is None) by {
            let x = result.ids()[i];
            assert(result.ids().contains(x));
            if had.contains(x) { let y = choose|y: int| 0 <= y < had.len() && had[y] == x; assert(root(had[y]) == root(s[0])); assert(is_el(had[y]) || par(had[y]) is None); }
            else { let y = choose|y: int| 0 <= y < gr.len() && gr[y] == x; assert(root(gr[y]) == root(s[0])); assert(is_el(gr[y]) || par(gr[y]) is None); }
        }
    }
//@ emit
}
// ---------------------------------------------------------------- does a selector describe an element
proof fn lemma_hits_step(s: Seq<int>, ps: Seq<QueryProcess>, k: int, r: Seq<int>, g: Seq<int>, t: Seq<int>)
    requires 0 <= k < ps.len(), picked(s, hits_fn(ps, k), r), picked(s, hit_fn(ps[k].query@), g), union_of(r, g, t),
    ensures picked(s, hits_fn(ps, k + 1), t),
{
    assert forall|n: int| #[trigger] t.contains(n) <==> s.contains(n) && hits_fn(ps, k + 1)(n) by {
        assert(r.contains(n) <==> s.contains(n) && hits_fn(ps, k)(n));
        assert(g.contains(n) <==> s.contains(n) && hit_fn(ps[k].query@)(n));
        if hits(ps, k, n) { let i = choose|i: int| 0 <= i < k && hit((#[trigger] ps[i]).query@, n); assert(0 <= i < k + 1); }
        if hits(ps, k + 1, n) { let i = choose|i: int| 0 <= i < k + 1 && hit((#[trigger] ps[i]).query@, n); if i < k { assert(hits(ps, k, n)); } }
    }
}
proof fn lemma_top_chain(x: Seq<int>, rules: Seq<SelectorSegment>)
    requires x.len() == 1,
    ensures forall|r: Seq<int>| #[trigger] stepped(x, Chain, cm_fn(rules), r) ==> ((r.len() > 0) == cm(rules, x[0])),
{
    assert forall|r: Seq<int>| #[trigger] stepped(x, Chain, cm_fn(rules), r) implies ((r.len() > 0) == cm(rules, x[0])) by {
        lemma_chain_from(x, x[0]);
        assert(x.contains(x[0]));
        assert(r.contains(x[0]) <==> cm_fn(rules)(x[0]) && from(x, Chain, x[0]));
        if r.len() > 0 { assert(r.contains(r[0])); lemma_chain_from(x, r[0]); }
    }
}
/// the last compound holds, and the others lead to the element
proof fn lemma_hit_lasts(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, f: Seq<int>, r: Seq<int>)
    requires
        good(s), s.len() > 0, q.len() > 0, stepped(s, Chain, cm_fn(q.last()@), f), sorted(r),
        q.len() > 1 ==> forall|n: int| #[trigger] r.contains(n) <==> f.contains(n) && above(root(s[0]), q, n),
        q.len() == 1 ==> r == f,
    ensures picked(s, hit_fn(q), r),
{
    assert forall|n: int| #[trigger] r.contains(n) <==> s.contains(n) && hit_fn(q)(n) by {
        lemma_chain_from(s, n);
        assert(f.contains(n) <==> cm_fn(q.last()@)(n) && from(s, Chain, n));
        if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(root(s[j]) == root(s[0])); }
    }
}
proof fn lemma_hit_none(s: Seq<int>, q: Seq<Vec<SelectorSegment>>, f: Seq<int>)
    requires q.len() > 0 ==> stepped(s, Chain, cm_fn(q.last()@), f), f.len() == 0,
    ensures picked(s, hit_fn(q), f),
{
    assert forall|n: int| #[trigger] f.contains(n) <==> s.contains(n) && hit_fn(q)(n) by {
        lemma_chain_from(s, n);
        if q.len() > 0 { assert(f.contains(n) <==> cm_fn(q.last()@)(n) && from(s, Chain, n)); }
    }
}
proof fn lemma_root_of(s: Seq<int>, g: spec_fn(int) -> bool, f: Seq<int>)
    requires good(s), stepped(s, Chain, g, f), f.len() > 0,
    ensures s.len() > 0, root_of(f) == root_of(s), top(f[0]) == root_of(s),
{
    assert(f.contains(f[0]));
    lemma_chain_from(s, f[0]);
    let j = choose|j: int| 0 <= j < s.len() && s[j] == f[0];
    assert(root(s[j]) == root(s[0]));
}
/// filtering keeps the order
proof fn lemma_filter_picked(s: Seq<int>, f: spec_fn(int) -> bool)
    requires sorted(s),
    ensures picked(s, f, s.filter(f)),
{
    lemma_filter_ahead(s, f, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
proof fn lemma_filter_ahead(s: Seq<int>, f: spec_fn(int) -> bool, k: int)
    requires sorted(s), 0 <= k <= s.len(),
    ensures ahead(s.take(k).filter(f), s, k), forall|n: int| #[trigger] s.take(k).filter(f).contains(n) <==> s.take(k).contains(n) && f(n),
    decreases k,
{
    reveal(Seq::filter);
    if k > 0 {
        lemma_filter_ahead(s, f, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        lemma_ahead(s.take(k - 1).filter(f), s, k - 1);
        lemma_contains_push(s.take(k - 1), s[k - 1]);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        lemma_contains_push(s.take(k - 1).filter(f), s[k - 1]);
    } else { assert(s.take(0).filter(f) =~= Seq::empty()); }
}
/// as many as there are: all of them
proof fn lemma_picked_all(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>)
    requires sorted(s), picked(s, f, r),
    ensures (r.len() == s.len()) == forall|n: int| #[trigger] s.contains(n) ==> f(n), r.len() <= s.len(),
{
    lemma_sorted_distinct(s);
    lemma_sorted_distinct(r);
    s.unique_seq_to_set();
    r.unique_seq_to_set();
    assert(r.to_set().subset_of(s.to_set())) by { assert forall|n: int| r.to_set().contains(n) implies s.to_set().contains(n) by { assert(r.contains(n)); assert(s.contains(n)); } }
    vstd::set_lib::lemma_len_subset(r.to_set(), s.to_set());
    if r.len() == s.len() {
        vstd::set_lib::lemma_subset_equality(r.to_set(), s.to_set());
        assert forall|n: int| #[trigger] s.contains(n) implies f(n) by { assert(s.to_set().contains(n)); assert(r.contains(n)); }
    }
    if forall|n: int| #[trigger] s.contains(n) ==> f(n) {
        assert(r.to_set() =~= s.to_set()) by { assert forall|n: int| r.to_set().contains(n) == s.to_set().contains(n) by { assert(r.contains(n) == s.contains(n)); } }
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::filter_type_handle
//@ prop C02 C03 C04 C11
//@ ret r
//@ rule orelse
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(40)]
//@ rule text let QueryProcess { query, .. } = process; => let query = &process.query;
//@ header
    requires good(self.ids()), wff(selector),
    ensures
        *filter_type is Filter ==> picked(self.ids(), hits_fn(selector.process@, selector.process@.len() as int), r.0.ids()),
        *filter_type is Not ==> picked(self.ids(), miss_fn(selector.process@), r.0.ids()),
        *filter_type is Is ==> r.1 == exists|n: int| #[trigger] self.ids().contains(n) && hits(selector.process@, selector.process@.len() as int, n),
        *filter_type is IsAll ==> r.1 == forall|n: int| #[trigger] self.ids().contains(n) ==> hits(selector.process@, selector.process@.len() as int, n),
//@ at start
    let ghost s = self.ids();
    let ghost ps = selector.process@;
    let ghost np = ps.len() as int;
    proof { if s.len() > 0 { lemma_root_top(s[0]); } }
//@ loop 0
    invariant_except_break
        !(all_matched),
        picked(s, hits_fn(ps, __i0 as int), result.ids()),
        *filter_type is Is ==> result.ids().len() == 0,
    invariant
        __s0@ == ps, __i0 <= __s0.len(),
        root is Some ==> s.len() > 0 && (root->0).ids() == seq![root_of(s)],
    ensures
        !all_matched ==> picked(s, hits_fn(ps, np), result.ids()),
        *filter_type is Is && !all_matched ==> result.ids().len() == 0,
        all_matched ==> *filter_type is Is && exists|n: int| #[trigger] s.contains(n) && hits(ps, np, n),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    let ghost q = ps[k].query@;
    let ghost had = result.ids();
    let ghost mut fin = Seq::<int>::empty();
    proof { assert(wfq(ps[k].query@)); assert(down(ps[k].query@)); if q.len() > 0 { assert(wfr(q[q.len() - 1]@)); assert(downward(q[q.len() - 1]@[0].1)); } }
//@ at before if query_num > 0
    proof { if q.len() == 0 { lemma_hit_none(s, q, filtered.ids()); } }
//@ at before if !filtered.is_empty() && last_query.len() > 1
    let ghost rs = last_query@;
    proof {
        lemma_part_first(s, Chain, rs, filtered.ids());
        assert(rs.take(rs.len() as int) =~= rs);
        if filtered.ids().len() == 0 { lemma_part_none(s, Chain, rs, 1, filtered.ids()); }
    }
//@ loop 1
    invariant_except_break stepped(s, Chain, cm_fn(rs.take(__i1 + 1)), filtered.ids()),
    invariant __s1@ == rs.subrange(1, rs.len() as int), __i1 <= __s1.len(), good(filtered.ids()),
    ensures stepped(s, Chain, cm_fn(rs), filtered.ids()),
//@ at loop-start 1
    let ghost m = __i1 as int;
    let ghost cur = filtered.ids();
    proof { assert(*rule == rs[m]); assert(wf(&rs[m].0)); assert(rs[m].1 is Chain); assert(rs.take(rs.len() as int) =~= rs); }
//@ at after filtered = Elements::select_by_rule(&filtered, rule, None);
    proof { lemma_part(s, Chain, rs, m, cur, filtered.ids()); if filtered.ids().len() == 0 { lemma_part_none(s, Chain, rs, m + 1, filtered.ids()); } }
//@ at before if !filtered.is_empty() && query_num > 1
    let ghost f = filtered.ids();
    proof {
        assert(stepped(s, Chain, cm_fn(q.last()@), f));
        assert(good(f));
        if f.len() > 0 { lemma_root_of(s, cm_fn(q.last()@), f); }
        if f.len() == 0 { lemma_hit_none(s, q, f); } else if q.len() == 1 { lemma_hit_lasts(s, q, f, f); }
    }
//@ loop 2
    invariant top(id_of(&root_element)) == root_of(s),
    decreases depth(id_of(&root_element)),
//@ at pre-loop 2
    proof { assert(f[0] == id_of(&filtered.nodes@[0])); }
//@ at loop-start 2
    proof { let x = id_of(&root_element); lemma_path_len(x); axiom_tree(x); }
//@ at loop-exit 2
    proof { lemma_path_len(id_of(&root_element)); }
//@ at before let top = root_eles
    proof { let x = root_eles.ids(); assert(x.len() == root_eles.nodes@.len()); assert(x[0] == id_of(&root_eles.nodes@[0])); assert(wfr(q[0]@)); lemma_root_top(s[0]); }
//@ at after let top_matched
    proof {
        assert(top_matched == top_ok(root_of(s), q)) by {
            let x = seq![root_of(s)];
            assert(wfr(q[0]@));
            lemma_top_chain(x, q[0]@);
        }
        assert(lk(lookup) =~= q.drop_last());
        assert(q.subrange(1, q.len() - 1) =~= q.drop_last().skip(1));
    }
//@ loop 3
    invariant
        __s3@ == filtered.nodes@, __i3 <= __s3.len(), ahead(lasts.ids(), f, __i3 as int),
        forall|n: int| #[trigger] lasts.ids().contains(n) <==> f.take(__i3 as int).contains(n) && above(root_of(s), q, n),
//@ at loop-start 3
    let ghost g0 = lasts.ids();
    proof {
        let x = f[__i3 - 1];
        assert(x == id_of(ele));
        lemma_contains_push(f.take(__i3 - 1), x);
        lemma_contains_push(g0, x);
        assert(f.take(__i3 as int) =~= f.take(__i3 - 1).push(x));
        lemma_ahead(g0, f, __i3 - 1);
    }
//@ at loop-end 3
    proof { assert(lasts.ids() =~= g0 || lasts.ids() =~= g0.push(id_of(ele))); }
//@ at before filtered = lasts;
    proof { assert(f.take(f.len() as int) =~= f); lemma_hit_lasts(s, q, f, lasts.ids()); }
//@ at before if !filtered.is_empty() {
    let ghost fin = filtered.ids();
    proof {
        assert(picked(s, hit_fn(q), fin));
        lemma_picked_good(s, hit_fn(q), fin);
        lemma_picked_good(s, hits_fn(ps, k), had);
        if fin.len() > 0 {
            assert(fin.contains(fin[0]));
            assert(s.contains(fin[0]) && hit_fn(q)(fin[0]));
            assert(hits(ps, np, fin[0])) by { assert(hit(ps[k].query@, fin[0])); }
        } else {
            assert(union_of(had, fin, had));
            lemma_hits_step(s, ps, k, had, fin, had);
        }
        if s.len() > 0 { assert(one_root(fin, root_of(s)) && one_root(had, root_of(s))); }
        else if fin.len() > 0 { assert(s.contains(fin[0])); }
    }
//@ at after result = result.add(filtered);
    proof { lemma_hits_step(s, ps, k, had, fin, result.ids()); }
//@ at loop-exit 0
    proof {
        if !all_matched {
            lemma_picked_all(s, hits_fn(ps, np), result.ids());
            if *filter_type is Is { assert forall|n: int| #[trigger] s.contains(n) implies !hits(ps, np, n) by { assert(!result.ids().contains(n)); if hits(ps, np, n) { assert(hits_fn(ps, np)(n)); } } }
            if *filter_type is IsAll { assert((forall|n: int| #[trigger] s.contains(n) ==> hits(ps, np, n)) == (forall|n: int| #[trigger] s.contains(n) ==> hits_fn(ps, np)(n))); }
            if *filter_type is Not && result.ids().len() == 0 {
                assert forall|n: int| #[trigger] s.contains(n) implies miss_fn(ps)(n) by { assert(!result.ids().contains(n)); if hits(ps, np, n) { assert(hits_fn(ps, np)(n)); } }
                assert(picked(s, miss_fn(ps), s));
            }
            if *filter_type is Not {
                let o = outside(result.ids());
                lemma_filter_picked(s, o);
                let t = s.filter(o);
                assert forall|n: int| #[trigger] t.contains(n) <==> s.contains(n) && miss_fn(ps)(n) by { assert(t.contains(n) <==> s.contains(n) && o(n)); if s.contains(n) { assert(result.ids().contains(n) == hits_fn(ps, np)(n)); } }
                assert(picked(s, miss_fn(ps), t));
            }
        }
    }
//@ emit
}
//@ emit
}
fn main() {}
