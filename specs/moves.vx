//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include rep.vx
//@ include sel.vx
//@ include sent.vx
//@ emit
// ---------------------------------------------------------------- proved in units order, set, walk and query
impl<'a> Elements<'a> {
//@ contract order.vx Elements::sort_and_unique
//@ contract walk.vx Elements::unique_sibling_first
//@ contract walk.vx Elements::unique_all_siblings
//@ contract set.vx Elements::filter_in_handle
//@ contract query.vx Elements::find_selector
//@ contract query.vx Elements::filter_type_handle
//@ contract report.vx Elements::trigger_method_throw_error
//@ emit
}
// ---------------------------------------------------------------- has, has_in
proof fn lemma_below(e: int, f: spec_fn(int) -> bool)
    ensures below(e, f) == exists|i: int| 0 <= i < elkids(e).len() && (f(#[trigger] elkids(e)[i]) || below(elkids(e)[i], f)),
        forall|i: int| 0 <= i < elkids(e).len() ==> height(#[trigger] elkids(e)[i]) < height(e),
{
    lemma_elkids(e);
    let ks = elkids(e);
    assert forall|i: int| 0 <= i < ks.len() implies height(#[trigger] ks[i]) < height(e) && anc(e, ks[i]) by { axiom_tree(ks[i]); }
    if below(e, f) {
        let n = choose|n: int| #[trigger] anc(e, n) && is_el(n) && f(n);
        let j = lemma_anc_kid(e, n);
        let x = kids(e)[j];
        lemma_kid(e, j);
        axiom_tree(x);
        assert(ks.contains(x));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x;
        if x != n { assert(below(ks[i], f)); }
        assert(f(ks[i]) || below(ks[i], f));
    }
    if exists|i: int| 0 <= i < ks.len() && (f(#[trigger] ks[i]) || below(ks[i], f)) {
        let i = choose|i: int| 0 <= i < ks.len() && (f(#[trigger] ks[i]) || below(ks[i], f));
        if !f(ks[i]) {
            let n = choose|n: int| #[trigger] anc(ks[i], n) && is_el(n) && f(n);
            lemma_anc_trans(e, ks[i], n);
        }
        assert(below(e, f));
    }
}
//@ fn mesdoc/interface/elements.rs Elements::has/loop_handle as has_loop
//@ prop C02
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
//@ rule inner loop_handle => has_loop
//@ header
    requires wff(selector),
    ensures r == below(id_of(ele), hits_fn(selector.process@, selector.process@.len() as int)),
    decreases height(id_of(ele)),
//@ at start
    let ghost e = id_of(ele);
    let ghost ps = selector.process@;
    let ghost f = hits_fn(ps, ps.len() as int);
    proof { lemma_below(e, f); lemma_elkids(e); }
//@ at before if all_matched
    proof {
        if all_matched { let n = choose|n: int| #[trigger] elkids(e).contains(n) && hits(ps, ps.len() as int, n); let i = choose|i: int| 0 <= i < elkids(e).len() && elkids(e)[i] == n; assert(f(elkids(e)[i])); }
        else { assert forall|i: int| 0 <= i < elkids(e).len() implies !f(#[trigger] elkids(e)[i]) by { assert(elkids(e).contains(elkids(e)[i])); } }
    }
//@ loop 0
    invariant __s0@ == childs.nodes@, __i0 <= __s0.len(), forall|i: int| 0 <= i < __i0 ==> !below(#[trigger] elkids(e)[i], f),
//@ at loop-start 0
    proof { assert(elkids(e)[__i0 - 1] == childs.ids()[__i0 - 1]); assert(id_of(child) == elkids(e)[__i0 - 1]); }
//@ fn mesdoc/interface/elements.rs Elements::has_in/loop_handle as has_in_loop
//@ prop C04
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
//@ rule inner loop_handle => has_in_loop
//@ header
    ensures r == below(id_of(ele), inside(search.ids())),
    decreases height(id_of(ele)),
//@ at start
    let ghost e = id_of(ele);
    let ghost f = inside(search.ids());
    proof { lemma_below(e, f); lemma_elkids(e); }
//@ at before if all_matched
    proof {
        if all_matched { let i = choose|i: int| 0 <= i < elkids(e).len() && search.ids().contains(#[trigger] elkids(e)[i]); assert(f(elkids(e)[i])); }
        else { assert forall|i: int| 0 <= i < elkids(e).len() implies !f(#[trigger] elkids(e)[i]) by { assert(childs.ids()[i] == elkids(e)[i]); } }
    }
//@ loop 0
    invariant __s0@ == childs.nodes@, __i0 <= __s0.len(), forall|i: int| 0 <= i < __i0 ==> !below(#[trigger] elkids(e)[i], f),
//@ at loop-start 0
    proof { assert(elkids(e)[__i0 - 1] == childs.ids()[__i0 - 1]); assert(id_of(child) == elkids(e)[__i0 - 1]); }
//@ emit
// ---------------------------------------------------------------- closest
/// the nearest of e and its ancestors that the list describes
spec fn near(ps: Seq<QueryProcess>, e: int) -> Option<int>
    decreases depth(e),
{
    if hits(ps, ps.len() as int, e) { Some(e) } else {
        match par(e) {
            Some(p) if depth(p) < depth(e) && !is_doc(p) => near(ps, p),
            _ => None,
        }
    }
}
spec fn nearest(ps: Seq<QueryProcess>, s: Seq<int>, n: int) -> bool { exists|i: int| 0 <= i < s.len() && near(ps, #[trigger] s[i]) == Some(n) }
proof fn lemma_near(ps: Seq<QueryProcess>, e: int)
    requires is_el(e) || par(e) is None,
    ensures
        hits(ps, ps.len() as int, e) ==> near(ps, e) == Some(e),
        !hits(ps, ps.len() as int, e) ==> near(ps, e) == (if par(e) is Some && !is_doc(par(e)->0) { near(ps, par(e)->0) } else { None }),
        par(e) is Some ==> depth(par(e)->0) < depth(e) && (is_el(par(e)->0) || par(par(e)->0) is None) && root(par(e)->0) == root(e),
{ axiom_tree(e); lemma_path_len(e); if par(e) is Some { axiom_tree(par(e)->0); } }
proof fn lemma_near_up(ps: Seq<QueryProcess>, e: int, n: int)
    requires is_el(e) || par(e) is None, near(ps, e) == Some(n),
    ensures root(n) == root(e), is_el(n) || par(n) is None,
    decreases depth(e),
{
    lemma_near(ps, e);
    if !hits(ps, ps.len() as int, e) { lemma_near_up(ps, par(e)->0, n); }
}
spec fn missed(ps: Seq<QueryProcess>, s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> !hits(ps, ps.len() as int, #[trigger] s[i]) }
/// the walk of one of several siblings stands for all
proof fn lemma_near_reps(ps: Seq<QueryProcess>, s: Seq<int>, u: Seq<int>, e: int, n: int)
    requires reps(s, u, true), s.contains(e), missed(ps, s), near(ps, e) == Some(n),
    ensures nearest(ps, u, n),
{
    let k = choose|k: int| 0 <= k < s.len() && s[k] == e;
    assert(!hits(ps, ps.len() as int, s[k]));
    axiom_tree(e);
    assert(par(e) is Some);
    assert(repped(u, e, true));
    let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e) && idx(u[i]) <= idx(e);
    assert(s.contains(u[i]));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
    assert(!hits(ps, ps.len() as int, s[j]));
    axiom_tree(u[i]);
    assert(near(ps, u[i]) == Some(n));
}
spec fn not_fn(f: spec_fn(int) -> bool) -> spec_fn(int) -> bool { |n: int| !f(n) }
proof fn lemma_one_hit(ps: Seq<QueryProcess>, x: int)
    requires is_el(x) || par(x) is None,
    ensures good(seq![x]), (exists|n: int| #[trigger] seq![x].contains(n) && hits(ps, ps.len() as int, n)) == hits(ps, ps.len() as int, x),
{
    let o = seq![x];
    assert(o[0] == x);
    if hits(ps, ps.len() as int, x) { assert(o.contains(x)); }
}
proof fn lemma_nearest_push(ps: Seq<QueryProcess>, s: Seq<int>, x: int)
    ensures forall|n: int| #[trigger] nearest(ps, s.push(x), n) <==> nearest(ps, s, n) || near(ps, x) == Some(n),
{
    let q = s.push(x);
    assert forall|n: int| #[trigger] nearest(ps, q, n) <==> nearest(ps, s, n) || near(ps, x) == Some(n) by {
        if nearest(ps, q, n) { let i = choose|i: int| 0 <= i < q.len() && near(ps, #[trigger] q[i]) == Some(n); if i < s.len() { assert(near(ps, s[i]) == Some(n)); } }
        if nearest(ps, s, n) { let i = choose|i: int| 0 <= i < s.len() && near(ps, #[trigger] s[i]) == Some(n); assert(near(ps, q[i]) == Some(n)); }
        if near(ps, x) == Some(n) { assert(near(ps, q[s.len() as int]) == Some(n)); }
    }
}
/// the elements that match themselves, and what the others find above
proof fn lemma_closest(ps: Seq<QueryProcess>, s: Seq<int>, r1: Seq<int>, pr: Seq<int>, u: Seq<int>, r: Seq<int>)
    requires
        reps(pr, u, true), missed(ps, pr),
        forall|n: int| #[trigger] r1.contains(n) <==> s.contains(n) && hits(ps, ps.len() as int, n),
        forall|n: int| #[trigger] pr.contains(n) <==> s.contains(n) && !hits(ps, ps.len() as int, n),
        forall|n: int| #[trigger] r.contains(n) <==> r1.contains(n) || nearest(ps, u, n),
    ensures forall|n: int| #[trigger] r.contains(n) <==> nearest(ps, s, n),
{
    assert forall|n: int| #[trigger] r.contains(n) <==> nearest(ps, s, n) by {
        if r1.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(near(ps, s[i]) == Some(n)); }
        if nearest(ps, u, n) { let i = choose|i: int| 0 <= i < u.len() && near(ps, #[trigger] u[i]) == Some(n); assert(pr.contains(u[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i]; assert(near(ps, s[j]) == Some(n)); }
        if nearest(ps, s, n) {
            let i = choose|i: int| 0 <= i < s.len() && near(ps, #[trigger] s[i]) == Some(n);
            assert(s.contains(s[i]));
            if !hits(ps, ps.len() as int, s[i]) { assert(pr.contains(s[i])); lemma_near_reps(ps, pr, u, s[i], n); }
            else { assert(r1.contains(n)); }
        }
    }
}
proof fn lemma_closest_none(ps: Seq<QueryProcess>, s: Seq<int>, r1: Seq<int>, pr: Seq<int>)
    requires
        pr.len() == 0,
        forall|n: int| #[trigger] r1.contains(n) <==> s.contains(n) && hits(ps, ps.len() as int, n),
        forall|n: int| #[trigger] pr.contains(n) <==> s.contains(n) && !hits(ps, ps.len() as int, n),
    ensures forall|n: int| #[trigger] r1.contains(n) <==> nearest(ps, s, n),
{
    assert forall|n: int| #[trigger] r1.contains(n) <==> nearest(ps, s, n) by {
        if r1.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(near(ps, s[i]) == Some(n)); }
        if nearest(ps, s, n) {
            let i = choose|i: int| 0 <= i < s.len() && near(ps, #[trigger] s[i]) == Some(n);
            assert(s.contains(s[i]));
            assert(!pr.contains(s[i]));
        }
    }
}
proof fn lemma_nearest_one(ps: Seq<QueryProcess>, s: Seq<int>, r: Seq<int>)
    requires good(s), forall|n: int| #[trigger] r.contains(n) <==> nearest(ps, s, n),
    ensures one(r), els(r), exists|x: int| one_root(r, x),
{
    assert forall|i: int| 0 <= i < r.len() implies root(#[trigger] r[i]) == root(s[0]) && (is_el(r[i]) || par(r[i]) is None) by {
        assert(r.contains(r[i]));
        let j = choose|j: int| 0 <= j < s.len() && near(ps, #[trigger] s[j]) == Some(r[i]);
        lemma_near_up(ps, s[j], r[i]);
        assert(root(s[j]) == root(s[0]));
    }
    lemma_one_root(r);
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::closest
//@ prop C11 C03 C09
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(120)]
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method_throw_error( => self.trigger_method_throw_error(lg, 
//@ rule method unwrap_err => vx_unwrap_err(val)
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()),
        selector@.len() > 0 && !malformed(selector@) ==> forall|n: int| #[trigger] r.ids().contains(n) <==> nearest(procs(selector@, false), self.ids(), n),
        selector@.len() == 0 || malformed(selector@) ==> r.ids().len() == 0,
        log_of(old(lg)@, selector@.len() > 0 && malformed(selector@), self.ids(), final(lg)@),
//@ at start
    let ghost s = self.ids();
    let ghost text = selector@;
    let ghost ps = procs(text, false);
    let ghost np = ps.len() as int;
    let ghost f = hits_fn(ps, np);
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), ahead(result.ids(), s, __i0 as int), ahead(propagations.ids(), s, __i0 as int),
        forall|n: int| #[trigger] result.ids().contains(n) <==> s.take(__i0 as int).contains(n) && f(n),
        forall|n: int| #[trigger] propagations.ids().contains(n) <==> s.take(__i0 as int).contains(n) && !f(n),
//@ at loop-start 0
    let ghost x = s[__i0 - 1];
    let ghost r0 = result.ids();
    let ghost p0 = propagations.ids();
    proof {
        assert(x == id_of(ele));
        lemma_contains_push(s.take(__i0 - 1), x);
        lemma_contains_push(r0, x);
        lemma_contains_push(p0, x);
        assert(s.take(__i0 as int) =~= s.take(__i0 - 1).push(x));
        lemma_ahead(r0, s, __i0 - 1);
        lemma_ahead(p0, s, __i0 - 1);
        lemma_one_hit(ps, x);
    }
//@ at after let mut cur_eles = Elements::with_node(ele);
    proof { assert(cur_eles.ids().len() == 1); assert(cur_eles.ids().len() == 1); assert(cur_eles.ids().len() == cur_eles.nodes@.len()); assert(cur_eles.ids()[0] == id_of(&cur_eles.nodes@[0])); }
//@ at loop-end 0
    proof { assert(f(x) ==> result.ids() =~= r0.push(x)); assert(!f(x) ==> propagations.ids() =~= p0.push(x)); assert(!f(x) ==> result.ids() == r0); assert(f(x) ==> propagations.ids() == p0); }
//@ at before if !propagations.is_empty()
    let ghost r1 = result.ids();
    let ghost pr = propagations.ids();
    proof {
        assert(s.take(s.len() as int) =~= s);
        lemma_picked_good(s, f, r1);
        assert(picked(s, not_fn(f), pr)) by { assert forall|n: int| #[trigger] pr.contains(n) <==> s.contains(n) && not_fn(f)(n) by {} }
        lemma_picked_good(s, not_fn(f), pr);
        assert(missed(ps, pr)) by { assert forall|i: int| 0 <= i < pr.len() implies !hits(ps, np, #[trigger] pr[i]) by { assert(pr.contains(pr[i])); if hits(ps, np, pr[i]) { assert(f(pr[i])); } } }
        if pr.len() == 0 { lemma_closest_none(ps, s, r1, pr); }
    }
//@ loop 1
    invariant
        __s1@ == uniques.nodes@, __i1 <= __s1.len(),
        forall|n: int| #[trigger] result.ids().contains(n) <==> r1.contains(n) || nearest(ps, uniques.ids().take(__i1 as int), n),
//@ at loop-start 1
    let ghost u = uniques.ids()[__i1 - 1];
    let ghost r2 = result.ids();
    proof {
        assert(u == id_of(ele));
        assert(pr.contains(u));
        assert(s.contains(u));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == u;
        assert(is_el(s[j]) || par(s[j]) is None);
        assert(uniques.ids().take(__i1 as int) =~= uniques.ids().take(__i1 - 1).push(u));
        lemma_nearest_push(ps, uniques.ids().take(__i1 - 1), u);
    }
//@ loop 2
    invariant_except_break
        cur_eles.ids().len() == 1, is_el(cur_eles.ids()[0]) || par(cur_eles.ids()[0]) is None, near(ps, u) == near(ps, cur_eles.ids()[0]), result.ids() == r2,
    ensures forall|n: int| #[trigger] result.ids().contains(n) <==> r2.contains(n) || near(ps, u) == Some(n),
    decreases depth(cur_eles.ids()[0]),
//@ at loop-start 2
    let ghost y = cur_eles.ids()[0];
    proof { lemma_one_hit(ps, y); lemma_near(ps, y); assert(cur_eles.ids() =~= seq![y]); lemma_contains_push(r2, y); assert(y == id_of(&cur_eles.nodes@[0])); }
//@ at before break;
    proof { if hits(ps, np, y) { assert(result.ids() =~= r2.push(y)); } }
//@ at before result.sort_and_unique();
    let ghost r3 = result.ids();
    proof {
        assert(uniques.ids().take(uniques.ids().len() as int) =~= uniques.ids());
        lemma_closest(ps, s, r1, pr, uniques.ids(), r3);
        lemma_nearest_one(ps, s, r3);
    }
//@ at after result.sort_and_unique();
    proof {
        lemma_members_one(r3, result.ids());
    }
//@ emit
}
// ---------------------------------------------------------------- the until-forms
/// the one element that a step leads to
spec fn succ(c: Combinator, e: int) -> Option<int> {
    match c {
        Next => if nexts(e).len() > 0 { Some(nexts(e)[0]) } else { None },
        Prev => if prevs(e).len() > 0 { Some(prevs(e).last()) } else { None },
        Parent => if par(e) is Some && !is_doc(par(e)->0) { par(e) } else { None },
        _ => None,
    }
}
spec fn stepwise(c: Combinator) -> bool { c is Next || c is Prev || c is Parent }
spec fn measure(c: Combinator, e: int) -> nat {
    match c {
        Next => (match par(e) { Some(p) => (kids(p).len() - idx(e)) as nat, None => 0 }),
        Prev => idx(e) as nat,
        _ => depth(e),
    }
}
proof fn lemma_succ(c: Combinator, e: int)
    requires stepwise(c), is_el(e) || par(e) is None,
    ensures
        forall|n: int| #[trigger] rel(c, e, n) == (succ(c, e) == Some(n)),
        succ(c, e) is Some ==> measure(c, succ(c, e)->0) < measure(c, e) && root(succ(c, e)->0) == root(e) && is_el(succ(c, e)->0),
{
    lemma_nexts(e);
    lemma_prevs(e);
    axiom_tree(e);
    if succ(c, e) is Some {
        let x = succ(c, e)->0;
        assert(rel(c, e, x));
        lemma_rel(c, e, x);
        axiom_tree(x);
        if c is Next { assert(nexts(e).contains(x)); }
        if c is Prev { assert(prevs(e).contains(x)); }
    }
}
/// what is collected on the way from e up to the first element that the stop list describes
spec fn until(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, e: int) -> Seq<int>
    decreases measure(c, e),
{
    match succ(c, e) {
        Some(x) if measure(c, x) < measure(c, e) => {
            let stop = hits(ps, ps.len() as int, x);
            let keep = fs is None || hits(fs->0, fs->0.len() as int, x);
            if stop && !with { Seq::empty() } else {
                (if keep { seq![x] } else { Seq::empty() }) + (if stop { Seq::empty() } else { until(c, ps, fs, with, x) })
            }
        }
        _ => Seq::empty(),
    }
}
spec fn untils(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, s: Seq<int>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { untils(c, ps, fs, with, s.drop_last()) + until(c, ps, fs, with, s.last()) }
}
/// n is collected from one of s
spec fn collected(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, s: Seq<int>, n: int) -> bool {
    exists|i: int| 0 <= i < s.len() && until(c, ps, fs, with, #[trigger] s[i]).contains(n)
}
proof fn lemma_untils(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, s: Seq<int>, n: int)
    ensures untils(c, ps, fs, with, s).contains(n) == collected(c, ps, fs, with, s, n),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_untils(c, ps, fs, with, t, n);
        lemma_contains_add(untils(c, ps, fs, with, t), until(c, ps, fs, with, s.last()));
        if collected(c, ps, fs, with, t, n) { let i = choose|i: int| 0 <= i < t.len() && until(c, ps, fs, with, #[trigger] t[i]).contains(n); assert(s[i] == t[i]); }
        if collected(c, ps, fs, with, s, n) { let i = choose|i: int| 0 <= i < s.len() && until(c, ps, fs, with, #[trigger] s[i]).contains(n); if i < t.len() { assert(t[i] == s[i]); } }
        if until(c, ps, fs, with, s.last()).contains(n) { assert(until(c, ps, fs, with, s[s.len() - 1]).contains(n)); }
    }
}
proof fn lemma_until_root(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, e: int, n: int)
    requires stepwise(c), is_el(e) || par(e) is None, until(c, ps, fs, with, e).contains(n),
    ensures root(n) == root(e), is_el(n),
    decreases measure(c, e),
{
    lemma_succ(c, e);
    let x = succ(c, e)->0;
    let u = until(c, ps, fs, with, x);
    let h = hits(ps, ps.len() as int, x);
    let a = if fs is None || hits(fs->0, fs->0.len() as int, x) { seq![x] } else { Seq::<int>::empty() };
    let b = if h { Seq::empty() } else { u };
    lemma_contains_add(a, b);
    if n != x { assert(b.contains(n)); lemma_until_root(c, ps, fs, with, x, n); }
}
proof fn lemma_untils_one(c: Combinator, ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, s: Seq<int>, r: Seq<int>)
    requires stepwise(c), one(s), els(s), r == untils(c, ps, fs, with, s),
    ensures one(r), els(r), exists|x: int| one_root(r, x), forall|n: int| #[trigger] r.contains(n) == collected(c, ps, fs, with, s, n),
{
    assert forall|n: int| #[trigger] r.contains(n) == collected(c, ps, fs, with, s, n) by { lemma_untils(c, ps, fs, with, s, n); }
    assert forall|i: int| 0 <= i < r.len() implies root(#[trigger] r[i]) == root(s[0]) && (is_el(r[i]) || par(r[i]) is None) by {
        assert(r.contains(r[i]));
        let j = choose|j: int| 0 <= j < s.len() && until(c, ps, fs, with, #[trigger] s[j]).contains(r[i]);
        lemma_until_root(c, ps, fs, with, s[j], r[i]);
        assert(root(s[j]) == root(s[0]));
    }
    lemma_one_root(r);
}
proof fn lemma_one_member(r: Seq<int>, y: Option<int>)
    requires sorted(r), forall|n: int| #[trigger] r.contains(n) <==> y == Some(n),
    ensures y is None ==> r.len() == 0, y matches Some(x) ==> r == seq![x],
{
    lemma_sorted_distinct(r);
    if r.len() > 0 { assert(r.contains(r[0])); }
    if r.len() > 1 { assert(r.contains(r[1])); assert(r[0] == r[1]); }
    if y is Some { assert(r.contains(y->0)); assert(r =~= seq![y->0]); }
}
proof fn lemma_from_one(c: Combinator, y: int)
    ensures forall|n: int| #[trigger] from(seq![y], c, n) == rel(c, y, n),
{
    let o = seq![y];
    assert(o[0] == y);
    assert forall|n: int| #[trigger] from(o, c, n) == rel(c, y, n) by { if rel(c, y, n) { assert(rel(c, o[0], n)); } }
}
proof fn lemma_none_members(a: Seq<int>, b: Seq<int>)
    requires same_members(a, b), a.len() == 0,
    ensures b.len() == 0,
{ if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } }
proof fn lemma_until_sib(ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, a: int, b: int)
    requires par(a) == par(b),
    ensures until(Parent, ps, fs, with, a) == until(Parent, ps, fs, with, b), par(a) is None ==> until(Parent, ps, fs, with, a).len() == 0,
{ axiom_tree(a); axiom_tree(b); }
/// siblings go up the same way
proof fn lemma_until_reps(ps: Seq<QueryProcess>, fs: Option<Seq<QueryProcess>>, with: bool, s: Seq<int>, u: Seq<int>)
    requires reps(s, u, true),
    ensures forall|n: int| #[trigger] collected(Parent, ps, fs, with, u, n) == collected(Parent, ps, fs, with, s, n),
{
    hide(until); hide(sorted); hide(hits);
    assert forall|n: int| #[trigger] collected(Parent, ps, fs, with, u, n) == collected(Parent, ps, fs, with, s, n) by {
        if collected(Parent, ps, fs, with, u, n) {
            let i = choose|i: int| 0 <= i < u.len() && until(Parent, ps, fs, with, #[trigger] u[i]).contains(n);
            assert(s.contains(u[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
            assert(until(Parent, ps, fs, with, s[j]).contains(n));
        }
        if collected(Parent, ps, fs, with, s, n) {
            let j = choose|j: int| 0 <= j < s.len() && until(Parent, ps, fs, with, #[trigger] s[j]).contains(n);
            let e = s[j];
            assert(s.contains(e));
            lemma_until_sib(ps, fs, with, e, e);
            assert(par(e) is Some);
            assert(repped(u, e, true));
            let i = choose|i: int| 0 <= i < u.len() && par(#[trigger] u[i]) == par(e) && idx(u[i]) <= idx(e);
            lemma_until_sib(ps, fs, with, u[i], e);
            assert(until(Parent, ps, fs, with, u[i]).contains(n));
        }
    }
}
spec fn fsel(text: Seq<char>) -> Option<Seq<QueryProcess>> { if text.len() == 0 { None } else { Some(procs(text, false)) } }
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::select_with_comb_until
//@ prop C11 C09
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(40)]
//@ rule text DEF_NODES_LEN => 20
//@ rule sigarg => lg: &mut Log
//@ rule text self.trigger_method_throw_error( => self.trigger_method_throw_error(lg, 
//@ rule method unwrap_err => vx_unwrap_err(val)
//@ header
    requires els(self.ids()), stepwise(comb),
    ensures
        !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@)) ==> r.ids() == untils(comb, procs(selector@, false), fsel(filter@), contains, self.ids()),
        malformed(selector@) || (filter@.len() > 0 && malformed(filter@)) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@) || (filter@.len() > 0 && malformed(filter@)), self.ids(), final(lg)@),
//@ at start
    let ghost s = self.ids();
    let ghost ps = procs(selector@, false);
    let ghost fs = fsel(filter@);
    let ghost c = comb;
    proof { axiom_all(); }
//@ at after let next_selector
    proof { lemma_all(c, s, next_selector.process@); assert(wfs(&next_selector)); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), result.ids() == untils(c, ps, fs, contains, s.take(__i0 as int)),
//@ at loop-start 0
    let ghost u = s[__i0 - 1];
    let ghost r0 = result.ids();
    let ghost t = s.take(__i0 as int);
    proof { assert(u == id_of(ele)); assert(t.drop_last() =~= s.take(__i0 - 1)); assert(is_el(s[__i0 - 1]) || par(s[__i0 - 1]) is None); }
//@ at loop-exit 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@ loop 1
    invariant_except_break
        cur_eles.ids().len() == 1, is_el(cur_eles.ids()[0]) || par(cur_eles.ids()[0]) is None,
        result.ids() + until(c, ps, fs, contains, cur_eles.ids()[0]) == r0 + until(c, ps, fs, contains, u),
    ensures result.ids() == r0 + until(c, ps, fs, contains, u),
    decreases measure(c, cur_eles.ids()[0]),
//@ at pre-loop 1
    proof { assert(cur_eles.ids() =~= seq![u]); }
//@ at loop-start 1
    let ghost y = cur_eles.ids()[0];
    let ghost r1 = result.ids();
    let ghost x = succ(c, y);
    proof {
        lemma_succ(c, y);
        lemma_one_hit(ps, y);
        assert(cur_eles.ids() =~= seq![y]);
        lemma_all(c, seq![y], next_selector.process@);
        lemma_from_one(c, y);
        assert(r1 + Seq::<int>::empty() =~= r1);
    }
//@ at after cur_eles = cur_eles.find_selector(&next_selector);
    proof {
        lemma_one_member(cur_eles.ids(), x);
        if x is Some { lemma_one_hit(ps, x->0); if fs is Some { lemma_one_hit(fs->0, x->0); } assert(cur_eles.ids().len() == 1); assert(cur_eles.ids().len() == cur_eles.nodes@.len()); assert(cur_eles.ids()[0] == id_of(&cur_eles.nodes@[0])); }
    }
//@ fn mesdoc/interface/elements.rs Elements::next_until
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb_until( => .select_with_comb_until(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()),
        !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@)) ==> forall|n: int| #[trigger] r.ids().contains(n) <==> collected(Next, procs(selector@, false), fsel(filter@), contains, self.ids(), n),
        malformed(selector@) || (filter@.len() > 0 && malformed(filter@)) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@) || (filter@.len() > 0 && malformed(filter@)), self.ids(), final(lg)@),
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
    let ghost ok = !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@));
    proof { if ok { lemma_untils_one(Next, procs(selector@, false), fsel(filter@), contains, self.ids(), r1); } else { assert(one_root(r1, 0)); } }
//@ at after result.sort_and_unique();
    proof { lemma_members_one(r1, result.ids()); if !ok { lemma_none_members(r1, result.ids()); } }
//@ fn mesdoc/interface/elements.rs Elements::prev_until
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb_until( => .select_with_comb_until(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()),
        !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@)) ==> forall|n: int| #[trigger] r.ids().contains(n) <==> collected(Prev, procs(selector@, false), fsel(filter@), contains, self.ids(), n),
        malformed(selector@) || (filter@.len() > 0 && malformed(filter@)) ==> r.ids().len() == 0,
        log_of(old(lg)@, malformed(selector@) || (filter@.len() > 0 && malformed(filter@)), self.ids(), final(lg)@),
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
    let ghost ok = !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@));
    proof { if ok { lemma_untils_one(Prev, procs(selector@, false), fsel(filter@), contains, self.ids(), r1); } else { assert(one_root(r1, 0)); } }
//@ at after result.sort_and_unique();
    proof { lemma_members_one(r1, result.ids()); if !ok { lemma_none_members(r1, result.ids()); } }
//@ fn mesdoc/interface/elements.rs Elements::parents_until
//@ prop C11 C03 C09
//@ ret r
//@ rule sigarg => lg: &mut Log
//@ rule text .select_with_comb_until( => .select_with_comb_until(lg, 
//@ header
    requires good(self.ids()),
    ensures
        good(r.ids()),
        !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@)) ==> forall|n: int| #[trigger] r.ids().contains(n) <==> collected(Parent, procs(selector@, false), fsel(filter@), contains, self.ids(), n),
        malformed(selector@) || (filter@.len() > 0 && malformed(filter@)) ==> r.ids().len() == 0,
        exists|u: Seq<int>| #[trigger] reps(self.ids(), u, true) && log_of(old(lg)@, malformed(selector@) || (filter@.len() > 0 && malformed(filter@)), u, final(lg)@),
//@ at before result.sort_and_unique();
    let ghost r1 = result.ids();
    let ghost ok = !malformed(selector@) && (filter@.len() == 0 || !malformed(filter@));
    proof {
        lemma_reps_one(self.ids(), uniques.ids(), true);
        if ok { lemma_untils_one(Parent, procs(selector@, false), fsel(filter@), contains, uniques.ids(), r1); lemma_until_reps(procs(selector@, false), fsel(filter@), contains, self.ids(), uniques.ids()); } else { assert(one_root(r1, 0)); }
    }
//@ at after result.sort_and_unique();
    proof { lemma_members_one(r1, result.ids()); if !ok { lemma_none_members(r1, result.ids()); } }
//@ at before let mut result
    proof { lemma_reps_one(self.ids(), uniques.ids(), true); }
//@ emit
}
impl Selector {
//@ fn mesdoc/selector/mod.rs Selector::head_combinator
//@ prop C11 C02
//@ header
    requires wfs(old(self)), plain(old(self).process@),
    ensures headeds(old(self).process@, comb, final(self).process@),
//@ loop 0
    invariant
        self.process@.len() == old(self).process@.len(), __i0 <= self.process@.len(), wfs(old(self)), plain(old(self).process@),
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.process@[j]).should_in is None && headed(old(self).process@[j].query@, comb, self.process@[j].query@),
        forall|j: int| __i0 <= j < self.process@.len() ==> #[trigger] self.process@[j] == old(self).process@[j],
//@ at loop-start 0
    let ghost q = p.query@;
    proof { assert(*p == old(self).process@[__i0 - 1]); assert(wfp(old(self).process@[__i0 - 1])); assert(old(self).process@[__i0 - 1].should_in is None); assert(wfr(q[0]@)); }
//@ emit
}
//@ emit
}
fn main() {}
