//@ emit
// ---------------------------------------------------------------- parsing, as a function of the text
/// the parsed list, with or without the split at the compound of highest priority
uninterp spec fn procs(text: Seq<char>, split: bool) -> Seq<QueryProcess>;
uninterp spec fn malformed(text: Seq<char>) -> bool;
#[verifier::external_body]
struct Error;
type BoxDynError = Box<Error>;
#[verifier::external_body]
fn vx_error() -> Error { unimplemented!() }
#[verifier::external_body]
fn vx_err() -> BoxDynError { unimplemented!() }
/// TRUSTED: the error of a result that is one
#[verifier::external_body]
fn vx_unwrap_err<T>(r: Result<T, Error>) -> (e: Error)
    requires r is Err,
{ unimplemented!() }
impl Selector {
    /// ASSUMED: parsing is a function of the text and gives lists of the form that `optimize` makes (checked by the bounded part)
    #[verifier::external_body]
    fn from_str(context: &str, use_lookup: bool) -> (r: Result<Selector, Error>)
        ensures
            r is Err == malformed(context@),
            r matches Ok(s) ==> s.process@ == procs(context@, use_lookup) && wfs(&s) && (!use_lookup ==> wff(&s) && plain(s.process@)),
    { unimplemented!() }
}
spec fn plain(ps: Seq<QueryProcess>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).should_in is None }
// ---------------------------------------------------------------- reports to the error handler of the document
/// the calls of error handlers, in order
#[verifier::external_body]
struct Log;
impl View for Log { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
/// the document a node belongs to, and the error handler installed there
uninterp spec fn owner(n: int) -> Option<int>;
uninterp spec fn handler(d: int) -> Option<int>;
uninterp spec fn doc_id(d: &Doc) -> int;
/// an error handler given by the user
#[verifier::external_body]
struct ErrHandle(());
uninterp spec fn handle_id(h: &ErrHandle) -> int;
impl ErrHandle {
    /// TRUSTED: a call of the handler; it does not change the tree
    #[verifier::external_body]
    fn call(&self, lg: &mut Log, error: BoxDynError)
        ensures final(lg)@ == old(lg)@.push(handle_id(self)),
    { unimplemented!() }
}
impl<'a> Doc<'a> {
    /// TRUSTED: reads the handler of the document
    #[verifier::external_body]
    fn onerror(&self) -> (r: Option<ErrHandle>)
        ensures r is Some == (handler(doc_id(self)) is Some), r matches Some(h) ==> handler(doc_id(self)) == Some(handle_id(&h)),
    { unimplemented!() }
}
impl<'a> Ele<'a> {
    /// TRUSTED: goes to the document by the root link
    #[verifier::external_body]
    fn owner_document(&self) -> (r: MaybeDoc<'_>)
        ensures r is Some == (owner(id_of(self)) is Some), r matches Some(d) ==> owner(id_of(self)) == Some(doc_id(&d)),
    { unimplemented!() }
}
/// the document of a set is that of its first element that has one
spec fn first_owner(s: Seq<int>, k: int) -> Option<int>
    decreases k,
{
    if k <= 0 { None } else { match first_owner(s, k - 1) { Some(d) => Some(d), None => owner(s[k - 1]) } }
}
/// what is reported for a set: one call of its document's handler, if there is one
spec fn told(s: Seq<int>) -> Seq<int> {
    match first_owner(s, s.len() as int) { Some(d) => match handler(d) { Some(h) => seq![h], None => Seq::empty() }, None => Seq::empty() }
}
/// a report exactly for bad text
spec fn log_of(old: Seq<int>, bad: bool, s: Seq<int>, new: Seq<int>) -> bool { new == (if bad { old + told(s) } else { old }) }
// ---------------------------------------------------------------- `*`
uninterp spec fn all_matcher() -> Matcher;
/// ASSUMED: `*` holds for every node (rules/all.rs gives back the whole set)
axiom fn axiom_all()
    ensures wf(&all_matcher()), forall|n: int| #[trigger] mt(&all_matcher(), n);
impl Selector {
    /// TRUSTED: looks the rule of `*` up in the table
    #[verifier::external_body]
    fn make_comb_all(comb: Combinator) -> (r: SelectorSegment)
        ensures r == (all_matcher(), comb),
    { unimplemented!() }
//@ contract parse.vx Selector::from_segment
//@ emit
}
proof fn lemma_all(c: Combinator, s: Seq<int>, ps: Seq<QueryProcess>)
    requires
        ps.len() == 1, ps[0].should_in is None, ps[0].query@.len() == 1, ps[0].query@[0]@ == seq![(all_matcher(), c)],
    ensures
        wfp(ps[0]), forall|n: int| #[trigger] found(s, ps, 1, n) == from(s, c, n),
{
    axiom_all();
    let q = ps[0].query@;
    let rs = q[0]@;
    assert(rs[0] == (all_matcher(), c));
    assert forall|n: int| #[trigger] found(s, ps, 1, n) == from(s, c, n) by {
        assert(cm(rs, n)) by { assert forall|i: int| 0 <= i < rs.len() implies mt(&(#[trigger] rs[i]).0, n) by { assert(rs[i] == rs[0]); assert(mt(&all_matcher(), n)); } }
        assert(full(ps[0]) == q);
        lemma_reach(s, q, 0, n);
        if from(s, c, n) { let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], n); assert(s.contains(s[i])); assert(reach(s, q, 0, s[i])); assert(reach(s, full(ps[0]), 1, n)); }
        if found(s, ps, 1, n) {
            let j = choose|j: int| 0 <= j < 1 && reach(s, full(#[trigger] ps[j]), full(ps[j]).len() as int, n);
            assert(j == 0);
            let m = choose|m: int| #[trigger] reach(s, q, 0, m) && rel(c, m, n);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == m;
            assert(rel(c, s[i], n));
        }
    }
}
// ---------------------------------------------------------------- the head of a selector
/// t: the list q with c in front of it
spec fn headed(q: Seq<Vec<SelectorSegment>>, c: Combinator, t: Seq<Vec<SelectorSegment>>) -> bool {
    if q[0]@[0].1 is ChildrenAll {
        t.len() == q.len() && t[0]@ == q[0]@.update(0, (q[0]@[0].0, c)) && forall|i: int| 1 <= i < q.len() ==> (#[trigger] t[i])@ == q[i]@
    } else {
        t.len() == q.len() + 1 && t[0]@ == seq![(all_matcher(), c)] && forall|i: int| 1 <= i < t.len() ==> (#[trigger] t[i])@ == q[i - 1]@
    }
}
spec fn headeds(ps: Seq<QueryProcess>, c: Combinator, ts: Seq<QueryProcess>) -> bool {
    ps.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).should_in is None && headed(ps[i].query@, c, ts[i].query@)
}
proof fn lemma_members_one(a: Seq<int>, b: Seq<int>)
    requires one(a), els(a), same_members(a, b),
    ensures one(b), els(b),
{
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies root(#[trigger] b[i]) == root(#[trigger] b[j]) by {
        let x = choose|x: int| 0 <= x < a.len() && a[x] == b[i];
        let y = choose|y: int| 0 <= y < a.len() && a[y] == b[j];
        assert(root(a[x]) == root(a[y]));
    }
    assert forall|i: int| 0 <= i < b.len() implies is_el(#[trigger] b[i]) || par(b[i]) is None by {
        let x = choose|x: int| 0 <= x < a.len() && a[x] == b[i];
        assert(is_el(a[x]) || par(a[x]) is None);
    }
}
proof fn lemma_reps_one(s: Seq<int>, u: Seq<int>, asc: bool)
    requires good(s), reps(s, u, asc),
    ensures good(u),
{
    assert forall|i: int| 0 <= i < u.len() implies root(#[trigger] u[i]) == root(s[0]) && (is_el(u[i]) || par(u[i]) is None) by {
        assert(s.contains(u[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == u[i];
        assert(root(s[j]) == root(s[0]));
        assert(is_el(s[j]) || par(s[j]) is None);
    }
}
// ---------------------------------------------------------------- a move along a combinator, filtered by a selector
spec fn from_fn(s: Seq<int>, c: Combinator) -> spec_fn(int) -> bool { |n: int| from(s, c, n) }
/// n is reached through the first k compounds of q when b says where the move leads
spec fn hreach(b: spec_fn(int) -> bool, q: Seq<Vec<SelectorSegment>>, k: int, n: int) -> bool
    decreases k,
{
    if k <= 0 { b(n) }
    else if k == 1 && q[0]@[0].1 is ChildrenAll { cm(q[0]@, n) && b(n) }
    else { cm(q[k - 1]@, n) && exists|m: int| hreach(b, q, k - 1, m) && #[trigger] rel(q[k - 1]@[0].1, m, n) }
}
/// n is reached by the move and described by one of the list
spec fn moved(b: spec_fn(int) -> bool, ps: Seq<QueryProcess>, n: int) -> bool { exists|i: int| 0 <= i < ps.len() && hreach(b, (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n) }
/// the same from the text of the selector; an empty one filters nothing
spec fn moved_by(b: spec_fn(int) -> bool, text: Seq<char>, n: int) -> bool { if text.len() == 0 { b(n) } else { !malformed(text) && moved(b, procs(text, false), n) } }
proof fn lemma_headed(s: Seq<int>, c: Combinator, q: Seq<Vec<SelectorSegment>>, t: Seq<Vec<SelectorSegment>>, k: int, n: int)
    requires q.len() > 0, wfq(q), headed(q, c, t), 0 <= k <= t.len(), q[0]@[0].1 is ChildrenAll ==> k >= 1, !(q[0]@[0].1 is ChildrenAll) ==> k >= 1,
    ensures reach(s, t, k, n) == hreach(from_fn(s, c), q, if q[0]@[0].1 is ChildrenAll { k } else { k - 1 }, n),
    decreases k,
{
    axiom_all();
    let b = from_fn(s, c);
    let all = q[0]@[0].1 is ChildrenAll;
    let d = if all { 0int } else { 1int };
    assert(wfr(q[0]@));
    lemma_reach(s, t, k - 1, n);
    if k == 1 {
        assert(t[0]@[0].1 == c);
        assert(cm(t[0]@, n) == (if all { cm(q[0]@, n) } else { true })) by {
            if all {
                if cm(t[0]@, n) { assert forall|i: int| 0 <= i < q[0]@.len() implies mt(&(#[trigger] q[0]@[i]).0, n) by { assert(mt(&t[0]@[i].0, n)); } }
                if cm(q[0]@, n) { assert forall|i: int| 0 <= i < t[0]@.len() implies mt(&(#[trigger] t[0]@[i]).0, n) by { assert(mt(&q[0]@[i].0, n)); } }
            } else {
                assert forall|i: int| 0 <= i < t[0]@.len() implies mt(&(#[trigger] t[0]@[i]).0, n) by { assert(t[0]@[i].0 == all_matcher()); }
            }
        }
        if reach(s, t, 1, n) {
            let m = choose|m: int| #[trigger] reach(s, t, 0, m) && rel(c, m, n);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == m;
            assert(rel(c, s[i], n));
        }
        if from(s, c, n) { let i = choose|i: int| 0 <= i < s.len() && rel(c, #[trigger] s[i], n); assert(s.contains(s[i])); assert(reach(s, t, 0, s[i])); }
    } else {
        assert(t[k - 1]@ == q[k - 1 - d]@);
        assert forall|m: int| #[trigger] reach(s, t, k - 1, m) == hreach(b, q, k - 1 - d, m) by { lemma_headed(s, c, q, t, k - 1, m); }
        let co = t[k - 1]@[0].1;
        if reach(s, t, k, n) { let m = choose|m: int| #[trigger] reach(s, t, k - 1, m) && rel(co, m, n); assert(hreach(b, q, k - 1 - d, m) && rel(q[k - d - 1]@[0].1, m, n)); }
        if hreach(b, q, k - d, n) {
            let m = choose|m: int| hreach(b, q, k - d - 1, m) && #[trigger] rel(q[k - d - 1]@[0].1, m, n);
            assert(reach(s, t, k - 1, m));
        }
    }
}
proof fn lemma_headeds(s: Seq<int>, c: Combinator, ps: Seq<QueryProcess>, ts: Seq<QueryProcess>)
    requires headeds(ps, c, ts), plain(ps), forall|i: int| 0 <= i < ps.len() ==> wfp(#[trigger] ps[i]),
    ensures
        forall|i: int| 0 <= i < ts.len() ==> wfp(#[trigger] ts[i]),
        forall|n: int| #[trigger] found(s, ts, ts.len() as int, n) == moved(from_fn(s, c), ps, n),
{
    axiom_all();
    assert forall|i: int| 0 <= i < ts.len() implies wfp(#[trigger] ts[i]) by {
        let q = ps[i].query@;
        let t = ts[i].query@;
        assert(wfp(ps[i]));
        assert(headed(q, c, t));
        let all = q[0]@[0].1 is ChildrenAll;
        assert(wfr(q[0]@));
        assert forall|j: int| 0 <= j < t.len() implies wfr(#[trigger] t[j]@) by { if j > 0 { if all { assert(t[j]@ == q[j]@); assert(wfr(q[j]@)); } else { assert(t[j]@ == q[j - 1]@); assert(wfr(q[j - 1]@)); } } }
    }
    assert forall|n: int| #[trigger] found(s, ts, ts.len() as int, n) == moved(from_fn(s, c), ps, n) by {
        if found(s, ts, ts.len() as int, n) {
            let i = choose|i: int| 0 <= i < ts.len() && reach(s, full(#[trigger] ts[i]), full(ts[i]).len() as int, n);
            assert(wfp(ps[i]));
            assert(headed(ps[i].query@, c, ts[i].query@));
            lemma_headed(s, c, ps[i].query@, ts[i].query@, ts[i].query@.len() as int, n);
        }
        if moved(from_fn(s, c), ps, n) {
            let i = choose|i: int| 0 <= i < ps.len() && hreach(from_fn(s, c), (#[trigger] ps[i]).query@, ps[i].query@.len() as int, n);
            assert(wfp(ps[i]));
            assert(ts[i].should_in is None);
            assert(headed(ps[i].query@, c, ts[i].query@));
            lemma_headed(s, c, ps[i].query@, ts[i].query@, ts[i].query@.len() as int, n);
        }
    }
}
/// below e there is an element with f
spec fn below(e: int, f: spec_fn(int) -> bool) -> bool { exists|n: int| #[trigger] anc(e, n) && is_el(n) && f(n) }
spec fn inside(b: Seq<int>) -> spec_fn(int) -> bool { |n: int| b.contains(n) }
