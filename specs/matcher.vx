//@ emit
// ---------------------------------------------------------------- matchers
/// one compiled simple selector: the three forms are closures behind `Box<dyn Fn>`
#[verifier::external_body]
struct MatchAllHandle;
#[verifier::external_body]
struct MatchOneHandle;
#[verifier::external_body]
struct MatchSpecifiedHandle;
//@ item mesdoc/selector/rule.rs Matcher
//@ item mesdoc/selector/mod.rs SelectorSegment
//@ emit
/// what the closure says about a node
uninterp spec fn one_f(h: &MatchOneHandle, n: int) -> bool;
uninterp spec fn all_f(h: &MatchAllHandle, n: int) -> bool;
uninterp spec fn spec_f(h: &MatchSpecifiedHandle, n: int) -> bool;
/// the simple selector holds for n
spec fn mt(m: &Matcher, n: int) -> bool {
    match m.one_handle { Some(h) => one_f(&h, n), None => all_f(&m.all_handle->0, n) }
}
/// ASSUMED of every matcher (the rules of rules/*.rs): its forms agree
spec fn wf(m: &Matcher) -> bool {
    &&& m.one_handle is Some || m.all_handle is Some
    &&& m.one_handle matches Some(h) ==> (m.all_handle matches Some(g) ==> forall|n: int| #[trigger] one_f(&h, n) == all_f(&g, n))
    &&& m.specified_handle matches Some(h) ==> (m.one_handle is None ==> forall|n: int| #[trigger] spec_f(&h, n) == all_f(&m.all_handle->0, n))
    &&& m.in_cache ==> m.all_handle is Some
}
spec fn all_fn(h: &MatchAllHandle) -> spec_fn(int) -> bool { |n: int| all_f(h, n) }
spec fn one_fn(h: &MatchOneHandle) -> spec_fn(int) -> bool { |n: int| one_f(h, n) }
spec fn mt_fn(m: &Matcher) -> spec_fn(int) -> bool { |n: int| mt(m, n) }
/// `Some(true)`: looked up by id, anywhere below the elements
spec fn cached(s: Seq<int>, f: spec_fn(int) -> bool, r: Seq<int>) -> bool {
    &&& forall|n: int| #[trigger] r.contains(n) ==> f(n) && is_el(n) && (s.len() > 0 && root(n) == root(s[0]))
    &&& forall|n: int| f(n) && #[trigger] from(s, ChildrenAll, n) ==> r.contains(n)
}
impl MatchOneHandle {
    /// ASSUMED here, proved for the rules under contract in the units cond and pseudo
    #[verifier::external_body]
    fn call(&self, e: &Ele, c: Option<bool>) -> (r: bool)
        ensures r == one_f(self, id_of(e)),
    { unimplemented!() }
}
impl MatchAllHandle {
    /// ASSUMED here, proved for the rules under contract in units pseudo and ident
    #[verifier::external_body]
    fn call<'r>(&self, eles: &Elements<'r>, c: Option<bool>) -> (r: Elements<'r>)
        requires
            c != Some(true) ==> grouped(eles.ids()) && els(eles.ids()),
            c == Some(true) ==> good(eles.ids()),
            c == Some(false) ==> exists|p: int| eles.ids() == elkids(p),
        ensures
            c != Some(true) ==> matching(eles.ids(), all_fn(self), r.ids()),
            c == Some(true) ==> cached(eles.ids(), all_fn(self), r.ids()),
    { unimplemented!() }
}
/// the child elements of e, in order, each with the answer, and all to be searched further; or none at all, by one that selects nothing
spec fn visits(h: &MatchSpecifiedHandle, e: int, v: Seq<(Ele, bool, bool)>) -> bool {
    &&& v.len() == elkids(e).len() || (v.len() == 0 && forall|n: int| !#[trigger] spec_f(h, n))
    &&& forall|i: int| 0 <= i < v.len() ==> id_of(&(#[trigger] v[i]).0) == elkids(e)[i] && v[i].1 == spec_f(h, elkids(e)[i]) && v[i].2
}
/// ASSUMED here, proved for the rules in unit pseudo: the calls that a specified handle makes (`:root` has a one_handle, which is always taken first)
#[verifier::external_body]
fn vx_visits<'b>(h: &MatchSpecifiedHandle, e: &Ele) -> (r: Vec<(Ele<'b>, bool, bool)>)
    ensures visits(h, id_of(e), r@),
{ unimplemented!() }
/// the calls that `children_by` makes: one for every child element, in order (proved in unit domread)
#[verifier::external_body]
fn vx_children<'b>(e: &Ele) -> (r: Vec<Ele<'b>>)
    ensures ids(r@) == elkids(id_of(e)),
{ unimplemented!() }
/// TRUSTED: Vec::extend with the elements of another set
#[verifier::external_body]
fn vx_extend<'a>(v: &mut Vec<Ele<'a>>, e: Elements<'a>)
    ensures ids(final(v)@) == ids(old(v)@) + e.ids(),
{ unimplemented!() }
