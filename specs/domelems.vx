// ---------------------------------------------------------------- sets of handles, and calls made on each in turn
/// a document
#[verifier::external_body]
struct Doc<'a>(std::marker::PhantomData<&'a ()>);
type MaybeDoc<'a> = Option<Doc<'a>>;
//@ item mesdoc/interface/elements.rs Elements
//@ emit
spec fn hids<'a>(s: Seq<Handle<'a>>) -> Seq<int> { Seq::new(s.len(), |i: int| rid(&s[i])) }
impl<'a> Elements<'a> {
    spec fn ids(&self) -> Seq<int> { hids(self.nodes@) }
}
/// f leads from one state to the next for every item of w, from the first to the last
spec fn run(f: spec_fn(Heap, Heap, int) -> bool, a: Heap, b: Heap, w: Seq<int>) -> bool
    decreases w.len(),
{
    if w.len() == 0 { a == b } else { exists|m: Heap| run(f, a, m, w.drop_last()) && #[trigger] f(m, b, w.last()) }
}
proof fn lemma_run_none(f: spec_fn(Heap, Heap, int) -> bool, a: Heap)
    ensures run(f, a, a, Seq::<int>::empty()),
{}
proof fn lemma_run_step(f: spec_fn(Heap, Heap, int) -> bool, a: Heap, m: Heap, b: Heap, w: Seq<int>, x: int)
    requires run(f, a, m, w), f(m, b, x),
    ensures run(f, a, b, w.push(x)),
{
    let v = w.push(x);
    assert(v.drop_last() =~= w);
    assert(v.last() == x);
    assert(run(f, a, m, v.drop_last()) && f(m, b, v.last()));
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::get_ref
//@ prop C07 C08 C13
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/elements.rs Elements::get_mut_ref
//@ prop C07 C08 C13
//@ ret r
//@ header
    ensures *r == old(self).nodes, final(self).nodes == *final(r),
//@ emit
}
