//@ include base.vx
global size_of usize == 8;
//@ include heap.vx
//@ include keep.vx
//@ include domlib.vx
//@ rule-all heap => 1
//@ rule-all hf Rc::clone => vx_rc
//@ rule-all hf Rc::downgrade => vx_weak
//@ rule-all hf Dom::halt => vx_halt
//@ rule-all hf reset_next_siblings_index => reset_next_siblings_index(&mut h.index)
//@ rule-all hf detach_childs => detach_childs(&mut h.parent)
//@ rule-all hm index => &h.index
//@ rule-all hm parent => &h.parent
//@ rule-all hm node_type => h
//@ rule-all hf Dom::validate_dom_change => validate_dom_change(h)
//@ rule-all hf remove_not_allowed_nodes => remove_not_allowed_nodes(h)
//@ rule-all mname extend => vx_extend
//@ rule-all mname splice => vx_splice
//@ rule-all text? Box<dyn Any> => AnyNode
//@ rule-all hm remove_child => h
//@ emit
impl<'a> Handle<'a> {
//@ contract dom.vx INodeTrait@Rc::node_type
//@ emit
}
//@ emit
// ---------------------------------------------------------------- the methods that read the tree, as the units over the static tree take them
impl<'a> Handle<'a> {
//@ fn lib.rs INodeTrait@Rc::clone_node
//@ prop C07 C11 C13
//@ ret r
//@ rule sig BoxDynNode<'b> => Handle<'b>
//@ rule text Box::new(self.clone()) => vx_rc(self)
//@ header
    ensures rid(&r) == rid(self),
//@ fn lib.rs IElementTrait@Rc::child_nodes_length
//@ prop C07 C11 C13
//@ ret r
//@ rule sigarg => h: &Heap
//@ rule optmap
//@ header
    ensures r == tree(h).k(rid(self)).len(),
//@ at start
    proof { axiom_alive(self); }
//@ fn lib.rs IElementTrait@Rc::child_nodes_item
//@ prop C07 C11 C13
//@ ret r
//@ rule sigarg => h: &Heap
//@ rule sig BoxDynNode<'b> => Handle<'b>
//@ rule optmap
//@ rule text Box::new(Rc::clone(node)) as BoxDynNode => vx_rc(node)
//@ header
    ensures
        index < tree(h).k(rid(self)).len() ==> r is Some && rid(&r->0) == tree(h).k(rid(self))[index as int],
        index >= tree(h).k(rid(self)).len() ==> r is None,
//@ at start
    proof { axiom_alive(self); }
//@ emit
}
//@ emit
/// a callback that is given elements: what it was given and what it answered, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Visitor<T>(std::marker::PhantomData<T>);
impl<T> View for Visitor<T> { type V = Seq<(int, T)>; uninterp spec fn view(&self) -> Seq<(int, T)>; }
impl<T> Visitor<T> {
    /// a call of the callback; it may answer anything
    #[verifier::external_body]
    fn call(&mut self, e: &Handle) -> (r: T)
        ensures final(self)@ == old(self)@.push((rid(e), r)),
    { unimplemented!() }
}
spec fn elem(h: &Heap) -> spec_fn(int) -> bool { |n: int| kind(h, n) is Element }
spec fn given<T>(s: Seq<(int, T)>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].0) }
/// new is old and then the elements s, asked in order until one said no
spec fn visited(old: Seq<(int, bool)>, new: Seq<(int, bool)>, s: Seq<int>) -> bool {
    &&& old.len() <= new.len() <= old.len() + s.len() && new.take(old.len() as int) == old
    &&& given(new.skip(old.len() as int)) == s.take(new.len() - old.len())
    &&& forall|i: int| old.len() <= i < new.len() - 1 ==> (#[trigger] new[i]).1
    &&& new.len() < old.len() + s.len() ==> new.len() > old.len() && !new.last().1
}
proof fn lemma_visit(old: Seq<(int, bool)>, new: Seq<(int, bool)>, s: Seq<int>, x: int, r: bool)
    requires visited(old, new, s), new.len() == old.len() + s.len(), new.len() == old.len() || new.last().1,
    ensures visited(old, new.push((x, r)), s.push(x)),
{
    let n2 = new.push((x, r));
    assert(n2.take(old.len() as int) =~= new.take(old.len() as int));
    assert(given(n2.skip(old.len() as int)) =~= s.push(x).take(n2.len() - old.len())) by {
        assert forall|i: int| 0 <= i < s.len() implies given(n2.skip(old.len() as int))[i] == s[i] by { assert(given(new.skip(old.len() as int))[i] == s.take(new.len() - old.len())[i]); }
    }
}
/// more elements behind one that said no are not asked
proof fn lemma_visit_stop(old: Seq<(int, bool)>, new: Seq<(int, bool)>, s: Seq<int>, t: Seq<int>)
    requires visited(old, new, s), new.len() > old.len(), !new.last().1,
    ensures visited(old, new, s + t),
{ assert((s + t).take(new.len() - old.len()) =~= s.take(new.len() - old.len())); }
proof fn lemma_filter_step(s: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).filter(f) == (if f(s[k]) { s.take(k).filter(f).push(s[k]) } else { s.take(k).filter(f) }), Seq::<int>::empty().filter(f) == Seq::<int>::empty(),
{
    reveal(Seq::filter);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(Seq::<int>::empty().filter(f) =~= Seq::empty());
}
proof fn lemma_filter_add(a: Seq<int>, b: Seq<int>, f: spec_fn(int) -> bool)
    ensures (a + b).filter(f) == a.filter(f) + b.filter(f),
    decreases b.len(),
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(a.filter(f) + b.filter(f) =~= a.filter(f)); }
    else {
        lemma_filter_add(a, b.drop_last(), f);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert((a + b).filter(f) =~= a.filter(f) + b.filter(f));
    }
}
impl<'z> Handle<'z> {
//@ fn lib.rs IElementTrait@Rc::children_by
//@ prop C07 C02 C11
//@ rule sigarg => h: &Heap
//@ rule sig Box<dyn FnMut(&dyn IElementTrait) + 'a> => &mut Visitor<()>
//@ rule text matcher(child) => matcher.call(child)
//@ header
    ensures given(final(matcher)@) == given(old(matcher)@) + tree(h).k(rid(self)).filter(elem(h)),
//@ at start
    let ghost s = tree(h).k(rid(self));
    let ghost o = matcher@;
    proof { axiom_alive(self); reveal(Seq::filter); assert(s.take(0) =~= Seq::<int>::empty()); assert(given(o) + Seq::<int>::empty() =~= given(o)); }
//@ loop 0
    invariant
        rids(__s0@) == s, __i0 <= __s0.len(), given(matcher@) == given(o) + s.take(__i0 as int).filter(elem(h)),
//@ at loop-start 0
    proof { lemma_filter_step(s, __i0 - 1, elem(h)); assert(rids(__s0@)[__i0 - 1] == rid(child)); }
    let ghost m0 = matcher@;
//@ at loop-end 0
    proof { if matcher@ != m0 { assert(given(matcher@) =~= given(m0).push(rid(child))); assert(given(matcher@) =~= given(o) + s.take(__i0 as int).filter(elem(h))); } }
//@ at loop-exit 0
    proof { assert(s.take(__i0 as int) =~= s); }
//@ fn lib.rs IElementTrait@Rc::child_nodes_item_since_by
//@ prop C07 C01 C16
//@ rule sigarg => h: &Heap
//@ rule sig Box<dyn FnMut(&dyn IElementTrait) -> bool + 'a> => &mut Visitor<bool>
//@ rule text handle(child) => handle.call(child)
//@ header
    requires
        node_index <= tree(h).k(rid(self)).len(),
        reverse ==> node_index < tree(h).k(rid(self)).len(),
    ensures
        !reverse ==> visited(old(handle)@, final(handle)@, tree(h).k(rid(self)).skip(node_index as int).filter(elem(h))),
        reverse ==> visited(old(handle)@, final(handle)@, tree(h).k(rid(self)).take(node_index + 1).reverse().filter(elem(h))),
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at start
    let ghost f = elem(h);
    let ghost o = handle@;
    let ghost ks = tree(h).k(rid(self));
    let ghost s = if reverse { ks.take(node_index + 1).reverse() } else { ks.skip(node_index as int) };
    proof {
        axiom_alive(self);
        assert(h.childs.get(rid(self)) is None ==> s =~= Seq::<int>::empty());
        assert(Seq::<int>::empty().filter(f) =~= Seq::<int>::empty()) by { reveal(Seq::filter); }
        assert(s.take(0) =~= Seq::<int>::empty());
        assert(o.take(o.len() as int) =~= o);
        assert(given(o.skip(o.len() as int)) =~= Seq::<int>::empty().take(0));
        assert(visited(o, o, Seq::<int>::empty()));
    }
//@ at pre-loop 0
    proof { assert(rids(__s0@).reverse() =~= s); }
//@ loop 0
    invariant_except_break
        visited(o, handle@, s.take(__i0 as int).filter(f)), handle@.len() == o.len() + s.take(__i0 as int).filter(f).len(),
        handle@.len() > o.len() ==> handle@.last().1,
    invariant
        __i0 <= __s0.len(), rids(__s0@).reverse() == s,
    ensures visited(o, handle@, s.filter(f)),
//@ at loop-start 0
    let ghost v = handle@;
    proof {
        lemma_filter_step(s, __i0 - 1, f);
        assert(rids(__s0@).reverse()[__i0 - 1] == rid(child));
        if f(rid(child)) {
            lemma_visit(o, v, s.take(__i0 - 1).filter(f), rid(child), true);
            lemma_visit(o, v, s.take(__i0 - 1).filter(f), rid(child), false);
            lemma_filter_add(s.take(__i0 as int), s.skip(__i0 as int), f);
            assert(s.take(__i0 as int) + s.skip(__i0 as int) =~= s);
            lemma_visit_stop(o, v.push((rid(child), false)), s.take(__i0 as int).filter(f), s.skip(__i0 as int).filter(f));
        }
    }
//@ at loop-end 0
    proof { assert(s.take(__s0@.len() as int) =~= s); }
//@ at loop-exit 0
    proof { assert(s.take(__s0@.len() as int) =~= s); assert(visited(o, handle@, s.filter(f))); }
//@ at pre-loop 1
    proof { assert(rids(__s1@) =~= s); }
//@ loop 1
    invariant_except_break
        visited(o, handle@, s.take(__i1 as int).filter(f)), handle@.len() == o.len() + s.take(__i1 as int).filter(f).len(),
        handle@.len() > o.len() ==> handle@.last().1,
    invariant
        __i1 <= __s1.len(), rids(__s1@) == s,
    ensures visited(o, handle@, s.filter(f)),
//@ at loop-start 1
    let ghost v = handle@;
    proof {
        lemma_filter_step(s, __i1 - 1, f);
        assert(rids(__s1@)[__i1 - 1] == rid(child));
        if f(rid(child)) {
            lemma_visit(o, v, s.take(__i1 - 1).filter(f), rid(child), true);
            lemma_visit(o, v, s.take(__i1 - 1).filter(f), rid(child), false);
            lemma_filter_add(s.take(__i1 as int), s.skip(__i1 as int), f);
            assert(s.take(__i1 as int) + s.skip(__i1 as int) =~= s);
            lemma_visit_stop(o, v.push((rid(child), false)), s.take(__i1 as int).filter(f), s.skip(__i1 as int).filter(f));
        }
    }
//@ at loop-end 1
    proof { assert(s.take(__s1@.len() as int) =~= s); }
//@ at loop-exit 1
    proof { assert(s.take(__s1@.len() as int) =~= s); assert(visited(o, handle@, s.filter(f))); }
//@ emit
}
//@ emit
type BoxDynText<'a> = Handle<'a>;
type BoxDynUncareNode<'a> = Handle<'a>;
//@ item mesdoc/interface/node.rs IEnumTyped
//@ emit
impl<'a> Handle<'a> {
//@ fn lib.rs INodeTrait@Rc::typed
//@ prop C07 C11 C13
//@ ret r
//@ rule sigarg => h: &Heap
//@ rule sig self: Box<Self> => self
//@ rule text self as BoxDynElement => vx_rc(&self)
//@ rule text self as BoxDynText => vx_rc(&self)
//@ rule text self as BoxDynUncareNode => vx_rc(&self)
//@ header
    ensures
        kind(h, rid(&self)) is Element ==> (r matches IEnumTyped::Element(e) && rid(&e) == rid(&self)),
        kind(h, rid(&self)) is Text ==> (r matches IEnumTyped::Text(e) && rid(&e) == rid(&self)),
        (kind(h, rid(&self)) is Document || kind(h, rid(&self)) is DocumentFragement) ==> (r matches IEnumTyped::Element(e) && rid(&e) == rid(&self)),
//@ fn lib.rs IElementTrait@Rc::is_root_element
//@ prop C07 C16
//@ ret r
//@ rule sigarg => h: &Heap
//@ header
    ensures r == (h.node_type.get(rid(self)) is AbstractRoot),
//@ emit
}
//@ emit
}
fn main() {}
