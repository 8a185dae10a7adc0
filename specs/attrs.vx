//@ include base.vx
global size_of usize == 8;
//@ include heapattr.vx
//@ emit
impl Heap {
    /// assumed here, proved in unit `attr`: IElementTrait::remove_attribute
    #[verifier::external_body]
    fn remove_attribute(&mut self, ele: &Ele, name: &str)
        ensures
            attr(final(self), id_of(ele), lower(name@)) is None,
            forall|i: int, n: Seq<char>| i != id_of(ele) || n != lower(name@) ==> #[trigger] attr(final(self), i, n) == attr(old(self), i, n),
    { unimplemented!() }
}
spec fn in_set(nodes: Seq<Ele>, id: int) -> bool { exists|i: int| 0 <= i < nodes.len() && id_of(&#[trigger] nodes[i]) == id }
/// every element of the set has v as its attribute n, everything else is as before
spec fn set_to(h0: &Heap, h1: &Heap, nodes: Seq<Ele>, name: Seq<char>, v: Option<AttrV>) -> bool {
    forall|i: int, n: Seq<char>| #[trigger] attr(h1, i, n) == (if in_set(nodes, i) && n == name { v } else { attr(h0, i, n) })
}
proof fn lemma_set_none(h: &Heap, nodes: Seq<Ele>, name: Seq<char>, v: Option<AttrV>)
    requires nodes.len() == 0,
    ensures set_to(h, h, nodes, name, v),
{}
proof fn lemma_set_step(h0: &Heap, h1: &Heap, h2: &Heap, nodes: Seq<Ele>, e: &Ele, name: Seq<char>, v: Option<AttrV>)
    requires
        set_to(h0, h1, nodes, name, v), attr(h2, id_of(e), name) == v,
        forall|i: int, n: Seq<char>| i != id_of(e) || n != name ==> #[trigger] attr(h2, i, n) == attr(h1, i, n),
    ensures set_to(h0, h2, nodes.push(*e), name, v),
{
    let l = nodes.push(*e);
    assert forall|i: int, n: Seq<char>| #[trigger] attr(h2, i, n) == (if in_set(l, i) && n == name { v } else { attr(h0, i, n) }) by {
        if in_set(nodes, i) { let k = choose|k: int| 0 <= k < nodes.len() && id_of(&#[trigger] nodes[k]) == i; assert(l[k] == nodes[k]); }
        if in_set(l, i) { let k = choose|k: int| 0 <= k < l.len() && id_of(&#[trigger] l[k]) == i; if k < nodes.len() { assert(l[k] == nodes[k]); } else { assert(l[k] == *e); } }
        assert(l[nodes.len() as int] == *e);
        assert(attr(h1, i, n) == (if in_set(nodes, i) && n == name { v } else { attr(h0, i, n) }));
    }
}
impl<'a> Ele<'a> {
//@ fn mesdoc/interface/element.rs trait:IElementTrait::has_attribute
//@ prop C06
//@ ret r
//@ rule sig &self => &self, __h: &Heap
//@ rule method get_attribute => __h.get_attribute(val)
//@ header
    ensures r == (attr(__h, id_of(self), lower(name@)) is Some),
//@ emit
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::get_ref
//@ prop C06
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/elements.rs Elements::get
//@ prop C06
//@ ret r
//@ header
    ensures r == (if index < self.nodes@.len() { Some(&self.nodes@[index as int]) } else { None }),
//@ fn mesdoc/interface/elements.rs Elements::attr
//@ prop C06
//@ ret r
//@ rule sig &self => &self, __h: &Heap
//@ rule method get_attribute => __h.get_attribute(val)
//@ header
    ensures abs_val(r) == (if self.nodes@.len() > 0 { attr(__h, id_of(&self.nodes@[0]), lower(attr_name@)) } else { None }),
//@ fn mesdoc/interface/elements.rs Elements::has_attr
//@ prop C06
//@ ret r
//@ rule sig &self => &self, __h: &Heap
//@ rule hm has_attribute => __h
//@ rule method get_attribute => __h.get_attribute(val)
//@ header
    ensures r <==> exists|i: int| 0 <= i < self.nodes@.len() && attr(__h, id_of(&#[trigger] self.nodes@[i]), lower(attr_name@)) is Some,
//@ loop 0 ref
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        forall|i: int| 0 <= i < __i0 ==> attr(__h, id_of(&#[trigger] self.nodes@[i]), lower(attr_name@)) is None,
//@ fn mesdoc/interface/elements.rs Elements::set_attr
//@ prop C06
//@ ret r
//@ rule sig &mut self => &self, __h: &mut Heap
//@ rule sig &mut Self => &Self
//@ rule text self.get_mut_ref() => self.get_ref()
//@ rule method set_attribute => __h.set_attribute(val)
//@ header
    ensures
        *r == *self,
        set_to(old(__h), final(__h), self.nodes@, lower(attr_name@), Some(match value { Some(v) => AttrV::Value(stored(v@)), None => AttrV::True })),
//@ at start
    let ghost h0 = *__h;
    let ghost v = Some(match value { Some(v) => AttrV::Value(stored(v@)), None => AttrV::True });
    let ghost name = lower(attr_name@);
    proof { lemma_set_none(&h0, self.nodes@.take(0), name, v); }
//@ loop 0 ref
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), name == lower(attr_name@),
        v == Some(match value { Some(v) => AttrV::Value(stored(v@)), None => AttrV::True }),
        set_to(&h0, __h, self.nodes@.take(__i0 as int), name, v),
//@ at loop-start 0
    let ghost h1 = *__h;
//@ at loop-end 0
    proof {
        lemma_set_step(&h0, &h1, __h, self.nodes@.take(__i0 - 1), ele, name, v);
        assert(self.nodes@.take(__i0 as int) =~= self.nodes@.take(__i0 - 1).push(*ele));
    }
//@ at loop-exit 0
    proof { assert(self.nodes@.take(__i0 as int) =~= self.nodes@); }
//@ fn mesdoc/interface/elements.rs Elements::remove_attr
//@ prop C06
//@ ret r
//@ rule sig &mut self => &self, __h: &mut Heap
//@ rule sig &mut Self => &Self
//@ rule text self.get_mut_ref() => self.get_ref()
//@ rule method remove_attribute => __h.remove_attribute(val)
//@ header
    ensures
        *r == *self,
        set_to(old(__h), final(__h), self.nodes@, lower(attr_name@), None),
//@ at start
    let ghost h0 = *__h;
    let ghost name = lower(attr_name@);
    proof { lemma_set_none(&h0, self.nodes@.take(0), name, None); }
//@ loop 0 ref
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), name == lower(attr_name@),
        set_to(&h0, __h, self.nodes@.take(__i0 as int), name, None),
//@ at loop-start 0
    let ghost h1 = *__h;
//@ at loop-end 0
    proof {
        lemma_set_step(&h0, &h1, __h, self.nodes@.take(__i0 - 1), ele, name, None);
        assert(self.nodes@.take(__i0 as int) =~= self.nodes@.take(__i0 - 1).push(*ele));
    }
//@ at loop-exit 0
    proof { assert(self.nodes@.take(__i0 as int) =~= self.nodes@); }
//@ emit
}
//@ emit
}
fn main() {}
