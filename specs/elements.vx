//@ emit
// ---------------------------------------------------------------- basics
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::with_node
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r.ids() == seq![id_of(ele)],
//@ rule text ..Default::default() => doc: None
//@ at end
    proof { assert(__r.ids() =~= seq![id_of(ele)]); }
//@ fn mesdoc/interface/elements.rs Elements::with_nodes
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r.ids() == ids(nodes@),
//@ rule text ..Default::default() => doc: None
//@ fn mesdoc/interface/elements.rs Elements::with_capacity
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r.ids() == Seq::<int>::empty(), r.nodes@.len() == 0,
//@ rule text ..Default::default() => doc: None
//@ at end
    proof { assert(__r.ids() =~= Seq::<int>::empty()); }
//@ fn mesdoc/interface/elements.rs Elements::new
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r.ids() == Seq::<int>::empty(), r.nodes@.len() == 0,
//@ rule text Default::default() => Elements { nodes: Vec::new(), doc: None }
//@ at end
    proof { assert(__r.ids() =~= Seq::<int>::empty()); }
//@ fn mesdoc/interface/elements.rs Elements::get
//@ prop C12
//@ ret r
//@ header
    ensures r == (if index < self.nodes@.len() { Some(&self.nodes@[index as int]) } else { None }),
//@ fn mesdoc/interface/elements.rs Elements::get_ref
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/elements.rs Elements::get_mut_ref
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures *r == old(self).nodes, final(self).nodes == *final(r),
//@ fn mesdoc/interface/elements.rs Elements::push
//@ prop C02 C03 C04 C11 C12
//@ header
    ensures final(self).nodes@ == old(self).nodes@.push(ele), final(self).ids() == old(self).ids().push(id_of(&ele)),
//@ at end
    proof { assert(self.ids() =~= old(self).ids().push(id_of(&ele))); }
//@ fn mesdoc/interface/elements.rs Elements::length
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r == self.nodes@.len(),
//@ fn mesdoc/interface/elements.rs Elements::is_empty
//@ prop C02 C03 C04 C11 C12
//@ ret r
//@ header
    ensures r == (self.nodes@.len() == 0),
//@ fn mesdoc/interface/elements.rs Elements::cloned
//@ prop C03 C04
//@ ret r
//@ header
    ensures r.ids() == self.ids(),
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), result.ids() == self.ids().take(__i0 as int),
//@ at loop-end 0
    proof { assert(self.ids().take(__i0 as int) =~= self.ids().take(__i0 - 1).push(self.ids()[__i0 - 1])); }
//@ at end
    proof { assert(__r.ids() =~= self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::includes
//@ prop C02 C04
//@ ret r
//@ header
    ensures r == self.ids().contains(id_of(ele)),
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        __f0 ==> self.ids().contains(id_of(ele)),
        !__f0 ==> forall|i: int| 0 <= i < __i0 ==> #[trigger] self.ids()[i] != id_of(ele),
//@ at loop-end 0
    proof { assert(self.ids()[__i0 - 1] == id_of(&self.nodes@[__i0 - 1])); }
//@ emit
}
