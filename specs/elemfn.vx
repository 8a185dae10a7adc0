//@ emit
// ---------------------------------------------------------------- moves of one element (element.rs, trait default methods)
proof fn lemma_filter_at(s: Seq<int>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).filter(el()) == (if is_el(s[k]) { s.take(k).filter(el()).push(s[k]) } else { s.take(k).filter(el()) }),
{
    reveal(Seq::filter);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
proof fn lemma_filter_sub(s: Seq<int>, a: int, k: int)
    requires 0 <= a <= k < s.len(),
    ensures s.subrange(a, k + 1).filter(el()) == (if is_el(s[k]) { s.subrange(a, k).filter(el()).push(s[k]) } else { s.subrange(a, k).filter(el()) }),
{
    reveal(Seq::filter);
    assert(s.subrange(a, k + 1).drop_last() =~= s.subrange(a, k));
}
proof fn lemma_filter_none(s: Seq<int>)
    requires s.len() == 0,
    ensures s.filter(el()) == Seq::<int>::empty(),
{ reveal(Seq::filter); }
spec fn nexts(n: int) -> Seq<int> {
    match par(n) { Some(p) => kids(p).subrange(idx(n) + 1, kids(p).len() as int).filter(el()), None => Seq::empty() }
}
spec fn prevs(n: int) -> Seq<int> {
    match par(n) { Some(p) => kids(p).subrange(0, idx(n) as int).filter(el()), None => Seq::empty() }
}
impl<'a> IEnumTyped<'a> {
//@ fn mesdoc/interface/node.rs IEnumTyped::into_element
//@ prop C11
//@ ret r
//@ header
    ensures r == (match self { IEnumTyped::Element(e) => Some(e), _ => None }),
//@ emit
}
impl<'a> Ele<'a> {
//@ fn mesdoc/interface/element.rs trait:IElementTrait::children
//@ prop C11 C02
//@ ret r
//@ header
    ensures r.ids() == elkids(id_of(self)),
//@ at start
    let ghost s = kids(id_of(self));
    proof { lemma_filter_none(s.take(0)); axiom_tree(id_of(self)); }
//@ loop 0
    invariant
        s == kids(id_of(self)), __a0 == 0, __e0 == total, total == s.len(), __i0 <= total,
        result.ids() == s.take(__i0 as int).filter(el()),
//@ at loop-start 0
    proof { lemma_filter_at(s, index as int); }
//@ at loop-exit 0
    proof { assert(s.take(total as int) =~= s); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::next_element_sibling
//@ prop C11 C02
//@ ret r
//@ header
    ensures
        r is None == (nexts(id_of(self)).len() == 0),
        r matches Some(e) ==> id_of(&e) == nexts(id_of(self))[0],
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    proof { axiom_tree(id_of(self)); if par(id_of(self)) is Some { axiom_tree(par(id_of(self))->0); } }
//@ at before for cur_index
    let ghost p = id_of(parent);
    let ghost s = kids(p);
    proof { lemma_filter_none(s.subrange(index + 1, index + 1)); }
//@ loop 0
    invariant
        total == s.len(), __e0 == total, __a0 == index + 1, index < total, index + 1 <= __i0 <= total,
        s.subrange(index + 1, __i0 as int).filter(el()).len() == 0,
//@ at loop-start 0
    proof {
        lemma_filter_sub(s, index + 1, cur_index as int);
        if is_el(s[cur_index as int]) { lemma_first(s, index + 1, cur_index as int); }
    }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::next_element_siblings
//@ prop C11 C02
//@ ret r
//@ header
    ensures r.ids() == nexts(id_of(self)),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    proof { axiom_tree(id_of(self)); if par(id_of(self)) is Some { axiom_tree(par(id_of(self))->0); } }
//@ at before for cur_index
    let ghost s = kids(id_of(parent));
    proof { lemma_filter_none(s.subrange(index + 1, index + 1)); }
//@ loop 0
    invariant
        total == s.len(), __e0 == total, __a0 == index + 1, index < total, index + 1 <= __i0 <= total,
        result.ids() == s.subrange(index + 1, __i0 as int).filter(el()),
//@ at loop-start 0
    proof { lemma_filter_sub(s, index + 1, cur_index as int); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::previous_element_sibling
//@ prop C11 C02
//@ ret r
//@ header
    ensures
        r is None == (prevs(id_of(self)).len() == 0),
        r matches Some(e) ==> id_of(&e) == prevs(id_of(self)).last(),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    proof { axiom_tree(id_of(self)); if par(id_of(self)) is Some { axiom_tree(par(id_of(self))->0); } }
//@ at before if index > 0
    let ghost s = kids(id_of(parent));
    proof { lemma_filter_none(s.subrange(0, 0)); }
//@ loop 0
    invariant
        __e0 == index, __a0 == 0, index < s.len(), __i0 <= index,
        s.subrange(0, __i0 as int).filter(el()) == prevs(id_of(self)),
//@ at loop-start 0
    proof { lemma_filter_sub(s, 0, cur_index as int); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::previous_element_siblings
//@ prop C11 C02
//@ ret r
//@ header
    ensures r.ids() == prevs(id_of(self)),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    proof { axiom_tree(id_of(self)); if par(id_of(self)) is Some { axiom_tree(par(id_of(self))->0); } }
//@ at before if index > 0
    let ghost s = kids(id_of(parent));
    proof { lemma_filter_none(s.subrange(0, 0)); }
//@ loop 0
    invariant
        __e0 == index, __a0 == 0, index < s.len(), __i0 <= index,
        result.ids() == s.subrange(0, __i0 as int).filter(el()),
//@ at loop-start 0
    proof { lemma_filter_sub(s, 0, cur_index as int); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::siblings
//@ prop C11
//@ ret r
//@ header
    ensures r.ids() == prevs(id_of(self)) + nexts(id_of(self)),
//@ rule text loop_handle(&(0..index), => siblings_loop(0, index,
//@ rule text loop_handle(&(index + 1..total), => siblings_loop(index + 1, total,
//@ at start
    proof { axiom_tree(id_of(self)); if par(id_of(self)) is Some { axiom_tree(par(id_of(self))->0); } else { assert(prevs(id_of(self)) + nexts(id_of(self)) =~= Seq::<int>::empty()); } }
//@ at before if index == 0
    let ghost s = kids(id_of(parent));
    proof {
        lemma_filter_none(s.subrange(0, 0));
        lemma_filter_none(s.subrange(s.len() as int, s.len() as int));
        assert(Seq::<int>::empty() + nexts(id_of(self)) =~= nexts(id_of(self)));
        assert(prevs(id_of(self)) + Seq::<int>::empty() =~= prevs(id_of(self)));
    }
//@ at before let mut result
    proof { assert(Seq::<int>::empty() + prevs(id_of(self)) =~= prevs(id_of(self))); }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::child_nodes
//@ prop C11
//@ ret r
//@ header
    ensures r@.len() == kids(id_of(self)).len(), forall|i: int| 0 <= i < r@.len() ==> node_id(&#[trigger] r@[i]) == kids(id_of(self))[i],
//@ loop 0
    invariant
        __a0 == 0, __e0 == total, total == kids(id_of(self)).len(), __i0 <= total, result@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> node_id(&#[trigger] result@[i]) == kids(id_of(self))[i],
//@ emit
}
proof fn lemma_first(s: Seq<int>, a: int, k: int)
    requires 0 <= a <= k < s.len(), s.subrange(a, k).filter(el()).len() == 0, is_el(s[k]),
    ensures s.subrange(a, s.len() as int).filter(el()).len() > 0, s.subrange(a, s.len() as int).filter(el())[0] == s[k],
{
    lemma_filter_sub(s, a, k);
    lemma_first_grow(s, a, k + 1, s.len() as int);
}
proof fn lemma_first_grow(s: Seq<int>, a: int, k: int, m: int)
    requires 0 <= a <= k <= m <= s.len(), s.subrange(a, k).filter(el()).len() > 0,
    ensures s.subrange(a, m).filter(el()).len() > 0, s.subrange(a, m).filter(el())[0] == s.subrange(a, k).filter(el())[0],
    decreases m,
{ if k < m { lemma_first_grow(s, a, k, m - 1); lemma_filter_sub(s, a, m - 1); } }
//@ fn mesdoc/interface/element.rs trait:IElementTrait::siblings/loop_handle
//@ prop C11
//@ sig
fn siblings_loop(from: usize, to: usize, parent: &BoxDynElement, result: &mut Elements)
//@ header
    requires from <= to <= kids(id_of(parent)).len(),
    ensures final(result).ids() == old(result).ids() + kids(id_of(parent)).subrange(from as int, to as int).filter(el()),
//@ rule text range.start => from
//@ rule text range.end => to
//@ at start
    let ghost s = kids(id_of(parent));
    let ghost r0 = result.ids();
    proof { lemma_filter_none(s.subrange(from as int, from as int)); assert(r0 + Seq::<int>::empty() =~= r0); }
//@ loop 0
    invariant
        s == kids(id_of(parent)), __a0 == from, __e0 == to, from <= __i0 <= to, to <= s.len(),
        result.ids() == r0 + s.subrange(from as int, __i0 as int).filter(el()),
//@ at loop-start 0
    proof { lemma_filter_sub(s, from as int, cur_index as int); }
    let ghost r1 = result.ids();
//@ at loop-end 0
    proof { if is_el(s[cur_index as int]) { assert(result.ids() =~= r0 + s.subrange(from as int, cur_index as int).filter(el()).push(s[cur_index as int])); } }
