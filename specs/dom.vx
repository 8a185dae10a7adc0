//@ include base.vx
global size_of usize == 8;
//@ include heap.vx
//@ include keep.vx
//@ include domlib.vx
//@ contract class.vx retain_by_index
//@ rule-all heap => 1
//@ rule-all hf Rc::clone => vx_rc
//@ rule-all hf Rc::downgrade => vx_weak
//@ rule-all hf Dom::halt => vx_halt
//@ rule-all hf reset_next_siblings_index => reset_next_siblings_index(&mut h.index)
//@ rule-all hf detach_childs => detach_childs(&mut h.parent)
//@ rule-all hm index => &h.index
//@ rule-all hm parent => &h.parent
//@ rule-all hm node_type => h
//@ rule-all hf Dom::validate_dom_change => validate_dom_change(h)
//@ rule-all hf remove_not_allowed_nodes => remove_not_allowed_nodes(h)
//@ rule-all mname extend => vx_extend
//@ rule-all mname splice => vx_splice
//@ rule-all text? Box<dyn Any> => AnyNode
//@ rule-all hm remove_child => h
//@ emit
impl<'a> Handle<'a> {
//@ fn lib.rs INodeTrait@Rc::index
//@ prop C07 C08
//@ ret r
//@ rule sigarg => hi: &Field<usize>
//@ rule hfield index => hi
//@ header
    ensures r == hi.get(rid(self)),
//@ fn lib.rs INodeTrait@Rc::parent
//@ prop C07 C08
//@ ret r
//@ rule sigarg => hp: &Field<Option<WeakNode>>
//@ rule hfield parent => hp
//@ rule text Box::new(node) => vx_rc(&node)
//@ header
    ensures r is Some == par_of(hp.get(rid(self))) is Some, r matches Some(q) ==> par_of(hp.get(rid(self))) == Some(rid(&q)),
//@ fn lib.rs INodeTrait@Rc::node_type
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &Heap
//@ rule text self.borrow().is_document() => self.is_document(h)
//@ header
    ensures r == kind(h, rid(self)),
//@ emit
}
//@ fn lib.rs reset_next_siblings_index
//@ prop C07 C08
//@ rule sigarg => hi: &mut Field<usize>
//@ rule hfield index => hi
//@ header
    requires start_index + childs@.len() <= usize::MAX, rids(childs@).no_duplicates(),
    ensures
        forall|m: int| #[trigger] final(hi).get(m) == (if inn(childs@, m) { start_index + pos(childs@, m) } else { old(hi).get(m) as int }),
//@ loop 0
    invariant
        __s0@ == childs@, __i0 <= __s0.len(), start_index + childs@.len() <= usize::MAX, rids(childs@).no_duplicates(),
        forall|m: int| #[trigger] hi.get(m) == (if inn(childs@, m) && pos(childs@, m) < __i0 { start_index + pos(childs@, m) } else { old(hi).get(m) as int }),
//@ at loop-start 0
    proof {
        lemma_pos(childs@);
        assert(rids(childs@)[step as int] == rid(node));
        assert forall|m: int| inn(childs@, m) implies rids(childs@)[#[trigger] pos(childs@, m)] == m by {}
    }
//@ fn lib.rs detach_childs
//@ prop C07 C08
//@ rule sigarg => hp: &mut Field<Option<WeakNode>>
//@ rule hfield parent => hp
//@ header
    ensures
        forall|m: int| #[trigger] final(hp).get(m) == (if childs is Some && inn(childs->0@, m) { None } else { old(hp).get(m) }),
//@ loop 0
    invariant
        __s0@ == childs@, __i0 <= __s0.len(),
        forall|m: int| #[trigger] hp.get(m) == (if inn(childs@.take(__i0 as int), m) { None } else { old(hp).get(m) }),
//@ at loop-start 0
    proof {
        let k = __i0 - 1;
        lemma_take(childs@, k);
    }
//@ at loop-exit 0
    proof { assert(childs@.take(__i0 as int) =~= childs@); }
//@ emit
impl<'a> Handle<'a> {
//@ fn lib.rs IElementTrait@Rc::remove_child
//@ prop C07 C08
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)),
        same(tree(final(h)), if tree(old(h)).p(rid(&ele)) == Some(rid(old(self))) { taken(tree(old(h)), rid(&ele)) } else { tree(old(h)) }),
        rid(final(self)) == rid(old(self)),
//@ at start
    let ghost h0 = *h;
    let ghost q = rid(self);
    let ghost n = rid(&ele);
    let ghost t0 = tree(h);
    proof { if t0.p(n) == Some(q) { lemma_child(h, n); axiom_len(h.childs.get(q)->0@); reveal(ok); lemma_parts(h.childs.get(q)->0@); lemma_splice(t0, q, place(t0, n), 1, Seq::empty()); } reveal(ok); }
//@ at end
    proof {
        if t0.p(n) == Some(q) {
            let t1 = taken(t0, n);
            let old = t0.k(q);
            let i = place(t0, n);
            let v0 = h0.childs.get(q)->0@;
            let new = rids(h.childs.get(q)->0@);
            assert(h.childs.get(q)->0@ =~= v0.remove(i));
            assert(new =~= old.remove(i));
            assert(t1.k(q) =~= old.remove(i));
            assert(old.subrange(i, i + 1) =~= seq![n]);
            assert(seq![n].contains(n)) by { assert(seq![n][0] == n); }
            assert(same(t1, tree(h)));
            lemma_ok_same(t1, tree(h));
            assert forall|m: int, a: int| 0 <= a < tree(h).k(m).len() implies h.index.get(#[trigger] tree(h).k(m)[a]) == a by {
                let c = tree(h).k(m)[a];
                if m == q {
                    let j = if a < i { a } else { a + 1 };
                    assert(c == rids(v0)[j]);
                    assert(h0.index.get(t0.k(q)[j]) == j);
                } else {
                    assert(c == t0.k(m)[a]);
                    assert(h0.index.get(t0.k(m)[a]) == a);
                    assert(t0.p(t0.k(m)[a]) == Some(m));
                    if inn(v0, c) { assert(t0.p(rids(v0)[pos(v0, c)]) == Some(q)); }
                }
            }
        }
    }
//@ emit
}
//@ fn lib.rs Dom::validate_dom_change
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &Heap
//@ rule sig &Rc<RefCell<Node>> => &Handle
//@ header
    requires wf(h),
    ensures r == valid(h, rid(dom), rid(node)),
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at start
    let ghost t = tree(h);
    let ghost rank = choose|rank: spec_fn(int) -> nat| rank_ok(t, rank);
    proof { reveal(ok); lemma_above_refl(t, rid(dom)); }
//@ loop 0
    invariant_except_break
        above(t, rid(node), rid(dom)) == above(t, rid(node), rid(&cur)), rid(&cur) != rid(node),
    ensures !above(t, rid(node), rid(dom)),
    decreases rank(rid(&cur)),
//@ at loop-start 0
    proof { lemma_above_up(t, rid(node), rid(&cur)); lemma_above_up(t, rid(node), rid(&parent)); lemma_above_refl(t, rid(&parent)); assert(t.p(rid(&cur)) == Some(rid(&parent))); }
//@ at loop-break 0
    proof { lemma_above_up(t, rid(node), rid(&cur)); }
//@ fn lib.rs remove_not_allowed_nodes
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires rids(old(nodes)@).no_duplicates(),
    ensures
        rids(final(nodes)@) == rids(old(nodes)@).filter(fits(old(h), tag_name@)),
        final(h).index == old(h).index, final(h).childs == old(h).childs, others(final(h), old(h)),
        forall|m: int| #[trigger] final(h).parent.get(m) == (if inn(old(nodes)@, m) && !fits(old(h), tag_name@)(m) { None } else { old(h).parent.get(m) }),
        r == (0 < final(nodes)@.len() < old(nodes)@.len()),
//@ at start
    let ghost s = nodes@;
    let ghost f = fits(h, tag_name@);
    let ghost h0 = *h;
    proof { lemma_parts(s); }
//@ loop 0
    invariant
        __s0@ == s, __i0 <= __s0.len(), rids(s).no_duplicates(), f == fits(&h0, tag_name@),
        h.index == h0.index, h.childs == h0.childs, others(h, &h0),
        ascending(not_allowed_indexs@),
        forall|k: int| 0 <= k < not_allowed_indexs@.len() ==> (#[trigger] not_allowed_indexs@[k]) < __i0,
        forall|i: int| #[trigger] lists(not_allowed_indexs@, i) == (0 <= i < __i0 && !f(rids(s)[i])),
        forall|m: int| #[trigger] h.parent.get(m) == (if inn(s, m) && pos(s, m) < __i0 && !f(m) { None } else { h0.parent.get(m) }),
//@ at loop-start 0
    proof {
        lemma_pos(s);
        assert(rids(s)[index as int] == rid(node));
        lemma_lists(not_allowed_indexs@, index);
        assert forall|m: int| inn(s, m) implies rids(s)[#[trigger] pos(s, m)] == m by {}
    }
//@ at loop-exit 0
    proof {
        lemma_keep_filter(s, s.len() as int, not_allowed_indexs@, f);
        assert(rids(s).take(s.len() as int) =~= rids(s));
        lemma_keep_len(s, s.len() as int, not_allowed_indexs@);
        assert forall|i: int| 0 <= i < s.len() implies !lists(Seq::<usize>::empty(), i) by {}
        if not_allowed_indexs@.len() == 0 { assert(not_allowed_indexs@ =~= Seq::empty()); lemma_keep_gap(s, 0, s.len() as int, not_allowed_indexs@); assert(keep(s, 0, not_allowed_indexs@) + s.subrange(0, s.len() as int) =~= s); }
    }
//@ emit
impl InsertPosition {
//@ fn mesdoc/interface/element.rs InsertPosition::action
//@ emit
}
impl<'a> Handle<'a> {
//@ fn lib.rs IElementTrait@Rc::insert_adjacent
//@ prop C07 C08
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), rid(final(self)) == rid(old(self)),
        same(tree(final(h)), inserted(old(h), *position, rid(old(self)), rid(node))),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    let ghost h0 = *h;
    let ghost d = rid(self);
    let ghost n = rid(node);
    let ghost mut t = tree(h);
    let ghost mut ns: Seq<int> = Seq::empty();
    let ghost mut g = *h;
    let ghost mut stage: int = 0;
    let ghost mut n0: Seq<RefNode> = Seq::empty();
    let ghost mut v0: Seq<RefNode> = Seq::empty();
    let ghost q = if inside(*position) { d } else { tree(h).p(d)->0 };
    proof { axiom_alive(self); axiom_alive(node); }
//@ at after let mut nodes =
    proof {
        t = without(&h0, n);
        ns = moved(&h0, n);
        if kind(&h0, n) is DocumentFragement { lemma_apart_all(&h0, h, n, d); }
        else { lemma_apart_one(&h0, h, n, d); assert(rids(nodes@) =~= ns); }
        assert(rids(nodes@) == ns);
        g = *h;
        lemma_apart_nodup(h, t, ns, d);
    }
//@ at before if nodes.is_empty()
    proof {
        if inside(*position) { lemma_apart_filter(&g, h, t, ns, d, fits(&h0, tag(d))); ns = ns.filter(fits(&h0, tag(d))); }
        assert(rids(nodes@) == ns);
        if nodes@.len() == 0 { assert(ns =~= Seq::empty()); lemma_apart_same(h, t, d); }
        g = *h;
        stage = 1;
        n0 = nodes@;
        if h.childs.get(q) is Some { v0 = h.childs.get(q)->0@; }
        if nodes@.len() > 0 { lemma_ready(h, t, ns, d, q, n0, v0); }
    }
//@ loop 0
    invariant
        __i0 <= __s0.len(), __s0@ == nodes@,
        forall|m: int| par_of(#[trigger] h.parent.get(m)) == (if inn(nodes@.take(__i0 as int), m) { Some(q) } else { par_of(g.parent.get(m)) }),
//@ at loop-start 0
    proof { lemma_take(nodes@, __i0 - 1); }
//@ at loop-exit 0
    proof { assert(nodes@.take(__i0 as int) =~= nodes@); }
//@ loop 1
    invariant
        __i1 <= __s1.len(), __s1@ == nodes@,
        forall|m: int| par_of(#[trigger] h.parent.get(m)) == (if inn(nodes@.take(__i1 as int), m) { Some(q) } else { par_of(g.parent.get(m)) }),
//@ at loop-start 1
    proof { lemma_take(nodes@, __i1 - 1); }
//@ at loop-exit 1
    proof { assert(nodes@.take(__i1 as int) =~= nodes@); }
//@ at before return;
    proof {
        if stage == 1 && ns.len() > 0 {
            let i = match *position { BeforeBegin => place(t, d), AfterEnd => place(t, d) + 1, AfterBegin => 0, BeforeEnd => t.k(d).len() as int };
            assert(tree(h).k(q) =~= t.k(q).take(i) + ns + t.k(q).skip(i));
            lemma_finish(&g, h, t, ns, d, q, i, 0, n0, v0);
        }
    }
//@ at end
    proof {
        if stage == 1 && ns.len() > 0 {
            let i = match *position { BeforeBegin => place(t, d), AfterEnd => place(t, d) + 1, AfterBegin => 0, BeforeEnd => t.k(d).len() as int };
            assert(tree(h).k(q) =~= t.k(q).take(i) + ns + t.k(q).skip(i));
            lemma_finish(&g, h, t, ns, d, q, i, 0, n0, v0);
        }
    }
//@ emit
}
//@ emit
impl<'a> Handle<'a> {
//@ fn lib.rs IElementTrait@Rc::replace_with
//@ prop C07 C08
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)),
        same(tree(final(h)), replaced(old(h), rid(old(self)), rid(node))),
        rid(final(self)) == (if valid(old(h), rid(old(self)), rid(node)) && tree(old(h)).p(rid(old(self))) is Some && moved(old(h), rid(node)).len() == 1 { moved(old(h), rid(node))[0] } else { rid(old(self)) }),
//@ attrs
#[verifier::loop_isolation(false)]
//@ at start
    let ghost h0 = *h;
    let ghost d = rid(self);
    let ghost n = rid(node);
    let ghost mut t = tree(h);
    let ghost mut ns: Seq<int> = Seq::empty();
    let ghost mut g = *h;
    let ghost mut stage: int = 0;
    let ghost mut n0: Seq<RefNode> = Seq::empty();
    let ghost mut v0: Seq<RefNode> = Seq::empty();
    let ghost q = tree(h).p(d)->0;
    proof { axiom_alive(self); axiom_alive(node); }
//@ at after let nodes =
    proof {
        t = without(&h0, n);
        ns = moved(&h0, n);
        if kind(&h0, n) is DocumentFragement { lemma_apart_all(&h0, h, n, d); }
        else { lemma_apart_one(&h0, h, n, d); assert(rids(nodes@) =~= ns); }
        assert(rids(nodes@) == ns);
        g = *h;
        lemma_apart_nodup(h, t, ns, d);
        if nodes@.len() == 0 { assert(ns =~= Seq::empty()); lemma_apart_same(h, t, d); }
        stage = 1;
        n0 = nodes@;
        if h.childs.get(q) is Some { v0 = h.childs.get(q)->0@; }
        if nodes@.len() > 0 { lemma_ready(h, t, ns, d, q, n0, v0); lemma_pos(v0); }
    }
//@ loop 0
    invariant
        __i0 <= __s0.len(), __s0@ == nodes@,
        forall|m: int| par_of(#[trigger] h.parent.get(m)) == (if inn(nodes@.take(__i0 as int), m) { Some(q) } else { par_of(g.parent.get(m)) }),
//@ at loop-start 0
    proof { lemma_take(nodes@, __i0 - 1); }
//@ at loop-exit 0
    proof { assert(nodes@.take(__i0 as int) =~= nodes@); }
//@ at end
    proof {
        if stage == 1 && ns.len() > 0 {
            let i = place(t, d);
            lemma_child_t(&g, t, ns, d);
            assert(rids(v0)[i] == d);
            assert(tree(h).k(q) =~= t.k(q).take(i) + ns + t.k(q).skip(i + 1));
            lemma_finish(&g, h, t, ns, d, q, i, 1, n0, v0);
        }
    }
//@ fn lib.rs ITextTrait@Rc::remove as text_remove
//@ prop C07
//@ rule sigarg => h: &mut Heap
//@ rule sig self: Box<Self> => &self
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)),
        same(tree(final(h)), taken(tree(old(h)), rid(self))),
//@ at start
    let ghost h0 = *h;
    let ghost d = rid(self);
    let ghost t = tree(h);
    let ghost q = tree(h).p(d)->0;
    let ghost v0 = if h.childs.get(q) is Some { h.childs.get(q)->0@ } else { Seq::<RefNode>::empty() };
    proof {
        lemma_apart_none(h, d);
        axiom_alive(self);
        assert(rids(Seq::<RefNode>::empty()) =~= Seq::<int>::empty());
        if t.p(d) is Some { lemma_ready(h, t, Seq::empty(), d, q, Seq::empty(), v0); lemma_child_t(h, t, Seq::empty(), d); lemma_pos(v0); lemma_removed(v0, place(t, d)); lemma_parts(v0.remove(place(t, d))); }
    }
//@ at end
    proof {
        if t.p(d) is Some {
            let i = place(t, d);
            assert(rids(v0)[i] == d);
            assert(tree(h).k(q) =~= t.k(q).take(i) + t.k(q).skip(i + 1));
            lemma_finish(&h0, h, t, Seq::empty(), d, q, i, 1, Seq::empty(), v0);
        } else { assert(same(tree(h), t)); lemma_ok_same(t, tree(h)); }
    }
//@ emit
}
//@ emit
}
fn main() {}
