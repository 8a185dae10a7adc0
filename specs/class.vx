//@ include base.vx
global size_of usize == 8;
//@ include words.vx
//@ include heapattr.vx
//@ emit
//@ item mesdoc/constants.rs ATTR_CLASS
//@ emit
//@ include keep.vx
//@ fn mesdoc/utils.rs retain_by_index
//@ prop C05
//@ header
    requires
        ascending(indexs@),
        forall|k: int| 0 <= k < indexs@.len() ==> (#[trigger] indexs@[k]) < old(v)@.len(),
    ensures final(v)@ == keep(old(v)@, old(v)@.len() as int, indexs@),
//@ at start
    let ghost s = v@;
    let ghost mut c: int = 0;
    proof { assert(keep(s, 0, indexs@) + s.skip(0) =~= v@); }
//@ loop 0
    invariant
        s == old(v)@,
        __s0@ == indexs@,
        __i0 <= __s0.len(),
        ascending(indexs@),
        forall|k: int| 0 <= k < indexs@.len() ==> (#[trigger] indexs@[k]) < s.len(),
        c == (if __i0 == 0 { 0int } else { indexs@[__i0 - 1] + 1 }),
        0 <= c <= s.len(),
        v@ == keep(s, c, indexs@) + s.skip(c),
        keep(s, c, indexs@).len() == c - __i0,
//@ at loop-start 0
    proof {
        let k = __i0 - 1;
        let x = indexs@[k] as int;
        assert(c <= x);
        assert forall|m: int| 0 <= m < indexs@.len() implies !(c <= #[trigger] indexs@[m] < x) by {
            if m < k { assert(k - 1 == m || indexs@[m] < indexs@[k - 1]); } else if m > k { assert(indexs@[k] < indexs@[m]); }
        }
        lemma_keep_gap(s, c, x, indexs@);
        assert(s.skip(c) =~= s.subrange(c, x) + s.skip(x));
        assert(v@ =~= keep(s, x, indexs@) + s.skip(x));
        assert(keep(s, x + 1, indexs@) == keep(s, x, indexs@));
        c = x + 1;
    }
//@ at loop-end 0
    proof { assert(v@ =~= keep(s, c, indexs@) + s.skip(c)); }
//@ at loop-exit 0
    proof {
        let n = s.len() as int;
        assert forall|m: int| 0 <= m < indexs@.len() implies !(c <= #[trigger] indexs@[m] < n) by {
            if m < __i0 - 1 { assert(indexs@[m] < indexs@[__i0 - 1]); }
        }
        lemma_keep_gap(s, c, n, indexs@);
        assert(s.subrange(c, n) =~= s.skip(c));
    }
//@ emit
/// TRUSTED: `[Vec<char>]::contains` compares the elements as lists of characters
#[verifier::external_body]
fn vx_contains(v: &[Vec<char>], x: &Vec<char>) -> (r: bool)
    ensures r == chars_of(v@).contains(x@),
{ v.contains(x) }
/// TRUSTED: a copy of a list of characters
#[verifier::external_body]
fn vx_clone(x: &Vec<char>) -> (r: Vec<char>)
    ensures r@ == x@,
{ x.clone() }
/// TRUSTED: `Vec::extend` with a list appends it
#[verifier::external_body]
fn vx_extend<T>(v: &mut Vec<T>, x: Vec<T>)
    ensures final(v)@ == old(v)@ + x@,
{ v.extend(x) }

// ---------------------------------------------------------------- the class names of an element
/// a value-less class attribute counts as no names
spec fn names(h: &Heap, id: int) -> Seq<Seq<char>> {
    match attr(h, id, "class"@) { Some(AttrV::Value(v)) => words(v), _ => Seq::empty() }
}
spec fn class_noquote(h: &Heap, id: int) -> bool {
    match attr(h, id, "class"@) { Some(AttrV::Value(v)) => noquote(v), _ => true }
}
/// a value-less class attribute has no names; the empty list of names is in no element
spec fn has_all_names(h: &Heap, id: int, a: Seq<Seq<char>>) -> bool {
    forall|k: int| 0 <= k < a.len() ==> names(h, id).contains(#[trigger] a[k])
}
spec fn once(l: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] != l[j] }
spec fn in_set(nodes: Seq<Ele>, id: int) -> bool { exists|i: int| 0 <= i < nodes.len() && id_of(&#[trigger] nodes[i]) == id }
spec fn distinct(nodes: Seq<Ele>) -> bool { forall|i: int, j: int| 0 <= i < j < nodes.len() ==> id_of(&#[trigger] nodes[i]) != id_of(&#[trigger] nodes[j]) }
/// every element of the set has the class names `f` makes of its old ones, everything else is as before
spec fn only_classes(h0: &Heap, h1: &Heap, nodes: Seq<Ele>) -> bool {
    forall|i: int, n: Seq<char>| !in_set(nodes, i) || n != "class"@ ==> #[trigger] attr(h1, i, n) == attr(h0, i, n)
}
spec fn added(o: Seq<Seq<char>>, a: Seq<Seq<char>>, n: Seq<Seq<char>>) -> bool {
    &&& o.is_prefix_of(n)
    &&& forall|w: Seq<char>| #[trigger] n.contains(w) <==> o.contains(w) || a.contains(w)
    &&& once(o) && once(a) ==> once(n)
}
proof fn lemma_added_first(a: Seq<Seq<char>>)
    ensures added(Seq::empty(), a, a),
{
    assert forall|w: Seq<char>| #[trigger] a.contains(w) <==> Seq::<Seq<char>>::empty().contains(w) || a.contains(w) by {}
}
proof fn lemma_added_step(o: Seq<Seq<char>>, a: Seq<Seq<char>>, n: Seq<Seq<char>>, w: Seq<char>)
    requires added(o, a, n),
    ensures
        n.contains(w) ==> added(o, a.push(w), n),
        !n.contains(w) ==> added(o, a.push(w), n.push(w)),
{
    let b = a.push(w);
    let m = n.push(w);
    assert forall|x: Seq<char>| #[trigger] b.contains(x) <==> a.contains(x) || x == w by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        assert(b[a.len() as int] == w);
    }
    assert forall|x: Seq<char>| #[trigger] m.contains(x) <==> n.contains(x) || x == w by {
        if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; if i < n.len() { assert(n[i] == x); } }
        if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; assert(m[i] == x); }
        assert(m[n.len() as int] == w);
    }
    assert(once(b) ==> once(a)) by { if once(b) { assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert(b[i] != b[j]); } } }
    if !n.contains(w) && once(n) {
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] != m[j] by { if j == n.len() { assert(n.contains(n[i])); } }
    }
}
#[verifier::opaque]
spec fn without(o: Seq<Seq<char>>, a: Seq<Seq<char>>) -> Seq<Seq<char>> { o.filter(|w: Seq<char>| !a.contains(w)) }
spec fn toggled(o: Seq<Seq<char>>, a: Seq<Seq<char>>, n: Seq<Seq<char>>) -> bool {
    n == without(o, a) + without(a, o)
}
/// toggling is the symmetric difference, each name once
proof fn lemma_toggled(o: Seq<Seq<char>>, a: Seq<Seq<char>>, n: Seq<Seq<char>>)
    requires toggled(o, a, n),
    ensures forall|w: Seq<char>| #[trigger] n.contains(w) <==> (o.contains(w) != a.contains(w)),
{
    lemma_filter_contains(o, a);
    lemma_filter_contains(a, o);
    assert forall|w: Seq<char>| #[trigger] n.contains(w) <==> (o.contains(w) != a.contains(w)) by {
        let x = without(o, a);
        let y = without(a, o);
        if x.contains(w) { let i = choose|i: int| 0 <= i < x.len() && x[i] == w; assert(n[i] == w); }
        if y.contains(w) { let i = choose|i: int| 0 <= i < y.len() && y[i] == w; assert(n[x.len() + i] == w); }
        if n.contains(w) { let i = choose|i: int| 0 <= i < n.len() && n[i] == w; if i < x.len() { assert(x[i] == w); } else { assert(y[i - x.len()] == w); } }
    }
}
proof fn lemma_filter_contains(o: Seq<Seq<char>>, a: Seq<Seq<char>>)
    ensures forall|w: Seq<char>| #[trigger] without(o, a).contains(w) <==> o.contains(w) && !a.contains(w),
    decreases o.len(),
{
    reveal(Seq::filter); reveal(without);
    if o.len() > 0 {
        let d = o.drop_last();
        lemma_filter_contains(d, a);
        assert forall|w: Seq<char>| #[trigger] without(o, a).contains(w) <==> o.contains(w) && !a.contains(w) by {
            assert(o.contains(w) <==> d.contains(w) || o.last() == w) by {
                if o.contains(w) { let i = choose|i: int| 0 <= i < o.len() && o[i] == w; if i < d.len() { assert(d[i] == w); } }
                if d.contains(w) { let i = choose|i: int| 0 <= i < d.len() && d[i] == w; assert(o[i] == w); }
                assert(o[o.len() - 1] == o.last());
            }
            let f = without(d, a);
            if !a.contains(o.last()) {
                let g = f.push(o.last());
                assert(without(o, a) =~= g);
                assert(g.contains(w) <==> f.contains(w) || o.last() == w) by {
                    if g.contains(w) { let i = choose|i: int| 0 <= i < g.len() && g[i] == w; if i < f.len() { assert(f[i] == w); } }
                    if f.contains(w) { let i = choose|i: int| 0 <= i < f.len() && f[i] == w; assert(g[i] == w); }
                    assert(g[g.len() - 1] == o.last());
                }
            } else {
                assert(without(o, a) == f);
            }
        }
    }
}
/// keeping by index is filtering when the indexes are those of the unwanted names
proof fn lemma_keep_filter(s: Seq<Vec<char>>, n: int, idx: Seq<usize>, a: Seq<Seq<char>>)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < s.len() ==> ((exists|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == i) <==> a.contains(#[trigger] s[i]@)),
    ensures chars_of(keep(s, n, idx)) == without(chars_of(s).take(n), a),
    decreases n,
{
    reveal(Seq::filter); reveal(without);
    if n == 0 {
        assert(chars_of(keep(s, n, idx)) =~= Seq::empty());
        assert(chars_of(s).take(0) =~= Seq::empty());
    } else {
        lemma_keep_filter(s, n - 1, idx, a);
        let t = chars_of(s).take(n);
        assert(t.drop_last() =~= chars_of(s).take(n - 1));
        assert(t.last() == s[n - 1]@);
        let kk = keep(s, n - 1, idx);
        assert(chars_of(kk.push(s[n - 1])) =~= chars_of(kk).push(s[n - 1]@));
    }
}
/// a list of words of quote-free texts joins to a quote-free text
spec fn all_noquote(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> noquote(#[trigger] l[i]) }
proof fn lemma_scan_noquote(s: Seq<char>)
    requires noquote(s),
    ensures all_noquote(scan(s).0), noquote(scan(s).1), all_noquote(words(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != '"' && s.drop_last()[i] != '\'' by { assert(s.drop_last()[i] == s[i]); }
        lemma_scan_noquote(s.drop_last());
        assert(s.last() == s[s.len() - 1]);
    }
}
proof fn lemma_join_noquote(l: Seq<Seq<char>>)
    requires all_noquote(l),
    ensures noquote(join(l)),
    decreases l.len(),
{
    if l.len() > 1 {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies noquote(#[trigger] d[i]) by { assert(d[i] == l[i]); }
        lemma_join_noquote(d);
        assert(noquote(l[l.len() - 1]));
    } else if l.len() == 1 {
        assert(noquote(l[0]));
    }
}
/// storing the joined list and reading it again gives the list
proof fn lemma_store_list(l: Seq<Seq<char>>)
    requires all_noquote(l), all_words(l),
    ensures stored(join(l)) == join(l), words(stored(join(l))) == l, noquote(stored(join(l))),
{
    lemma_join_noquote(l);
    axiom_stored(join(l));
    lemma_words_join(l);
}
proof fn lemma_without_sub(o: Seq<Seq<char>>, a: Seq<Seq<char>>)
    requires all_noquote(o), all_words(o),
    ensures all_noquote(without(o, a)), all_words(without(o, a)),
{
    lemma_filter_contains(o, a);
    let f = without(o, a);
    assert forall|i: int| 0 <= i < f.len() implies noquote(#[trigger] f[i]) && is_word(f[i]) by {
        assert(f.contains(f[i]));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == f[i];
        assert(noquote(o[j]) && is_word(o[j]));
    }
}
proof fn lemma_without_nothing(o: Seq<Seq<char>>, a: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < o.len() ==> !a.contains(#[trigger] o[i]),
    ensures without(o, a) == o,
    decreases o.len(),
{
    reveal(Seq::filter); reveal(without);
    if o.len() > 0 {
        let d = o.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !a.contains(#[trigger] d[i]) by { assert(d[i] == o[i]); }
        lemma_without_nothing(d, a);
        assert(!a.contains(o[o.len() - 1]));
        assert(d.push(o.last()) =~= o);
    } else {
        assert(without(o, a) =~= o);
    }
}
proof fn lemma_without_all(o: Seq<Seq<char>>, a: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < o.len() ==> a.contains(#[trigger] o[i]),
    ensures without(o, a) == Seq::<Seq<char>>::empty(),
{
    lemma_filter_contains(o, a);
    let f = without(o, a);
    if f.len() > 0 { assert(f.contains(f[0])); let j = choose|j: int| 0 <= j < o.len() && o[j] == f[0]; assert(a.contains(o[j])); }
    assert(f =~= Seq::empty());
}
proof fn lemma_without_none_all()
    ensures forall|a: Seq<Seq<char>>| #[trigger] without(Seq::empty(), a) == Seq::<Seq<char>>::empty(),
        forall|o: Seq<Seq<char>>, a: Seq<Seq<char>>| a.len() == 0 ==> #[trigger] without(o, a) == o,
{
    assert forall|a: Seq<Seq<char>>| #[trigger] without(Seq::empty(), a) == Seq::<Seq<char>>::empty() by { lemma_without_all(Seq::empty(), a); }
    assert forall|o: Seq<Seq<char>>, a: Seq<Seq<char>>| a.len() == 0 implies #[trigger] without(o, a) == o by { lemma_without_nothing(o, a); }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::get_ref
//@ prop C05
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/elements.rs Elements::has_class
//@ prop C05
//@ ret r
//@ rule sig &self => &self, __h: &Heap
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule method contains => vx_contains
//@ header
    ensures
        // one of the elements has all the names
        r <==> words(class_name@).len() > 0 && exists|i: int| 0 <= i < self.nodes@.len() && has_all_names(__h, id_of(&#[trigger] self.nodes@[i]), words(class_name@)),
//@ at start
    proof { lemma_lower_class(); }
//@ loop 0 ref
    invariant
        lower("class"@) == "class"@,
        __s0@ == self.nodes@,
        __i0 <= __s0.len(),
        chars_of(class_list@) == words(class_name@),
        words(class_name@).len() > 0,
        forall|i: int| 0 <= i < __i0 ==> !has_all_names(__h, id_of(&#[trigger] self.nodes@[i]), words(class_name@)),
//@ at loop-start 0
    proof { assert(!Seq::<Seq<char>>::empty().contains(words(class_name@)[0])); }
//@ loop 1
    invariant_except_break
        has_all,
        forall|k: int| 0 <= k < __i1 ==> names(__h, id_of(ele)).contains(#[trigger] words(class_name@)[k]),
    invariant
        __s1@ == class_list@,
        __i1 <= __s1.len(),
        chars_of(class_list@) == words(class_name@),
        chars_of(orig_class_list@) == names(__h, id_of(ele)),
    ensures
        has_all == forall|k: int| 0 <= k < words(class_name@).len() ==> names(__h, id_of(ele)).contains(#[trigger] words(class_name@)[k]),
//@ at loop-start 1
    proof { assert(chars_of(class_list@)[__i1 - 1] == class_name@); }
//@ fn mesdoc/interface/elements.rs Elements::add_class
//@ prop C05
//@ ret r
//@ rule sig &mut self => &self, __h: &mut Heap
//@ rule sig &mut Self => &Self
//@ rule text self.get_mut_ref() => self.get_ref()
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule method set_attribute => __h.set_attribute(val)
//@ rule method contains => vx_contains
//@ rule method clone => vx_clone(val)
//@ header
    requires
        distinct(self.nodes@),
        noquote(class_name@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(old(__h), id_of(&#[trigger] self.nodes@[i])),
    ensures
        only_classes(old(__h), final(__h), self.nodes@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> added(names(old(__h), id_of(&#[trigger] self.nodes@[i])), words(class_name@), names(final(__h), id_of(&self.nodes@[i]))),
//@ at start
    let ghost arg = words(class_name@);
    let ghost h0 = *__h;
    proof {
        lemma_lower_class();
        assert forall|o: Seq<Seq<char>>| arg.len() == 0 implies #[trigger] added(o, arg, o) by {}
        lemma_scan_noquote(class_name@);
        axiom_stored(class_name@);
        lemma_added_first(arg);
    }
//@ loop 0 ref
    invariant
        lower("class"@) == "class"@,
        __s0@ == self.nodes@,
        __i0 <= __s0.len(),
        h0 == *old(__h),
        distinct(self.nodes@),
        arg == words(class_name@),
        chars_of(class_list@) == arg,
        all_words(arg), all_noquote(arg),
        stored(class_name@) == class_name@,
        added(Seq::empty(), arg, arg),
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(&h0, id_of(&#[trigger] self.nodes@[i])),
        only_classes(&h0, &*__h, self.nodes@),
        forall|i: int| 0 <= i < __i0 ==> added(names(&h0, id_of(&#[trigger] self.nodes@[i])), arg, names(&*__h, id_of(&self.nodes@[i]))),
        forall|i: int| __i0 <= i < self.nodes@.len() ==> attr(&*__h, id_of(&#[trigger] self.nodes@[i]), "class"@) == attr(&h0, id_of(&self.nodes@[i]), "class"@),
//@ at loop-start 0
    let ghost h1 = *__h;
    let ghost o = names(&h0, id_of(ele));
    proof { assert(class_noquote(&h0, id_of(&self.nodes@[__i0 - 1]))); }
//@ loop 1
    invariant
        __s1@ == class_list@,
        __i1 <= __s1.len(),
        chars_of(class_list@) == arg,
        all_words(arg), all_noquote(arg),
        all_words(chars_of(orig_class_list@)), all_noquote(chars_of(orig_class_list@)),
        added(o, arg.take(__i1 as int), chars_of(orig_class_list@)),
//@ at pre-loop 1
    proof {
        lemma_scan_noquote(cls@);
        assert(arg.take(0) =~= Seq::empty());
    }
//@ at loop-start 1
    let ghost n0 = chars_of(orig_class_list@);
    proof {
        assert(arg[__i1 - 1] == class_name@);
        assert(arg.take(__i1 as int) =~= arg.take(__i1 - 1).push(class_name@));
        lemma_added_step(o, arg.take(__i1 - 1), n0, class_name@);
        assert forall|v: Vec<char>| #[trigger] chars_of(orig_class_list@.push(v)) == n0.push(v@) by { assert(chars_of(orig_class_list@.push(v)) =~= n0.push(v@)); }
    }
//@ at loop-exit 1
    proof {
        assert(arg.take(__i1 as int) =~= arg);
        lemma_store_list(chars_of(orig_class_list@));
    }
//@ fn mesdoc/interface/elements.rs Elements::remove_class
//@ prop C05
//@ ret r
//@ rule sig &mut self => &self, __h: &mut Heap
//@ rule sig &mut Self => &Self
//@ rule text self.get_mut_ref() => self.get_ref()
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule method set_attribute => __h.set_attribute(val)
//@ rule method contains => vx_contains
//@ rule method clone => vx_clone(val)
//@ rule method extend => vx_extend(mut)
//@ header
    requires
        distinct(self.nodes@),
        noquote(class_name@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(old(__h), id_of(&#[trigger] self.nodes@[i])),
    ensures
        only_classes(old(__h), final(__h), self.nodes@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> names(final(__h), id_of(&#[trigger] self.nodes@[i])) == without(names(old(__h), id_of(&self.nodes@[i])), words(class_name@)),
//@ at start
    let ghost arg = words(class_name@);
    let ghost h0 = *__h;
    proof {
        lemma_lower_class();
        lemma_without_none_all();
    }
//@ loop 0 ref
    invariant
        lower("class"@) == "class"@,
        __s0@ == self.nodes@,
        __i0 <= __s0.len(),
        h0 == *old(__h),
        distinct(self.nodes@),
        arg == words(class_name@),
        chars_of(class_list@) == arg,
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(&h0, id_of(&#[trigger] self.nodes@[i])),
        only_classes(&h0, &*__h, self.nodes@),
        without(Seq::empty(), arg) == Seq::<Seq<char>>::empty(),
        forall|i: int| 0 <= i < __i0 ==> names(&*__h, id_of(&#[trigger] self.nodes@[i])) == without(names(&h0, id_of(&self.nodes@[i])), arg),
        forall|i: int| __i0 <= i < self.nodes@.len() ==> attr(&*__h, id_of(&#[trigger] self.nodes@[i]), "class"@) == attr(&h0, id_of(&self.nodes@[i]), "class"@),
//@ at loop-start 0
    let ghost o = names(&h0, id_of(ele));
    proof { assert(class_noquote(&h0, id_of(&self.nodes@[__i0 - 1]))); }
//@ loop 1
    invariant
        __s1@ == orig_class_list@,
        __i1 <= __s1.len(),
        chars_of(class_list@) == arg,
        chars_of(orig_class_list@) == o,
        ascending(removed_indexs@),
        forall|k: int| 0 <= k < removed_indexs@.len() ==> (#[trigger] removed_indexs@[k]) < __i1 && arg.contains(o[removed_indexs@[k] as int]),
        forall|i: int| 0 <= i < __i1 && arg.contains(#[trigger] o[i]) ==> exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i,
//@ at loop-start 1
    let ghost q = removed_indexs@;
    proof { assert(o[__i1 - 1] == name@); }
//@ at loop-end 1
    proof {
        assert forall|i: int| 0 <= i < __i1 && arg.contains(#[trigger] o[i]) implies exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i by {
            if i < __i1 - 1 {
                let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == i;
                assert(removed_indexs@[k] == i);
            } else {
                assert(removed_indexs@[removed_indexs@.len() - 1] == i);
            }
        }
    }
//@ at loop-exit 1
    proof {
        let s = orig_class_list@;
        lemma_scan_noquote(cls@);
        assert forall|i: int| 0 <= i < s.len() implies ((exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i) <==> arg.contains(#[trigger] s[i]@)) by {
            assert(o[i] == s[i]@);
        }
        lemma_keep_filter(s, s.len() as int, removed_indexs@, arg);
        assert(chars_of(s).take(s.len() as int) =~= o);
        lemma_without_sub(o, arg);
        lemma_store_list(without(o, arg));
        if removed_indexs@.len() == 0 {
            assert forall|i: int| 0 <= i < o.len() implies !arg.contains(#[trigger] o[i]) by {}
            lemma_without_nothing(o, arg);
        }
    }
//@ fn mesdoc/interface/elements.rs Elements::toggle_class
//@ prop C05
//@ ret r
//@ rule sig &mut self => &self, __h: &mut Heap
//@ rule sig &mut Self => &Self
//@ rule text self.get_mut_ref() => self.get_ref()
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule method set_attribute => __h.set_attribute(val)
//@ rule method contains => vx_contains
//@ rule method clone => vx_clone(val)
//@ rule method extend => vx_extend(mut)
//@ header
    requires
        distinct(self.nodes@),
        noquote(class_name@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(old(__h), id_of(&#[trigger] self.nodes@[i])),
    ensures
        only_classes(old(__h), final(__h), self.nodes@),
        forall|i: int| 0 <= i < self.nodes@.len() ==> toggled(names(old(__h), id_of(&#[trigger] self.nodes@[i])), words(class_name@), names(final(__h), id_of(&self.nodes@[i]))),
//@ at start
    let ghost arg = words(class_name@);
    let ghost h0 = *__h;
    proof {
        lemma_lower_class();
        lemma_without_none_all();
        lemma_scan_noquote(class_name@);
        lemma_scan_all_words(class_name@);
        axiom_stored(class_name@);
        lemma_without_nothing(arg, Seq::empty());
        assert(Seq::<Seq<char>>::empty() + arg =~= arg);
        assert forall|o: Seq<Seq<char>>| arg.len() == 0 implies #[trigger] toggled(o, arg, o) by {
            lemma_without_nothing(o, arg);
            assert(arg =~= Seq::empty());
            assert(without(o, arg) + without(arg, o) =~= o);
        }
    }
//@ loop 0 ref
    invariant
        lower("class"@) == "class"@,
        __s0@ == self.nodes@,
        __i0 <= __s0.len(),
        h0 == *old(__h),
        distinct(self.nodes@),
        arg == words(class_name@),
        chars_of(class_list@) == arg,
        all_words(arg), all_noquote(arg),
        stored(class_name@) == class_name@,
        toggled(Seq::empty(), arg, arg),
        forall|i: int| 0 <= i < self.nodes@.len() ==> class_noquote(&h0, id_of(&#[trigger] self.nodes@[i])),
        only_classes(&h0, &*__h, self.nodes@),
        forall|i: int| 0 <= i < __i0 ==> toggled(names(&h0, id_of(&#[trigger] self.nodes@[i])), arg, names(&*__h, id_of(&self.nodes@[i]))),
        forall|i: int| __i0 <= i < self.nodes@.len() ==> attr(&*__h, id_of(&#[trigger] self.nodes@[i]), "class"@) == attr(&h0, id_of(&self.nodes@[i]), "class"@),
//@ at loop-start 0
    let ghost o = names(&h0, id_of(ele));
    proof { assert(class_noquote(&h0, id_of(&self.nodes@[__i0 - 1]))); }
//@ loop 1
    invariant
        __s1@ == orig_class_list@,
        __i1 <= __s1.len(),
        chars_of(class_list@) == arg,
        chars_of(orig_class_list@) == o,
        ascending(removed_indexs@),
        forall|k: int| 0 <= k < removed_indexs@.len() ==> (#[trigger] removed_indexs@[k]) < __i1 && arg.contains(o[removed_indexs@[k] as int]),
        forall|i: int| 0 <= i < __i1 && arg.contains(#[trigger] o[i]) ==> exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i,
//@ at loop-start 1
    let ghost q = removed_indexs@;
    proof { assert(o[__i1 - 1] == name@); }
//@ at loop-end 1
    proof {
        assert forall|i: int| 0 <= i < __i1 && arg.contains(#[trigger] o[i]) implies exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i by {
            if i < __i1 - 1 {
                let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == i;
                assert(removed_indexs@[k] == i);
            } else {
                assert(removed_indexs@[removed_indexs@.len() - 1] == i);
            }
        }
    }
//@ at loop-exit 1
    proof {
        let s = orig_class_list@;
        lemma_scan_noquote(cls@);
        assert forall|i: int| 0 <= i < s.len() implies ((exists|k: int| 0 <= k < removed_indexs@.len() && #[trigger] removed_indexs@[k] == i) <==> arg.contains(#[trigger] s[i]@)) by {
            assert(o[i] == s[i]@);
        }
        lemma_keep_filter(s, s.len() as int, removed_indexs@, arg);
        assert(chars_of(s).take(s.len() as int) =~= o);
        lemma_without_sub(o, arg);
        lemma_store_list(without(o, arg));
        lemma_without_sub(arg, o);
        lemma_store_list(without(o, arg) + without(arg, o));
        if removed_indexs@.len() == 0 {
            assert forall|i: int| 0 <= i < o.len() implies !arg.contains(#[trigger] o[i]) by {}
            lemma_without_nothing(o, arg);
        }
    }
//@ loop 2
    invariant
        __s2@ == class_list@,
        __i2 <= __s2.len(),
        chars_of(class_list@) == arg,
        chars_of(orig_class_list@) == o,
        chars_of(added_class_list@) == without(arg.take(__i2 as int), o),
//@ at pre-loop 2
    proof {
        assert(arg.take(0) =~= Seq::empty());
        assert(chars_of(added_class_list@) =~= without(arg.take(0), o)) by { lemma_without_none_all(); }
    }
//@ at loop-start 2
    proof {
        reveal(Seq::filter); reveal(without);
        assert(arg[__i2 - 1] == class_name@);
        let t = arg.take(__i2 as int);
        assert(t.drop_last() =~= arg.take(__i2 - 1));
        assert(t.last() == class_name@);
        let n0 = chars_of(added_class_list@);
        assert forall|v: Vec<char>| #[trigger] chars_of(added_class_list@.push(v)) == n0.push(v@) by { assert(chars_of(added_class_list@.push(v)) =~= n0.push(v@)); }
    }
//@ at loop-exit 2
    proof { assert(arg.take(__i2 as int) =~= arg); }
//@ at before let mut need_set
    let ghost g_orig = orig_class_list@;
    let ghost g_added = added_class_list@;
    let ghost g_kept = keep(g_orig, g_orig.len() as int, removed_indexs@);
    let ghost n = without(o, arg) + without(arg, o);
    proof {
        assert(chars_of(g_kept) == without(o, arg));
        assert(chars_of(g_added) == without(arg, o));
        assert(chars_of(g_kept + g_added) =~= n);
        assert(g_kept + Seq::empty() =~= g_kept);
        if g_added.len() == 0 { assert(g_added =~= Seq::empty()); }
        assert(chars_of(g_orig + g_added) =~= o + without(arg, o));
        if removed_indexs@.len() == 0 { assert(chars_of(g_orig) == without(o, arg)); assert(g_orig + Seq::empty() =~= g_orig); }
    }
//@ at before if need_set {
    proof {
        assert(chars_of(orig_class_list@) == n);
        assert(!need_set ==> n =~= o);
    }
//@ emit
}
}
fn main() {}
