//@ include ws.vx
//@ emit
// ---------------------------------------------------------------- white space separated names
/// the names closed and the name still open after the characters s
spec fn scan(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>)
    decreases s.len(),
{
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (l, w) = scan(s.drop_last());
        if !is_ws(s.last()) { (l, w.push(s.last())) } else if w.len() == 0 { (l, w) } else { (l.push(w), Seq::empty()) }
    }
}
/// the white space separated names of s, in order
spec fn words(s: Seq<char>) -> Seq<Seq<char>> {
    let (l, w) = scan(s);
    if w.len() == 0 { l } else { l.push(w) }
}
spec fn is_word(w: Seq<char>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> !is_ws(#[trigger] w[i]) }
spec fn all_words(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> is_word(#[trigger] l[i]) }
spec fn chars_of(v: Seq<Vec<char>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the names joined by one blank
spec fn join(l: Seq<Seq<char>>) -> Seq<char>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { join(l.drop_last()) + seq![' '] + l.last() }
}
/// each name followed by a blank
spec fn join_open(l: Seq<Seq<char>>) -> Seq<char>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { join_open(l.drop_last()) + l.last() + seq![' '] }
}
proof fn lemma_join_open(l: Seq<Seq<char>>)
    requires l.len() > 0,
    ensures join(l) == join_open(l.drop_last()) + l.last(),
    decreases l.len(),
{
    if l.len() == 1 {
        assert(join_open(l.drop_last()) + l.last() =~= l.last());
    } else {
        let d = l.drop_last();
        lemma_join_open(d);
        assert(join(d) + seq![' '] =~= join_open(d.drop_last()) + d.last() + seq![' ']);
        assert(join(l) =~= join_open(d) + l.last());
    }
}
proof fn lemma_scan_word(s: Seq<char>, w: Seq<char>)
    requires forall|i: int| 0 <= i < w.len() ==> !is_ws(#[trigger] w[i]),
    ensures scan(s + w) == (scan(s).0, scan(s).1 + w),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(s + w =~= s);
        assert(scan(s).1 + w =~= scan(s).1);
    } else {
        let v = w.drop_last();
        assert((s + w).drop_last() =~= s + v);
        assert((s + w).last() == w.last());
        assert forall|i: int| 0 <= i < v.len() implies !is_ws(#[trigger] v[i]) by { assert(v[i] == w[i]); }
        lemma_scan_word(s, v);
        assert(!is_ws(w[w.len() - 1]));
        assert((scan(s).1 + v).push(w.last()) =~= scan(s).1 + w);
    }
}
proof fn lemma_scan_all_words(s: Seq<char>)
    ensures
        all_words(scan(s).0),
        forall|i: int| 0 <= i < scan(s).1.len() ==> !is_ws(#[trigger] scan(s).1[i]),
        all_words(words(s)),
    decreases s.len(),
{
    if s.len() > 0 { lemma_scan_all_words(s.drop_last()); }
}
proof fn lemma_scan_join_open(l: Seq<Seq<char>>)
    requires all_words(l),
    ensures scan(join_open(l)) == (l, Seq::<char>::empty()),
    decreases l.len(),
{
    if l.len() == 0 {
        assert(l =~= Seq::empty());
    } else {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies is_word(#[trigger] d[i]) by { assert(d[i] == l[i]); }
        lemma_scan_join_open(d);
        assert(is_word(l[l.len() - 1]));
        lemma_scan_word(join_open(d), l.last());
        let t = join_open(d) + l.last();
        assert(join_open(l).drop_last() =~= t);
        assert(Seq::<char>::empty() + l.last() =~= l.last());
        assert(d.push(l.last()) =~= l);
    }
}
/// reading back what was joined gives the same names
proof fn lemma_words_join(l: Seq<Seq<char>>)
    requires all_words(l),
    ensures words(join(l)) == l,
{
    if l.len() == 0 {
        assert(l =~= words(join(l)));
    } else {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies is_word(#[trigger] d[i]) by { assert(d[i] == l[i]); }
        lemma_scan_join_open(d);
        lemma_join_open(l);
        assert(is_word(l[l.len() - 1]));
        lemma_scan_word(join_open(d), l.last());
        assert(Seq::<char>::empty() + l.last() =~= l.last());
        assert(d.push(l.last()) =~= l);
    }
}
//@ fn mesdoc/utils.rs get_class_list
//@ prop C05 C10
//@ ret r
//@ rule method is_ascii_whitespace => vx_is_ascii_whitespace
//@ header
    ensures
        chars_of(r@) == words(attr_class@),
        all_words(words(attr_class@)),
//@ loop 0
    invariant
        __s0@ == attr_class@,
        __i0 <= __s0.len(),
        chars_of(class_list@) == scan(attr_class@.take(__i0 as int)).0,
        class_name@ == scan(attr_class@.take(__i0 as int)).1,
        prev_is_whitespace == (class_name@.len() == 0),
//@ at loop-start 0
    proof {
        let t = attr_class@.take(__i0 as int);
        assert(t.drop_last() =~= attr_class@.take(__i0 - 1));
        assert(t.last() == ch);
        let l = chars_of(class_list@);
        assert forall|v: Vec<char>| #[trigger] chars_of(class_list@.push(v)) == l.push(v@) by { assert(chars_of(class_list@.push(v)) =~= l.push(v@)); }
        assert forall|v: Vec<char>| v@.len() == 0 implies v@ == Seq::<char>::empty() by { assert(v@ =~= Seq::empty()); }
    }
//@ at pre-loop 0
    proof { assert(chars_of(class_list@) =~= Seq::empty()); assert(class_name@ =~= Seq::empty()); }
//@ at loop-exit 0
    proof {
        assert(attr_class@.take(__i0 as int) =~= attr_class@);
        lemma_scan_all_words(attr_class@);
        let l = chars_of(class_list@);
        assert forall|v: Vec<char>| #[trigger] chars_of(class_list@.push(v)) == l.push(v@) by { assert(chars_of(class_list@.push(v)) =~= l.push(v@)); }
    }

//@ emit
/// TRUSTED: an allocation is at most isize::MAX bytes, a Vec takes 24 of them
axiom fn axiom_list_len(v: &[Vec<char>])
    ensures v@.len() < 0x0555_5555_5555_5555;
//@ fn mesdoc/utils.rs class_list_to_string
//@ prop C05
//@ ret r
//@ header
    ensures r@ == join(chars_of(class_list@)),
//@ at start
    proof {
        axiom_list_len(class_list);
        if class_list@.len() > 0 {
            lemma_join_open(chars_of(class_list@));
            assert(chars_of(class_list@).drop_last() =~= chars_of(class_list@.drop_last()));
        }
    }
//@ loop 0
    invariant
        last_index < class_list@.len(),
        __s0@ == class_list@.take(last_index as int),
        __i0 <= __s0.len(),
        attr_class@ == join_open(chars_of(__s0@.take(__i0 as int))),
//@ at pre-loop 0
    proof { assert(chars_of(__s0@.take(0)) =~= Seq::empty()); assert(attr_class@ =~= Seq::empty()); }
//@ at loop-start 0
    let ghost before = attr_class@;
    proof {
        let a = chars_of(__s0@.take(__i0 as int));
        assert(a.drop_last() =~= chars_of(__s0@.take(__i0 - 1)));
        assert(a.last() == name@);
    }
//@ at loop-end 0
    proof { assert(attr_class@ =~= before + name@ + seq![' ']); }
//@ at loop-exit 0
    proof { assert(__s0@.take(__i0 as int) =~= class_list@.drop_last()); }
//@ emit
