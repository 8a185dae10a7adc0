//@ include base.vx
global size_of usize == 8;
//@ include heap.vx
//@ include keep.vx
//@ include domlib.vx
//@ include domelems.vx
//@ rule-all heap => 1
//@ rule-all hm parent => &h.parent
//@ rule-all hm remove_child => h
//@ rule-all hm insert_adjacent => h
//@ rule-all hm insert => h
//@ rule-all hm replace => h
//@ emit
impl<'a> Handle<'a> {
//@ contract dom.vx INodeTrait@Rc::parent
//@ contract dom.vx IElementTrait@Rc::remove_child
//@ contract dom.vx IElementTrait@Rc::insert_adjacent
//@ contract dom.vx IElementTrait@Rc::replace_with
//@ emit
}
spec fn ins(p: InsertPosition, d: int) -> spec_fn(Heap, Heap, int) -> bool {
    |a: Heap, b: Heap, n: int| wf(&a) && wf(&b) && others(&b, &a) && same(tree(&b), inserted(&a, p, d, n))
}
/// the order in which nodes are put one after the other at the same place so that they end up as they were listed
spec fn turn(p: InsertPosition, ns: Seq<int>) -> Seq<int> { if p is BeforeBegin || p is BeforeEnd { ns } else { ns.reverse() } }
/// all of ns put at the place p of d
spec fn ins_all(p: InsertPosition, ns: Seq<int>) -> spec_fn(Heap, Heap, int) -> bool {
    |a: Heap, b: Heap, d: int| run(ins(p, d), a, b, turn(p, ns))
}
spec fn unlike(h: &Heap, g: &Heap) -> bool { others(h, g) }
/// TRUSTED: slice::split_last
#[verifier::external_body]
fn vx_split_last<T>(s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures r is Some == (s@.len() > 0), r matches Some((a, b)) ==> *a == s@.last() && b@ == s@.drop_last(),
{ s.split_last() }
/// what a handle to d stands for after replace_with(n)
spec fn successor(a: &Heap, d: int, n: int) -> int { if valid(a, d, n) && tree(a).p(d) is Some && moved(a, n).len() == 1 { moved(a, n)[0] } else { d } }
spec fn repl1(a: Heap, b: Heap, d: int, n: int) -> bool { wf(&a) && wf(&b) && others(&b, &a) && same(tree(&b), replaced(&a, d, n)) }
/// the last of ns in the place of d, the others before it
spec fn repl(ns: Seq<int>) -> spec_fn(Heap, Heap, int) -> bool {
    |a: Heap, b: Heap, d: int| if ns.len() == 0 { a == b } else { exists|m: Heap| #[trigger] repl1(a, m, d, ns.last()) && run(ins(BeforeBegin, successor(&a, d, ns.last())), m, b, ns.drop_last()) }
}
/// IntoIterator of Elements gives the nodes, in order
fn vx_into<'a>(v: Elements<'a>) -> (r: Vec<Handle<'a>>)
    ensures r@ == v.nodes@,
{ v.nodes }
/// TRUSTED: `for x in v` moves the elements out, one after the other (each index is taken once)
#[verifier::external_body]
fn vx_take<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@ == old(v)@,
{ unimplemented!() }
proof fn lemma_taken_same(s: Tree, t: Tree, n: int)
    requires same(s, t),
    ensures same(taken(s, n), taken(t, n)),
{
    assert(s.p(n) == t.p(n));
    if s.p(n) is Some {
        let q = s.p(n)->0;
        assert(s.k(q) == t.k(q));
        let a = taken(s, n); let b = taken(t, n);
        assert forall|m: int| #[trigger] a.p(m) == b.p(m) by { assert(s.p(m) == t.p(m)); }
        assert forall|m: int| #[trigger] a.k(m) == b.k(m) by { assert(s.k(m) == t.k(m)); }
    }
}
spec fn taken_all(t: Tree, ns: Seq<int>) -> Tree
    decreases ns.len(),
{ if ns.len() == 0 { t } else { taken(taken_all(t, ns.drop_last()), ns.last()) } }
// ---------------------------------------------------------------- what the calls on one target amount to: the nodes, in the order listed, at the place asked for
spec fn but(n: int) -> spec_fn(int) -> bool { |x: int| x != n }
spec fn drop(s: Seq<int>, n: int) -> Seq<int> { s.filter(but(n)) }
/// s without the nodes of w
spec fn rm(s: Seq<int>, w: Seq<int>) -> Seq<int>
    decreases w.len(),
{ if w.len() == 0 { s } else { drop(rm(s, w.drop_last()), w.last()) } }
spec fn forth(p: InsertPosition) -> bool { p is BeforeBegin || p is BeforeEnd }
/// the list that is changed
spec fn owner(t: Tree, p: InsertPosition, d: int) -> int { if inside(p) { d } else { t.p(d)->0 } }
/// where in it
spec fn spot(t: Tree, p: InsertPosition, d: int) -> int {
    match p { BeforeBegin => place(t, d), AfterEnd => place(t, d) + 1, AfterBegin => 0, BeforeEnd => t.k(d).len() as int }
}
proof fn lemma_drop_not(s: Seq<int>, n: int)
    requires !s.contains(n),
    ensures drop(s, n) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|x: int| r.contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(s[i] == x); }
        lemma_drop_not(r, n);
        assert(s.contains(s.last())) by { assert(s[s.len() - 1] == s.last()); }
        assert(r.push(s.last()) =~= s);
    } else { assert(drop(s, n) =~= s); }
}
proof fn lemma_drop_add(s: Seq<int>, r: Seq<int>, n: int)
    ensures drop(s + r, n) == drop(s, n) + drop(r, n),
    decreases r.len(),
{
    reveal(Seq::filter);
    if r.len() == 0 { assert(s + r =~= s); assert(drop(s, n) + drop(r, n) =~= drop(s, n)); }
    else {
        lemma_drop_add(s, r.drop_last(), n);
        assert((s + r).drop_last() =~= s + r.drop_last());
        assert((s + r).last() == r.last());
        assert(drop(s + r, n) =~= drop(s, n) + drop(r, n));
    }
}
proof fn lemma_drop_at(s: Seq<int>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures drop(s, s[i]) == s.take(i) + s.skip(i + 1),
{
    let n = s[i];
    let a = s.take(i); let b = s.skip(i + 1); let o = seq![n];
    assert(s =~= a + (o + b));
    lemma_drop_add(a, o + b, n);
    lemma_drop_add(o, b, n);
    assert(!a.contains(n)) by { if a.contains(n) { let j = choose|j: int| 0 <= j < a.len() && a[j] == n; assert(s[j] == n); } }
    assert(!b.contains(n)) by { if b.contains(n) { let j = choose|j: int| 0 <= j < b.len() && b[j] == n; assert(s[i + 1 + j] == n); } }
    lemma_drop_not(a, n);
    lemma_drop_not(b, n);
    lemma_one(n, but(n));
    assert(drop(o, n) =~= Seq::<int>::empty());
    assert(a + (drop(o, n) + b) =~= a + b);
}
/// taking n out: gone from every list, everything else in place
proof fn lemma_taken(t: Tree, n: int)
    requires ok(t),
    ensures
        ok(taken(t, n)),
        forall|m: int| #[trigger] taken(t, n).k(m) == drop(t.k(m), n),
        forall|m: int| #[trigger] taken(t, n).p(m) == (if m == n { None } else { t.p(m) }),
{
    let s = taken(t, n);
    reveal(ok);
    if t.p(n) is Some {
        let q = t.p(n)->0;
        let i = place(t, n);
        assert(t.k(q).contains(n));
        assert(0 <= i < t.k(q).len() && t.k(q)[i] == n);
        lemma_splice(t, q, i, 1, Seq::empty());
        lemma_drop_at(t.k(q), i);
        let mid = t.k(q).subrange(i, i + 1);
        assert(mid =~= seq![n]);
        assert forall|m: int| #[trigger] s.k(m) == drop(t.k(m), n) by {
            if m == q { assert(t.k(q).take(i) + Seq::<int>::empty() + t.k(q).skip(i + 1) =~= t.k(q).take(i) + t.k(q).skip(i + 1)); }
            else { lemma_elsewhere(t, m, n); }
        }
        assert forall|m: int| #[trigger] s.p(m) == (if m == n { None } else { t.p(m) }) by {
            assert(mid.contains(n)) by { assert(mid[0] == n); }
            assert(!Seq::<int>::empty().contains(m));
        }
    } else {
        assert forall|m: int| #[trigger] s.k(m) == drop(t.k(m), n) by { lemma_elsewhere(t, m, n); }
    }
}
proof fn lemma_elsewhere(t: Tree, m: int, n: int)
    requires ok(t), t.p(n) != Some(m),
    ensures drop(t.k(m), n) == t.k(m),
{
    reveal(ok);
    if t.k(m).contains(n) { let j = choose|j: int| 0 <= j < t.k(m).len() && t.k(m)[j] == n; assert(t.p(t.k(m)[j]) == Some(m)); }
    lemma_drop_not(t.k(m), n);
}
/// nothing changes above x when n, which is not above it, gets another parent
proof fn lemma_up_same(s: Tree, t: Tree, n: int, x: int, k: nat)
    requires forall|m: int| m != n ==> #[trigger] s.p(m) == t.p(m), !above(t, n, x),
    ensures up(s, x, k) == up(t, x, k),
    decreases k,
{
    lemma_above_refl(t, x);
    if k > 0 {
        assert(s.p(x) == t.p(x));
        lemma_above_up(t, n, x);
        match t.p(x) { Some(y) => { lemma_up_same(s, t, n, y, (k - 1) as nat); } _ => {} }
    }
}
proof fn lemma_above_same(s: Tree, t: Tree, n: int, x: int, z: int)
    requires forall|m: int| m != n ==> #[trigger] s.p(m) == t.p(m), !above(t, n, x),
    ensures above(s, z, x) == above(t, z, x),
{
    if above(t, z, x) { let k = choose|k: nat| #[trigger] up(t, x, k) == Some(z); lemma_up_same(s, t, n, x, k); assert(up(s, x, k) == Some(z)); }
    if above(s, z, x) { let k = choose|k: nat| #[trigger] up(s, x, k) == Some(z); lemma_up_same(s, t, n, x, k); assert(up(t, x, k) == Some(z)); }
}
/// d may take each of w, elements all of them
spec fn takes(a: &Heap, p: InsertPosition, d: int, w: Seq<int>) -> bool {
    &&& wf(a) && a.node_type.get(d) == NodeType::Tag && (inside(p) || tree(a).p(d) is Some) && w.no_duplicates()
    &&& forall|i: int| 0 <= i < w.len() ==> a.node_type.get(#[trigger] w[i]) == NodeType::Tag && !above(tree(a), w[i], d) && (inside(p) ==> allowed(tag(d), NodeType::Tag))
}
/// w, taken one after the other, is in its place; nothing else has moved
spec fn placed(s: Tree, t: Tree, p: InsertPosition, d: int, w: Seq<int>) -> bool {
    let q = owner(s, p, d);
    let i = spot(s, p, d);
    &&& t.k(q) == rm(s.k(q).take(i), w) + (if forth(p) { w } else { w.reverse() }) + rm(s.k(q).skip(i), w)
    &&& forall|m: int| m != q ==> #[trigger] t.k(m) == rm(s.k(m), w)
    &&& forall|m: int| #[trigger] t.p(m) == (if w.contains(m) { Some(q) } else { s.p(m) })
}
/// one node goes in: out of its old place, then in at the spot
proof fn lemma_step_shape(m: &Heap, p: InsertPosition, d: int, n: int)
    requires wf(m), m.node_type.get(n) == NodeType::Tag, m.node_type.get(d) == NodeType::Tag, !above(tree(m), n, d), inside(p) ==> allowed(tag(d), NodeType::Tag), !inside(p) ==> tree(m).p(d) is Some,
    ensures
        n != d,
        owner(taken(tree(m), n), p, d) == owner(tree(m), p, d),
        inserted(m, p, d, n) == splice(taken(tree(m), n), owner(tree(m), p, d), spot(taken(tree(m), n), p, d), 0, seq![n]),
{
    let t = tree(m);
    lemma_above_refl(t, d);
    lemma_taken(t, n);
    assert(valid(m, d, n));
    assert(moved(m, n) =~= seq![n]);
    let one = seq![n];
    let u = taken(t, n);
    assert(u.p(d) == t.p(d));
    if inside(p) {
        assert(fits(m, tag(d))(n));
        lemma_one(n, fits(m, tag(d)));
    }
    assert(inserted(m, p, d, n) == put(u, p, d, one));
}
proof fn lemma_one(n: int, f: spec_fn(int) -> bool)
    ensures seq![n].filter(f) == (if f(n) { seq![n] } else { Seq::empty() }),
{
    let one = seq![n];
    reveal_with_fuel(Seq::filter, 3);
    assert(one.len() == 1 && one.last() == n);
    assert(one.drop_last() =~= Seq::<int>::empty());
    assert(one.drop_last().filter(f) =~= Seq::<int>::empty());
    assert(one.filter(f) =~= (if f(n) { seq![n] } else { Seq::empty() }));
}
proof fn lemma_index(s: Seq<int>, d: int, c: int)
    requires s.no_duplicates(), 0 <= c < s.len(), s[c] == d,
    ensures s.index_of(d) == c,
{ let e = s.index_of(d); assert(s.contains(d)); assert(s[e] == d); }
proof fn lemma_step_spot(u: Tree, p: InsertPosition, d: int, x: Seq<int>, y: Seq<int>, z: Seq<int>)
    requires
        ok(u), u.k(owner(u, p, d)) == x + y + z,
        p is BeforeBegin ==> z.len() > 0 && z[0] == d,
        p is AfterEnd ==> x.len() > 0 && x.last() == d,
        p is BeforeEnd ==> z.len() == 0,
        p is AfterBegin ==> x.len() == 0,
    ensures spot(u, p, d) == (if forth(p) { (x + y).len() as int } else { x.len() as int }),
{
    let l = x + y + z;
    assert(l.no_duplicates()) by { reveal(ok); }
    if p is BeforeBegin { assert(l[(x + y).len() as int] == d); lemma_index(l, d, (x + y).len() as int); }
    if p is AfterEnd { assert(l[x.len() - 1] == d); lemma_index(l, d, x.len() - 1); }
}
proof fn lemma_in(w: Seq<int>, e: int)
    requires w.len() > 0,
    ensures w.contains(e) == (w.drop_last().contains(e) || e == w.last()),
{
    let v = w.drop_last();
    if w.contains(e) { let j = choose|j: int| 0 <= j < w.len() && w[j] == e; if j < v.len() { assert(v[j] == e); } }
    if v.contains(e) { let j = choose|j: int| 0 <= j < v.len() && v[j] == e; assert(w[j] == e); }
    assert(w[w.len() - 1] == w.last());
}
/// how the list with the nodes reads with n out of it
proof fn lemma_step_list(u: Seq<int>, t: Seq<int>, x: Seq<int>, y: Seq<int>, z: Seq<int>, n: int)
    requires t == x + y + z, u == drop(t, n), !y.contains(n),
    ensures u == drop(x, n) + y + drop(z, n),
{
    lemma_drop_add(x + y, z, n);
    lemma_drop_add(x, y, n);
    lemma_drop_not(y, n);
}
proof fn lemma_step_join(x: Seq<int>, z: Seq<int>, v: Seq<int>, n: int, f: bool)
    ensures ({
        let y = if f { v } else { v.reverse() };
        let l = x + y + z;
        let c = if f { (x + y).len() as int } else { x.len() as int };
        let w = v.push(n);
        l.take(c) + seq![n] + l.skip(c) == x + (if f { w } else { w.reverse() }) + z
    }),
{
    let w = v.push(n);
    let y = if f { v } else { v.reverse() };
    let l = x + y + z;
    if f {
        let c = (x + y).len() as int;
        assert(l.take(c) =~= x + v);
        assert(l.skip(c) =~= z);
        assert((x + v) + seq![n] + z =~= x + w + z);
    } else {
        let c = x.len() as int;
        assert(l.take(c) =~= x);
        assert(l.skip(c) =~= v.reverse() + z);
        assert(w.reverse() =~= seq![n] + v.reverse());
        assert(x + seq![n] + (v.reverse() + z) =~= x + (seq![n] + v.reverse()) + z);
    }
}
spec fn edge(t: Tree, p: InsertPosition, d: int, v: Seq<int>) -> bool {
    let l = t.k(owner(t, p, d)); let i = spot(t, p, d);
    &&& p is BeforeBegin ==> rm(l.skip(i), v).len() > 0 && rm(l.skip(i), v)[0] == d
    &&& p is AfterEnd ==> rm(l.take(i), v).len() > 0 && rm(l.take(i), v).last() == d
    &&& p is BeforeEnd ==> rm(l.skip(i), v).len() == 0
    &&& p is AfterBegin ==> rm(l.take(i), v).len() == 0
}
proof fn lemma_edge(t: Tree, p: InsertPosition, d: int, w: Seq<int>)
    requires w.len() > 0, w.last() != d, edge(t, p, d, w.drop_last()),
    ensures edge(t, p, d, w),
{
    let l = t.k(owner(t, p, d)); let i = spot(t, p, d); let v = w.drop_last();
    if p is BeforeBegin { lemma_drop_head(rm(l.skip(i), v), w.last()); }
    if p is AfterEnd { lemma_drop_tail(rm(l.take(i), v), w.last()); }
    lemma_drop_len(rm(l.skip(i), v), w.last());
    lemma_drop_len(rm(l.take(i), v), w.last());
}
proof fn lemma_placed_step(a: &Heap, m: &Heap, b: &Heap, p: InsertPosition, d: int, w: Seq<int>)
    requires
        w.len() > 0, takes(a, p, d, w), placed(tree(a), tree(m), p, d, w.drop_last()), others(m, a), wf(m),
        forall|z: int| #[trigger] above(tree(m), z, d) == above(tree(a), z, d),
        same(tree(b), inserted(m, p, d, w.last())),
        edge(tree(a), p, d, w.drop_last()),
    ensures
        placed(tree(a), tree(b), p, d, w),
        forall|z: int| #[trigger] above(tree(b), z, d) == above(tree(a), z, d),
        edge(tree(a), p, d, w),
{
    hide(ok); hide(Seq::filter); hide(inserted); hide(taken);
    let n = w.last();
    let v = w.drop_last();
    assert(w[w.len() - 1] == n);
    assert(above(tree(m), n, d) == above(tree(a), n, d));
    let s = tree(a);
    let t = tree(m);
    let q = owner(s, p, d);
    let i = spot(s, p, d);
    lemma_above_refl(s, d);
    assert(!v.contains(n)) by { if v.contains(n) { let j = choose|j: int| 0 <= j < v.len() && v[j] == n; assert(w[j] == n); } }
    assert(!v.contains(d)) by { if v.contains(d) { let j = choose|j: int| 0 <= j < v.len() && v[j] == d; assert(!above(s, w[j], d)); } }
    assert(t.p(d) == s.p(d));
    lemma_step_shape(m, p, d, n);
    lemma_edge(s, p, d, w);
    let u = taken(t, n);
    lemma_taken(t, n);
    assert(owner(t, p, d) == q);
    let x = rm(s.k(q).take(i), v);
    let y = if forth(p) { v } else { v.reverse() };
    let z = rm(s.k(q).skip(i), v);
    assert(!y.contains(n)) by { if y.contains(n) { let j = choose|j: int| 0 <= j < y.len() && y[j] == n; if forth(p) { assert(v[j] == n); } else { assert(v[v.len() - 1 - j] == n); } } }
    assert(u.k(q) == drop(t.k(q), n));
    lemma_step_list(u.k(q), t.k(q), x, y, z, n);
    let x1 = rm(s.k(q).take(i), w); let z1 = rm(s.k(q).skip(i), w);
    assert(u.k(q) == x1 + y + z1);
    lemma_step_spot(u, p, d, x1, y, z1);
    let c = spot(u, p, d);
    let r = splice(u, q, c, 0, seq![n]);
    assert(w =~= v.push(n));
    lemma_step_join(x1, z1, v, n, forth(p));
    assert(r.k(q) == u.k(q).take(c) + seq![n] + u.k(q).skip(c + 0));
    assert(tree(b).k(q) == r.k(q));
    assert forall|e: int| e != q implies #[trigger] tree(b).k(e) == rm(s.k(e), w) by { assert(tree(b).k(e) == r.k(e)); assert(r.k(e) == u.k(e)); assert(u.k(e) == drop(t.k(e), n)); assert(t.k(e) == rm(s.k(e), v)); }
    assert forall|e: int| #[trigger] tree(b).p(e) == (if w.contains(e) { Some(q) } else { s.p(e) }) by {
        assert(tree(b).p(e) == r.p(e));
        assert(!u.k(q).subrange(c, c + 0).contains(e));
        assert(seq![n].contains(e) == (e == n)) by { assert(seq![n][0] == n); }
        assert(u.p(e) == (if e == n { None } else { t.p(e) }));
        assert(t.p(e) == (if v.contains(e) { Some(q) } else { s.p(e) }));
        lemma_in(w, e);
    }
    assert forall|e: int| e != n implies #[trigger] tree(b).p(e) == t.p(e) by { assert(t.p(e) == (if v.contains(e) { Some(q) } else { s.p(e) })); lemma_in(w, e); }
    assert forall|g: int| #[trigger] above(tree(b), g, d) == above(s, g, d) by {
        lemma_above_same(tree(b), t, n, d, g);
        assert(above(t, g, d) == above(s, g, d));
    }
}
proof fn lemma_drop_len(s: Seq<int>, n: int)
    ensures drop(s, n).len() <= s.len(),
    decreases s.len(),
{ reveal(Seq::filter); if s.len() > 0 { lemma_drop_len(s.drop_last(), n); } }
proof fn lemma_drop_head(s: Seq<int>, n: int)
    requires s.len() > 0, s[0] != n,
    ensures drop(s, n).len() > 0, drop(s, n)[0] == s[0],
{
    let o = seq![s[0]];
    assert(s =~= o + s.skip(1));
    lemma_drop_add(o, s.skip(1), n);
    assert(!o.contains(n)) by { if o.contains(n) { assert(o[0] == s[0]); } }
    lemma_drop_not(o, n);
}
proof fn lemma_drop_tail(s: Seq<int>, n: int)
    requires s.len() > 0, s.last() != n,
    ensures drop(s, n).len() > 0, drop(s, n).last() == s.last(),
{ reveal(Seq::filter); }
/// THEOREM: insert on one target. Nodes that may stand there end up there in the order listed, wherever they were before;
/// they leave their old places and nothing else moves
proof fn theorem_insert(a: Heap, b: Heap, p: InsertPosition, d: int, ns: Seq<int>)
    requires takes(&a, p, d, ns), ins_all(p, ns)(a, b, d),
    ensures placed(tree(&a), tree(&b), p, d, turn(p, ns)),
{
    let w = turn(p, ns);
    assert(takes(&a, p, d, w)) by {
        if !forth(p) {
            assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] != w[j] by { assert(w[i] == ns[ns.len() - 1 - i] && w[j] == ns[ns.len() - 1 - j]); }
            assert forall|i: int| 0 <= i < w.len() implies a.node_type.get(#[trigger] w[i]) == NodeType::Tag && !above(tree(&a), w[i], d) && (inside(p) ==> allowed(tag(d), NodeType::Tag)) by { assert(w[i] == ns[ns.len() - 1 - i]); }
        }
    }
    lemma_placed(a, b, p, d, w);
}
proof fn lemma_placed(a: Heap, b: Heap, p: InsertPosition, d: int, w: Seq<int>)
    requires takes(&a, p, d, w), run(ins(p, d), a, b, w),
    ensures
        placed(tree(&a), tree(&b), p, d, w), others(&b, &a), wf(&b),
        forall|z: int| #[trigger] above(tree(&b), z, d) == above(tree(&a), z, d),
        edge(tree(&a), p, d, w),
    decreases w.len(),
{
    let s = tree(&a);
    let q = owner(s, p, d);
    let i = spot(s, p, d);
    let l = s.k(q);
    reveal(ok);
    if !inside(p) { assert(l.contains(d)); assert(0 <= place(s, d) < l.len() && l[place(s, d)] == d); }
    if w.len() == 0 {
        assert(l =~= l.take(i) + (if forth(p) { w } else { w.reverse() }) + l.skip(i));
    } else {
        let v = w.drop_last();
        let m = choose|m: Heap| run(ins(p, d), a, m, v) && #[trigger] ins(p, d)(m, b, w.last());
        assert(takes(&a, p, d, v)) by { assert forall|j: int| 0 <= j < v.len() implies a.node_type.get(#[trigger] v[j]) == NodeType::Tag && !above(tree(&a), v[j], d) && (inside(p) ==> allowed(tag(d), NodeType::Tag)) by { assert(v[j] == w[j]); } }
        lemma_placed(a, m, p, d, v);
        lemma_placed_step(&a, &m, &b, p, d, w);
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::insert
//@ prop C07 C08
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), final(self).ids() == old(self).ids(),
        run(ins_all(*position, dest.ids()), *old(h), *final(h), old(self).ids()),
//@ at start
    let ghost ids0 = self.ids();
    let ghost ns = dest.ids();
    let ghost h0 = *h;
    let ghost f = ins_all(*position, ns);
    proof { lemma_run_none(f, h0); assert(ids0.take(0) =~= Seq::empty()); }
//@ loop 0 mut
    invariant
        wf(h), others(h, &h0), hids(__s0@) == ids0, __i0 <= __s0@.len(), ns == dest.ids(), f == ins_all(*position, ns),
        run(f, h0, *h, ids0.take(__i0 as int)),
//@ at loop-start 0
    let ghost h1 = *h;
    let ghost d = rid(ele);
    let ghost g = ins(*position, d);
    proof { assert(ids0[__i0 - 1] == d); lemma_run_none(g, h1); assert(ns.take(0) =~= Seq::empty()); assert(ns.reverse().take(0) =~= Seq::empty()); }
//@ loop 1
    invariant
        wf(h), others(h, &h1), __s1@ == dest.nodes@, ns == dest.ids(), __i1 <= __s1@.len(), rid(ele) == d, g == ins(*position, d),
        run(g, h1, *h, ns.take(__i1 as int)),
//@ at loop-start 1
    let ghost h2 = *h;
//@ at loop-end 1
    proof { lemma_run_step(g, h1, h2, *h, ns.take(__i1 - 1), ns[__i1 - 1]); assert(ns.take(__i1 as int) =~= ns.take(__i1 - 1).push(ns[__i1 - 1])); }
//@ at loop-exit 1
    proof { assert(ns.take(__i1 as int) =~= turn(*position, ns)); }
//@ loop 2
    invariant
        wf(h), others(h, &h1), __s2@ == dest.nodes@, ns == dest.ids(), __i2 <= __s2@.len(), rid(ele) == d, g == ins(*position, d),
        run(g, h1, *h, ns.reverse().take(__i2 as int)),
//@ at loop-start 2
    let ghost h2 = *h;
//@ at loop-end 2
    proof { let rs = ns.reverse(); assert(rs[__i2 - 1] == rid(inserted)); lemma_run_step(g, h1, h2, *h, rs.take(__i2 - 1), rs[__i2 - 1]); assert(rs.take(__i2 as int) =~= rs.take(__i2 - 1).push(rs[__i2 - 1])); }
//@ at loop-exit 2
    proof { assert(ns.reverse().take(__i2 as int) =~= turn(*position, ns)); }
//@ at loop-end 0
    proof { lemma_run_step(f, h0, h1, *h, ids0.take(__i0 - 1), d); assert(ids0.take(__i0 as int) =~= ids0.take(__i0 - 1).push(d)); }
//@ at loop-exit 0
    proof { assert(ids0.take(__i0 as int) =~= ids0); }
//@ fn mesdoc/interface/elements.rs Elements::replace
//@ prop C07 C08
//@ rule sigarg => h: &mut Heap
//@ rule method split_last => vx_split_last
//@ rule hm replace_with => h
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)),
        run(repl(dest.ids()), *old(h), *final(h), old(self).ids()),
//@ at start
    let ghost ids0 = self.ids();
    let ghost ns = dest.ids();
    let ghost h0 = *h;
    let ghost f = repl(ns);
    proof { lemma_run_none(f, h0); assert(ids0.take(0) =~= Seq::empty()); }
//@ loop 0 mut
    invariant
        wf(h), others(h, &h0), __s0@.len() == ids0.len(), forall|i: int| __i0 <= i < __s0@.len() ==> rid(&#[trigger] __s0@[i]) == ids0[i],
        __i0 <= __s0@.len(), ns == dest.ids(), f == repl(ns),
        run(f, h0, *h, ids0.take(__i0 as int)),
//@ at loop-start 0
    let ghost h1 = *h;
    let ghost d = rid(ele);
//@ at after ele.replace_with(last);
    let ghost h3 = *h;
    let ghost e = rid(ele);
    let ghost g = ins(BeforeBegin, e);
    proof { assert(ns.last() == rid(last)); assert(e == successor(&h1, d, ns.last())); lemma_run_none(g, h3); assert(ns.drop_last().take(0) =~= Seq::empty()); }
//@ loop 1
    invariant
        wf(h), unlike(h, &h3), __s1@ == others@, others@ =~= dest.nodes@.drop_last(), ns == dest.ids(), __i1 <= __s1@.len(), rid(ele) == e, g == ins(BeforeBegin, e),
        ns.len() > 0,
        run(g, h3, *h, ns.drop_last().take(__i1 as int)),
//@ at loop-start 1
    let ghost h2 = *h;
//@ at loop-end 1
    proof { let w = ns.drop_last(); assert(w[__i1 - 1] == rid(inserted)); lemma_run_step(g, h3, h2, *h, w.take(__i1 - 1), w[__i1 - 1]); assert(w.take(__i1 as int) =~= w.take(__i1 - 1).push(w[__i1 - 1])); }
//@ at loop-exit 1
    proof { assert(ns.drop_last().take(__i1 as int) =~= ns.drop_last()); assert(repl1(h1, h3, d, ns.last())); assert(e == successor(&h1, d, ns.last())); assert(run(ins(BeforeBegin, successor(&h1, d, ns.last())), h3, *h, ns.drop_last())); assert(f(h1, *h, d)); }
//@ at loop-end 0
    proof { assert(ids0[__i0 - 1] == d); if ns.len() == 0 { assert(f(h1, *h, d)); } lemma_run_step(f, h0, h1, *h, ids0.take(__i0 - 1), d); assert(ids0.take(__i0 as int) =~= ids0.take(__i0 - 1).push(d)); }
//@ at loop-exit 0
    proof { assert(ids0.take(__i0 as int) =~= ids0); }
//@ fn mesdoc/interface/elements.rs Elements::append
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), r.ids() == old(self).ids(), *final(self) == *final(r), *final(elements) == *old(elements),
        run(ins_all(BeforeEnd, old(elements).ids()), *old(h), *final(h), old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::prepend
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), r.ids() == old(self).ids(), *final(self) == *final(r), *final(elements) == *old(elements),
        run(ins_all(AfterBegin, old(elements).ids()), *old(h), *final(h), old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::before
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), r.ids() == old(self).ids(), *final(self) == *final(r), *final(elements) == *old(elements),
        run(ins_all(BeforeBegin, old(elements).ids()), *old(h), *final(h), old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::after
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), r.ids() == old(self).ids(), *final(self) == *final(r), *final(elements) == *old(elements),
        run(ins_all(AfterEnd, old(elements).ids()), *old(h), *final(h), old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::append_to
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ rule hm append => h
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), *r == *old(self), *final(self) == *final(r), final(elements).ids() == old(elements).ids(),
        run(ins_all(BeforeEnd, old(self).ids()), *old(h), *final(h), old(elements).ids()),
//@ fn mesdoc/interface/elements.rs Elements::prepend_to
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ rule hm prepend => h
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), *r == *old(self), *final(self) == *final(r), final(elements).ids() == old(elements).ids(),
        run(ins_all(AfterBegin, old(self).ids()), *old(h), *final(h), old(elements).ids()),
//@ fn mesdoc/interface/elements.rs Elements::insert_before
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ rule hm before => h
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), *r == *old(self), *final(self) == *final(r), final(elements).ids() == old(elements).ids(),
        run(ins_all(BeforeBegin, old(self).ids()), *old(h), *final(h), old(elements).ids()),
//@ fn mesdoc/interface/elements.rs Elements::insert_after
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ rule hm after => h
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), *r == *old(self), *final(self) == *final(r), final(elements).ids() == old(elements).ids(),
        run(ins_all(AfterEnd, old(self).ids()), *old(h), *final(h), old(elements).ids()),
//@ fn mesdoc/interface/elements.rs Elements::replace_with
//@ prop C07 C08
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)), *final(self) == *final(r), *final(elements) == *old(elements),
        run(repl(old(elements).ids()), *old(h), *final(h), old(self).ids()),
//@ fn mesdoc/interface/elements.rs Elements::remove
//@ prop C07 C08
//@ rule sig self => self, h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), others(final(h), old(h)),
        same(tree(final(h)), taken_all(tree(old(h)), self.ids())),
//@ at start
    let ghost ids0 = self.ids();
    let ghost h0 = *h;
    proof { assert(ids0.take(0) =~= Seq::empty()); }
//@ loop 0 val
    invariant
        wf(h), others(h, &h0), hids(__s0@) == ids0, __i0 <= __s0@.len(),
        same(tree(h), taken_all(tree(&h0), ids0.take(__i0 as int))),
//@ at loop-start 0
    let ghost h1 = *h;
    let ghost n = rid(&ele);
//@ at loop-end 0
    proof {
        let w = ids0.take(__i0 as int);
        assert(w.drop_last() =~= ids0.take(__i0 - 1));
        assert(w.last() == n);
        lemma_taken_same(tree(&h1), taken_all(tree(&h0), w.drop_last()), n);
    }
//@ at loop-exit 0
    proof { assert(ids0.take(__i0 as int) =~= ids0); }
//@ emit
}
//@ emit
}
fn main() {}
