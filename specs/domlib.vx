// ---------------------------------------------------------------- the tree on the heap: definitions and lemmas shared by dom and domtext
proof fn lemma_take(v: Seq<RefNode>, k: int)
    requires 0 <= k < v.len(),
    ensures forall|m: int| #[trigger] inn(v.take(k + 1), m) == (inn(v.take(k), m) || m == rid(&v[k])),
{
    assert forall|m: int| #[trigger] inn(v.take(k + 1), m) == (inn(v.take(k), m) || m == rid(&v[k])) by {
        if inn(v.take(k + 1), m) { let i = rids(v.take(k + 1)).index_of(m); assert(rids(v.take(k + 1))[i] == m); if i < k { assert(rids(v.take(k))[i] == m); } }
        if inn(v.take(k), m) { let i = rids(v.take(k)).index_of(m); assert(rids(v.take(k))[i] == m); assert(rids(v.take(k + 1))[i] == m); }
        if m == rid(&v[k]) { assert(rids(v.take(k + 1))[k] == m); }
    }
}
uninterp spec fn isdoc(h: &Heap, n: int) -> bool;
spec fn kind(h: &Heap, n: int) -> INodeType {
    match h.node_type.get(n) {
        NodeType::AbstractRoot => if isdoc(h, n) { INodeType::Document } else { INodeType::DocumentFragement },
        NodeType::Comment => INodeType::Comment,
        NodeType::Text | NodeType::SpacesBetweenTag => INodeType::Text,
        NodeType::Tag => INodeType::Element,
        NodeType::XMLCDATA => INodeType::XMLCDATA,
        NodeType::HTMLDOCTYPE => INodeType::HTMLDOCTYPE,
        _ => INodeType::Other,
    }
}
impl<'a> Handle<'a> {
    /// TRUSTED: Node::is_document of rphtml, a function of the node and the child nodes of the root
    #[verifier::external_body]
    fn is_document(&self, h: &Heap) -> (r: (bool, bool))
        ensures r.0 == isdoc(h, rid(self)),
    { unimplemented!() }
    /// TRUSTED: Rc::ptr_eq behind the trait object (IElementTrait::is)
    #[verifier::external_body]
    fn is(&self, e: &Handle) -> (r: bool)
        ensures r == (rid(self) == rid(e)),
    { unimplemented!() }
}
spec fn others(h: &Heap, g: &Heap) -> bool { h.content == g.content && h.node_type == g.node_type }
proof fn lemma_same_refl(t: Tree) ensures same(t, t), {}
/// what may be inserted where: not into another kind than an element, no document, nothing into itself or below itself
spec fn valid(h: &Heap, d: int, n: int) -> bool {
    h.node_type.get(d) == NodeType::Tag && !(kind(h, n) is Document) && !above(tree(h), n, d)
}
uninterp spec fn allowed(tag: Seq<char>, t: NodeType) -> bool;
/// TRUSTED: allow_insert of rphtml, a function of the tag name and the kind of the node
#[verifier::external_body]
fn allow_insert(tag: &[char], t: NodeType) -> (r: bool)
    ensures r == allowed(tag@, t),
{ unimplemented!() }
trait VxVec<T> {
    fn vx_extend(&mut self, x: Vec<T>);
    spec fn vx_n(&self) -> nat;
    fn vx_splice(&mut self, r: std::ops::Range<usize>, x: Vec<T>)
        requires r.start <= r.end <= old(self).vx_n();
}
impl<T> VxVec<T> for Vec<T> {
    /// TRUSTED: Vec::extend appends
    #[verifier::external_body]
    fn vx_extend(&mut self, x: Vec<T>)
        ensures final(self)@ == old(self)@ + x@,
    { self.extend(x) }
    spec fn vx_n(&self) -> nat { self@.len() }
    /// TRUSTED: Vec::splice replaces the range, which must lie inside
    #[verifier::external_body]
    fn vx_splice(&mut self, r: std::ops::Range<usize>, x: Vec<T>)
        ensures final(self)@ == old(self)@.take(r.start as int) + x@ + old(self)@.skip(r.end as int),
    { self.splice(r, x); }
}
spec fn fits(h: &Heap, tag: Seq<char>) -> spec_fn(int) -> bool { |n: int| allowed(tag, h.node_type.get(n)) }
spec fn lists(idx: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == i }
proof fn lemma_lists(a: Seq<usize>, x: usize)
    ensures forall|i: int| #[trigger] lists(a.push(x), i) == (lists(a, i) || i == x),
{
    let b = a.push(x);
    assert forall|i: int| #[trigger] lists(b, i) == (lists(a, i) || i == x) by {
        if lists(a, i) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == i; assert(b[k] == i); }
        if i == x { assert(b[a.len() as int] == i); }
        if lists(b, i) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == i; if k < a.len() { assert(a[k] == i); } }
    }
}
proof fn lemma_keep_filter(s: Seq<RefNode>, n: int, idx: Seq<usize>, f: spec_fn(int) -> bool)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] lists(idx, i) == !f(rids(s)[i]),
    ensures rids(keep(s, n, idx)) == rids(s).take(n).filter(f),
    decreases n,
{
    reveal(Seq::filter);
    if n <= 0 {
        assert(rids(keep(s, n, idx)) =~= rids(s).take(n).filter(f));
    } else {
        lemma_keep_filter(s, n - 1, idx, f);
        assert(rids(s).take(n).drop_last() =~= rids(s).take(n - 1));
        assert(lists(idx, n - 1) == !f(rids(s)[n - 1]));
        assert(rids(keep(s, n, idx)) =~= rids(s).take(n).filter(f));
    }
}
//@ item mesdoc/interface/element.rs InsertPosition Clone Copy PartialEq Eq Structural
//@ emit
use InsertPosition::*;
/// Box<dyn Any>
#[verifier::external_body]
struct AnyNode(());
uninterp spec fn any_id(a: &AnyNode) -> int;
impl AnyNode {
    /// TRUSTED: every node is a RefNode, the only type of the crate that implements the node traits
    #[verifier::external_body]
    fn downcast<T>(self) -> (r: Result<Box<RefNode>, AnyNode>)
        ensures r is Ok, rid(&*(r->Ok_0)) == any_id(&self),
    { unimplemented!() }
}
uninterp spec fn tag(n: int) -> Seq<char>;
impl<'a> Handle<'a> {
    /// TRUSTED: the node itself
    #[verifier::external_body]
    fn to_node(self) -> (r: AnyNode)
        ensures any_id(&r) == rid(&self),
    { unimplemented!() }
    /// TRUSTED: the tag name, which no operation changes
    #[verifier::external_body]
    fn tag_names(&self) -> (r: Vec<char>)
        ensures r@ == tag(rid(self)),
    { unimplemented!() }
}
/// the nodes that an insertion of n moves: itself, or the child nodes of a fragment
spec fn moved(h: &Heap, n: int) -> Seq<int> { if kind(h, n) is DocumentFragement { tree(h).k(n) } else { seq![n] } }
spec fn without(h: &Heap, n: int) -> Tree { if kind(h, n) is DocumentFragement { cleared(tree(h), n) } else { taken(tree(h), n) } }
spec fn inside(p: InsertPosition) -> bool { p is AfterBegin || p is BeforeEnd }
/// ns put at the asked place
spec fn put(t: Tree, p: InsertPosition, d: int, ns: Seq<int>) -> Tree {
    if ns.len() == 0 { t } else {
        match p {
            BeforeBegin => splice(t, t.p(d)->0, place(t, d), 0, ns),
            AfterEnd => splice(t, t.p(d)->0, place(t, d) + 1, 0, ns),
            AfterBegin => splice(t, d, 0, 0, ns),
            BeforeEnd => splice(t, d, t.k(d).len() as int, 0, ns),
        }
    }
}
/// what insert_adjacent makes of the tree
spec fn inserted(h: &Heap, p: InsertPosition, d: int, n: int) -> Tree {
    if !valid(h, d, n) || (!inside(p) && tree(h).p(d) is None) { tree(h) }
    else { put(without(h, n), p, d, if inside(p) { moved(h, n).filter(fits(h, tag(d))) } else { moved(h, n) }) }
}
/// the nodes ns have been taken out of the tree and are in no list; t is the tree without them
#[verifier::opaque]
spec fn apart(h: &Heap, t: Tree, ns: Seq<int>, d: int) -> bool {
    &&& ok(t)
    &&& forall|m: int| #[trigger] tree(h).k(m) == t.k(m)
    &&& forall|m: int| ns.contains(m) || #[trigger] tree(h).p(m) == t.p(m)
    &&& forall|j: int| 0 <= j < ns.len() ==> t.p(#[trigger] ns[j]) is None && !above(t, ns[j], d)
    &&& ns.no_duplicates()
    &&& forall|q: int, i: int| 0 <= i < t.k(q).len() ==> h.index.get(#[trigger] t.k(q)[i]) == i
}
proof fn lemma_apart_same(h: &Heap, t: Tree, d: int)
    requires apart(h, t, Seq::empty(), d),
    ensures same(tree(h), t), wf(h),
{
    reveal(apart);
    assert(same(t, tree(h)));
    lemma_ok_same(t, tree(h));
}
/// some of the nodes left out
proof fn lemma_apart_filter(g: &Heap, h: &Heap, t: Tree, ns: Seq<int>, d: int, f: spec_fn(int) -> bool)
    requires
        apart(g, t, ns, d), h.childs == g.childs, h.index == g.index,
        forall|m: int| #[trigger] h.parent.get(m) == (if ns.contains(m) && !f(m) { None } else { g.parent.get(m) }),
    ensures apart(h, t, ns.filter(f), d),
{
    reveal(apart);
    let fs = ns.filter(f);
    lemma_filter_nodup(ns, f);
    assert forall|m: int| fs.contains(m) || #[trigger] tree(h).p(m) == t.p(m) by {
        if ns.contains(m) {
            let j = choose|j: int| 0 <= j < ns.len() && ns[j] == m;
            assert(t.p(ns[j]) is None);
            if f(m) { lemma_filter_in(ns, f, j); }
        } else { assert(tree(g).p(m) == t.p(m)); }
    }
    assert forall|j: int| 0 <= j < fs.len() implies t.p(#[trigger] fs[j]) is None && !above(t, fs[j], d) by {
        lemma_filter_from(ns, f, j);
        let i = choose|i: int| 0 <= i < ns.len() && ns[i] == fs[j];
        assert(t.p(ns[i]) is None && !above(t, ns[i], d));
    }
    assert forall|m: int| #[trigger] tree(h).k(m) == t.k(m) by { assert(tree(g).k(m) == t.k(m)); }
}
proof fn lemma_filter_nodup(s: Seq<int>, f: spec_fn(int) -> bool)
    requires s.no_duplicates(),
    ensures s.filter(f).no_duplicates(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_nodup(d, f);
        if f(s.last()) {
            let g = d.filter(f);
            assert forall|i: int| 0 <= i < g.len() implies g[i] != s.last() by {
                lemma_filter_from(d, f, i);
                let j = choose|j: int| 0 <= j < d.len() && d[j] == g[i];
                assert(s[j] == g[i] && s[s.len() - 1] == s.last());
            }
        }
    }
}
proof fn lemma_filter_from(s: Seq<int>, f: spec_fn(int) -> bool, j: int)
    requires 0 <= j < s.filter(f).len(),
    ensures s.contains(s.filter(f)[j]), f(s.filter(f)[j]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        if j < d.filter(f).len() { lemma_filter_from(d, f, j); let i = choose|i: int| 0 <= i < d.len() && d[i] == d.filter(f)[j]; assert(s[i] == s.filter(f)[j]); }
        else { assert(s[s.len() - 1] == s.filter(f)[j]); }
    }
}
proof fn lemma_filter_in(s: Seq<int>, f: spec_fn(int) -> bool, j: int)
    requires 0 <= j < s.len(), f(s[j]),
    ensures s.filter(f).contains(s[j]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        if j < d.len() {
            lemma_filter_in(d, f, j);
            let i = choose|i: int| 0 <= i < d.filter(f).len() && d.filter(f)[i] == s[j];
            assert(s.filter(f)[i] == s[j]);
        } else { assert(s.filter(f)[d.filter(f).len() as int] == s[j]); }
    }
}
proof fn lemma_splice_less(t: Tree, q: int, i: int, d: int, m: int)
    ensures splice(t, q, i, d, Seq::empty()).p(m) is Some ==> splice(t, q, i, d, Seq::empty()).p(m) == t.p(m),
{}
proof fn lemma_apart_one(h0: &Heap, h: &Heap, n: int, d: int)
    requires wf(h0), wf(h), !above(tree(h0), n, d), same(tree(h), taken(tree(h0), n)),
    ensures apart(h, taken(tree(h0), n), seq![n], d), taken(tree(h0), n).p(d) == tree(h0).p(d),
{
    reveal(apart);
    let t = tree(h0);
    let s = taken(t, n);
    lemma_ok_same(tree(h), s);
    if t.p(n) is Some {
        lemma_child(h0, n);
        let q = t.p(n)->0;
        let i = place(t, n);
        assert(t.k(q).subrange(i, i + 1) =~= seq![n]);
        assert(seq![n][0] == n);
        assert(s.p(n) is None);
    }
    assert forall|m: int| (#[trigger] s.p(m)) is Some implies s.p(m) == t.p(m) by {}
    if above(s, n, d) { lemma_above_sub(s, t, n, d); }
    lemma_above_refl(t, n);
    assert forall|q: int, i: int| 0 <= i < s.k(q).len() implies h.index.get(#[trigger] s.k(q)[i]) == i by { assert(tree(h).k(q) == s.k(q)); assert(h.index.get(tree(h).k(q)[i]) == i); }
}
proof fn lemma_apart_all(h0: &Heap, h: &Heap, n: int, d: int)
    requires
        wf(h0), !above(tree(h0), n, d), h.index == h0.index, h.parent == h0.parent,
        forall|m: int| m != n ==> #[trigger] h.childs.get(m) == h0.childs.get(m), tree(h).k(n) == Seq::<int>::empty(),
    ensures apart(h, cleared(tree(h0), n), tree(h0).k(n), d), cleared(tree(h0), n).p(d) == tree(h0).p(d),
{
    reveal(apart);
    let t = tree(h0);
    let s = cleared(t, n);
    let ns = t.k(n);
    lemma_splice(t, n, 0, ns.len() as int, Seq::empty());
    reveal(ok);
    if ns.contains(d) { let j = choose|j: int| 0 <= j < ns.len() && ns[j] == d; assert(t.p(t.k(n)[j]) == Some(n)); lemma_above_up(t, n, d); lemma_above_refl(t, n); }
    assert(ns.subrange(0, ns.len() as int) =~= ns);
    assert(s.k(n) =~= Seq::<int>::empty());
    assert forall|m: int| #[trigger] tree(h).k(m) == s.k(m) by {}
    assert forall|m: int| (#[trigger] s.p(m)) is Some implies s.p(m) == t.p(m) by {}
    assert forall|j: int| 0 <= j < ns.len() implies s.p(#[trigger] ns[j]) is None && !above(s, ns[j], d) by {
        let c = ns[j];
        assert(ns.contains(c));
        assert(t.p(t.k(n)[j]) == Some(n));
        if above(s, c, d) {
            lemma_above_sub(s, t, c, d);
            lemma_above_refl(t, n);
            lemma_above_up(t, n, c);
            lemma_above_trans(t, n, c, d);
        }
    }
    assert forall|q: int, i: int| 0 <= i < s.k(q).len() implies h.index.get(#[trigger] s.k(q)[i]) == i by { assert(s.k(q) == t.k(q)); assert(h0.index.get(t.k(q)[i]) == i); }
}
/// nodes that are in no list have been put into the list of q, from position i on, in the place of e of its nodes
proof fn lemma_finish(g: &Heap, h: &Heap, t: Tree, ns: Seq<int>, d: int, q: int, i: int, e: int, n0: Seq<RefNode>, v0: Seq<RefNode>)
    requires
        rids(n0) == ns, rids(v0) == t.k(q),
        apart(g, t, ns, d), 0 <= i, 0 <= e, i + e <= t.k(q).len(), q == d || t.p(d) == Some(q),
        tree(h).k(q) == t.k(q).take(i) + ns + t.k(q).skip(i + e),
        forall|m: int| m != q ==> #[trigger] tree(h).k(m) == tree(g).k(m),
        forall|m: int| #[trigger] tree(h).p(m) == (if inn(n0, m) { Some(q) } else if inn(v0, m) && i <= pos(v0, m) < i + e { None } else { tree(g).p(m) }),
        forall|m: int| #[trigger] h.index.get(m) == (if inn(n0, m) { i + pos(n0, m) } else if inn(v0, m) && pos(v0, m) >= i + e { pos(v0, m) - e + n0.len() } else { g.index.get(m) as int }),
    ensures wf(h), same(tree(h), splice(t, q, i, e, ns)),
{
    let o = t.k(q);
    let k = tree(h).k(q);
    let s = splice(t, q, i, e, ns);
    let mid = o.subrange(i, i + e);
    assert forall|m: int| mid.contains(m) == (inn(v0, m) && i <= pos(v0, m) < i + e) by {
        reveal(apart);
        reveal(ok);
        if mid.contains(m) { let b = choose|b: int| 0 <= b < mid.len() && mid[b] == m; assert(o[i + b] == m); assert(o.contains(m)); let c = o.index_of(m); assert(0 <= c < o.len() && o[c] == m); }
        if inn(v0, m) && i <= pos(v0, m) < i + e { let c = pos(v0, m); assert(o[c] == m); assert(mid[c - i] == m); }
    }
    assert(same(tree(h), s) && ok(s)) by {
        reveal(apart);
        lemma_above_up(t, d, d);
        assert forall|j: int| 0 <= j < ns.len() implies t.p(#[trigger] ns[j]) is None && !above(t, ns[j], q) by { lemma_above_up(t, ns[j], d); }
        lemma_splice(t, q, i, e, ns);
        assert forall|m: int| #[trigger] tree(h).p(m) == s.p(m) by { if !ns.contains(m) { assert(tree(g).p(m) == t.p(m)); } }
        assert forall|m: int| #[trigger] tree(h).k(m) == s.k(m) by { if m != q { assert(tree(g).k(m) == t.k(m)); } }
    }
    lemma_ok_same(s, tree(h));
    assert forall|a: int| 0 <= a < k.len() implies h.index.get(#[trigger] k[a]) == a by {
        reveal(apart);
        reveal(ok);
        let c = k[a];
        if i <= a < i + ns.len() { assert(c == ns[a - i]); assert(ns.contains(c)); let b = ns.index_of(c); assert(ns[b] == c && 0 <= b < ns.len()); }
        else {
            let b = if a < i { a } else { a - ns.len() + e };
            assert(c == o[b]);
            assert(o.contains(c));
            let f = o.index_of(c);
            assert(0 <= f < o.len() && o[f] == c);
            assert(f == b);
            assert(t.p(t.k(q)[b]) == Some(q));
            assert(g.index.get(t.k(q)[b]) == b);
            if ns.contains(c) { let j = choose|j: int| 0 <= j < ns.len() && ns[j] == c; assert(t.p(ns[j]) is None); }
        }
    }
    assert forall|m: int, a: int| 0 <= a < tree(h).k(m).len() implies h.index.get(#[trigger] tree(h).k(m)[a]) == a by {
        if m != q {
            reveal(apart);
            reveal(ok);
            assert(tree(h).k(m) == tree(g).k(m) && tree(g).k(m) == t.k(m));
            let c = t.k(m)[a];
            assert(g.index.get(t.k(m)[a]) == a);
            assert(t.p(t.k(m)[a]) == Some(m));
            if inn(v0, c) { let b = o.index_of(c); assert(0 <= b < o.len() && o[b] == c); assert(t.p(t.k(q)[b]) == Some(q)); }
            if inn(n0, c) { let j = choose|j: int| 0 <= j < ns.len() && ns[j] == c; assert(t.p(ns[j]) is None); }
        }
    }
}
proof fn lemma_apart_none(h: &Heap, d: int)
    requires wf(h),
    ensures apart(h, tree(h), Seq::empty(), d),
{ reveal(apart); }
proof fn lemma_apart_nodup(h: &Heap, t: Tree, ns: Seq<int>, d: int)
    requires apart(h, t, ns, d),
    ensures ns.no_duplicates(),
{ reveal(apart); }
proof fn lemma_ready(h: &Heap, t: Tree, ns: Seq<int>, d: int, q: int, n0: Seq<RefNode>, v0: Seq<RefNode>)
    requires apart(h, t, ns, d), q == d || t.p(d) == Some(q), rids(n0) == ns, alive(d), v0 == (match h.childs.get(q) { Some(v) => v@, None => Seq::empty() }),
    ensures
        ns.no_duplicates(), rids(v0) == t.k(q), t.k(q).no_duplicates(), alive(q),
        n0.len() < 0x1000_0000_0000_0000, v0.len() < 0x1000_0000_0000_0000,
        t.p(d) == Some(q) ==> h.childs.get(q) is Some && tree(h).p(d) == Some(q) && h.index.get(d) < v0.len() && place(t, d) == h.index.get(d),
        forall|a: int, b: int| 0 <= a <= b <= v0.len() ==> rids(#[trigger] v0.subrange(a, b)).no_duplicates() && rids(v0.subrange(a, b)) == rids(v0).subrange(a, b),
        forall|a: int, b: int, m: int| 0 <= a <= b <= v0.len() ==> #[trigger] inn(v0.subrange(a, b), m) == (inn(v0, m) && a <= pos(v0, m) < b),
        forall|a: int, b: int, m: int| 0 <= a <= b <= v0.len() && inn(v0.subrange(a, b), m) ==> #[trigger] pos(v0.subrange(a, b), m) == pos(v0, m) - a,
        forall|m: int| inn(v0, m) ==> 0 <= #[trigger] pos(v0, m) < v0.len(),
        forall|m: int| inn(n0, m) ==> !#[trigger] inn(v0, m),
        v0.subrange(0, v0.len() as int) == v0,
{
    axiom_len(n0);
    axiom_len(v0);
    if t.p(d) == Some(q) { lemma_child_t(h, t, ns, d); }
    reveal(apart);
    assert(tree(h).k(q) == t.k(q));
    assert(rids(v0) =~= t.k(q));
    assert forall|m: int| inn(n0, m) implies !#[trigger] inn(v0, m) by {
        reveal(ok);
        let j = choose|j: int| 0 <= j < ns.len() && ns[j] == m;
        assert(t.p(ns[j]) is None);
        if inn(v0, m) { let k = choose|k: int| 0 <= k < t.k(q).len() && t.k(q)[k] == m; assert(t.p(t.k(q)[k]) == Some(q)); }
    }
    assert(t.k(q).no_duplicates()) by { reveal(ok); }
    lemma_parts(v0);
}
proof fn lemma_child_t(h: &Heap, t: Tree, ns: Seq<int>, n: int)
    requires apart(h, t, ns, n), t.p(n) is Some,
    ensures ({
        let q = t.p(n)->0;
        &&& 0 <= h.index.get(n) < t.k(q).len() && t.k(q)[h.index.get(n) as int] == n && place(t, n) == h.index.get(n)
        &&& h.childs.get(q) is Some && alive(q) && t.k(q) == rids(h.childs.get(q)->0@)
        &&& tree(h).p(n) == Some(q)
    }),
{
    reveal(ok);
    reveal(apart);
    let q = t.p(n)->0;
    assert(t.k(q).contains(n));
    let i = choose|i: int| 0 <= i < t.k(q).len() && t.k(q)[i] == n;
    assert(h.index.get(t.k(q)[i]) == i);
    let j = t.k(q).index_of(n);
    assert(0 <= j < t.k(q).len() && t.k(q)[j] == n);
    assert(h.index.get(t.k(q)[j]) == j);
    if ns.contains(n) { let a = choose|a: int| 0 <= a < ns.len() && ns[a] == n; assert(t.p(ns[a]) is None); }
    assert(tree(h).k(q) == t.k(q));
}
/// what replace_with makes of the tree
spec fn replaced(h: &Heap, d: int, n: int) -> Tree {
    if !valid(h, d, n) || tree(h).p(d) is None { tree(h) }
    else {
        let t = without(h, n);
        if moved(h, n).len() == 0 { t } else { splice(t, t.p(d)->0, place(t, d), 1, moved(h, n)) }
    }
}
//@ emit
