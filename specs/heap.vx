// ---------------------------------------------------------------- nodes behind Rc<RefCell<Node>>, one map per field
//@ item mesdoc/interface/node.rs INodeType
//@ emit
/// NodeType of the rphtml crate
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum NodeType { AbstractRoot, HTMLDOCTYPE, Comment, Text, SpacesBetweenTag, Tag, TagEnd, XMLCDATA }
/// a handle: Rc<RefCell<Node>>, alone or as a trait object
#[verifier::external_body]
struct Handle<'a>(std::marker::PhantomData<&'a ()>);
type RefNode = Handle<'static>;
type BoxDynElement<'a> = Handle<'a>;
type MaybeElement<'a> = Option<BoxDynElement<'a>>;
/// identity of the node behind a handle
uninterp spec fn rid<'a>(e: &Handle<'a>) -> int;
/// Weak<RefCell<Node>>
#[verifier::external_body]
struct WeakNode(());
uninterp spec fn wid(w: &WeakNode) -> int;
/// the node still exists
uninterp spec fn alive(n: int) -> bool;
/// TRUSTED: a node exists as long as there is a handle
axiom fn axiom_alive<'a>(e: &Handle<'a>) ensures alive(rid(e));
/// TRUSTED: a vector of pointers has fewer than 2^60 of them
axiom fn axiom_len(v: Seq<RefNode>) ensures v.len() < 0x1000_0000_0000_0000;
/// one field of all nodes; `X.borrow().F` is `X.at(&h.F)`, `X.borrow_mut().F` is `X.at_mut(&mut h.F)`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Field<T>(std::marker::PhantomData<T>);
impl<T> Field<T> {
    uninterp spec fn get(&self, n: int) -> T;
}
impl<'a> Handle<'a> {
    /// TRUSTED: reading a field of a node
    #[verifier::external_body]
    fn at<'f, T>(&self, f: &'f Field<T>) -> (r: &'f T)
        ensures *r == f.get(rid(self)),
    { unimplemented!() }
    /// TRUSTED: a field of a node, to be changed; no other node changes
    #[verifier::external_body]
    fn at_mut<'f, T>(&self, f: &'f mut Field<T>) -> (r: &'f mut T)
        ensures
            *r == old(f).get(rid(self)),
            final(f).get(rid(self)) == *final(r),
            forall|m: int| m != rid(self) ==> #[trigger] final(f).get(m) == old(f).get(m),
            *final(r) == *r ==> *final(f) == *old(f),
    { unimplemented!() }
}
/// TRUSTED: Rc::clone
#[verifier::external_body]
fn vx_rc<'a, 'b>(e: &Handle<'a>) -> (r: Handle<'b>)
    ensures rid(&r) == rid(e),
{ unimplemented!() }
/// TRUSTED: Rc::downgrade
#[verifier::external_body]
fn vx_weak<'a>(e: &Handle<'a>) -> (r: WeakNode)
    ensures wid(&r) == rid(e), alive(rid(e)),
{ unimplemented!() }
impl WeakNode {
    /// TRUSTED: Weak::upgrade gives the node if it still exists
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<RefNode>)
        ensures r is Some == alive(wid(self)), r matches Some(e) ==> rid(&e) == wid(self),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_halt(dom: &Handle, method: &str, message: &str) { unimplemented!() }
struct Heap {
    index: Field<usize>,
    parent: Field<Option<WeakNode>>,
    childs: Field<Option<Vec<RefNode>>>,
    content: Field<Option<Vec<char>>>,
    node_type: Field<NodeType>,
}
spec fn rids(s: Seq<RefNode>) -> Seq<int> { Seq::new(s.len(), |i: int| rid(&s[i])) }
/// parents and child lists
struct Tree { par: spec_fn(int) -> Option<int>, kids: spec_fn(int) -> Seq<int> }
impl Tree {
    spec fn p(&self, n: int) -> Option<int> { (self.par)(n) }
    spec fn k(&self, n: int) -> Seq<int> { (self.kids)(n) }
}
spec fn kids_of(c: Option<Vec<RefNode>>, n: int) -> Seq<int> {
    match c { Some(v) if alive(n) => rids(v@), _ => Seq::empty() }
}
spec fn par_of(w: Option<WeakNode>) -> Option<int> {
    match w { Some(w) if alive(wid(&w)) => Some(wid(&w)), _ => None }
}
spec fn tree(h: &Heap) -> Tree {
    Tree { par: |n: int| par_of(h.parent.get(n)), kids: |n: int| kids_of(h.childs.get(n), n) }
}
spec fn same(s: Tree, t: Tree) -> bool {
    (forall|n: int| #[trigger] s.p(n) == t.p(n)) && (forall|n: int| #[trigger] s.k(n) == t.k(n))
}
/// k steps up
spec fn up(t: Tree, n: int, k: nat) -> Option<int>
    decreases k,
{
    if k == 0 { Some(n) } else { match t.p(n) { Some(q) => up(t, q, (k - 1) as nat), None => None } }
}
/// a is n or above n
spec fn above(t: Tree, a: int, n: int) -> bool { exists|k: nat| #[trigger] up(t, n, k) == Some(a) }
spec fn rank_ok(t: Tree, rank: spec_fn(int) -> nat) -> bool {
    forall|n: int| (#[trigger] t.p(n)) matches Some(q) ==> rank(q) < rank(n)
}
/// parents and child lists agree, and no node is above itself
#[verifier::opaque]
spec fn ok(t: Tree) -> bool {
    &&& forall|q: int, i: int| 0 <= i < t.k(q).len() ==> t.p(#[trigger] t.k(q)[i]) == Some(q)
    &&& forall|q: int| (#[trigger] t.k(q)).no_duplicates()
    &&& forall|n: int| (#[trigger] t.p(n)) matches Some(q) ==> t.k(q).contains(n)
    &&& exists|rank: spec_fn(int) -> nat| rank_ok(t, rank)
}
/// every child knows its position
spec fn indexed(h: &Heap) -> bool {
    forall|q: int, i: int| 0 <= i < tree(h).k(q).len() ==> h.index.get(#[trigger] tree(h).k(q)[i]) == i
}
spec fn wf(h: &Heap) -> bool { ok(tree(h)) && indexed(h) }
/// the children of q from position i on, d of them, replaced by ns; those that leave have no parent any more
spec fn splice(t: Tree, q: int, i: int, d: int, ns: Seq<int>) -> Tree {
    Tree {
        par: |n: int| if ns.contains(n) { Some(q) } else if t.k(q).subrange(i, i + d).contains(n) { None } else { t.p(n) },
        kids: |n: int| if n == q { t.k(q).take(i) + ns + t.k(q).skip(i + d) } else { t.k(n) },
    }
}
proof fn lemma_above_refl(t: Tree, n: int)
    ensures above(t, n, n),
{ assert(up(t, n, 0) == Some(n)); }
proof fn lemma_above_up(t: Tree, a: int, n: int)
    ensures t.p(n) matches Some(q) ==> above(t, a, n) == (a == n || above(t, a, q)), t.p(n) is None ==> above(t, a, n) == (a == n),
{
    lemma_above_refl(t, n);
    if above(t, a, n) {
        let k = choose|k: nat| #[trigger] up(t, n, k) == Some(a);
        if k > 0 { match t.p(n) { Some(q) => { assert(up(t, q, (k - 1) as nat) == Some(a)); } _ => {} } }
    }
    match t.p(n) { Some(q) => { if above(t, a, q) {
        let k = choose|k: nat| #[trigger] up(t, q, k) == Some(a);
        assert(up(t, n, k + 1) == Some(a));
    } } _ => {} }
}
/// fewer parents, fewer nodes above
proof fn lemma_above_sub(s: Tree, t: Tree, a: int, n: int)
    requires forall|m: int| (#[trigger] s.p(m)) is Some ==> s.p(m) == t.p(m), above(s, a, n),
    ensures above(t, a, n),
{
    let k = choose|k: nat| #[trigger] up(s, n, k) == Some(a);
    lemma_up_sub(s, t, n, k);
    assert(up(t, n, k) == Some(a));
}
proof fn lemma_up_sub(s: Tree, t: Tree, n: int, k: nat)
    requires forall|m: int| (#[trigger] s.p(m)) is Some ==> s.p(m) == t.p(m), up(s, n, k) is Some,
    ensures up(t, n, k) == up(s, n, k),
    decreases k,
{
    if k > 0 { match s.p(n) { Some(q) => { lemma_up_sub(s, t, q, (k - 1) as nat); } _ => {} } }
}
proof fn lemma_above_trans(t: Tree, a: int, b: int, n: int)
    requires above(t, a, b), above(t, b, n),
    ensures above(t, a, n),
{
    let k = choose|k: nat| #[trigger] up(t, n, k) == Some(b);
    lemma_trans_k(t, a, b, n, k);
}
proof fn lemma_trans_k(t: Tree, a: int, b: int, n: int, k: nat)
    requires above(t, a, b), up(t, n, k) == Some(b),
    ensures above(t, a, n),
    decreases k,
{
    lemma_above_up(t, a, n);
    if k > 0 { match t.p(n) { Some(q) => { lemma_trans_k(t, a, b, q, (k - 1) as nat); } _ => {} } }
}
/// a chain of parents is finite
proof fn lemma_no_self(t: Tree, n: int)
    requires ok(t), t.p(n) is Some,
    ensures !above(t, n, t.p(n)->0),
{
    reveal(ok);
    let rank = choose|rank: spec_fn(int) -> nat| rank_ok(t, rank);
    let q = t.p(n)->0;
    if above(t, n, q) {
        let k = choose|k: nat| #[trigger] up(t, q, k) == Some(n);
        lemma_rank_up(t, rank, q, k);
    }
}
proof fn lemma_rank_up(t: Tree, rank: spec_fn(int) -> nat, n: int, k: nat)
    requires rank_ok(t, rank), up(t, n, k) is Some,
    ensures rank(up(t, n, k)->0) <= rank(n),
    decreases k,
{
    if k > 0 { match t.p(n) { Some(q) => { lemma_rank_up(t, rank, q, (k - 1) as nat); } _ => {} } }
}
proof fn lemma_ok_same(s: Tree, t: Tree)
    requires same(s, t), ok(s),
    ensures ok(t),
{
    reveal(ok);
    let rank = choose|rank: spec_fn(int) -> nat| rank_ok(s, rank);
    assert forall|n: int| (#[trigger] t.p(n)) is Some implies rank(t.p(n)->0) < rank(n) by { assert(s.p(n) == t.p(n)); }
    assert(rank_ok(t, rank));
    assert forall|q: int, i: int| 0 <= i < t.k(q).len() implies t.p(#[trigger] t.k(q)[i]) == Some(q) by { assert(s.k(q) == t.k(q)); let c = s.k(q)[i]; assert(s.p(c) == t.p(c)); }
    assert forall|q: int| (#[trigger] t.k(q)).no_duplicates() by { assert(s.k(q) == t.k(q)); }
    assert forall|n: int| (#[trigger] t.p(n)) is Some implies t.k(t.p(n)->0).contains(n) by { assert(s.p(n) == t.p(n)); assert(s.k(t.p(n)->0) == t.k(t.p(n)->0)); }
}
spec fn in_sub(t: Tree, ns: Seq<int>, n: int) -> bool { exists|j: int| 0 <= j < ns.len() && above(t, #[trigger] ns[j], n) }
proof fn lemma_splice_rank(t: Tree, q: int, i: int, d: int, ns: Seq<int>)
    requires
        ok(t), 0 <= i, 0 <= d, i + d <= t.k(q).len(),
        forall|j: int| 0 <= j < ns.len() ==> t.p(#[trigger] ns[j]) is None && !above(t, ns[j], q),
    ensures exists|rank: spec_fn(int) -> nat| rank_ok(splice(t, q, i, d, ns), rank),
{
    reveal(ok);
    let rank = choose|rank: spec_fn(int) -> nat| rank_ok(t, rank);
    let s = splice(t, q, i, d, ns);
    let r1 = |n: int| if in_sub(t, ns, n) { (rank(n) + rank(q) + 1) as nat } else { rank(n) };
    assert forall|n: int| (#[trigger] s.p(n)) is Some implies r1(s.p(n)->0) < r1(n) by {
        let m = s.p(n)->0;
        if ns.contains(n) {
            assert(m == q);
            let j = choose|j: int| 0 <= j < ns.len() && ns[j] == n;
            lemma_above_refl(t, n);
            assert(above(t, ns[j], n));
            assert(in_sub(t, ns, n));
            assert(!in_sub(t, ns, q));
        } else {
            assert(t.p(n) == Some(m));
            assert(rank(m) < rank(n));
            assert(in_sub(t, ns, n) == in_sub(t, ns, m)) by {
                assert forall|j: int| 0 <= j < ns.len() implies above(t, #[trigger] ns[j], n) == above(t, ns[j], m) by { lemma_above_up(t, ns[j], n); }
                if in_sub(t, ns, n) { let j = choose|j: int| 0 <= j < ns.len() && above(t, #[trigger] ns[j], n); assert(above(t, ns[j], m)); }
                if in_sub(t, ns, m) { let j = choose|j: int| 0 <= j < ns.len() && above(t, #[trigger] ns[j], m); assert(above(t, ns[j], n)); }
            }
        }
    }
    assert(rank_ok(s, r1));
}
/// taking some children of q out and putting nodes without parent, none of them above q, in their place keeps the tree a tree
proof fn lemma_splice(t: Tree, q: int, i: int, d: int, ns: Seq<int>)
    requires
        ok(t), 0 <= i, 0 <= d, i + d <= t.k(q).len(),
        ns.no_duplicates(),
        forall|j: int| 0 <= j < ns.len() ==> t.p(#[trigger] ns[j]) is None && !above(t, ns[j], q),
    ensures ok(splice(t, q, i, d, ns)),
{
    lemma_splice_rank(t, q, i, d, ns);
    reveal(ok);
    let s = splice(t, q, i, d, ns);
    let old = t.k(q);
    let mid = old.subrange(i, i + d);
    let new = s.k(q);
    assert(new == old.take(i) + ns + old.skip(i + d));
    // a child of q is no new node
    assert forall|c: int| old.contains(c) implies !ns.contains(c) by {
        let a = choose|a: int| 0 <= a < old.len() && old[a] == c;
        assert(t.p(old[a]) == Some(q));
        if ns.contains(c) { let j = choose|j: int| 0 <= j < ns.len() && ns[j] == c; assert(t.p(ns[j]) is None); }
    }
    assert forall|a: int| (0 <= a < i || i + d <= a < old.len()) implies !mid.contains(#[trigger] old[a]) by {
        if mid.contains(old[a]) { let b = choose|b: int| 0 <= b < mid.len() && mid[b] == old[a]; assert(old[i + b] == old[a]); }
    }
    assert forall|m: int, a: int| 0 <= a < s.k(m).len() implies s.p(#[trigger] s.k(m)[a]) == Some(m) by {
        let c = s.k(m)[a];
        if m == q {
            if a < i { assert(c == old[a]); assert(old.contains(c)); assert(t.p(old[a]) == Some(q)); }
            else if a < i + ns.len() { assert(c == ns[a - i]); assert(ns.contains(c)); }
            else { let b = a - ns.len() + d; assert(c == old[b]); assert(old.contains(c)); assert(t.p(old[b]) == Some(q)); }
        } else {
            assert(t.p(t.k(m)[a]) == Some(m));
            if ns.contains(c) { let j = choose|j: int| 0 <= j < ns.len() && ns[j] == c; assert(t.p(ns[j]) is None); }
            if mid.contains(c) { let b = choose|b: int| 0 <= b < mid.len() && mid[b] == c; assert(t.p(old[i + b]) == Some(q)); }
        }
    }
    assert forall|m: int| (#[trigger] s.k(m)).no_duplicates() by {
        assert(t.k(m).no_duplicates());
        if m == q {
            assert forall|a: int, b: int| 0 <= a < b < new.len() implies new[a] != new[b] by {
                let x = if a < i { a } else { a - ns.len() + d };
                let y = if b < i { b } else { b - ns.len() + d };
                let an = i <= a < i + ns.len();
                let bn = i <= b < i + ns.len();
                if an && bn { assert(ns[a - i] != ns[b - i]); }
                else if an { assert(new[b] == old[y]); assert(old.contains(old[y])); assert(ns.contains(new[a])); }
                else if bn { assert(new[a] == old[x]); assert(old.contains(old[x])); assert(ns.contains(new[b])); }
                else { assert(new[a] == old[x] && new[b] == old[y] && x != y); }
            }
        }
    }
    assert forall|n: int| (#[trigger] s.p(n)) is Some implies s.k(s.p(n)->0).contains(n) by {
        let m = s.p(n)->0;
        if ns.contains(n) {
            let j = choose|j: int| 0 <= j < ns.len() && ns[j] == n;
            assert(new[i + j] == n);
        } else {
            assert(t.p(n) == Some(m) && t.k(m).contains(n));
            let a = choose|a: int| 0 <= a < t.k(m).len() && t.k(m)[a] == n;
            if m == q {
                if a < i { assert(new[a] == n); }
                else if a < i + d { assert(mid[a - i] == n); }
                else { assert(new[a - d + ns.len()] == n); }
            } else { assert(s.k(m)[a] == n); }
        }
    }
}
spec fn place(t: Tree, n: int) -> int { t.k(t.p(n)->0).index_of(n) }
/// n taken out of its parent
spec fn taken(t: Tree, n: int) -> Tree {
    match t.p(n) { Some(q) => splice(t, q, place(t, n), 1, Seq::empty()), None => t }
}
/// all children of q taken out
spec fn cleared(t: Tree, q: int) -> Tree { splice(t, q, 0, t.k(q).len() as int, Seq::empty()) }
/// where a child stands, by its stored index
proof fn lemma_child(h: &Heap, n: int)
    requires wf(h), tree(h).p(n) is Some,
    ensures ({
        let t = tree(h); let q = t.p(n)->0;
        &&& 0 <= h.index.get(n) < t.k(q).len() && t.k(q)[h.index.get(n) as int] == n && place(t, n) == h.index.get(n)
        &&& h.childs.get(q) is Some && alive(q) && t.k(q) == rids(h.childs.get(q)->0@)
    }),
{
    reveal(ok);
    let t = tree(h);
    let q = t.p(n)->0;
    assert(t.k(q).contains(n));
    let i = choose|i: int| 0 <= i < t.k(q).len() && t.k(q)[i] == n;
    assert(h.index.get(t.k(q)[i]) == i);
    let j = t.k(q).index_of(n);
    assert(0 <= j < t.k(q).len() && t.k(q)[j] == n);
    assert(h.index.get(t.k(q)[j]) == j);
}
spec fn inn(s: Seq<RefNode>, m: int) -> bool { rids(s).contains(m) }
spec fn pos(s: Seq<RefNode>, m: int) -> int { rids(s).index_of(m) }
proof fn lemma_pos(v: Seq<RefNode>)
    requires rids(v).no_duplicates(),
    ensures forall|j: int| 0 <= j < v.len() ==> inn(v, #[trigger] rids(v)[j]) && pos(v, rids(v)[j]) == j,
{
    assert forall|j: int| 0 <= j < v.len() implies inn(v, #[trigger] rids(v)[j]) && pos(v, rids(v)[j]) == j by {
        let m = rids(v)[j];
        assert(rids(v).contains(m));
        let i = rids(v).index_of(m);
        assert(0 <= i < v.len() && rids(v)[i] == m);
    }
}
/// parts of a list without repetitions
proof fn lemma_parts(v: Seq<RefNode>)
    requires rids(v).no_duplicates(),
    ensures
        forall|a: int, b: int| 0 <= a <= b <= v.len() ==> rids(#[trigger] v.subrange(a, b)).no_duplicates() && rids(v.subrange(a, b)) == rids(v).subrange(a, b),
        forall|a: int, b: int, m: int| 0 <= a <= b <= v.len() ==> #[trigger] inn(v.subrange(a, b), m) == (inn(v, m) && a <= pos(v, m) < b),
        forall|a: int, b: int, m: int| 0 <= a <= b <= v.len() && inn(v.subrange(a, b), m) ==> #[trigger] pos(v.subrange(a, b), m) == pos(v, m) - a,
        forall|j: int| 0 <= j < v.len() ==> inn(v, #[trigger] rids(v)[j]) && pos(v, rids(v)[j]) == j,
        v.subrange(0, v.len() as int) == v,
        forall|m: int| inn(v, m) ==> 0 <= #[trigger] pos(v, m) < v.len() && rids(v)[pos(v, m)] == m,
{
    assert(v.subrange(0, v.len() as int) =~= v);
    lemma_pos(v);
    assert forall|a: int, b: int| 0 <= a <= b <= v.len() implies rids(#[trigger] v.subrange(a, b)).no_duplicates() && rids(v.subrange(a, b)) == rids(v).subrange(a, b) by {
        assert(rids(v.subrange(a, b)) =~= rids(v).subrange(a, b));
    }
    assert forall|a: int, b: int, m: int| 0 <= a <= b <= v.len() implies #[trigger] inn(v.subrange(a, b), m) == (inn(v, m) && a <= pos(v, m) < b)
        && (inn(v.subrange(a, b), m) ==> pos(v.subrange(a, b), m) == pos(v, m) - a) by {
        let w = v.subrange(a, b);
        assert(rids(w) =~= rids(v).subrange(a, b));
        if inn(w, m) {
            let i = rids(w).index_of(m);
            assert(0 <= i < w.len() && rids(w)[i] == m);
            assert(rids(v)[a + i] == m);
        }
        if inn(v, m) && a <= pos(v, m) < b {
            let j = pos(v, m);
            assert(rids(v)[j] == m);
            assert(rids(w)[j - a] == m);
        }
    }
}
proof fn lemma_removed(v: Seq<RefNode>, i: int)
    requires rids(v).no_duplicates(), 0 <= i < v.len(),
    ensures
        rids(v.remove(i)) == rids(v).remove(i), rids(v.remove(i)).no_duplicates(),
        forall|m: int| #[trigger] inn(v.remove(i), m) == (inn(v, m) && pos(v, m) != i),
        forall|m: int| inn(v.remove(i), m) ==> #[trigger] pos(v.remove(i), m) == (if pos(v, m) < i { pos(v, m) } else { pos(v, m) - 1 }),
{
    let w = v.remove(i);
    assert(rids(w) =~= rids(v).remove(i));
    lemma_pos(v);
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies rids(w)[a] != rids(w)[b] by {
        let x = if a < i { a } else { a + 1 };
        let y = if b < i { b } else { b + 1 };
        assert(rids(w)[a] == rids(v)[x] && rids(w)[b] == rids(v)[y]);
    }
    lemma_pos(w);
    assert forall|m: int| #[trigger] inn(w, m) == (inn(v, m) && pos(v, m) != i) && (inn(w, m) ==> pos(w, m) == (if pos(v, m) < i { pos(v, m) } else { pos(v, m) - 1 })) by {
        if inn(w, m) {
            let a = pos(w, m);
            assert(0 <= a < w.len() && rids(w)[a] == m);
            let x = if a < i { a } else { a + 1 };
            assert(rids(v)[x] == m);
        }
        if inn(v, m) && pos(v, m) != i {
            let x = pos(v, m);
            assert(0 <= x < v.len() && rids(v)[x] == m);
            let a = if x < i { x } else { x - 1 };
            assert(rids(w)[a] == m);
        }
    }
}
impl<'a> Handle<'a> {
    fn cloned<'b>(&self) -> (r: Handle<'b>)
        ensures rid(&r) == rid(self),
    { vx_rc(self) }
}
//@ emit
