//@ emit
// ---------------------------------------------------------------- nodes, by identity; queries do not change the tree
//@ item mesdoc/interface/node.rs INodeType
//@ emit
/// an element handle (`Box<dyn IElementTrait>` over `Rc<RefCell<Node>>`)
#[verifier::external_body]
struct Ele<'a>(std::marker::PhantomData<&'a ()>);
/// a node handle (`Box<dyn INodeTrait>`)
#[verifier::external_body]
struct NodeH<'a>(std::marker::PhantomData<&'a ()>);
#[verifier::external_body]
struct TextH<'a>(std::marker::PhantomData<&'a ()>);
#[verifier::external_body]
struct UncareH<'a>(std::marker::PhantomData<&'a ()>);
type BoxDynElement<'a> = Ele<'a>;
type BoxDynNode<'a> = NodeH<'a>;
type BoxDynText<'a> = TextH<'a>;
type BoxDynUncareNode<'a> = UncareH<'a>;
type MaybeElement<'a> = Option<BoxDynElement<'a>>;
/// a document
#[verifier::external_body]
struct Doc<'a>(std::marker::PhantomData<&'a ()>);
type MaybeDoc<'a> = Option<Doc<'a>>;
//@ item mesdoc/interface/node.rs IEnumTyped
//@ item mesdoc/interface/elements.rs Elements
//@ emit
/// identity of the node behind a handle
uninterp spec fn id_of(e: &Ele) -> int;
uninterp spec fn node_id(e: &NodeH) -> int;
/// the tree: parent, child nodes, stored position, kind
uninterp spec fn par(n: int) -> Option<int>;
uninterp spec fn kids(n: int) -> Seq<int>;
uninterp spec fn idx(n: int) -> usize;
uninterp spec fn kind(n: int) -> INodeType;
uninterp spec fn depth(n: int) -> nat;
uninterp spec fn height(n: int) -> nat;
spec fn is_el(n: int) -> bool { kind(n) is Element }
/// ASSUMED (the invariant of property C07): parents, children and stored positions agree, and the tree is finite
axiom fn axiom_tree(n: int)
    ensures
        par(n) matches Some(p) ==> idx(n) < kids(p).len() && kids(p)[idx(n) as int] == n && depth(n) == depth(p) + 1 && height(n) < height(p),
        forall|i: int| 0 <= i < kids(n).len() ==> par(#[trigger] kids(n)[i]) == Some(n) && idx(kids(n)[i]) == i,
        kids(n).len() <= 0x0fff_ffff_ffff_ffff,   // a Vec of nodes cannot be longer
        par(n) is Some && kids(n).len() > 0 ==> is_el(n);
impl<'a> Ele<'a> {
    /// ASSUMED: the handle methods of lib.rs read the tree
    #[verifier::external_body]
    fn parent<'b>(&self) -> (r: Option<Ele<'b>>)
        ensures (r is None) == (par(id_of(self)) is None), r matches Some(p) ==> par(id_of(self)) == Some(id_of(&p)),
    { unimplemented!() }
    #[verifier::external_body]
    fn index(&self) -> (r: usize)
        ensures r == idx(id_of(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn child_nodes_length(&self) -> (r: usize)
        ensures r == kids(id_of(self)).len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn child_nodes_item<'b>(&self, index: usize) -> (r: Option<NodeH<'b>>)
        ensures
            index < kids(id_of(self)).len() ==> r is Some && node_id(&r->0) == kids(id_of(self))[index as int],
            index >= kids(id_of(self)).len() ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    fn cloned<'b>(&self) -> (r: Ele<'b>)
        ensures id_of(&r) == id_of(self),
    { unimplemented!() }
    #[verifier::external_body]
    fn is(&self, ele: &Ele) -> (r: bool)
        ensures r == (id_of(self) == id_of(ele)),
    { unimplemented!() }
}
impl<'a> NodeH<'a> {
    #[verifier::external_body]
    fn node_type(&self) -> (r: INodeType)
        ensures r == kind(node_id(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn typed<'b>(self) -> (r: IEnumTyped<'b>)
        ensures kind(node_id(&self)) is Element ==> (r matches IEnumTyped::Element(e) && id_of(&e) == node_id(&self)),
    { unimplemented!() }
}
// ---------------------------------------------------------------- sequences of elements
spec fn ids(s: Seq<Ele>) -> Seq<int> { Seq::new(s.len(), |i: int| id_of(&s[i])) }
impl<'a> Elements<'a> {
    spec fn ids(&self) -> Seq<int> { ids(self.nodes@) }
}
spec fn el() -> spec_fn(int) -> bool { |n: int| is_el(n) }
/// child elements
spec fn elkids(n: int) -> Seq<int> { kids(n).filter(el()) }
/// positions from the root down to the node
spec fn path(n: int) -> Seq<usize>
    decreases depth(n),
{
    match par(n) {
        Some(p) if depth(p) < depth(n) => path(p).push(idx(n)),
        _ => seq![idx(n)],
    }
}
spec fn root(n: int) -> int
    decreases depth(n),
{
    match par(n) {
        Some(p) if depth(p) < depth(n) => root(p),
        _ => n,
    }
}
/// a is a proper ancestor of n
spec fn anc(a: int, n: int) -> bool
    decreases depth(n),
{
    match par(n) {
        Some(p) if depth(p) < depth(n) => p == a || anc(a, p),
        _ => false,
    }
}
spec fn agree(a: Seq<usize>, b: Seq<usize>, k: int) -> bool { 0 <= k <= a.len() && k <= b.len() && forall|i: int| 0 <= i < k ==> a[i] == b[i] }
spec fn lt_at(a: Seq<usize>, b: Seq<usize>, k: int) -> bool {
    agree(a, b, k) && k < b.len() && (k == a.len() || a[k] < b[k])
}
/// document order on positions: lexicographic, an ancestor before its descendants
#[verifier::opaque]
spec fn lt(a: Seq<usize>, b: Seq<usize>) -> bool { exists|k: int| #[trigger] lt_at(a, b, k) }
spec fn before(m: int, n: int) -> bool { lt(path(m), path(n)) }
spec fn sorted(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> before(#[trigger] s[i], #[trigger] s[j]) }
spec fn one_root(s: Seq<int>, r: int) -> bool { forall|i: int| 0 <= i < s.len() ==> root(#[trigger] s[i]) == r }
proof fn lemma_lt_at(a: Seq<usize>, b: Seq<usize>, k: int)
    requires lt_at(a, b, k),
    ensures lt(a, b),
{ reveal(lt); }
proof fn lemma_sorted_at(s: Seq<int>, i: int, j: int)
    requires sorted(s), 0 <= i < j < s.len(),
    ensures before(s[i], s[j]),
{}
proof fn lemma_root_at(s: Seq<int>, r: int, i: int)
    requires one_root(s, r), 0 <= i < s.len(),
    ensures root(s[i]) == r,
{}
proof fn lemma_lt_irrefl(a: Seq<usize>)
    ensures !lt(a, a),
{ reveal(lt); if lt(a, a) { let k = choose|k: int| lt_at(a, a, k); assert(lt_at(a, a, k)); } }
proof fn lemma_lt_trans(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>)
    requires lt(a, b), lt(b, c),
    ensures lt(a, c),
{
    reveal(lt);
    let j = choose|k: int| lt_at(a, b, k);
    let k = choose|k: int| lt_at(b, c, k);
    let m = if j <= k { j } else { k };
    assert(lt_at(a, c, m));
}
proof fn lemma_lt_asym(a: Seq<usize>, b: Seq<usize>)
    requires lt(a, b),
    ensures !lt(b, a), a != b,
{
    if lt(b, a) { lemma_lt_trans(a, b, a); lemma_lt_irrefl(a); }
    if a == b { lemma_lt_irrefl(a); }
}
proof fn lemma_path_len(n: int)
    ensures path(n).len() >= 1, path(n).last() == idx(n), path(n).len() == 1 <==> par(n) is None,
        par(n) matches Some(p) ==> path(n) == path(p).push(idx(n)) && path(p) =~= path(n).drop_last() && root(n) == root(p),
        par(n) is None ==> root(n) == n,
    decreases depth(n),
{
    axiom_tree(n);
    match par(n) { Some(p) => { lemma_path_len(p); } _ => {} }
}
/// a position names one node of a tree
proof fn lemma_path_inj(a: int, b: int)
    requires root(a) == root(b), path(a) == path(b),
    ensures a == b,
    decreases depth(a),
{
    lemma_path_len(a);
    lemma_path_len(b);
    axiom_tree(a);
    axiom_tree(b);
    match (par(a), par(b)) {
        (Some(p), Some(q)) => {
            assert(path(p) == path(q));
            lemma_path_inj(p, q);
        }
        _ => {}
    }
}
proof fn lemma_sorted_distinct(s: Seq<int>)
    requires sorted(s),
    ensures s.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < j { assert(before(s[i], s[j])); lemma_lt_irrefl(path(s[i])); }
        else { assert(before(s[j], s[i])); lemma_lt_irrefl(path(s[i])); }
    }
}
