//@ include base.vx
global size_of usize == 8;
//@ include heap.vx
//@ include keep.vx
//@ include domlib.vx
//@ contract dom.vx reset_next_siblings_index
//@ contract dom.vx detach_childs
//@ contract dom.vx remove_not_allowed_nodes
//@ rule-all heap => 1
//@ rule-all hf Rc::clone => vx_rc
//@ rule-all hf Rc::downgrade => vx_weak
//@ rule-all hf Dom::halt => vx_halt
//@ rule-all hf reset_next_siblings_index => reset_next_siblings_index(&mut h.index)
//@ rule-all hf detach_childs => detach_childs(&mut h.parent)
//@ rule-all hm index => &h.index
//@ rule-all hm parent => &h.parent
//@ rule-all hm node_type => h
//@ rule-all hf Dom::validate_dom_change => validate_dom_change(h)
//@ rule-all hf remove_not_allowed_nodes => remove_not_allowed_nodes(h)
//@ rule-all mname extend => vx_extend
//@ rule-all mname splice => vx_splice
//@ rule-all text? Box<dyn Any> => AnyNode
//@ rule-all hm remove_child => h
//@ emit
impl<'a> Handle<'a> {
//@ contract dom.vx INodeTrait@Rc::index
//@ contract dom.vx INodeTrait@Rc::parent
//@ contract dom.vx INodeTrait@Rc::node_type
//@ emit
}
//@ emit
/// NameCase of rphtml
enum NameCase { Upper, Lower }
uninterp spec fn content_tag(name: Seq<char>, case: Option<NameCase>) -> bool;
/// TRUSTED: is_content_tag of rphtml, a function of the name and the case to compare in
#[verifier::external_body]
fn is_content_tag(name: &[char], case: &Option<NameCase>) -> (r: bool)
    ensures r == content_tag(name@, *case),
{ unimplemented!() }
/// elements whose content is kept as it is (script, style, title, textarea)
spec fn raw(name: Seq<char>) -> bool { content_tag(name, Some(NameCase::Lower)) }
//@ fn lib.rs check_if_content_tag
//@ prop C07 C13
//@ ret r
//@ header
    ensures r == raw(name@),
//@ emit
/// EncodeType and CharacterSet of htmlentity
enum EncodeType { Named, Hex, Decimal, NamedOrHex, NamedOrDecimal }
enum CharacterSet { All, NonASCII, Html, SpecialChars, HtmlAndNonASCII, SpecialCharsAndNonASCII }
uninterp spec fn encoded(s: Seq<char>, t: EncodeType, c: CharacterSet) -> Seq<char>;
#[verifier::external_body]
struct Coded(());
uninterp spec fn coded(c: &Coded) -> Seq<char>;
/// TRUSTED: encode of htmlentity, a function of the text and the two options
#[verifier::external_body]
fn encode(s: &str, t: &EncodeType, c: &CharacterSet) -> (r: Coded)
    ensures coded(&r) == encoded(s@, *t, *c),
{ unimplemented!() }
impl Coded {
    /// TRUSTED: the characters of the encoded text, which are valid
    #[verifier::external_body]
    fn to_chars(&self) -> (r: Result<Vec<char>, ()>)
        ensures r is Ok, r->Ok_0@ == coded(self),
    { unimplemented!() }
}
/// characters that mean markup as references
spec fn escaped(s: Seq<char>) -> Seq<char> { encoded(s, EncodeType::NamedOrDecimal, CharacterSet::Html) }
/// Node of rphtml, the fields that are used
struct NewNode { index: usize, parent: Option<WeakNode>, childs: Option<Vec<RefNode>>, content: Option<Vec<char>>, node_type: NodeType }
spec fn textual(t: NodeType) -> bool { t is Text || t is SpacesBetweenTag }
/// TRUSTED: Node::create_text_node of rphtml
#[verifier::external_body]
fn vx_text_node(content: Vec<char>, at: Option<usize>) -> (r: NewNode)
    ensures r.index == 0, r.parent is None, r.childs is None, r.content == Some(content), textual(r.node_type),
{ unimplemented!() }
spec fn same_at(g: &Heap, h: &Heap, m: int) -> bool {
    g.index.get(m) == h.index.get(m) && g.parent.get(m) == h.parent.get(m) && g.childs.get(m) == h.childs.get(m) && g.content.get(m) == h.content.get(m) && g.node_type.get(m) == h.node_type.get(m)
}
/// TRUSTED: Rc::new(RefCell::new(node)) is a node that was not there before: another than d, nobody's parent and nobody's child
#[verifier::external_body]
fn vx_new(h: &mut Heap, d: &Handle, node: NewNode) -> (r: RefNode)
    ensures
        rid(&r) != rid(d), old(h).parent.get(rid(&r)) is None, old(h).childs.get(rid(&r)) is None,
        forall|m: int| (#[trigger] old(h).childs.get(m)) matches Some(v) ==> !inn(v@, rid(&r)),
        forall|m: int| (#[trigger] old(h).parent.get(m)) matches Some(w) ==> wid(&w) != rid(&r),
        final(h).index.get(rid(&r)) == node.index, final(h).parent.get(rid(&r)) == node.parent, final(h).childs.get(rid(&r)) == node.childs,
        final(h).content.get(rid(&r)) == node.content, final(h).node_type.get(rid(&r)) == node.node_type,
        forall|m: int| m != rid(&r) ==> final(h).index.get(m) == old(h).index.get(m),
        forall|m: int| m != rid(&r) ==> #[trigger] final(h).parent.get(m) == old(h).parent.get(m),
        forall|m: int| m != rid(&r) ==> #[trigger] final(h).childs.get(m) == old(h).childs.get(m),
        forall|m: int| m != rid(&r) ==> #[trigger] final(h).content.get(m) == old(h).content.get(m),
        forall|m: int| m != rid(&r) ==> #[trigger] final(h).node_type.get(m) == old(h).node_type.get(m),
{ unimplemented!() }
/// only the content of d is another
spec fn only_content(g: &Heap, h: &Heap, d: int) -> bool {
    g.index == h.index && g.parent == h.parent && g.childs == h.childs && g.node_type == h.node_type && forall|m: int| m != d ==> #[trigger] h.content.get(m) == g.content.get(m)
}
spec fn chars_at(h: &Heap, d: int) -> Seq<char> { match h.content.get(d) { Some(v) => v@, None => Seq::empty() } }
/// what set_text does: an element gets one text node with the escaped text and nothing else, an element that keeps its content as it is, a text or a comment gets the text as its content
spec fn text_set(g: &Heap, h: &Heap, d: int, s: Seq<char>) -> bool {
    let t = tree(g);
    if kind(g, d) is Element && !raw(tag(d)) {
        if s.len() == 0 { same(tree(h), cleared(t, d)) && others(h, g) }
        else {
            &&& tree(h).k(d).len() == 1
            &&& ({
                let n = tree(h).k(d)[0];
                &&& t.p(n) is None && t.k(n).len() == 0 && n != d
                &&& same(tree(h), splice(t, d, 0, t.k(d).len() as int, seq![n]))
                &&& h.content.get(n) is Some && chars_at(h, n) == escaped(s) && textual(h.node_type.get(n))
                &&& forall|m: int| m != n ==> #[trigger] h.content.get(m) == g.content.get(m)
                &&& forall|m: int| m != n ==> #[trigger] h.node_type.get(m) == g.node_type.get(m)
            })
        }
    } else if kind(g, d) is Element || ((kind(g, d) is Text || kind(g, d) is Comment) && s.len() > 0) {
        only_content(g, h, d) && chars_at(h, d) == s && (h.content.get(d) is Some == (s.len() > 0))
    } else { *h == *g }
}
proof fn lemma_leaf(t: Tree, n: int, d: int)
    requires ok(t), n != d, t.k(n).len() == 0,
    ensures !above(t, n, d),
{
    if above(t, n, d) {
        let k = choose|k: nat| #[trigger] up(t, d, k) == Some(n);
        lemma_leaf_k(t, n, d, k);
    }
}
proof fn lemma_leaf_k(t: Tree, n: int, d: int, k: nat)
    requires ok(t), n != d, t.k(n).len() == 0,
    ensures up(t, d, k) != Some(n),
    decreases k,
{
    reveal(ok);
    if k > 0 {
        match t.p(d) {
            Some(q) => { if q == n { assert(t.k(q).contains(d)); } else { lemma_leaf_k(t, n, q, (k - 1) as nat); } }
            None => {}
        }
    }
}
proof fn lemma_apart_leaf(h: &Heap, n: int, d: int)
    requires wf(h), n != d, tree(h).p(n) is None, tree(h).k(n).len() == 0,
    ensures apart(h, tree(h), seq![n], d),
{
    lemma_leaf(tree(h), n, d);
    reveal(apart);
}
impl<'a> Handle<'a> {
//@ fn lib.rs INodeTrait@Rc::set_text
//@ prop C07 C13
//@ rule sigarg => h: &mut Heap
//@ rule text content.as_bytes() => content
//@ rule text content.chars().collect::<Vec<char>>() => vx_chars(content)
//@ rule hf Node::create_text_node => vx_text_node
//@ rule text Rc::new(RefCell::new(text_node)) => vx_new(h, self, text_node)
//@ header
    requires wf(old(h)),
    ensures wf(final(h)), text_set(old(h), final(h), rid(old(self)), content@), rid(final(self)) == rid(old(self)),
//@ at start
    let ghost h0 = *h;
    let ghost d = rid(self);
    let ghost t = tree(h);
    let ghost v0 = if h.childs.get(d) is Some { h.childs.get(d)->0@ } else { Seq::<RefNode>::empty() };
    proof {
        axiom_alive(self);
        lemma_apart_none(h, d);
        assert(rids(Seq::<RefNode>::empty()) =~= Seq::<int>::empty());
        lemma_ready(h, t, Seq::empty(), d, d, Seq::empty(), v0);
    }
//@ at end
    proof {
        if kind(&h0, d) is Element && !raw(tag(d)) {
            let e = t.k(d).len() as int;
            let n0 = if h.childs.get(d) is Some { h.childs.get(d)->0@ } else { Seq::<RefNode>::empty() };
            assert(rids(n0) =~= tree(h).k(d));
            if content@.len() > 0 {
                let n = rid(&n0[0]);
                assert(rids(n0) =~= seq![n]);
                assert(rids(n0)[0] == n);
                lemma_apart_leaf(&h0, n, d);
                lemma_pos(n0);
                assert forall|m: int| inn(n0, m) implies m == n by { let j = choose|j: int| 0 <= j < rids(n0).len() && rids(n0)[j] == m; }
            }
            assert(tree(h).k(d) =~= t.k(d).take(0) + rids(n0) + t.k(d).skip(e));
            lemma_finish(&h0, h, t, rids(n0), d, d, 0, e, n0, v0);
            if content@.len() == 0 { assert(rids(n0) =~= Seq::empty()); assert(same(tree(h), cleared(t, d))); assert(others(h, &h0)); }
        } else {
            if content@.len() == 0 { assert(content@ =~= Seq::empty()); }
            assert(same(t, tree(h)));
            lemma_ok_same(t, tree(h));
        }
    }
//@ emit
}
//@ emit
/// ParseOptions of rphtml
struct ParseOptions { case_sensitive_tagname: bool, allow_attr_key_starts_with_equal_sign: bool, allow_self_closing: bool, auto_fix_unclosed_tag: bool, auto_fix_unexpected_endtag: bool, auto_fix_unescaped_lt: bool }
fn vx_options() -> (r: ParseOptions) {
    ParseOptions { case_sensitive_tagname: false, allow_attr_key_starts_with_equal_sign: false, allow_self_closing: false, auto_fix_unclosed_tag: false, auto_fix_unexpected_endtag: false, auto_fix_unescaped_lt: false }
}
/// Doc of rphtml
#[verifier::external_body]
struct DocHolder(());
uninterp spec fn root_of(d: &DocHolder) -> int;
impl DocHolder {
    /// TRUSTED: the root of the parsed text
    #[verifier::external_body]
    fn get_root_node(&self) -> (r: RefNode)
        ensures rid(&r) == root_of(self), alive(rid(&r)),
    { unimplemented!() }
}
/// from g to h the nodes of `made` have come into being, with r on top, closed under children; d is none of them
#[verifier::opaque]
spec fn grown(g: &Heap, h: &Heap, made: Set<int>, r: int, d: int) -> bool {
    &&& made.contains(r) && !made.contains(d) && tree(h).p(r) is None
    &&& forall|m: int| made.contains(m) ==> (#[trigger] tree(g).p(m)) is None && tree(g).k(m).len() == 0
    &&& forall|m: int| !made.contains(m) ==> #[trigger] h.index.get(m) == g.index.get(m)
    &&& forall|m: int| !made.contains(m) ==> #[trigger] h.parent.get(m) == g.parent.get(m)
    &&& forall|m: int| !made.contains(m) ==> #[trigger] h.childs.get(m) == g.childs.get(m)
    &&& forall|m: int| !made.contains(m) ==> #[trigger] h.content.get(m) == g.content.get(m)
    &&& forall|m: int| !made.contains(m) ==> #[trigger] h.node_type.get(m) == g.node_type.get(m)
    &&& forall|q: int, i: int| 0 <= i < tree(h).k(q).len() && made.contains(q) ==> made.contains(#[trigger] tree(h).k(q)[i])
}
uninterp spec fn made_by(d: &DocHolder) -> Set<int>;
/// TRUSTED: Doc::parse of rphtml makes a tree of new nodes and touches nothing else; the text can be parsed
#[verifier::external_body]
fn vx_parse(h: &mut Heap, d: &Handle, content: &str, o: ParseOptions) -> (r: Result<DocHolder, ()>)
    ensures
        r is Ok, grown(old(h), final(h), made_by(&r->Ok_0), root_of(&r->Ok_0), rid(d)), wf(old(h)) ==> wf(final(h)),
{ unimplemented!() }
/// the tree when the child nodes of r take the place of the children of d (an element) or of d itself (a text)
spec fn html_tree(g: &Heap, d: int, r: int) -> Tree {
    let t = cleared(tree(g), r);
    if kind(g, d) is Element { splice(t, d, 0, t.k(d).len() as int, tree(g).k(r).filter(fits(g, tag(d)))) }
    else { splice(t, t.p(d)->0, place(t, d), 1, tree(g).k(r).filter(fits(g, tag(t.p(d)->0)))) }
}
/// the element whose children set_html changes
spec fn html_target(g: &Heap, d: int) -> Option<int> {
    if kind(g, d) is Element { Some(d) } else if kind(g, d) is Text { tree(g).p(d) } else { None }
}
/// what set_html does
spec fn html_set(g: &Heap, h: &Heap, d: int, s: Seq<char>) -> bool {
    match html_target(g, d) {
        None => *h == *g,
        Some(q) => if raw(tag(q)) { only_content(g, h, q) && chars_at(h, q) == s }
            else { exists|f: Heap, made: Set<int>, r: int| #![trigger grown(g, &f, made, r, d)] grown(g, &f, made, r, d) && same(tree(h), html_tree(&f, d, r)) && others(h, &f) },
    }
}
/// TRUSTED: the root lives as long as its document
axiom fn axiom_root(d: &DocHolder) ensures alive(root_of(d));
proof fn lemma_filter_all(s: Seq<int>, f: spec_fn(int) -> bool)
    ensures s.filter(f).len() <= s.len(), s.filter(f).len() == s.len() ==> s.filter(f) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_all(s.drop_last(), f); assert(s.drop_last().push(s.last()) =~= s); }
    else { assert(s.filter(f) =~= s); }
}
proof fn lemma_filter_none(f: spec_fn(int) -> bool)
    ensures Seq::<int>::empty().filter(f) == Seq::<int>::empty(),
{ reveal(Seq::filter); assert(Seq::<int>::empty().filter(f) =~= Seq::empty()); }
proof fn lemma_grown(g: &Heap, h: &Heap, made: Set<int>, r: int, d: int)
    requires grown(g, h, made, r, d), wf(g), wf(h),
    ensures
        !above(tree(h), r, d), tree(h).p(d) == tree(g).p(d), kind(h, d) is Element == kind(g, d) is Element, kind(h, d) is Text == kind(g, d) is Text,
        tree(g).p(d) matches Some(q) ==> !made.contains(q) && q != r,
{
    reveal(grown);
    if above(tree(h), r, d) {
        let k = choose|k: nat| #[trigger] up(tree(h), d, k) == Some(r);
        lemma_grown_k(g, h, made, r, d, d, k);
    }
    reveal(ok);
    match tree(g).p(d) { Some(q) => { assert(tree(g).k(q).contains(d)); if made.contains(q) { assert(tree(g).p(q) is None); } } None => {} }
}
proof fn lemma_grown_k(g: &Heap, h: &Heap, made: Set<int>, r: int, d: int, n: int, k: nat)
    requires grown(g, h, made, r, d), wf(h), !made.contains(n),
    ensures up(tree(h), n, k) != Some(r),
    decreases k,
{
    reveal(grown);
    if k > 0 {
        match tree(h).p(n) {
            Some(q) => {
                if made.contains(q) {
                    reveal(ok);
                    assert(tree(h).k(q).contains(n));
                    let i = choose|i: int| 0 <= i < tree(h).k(q).len() && tree(h).k(q)[i] == n;
                    assert(made.contains(tree(h).k(q)[i]));
                }
                lemma_grown_k(g, h, made, r, d, q, (k - 1) as nat);
            }
            None => {}
        }
    }
}
impl<'a> Handle<'a> {
//@ fn lib.rs INodeTrait@Rc::set_html
//@ prop C07 C13
//@ rule sigarg => h: &mut Heap
//@ rule text content.chars().collect::<Vec<char>>() => vx_chars(content)
//@ rule hf Doc::parse => vx_parse(h, self)
//@ rule text Default::default() => vx_options()
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(400)]
//@ header
    requires wf(old(h)),
    ensures wf(final(h)), html_set(old(h), final(h), rid(old(self)), content@), rid(final(self)) == rid(old(self)),
//@ at start
    hide(ok);
    hide(apart);
    let ghost h0 = *h;
    let ghost d = rid(self);
    let ghost el = kind(h, d) is Element;
    let ghost q = if html_target(h, d) is Some { html_target(h, d)->0 } else { d };
    let ghost mut f = *h;
    let ghost mut r: int = 0;
    let ghost mut made: Set<int> = Set::empty();
    let ghost mut t = tree(h);
    let ghost mut ns: Seq<int> = Seq::empty();
    let ghost mut g = *h;
    let ghost mut stage: int = 0;
    let ghost mut n0: Seq<RefNode> = Seq::empty();
    let ghost mut v0: Seq<RefNode> = Seq::empty();
    proof { axiom_alive(self); }
//@ at after let doc_holder =
    proof {
        f = *h;
        r = root_of(&doc_holder);
        made = made_by(&doc_holder);
        axiom_root(&doc_holder);
        lemma_grown(&h0, h, made, r, d);
        t = cleared(tree(&f), r);
        stage = 1;
        assert(rid(target) == q);
        if h.childs.get(r) is None {
            lemma_apart_all(&f, h, r, d);
            assert(tree(&f).k(r) =~= ns);
            g = *h;
            if h.childs.get(q) is Some { v0 = h.childs.get(q)->0@; }
            assert(rids(Seq::<RefNode>::empty()) =~= Seq::<int>::empty());
            lemma_ready(h, t, ns, d, q, n0, v0);
            lemma_pos(v0);
            if !el { lemma_child_t(h, t, ns, d); lemma_removed(v0, place(t, d)); lemma_parts(v0.remove(place(t, d))); }
            lemma_filter_none(fits(&f, tag(q)));
        }
    }
//@ at after let mut nodes =
    proof {
        ns = tree(&f).k(r);
        assert(rids(nodes@) =~= ns);
        assert(tree(h).k(r) =~= Seq::<int>::empty());
        lemma_apart_all(&f, h, r, d);
        lemma_apart_nodup(h, t, ns, d);
        g = *h;
    }
//@ at after let has_not_allowed =
    proof {
        lemma_apart_filter(&g, h, t, ns, d, fits(&f, tag(q)));
        ns = ns.filter(fits(&f, tag(q)));
        assert(rids(nodes@) == ns);
        g = *h;
        n0 = nodes@;
        if !has_not_allowed && n0.len() > 0 {
            lemma_filter_all(tree(&f).k(r), fits(&f, tag(q)));
            lemma_parts(n0);
            assert forall|m: int| inn(n0, m) implies g.index.get(m) == #[trigger] pos(n0, m) by { assert(f.index.get(tree(&f).k(r)[pos(n0, m)]) == pos(n0, m)); }
        }
        if h.childs.get(q) is Some { v0 = h.childs.get(q)->0@; }
        lemma_ready(h, t, ns, d, q, n0, v0);
        lemma_pos(v0);
        if !el { lemma_child_t(h, t, ns, d); lemma_removed(v0, place(t, d)); lemma_parts(v0.remove(place(t, d))); }
    }
//@ loop 0
    invariant
        __i0 <= __s0.len(), __s0@ == nodes@,
        forall|m: int| par_of(#[trigger] h.parent.get(m)) == (if inn(nodes@.take(__i0 as int), m) { Some(q) } else { par_of(g.parent.get(m)) }),
//@ at loop-start 0
    proof { lemma_take(nodes@, __i0 - 1); }
//@ at loop-exit 0
    proof { assert(nodes@.take(__i0 as int) =~= nodes@); }
//@ at end
    proof {
        if stage == 1 {
            let i = if el { 0 } else { place(t, d) };
            let e = if el { t.k(d).len() as int } else { 1 };
            if !el { assert(rids(v0)[i] == d); }
            assert(tree(h).k(q) =~= t.k(q).take(i) + ns + t.k(q).skip(i + e));
            lemma_finish(&g, h, t, ns, d, q, i, e, n0, v0);
            assert(grown(&h0, &f, made, r, d));
        } else {
            assert(same(tree(&h0), tree(h)));
            lemma_ok_same(tree(&h0), tree(h));
        }
    }
//@ emit
}
//@ emit
impl<'a> Handle<'a> {
//@ fn lib.rs ITextTrait@Rc::append_text
//@ prop C07 C13
//@ rule sigarg => h: &mut Heap
//@ rule text content.chars().collect::<Vec<char>>() => vx_chars(content)
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), only_content(old(h), final(h), rid(old(self))), rid(final(self)) == rid(old(self)),
        chars_at(final(h), rid(old(self))) == chars_at(old(h), rid(old(self))) + content@, final(h).content.get(rid(old(self))) is Some,
//@ at start
    let ghost h0 = *h;
//@ at end
    proof {
        assert(same(tree(&h0), tree(h)));
        lemma_ok_same(tree(&h0), tree(h));
        assert(chars_at(h, rid(self)) =~= chars_at(&h0, rid(self)) + content@);
    }
//@ fn lib.rs ITextTrait@Rc::prepend_text
//@ prop C07 C13
//@ rule sigarg => h: &mut Heap
//@ rule text content.chars().collect::<Vec<char>>() => vx_chars(content)
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), only_content(old(h), final(h), rid(old(self))), rid(final(self)) == rid(old(self)),
        chars_at(final(h), rid(old(self))) == content@ + chars_at(old(h), rid(old(self))), final(h).content.get(rid(old(self))) is Some,
//@ at start
    let ghost h0 = *h;
//@ at end
    proof {
        assert(same(tree(&h0), tree(h)));
        lemma_ok_same(tree(&h0), tree(h));
        assert(chars_at(h, rid(self)) =~= content@ + chars_at(&h0, rid(self)));
    }
//@ emit
}
//@ include domelems.vx
//@ rule-all hm set_text => h
//@ rule-all hm set_html => h
//@ emit
spec fn text_to(s: Seq<char>) -> spec_fn(Heap, Heap, int) -> bool { |a: Heap, b: Heap, d: int| text_set(&a, &b, d, s) }
spec fn html_to(s: Seq<char>) -> spec_fn(Heap, Heap, int) -> bool { |a: Heap, b: Heap, d: int| html_set(&a, &b, d, s) }
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::set_text
//@ prop C07 C13
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), r.ids() == old(self).ids(), *final(self) == *final(r),
        run(text_to(content@), *old(h), *final(h), old(self).ids()),
//@ at start
    let ghost ids0 = self.ids();
    let ghost f = text_to(content@);
    let ghost h0 = *h;
    proof { assert(ids0.take(0) =~= Seq::empty()); lemma_run_none(f, h0); }
//@ loop 0 mut
    invariant
        wf(h), hids(__s0@) == ids0, __i0 <= __s0@.len(), f == text_to(content@),
        run(f, h0, *h, ids0.take(__i0 as int)),
//@ at loop-start 0
    let ghost h1 = *h;
    let ghost n = rid(ele);
//@ at loop-end 0
    proof {
        assert(ids0.take(__i0 as int) =~= ids0.take(__i0 - 1).push(n));
        lemma_run_step(f, h0, h1, *h, ids0.take(__i0 - 1), n);
        assert(hids(__s0@) =~= ids0);
    }
//@ at loop-exit 0
    proof { assert(ids0.take(__i0 as int) =~= ids0); }
//@ fn mesdoc/interface/elements.rs Elements::set_html
//@ prop C07 C13
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), r.ids() == old(self).ids(), *final(self) == *final(r),
        run(html_to(content@), *old(h), *final(h), old(self).ids()),
//@ at start
    let ghost ids0 = self.ids();
    let ghost f = html_to(content@);
    let ghost h0 = *h;
    proof { assert(ids0.take(0) =~= Seq::empty()); lemma_run_none(f, h0); }
//@ loop 0 mut
    invariant
        wf(h), hids(__s0@) == ids0, __i0 <= __s0@.len(), f == html_to(content@),
        run(f, h0, *h, ids0.take(__i0 as int)),
//@ at loop-start 0
    let ghost h1 = *h;
    let ghost n = rid(ele);
//@ at loop-end 0
    proof {
        assert(ids0.take(__i0 as int) =~= ids0.take(__i0 - 1).push(n));
        lemma_run_step(f, h0, h1, *h, ids0.take(__i0 - 1), n);
        assert(hids(__s0@) =~= ids0);
    }
//@ at loop-exit 0
    proof { assert(ids0.take(__i0 as int) =~= ids0); }
//@ fn mesdoc/interface/elements.rs Elements::empty
//@ prop C07 C13
//@ ret r
//@ rule sigarg => h: &mut Heap
//@ header
    requires wf(old(h)),
    ensures
        wf(final(h)), r.ids() == old(self).ids(), *final(self) == *final(r),
        run(text_to(Seq::empty()), *old(h), *final(h), old(self).ids()),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ emit
}
//@ emit
}
fn main() {}
