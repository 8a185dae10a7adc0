//@ include base.vx
global size_of usize == 8;
//@ emit
// ---------------------------------------------------------------- handles, and what rphtml renders of the node behind them
#[verifier::external_body]
struct Ele<'a>(std::marker::PhantomData<&'a ()>);
uninterp spec fn id_of(e: &Ele) -> int;
type BoxDynElement<'a> = Ele<'a>;
#[verifier::external_body]
struct Doc<'a>(std::marker::PhantomData<&'a ()>);
type MaybeDoc<'a> = Option<Doc<'a>>;
//@ item mesdoc/interface/elements.rs Elements
//@ item mesdoc/interface/node.rs INodeType
//@ emit
uninterp spec fn kind(id: int) -> INodeType;
/// RenderOptions of rphtml
struct RenderOptions { minify_spaces: bool, lowercase_tagname: bool, remove_endtag_space: bool, remove_attr_quote: bool, remove_comment: bool, always_close_void: bool, inner_html: bool, decode_entity: bool, encode_content: bool }
spec fn plain() -> RenderOptions {
    RenderOptions { minify_spaces: false, lowercase_tagname: false, remove_endtag_space: false, remove_attr_quote: false, remove_comment: false, always_close_void: false, inner_html: false, decode_entity: false, encode_content: false }
}
/// TRUSTED: RenderOptions::default() of rphtml
fn vx_render_default() -> (r: RenderOptions)
    ensures r == plain(),
{ RenderOptions { minify_spaces: false, lowercase_tagname: false, remove_endtag_space: false, remove_attr_quote: false, remove_comment: false, always_close_void: false, inner_html: false, decode_entity: false, encode_content: false } }
/// what rphtml writes of a node: only the texts below it (inner), or the node as it is
uninterp spec fn built(id: int, o: RenderOptions, inner: bool) -> Seq<char>;
/// the text of a node, references read as the characters they stand for
spec fn text_of(id: int) -> Seq<char> { built(id, RenderOptions { decode_entity: true, ..plain() }, kind(id) is Element || kind(id) is Comment) }
/// the text as it is written
spec fn written_text(id: int) -> Seq<char> { built(id, plain(), kind(id) is Element) }
/// the content of an element as markup, and with its own tags
spec fn inner_of(id: int) -> Seq<char> { built(id, RenderOptions { inner_html: true, encode_content: true, ..plain() }, false) }
spec fn outer_of(id: int) -> Seq<char> { built(id, RenderOptions { encode_content: true, ..plain() }, false) }
impl<'a> Ele<'a> {
    /// TRUSTED: Node::build of rphtml; it panics when texts only and inner html are both asked for, or when the node is of the wrong kind for them
    #[verifier::external_body]
    fn build(&self, o: &RenderOptions, inner: bool) -> (r: Vec<char>)
        requires inner ==> !o.inner_html && (kind(id_of(self)) is Element || kind(id_of(self)) is Comment), o.inner_html ==> kind(id_of(self)) is Element,
        ensures r@ == built(id_of(self), *o, inner),
    { unimplemented!() }
    /// proved on the heap in unit dom
    #[verifier::external_body]
    fn node_type(&self) -> (r: INodeType)
        ensures r == kind(id_of(self)),
    { unimplemented!() }
//@ fn lib.rs INodeTrait@Rc::text_contents
//@ prop C13
//@ ret r
//@ rule text self.borrow() => self
//@ rule text Default::default() => vx_render_default()
//@ header
    ensures r@ == text_of(id_of(self)),
//@ fn lib.rs INodeTrait@Rc::text_chars
//@ prop C13
//@ ret r
//@ rule text self.borrow() => self
//@ rule text Default::default() => vx_render_default()
//@ header
    ensures r@ == written_text(id_of(self)),
//@ fn mesdoc/interface/node.rs trait:INodeTrait::text_content
//@ prop C13
//@ ret r
//@ header
    ensures r@ == text_of(id_of(self)),
//@ fn mesdoc/interface/node.rs trait:INodeTrait::text
//@ prop C13
//@ ret r
//@ header
    ensures r@ == text_of(id_of(self)),
//@ fn lib.rs IElementTrait@Rc::inner_html
//@ prop C13 C07
//@ ret r
//@ rule text self.borrow() => self
//@ rule text Default::default() => vx_render_default()
//@ header
    requires kind(id_of(self)) is Element,
    ensures r@ == inner_of(id_of(self)),
//@ fn lib.rs IElementTrait@Rc::outer_html
//@ prop C13 C07
//@ ret r
//@ rule text self.borrow() => self
//@ rule text Default::default() => vx_render_default()
//@ header
    ensures r@ == outer_of(id_of(self)),
//@ fn mesdoc/interface/element.rs trait:IElementTrait::html
//@ prop C13 C07
//@ ret r
//@ header
    requires kind(id_of(self)) is Element,
    ensures r@ == inner_of(id_of(self)),
//@ emit
}
spec fn joined(s: Seq<String>, sep: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0]@ } else { joined(s.drop_last(), sep) + sep + s.last()@ } }
/// TRUSTED: `[String]::join`
#[verifier::external_body]
fn vx_join(v: &Vec<String>, sep: &str) -> (r: String)
    ensures r@ == joined(v@, sep@),
{ v.join(sep) }
/// TRUSTED: String::push_str
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str)
    ensures final(s)@ == old(s)@ + t@,
{ s.push_str(t) }
/// TRUSTED: a new String is empty
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
/// TRUSTED: the same characters
#[verifier::external_body]
fn vx_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ String::from(s) }
/// one after the other
spec fn all_of(ids: Seq<int>, f: spec_fn(int) -> Seq<char>) -> Seq<char>
    decreases ids.len(),
{ if ids.len() == 0 { Seq::empty() } else { all_of(ids.drop_last(), f) + f(ids.last()) } }
spec fn f_text() -> spec_fn(int) -> Seq<char> { |i: int| text_of(i) }
spec fn f_inner() -> spec_fn(int) -> Seq<char> { |i: int| inner_of(i) }
spec fn f_outer() -> spec_fn(int) -> Seq<char> { |i: int| outer_of(i) }
impl<'a> Elements<'a> {
    spec fn ids(&self) -> Seq<int> { Seq::new(self.nodes@.len(), |i: int| id_of(&self.nodes@[i])) }
    spec fn elements(&self) -> bool { forall|i: int| 0 <= i < self.nodes@.len() ==> kind(id_of(&#[trigger] self.nodes@[i])) is Element }
}
proof fn lemma_all_step(ids: Seq<int>, k: int, f: spec_fn(int) -> Seq<char>)
    requires 0 <= k < ids.len(),
    ensures all_of(ids.take(k + 1), f) == all_of(ids.take(k), f) + f(ids[k]),
{ assert(ids.take(k + 1).drop_last() =~= ids.take(k)); }
proof fn lemma_joined(s: Seq<String>, ids: Seq<int>, f: spec_fn(int) -> Seq<char>)
    requires s.len() == ids.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == f(ids[i]),
    ensures joined(s, Seq::empty()) == all_of(ids, f),
    decreases s.len(),
{
    if s.len() == 1 { assert(ids.drop_last().len() == 0); assert(all_of(ids.drop_last(), f) =~= Seq::empty()); assert(Seq::<char>::empty() + f(ids.last()) =~= f(ids.last())); }
    if s.len() > 1 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i])@ == f(ids.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_joined(s.drop_last(), ids.drop_last(), f);
        assert(s[s.len() - 1]@ == f(ids[ids.len() - 1]));
        assert(joined(s.drop_last(), Seq::empty()) + Seq::<char>::empty() =~= joined(s.drop_last(), Seq::empty()));
    }
}
impl<'a> Elements<'a> {
//@ fn mesdoc/interface/elements.rs Elements::get_ref
//@ prop C13
//@ ret r
//@ header
    ensures r@ == self.nodes@,
//@ fn mesdoc/interface/elements.rs Elements::get
//@ prop C13
//@ ret r
//@ header
    ensures r == (if index < self.nodes@.len() { Some(&self.nodes@[index as int]) } else { None }),
//@ fn mesdoc/interface/elements.rs Elements::text
//@ prop C13
//@ ret r
//@ rule method push_str => vx_push_str(mut)
//@ header
    ensures r@ == all_of(self.ids(), f_text()),
//@ at start
    proof { assert(self.ids().take(0) =~= Seq::empty()); }
//@ loop 0
    invariant __s0@ == self.nodes@, __i0 <= __s0.len(), result@ == all_of(self.ids().take(__i0 as int), f_text()),
//@ at loop-end 0
    proof { lemma_all_step(self.ids(), __i0 - 1, f_text()); }
//@ at loop-exit 0
    proof { assert(self.ids().take(__i0 as int) =~= self.ids()); }
//@ fn mesdoc/interface/elements.rs Elements::html
//@ prop C13 C07
//@ ret r
//@ rule text? String::from( => vx_from(
//@ header
    requires self.elements(),
    ensures r@ == (if self.nodes@.len() > 0 { inner_of(self.ids()[0]) } else { Seq::empty() }),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ fn mesdoc/interface/elements.rs Elements::outer_html
//@ prop C13 C07
//@ ret r
//@ rule text? String::from( => vx_from(
//@ header
    ensures r@ == (if self.nodes@.len() > 0 { outer_of(self.ids()[0]) } else { Seq::empty() }),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ fn mesdoc/interface/elements.rs Elements::htmls
//@ prop C13 C07
//@ ret r
//@ rule setmap 0 => String
//@ rule method join => vx_join
//@ header
    requires self.elements(),
    ensures r@ == all_of(self.ids(), f_inner()),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), __o0@.len() == __i0, self.elements(),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] __o0@[i])@ == f_inner()(self.ids()[i]),
//@ at loop-exit 0
    proof { lemma_joined(__o0@, self.ids(), f_inner()); }
//@ fn mesdoc/interface/elements.rs Elements::outer_htmls
//@ prop C13 C07
//@ ret r
//@ rule setmap 0 => String
//@ rule method join => vx_join
//@ header
    ensures r@ == all_of(self.ids(), f_outer()),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), __o0@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] __o0@[i])@ == f_outer()(self.ids()[i]),
//@ at loop-exit 0
    proof { lemma_joined(__o0@, self.ids(), f_outer()); }
//@ emit
}
//@ emit
}
fn main() {}
