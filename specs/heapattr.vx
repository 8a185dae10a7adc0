//@ emit
// ---------------------------------------------------------------- elements as handles, their attributes in a heap
//@ item mesdoc/interface/element.rs IAttrValue
//@ emit
enum AttrV { True, Value(Seq<char>) }
/// an element handle (`Box<dyn IElementTrait>` over `Rc<RefCell<Node>>`); `id` is its identity
#[verifier::external_body]
struct Ele<'a>(std::marker::PhantomData<&'a ()>);
/// identity of the node behind a handle
uninterp spec fn id_of(e: &Ele) -> int;
type BoxDynElement<'a> = Ele<'a>;
/// a document
#[verifier::external_body]
struct Doc<'a>(std::marker::PhantomData<&'a ()>);
type MaybeDoc<'a> = Option<Doc<'a>>;
//@ item mesdoc/interface/elements.rs Elements
//@ emit
/// the nodes behind the handles (interior mutability made explicit)
#[verifier::external_body]
struct Heap(());
spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32u32) as char } else { c } }
spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low(s[i])) }
proof fn lemma_lower_class()
    ensures lower("class"@) == "class"@,
{
    reveal_strlit("class");
    assert(lower("class"@) =~= "class"@);
}
/// attribute of an element, by lower case name
uninterp spec fn attr(h: &Heap, id: int, name: Seq<char>) -> Option<AttrV>;
/// what set_attribute stores for a value: exactly the value unless it contains both kinds of quotes (unit `attr`)
uninterp spec fn stored(v: Seq<char>) -> Seq<char>;
spec fn noquote(v: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] != '"' && v[i] != '\'' }
spec fn abs_val(v: Option<IAttrValue>) -> Option<AttrV> {
    match v {
        None => None,
        Some(IAttrValue::True) => Some(AttrV::True),
        Some(IAttrValue::Value(s, _)) => Some(AttrV::Value(s@)),
    }
}
impl Heap {
    /// assumed here, proved in unit `attr`: IElementTrait::get_attribute
    #[verifier::external_body]
    fn get_attribute(&self, ele: &Ele, name: &str) -> (r: Option<IAttrValue>)
        ensures abs_val(r) == attr(self, id_of(ele), lower(name@)),
    { unimplemented!() }
    /// assumed here, proved in unit `attr`: IElementTrait::set_attribute
    #[verifier::external_body]
    fn set_attribute(&mut self, ele: &Ele, name: &str, value: Option<&str>)
        ensures
            attr(final(self), id_of(ele), lower(name@)) == Some(match value { Some(v) => AttrV::Value(stored(v@)), None => AttrV::True }),
            forall|i: int, n: Seq<char>| i != id_of(ele) || n != lower(name@) ==> #[trigger] attr(final(self), i, n) == attr(old(self), i, n),
    { unimplemented!() }
}
/// what is proved of set_attribute's quoting in unit `attr`
axiom fn axiom_stored(v: Seq<char>)
    requires noquote(v),
    ensures stored(v) == v;
