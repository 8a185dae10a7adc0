//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include vxstr.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ item mesdoc/interface/element.rs IAttrValue
//@ emit
// ---------------------------------------------------------------- tags and attributes of the tree
/// the tag name in small letters; nothing for what is no element
uninterp spec fn tags(n: int) -> Seq<char>;
/// the value of an attribute of a node; None inside: an attribute without a value
uninterp spec fn attr_at(n: int, name: Seq<char>) -> Option<Option<Seq<char>>>;
spec fn val_of(v: Option<IAttrValue>) -> Option<Option<Seq<char>>> {
    match v { None => None, Some(IAttrValue::True) => Some(None), Some(IAttrValue::Value(s, _)) => Some(Some(s@)) }
}
impl<'a> Ele<'a> {
    /// ASSUMED here, proved in unit domread
    #[verifier::external_body]
    fn tag_names(&self) -> (r: Vec<char>)
        ensures r@ == tags(id_of(self)),
    { unimplemented!() }
    /// ASSUMED here, proved in unit attr on the heap
    #[verifier::external_body]
    fn get_attribute(&self, name: &str) -> (r: Option<IAttrValue>)
        ensures val_of(r) == attr_at(id_of(self), name@),
    { unimplemented!() }
    /// ASSUMED here, proved in unit attrs on the heap
    #[verifier::external_body]
    fn has_attribute(&self, name: &str) -> (r: bool)
        ensures r == (attr_at(id_of(self), name@) is Some),
    { unimplemented!() }
}
spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32u32) as char } else { c } }
spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low(s[i])) }
/// TRUSTED: `str::to_ascii_lowercase`
#[verifier::external_body]
fn vx_lower(s: &str) -> (r: String)
    ensures r@ == lower(s@),
{ s.to_ascii_lowercase() }
//@ contract cond.vx is_equal_chars
//@ emit
// ---------------------------------------------------------------- :checked
/// n is a selected option, or holds one that is not inside another option
spec fn picked(n: int) -> bool
    decreases height(n),
{
    if tags(n) == "option"@ { attr_at(n, "selected"@) is Some } else { exists|i: int| 0 <= i < elkids(n).len() && height(#[trigger] elkids(n)[i]) < height(n) && picked(elkids(n)[i]) }
}
spec fn checked(e: int) -> bool {
    if tags(e) == "input"@ {
        attr_at(e, "type"@) is Some && attr_at(e, "type"@)->0 is Some && attr_at(e, "checked"@) is Some
            && (lower(attr_at(e, "type"@)->0->0) == "checkbox"@ || lower(attr_at(e, "type"@)->0->0) == "radio"@)
    } else if tags(e) == "option"@ {
        attr_at(e, "selected"@) is Some || default_option(e)
    } else { false }
}
/// the option a select shows when none is selected
spec fn default_option(e: int) -> bool {
    &&& par(e) matches Some(p) && tags(p) == "select"@ && attr_at(p, "multiple"@) is None
    &&& forall|n: int| #[trigger] prevs(e).contains(n) ==> tags(n) != "option"@ && !picked(n)
    &&& forall|n: int| #[trigger] nexts(e).contains(n) ==> !picked(n)
}
proof fn lemma_words(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires a == seq!['i', 'n', 'p', 'u', 't'], b == seq!['o', 'p', 't', 'i', 'o', 'n'], c == seq!['s', 'e', 'l', 'e', 'c', 't'],
    ensures a == "input"@, b == "option"@, c == "select"@, a != b,
{
    reveal_strlit("input");
    reveal_strlit("option");
    reveal_strlit("select");
    assert(a =~= "input"@);
    assert(b =~= "option"@);
    assert(c =~= "select"@);
}
//@ fn mesdoc/rules/pseudo.rs pseudo_checked/check_selected_option as check_selected_option
//@ prop C16
//@ ret r
//@ header
    requires option_tag@ == "option"@,
    ensures r == picked(id_of(ele)),
    decreases height(id_of(ele)),
//@ at start
    let ghost e = id_of(ele);
    proof { axiom_tree(e); lemma_filter_none(kids(e).take(0)); lemma_elkids(e); }
//@ loop 0
    invariant
        e == id_of(ele), tags(e) != "option"@, option_tag@ == "option"@,
        __a0 == 0, __e0 == total, total == kids(e).len(), __i0 <= total,
        forall|i: int| 0 <= i < __i0 && is_el(#[trigger] kids(e)[i]) ==> !picked(kids(e)[i]),
//@ at loop-start 0
    proof {
        let n = kids(e)[index as int];
        lemma_kid(e, index as int);
        if is_el(n) { lemma_elkids(e); assert(elkids(e).contains(n)); }
    }
//@ at loop-exit 0
    proof {
        lemma_elkids(e);
        assert forall|i: int| 0 <= i < elkids(e).len() implies !picked(#[trigger] elkids(e)[i]) by { let n = elkids(e)[i]; assert(elkids(e).contains(n)); axiom_tree(n); }
    }
//@ closure mesdoc/rules/pseudo.rs pseudo_checked one_handle as checked_one
//@ prop C16
//@ rule streq
//@ rule method to_ascii_lowercase => vx_lower
//@ rule inner check_selected_option => check_selected_option
//@ attrs
#[verifier::loop_isolation(false)]
//@ sig
fn checked_one(ele: &Ele) -> (r: bool)
//@ header
    ensures r == checked(id_of(ele)),
//@ at start
    let ghost e = id_of(ele);
    proof { lemma_words(seq!['i', 'n', 'p', 'u', 't'], seq!['o', 'p', 't', 'i', 'o', 'n'], seq!['s', 'e', 'l', 'e', 'c', 't']); lemma_prevs(e); lemma_nexts(e); }
//@ at before let is_selected
    proof { assert(option_tag@ =~= "option"@); assert(tags(e) == "option"@); }
//@ loop 0
    invariant
        prev matches Some(x) ==> prevs(e).contains(id_of(&x)),
        forall|n: int| #[trigger] prevs(e).contains(n) && (prev matches Some(x) ==> idx(n) > idx(id_of(&x))) ==> tags(n) != "option"@ && !picked(n),
    decreases (match prev { Some(x) => idx(id_of(&x)) + 1, None => 0 }),
//@ at loop-start 0
    let ghost x = id_of(prev_ele);
    proof { lemma_prevs(x); }
//@ at loop-end 0
    proof {
        assert forall|n: int| #[trigger] prevs(e).contains(n) && (prev matches Some(y) ==> idx(n) > idx(id_of(&y))) implies tags(n) != "option"@ && !picked(n) by {
            if idx(n) < idx(x) {
                assert(prevs(x).contains(n));
                let i = choose|i: int| 0 <= i < prevs(x).len() && prevs(x)[i] == n;
                if i < prevs(x).len() - 1 { assert(idx(prevs(x)[i]) < idx(prevs(x)[prevs(x).len() - 1])); }
            } else if idx(n) == idx(x) { axiom_tree(n); axiom_tree(x); }
        }
        if prev is Some { assert(prevs(x).contains(prevs(x)[prevs(x).len() - 1])); }
    }
//@ loop 1
    invariant
        next matches Some(x) ==> nexts(e).contains(id_of(&x)),
        forall|n: int| #[trigger] nexts(e).contains(n) && (next matches Some(x) ==> idx(n) < idx(id_of(&x))) ==> !picked(n),
    decreases (match next { Some(x) => kids(par(e)->0).len() - idx(id_of(&x)), None => 0 }),
//@ at loop-start 1
    let ghost x = id_of(next_ele);
    proof { lemma_nexts(x); axiom_tree(x); }
//@ at loop-end 1
    proof {
        assert forall|n: int| #[trigger] nexts(e).contains(n) && (next matches Some(y) ==> idx(n) < idx(id_of(&y))) implies !picked(n) by {
            if idx(n) > idx(x) {
                assert(nexts(x).contains(n));
                let i = choose|i: int| 0 <= i < nexts(x).len() && nexts(x)[i] == n;
                if 0 < i { assert(idx(nexts(x)[0]) < idx(nexts(x)[i])); }
            } else if idx(n) == idx(x) { axiom_tree(n); axiom_tree(x); }
        }
        if next is Some { assert(nexts(x).contains(nexts(x)[0])); axiom_tree(nexts(x)[0]); }
    }
//@ emit
}
fn main() {}
