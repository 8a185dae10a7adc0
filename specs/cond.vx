//@ include base.vx
global size_of usize == 8;
//@ include words.vx
//@ include heapattr.vx
//@ include vxstr.vx
//@ emit
/// TRUSTED: `format!` of texts puts their characters one after the other
#[verifier::external_body]
fn vx_cat<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: String)
    ensures r@ == a.sv() + b.sv(),
{ unimplemented!() }
/// TRUSTED: as `format!`
#[verifier::external_body]
fn vx_text<A: VxStr + ?Sized>(a: &A) -> (r: String)
    ensures r@ == a.sv(),
{ unimplemented!() }
spec fn begins(s: Seq<char>, w: Seq<char>) -> bool { s.len() >= w.len() && s.take(w.len() as int) == w }
spec fn ends(s: Seq<char>, w: Seq<char>) -> bool { s.len() >= w.len() && s.skip(s.len() - w.len()) == w }
spec fn found_at(s: Seq<char>, w: Seq<char>, i: int) -> bool { 0 <= i && i + w.len() <= s.len() && s.subrange(i, i + w.len()) == w }
spec fn found(s: Seq<char>, w: Seq<char>) -> bool { exists|i: int| #[trigger] found_at(s, w, i) }
/// TRUSTED: `str::starts_with`
#[verifier::external_body]
fn vx_starts_with<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == begins(a.sv(), b.sv()),
{ unimplemented!() }
/// TRUSTED: `str::ends_with`
#[verifier::external_body]
fn vx_ends_with<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == ends(a.sv(), b.sv()),
{ unimplemented!() }
/// TRUSTED: `str::contains`
#[verifier::external_body]
fn vx_str_contains<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == found(a.sv(), b.sv()),
{ unimplemented!() }
spec fn chars_of_strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// TRUSTED: `str::split_ascii_whitespace` gives the white space separated names, in order
#[verifier::external_body]
fn vx_split_ascii_whitespace(s: &str) -> (r: Vec<&str>)
    ensures chars_of_strs(r@) == words(s@),
{ s.split_ascii_whitespace().collect() }
/// TRUSTED: `String::is_empty`
#[verifier::external_body]
fn vx_is_empty<A: VxStr + ?Sized>(a: &A) -> (r: bool)
    ensures r == (a.sv().len() == 0),
{ unimplemented!() }

// ---------------------------------------------------------------- the definitions of the attribute conditions
/// mode: the character before `=`; wanted: the value asked for
spec fn attr_cond(mode: Seq<char>, wanted: Seq<char>, v: Option<AttrV>) -> bool {
    if mode == "^"@ {
        v is Some && v->0 is Value && wanted.len() > 0 && begins(v->0->Value_0, wanted)
    } else if mode == "$"@ {
        v is Some && v->0 is Value && wanted.len() > 0 && ends(v->0->Value_0, wanted)
    } else if mode == "*"@ {
        v is Some && v->0 is Value && wanted.len() > 0 && found(v->0->Value_0, wanted)
    } else if mode == "~"@ {
        v is Some && v->0 is Value && wanted.len() > 0 && words(v->0->Value_0).contains(wanted)
    } else if mode == "|"@ {
        v is Some && match v->0 { AttrV::Value(s) => s == wanted || begins(s, wanted + seq!['-']), AttrV::True => wanted.len() == 0 }
    } else if mode == "!"@ {
        v is Some ==> match v->0 { AttrV::Value(s) => s != wanted, AttrV::True => wanted.len() != 0 }
    } else {
        v is Some && match v->0 { AttrV::Value(s) => s == wanted, AttrV::True => wanted.len() == 0 }
    }
}
//@ init mesdoc/rules/attr.rs init handle
//@ prop C10
//@ sig
fn attr_handle(attr_value: Option<String>, match_mode: &String, val: &Option<IAttrValue>) -> (r: bool)
//@ rule apply
//@ rule streq
//@ rule strmatch
//@ rule fmt
//@ rule method starts_with => vx_starts_with
//@ rule method ends_with => vx_ends_with
//@ rule method contains => vx_str_contains
//@ rule method is_empty => vx_is_empty
//@ rule method split_ascii_whitespace => vx_split_ascii_whitespace
//@ attrs
#[verifier::loop_isolation(false)]
//@ header
    requires
        // what the pattern `[*^$~|!]?` of the rule lets through
        match_mode@ == ""@ || match_mode@ == "^"@ || match_mode@ == "$"@ || match_mode@ == "*"@ || match_mode@ == "~"@ || match_mode@ == "|"@ || match_mode@ == "!"@,
    ensures
        attr_value is None ==> r == (*val is Some),
        attr_value is Some ==> r == attr_cond(match_mode@, attr_value->0@, abs_val(*val)),
//@ at start
    proof {
        reveal_strlit("^"); reveal_strlit("$"); reveal_strlit("*"); reveal_strlit("~"); reveal_strlit("|"); reveal_strlit("!"); reveal_strlit(""); reveal_strlit("-");
        assert("^"@.len() == 1); assert("$"@.len() == 1); assert(""@.len() == 0);
        assert("^"@[0] == '^'); assert("$"@[0] == '$'); assert("*"@[0] == '*'); assert("~"@[0] == '~'); assert("|"@[0] == '|'); assert("!"@[0] == '!');
        assert("-"@ =~= seq!['-']);
        assert forall|s: Seq<char>| s.len() == 0 implies s == Seq::<char>::empty() by { assert(s =~= Seq::empty()); }
    }
//@ loop 0
    invariant
        __i0 <= __s0.len(),
        __s0@ == split_v@,
        chars_of_strs(split_v@) == words(v@), g_v == v@,
        forall|k: int| 0 <= k < __i0 ==> #[trigger] words(v@)[k] != attr_value@,
//@ at pre-loop 0
    let ghost g_v = v@;
//@ at loop-start 0
    proof { assert(words(g_v)[__i0 - 1] == v@); }
//@ emit
// ---------------------------------------------------------------- searching and comparing characters
spec fn up(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32) - 32u32) as char } else { c } }
spec fn same_nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> up(#[trigger] a[i]) == up(b[i]) }
/// TRUSTED: `char::to_ascii_uppercase`
#[verifier::external_body]
fn vx_to_ascii_uppercase(c: &char) -> (r: char)
    ensures r == up(*c),
{ c.to_ascii_uppercase() }
/// TRUSTED: `char::to_ascii_lowercase`
#[verifier::external_body]
fn vx_to_ascii_lowercase(c: &char) -> (r: char)
    ensures r == (if 'A' <= *c && *c <= 'Z' { (((*c) as u32) + 32u32) as char } else { *c }),
{ c.to_ascii_lowercase() }
//@ fn mesdoc/utils.rs is_equal_chars
//@ prop C10 C16
//@ ret r
//@ header
    ensures r == (target@ == cmp@),
//@ loop 0
    invariant
        target@.len() == cmp@.len(),
        __s0@ == target@, __i0 <= __s0.len(),
        forall|k: int| 0 <= k < __i0 ==> target@[k] == cmp@[k],
//@ at loop-exit 0
    proof { assert(target@ =~= cmp@); }
//@ fn mesdoc/utils.rs is_equal_chars_ignore_case
//@ prop C10
//@ ret r
//@ rule method to_ascii_uppercase => vx_to_ascii_uppercase
//@ rule method to_ascii_lowercase => vx_to_ascii_lowercase
//@ header
    ensures r == same_nocase(target@, cmp@),
//@ loop 0
    invariant
        target@.len() == cmp@.len(),
        __s0@ == target@, __i0 <= __s0.len(),
        forall|k: int| 0 <= k < __i0 ==> up(#[trigger] target@[k]) == up(cmp@[k]),
//@ at loop-start 0
    proof { assert(target@[__i0 - 1] == *ch); }
//@ fn mesdoc/utils.rs contains_chars_nocheck
//@ prop C10
//@ ret r
//@ header
    requires t_len == target@.len(), s_len == search@.len(), s_len <= t_len, t_len < usize::MAX,
    ensures r == found(target@, search@),
//@ loop 0
    invariant
        t_len == target@.len(), s_len == search@.len(), s_len <= t_len, t_len < usize::MAX,
        max_start_index == t_len - s_len,
        start_index <= max_start_index + 1,
        forall|i: int| 0 <= i < start_index ==> !#[trigger] found_at(target@, search@, i),
    decreases max_start_index + 1 - start_index,
//@ loop 1
    invariant
        s_len == search@.len(),
        start_index + s_len <= target@.len(),
        __s1@ == target@.subrange(start_index as int, start_index + s_len),
        __i1 <= __s1.len(),
        move_one == !(forall|k: int| 0 <= k < __i1 ==> target@[start_index + k] == search@[k]),
//@ at loop-start 1
    proof { assert(*ch == target@[start_index + __i1 - 1]); }
//@ at loop-exit 1
    proof {
        assert(found_at(target@, search@, start_index as int) == !move_one) by {
            let sub = target@.subrange(start_index as int, start_index + s_len);
            if !move_one { assert(sub =~= search@); } else {
                let k = choose|k: int| 0 <= k < __i1 && target@[start_index + k] != search@[k];
                assert(sub[k] != search@[k]);
            }
        }
    }
//@ fn mesdoc/utils.rs contains_chars
//@ prop C10
//@ ret r
//@ header
    ensures r == found(target@, search@),
//@ at start
    proof { axiom_chars_len(target); }
//@ emit
/// TRUSTED: an allocation is at most isize::MAX bytes
axiom fn axiom_chars_len(v: &[char])
    ensures v@.len() < 0x2000_0000_0000_0000;
// ---------------------------------------------------------------- the conditions of the rules
/// tag name of an element, as its start tag has it
uninterp spec fn tag_of(h: &Heap, id: int) -> Seq<char>;
/// concatenated text of an element
uninterp spec fn text_of(h: &Heap, id: int) -> Seq<char>;
impl Heap {
    /// TRUSTED: IElementTrait::tag_names
    #[verifier::external_body]
    fn tag_names(&self, ele: &Ele) -> (r: Vec<char>)
        ensures r@ == tag_of(self, id_of(ele)),
    { unimplemented!() }
    /// TRUSTED here, bounded in C13: INodeTrait::text_contents
    #[verifier::external_body]
    fn text_contents(&self, ele: &Ele) -> (r: Vec<char>)
        ensures r@ == text_of(self, id_of(ele)),
    { unimplemented!() }
}
/// TRUSTED: `[Vec<char>]::contains` compares the elements as lists of characters
#[verifier::external_body]
fn vx_contains(v: &[Vec<char>], x: &Vec<char>) -> (r: bool)
    ensures r == chars_of(v@).contains(x@),
{ v.contains(x) }
//@ closure mesdoc/rules/class.rs init one_handle as class_matches
//@ prop C05 C10
//@ sig
fn class_matches(__h: &Heap, ele: &Ele, class_name: Vec<char>) -> (r: bool)
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule method contains => vx_contains
//@ header
    ensures r == (attr(__h, id_of(ele), "class"@) matches Some(AttrV::Value(v)) && words(v).contains(class_name@)),
//@ at start
    proof { lemma_lower_class(); }
//@ closure mesdoc/rules/name.rs init one_handle as name_matches
//@ prop C10
//@ sig
fn name_matches(__h: &Heap, ele: &Ele, name: Vec<char>) -> (r: bool)
//@ rule method tag_names => __h.tag_names(val)
//@ header
    ensures r == same_nocase(tag_of(__h, id_of(ele)), name@),
//@ closure mesdoc/rules/pseudo.rs pseudo_contains one_handle#0 as text_matches
//@ prop C10 C16
//@ sig
fn text_matches(__h: &Heap, ele: &Ele, search: Vec<char>) -> (r: bool)
//@ rule method text_contents => __h.text_contents(val)
//@ header
    ensures r == found(text_of(__h, id_of(ele)), search@),
//@ closure mesdoc/rules/attr.rs init one_handle as attr_matches
//@ prop C10
//@ sig
fn attr_matches(__h: &Heap, ele: &Ele, attr_key: String, attr_value: Option<String>, match_mode: &String) -> (r: bool)
//@ rule method get_attribute => __h.get_attribute(val)
//@ rule text handle(&val) => attr_handle(attr_value, match_mode, &val)
//@ header
    requires
        match_mode@ == ""@ || match_mode@ == "^"@ || match_mode@ == "$"@ || match_mode@ == "*"@ || match_mode@ == "~"@ || match_mode@ == "|"@ || match_mode@ == "!"@,
    ensures
        attr_value is None ==> r == (attr(__h, id_of(ele), lower(attr_key@)) is Some),
        attr_value is Some ==> r == attr_cond(match_mode@, attr_value->0@, attr(__h, id_of(ele), lower(attr_key@))),
//@ emit
}
fn main() {}
