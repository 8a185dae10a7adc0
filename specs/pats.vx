//@ include base.vx
//@ rule-all type Box<dyn Pattern> => BoxDynPattern
//@ include vxstr.vx
//@ include ws.vx
//@ include pat.vx
//@ emit
/// TRUSTED: the classes of ASCII characters
#[verifier::external_body]
fn vx_is_ascii_alphabetic(c: char) -> (r: bool)
    ensures r == is_alpha(c),
{ c.is_ascii_alphabetic() }
#[verifier::external_body]
fn vx_is_ascii_alphanumeric(c: &char) -> (r: bool)
    ensures r == (is_alpha(*c) || is_digit(*c)),
{ c.is_ascii_alphanumeric() }
#[verifier::external_body]
fn vx_is_ascii_control(c: &char) -> (r: bool)
    ensures r == (*c < ' ' || *c == '\x7f'),
{ c.is_ascii_control() }
#[verifier::external_body]
fn vx_is_ascii_punctuation(c: &char) -> (r: bool)
    ensures r == punct(*c),
{ c.is_ascii_punctuation() }
/// TRUSTED: what the standard library does with texts and slices
#[verifier::external_body]
fn vx_contains<T>(v: &[T], c: &T) -> (r: bool)
    ensures r == v@.contains(*c),
{ unimplemented!() }
#[verifier::external_body]
fn vx_first(v: &[char]) -> (r: Option<char>)
    ensures r is Some == (v@.len() > 0), r matches Some(x) ==> x == v@[0],
{ v.first().copied() }
#[verifier::external_body]
fn vx_own<T: VxStr + ?Sized>(s: &T) -> (r: String)
    ensures r@ == s.sv(),
{ unimplemented!() }
#[verifier::external_body]
fn vx_prepend(a: String, b: &String) -> (r: String)
    ensures r@ == a@ + b@,
{ a + b }
fn vx_or<'a>(a: Option<&'a String>, b: &'a Option<String>) -> (r: Option<&'a String>)
    ensures
        a is Some ==> r == a,
        a is None ==> (r is Some == b is Some) && (b matches Some(x) ==> *r->0 == x),
{ match a { Some(x) => Some(x), None => match b { Some(x) => Some(x), None => None } } }
#[verifier::external_body]
fn vx_at<T>(v: &[T], i: usize) -> (r: Option<&T>)
    ensures r is Some == (i < v@.len()), r matches Some(x) ==> *x == v@[i as int],
{ v.get(i) }
spec fn opt(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> Option<Seq<char>> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// the longest beginning of which f holds, having seen k characters of it
proof fn lemma_run_step(s: Seq<char>, f: spec_fn(char) -> bool, k: int)
    requires 0 <= k < s.len(), run_of(s, f) == s.take(k) + run_of(s.skip(k), f),
    ensures
        f(s[k]) ==> run_of(s, f) == s.take(k + 1) + run_of(s.skip(k + 1), f),
        !f(s[k]) ==> run_of(s, f) == s.take(k),
{
    assert(s.skip(k)[0] == s[k]);
    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
    if f(s[k]) { assert(s.take(k) + (seq![s[k]] + run_of(s.skip(k + 1), f)) =~= s.take(k + 1) + run_of(s.skip(k + 1), f)); }
    else { assert(s.take(k) + Seq::<char>::empty() =~= s.take(k)); }
}
proof fn lemma_run_ends(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures run_of(s, f) == s.take(0) + run_of(s.skip(0), f), run_of(s.skip(s.len() as int), f) == Seq::<char>::empty(),
        s.take(s.len() as int) + Seq::<char>::empty() == s,
{ assert(s.skip(0) =~= s); assert(s.take(0) + run_of(s, f) =~= run_of(s, f)); assert(s.take(s.len() as int) + Seq::<char>::empty() =~= s); }
proof fn lemma_strs()
    ensures
        "-"@ == seq!['-'], "1"@ == seq!['1'], "2"@ == seq!['2'], "3"@ == seq!['3'], "4"@ == seq!['4'], "5"@ == seq!['5'], "6"@ == seq!['6'],
        "0"@ == seq!['0'], "n"@ == seq!['n'], "index"@ == seq!['i', 'n', 'd', 'e', 'x'],
{
    reveal_strlit("-"); reveal_strlit("0"); reveal_strlit("1"); reveal_strlit("2"); reveal_strlit("3"); reveal_strlit("4"); reveal_strlit("5"); reveal_strlit("6");
    reveal_strlit("n"); reveal_strlit("index");
    assert("-"@ =~= seq!['-']); assert("0"@ =~= seq!['0']); assert("1"@ =~= seq!['1']); assert("2"@ =~= seq!['2']); assert("3"@ =~= seq!['3']);
    assert("4"@ =~= seq!['4']); assert("5"@ =~= seq!['5']); assert("6"@ =~= seq!['6']); assert("n"@ =~= seq!['n']);
    assert("index"@ =~= seq!['i', 'n', 'd', 'e', 'x']);
}
proof fn lemma_keys()
    ensures
        "1"@ != "2"@, "1"@ != "3"@, "1"@ != "4"@, "2"@ != "3"@, "2"@ != "4"@, "3"@ != "4"@, "5"@ != "6"@, "6"@ != "1"@, "6"@ != "2"@, "6"@ != "3"@, "6"@ != "4"@, "n"@ != "index"@,
{
    lemma_strs();
    assert(seq!['1'][0] == '1' && seq!['2'][0] == '2' && seq!['3'][0] == '3' && seq!['4'][0] == '4' && seq!['5'][0] == '5' && seq!['6'][0] == '6');
    assert("n"@.len() == 1 && "index"@.len() == 5);
}
//@ fn mesdoc/utils.rs is_non_character
//@ prop C09
//@ ret r
//@ header
    ensures r == non_char(*ch),
//@ fn mesdoc/utils.rs is_char_available_in_key
//@ prop C09
//@ ret r
//@ rule method is_ascii_alphanumeric => vx_is_ascii_alphanumeric(val)
//@ rule method is_ascii_whitespace => vx_is_ascii_whitespace(val)
//@ rule method is_ascii_control => vx_is_ascii_control(val)
//@ rule method is_ascii_punctuation => vx_is_ascii_punctuation(val)
//@ rule method contains => vx_contains
//@ header
    ensures r == key_char(*ch),
//@ at start
    proof {
        let l = seq!['_', '-', '.', ':'];
        assert(l[0] == '_' && l[1] == '-' && l[2] == '.' && l[3] == ':');
        assert forall|c: char| #[trigger] l.contains(c) <==> (c == '_' || c == '-' || c == '.' || c == ':') by {
            if l.contains(c) { let i = choose|i: int| 0 <= i < 4 && l[i] == c; }
            assert(l.contains(l[0]) && l.contains(l[1]) && l.contains(l[2]) && l.contains(l[3]));
        }
    }
//@ emit
// ---------------------------------------------------------------- every implementation of Pattern::matched
trait Pattern {
    spec fn pv(&self) -> PV;
    fn matched(&self, chars: &[char]) -> (r: Option<Matched>)
        ensures mvo(&r) == pm(self.pv(), chars@);
}
//@ item mesdoc/selector/pattern.rs Identity
//@ item mesdoc/selector/pattern.rs AttrKey
//@ item mesdoc/selector/pattern.rs Spaces
//@ item mesdoc/selector/pattern.rs Nth
//@ item mesdoc/selector/pattern.rs NestedSelector
//@ emit
impl DataMap {
    fn empty() -> (r: DataMap)
        ensures r.view() == Map::<Seq<char>, Seq<char>>::empty(),
    { DataMap::with_capacity(0) }
}
impl Pattern for char {
    spec fn pv(&self) -> PV { PV::One(*self) }
//@ fn mesdoc/selector/pattern.rs Pattern@char::matched
//@ prop C09
//@ ret r
//@ rule method first => vx_first
//@ rule text Some(&ch) => Some(ch)
//@ rule text ..Default::default() => name: "", ignore_chars: None, data: DataMap::empty()
//@ emit
}
struct Lit<'a>(&'a [char]);
impl<'a> Pattern for &'a [char] {
    spec fn pv(&self) -> PV { PV::Lit(self@) }
//@ fn mesdoc/selector/pattern.rs Pattern@[]::matched
//@ prop C09
//@ ret r
//@ rule method get => vx_at
//@ loop 0
    invariant total == self@.len(), total <= chars@.len(), __s0@ == self@, __i0 <= total, result@ == self@.take(__i0 as int), result@ == chars@.take(__i0 as int),
//@ at loop-start 0
    proof {
        assert(self@.take(__i0 as int) =~= self@.take(__i0 - 1).push(self@[__i0 - 1]));
        assert(chars@.take(__i0 as int) =~= chars@.take(__i0 - 1).push(chars@[__i0 - 1]));
        assert(self@[__i0 - 1] == ch);
        if chars@[__i0 - 1] != ch { assert(chars@.take(total as int)[__i0 - 1] != self@[__i0 - 1]); }
    }
//@ at loop-exit 0
    proof { assert(self@.take(total as int) =~= self@); }
//@ rule text ..Default::default() => name: "", ignore_chars: None, data: DataMap::empty()
//@ emit
}
impl Pattern for Vec<char> {
    spec fn pv(&self) -> PV { PV::Lit(self@) }
//@ fn mesdoc/selector/pattern.rs Pattern@Vec::matched
//@ prop C09
//@ ret r
//@ emit
}
impl Pattern for Identity {
    spec fn pv(&self) -> PV { PV::Identity }
//@ fn mesdoc/selector/pattern.rs Pattern@Identity::matched
//@ prop C09 C10
//@ ret r
//@ rule method first => vx_first
//@ rule text Some(&first) => Some(first)
//@ rule method is_ascii_alphabetic => vx_is_ascii_alphabetic(val)
//@ rule method is_ascii_alphanumeric => vx_is_ascii_alphanumeric
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at pre-loop 0
    proof { assert(chars@.skip(0) =~= chars@); assert(Seq::<char>::empty() + ident(chars@).0 =~= ident(chars@).0); }
//@ loop 0
    invariant_except_break
        !is_in_translate ==> ident(chars@) == (result@ + ident(chars@.skip(__i0 as int)).0, ignore_chars + ident(chars@.skip(__i0 as int)).1),
        is_in_translate ==> 0 < __i0 && (__i0 < __s0.len() ==> ident(chars@) == (result@ + (seq![chars@[__i0 as int]] + ident(chars@.skip(__i0 + 1)).0), ignore_chars + ident(chars@.skip(__i0 + 1)).1)),
        is_in_translate ==> (__i0 == __s0.len() ==> ident(chars@) == (result@, ignore_chars as int)),
        ignore_chars <= __i0,
    invariant __s0@ == chars@, __i0 <= __s0.len(),
    ensures ident(chars@) == (result@, ignore_chars as int),
//@ at loop-start 0
    let ghost rest = chars@.skip(__i0 - 1);
    proof {
        assert(rest[0] == c);
        assert(rest.skip(1) =~= chars@.skip(__i0 as int));
        if rest.len() > 1 { assert(rest[1] == chars@[__i0 as int]); assert(rest.skip(2) =~= chars@.skip(__i0 + 1)); }
        assert(result@ + (seq![c] + ident(chars@.skip(__i0 as int)).0) =~= result@.push(c) + ident(chars@.skip(__i0 as int)).0);
        assert(result@ + Seq::<char>::empty() =~= result@);
    }
//@ at loop-exit 0
    proof { if !is_in_translate && __i0 == __s0.len() { assert(chars@.skip(__i0 as int).len() == 0); assert(result@ + Seq::<char>::empty() =~= result@); } }
//@ rule text ..Default::default() => data: DataMap::empty()
//@ emit
}
impl Pattern for AttrKey {
    spec fn pv(&self) -> PV { PV::AttrKey }
//@ fn mesdoc/selector/pattern.rs Pattern@AttrKey::matched
//@ prop C09 C10
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at pre-loop 0
    let ghost f = is_key();
    proof { lemma_run_ends(chars@, f); assert(chars@.take(0) =~= result@); }
//@ loop 0
    invariant_except_break
        run_of(chars@, f) == chars@.take(__i0 as int) + run_of(chars@.skip(__i0 as int), f), result@ == chars@.take(__i0 as int),
    invariant __s0@ == chars@, __i0 <= __s0.len(),
    ensures run_of(chars@, f) == result@,
//@ at loop-start 0
    proof {
        lemma_run_step(chars@, f, __i0 - 1);
        assert(chars@.take(__i0 as int) =~= chars@.take(__i0 - 1).push(*ch));
    }
//@ rule text ..Default::default() => ignore_chars: None, data: DataMap::empty()
//@ emit
}
impl Pattern for Spaces {
    spec fn pv(&self) -> PV { PV::Spaces }
//@ fn mesdoc/selector/pattern.rs Pattern@Spaces::matched
//@ prop C09 C10
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ at pre-loop 0
    let ghost f = is_blank();
    proof { lemma_run_ends(chars@, f); assert(chars@.take(0) =~= result@); }
//@ loop 0
    invariant_except_break
        run_of(chars@, f) == chars@.take(__i0 as int) + run_of(chars@.skip(__i0 as int), f), result@ == chars@.take(__i0 as int),
    invariant __s0@ == chars@, __i0 <= __s0.len(),
    ensures run_of(chars@, f) == result@,
//@ at loop-start 0
    proof {
        lemma_run_step(chars@, f, __i0 - 1);
        assert(chars@.take(__i0 as int) =~= chars@.take(__i0 - 1).push(*ch));
    }
//@ rule method is_ascii_whitespace => vx_is_ascii_whitespace(val)
//@ rule text ..Default::default() => ignore_chars: None, data: DataMap::empty()
//@ emit
}
type Cow<'a, T> = &'a T;
fn vx_cow<'a>(s: &'a str) -> (r: &'a str)
    ensures r == s,
{ s }
//@ item mesdoc/selector/pattern.rs RegExp
//@ emit
impl<'a> Pattern for RegExp<'a> {
    spec fn pv(&self) -> PV { PV::RegExp(self.context@) }
    /// TRUSTED: the regex crate
    #[verifier::external_body]
    fn matched(&self, chars: &[char]) -> (r: Option<Matched>)
    { unimplemented!() }
}
/// TRUSTED: what the regular expression of the nth formulas matches
axiom fn axiom_nth_re(s: Seq<char>)
    ensures re_match("^(?:([-+])?([1-9][0-9]+|[0-9])?n(?:\\s*([+-])\\s*([1-9][0-9]+|[0-9]))?|([-+])?([1-9][0-9]+|[0-9]))"@, s) == nth_re(s);
impl Pattern for Nth {
    spec fn pv(&self) -> PV { PV::Nth }
//@ fn mesdoc/selector/pattern.rs Pattern@Nth::matched
//@ prop C09 C01
//@ ret r
//@ rule text Cow::from => vx_cow
//@ rule text Pattern::matched(&rule, chars) => rule.matched(chars)
//@ rule text Pattern::matched(&even, chars) => even.matched(chars)
//@ rule text Pattern::matched(&odd, chars) => odd.matched(chars)
//@ rule text HashMap::with_capacity => DataMap::with_capacity
//@ rule method to_string => vx_own
//@ at start
    let ghost s = chars@;
    let ghost g = sign_of(s);
    let ghost nn = num_of(s.skip(g.len() as int));
    let ghost k: int = (g.len() + nn.len()) as int;
    let ghost t = tail_of(s.skip(k + 1));
    proof { axiom_nth_re(s); lemma_keys(); lemma_strs(); lemma_tail(s.skip(k + 1)); }
//@ at before if Pattern::matched(&even, chars).is_some()
    proof { assert(even@ =~= seq!['e', 'v', 'e', 'n']); assert(odd@ =~= seq!['o', 'd', 'd']); assert(nth_re(s) is None); }
//@ at before if !data.is_empty()
    proof {
        if nth_match(s) is Some {
            assert(data.view() =~= nth_match(s)->0.data);
            assert(data.view().contains_key("n"@) || data.view().contains_key("index"@));
            assert(matched_chars@ =~= nth_match(s)->0.chars);
        } else { assert(data.view() =~= Map::<Seq<char>, Seq<char>>::empty()); }
    }
//@ emit
}
impl Nth {
//@ fn mesdoc/selector/pattern.rs Nth::get_number
//@ prop C09 C01
//@ ret r
//@ rule text data.get(keys.0).or(def.as_ref()) => vx_or(data.get(keys.0), &def)
//@ rule text String::from(op) + &index => vx_prepend(vx_own(op), &index)
//@ rule method to_owned => vx_own
//@ rule streq
//@ at start
    proof { lemma_strs(); }
//@ header
    ensures
        r is Some == (data.view().contains_key(keys.0@) || def is Some),
        r matches Some(x) ==> x@ == signed(if data.view().contains_key(keys.1@) { data.view()[keys.1@] } else { Seq::empty() }, if data.view().contains_key(keys.0@) { data.view()[keys.0@] } else { def->0@ }),
//@ emit
}
impl Pattern for NestedSelector {
    spec fn pv(&self) -> PV { PV::Nested }
//@ fn mesdoc/selector/pattern.rs Pattern@NestedSelector::matched
//@ prop C09
//@ ret r
//@ emit
}
//@ emit
// ---------------------------------------------------------------- a rule at the start of a text
/// makes a matcher of the pieces that matched
#[verifier::external_body]
struct MatcherFactory;
//@ item mesdoc/selector/rule.rs Rule
//@ emit
proof fn lemma_run_next(q: Seq<PV>, s: Seq<char>, ms: Seq<MV>, i: int, k: int)
    requires 0 <= i < q.len(), 0 <= k <= s.len(), run(q, s) == (ms + run(q.skip(i), s.skip(k)).0, k + run(q.skip(i), s.skip(k)).1),
    ensures
        pm(q[i], s.skip(k)) is None ==> run(q, s) == (ms, k),
        pm(q[i], s.skip(k)) matches Some(m) ==> 0 <= used(m) <= s.len() - k && run(q, s) == (ms.push(m) + run(q.skip(i + 1), s.skip(k + used(m))).0, k + used(m) + run(q.skip(i + 1), s.skip(k + used(m))).1),
{
    lemma_pm(q[i], s.skip(k));
    assert(q.skip(i)[0] == q[i]);
    assert(q.skip(i).skip(1) =~= q.skip(i + 1));
    assert(ms + Seq::<MV>::empty() =~= ms);
    if let Some(m) = pm(q[i], s.skip(k)) {
        assert(s.skip(k).skip(used(m)) =~= s.skip(k + used(m)));
        assert(ms + (seq![m] + run(q.skip(i + 1), s.skip(k + used(m))).0) =~= ms.push(m) + run(q.skip(i + 1), s.skip(k + used(m))).0);
    }
}
//@ fn mesdoc/selector/pattern.rs exec
//@ prop C09
//@ ret r
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ header
    ensures
        mvs(r.0@) == run(pvs(queues@), chars@).0, r.1 == run(pvs(queues@), chars@).1, r.2 == r.0@.len(), r.3 == (r.1 == chars@.len()),
        r.1 <= chars@.len(), r.0@.len() <= queues@.len(), r.0@.len() == 0 ==> r.1 == 0,
//@ at pre-loop 0
    let ghost q = pvs(queues@);
    let ghost s = chars@;
    proof {
        assert(q.skip(0) =~= q); assert(s.skip(0) =~= s); assert(mvs(result@) =~= Seq::<MV>::empty());
        assert(Seq::<MV>::empty() + run(q, s).0 =~= run(q, s).0);
        lemma_run(q, s);
    }
//@ loop 0
    invariant_except_break
        run(q, s) == (mvs(result@) + run(q.skip(__i0 as int), s.skip(start_index as int)).0, start_index + run(q.skip(__i0 as int), s.skip(start_index as int)).1),
    invariant
        __s0@ == queues@, __i0 <= __s0.len(), start_index <= s.len(), matched_num == result@.len(), matched_num <= __i0,
    ensures run(q, s) == (mvs(result@), start_index as int),
//@ at loop-start 0
    let ghost w = result@;
    let ghost k0 = start_index as int;
    proof { lemma_run_next(q, s, mvs(w), __i0 - 1, k0); assert(q[__i0 - 1] == item.view()); assert(chars@.subrange(k0, chars@.len() as int) =~= s.skip(k0)); }
//@ at before start_index += matched.chars.len() + matched.ignore_chars.unwrap_or(0)
    proof {
        assert(pm(q[__i0 - 1], s.skip(k0)) == Some(mv(&matched)));
        assert(0 <= used(mv(&matched)) <= s.len() - k0);
        assert(chars.len() == s.len());
        assert(used(mv(&matched)) == matched.chars@.len() + (match matched.ignore_chars { Some(n) => n as int, None => 0int }));
    }
//@ at before result.push(matched)
    let ghost m0 = matched;
//@ at after result.push(matched)
    proof { assert(mvs(result@) =~= mvs(w).push(mv(&m0))); }
//@ at loop-exit 0
    proof {
        if __i0 == __s0.len() { assert(q.skip(__i0 as int).len() == 0); assert(mvs(result@) + Seq::<MV>::empty() =~= mvs(result@)); }
        assert(mvs(result@).len() == result@.len());
    }
//@ emit
impl Rule {
//@ fn mesdoc/selector/rule.rs Rule::exec
//@ prop C09
//@ ret r
//@ header
    ensures
        r is Some == (run(pvs(self.queues@), chars@).1 > 0),
        r matches Some(x) ==> mvs(x.0@) == run(pvs(self.queues@), chars@).0 && x.1 == run(pvs(self.queues@), chars@).1 && x.2 == x.0@.len(),
        r matches Some(x) ==> 0 < x.1 <= chars@.len() && 0 < x.0@.len() <= self.queues@.len(),
//@ fn mesdoc/selector/rule.rs Rule::exec_queues
//@ prop C09
//@ ret r
//@ header
    ensures
        r is Some == (run(pvs(queues@), chars@).1 > 0),
        r matches Some(x) ==> mvs(x.0@) == run(pvs(queues@), chars@).0 && x.1 == run(pvs(queues@), chars@).1 && x.2 == x.0@.len(),
        r matches Some(x) ==> 0 < x.1 <= chars@.len() && 0 < x.0@.len() <= queues@.len(),
//@ emit
}
}
fn main() {}
