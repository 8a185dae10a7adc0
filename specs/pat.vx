//@ emit
// ---------------------------------------------------------------- pieces of a selector
spec fn is_alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
/// what matched: the characters that count, how many more were used up, and the named parts
struct MV { chars: Seq<char>, ignore: int, data: Map<Seq<char>, Seq<char>> }
spec fn used(m: MV) -> int { m.chars.len() + m.ignore }
spec fn plain(c: Seq<char>) -> MV { MV { chars: c, ignore: 0, data: Map::empty() } }
/// the kinds of pieces
enum PV { One(char), Lit(Seq<char>), Identity, AttrKey, Spaces, Nth, RegExp(Seq<char>), Nested }
/// the longest beginning of s made of characters of which f holds
spec fn run_of(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && f(s[0]) { seq![s[0]] + run_of(s.skip(1), f) } else { Seq::empty() } }
/// letters, digits, '-' and '_', and any character after a '\': the name, and how many '\' it took
spec fn ident(s: Seq<char>) -> (Seq<char>, int)
    decreases s.len(),
{
    if s.len() == 0 { (Seq::empty(), 0) }
    else if is_alpha(s[0]) || is_digit(s[0]) || s[0] == '-' || s[0] == '_' { (seq![s[0]] + ident(s.skip(1)).0, ident(s.skip(1)).1) }
    else if s[0] == '\\' { if s.len() == 1 { (Seq::empty(), 1) } else { (seq![s[1]] + ident(s.skip(2)).0, ident(s.skip(2)).1 + 1) } }
    else { (Seq::empty(), 0) }
}
spec fn is_blank() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
spec fn is_key() -> spec_fn(char) -> bool { |c: char| key_char(c) }
spec fn punct(c: char) -> bool { '!' <= c <= '/' || ':' <= c <= '@' || '[' <= c <= '`' || '{' <= c <= '~' }
spec fn non_char(c: char) -> bool { ('\u{FDD0}' <= c <= '\u{FDEF}') || (c as u32) % 0x10000 >= 0xfffe }
spec fn key_char(c: char) -> bool {
    is_alpha(c) || is_digit(c) || c == '_' || c == '-' || c == '.' || c == ':'
        || !(is_ws(c) || c < ' ' || c == '\x7f' || non_char(c) || punct(c))
}
/// what the regular expression (anchored at the start) matches; its groups by number
uninterp spec fn re_match(context: Seq<char>, s: Seq<char>) -> Option<MV>;
/// TRUSTED: a match is a beginning of the text
axiom fn axiom_re(context: Seq<char>, s: Seq<char>)
    ensures re_match(context, s) matches Some(m) ==> m.ignore == 0 && m.chars.len() <= s.len() && m.chars == s.take(m.chars.len() as int);
/// what a piece matches at the start of s
spec fn pm(p: PV, s: Seq<char>) -> Option<MV> {
    match p {
        PV::One(c) => if s.len() > 0 && s[0] == c { Some(plain(seq![c])) } else { None },
        PV::Lit(l) => if l.len() <= s.len() && s.take(l.len() as int) == l { Some(plain(l)) } else { None },
        PV::Identity => if s.len() > 0 && (is_alpha(s[0]) || s[0] == '_') { Some(MV { chars: ident(s).0, ignore: ident(s).1, data: Map::empty() }) } else { None },
        PV::AttrKey => if run_of(s, is_key()).len() > 0 { Some(plain(run_of(s, is_key()))) } else { None },
        PV::Spaces => Some(plain(run_of(s, is_blank()))),
        PV::Nth => nth_match(s),
        PV::RegExp(r) => re_match(r, s),
        PV::Nested => None,
    }
}
// ---------------------------------------------------------------- nth formulas
spec fn is_dig() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
spec fn spaces_of(s: Seq<char>) -> Seq<char> { run_of(s, uni_white()) }
/// Unicode White_Space
uninterp spec fn uni_ws(c: char) -> bool;
spec fn uni_white() -> spec_fn(char) -> bool { |c: char| uni_ws(c) }
/// a sign, or nothing
spec fn sign_of(s: Seq<char>) -> Seq<char> { if s.len() > 0 && (s[0] == '-' || s[0] == '+') { s.take(1) } else { Seq::empty() } }
/// a number without leading zeros, or nothing
spec fn num_of(s: Seq<char>) -> Seq<char> {
    if s.len() == 0 || !is_digit(s[0]) { Seq::empty() } else if s[0] == '0' { s.take(1) } else { run_of(s, is_dig()) }
}
/// blanks, a sign, blanks, a number; or nothing
spec fn tail_of(s: Seq<char>) -> (Seq<char>, Seq<char>, int) {
    let a = spaces_of(s).len() as int;
    let g = sign_of(s.skip(a));
    let b = spaces_of(s.skip(a + g.len())).len() as int;
    let n = num_of(s.skip(a + g.len() + b));
    if g.len() == 1 && n.len() > 0 { (g, n, a + 1 + b + n.len()) } else { (Seq::empty(), Seq::empty(), 0) }
}
spec fn signed(sign: Seq<char>, num: Seq<char>) -> Seq<char> { if sign == seq!['-'] { sign + num } else { num } }
spec fn put(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<char>) -> Map<Seq<char>, Seq<char>> { if v.len() > 0 { m.insert(k, v) } else { m } }
/// [sign] [number] 'n' [blanks sign blanks number], or [sign] number; the groups in order
spec fn nth_re(s: Seq<char>) -> Option<MV> {
    let g = sign_of(s);
    let n = num_of(s.skip(g.len() as int));
    let k: int = (g.len() + n.len()) as int;
    if k < s.len() && s[k] == 'n' {
        let t = tail_of(s.skip(k + 1));
        let m = put(put(put(put(Map::empty(), "1"@, g), "2"@, n), "3"@, t.0), "4"@, t.1);
        Some(MV { chars: s.take(k + 1 + t.2), ignore: 0, data: m })
    } else if n.len() > 0 {
        Some(MV { chars: s.take(k), ignore: 0, data: put(put(Map::empty(), "5"@, g), "6"@, n) })
    } else { None }
}
/// a formula an+b: `n` is a, `index` is b
spec fn nth_match(s: Seq<char>) -> Option<MV> {
    let g = sign_of(s);
    let n = num_of(s.skip(g.len() as int));
    let k: int = (g.len() + n.len()) as int;
    if k < s.len() && s[k] == 'n' {
        let t = tail_of(s.skip(k + 1));
        let a = signed(g, if n.len() > 0 { n } else { "1"@ });
        Some(MV { chars: s.take(k + 1 + t.2), ignore: 0, data: put(Map::empty(), "index"@, signed(t.0, t.1)).insert("n"@, a) })
    } else if n.len() > 0 {
        Some(MV { chars: s.take(k), ignore: 0, data: Map::empty().insert("index"@, signed(g, n)) })
    } else if s.len() >= 4 && s.take(4) == seq!['e', 'v', 'e', 'n'] {
        Some(MV { chars: s.take(4), ignore: 0, data: Map::empty().insert("n"@, "2"@).insert("index"@, "0"@) })
    } else if s.len() >= 3 && s.take(3) == seq!['o', 'd', 'd'] {
        Some(MV { chars: s.take(3), ignore: 0, data: Map::empty().insert("n"@, "2"@).insert("index"@, "1"@) })
    } else { None }
}
// ---------------------------------------------------------------- several pieces one after the other
/// the pieces that match, in order, up to the first that does not, and how many characters they use
spec fn run(q: Seq<PV>, s: Seq<char>) -> (Seq<MV>, int)
    decreases q.len(),
{
    if q.len() == 0 { (Seq::empty(), 0) } else {
        match pm(q[0], s) {
            None => (Seq::empty(), 0),
            Some(m) => (seq![m] + run(q.skip(1), s.skip(used(m))).0, used(m) + run(q.skip(1), s.skip(used(m))).1),
        }
    }
}
proof fn lemma_run_of(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures run_of(s, f).len() <= s.len(), run_of(s, f) == s.take(run_of(s, f).len() as int),
    decreases s.len(),
{
    if s.len() > 0 && f(s[0]) {
        lemma_run_of(s.skip(1), f);
        let r = run_of(s.skip(1), f);
        assert(run_of(s, f) =~= s.take(run_of(s, f).len() as int)) by { assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s.skip(1).take(r.len() as int)[i]); }
    } else { assert(run_of(s, f) =~= s.take(0)); }
}
proof fn lemma_ident(s: Seq<char>)
    ensures ident(s).0.len() + ident(s).1 <= s.len(), ident(s).1 >= 0, s.len() > 0 && (is_alpha(s[0]) || s[0] == '_') ==> ident(s).0.len() > 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_ident(s.skip(1)); }
    if s.len() > 1 { lemma_ident(s.skip(2)); }
}
proof fn lemma_num(s: Seq<char>)
    ensures num_of(s).len() <= s.len(), sign_of(s).len() <= s.len(),
{ lemma_run_of(s, is_dig()); }
proof fn lemma_tail(s: Seq<char>)
    ensures 0 <= tail_of(s).2 <= s.len(), tail_of(s).1.len() == 0 ==> tail_of(s).0.len() == 0,
{
    lemma_run_of(s, uni_white());
    let a = spaces_of(s).len() as int;
    lemma_num(s.skip(a));
    let g = sign_of(s.skip(a));
    lemma_run_of(s.skip(a + g.len()), uni_white());
    let b = spaces_of(s.skip(a + g.len())).len() as int;
    lemma_num(s.skip(a + g.len() + b));
}
/// a piece never uses more than there is
proof fn lemma_pm(p: PV, s: Seq<char>)
    ensures pm(p, s) matches Some(m) ==> m.ignore >= 0 && used(m) <= s.len(),
{
    lemma_run_of(s, is_key());
    lemma_run_of(s, is_blank());
    lemma_ident(s);
    if let PV::RegExp(r) = p { axiom_re(r, s); }
    lemma_num(s);
    let g = sign_of(s);
    lemma_num(s.skip(g.len() as int));
    let k: int = (g.len() + num_of(s.skip(g.len() as int)).len()) as int;
    if k < s.len() { lemma_tail(s.skip(k + 1)); }
}
proof fn lemma_run(q: Seq<PV>, s: Seq<char>)
    ensures 0 <= run(q, s).1 <= s.len(), run(q, s).0.len() <= q.len(), run(q, s).0.len() == 0 ==> run(q, s).1 == 0,
    decreases q.len(),
{
    if q.len() > 0 {
        lemma_pm(q[0], s);
        if let Some(m) = pm(q[0], s) { lemma_run(q.skip(1), s.skip(used(m))); }
    }
}
// ---------------------------------------------------------------- the code's view of it
//@ item mesdoc/selector/pattern.rs Matched
//@ item mesdoc/selector/pattern.rs MatchedQueue
//@ emit
type MatchedData = DataMap;
/// TRUSTED: std HashMap from texts to texts
#[verifier::external_body]
struct DataMap;
impl DataMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    fn get<'b>(&'b self, k: &str) -> (r: Option<&'b String>)
        ensures r is Some == self.view().contains_key(k@), r matches Some(x) ==> x@ == self.view()[k@],
    { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: DataMap)
        ensures r.view() == Map::<Seq<char>, Seq<char>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: String)
        ensures final(self).view() == old(self).view().insert(k@, v@),
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.view() == Map::<Seq<char>, Seq<char>>::empty()),
    { unimplemented!() }
}
spec fn mv(m: &Matched) -> MV { MV { chars: m.chars@, ignore: match m.ignore_chars { Some(n) => n as int, None => 0 }, data: m.data.view() } }
spec fn mvs(v: Seq<Matched>) -> Seq<MV> { Seq::new(v.len(), |i: int| mv(&v[i])) }
spec fn mvo(m: &Option<Matched>) -> Option<MV> { match m { Some(x) => Some(mv(x)), None => None } }
/// a piece: a `Box<dyn Pattern>`
#[verifier::external_body]
struct BoxDynPattern;
spec fn pvs(v: Seq<BoxDynPattern>) -> Seq<PV> { Seq::new(v.len(), |i: int| v[i].view()) }
impl BoxDynPattern {
    uninterp spec fn view(&self) -> PV;
    /// a call of `Pattern::matched` through the box: proved for every implementation in unit pats
    #[verifier::external_body]
    fn matched(&self, chars: &[char]) -> (r: Option<Matched>)
        ensures mvo(&r) == pm(self.view(), chars@),
    { unimplemented!() }
    /// a call of `Pattern::is_nested` through the box: proved for every implementation in unit pats
    #[verifier::external_body]
    fn is_nested(&self) -> (r: bool)
        ensures r == (self.view() is Nested),
    { unimplemented!() }
}
