//@ include base.vx
//@ rule-all type Box<dyn Pattern> => BoxDynPattern
use std::collections::VecDeque;
use std::sync::Arc;
global size_of usize == 8;
//@ include tree.vx
//@ include ord.vx
//@ include elements.vx
//@ include elemfn.vx
//@ include rel.vx
//@ include matcher.vx
//@ include step.vx
//@ include sel.vx
//@ include vxstr.vx
//@ include ws.vx
//@ include pat.vx
//@ emit
#[verifier::external_body]
struct MatcherFactory;
//@ item mesdoc/selector/rule.rs Rule
//@ item mesdoc/selector/mod.rs SelectorGroups
//@ item mesdoc/selector/mod.rs PrevInSelector Clone Copy PartialEq Eq Structural
//@ emit
#[verifier::external_body]
struct Error;
#[verifier::external_body]
fn vx_error() -> Error { unimplemented!() }
// ---------------------------------------------------------------- the rules
/// what the matcher made of these pieces says about a node
uninterp spec fn part_f(f: MatcherFactory, ms: Seq<MV>, n: int) -> bool;
/// the factory makes a matcher for whole sets
uninterp spec fn for_sets(f: MatcherFactory) -> bool;
/// m is a match of p
spec fn fits(p: PV, m: MV) -> bool { p is Nested || exists|s: Seq<char>| #[trigger] pm(p, s) == Some(m) }
spec fn shaped(q: Seq<PV>, ms: Seq<MV>) -> bool { ms.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> fits(q[i], #[trigger] ms[i]) }
impl MatcherFactory {
    /// ASSUMED here: every rule's closure makes a matcher whose forms agree (proved for the pseudo-classes in unit pseudo)
    #[verifier::external_body]
    fn call(&self, data: MatchedQueue) -> (r: Matcher)
        ensures
            wf(&Matcher { in_cache: false, ..r }), for_sets(*self) ==> r.all_handle is Some,
            forall|n: int| #[trigger] mt(&r, n) == part_f(*self, mvs(data@), n),
    { unimplemented!() }
}
/// what `from_str` needs of the registered rules: a nested selector is followed by its end, what is looked up by id is for sets
spec fn rule_ok(r: &Rule) -> bool {
    &&& r.in_cache ==> for_sets(r.handle)
    &&& r.priority <= 10000
    &&& forall|j: int| 0 <= j < r.queues@.len() ==> ((#[trigger] r.queues@[j]).view() is Nested ==> j + 1 < r.queues@.len())
}
spec fn qs(r: &Rule) -> Seq<PV> { pvs(r.queues@) }
type Rules<'a> = Seq<(&'a str, Arc<Rule>)>;
spec fn rvs(rules: Rules) -> Seq<Seq<PV>> { Seq::new(rules.len(), |i: int| qs(&*rules[i].1)) }
spec fn rules_ok(rules: Rules) -> bool { forall|i: int| 0 <= i < rules.len() ==> rule_ok(&*(#[trigger] rules[i]).1) }
//@ contract pats.vx exec
//@ emit
impl Rule {
//@ contract pats.vx Rule::exec
//@ contract pats.vx Rule::exec_queues
//@ fn mesdoc/selector/rule.rs Rule::make
//@ prop C09 C02 C16
//@ ret r
//@ rule call handle
//@ at after let mut matcher = handle(data);
    let ghost m0 = matcher;
//@ at after matcher.in_cache = self.in_cache;
    proof { assert forall|n: int| #[trigger] mt(&matcher, n) == part_f(self.handle, mvs(data@), n) by { assert(mt(&m0, n) == part_f(self.handle, mvs(data@), n)); } }
//@ header
    requires rule_ok(self),
    ensures wf(&r), r.priority == self.priority, r.in_cache == self.in_cache, forall|n: int| #[trigger] mt(&r, n) == part_f(self.handle, mvs(data@), n),
//@ emit
}
// ---------------------------------------------------------------- the tokens of a selector
enum Tok { Comb(Combinator), Comma, Part(int, Seq<MV>) }
/// Unicode white space cut off at both ends
uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_trim(s: &String) -> (r: &str)
    ensures r@ == trim(s@),
{ s.trim() }
#[verifier::external_body]
fn vx_no_chars(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0),
{ s.is_empty() }
spec fn comb_named(op: Seq<char>) -> Combinator { if op == ">"@ { Children } else if op == "~"@ { NextAll } else if op == "+"@ { Next } else { ChildrenAll } }
spec fn op_ok(op: Seq<char>) -> bool { op.len() == 0 || op == ","@ || op == ">"@ || op == "~"@ || op == "+"@ }
spec fn op_at(sp: Seq<PV>, s: Seq<char>) -> Seq<char> { trim(run(sp, s).0[0].chars) }
spec fn split_tok(op: Seq<char>) -> Tok { if op == ","@ { Tok::Comma } else { Tok::Comb(comb_named(op)) } }
/// TRUSTED: the splitter `(\s*[>,~+]\s*|\s+)` matches one of the signs with blanks around it, or blanks
spec fn split_ok(sp: Seq<PV>) -> bool { forall|s: Seq<char>| run(sp, s).1 > 0 ==> op_ok(#[trigger] op_at(sp, s)) }
/// the first rule from k on that matches something
spec fn pick(rs: Seq<Seq<PV>>, s: Seq<char>, k: int) -> int
    decreases rs.len() - k,
{ if k < 0 || k >= rs.len() { rs.len() as int } else if run(rs[k], s).1 > 0 { k } else { pick(rs, s, k + 1) } }
/// how far combinators and simple selectors reach; None: one of them is broken off
spec fn skim(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>) -> Option<int>
    decreases s.len(), 0int,
{
    if s.len() == 0 { Some(0) } else if 0 < run(sp, s).1 <= s.len() { plus(run(sp, s).1, skim(sp, rs, s.skip(run(sp, s).1))) } else {
        let k = pick(rs, s, 0);
        if k >= rs.len() { Some(0) } else {
            let (ms, l) = run(rs[k], s);
            if !(0 < l <= s.len()) { None } else if ms.len() == rs[k].len() { plus(l, skim(sp, rs, s.skip(l))) } else {
                match nest(sp, rs, s.skip(l), rs[k].skip((ms.len() + 1) as int)) {
                    None => None,
                    Some(n) => if 0 <= n <= s.len() - l { plus(l + n, skim(sp, rs, s.skip(l + n))) } else { None },
                }
            }
        }
    }
}
spec fn plus(l: int, o: Option<int>) -> Option<int> { match o { None => None, Some(n) => Some(l + n) } }
/// how far a nested selector reaches with what must follow it
spec fn nest(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, until: Seq<PV>) -> Option<int>
    decreases s.len(), 1int,
{
    match skim(sp, rs, s) {
        None => None,
        Some(i) => if until.len() == 0 { Some(i) } else if i < s.len() && run(until, s.skip(i)).0.len() == until.len() { Some(i + run(until, s.skip(i)).1) } else { None },
    }
}
/// the nested selector and what follows it
spec fn nested(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, until: Seq<PV>) -> Seq<MV> {
    let i = skim(sp, rs, s)->0;
    if i < s.len() { seq![plain(s.take(i))] + run(until, s.skip(i)).0 } else { Seq::empty() }
}
spec fn cons(t: Tok, o: Option<Seq<Tok>>) -> Option<Seq<Tok>> { match o { None => None, Some(l) => Some(seq![t] + l) } }
/// the tokens of s; a nested selector must be one, too
spec fn lex(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>) -> Option<Seq<Tok>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) } else if 0 < run(sp, s).1 <= s.len() { cons(split_tok(op_at(sp, s)), lex(sp, rs, s.skip(run(sp, s).1))) } else {
        let k = pick(rs, s, 0);
        if k >= rs.len() { None } else {
            let (ms, l) = run(rs[k], s);
            if !(0 < l <= s.len()) { None } else if ms.len() == rs[k].len() { cons(Tok::Part(k, ms), lex(sp, rs, s.skip(l))) } else if rs[k][ms.len() as int] is Nested {
                let rest = s.skip(l);
                let until = rs[k].skip((ms.len() + 1) as int);
                match nest(sp, rs, rest, until) {
                    None => None,
                    Some(n) => {
                        let nm = nested(sp, rs, rest, until);
                        let t = if nm.len() > 0 { nm[0].chars } else { Seq::empty() };
                        if !(0 <= n <= rest.len() && t.len() < s.len()) { None } else if t.len() == 0 || (lex(sp, rs, t) matches Some(l2) && ok(l2)) {
                            cons(Tok::Part(k, ms + nm), lex(sp, rs, rest.skip(n)))
                        } else { None }
                    },
                }
            } else { None }
        }
    }
}
spec fn sep(t: Tok) -> bool { !(t is Part) }
/// a list of selectors: no combinator or comma beside another, no comma at the start, nothing but blanks after the last part
spec fn ok(l: Seq<Tok>) -> bool {
    &&& l.len() > 0 && !(l[0] is Comma)
    &&& forall|i: int| 0 < i < l.len() ==> !(sep(#[trigger] l[i]) && sep(l[i - 1]))
    &&& l.last() is Part || (l.last() == Tok::Comb(ChildrenAll) && l.len() > 1)
}
spec fn valid(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>) -> bool { s.len() == 0 || (lex(sp, rs, s) matches Some(l) && ok(l)) }
// ---------------------------------------------------------------- what the tokens describe
struct CV { comb: Combinator, parts: Seq<Tok> }
spec fn comb_before(l: Seq<Tok>) -> Combinator { if l.len() > 0 && l.last() is Comb { l.last()->Comb_0 } else { ChildrenAll } }
/// groups of compounds: a part after a part belongs to the same compound
spec fn gr(l: Seq<Tok>) -> Seq<Seq<CV>>
    decreases l.len(),
{
    if l.len() == 0 { seq![Seq::empty()] } else {
        let g = gr(l.drop_last());
        let p = l.drop_last();
        match l.last() {
            Tok::Comb(_) => g,
            Tok::Comma => g.push(Seq::empty()),
            t => if p.len() > 0 && p.last() is Part {
                let c = g.last().last();
                g.drop_last().push(g.last().drop_last().push(CV { comb: c.comb, parts: c.parts.push(t) }))
            } else { g.drop_last().push(g.last().push(CV { comb: comb_before(p), parts: seq![t] })) },
        }
    }
}
spec fn tok_f(rules: Rules, t: Tok, n: int) -> bool { t matches Tok::Part(k, ms) && part_f((*rules[k].1).handle, ms, n) }
/// m was made of the part t
spec fn made(rules: Rules, m: &Matcher, t: Tok) -> bool {
    &&& t is Part && 0 <= t->Part_0 < rules.len() && shaped(qs(&*rules[t->Part_0].1), t->Part_1)
    &&& wf(m) && m.priority <= 10000 && forall|n: int| #[trigger] mt(m, n) == tok_f(rules, t, n)
}
spec fn seg_ok(rules: Rules, v: Seq<SelectorSegment>, c: CV) -> bool {
    &&& v.len() == c.parts.len() && v.len() > 0 && v[0].1 == c.comb && downward(c.comb)
    &&& forall|i: int| 1 <= i < v.len() ==> (#[trigger] v[i]).1 is Chain
    &&& forall|i: int| 0 <= i < v.len() ==> made(rules, &(#[trigger] v[i]).0, c.parts[i])
}
spec fn group_ok(rules: Rules, v: Seq<Vec<SelectorSegment>>, g: Seq<CV>) -> bool { v.len() == g.len() && forall|i: int| 0 <= i < v.len() ==> seg_ok(rules, (#[trigger] v[i])@, g[i]) }
spec fn groups_ok(rules: Rules, v: Seq<Vec<Vec<SelectorSegment>>>, g: Seq<Seq<CV>>) -> bool { v.len() == g.len() && forall|i: int| 0 <= i < v.len() ==> group_ok(rules, (#[trigger] v[i])@, g[i]) }
// ---------------------------------------------------------------- lemmas
proof fn lemma_skim(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>)
    ensures skim(sp, rs, s) matches Some(i) ==> 0 <= i <= s.len(),
    decreases s.len(), 0int,
{
    if s.len() > 0 {
        lemma_run(sp, s);
        if run(sp, s).1 > 0 { lemma_skim(sp, rs, s.skip(run(sp, s).1)); } else {
            let k = pick(rs, s, 0);
            lemma_pick(rs, s, 0);
            if k < rs.len() {
                let (ms, l) = run(rs[k], s);
                lemma_run(rs[k], s);
                if ms.len() == rs[k].len() { lemma_skim(sp, rs, s.skip(l)); }
                else if let Some(n) = nest(sp, rs, s.skip(l), rs[k].skip((ms.len() + 1) as int)) { if 0 <= n <= s.len() - l { lemma_skim(sp, rs, s.skip(l + n)); } }
            }
        }
    }
}
proof fn lemma_nest(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, until: Seq<PV>)
    ensures
        nest(sp, rs, s, until) matches Some(i) ==> 0 <= i <= s.len(),
        nested(sp, rs, s, until).len() > 0 && nest(sp, rs, s, until) is Some ==> nested(sp, rs, s, until)[0].chars.len() <= s.len(),
{
    lemma_skim(sp, rs, s);
    if let Some(i) = skim(sp, rs, s) { if i < s.len() { lemma_run(until, s.skip(i)); } }
}
proof fn lemma_pick(rs: Seq<Seq<PV>>, s: Seq<char>, k: int)
    requires 0 <= k <= rs.len(),
    ensures k <= pick(rs, s, k) <= rs.len(), pick(rs, s, k) < rs.len() ==> run(rs[pick(rs, s, k)], s).1 > 0,
    decreases rs.len() - k,
{ if k < rs.len() { lemma_pick(rs, s, k + 1); } }
proof fn lemma_fits(q: Seq<PV>, s: Seq<char>, i: int)
    requires 0 <= i < run(q, s).0.len(),
    ensures i < q.len(), fits(q[i], run(q, s).0[i]),
    decreases q.len(),
{
    let m = pm(q[0], s)->0;
    if i > 0 {
        lemma_fits(q.skip(1), s.skip(used(m)), i - 1);
        assert(run(q, s).0[i] == run(q.skip(1), s.skip(used(m))).0[i - 1]);
        assert(q.skip(1)[i - 1] == q[i]);
    } else { assert(run(q, s).0[0] == m); assert(pm(q[0], s) == Some(m)); }
}
/// a rule's pieces up to the nested selector, the selector, and the pieces after it
proof fn lemma_shaped(q: Seq<PV>, s: Seq<char>, sp: Seq<PV>, rs: Seq<Seq<PV>>, rest: Seq<char>)
    requires
        ({ let ms = run(q, s).0; ms.len() + 1 < q.len() && q[ms.len() as int] is Nested && nest(sp, rs, rest, q.skip((ms.len() + 1) as int)) is Some }),
    ensures ({ let ms = run(q, s).0; shaped(q, ms + nested(sp, rs, rest, q.skip((ms.len() + 1) as int))) }),
{
    let ms = run(q, s).0;
    let u = q.skip((ms.len() + 1) as int);
    let nm = nested(sp, rs, rest, u);
    lemma_skim(sp, rs, rest);
    let i = skim(sp, rs, rest)->0;
    let a = ms + nm;
    assert forall|j: int| 0 <= j < q.len() implies fits(q[j], #[trigger] a[j]) by {
        if j > ms.len() { lemma_fits(u, rest.skip(i), j - ms.len() - 1); assert(a[j] == run(u, rest.skip(i)).0[j - ms.len() - 1]); assert(u[j - ms.len() - 1] == q[j]); }
        if j < ms.len() { lemma_fits(q, s, j); assert(a[j] == ms[j]); }
    }
}
spec fn cat(l: Seq<Tok>, o: Option<Seq<Tok>>) -> Option<Seq<Tok>> { match o { None => None, Some(m) => Some(l + m) } }
proof fn lemma_cat(l: Seq<Tok>, t: Tok, o: Option<Seq<Tok>>)
    ensures cat(l, cons(t, o)) == cat(l.push(t), o),
{ if let Some(m) = o { assert(l + (seq![t] + m) =~= l.push(t) + m); } }
/// what the parser has seen so far is no error yet
spec fn okp(l: Seq<Tok>) -> bool {
    &&& l.len() > 0 ==> !(l[0] is Comma)
    &&& forall|i: int| 0 < i < l.len() ==> !(sep(#[trigger] l[i]) && sep(l[i - 1]))
}
proof fn lemma_okp(l: Seq<Tok>, t: Tok)
    requires okp(l),
    ensures
        okp(l.push(t)) == (if l.len() == 0 { !(t is Comma) } else { !(sep(t) && sep(l.last())) }),
        forall|o: Option<Seq<Tok>>| !okp(l.push(t)) ==> !(#[trigger] cat(l.push(t), o) matches Some(m) && ok(m)),
{
    let q = l.push(t);
    assert(q[l.len() as int] == t);
    assert forall|i: int| 0 < i < l.len() implies !(sep(#[trigger] q[i]) && sep(q[i - 1])) by { assert(q[i] == l[i] && q[i - 1] == l[i - 1]); }
    if okp(q) && l.len() > 0 { assert(!(sep(q[l.len() as int]) && sep(q[l.len() - 1]))); }
    assert forall|o: Option<Seq<Tok>>| !okp(q) implies !(#[trigger] cat(q, o) matches Some(m) && ok(m)) by {
        if let Some(m) = o {
            let a = q + m;
            if ok(a) {
                assert(a[0] == q[0]);
                assert forall|i: int| 0 < i < q.len() implies !(sep(#[trigger] q[i]) && sep(q[i - 1])) by { assert(a[i] == q[i] && a[i - 1] == q[i - 1]); }
            }
        }
    }
}
/// groups: every one but the last has something in it, and no compound has more parts than there are tokens
proof fn lemma_gr(l: Seq<Tok>)
    requires okp(l),
    ensures
        gr(l).len() > 0,
        forall|i: int| 0 <= i < gr(l).len() - 1 ==> (#[trigger] gr(l)[i]).len() > 0,
        l.len() > 0 && l.last() is Part ==> gr(l).last().len() > 0,
        l.len() > 1 && l.last() is Comb ==> gr(l).last().len() > 0 || l[l.len() - 2] is Comma,
        forall|i: int, j: int| 0 <= i < gr(l).len() && 0 <= j < gr(l)[i].len() ==> (#[trigger] gr(l)[i][j]).parts.len() <= l.len(),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last();
        assert(okp(p)) by { assert forall|i: int| 0 < i < p.len() implies !(sep(#[trigger] p[i]) && sep(p[i - 1])) by { assert(p[i] == l[i] && p[i - 1] == l[i - 1]); } }
        lemma_gr(p);
        let g = gr(p);
        let q = gr(l);
        if l.len() > 1 { assert(p.last() == l[l.len() - 2]); assert(!(sep(l[l.len() - 1]) && sep(l[l.len() - 2]))); }
        assert forall|i: int| 0 <= i < q.len() - 1 implies (#[trigger] q[i]).len() > 0 by { if i < g.len() - 1 { assert(q[i] == g[i]); } else { assert(q[i] == g.last()); } }
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() implies (#[trigger] q[i][j]).parts.len() <= l.len() by {
            if i < g.len() && j < g[i].len() { assert(g[i][j].parts.len() <= p.len()); }
        }
    }
}
proof fn lemma_skim_comb(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, at: int)
    requires 0 <= at < s.len(), skim(sp, rs, s) == plus(at, skim(sp, rs, s.skip(at))),
    ensures ({ let l = run(sp, s.skip(at)).1; l > 0 ==> at + l <= s.len() && skim(sp, rs, s) == plus(at + l, skim(sp, rs, s.skip(at + l))) }),
{
    let s1 = s.skip(at);
    lemma_run(sp, s1);
    let l = run(sp, s1).1;
    assert(s1.skip(l) =~= s.skip(at + l));
}
proof fn lemma_skim_part(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, at: int)
    requires 0 <= at < s.len(), skim(sp, rs, s) == plus(at, skim(sp, rs, s.skip(at))), run(sp, s.skip(at)).1 == 0,
    ensures ({
        let s1 = s.skip(at);
        let k = pick(rs, s1, 0);
        let (ms, l) = run(rs[k], s1);
        let o = nest(sp, rs, s1.skip(l), rs[k].skip((ms.len() + 1) as int));
        &&& k >= rs.len() ==> skim(sp, rs, s) == Some(at)
        &&& k < rs.len() ==> 0 <= k && 0 < l <= s1.len() && ms.len() <= rs[k].len() && s1.skip(l) == s.skip(at + l)
        &&& k < rs.len() && ms.len() == rs[k].len() ==> skim(sp, rs, s) == plus(at + l, skim(sp, rs, s.skip(at + l)))
        &&& k < rs.len() && ms.len() < rs[k].len() && o is None ==> skim(sp, rs, s) is None
        &&& k < rs.len() && ms.len() < rs[k].len() && o is Some ==> 0 <= o->0 <= s1.len() - l && skim(sp, rs, s) == plus(at + l + o->0, skim(sp, rs, s.skip(at + l + o->0)))
    }),
{
    let s1 = s.skip(at);
    let k = pick(rs, s1, 0);
    lemma_pick(rs, s1, 0);
    if k < rs.len() {
        lemma_run(rs[k], s1);
        let (ms, l) = run(rs[k], s1);
        assert(s1.skip(l) =~= s.skip(at + l));
        if ms.len() < rs[k].len() {
            lemma_nest(sp, rs, s1.skip(l), rs[k].skip((ms.len() + 1) as int));
            if let Some(n) = nest(sp, rs, s1.skip(l), rs[k].skip((ms.len() + 1) as int)) { assert(s1.skip(l + n) =~= s.skip(at + l + n)); }
        }
    }
}
proof fn lemma_pick_step(rs: Seq<Seq<PV>>, s: Seq<char>, k: int)
    requires 0 <= k <= rs.len(),
    ensures
        k == rs.len() ==> pick(rs, s, k) == rs.len(),
        k < rs.len() ==> pick(rs, s, k) == (if run(rs[k], s).1 > 0 { k } else { pick(rs, s, k + 1) }),
{}
proof fn lemma_nest_end(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, u: Seq<PV>)
    ensures
        skim(sp, rs, s) is None ==> nest(sp, rs, s, u) is None,
        skim(sp, rs, s) matches Some(i) ==> 0 <= i <= s.len(),
        skim(sp, rs, s) == Some(s.len() as int) ==> nest(sp, rs, s, u) == (if u.len() == 0 { Some(s.len() as int) } else { None }) && nested(sp, rs, s, u) == Seq::<MV>::empty(),
        skim(sp, rs, s) matches Some(i) ==> (i < s.len() ==> nested(sp, rs, s, u) == seq![plain(s.take(i))] + run(u, s.skip(i)).0),
        skim(sp, rs, s) matches Some(i) ==> (i < s.len() ==> nest(sp, rs, s, u) == (if u.len() == 0 { Some(i) } else if run(u, s.skip(i)).0.len() == u.len() { Some(i + run(u, s.skip(i)).1) } else { None })),
        u.len() == 0 ==> (forall|t: Seq<char>| #[trigger] run(u, t).0.len() == 0),
{ lemma_skim(sp, rs, s); }
proof fn lemma_pvs_skip(v: Seq<BoxDynPattern>, k: int)
    requires 0 <= k <= v.len(),
    ensures pvs(v.subrange(k, v.len() as int)) == pvs(v).skip(k), pvs(v).len() == v.len(),
{ assert(pvs(v.subrange(k, v.len() as int)) =~= pvs(v).skip(k)); }
proof fn lemma_chars_skip(s: Seq<char>, a: int, l: int)
    ensures 0 <= a <= a + l <= s.len() && l >= 0 ==> s.skip(a).skip(l) == s.skip(a + l) && s.subrange(a + l, s.len() as int) == s.skip(a + l),
{ if 0 <= a <= a + l <= s.len() && l >= 0 { assert(s.skip(a).skip(l) =~= s.skip(a + l)); assert(s.subrange(a + l, s.len() as int) =~= s.skip(a + l)); } }
proof fn lemma_lex_comb(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, at: int, l: Seq<Tok>)
    requires 0 <= at < s.len(), lex(sp, rs, s) == cat(l, lex(sp, rs, s.skip(at))),
    ensures ({
        let s1 = s.skip(at);
        let k = run(sp, s1).1;
        k > 0 ==> at + k <= s.len() && run(sp, s1).0.len() > 0 && lex(sp, rs, s) == cat(l.push(split_tok(op_at(sp, s1))), lex(sp, rs, s.skip(at + k)))
    }),
{
    let s1 = s.skip(at);
    lemma_run(sp, s1);
    let k = run(sp, s1).1;
    assert(s1.skip(k) =~= s.skip(at + k));
    lemma_cat(l, split_tok(op_at(sp, s1)), lex(sp, rs, s1.skip(k)));
}
/// the part that begins at s by the rule k
spec fn part_at(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, k: int) -> Tok {
    let (ms, l) = run(rs[k], s);
    if ms.len() == rs[k].len() { Tok::Part(k, ms) } else { Tok::Part(k, ms + nested(sp, rs, s.skip(l), rs[k].skip((ms.len() + 1) as int))) }
}
proof fn lemma_lex_part(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, at: int, l: Seq<Tok>)
    requires 0 <= at < s.len(), lex(sp, rs, s) == cat(l, lex(sp, rs, s.skip(at))), run(sp, s.skip(at)).1 <= 0,
    ensures ({
        let s1 = s.skip(at);
        let k = pick(rs, s1, 0);
        let (ms, m) = run(rs[k], s1);
        let u = rs[k].skip((ms.len() + 1) as int);
        let o = nest(sp, rs, s1.skip(m), u);
        let nm = nested(sp, rs, s1.skip(m), u);
        let t = if nm.len() > 0 { nm[0].chars } else { Seq::empty() };
        &&& 0 <= k <= rs.len()
        &&& k >= rs.len() ==> lex(sp, rs, s) is None
        &&& k < rs.len() ==> 0 < m <= s1.len() && ms.len() <= rs[k].len() && s1.skip(m) == s.skip(at + m)
        &&& k < rs.len() && ms.len() == rs[k].len() ==> lex(sp, rs, s) == cat(l.push(part_at(sp, rs, s1, k)), lex(sp, rs, s.skip(at + m)))
        &&& k < rs.len() && ms.len() < rs[k].len() && !(rs[k][ms.len() as int] is Nested && o is Some && valid(sp, rs, t)) ==> lex(sp, rs, s) is None
        &&& k < rs.len() && ms.len() < rs[k].len() && o is Some ==> 0 <= o->0 <= s1.len() - m && t.len() < s1.len()
        &&& k < rs.len() && ms.len() < rs[k].len() && rs[k][ms.len() as int] is Nested && o is Some && valid(sp, rs, t)
                ==> lex(sp, rs, s) == cat(l.push(part_at(sp, rs, s1, k)), lex(sp, rs, s.skip(at + m + o->0)))
    }),
{
    hide(skim); hide(nest); hide(nested); hide(run); hide(pick); hide(ok);
    let s1 = s.skip(at);
    let k = pick(rs, s1, 0);
    lemma_pick(rs, s1, 0);
    if k < rs.len() {
        lemma_run(rs[k], s1);
        let (ms, m) = run(rs[k], s1);
        assert(s1.skip(m) =~= s.skip(at + m));
        let u = rs[k].skip((ms.len() + 1) as int);
        lemma_nest(sp, rs, s1.skip(m), u);
        let o = nest(sp, rs, s1.skip(m), u);
        if ms.len() == rs[k].len() { assert(lex(sp, rs, s1) == cons(Tok::Part(k, ms), lex(sp, rs, s1.skip(m)))); lemma_cat(l, part_at(sp, rs, s1, k), lex(sp, rs, s1.skip(m))); }
        else if let Some(n) = o {
            assert(s1.skip(m).skip(n) =~= s.skip(at + m + n));
            lemma_cat(l, part_at(sp, rs, s1, k), lex(sp, rs, s1.skip(m).skip(n)));
        }
    }
}
proof fn lemma_lex_done(sp: Seq<PV>, rs: Seq<Seq<PV>>, s: Seq<char>, l: Seq<Tok>)
    requires lex(sp, rs, s) == cat(l, lex(sp, rs, s.skip(s.len() as int))),
    ensures
        lex(sp, rs, s) == Some(l),
        okp(l) ==> ok(l) == (l.len() > 0 && (l.last() is Part || (l.last() == Tok::Comb(ChildrenAll) && l.len() > 1))),
{ assert(l + Seq::<Tok>::empty() =~= l); }
proof fn lemma_sep_tok(op: Seq<char>)
    requires op_ok(op),
    ensures
        split_tok(op) is Comma <==> op == ","@, op != ","@ ==> split_tok(op) == Tok::Comb(comb_named(op)), sep(split_tok(op)),
        split_tok(op) == Tok::Comb(ChildrenAll) <==> op.len() == 0,
{ lemma_ops(); if op.len() == 0 { assert(op =~= ""@); } }
proof fn lemma_groups_sep(rules: Rules, a: Seq<Vec<Vec<SelectorSegment>>>, b: Seq<Vec<Vec<SelectorSegment>>>, l: Seq<Tok>, t: Tok)
    requires groups_ok(rules, a, gr(l)), sep(t),
    ensures
        t is Comb ==> groups_ok(rules, a, gr(l.push(t))),
        t is Comma && b.len() == a.len() + 1 && b.drop_last() == a && b.last()@.len() == 0 ==> groups_ok(rules, b, gr(l.push(t))),
{
    assert(l.push(t).drop_last() =~= l);
    let g = gr(l.push(t));
    if t is Comma && b.len() == a.len() + 1 && b.drop_last() == a && b.last()@.len() == 0 {
        assert forall|i: int| 0 <= i < b.len() implies group_ok(rules, (#[trigger] b[i])@, g[i]) by { if i < a.len() { assert(b[i] == b.drop_last()[i]); assert(group_ok(rules, a[i]@, gr(l)[i])); } }
    }
}
proof fn lemma_groups_part(rules: Rules, a: Seq<Vec<Vec<SelectorSegment>>>, b: Seq<Vec<Vec<SelectorSegment>>>, l: Seq<Tok>, t: Tok, item: SelectorSegment)
    requires
        groups_ok(rules, a, gr(l)), okp(l), made(rules, &item.0, t), all_but_last(b, a),
        !(l.len() > 0 && l.last() is Part) ==> item.1 == comb_before(l) && downward(item.1) && b.last()@.len() > 0 && b.last()@.drop_last() == a.last()@ && b.last()@.last()@ == seq![item],
        l.len() > 0 && l.last() is Part ==> item.1 is Chain && all_but_last(b.last()@, a.last()@) && b.last()@.last()@ == a.last()@.last()@.push(item),
    ensures groups_ok(rules, b, gr(l.push(t))),
{
    assert(l.push(t).drop_last() =~= l);
    lemma_gr(l);
    let g = gr(l);
    let q = gr(l.push(t));
    let x = a.last()@;
    let y = b.last()@;
    let z = q.last();
    assert(group_ok(rules, x, g.last())) by { assert(group_ok(rules, a[a.len() - 1]@, g[a.len() - 1])); }
    assert(group_ok(rules, y, z)) by {
        assert forall|j: int| 0 <= j < y.len() implies seg_ok(rules, (#[trigger] y[j])@, z[j]) by {
            if l.len() > 0 && l.last() is Part {
                if j < y.len() - 1 { assert(y[j] == x[j]); assert(seg_ok(rules, x[j]@, g.last()[j])); } else {
                    let c = g.last().last();
                    assert(seg_ok(rules, x[x.len() - 1]@, g.last()[x.len() - 1]));
                    let v = x.last()@;
                    let w = y[j]@;
                    assert(w == v.push(item) && z[j] == (CV { comb: c.comb, parts: c.parts.push(t) }));
                    assert forall|i: int| 0 <= i < w.len() implies made(rules, &(#[trigger] w[i]).0, z[j].parts[i]) by { if i < v.len() { assert(w[i] == v[i]); assert(made(rules, &v[i].0, c.parts[i])); } }
                    assert forall|i: int| 1 <= i < w.len() implies (#[trigger] w[i]).1 is Chain by { if i < v.len() { assert(w[i] == v[i]); } }
                    assert(w[0] == v[0]);
                }
            } else if j < y.len() - 1 { assert(y[j] == y.drop_last()[j]); assert(seg_ok(rules, x[j]@, g.last()[j])); }
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies group_ok(rules, (#[trigger] b[i])@, q[i]) by { if i < b.len() - 1 { assert(b[i] == a[i]); assert(group_ok(rules, a[i]@, g[i])); } }
}
// ---------------------------------------------------------------- the parser
proof fn lemma_ops()
    ensures ""@.len() == 0, ">"@ != ""@, "~"@ != ""@, "+"@ != ""@, ","@ != ""@, ">"@ != "~"@, ">"@ != "+"@, "~"@ != "+"@, ","@ != ">"@, ","@ != "~"@, ","@ != "+"@,
{
    reveal_strlit(""); reveal_strlit(">"); reveal_strlit("~"); reveal_strlit("+"); reveal_strlit(",");
    assert(">"@[0] == '>' && "~"@[0] == '~' && "+"@[0] == '+' && ","@[0] == ',');
}
//@ emit
impl Combinator {
//@ fn mesdoc/selector/mod.rs From@Combinator::from
//@ prop C09 C02
//@ ret r
//@ rule strmatch
//@ at start
    proof { lemma_ops(); if comb@.len() == 0 { assert(comb@ =~= ""@); } }
//@ header
    requires op_ok(comb@), comb@ != ","@,
    ensures r == comb_named(comb@), downward(r),
//@ emit
}
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        r is Some == (old(v)@.len() > 0),
        r matches Some(x) ==> *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)),
        r is None ==> final(v)@ == old(v)@,
{ let n = v.len(); if n > 0 { Some(&mut v[n - 1]) } else { None } }
spec fn all_but_last<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && a.len() > 0 && forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] a[i] == b[i] }
#[verifier::external_body]
fn vx_to_vec(s: &[char]) -> (r: Vec<char>)
    ensures r@ == s@,
{ s.to_vec() }
/// TRUSTED: Vec::extend
#[verifier::external_body]
fn vx_extend_matched(v: &mut MatchedQueue, x: MatchedQueue)
    ensures mvs(final(v)@) == mvs(old(v)@) + mvs(x@),
{ unimplemented!() }
fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r is Some == (v@.len() > 0), r matches Some(x) ==> *x == v@[0],
{ if v.len() > 0 { Some(&v[0]) } else { None } }
/// TRUSTED (derived PartialEq): equal when they are the same variant
impl VxStr for PrevInSelector {
    spec fn sv(&self) -> Seq<char> { seq![match self { PrevInSelector::Begin => 'b', PrevInSelector::Splitter => 's', PrevInSelector::Selector => 'p' }] }
}
proof fn lemma_prev(a: PrevInSelector, b: PrevInSelector)
    ensures (a.sv() == b.sv()) == (a == b),
{ assert(a.sv()[0] == b.sv()[0] ==> a == b); }
proof fn lemma_groups_len(rules: Rules, g: Seq<Vec<Vec<SelectorSegment>>>, l: Seq<Tok>)
    requires groups_ok(rules, g, gr(l)), okp(l),
    ensures g.len() > 0, l.len() > 0 && l.last() is Part ==> g.last()@.len() > 0,
{ lemma_gr(l); assert(group_ok(rules, g[g.len() - 1]@, gr(l)[g.len() - 1])); }
proof fn lemma_shaped_full(q: Seq<PV>, s: Seq<char>)
    ensures run(q, s).0.len() == q.len() ==> shaped(q, run(q, s).0),
{
    let r = run(q, s).0;
    if r.len() == q.len() { assert forall|i: int| 0 <= i < q.len() implies fits(q[i], #[trigger] r[i]) by { lemma_fits(q, s, i); } }
}
proof fn lemma_start(rules: Rules, g: Seq<Vec<Vec<SelectorSegment>>>)
    ensures g.len() == 1 && g.last()@.len() == 0 ==> groups_ok(rules, g, gr(Seq::empty())), okp(Seq::empty()),
{}
proof fn lemma_cat_none(o: Option<Seq<Tok>>)
    ensures cat(Seq::empty(), o) == o,
{ if let Some(m) = o { assert(Seq::<Tok>::empty() + m =~= m); } }
impl Selector {
//@ fn mesdoc/selector/mod.rs Selector::add_group
//@ prop C09 C02
//@ header
    ensures final(groups)@.len() == old(groups)@.len() + 1, final(groups)@.drop_last() == old(groups)@, final(groups)@.last()@.len() == 0,
//@ at end
    proof { assert(groups@.drop_last() =~= old(groups)@); }
//@ fn mesdoc/selector/mod.rs Selector::add_group_item
//@ prop C09 C02
//@ rule method last_mut => vx_last_mut(val)
//@ header
    requires old(groups)@.len() > 0, !is_new ==> old(groups)@.last()@.len() > 0,
    ensures
        all_but_last(final(groups)@, old(groups)@),
        is_new ==> final(groups)@.last()@.drop_last() == old(groups)@.last()@ && final(groups)@.last()@.len() > 0 && final(groups)@.last()@.last()@ == seq![item],
        !is_new ==> all_but_last(final(groups)@.last()@, old(groups)@.last()@) && final(groups)@.last()@.last()@ == old(groups)@.last()@.last()@.push(item),
//@ fn mesdoc/selector/mod.rs Selector::parse_until
//@ prop C09
//@ ret r
//@ rule err
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ header
    requires level + chars@.len() <= usize::MAX, until@.len() < usize::MAX,
    ensures
        r is Ok == nest(pvs(splitter@), rvs(rules@), chars@, pvs(until@)) is Some,
        r matches Ok(x) ==> x.0 == nest(pvs(splitter@), rvs(rules@), chars@, pvs(until@))->0 && x.0 <= chars@.len(),
        r matches Ok(x) ==> (level == 0 ==> mvs(x.1@) == nested(pvs(splitter@), rvs(rules@), chars@, pvs(until@))),
    decreases chars@.len(),
//@ rule text ..Default::default() => ignore_chars: None, data: DataMap::with_capacity(0)
//@ rule method to_vec => vx_to_vec
//@ rule method extend => vx_extend_matched(mut)
//@ at start
    hide(skim); hide(nest); hide(nested); hide(run); hide(pick); hide(ok); hide(lex);
    let ghost sp = pvs(splitter@);
    let ghost rs = rvs(rules@);
    let ghost s = chars@;
    let ghost u = pvs(until@);
    proof { lemma_nest_end(sp, rs, s, u); assert(s.skip(0) =~= s); assert(plus(0, skim(sp, rs, s)) == skim(sp, rs, s)); }
//@ loop 0
    invariant_except_break
        skim(sp, rs, s) == plus(index as int, skim(sp, rs, s.skip(index as int))), is_end == (u.len() == 0), matched@.len() == 0,
    invariant
        s == chars@, sp == pvs(splitter@), rs == rvs(rules@), u == pvs(until@), total == s.len(), index <= total,
    ensures
        is_end ==> nest(sp, rs, s, u) == Some(index as int) && (level == 0 ==> mvs(matched@) == nested(sp, rs, s, u)),
        !is_end ==> nest(sp, rs, s, u) is None,
    decreases total - index,
//@ at loop-start 0
    let ghost at = index as int;
    let ghost s1 = s.skip(at);
    proof {
        lemma_skim_comb(sp, rs, s, at);
        if run(sp, s1).1 <= 0 { lemma_run(sp, s1); lemma_skim_part(sp, rs, s, at); }
    }
//@ at loop-exit 0
    proof {
        assert(skim(sp, rs, s.skip(total as int)) == Some(0int)) by { reveal(skim); }
        assert(mvs(Seq::<Matched>::empty()) =~= Seq::<MV>::empty());
        if matched@.len() == 0 { assert(matched@ =~= Seq::<Matched>::empty()); }
    }
//@ loop 1
    invariant_except_break
        pick(rs, s1, 0) == pick(rs, s1, __i1 as int), !finded, index == at,
    invariant
        __s1@ == rules@, __i1 <= __s1.len(), index <= total,
    ensures
        finded ==> at < index <= total && skim(sp, rs, s) == plus(index as int, skim(sp, rs, s.skip(index as int))),
        !finded ==> index == at && skim(sp, rs, s) == Some(index as int),
//@ at loop-start 1
    proof { assert(rs[__i1 - 1] == qs(&**r)); lemma_run(rs[__i1 - 1], s1); lemma_pick_step(rs, s1, __i1 - 1); }
//@ at before let mut finded = false;
    proof { lemma_chars_skip(s, at, 0); lemma_pvs_skip(until@, 0); assert(s.subrange(0, at) =~= s.take(at)); assert(s1.skip(0) =~= s1); }
//@ at before if !until.is_empty() {
    proof { if level == 0 { assert(mvs(matched@) =~= seq![plain(s.take(at))]); assert(mvs(matched@) + Seq::<MV>::empty() =~= mvs(matched@)); } }
//@ at after let queues = &r.queues;
    proof {
        assert(pick(rs, s1, 0) == __i1 - 1);
        assert(queue_num == run(rs[__i1 - 1], s1).0.len());
        if queue_num < queues.len() { lemma_pvs_skip(queues@, queue_num + 1); }
        lemma_chars_skip(s, at, len as int);
    }
//@ at loop-exit 1
    proof { lemma_pick_step(rs, s1, rs.len() as int); }
//@ fn mesdoc/selector/mod.rs Selector::parse_groups
//@ prop C09 C02
//@ ret r
//@ rule err
//@ rule streq
//@ rule method trim => vx_trim
//@ rule method extend => vx_extend_matched(mut)
//@ rule method first => vx_first
//@ rule text op.is_empty() => vx_no_chars(op)
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ header
    requires rules_ok(rules@), split_ok(pvs(splitter@)),
    ensures
        r is Ok == valid(pvs(splitter@), rvs(rules@), context@),
        r matches Ok(g) ==> (context@.len() == 0 ==> g@.len() == 0),
        r matches Ok(g) ==> (context@.len() > 0 ==> {
            let l = lex(pvs(splitter@), rvs(rules@), context@)->0;
            lex(pvs(splitter@), rvs(rules@), context@) is Some && ok(l) && l.len() <= context@.len() && groups_ok(rules@, g@, gr(l))
        }),
    decreases context@.len(),
//@ at start
    hide(skim); hide(nest); hide(nested); hide(run); hide(pick); hide(ok); hide(lex); hide(okp); hide(gr); hide(groups_ok); hide(comb_named); hide(split_tok); hide(op_ok);
    let ghost sp = pvs(splitter@);
    let ghost rs = rvs(rules@);
    let ghost s = context@;
    let ghost mut l: Seq<Tok> = Seq::empty();
//@ at after Selector::add_group(&mut groups);
    proof { lemma_start(rules@, groups@); assert(s.skip(0) =~= s); lemma_cat_none(lex(sp, rs, s)); }
//@ loop 0
    invariant
        s == context@, sp == pvs(splitter@), rs == rvs(rules@), total_len == s.len(), index <= total_len, rules_ok(rules@), split_ok(sp),
        lex(sp, rs, s) == cat(l, lex(sp, rs, s.skip(index as int))), okp(l), l.len() <= index, groups_ok(rules@, groups@, gr(l)),
        prev_in is Begin <==> l.len() == 0, prev_in is Selector <==> l.len() > 0 && l.last() is Part,
        last_in is Selector <==> l.len() > 0 && (l.last() is Part || (l.last() == Tok::Comb(ChildrenAll) && l.len() > 1)),
        !(prev_in is Selector) ==> comb == comb_before(l) && downward(comb),
    decreases total_len - index,
//@ at loop-start 0
    let ghost at = index as int;
    let ghost s1 = s.skip(at);
    let ghost l0 = l;
    proof {
        lemma_lex_comb(sp, rs, s, at, l);
        if run(sp, s1).1 <= 0 { lemma_run(sp, s1); lemma_lex_part(sp, rs, s, at, l); }
    }
//@ at before if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
    let ghost g0 = groups@;
    proof { lemma_chars_skip(s, at, 0); lemma_prev(prev_in, PrevInSelector::Splitter); lemma_prev(prev_in, PrevInSelector::Selector); assert(s1.skip(0) =~= s1); lemma_groups_len(rules@, groups@, l0); }
//@ at after let op = op.trim();
    let ghost tk = split_tok(op_at(sp, s1));
    proof {
        assert(mvs(matched@)[0] == mv(&matched@[0]));
        assert(op@ == op_at(sp, s1));
        lemma_sep_tok(op@);
        lemma_okp(l0, tk);
        l = l0.push(tk);
    }
//@ at before comb = Combinator::ChildrenAll;
    proof { lemma_groups_sep(rules@, g0, groups@, l0, tk); }
//@ at before comb = Combinator::from(op);
    proof { lemma_groups_sep(rules@, g0, groups@, l0, tk); }
//@ loop 1
    invariant_except_break
        pick(rs, s1, 0) == pick(rs, s1, __i1 as int), !finded, index == at, l == l0, groups@ == g0,
    invariant
        __s1@ == rules@, __i1 <= __s1.len(), index <= total_len,
    ensures
        finded ==> at < index <= total_len && lex(sp, rs, s) == cat(l, lex(sp, rs, s.skip(index as int))) && l.len() == l0.len() + 1 && l.last() is Part && okp(l) && groups_ok(rules@, groups@, gr(l)),
        !finded ==> lex(sp, rs, s) is None,
//@ at loop-start 1
    let ghost k = __i1 - 1;
    proof { assert(rs[k] == qs(&**r)); lemma_run(rs[k], s1); lemma_pick_step(rs, s1, k); assert(rule_ok(&*rules@[k].1)); }
//@ at after let queues = &r.queues;
    let ghost tk = part_at(sp, rs, s1, k);
    proof {
        assert(pick(rs, s1, 0) == k);
        assert(queue_num == run(rs[k], s1).0.len());
        lemma_chars_skip(s, at, len as int);
        lemma_okp(l0, tk);
        if queue_num < queues.len() {
            lemma_pvs_skip(queues@, queue_num + 1);
            assert(rs[k][queue_num as int] == queues@[queue_num as int].view());
            if queues@[queue_num as int].view() is Nested && nest(sp, rs, s.skip(at + len), rs[k].skip(queue_num + 1)) is Some { lemma_shaped(rs[k], s1, sp, rs, s.skip(at + len)); }
        } else { lemma_shaped_full(rs[k], s1); }
    }
//@ at after finded = true;
    proof {
        assert(made(rules@, &groups@.last()@.last()@.last().0, tk));
        lemma_groups_part(rules@, g0, groups@, l0, tk, groups@.last()@.last()@.last());
        l = l0.push(tk);
    }
//@ at loop-exit 1
    proof { lemma_pick_step(rs, s1, rs.len() as int); }
//@ at loop-exit 0
    proof { if total_len > 0 { lemma_lex_done(sp, rs, s, l); } lemma_prev(last_in, PrevInSelector::Selector); }
//@ emit
}
// ---------------------------------------------------------------- the order in which the parts are tried
/// q is the inverse of p
spec fn turned(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
/// b has the elements of a in some order
spec fn permuted(a: Seq<SelectorSegment>, b: Seq<SelectorSegment>, p: Seq<int>, q: Seq<int>) -> bool {
    a.len() == b.len() && turned(p, q, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
/// TRUSTED: slice::sort_by keeps all the elements
#[verifier::external_body]
fn vx_sort_by<F: Fn(&SelectorSegment, &SelectorSegment) -> Ordering>(v: &mut Vec<SelectorSegment>, f: F)
    requires forall|a: &SelectorSegment, b: &SelectorSegment| #[trigger] f.requires((a, b)),
    ensures exists|p: Seq<int>, q: Seq<int>| permuted(old(v)@, final(v)@, p, q),
{ v.sort_by(f) }
/// a compound with its numbers small enough to add up in 32 bits
spec fn wfc(v: Seq<SelectorSegment>) -> bool { wfr(v) && downward(v[0].1) && v.len() <= 400_000 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.priority <= 10000 }
/// the same compound, its parts in some order
spec fn like(a: Seq<SelectorSegment>, b: Seq<SelectorSegment>) -> bool { a.len() == b.len() && a[0].1 == b[0].1 && wfc(b) && forall|n: int| cm(a, n) == #[trigger] cm(b, n) }
spec fn likes(a: Seq<Vec<SelectorSegment>>, b: Seq<Vec<SelectorSegment>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> like((#[trigger] a[i])@, b[i]@) }
spec fn wfcs(g: Seq<Vec<SelectorSegment>>) -> bool { g.len() > 0 && forall|i: int| 0 <= i < g.len() ==> wfc((#[trigger] g[i])@) }
spec fn arranged(g: Seq<Vec<SelectorSegment>>, p: QueryProcess, use_lookup: bool) -> bool { likes(g, full(p)) && wfp(p) && (!use_lookup ==> p.should_in is None) }
/// TRUSTED: `.iter().map(..).sum()` adds up
fn vx_sum(v: &Vec<SelectorSegment>) -> (r: u32)
    requires wfc(v@),
{
    let mut t: u32 = 0;
    let mut i: usize = 0;
    while i < v.len()
        invariant wfc(v@), i <= v.len(), t <= i * 10000,
        decreases v.len() - i,
    { assert(v@[i as int].0.priority <= 10000); t = t + v[i].0.priority; i = i + 1; }
    t
}
/// every part as it was, the first with the combinator c, up to k the others with none
spec fn moved(b: Seq<SelectorSegment>, r: Seq<SelectorSegment>, k: int, c: Combinator) -> bool {
    &&& r.len() == b.len() && r[0].1 == c
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == b[i].0
    &&& forall|i: int| 1 <= i < k ==> (#[trigger] r[i]).1 is Chain
}
proof fn lemma_like(a: Seq<SelectorSegment>, b: Seq<SelectorSegment>, r: Seq<SelectorSegment>, p: Seq<int>, q: Seq<int>)
    requires wfc(a), permuted(a, b, p, q), (b[0].1 == a[0].1 && r == b) || moved(b, r, r.len() as int, a[0].1),
    ensures like(a, r),
{
    assert(p[q[0]] == 0);
    if b[0].1 == a[0].1 && r == b {
        assert(b[0] == a[p[0]]);
        assert(p[0] == 0);
        assert forall|i: int| 1 <= i < r.len() implies (#[trigger] r[i]).1 is Chain by { assert(b[i] == a[p[i]]); assert(q[p[i]] == i); assert(q[p[0]] == 0); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 == a[p[i]].0 by { assert(b[i] == a[p[i]]); }
    assert forall|i: int| 0 <= i < r.len() implies wf(&(#[trigger] r[i]).0) && r[i].0.priority <= 10000 by { assert(wf(&a[p[i]].0)); }
    assert forall|n: int| cm(a, n) == #[trigger] cm(r, n) by {
        if cm(a, n) { assert forall|i: int| 0 <= i < r.len() implies mt(&(#[trigger] r[i]).0, n) by { assert(mt(&a[p[i]].0, n)); } }
        if cm(r, n) { assert forall|i: int| 0 <= i < a.len() implies mt(&(#[trigger] a[i]).0, n) by { assert(mt(&r[q[i]].0, n)); assert(p[q[i]] == i); } }
    }
}
proof fn lemma_like_self(a: Seq<SelectorSegment>)
    requires wfc(a),
    ensures like(a, a),
{}
proof fn lemma_perm_small(a: Seq<SelectorSegment>, b: Seq<SelectorSegment>, p: Seq<int>, q: Seq<int>)
    requires wfc(a), permuted(a, b, p, q),
    ensures forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0.priority <= 10000, b.len() == a.len(),
{ assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0.priority <= 10000 by { assert(b[i] == a[p[i]]); } }
proof fn lemma_moved_first(b: Seq<SelectorSegment>, r: Seq<SelectorSegment>, c: Combinator)
    requires r.len() == b.len(), r.len() > 0, r[0].1 == c, r[0].0 == b[0].0, forall|i: int| 1 <= i < r.len() ==> #[trigger] r[i] == b[i],
    ensures moved(b, r, 1, c),
{}
proof fn lemma_moved_at(b: Seq<SelectorSegment>, r: Seq<SelectorSegment>, c: Combinator, k: int)
    requires moved(b, r, k, c), 1 <= k < b.len(),
    ensures r[k].0 == b[k].0,
{}
proof fn lemma_moved_next(b: Seq<SelectorSegment>, r0: Seq<SelectorSegment>, r: Seq<SelectorSegment>, k: int, c: Combinator)
    requires moved(b, r0, k, c), 1 <= k < b.len(), r.len() == r0.len(), r[k].0 == r0[k].0, r[k].1 is Chain, forall|i: int| 0 <= i < r.len() && i != k ==> #[trigger] r[i] == r0[i],
    ensures moved(b, r, k + 1, c),
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 == b[i].0 by { if i != k { assert(r[i] == r0[i]); } assert(r0[i].0 == b[i].0); }
    assert forall|i: int| 1 <= i < k + 1 implies (#[trigger] r[i]).1 is Chain by { if i != k { assert(r[i] == r0[i]); } }
    assert(r[0] == r0[0]);
}
proof fn lemma_like_wfc(a: Seq<SelectorSegment>, r: Seq<SelectorSegment>)
    ensures like(a, r) ==> wfc(r),
{}
proof fn lemma_likes(g: Seq<Vec<SelectorSegment>>, w: Seq<Vec<SelectorSegment>>)
    requires likes(g, w),
    ensures wfq(w), down(w), g.len() == w.len(),
{
    assert forall|i: int| 0 <= i < w.len() implies wfr(#[trigger] w[i]@) && downward(w[i]@[0].1) by { assert(like(g[i]@, w[i]@)); }
}
proof fn lemma_arranged_split(g: Seq<Vec<SelectorSegment>>, w: Seq<Vec<SelectorSegment>>, k: int, p: QueryProcess)
    requires likes(g, w), 0 < k < w.len(), child_type(w[0]@[0].1), p.should_in is Some, p.should_in->0@ == w.subrange(0, k), p.query@ == w.subrange(k, w.len() as int),
    ensures likes(g, full(p)), wfp(p),
{
    lemma_likes(g, w);
    let l = p.should_in->0@;
    let r = p.query@;
    assert(full(p) =~= w);
    assert(wfq(l) && down(l)) by { assert forall|i: int| 0 <= i < l.len() implies wfr(#[trigger] l[i]@) && downward(l[i]@[0].1) by { assert(l[i] == w[i]); assert(wfr(w[i]@)); assert(downward(w[i]@[0].1)); } }
    assert(wfq(r)) by { assert forall|i: int| 0 <= i < r.len() implies wfr(#[trigger] r[i]@) by { assert(r[i] == w[k + i]); assert(wfr(w[k + i]@)); } }
    assert(r[0] == w[k]);
}
// ---------------------------------------------------------------- from text to selector
/// the registered rules, in their order, and the splitter
uninterp spec fn the_rules() -> Seq<(&'static str, Arc<Rule>)>;
uninterp spec fn the_splitter() -> Seq<PV>;
/// ASSUMED here: what `rule_ok` and `split_ok` say holds of the rules that `rules::init` registers (checked by running it, see harness)
#[verifier::external_body]
fn vx_rules() -> (r: Vec<(&'static str, Arc<Rule>)>)
    ensures r@ == the_rules(), rules_ok(r@),
{ unimplemented!() }
#[verifier::external_body]
fn vx_splitter() -> (r: Vec<BoxDynPattern>)
    ensures pvs(r@) == the_splitter(), split_ok(the_splitter()),
{ unimplemented!() }
/// all the parts of the compound hold for n
spec fn holds(rules: Rules, c: CV, n: int) -> bool { forall|i: int| 0 <= i < c.parts.len() ==> tok_f(rules, #[trigger] c.parts[i], n) }
/// compound by compound: the same combinator before it, and it holds for the same nodes
spec fn says(rules: Rules, q: Seq<Vec<SelectorSegment>>, g: Seq<CV>) -> bool {
    q.len() == g.len() && forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j])@[0].1 == g[j].comb && forall|n: int| cm(q[j]@, n) == #[trigger] holds(rules, g[j], n)
}
proof fn lemma_groups_wfcs(rules: Rules, gs: Seq<Vec<Vec<SelectorSegment>>>, l: Seq<Tok>)
    requires groups_ok(rules, gs, gr(l)), ok(l), l.len() <= 400_000,
    ensures forall|i: int| 0 <= i < gs.len() ==> wfcs((#[trigger] gs[i])@),
{
    lemma_gr(l);
    let g = gr(l);
    assert(g.last().len() > 0) by { if l.last() is Comb && l[l.len() - 2] is Comma { assert(sep(l[l.len() - 1]) && sep(l[l.len() - 2])); } }
    assert forall|i: int| 0 <= i < gs.len() implies wfcs((#[trigger] gs[i])@) by {
        assert(group_ok(rules, gs[i]@, g[i]));
        assert(g[i].len() > 0);
        assert forall|j: int| 0 <= j < gs[i]@.len() implies wfc((#[trigger] gs[i]@[j])@) by {
            let v = gs[i]@[j]@;
            assert(seg_ok(rules, v, g[i][j]));
            assert(g[i][j].parts.len() <= l.len());
            assert forall|k: int| 0 <= k < v.len() implies wf(&(#[trigger] v[k]).0) && v[k].0.priority <= 10000 by { assert(made(rules, &v[k].0, g[i][j].parts[k])); }
        }
    }
}
proof fn lemma_says(rules: Rules, gs: Seq<Vec<Vec<SelectorSegment>>>, l: Seq<Tok>, ps: Seq<QueryProcess>, use_lookup: bool)
    requires groups_ok(rules, gs, gr(l)), ps.len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> arranged((#[trigger] gs[i])@, ps[i], use_lookup),
    ensures
        forall|i: int| 0 <= i < ps.len() ==> wfp(#[trigger] ps[i]) && says(rules, full(ps[i]), gr(l)[i]),
        !use_lookup ==> forall|i: int| 0 <= i < ps.len() ==> wfq((#[trigger] ps[i]).query@) && down(ps[i].query@),
{
    let g = gr(l);
    assert forall|i: int| 0 <= i < ps.len() implies wfp(#[trigger] ps[i]) && says(rules, full(ps[i]), g[i]) && (!use_lookup ==> wfq(ps[i].query@) && down(ps[i].query@)) by {
        assert(arranged(gs[i]@, ps[i], use_lookup));
        assert(group_ok(rules, gs[i]@, g[i]));
        let q = full(ps[i]);
        lemma_likes(gs[i]@, q);
        assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j])@[0].1 == g[i][j].comb && forall|n: int| cm(q[j]@, n) == #[trigger] holds(rules, g[i][j], n) by {
            let v = gs[i]@[j]@;
            let c = g[i][j];
            assert(like(v, q[j]@));
            assert(seg_ok(rules, v, c));
            assert forall|n: int| cm(q[j]@, n) == #[trigger] holds(rules, c, n) by {
                assert(cm(v, n) == cm(q[j]@, n));
                if cm(v, n) { assert forall|k: int| 0 <= k < c.parts.len() implies tok_f(rules, #[trigger] c.parts[k], n) by { assert(made(rules, &v[k].0, c.parts[k])); assert(mt(&v[k].0, n)); } }
                if holds(rules, c, n) { assert forall|k: int| 0 <= k < v.len() implies mt(&(#[trigger] v[k]).0, n) by { assert(made(rules, &v[k].0, c.parts[k])); assert(tok_f(rules, c.parts[k], n)); } }
            }
        }
    }
}
impl Selector {
//@ fn mesdoc/selector/mod.rs Selector::optimize
//@ prop C09 C02
//@ rule method sort_by => vx_sort_by(val)
//@ rule text |a, b| b.0.priority.partial_cmp(&a.0.priority).unwrap() => |a: &SelectorSegment, b: &SelectorSegment| -> (r: Ordering) { b.0.priority.partial_cmp(&a.0.priority).unwrap() }
//@ rule text r.iter().map(|p| p.0.priority).sum() => vx_sum(r)
//@ attrs
#[verifier::loop_isolation(false)]
//@ header
    requires forall|i: int| 0 <= i < groups@.len() ==> wfcs((#[trigger] groups@[i])@),
    ensures final(self).process@.len() == groups@.len(), forall|i: int| 0 <= i < groups@.len() ==> arranged((#[trigger] groups@[i])@, final(self).process@[i], use_lookup),
//@ at start
    hide(like); hide(cm); hide(moved); hide(permuted); hide(wf);
    let ghost gs = groups@;
//@ loop 0 val
    invariant
        __s0@ == gs, __i0 <= gs.len(), process@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> arranged((#[trigger] gs[i])@, process@[i], use_lookup),
//@ at loop-start 0
    let ghost g = group@;
    proof { assert(wfcs(gs[__i0 - 1]@)); }
//@ loop 1
    invariant
        group@.len() == g.len(), __i1 <= g.len(), max_index == 0 || max_index < g.len(),
        forall|j: int| 0 <= j < __i1 ==> like((#[trigger] g[j])@, group@[j]@), forall|j: int| __i1 <= j < g.len() ==> (#[trigger] group@[j]) == g[j],
//@ at loop-start 1
    let ghost a = g[__i1 - 1]@;
    let ghost mut b = a;
    proof { assert(r@ == a); assert(wfc(a)); lemma_like_self(a); }
//@ at before let now_first = &mut r[0];
    proof { b = r@; }
    let ghost (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted(a, b, p, q);
    proof { lemma_perm_small(a, b, p, q); if b[0].1 == a[0].1 { lemma_like(a, b, b, p, q); } }
//@ loop 2
    invariant
        moved(b, r@, __i2 as int, a[0].1), r0 == r@, r@.len() == b.len(), 1 <= __i2 <= b.len(), b.len() <= 400_000, total_priority <= __i2 * 10000,
        forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0.priority <= 10000,
//@ at pre-loop 2
    let ghost mut r0 = r@;
    proof { lemma_moved_first(b, r@, a[0].1); }
//@ at loop-start 2
    proof { lemma_moved_at(b, r0, a[0].1, __i2 - 1); }
//@ at loop-end 2
    proof { lemma_moved_next(b, r0, r@, __i2 - 1, a[0].1); r0 = r@; }
//@ at loop-exit 2
    proof { lemma_like(a, b, r@, p, q); }
//@ at before if use_lookup {
    proof { assert(r@ =~= b || like(a, r@)); assert(like(a, r@)); lemma_like_wfc(a, r@); }
//@ at before if use_lookup && max_index > 0 {
    proof { assert(likes(g, group@)); lemma_likes(g, group@); }
    let ghost w = group@;
//@ at before process.push(QueryProcess { should_in, query });
    proof { lemma_arranged_split(g, w, max_index as int, QueryProcess { should_in, query }); }
//@ at before process.push(QueryProcess { should_in: None, query: group, });
    proof { assert(full(QueryProcess { should_in: None, query: group }) == w); }
//@ fn mesdoc/selector/mod.rs Selector::new
//@ prop C09
//@ ret r
//@ header
    ensures r.process@.len() == 0,
//@ fn mesdoc/selector/mod.rs Selector::from_segment
//@ prop C02
//@ ret r
//@ header
    requires wf(&segment.0),
    ensures wfs(&r), r.process@.len() == 1, r.process@[0].should_in is None, r.process@[0].query@.len() == 1, r.process@[0].query@[0]@ == seq![segment],
//@ fn mesdoc/selector/mod.rs Selector::from_str
//@ prop C09 C02
//@ ret r
//@ rule text SPLITTER.lock().unwrap() => vx_splitter()
//@ rule text RULES.lock().unwrap() => vx_rules()
//@ rule text context.is_empty() => vx_no_chars(context)
//@ header
    requires context@.len() <= 400_000,
    ensures
        // reported, or parsed
        r is Ok == valid(the_splitter(), rvs(the_rules()), context@),
        // a list of complex selectors that says what the tokens say
        r matches Ok(s) ==> wfs(&s) && (context@.len() == 0 ==> s.process@.len() == 0),
        r matches Ok(s) ==> (context@.len() > 0 ==> {
            let g = gr(lex(the_splitter(), rvs(the_rules()), context@)->0);
            s.process@.len() == g.len() && forall|i: int| 0 <= i < g.len() ==> says(the_rules(), full(#[trigger] s.process@[i]), g[i])
        }),
        // for the filtering methods
        r matches Ok(s) ==> (!use_lookup ==> wff(&s)),
//@ at before selector.optimize(groups, use_lookup);
    let ghost gs = groups@;
    proof { lemma_groups_wfcs(the_rules(), gs, lex(the_splitter(), rvs(the_rules()), context@)->0); }
//@ at after selector.optimize(groups, use_lookup);
    proof { lemma_says(the_rules(), gs, lex(the_splitter(), rvs(the_rules()), context@)->0, selector.process@, use_lookup); }
//@ fn mesdoc/selector/mod.rs FromStr@Selector::from_str as selector_from
//@ prop C09
//@ ret r
//@ rule sig Self::Err => Error
//@ header
    requires selector@.len() <= 400_000,
    ensures r is Ok == valid(the_splitter(), rvs(the_rules()), selector@), r matches Ok(s) ==> wfs(&s),
//@ emit
}
//@ emit
}
fn main() {}
