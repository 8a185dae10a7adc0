//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
/// a callback: what it was asked and what it answered, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Callback<T>(std::marker::PhantomData<T>);
impl<T> View for Callback<T> { type V = Seq<(int, int, T)>; uninterp spec fn view(&self) -> Seq<(int, int, T)>; }
impl<T> Callback<T> {
    /// a call of the handle given by the user; it may answer anything
    #[verifier::external_body]
    fn call(&mut self, i: usize, e: &Ele) -> (r: T)
        ensures final(self)@ == old(self)@.push((i as int, id_of(e), r)),
    { unimplemented!() }
}
/// the first k elements were asked about, each once, in order, with its own position
spec fn asked<T>(old: Seq<(int, int, T)>, new: Seq<(int, int, T)>, s: Seq<int>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& new.len() == old.len() + k
    &&& new.take(old.len() as int) == old
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] new[old.len() + i]).0 == i && new[old.len() + i].1 == s[i]
}
spec fn ans<T>(old: Seq<(int, int, T)>, new: Seq<(int, int, T)>, i: int) -> T { new[old.len() + i].2 }
/// the elements for which the answer was `want`
spec fn chosen(old: Seq<(int, int, bool)>, new: Seq<(int, int, bool)>, s: Seq<int>, k: int, want: bool) -> Seq<int>
    decreases k,
{
    if k <= 0 { Seq::empty() } else if ans(old, new, k - 1) == want { chosen(old, new, s, k - 1, want).push(s[k - 1]) } else { chosen(old, new, s, k - 1, want) }
}
proof fn lemma_chosen(old: Seq<(int, int, bool)>, n1: Seq<(int, int, bool)>, n2: Seq<(int, int, bool)>, s: Seq<int>, k: int, want: bool)
    requires forall|i: int| 0 <= i < k ==> ans(old, n1, i) == ans(old, n2, i),
    ensures chosen(old, n1, s, k, want) == chosen(old, n2, s, k, want),
    decreases k,
{ if k > 0 { lemma_chosen(old, n1, n2, s, k - 1, want); assert(ans(old, n1, k - 1) == ans(old, n2, k - 1)); } }
proof fn lemma_asked<T>(o: Seq<(int, int, T)>, n: Seq<(int, int, T)>, s: Seq<int>, k: int, a: T)
    requires asked(o, n, s, k), k < s.len(),
    ensures asked(o, n.push((k, s[k], a)), s, k + 1), ans(o, n.push((k, s[k], a)), k) == a,
        forall|i: int| 0 <= i < k ==> #[trigger] ans(o, n.push((k, s[k], a)), i) == ans(o, n, i),
{
    let m = n.push((k, s[k], a));
    assert(m.take(o.len() as int) =~= n.take(o.len() as int));
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] m[o.len() + i]).0 == i && m[o.len() + i].1 == s[i] by {
        if i < k { assert(m[o.len() + i] == n[o.len() + i]); }
    }
}
/// std::ops::Bound
enum Bound<T> { Included(T), Excluded(T), Unbounded }
/// a range given by the user (std::ops::RangeBounds<usize>)
#[verifier::external_body]
struct RangeArg(());
uninterp spec fn range_lo(r: &RangeArg) -> Bound<usize>;
uninterp spec fn range_hi(r: &RangeArg) -> Bound<usize>;
impl RangeArg {
    #[verifier::external_body]
    fn start_bound(&self) -> (r: Bound<usize>) ensures r == range_lo(self), { unimplemented!() }
    #[verifier::external_body]
    fn end_bound(&self) -> (r: Bound<usize>) ensures r == range_hi(self), { unimplemented!() }
}
spec fn lo_of(b: Bound<usize>) -> int { match b { Bound::Included(x) => x as int, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 } }
spec fn hi_of(b: Bound<usize>, n: int) -> int { match b { Bound::Included(x) => x + 1, Bound::Excluded(x) => x as int, Bound::Unbounded => n } }
/// the elements at the positions from lo to hi that exist
spec fn cut(s: Seq<int>, lo: int, hi: int) -> Seq<int> {
    let h = if hi < s.len() { hi } else { s.len() as int };
    if lo < h { s.subrange(lo, h) } else { Seq::empty() }
}
//@ item mesdoc/interface/elements.rs FilterType
//@ emit
spec fn inside(b: Seq<int>) -> spec_fn(int) -> bool { |n: int| b.contains(n) }
spec fn outside(b: Seq<int>) -> spec_fn(int) -> bool { |n: int| !b.contains(n) }
/// nothing of b before position k can be an element of a at or after position i
spec fn behind(a: Seq<int>, b: Seq<int>, k: int, i: int) -> bool {
    forall|j: int, m: int| 0 <= j < k && j < b.len() && i <= m < a.len() ==> #[trigger] b[j] != #[trigger] a[m]
}
proof fn lemma_take_filter(a: Seq<int>, k: int, f: spec_fn(int) -> bool)
    requires 0 <= k < a.len(),
    ensures a.take(k + 1).filter(f) == (if f(a[k]) { a.take(k).filter(f).push(a[k]) } else { a.take(k).filter(f) }),
{
    reveal(Seq::filter);
    assert(a.take(k + 1).drop_last() =~= a.take(k));
}
/// the next element is in b exactly when it is there from position k on, and then everything up to its place is behind
proof fn lemma_behind(a: Seq<int>, b: Seq<int>, k: int, i: int)
    requires sorted(a), sorted(b), behind(a, b, k, i), 0 <= i < a.len(), 0 <= k <= b.len(),
    ensures
        b.contains(a[i]) == exists|j: int| k <= j < b.len() && #[trigger] b[j] == a[i],
        behind(a, b, k, i + 1),
        forall|j: int| k <= j < b.len() && #[trigger] b[j] == a[i] ==> behind(a, b, j + 1, i + 1),
{
    if b.contains(a[i]) {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(j >= k);
    }
    assert forall|j: int| k <= j < b.len() && #[trigger] b[j] == a[i] implies behind(a, b, j + 1, i + 1) by {
        assert forall|x: int, m: int| 0 <= x < j + 1 && x < b.len() && i + 1 <= m < a.len() implies #[trigger] b[x] != #[trigger] a[m] by {
            assert(before(a[i], a[m]));
            lemma_lt_asym(path(a[i]), path(a[m]));
            if x < j { assert(before(b[x], b[j])); if b[x] == a[m] { lemma_lt_trans(path(b[x]), path(b[j]), path(a[m])); lemma_lt_irrefl(path(a[m])); } }
        }
    }
}
/// all of b is behind: nothing more to keep
proof fn lemma_exhausted(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k <= a.len(),
    ensures behind(a, b, b.len() as int, k) ==> a.filter(inside(b)) == a.take(k).filter(inside(b)),
    decreases a.len() - k,
{
    if k < a.len() {
        lemma_exhausted(a, b, k + 1);
        lemma_take_filter(a, k, inside(b));
        if behind(a, b, b.len() as int, k) && b.contains(a[k]) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k];
            assert(b[j] != a[k]);
        }
    } else { assert(a.take(k) =~= a); }
}
proof fn lemma_too_many(a: Seq<int>, b: Seq<int>)
    requires sorted(a), a.len() > b.len(),
    ensures exists|i: int| 0 <= i < a.len() && !b.contains(#[trigger] a[i]),
{
    lemma_sorted_distinct(a);
    if forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) {
        a.unique_seq_to_set();
        assert(a.to_set().subset_of(b.to_set()));
        vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
        b.lemma_cardinality_of_set();
    }
}
//@ include elements.vx
//@ emit
impl<'a> Elements<'a> {
//@ rule-all text? handle(index, ele) => handle.call(index, ele)
//@ fn mesdoc/interface/elements.rs Elements::filter_by
//@ prop C04 C12
//@ sig
fn filter_by(&self, handle: &mut Callback<bool>) -> (r: Elements<'a>)
//@ header
    ensures
        asked(old(handle)@, final(handle)@, self.ids(), self.ids().len() as int),
        r.ids() == chosen(old(handle)@, final(handle)@, self.ids(), self.ids().len() as int, true),
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        asked(old(handle)@, handle@, self.ids(), __i0 as int),
        result.ids() == chosen(old(handle)@, handle@, self.ids(), __i0 as int, true),
//@ at loop-start 0
    let ghost before = handle@;
//@ at loop-end 0
    proof {
        let k = __i0 - 1;
        lemma_asked(old(handle)@, before, self.ids(), k, handle@.last().2);
        lemma_chosen(old(handle)@, before, handle@, self.ids(), k, true);
    }
//@ fn mesdoc/interface/elements.rs Elements::not_by
//@ prop C04 C12
//@ sig
fn not_by(&self, handle: &mut Callback<bool>) -> (r: Elements<'a>)
//@ header
    ensures
        asked(old(handle)@, final(handle)@, self.ids(), self.ids().len() as int),
        r.ids() == chosen(old(handle)@, final(handle)@, self.ids(), self.ids().len() as int, false),
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        asked(old(handle)@, handle@, self.ids(), __i0 as int),
        result.ids() == chosen(old(handle)@, handle@, self.ids(), __i0 as int, false),
//@ at loop-start 0
    let ghost before = handle@;
//@ at loop-end 0
    proof {
        let k = __i0 - 1;
        lemma_asked(old(handle)@, before, self.ids(), k, handle@.last().2);
        lemma_chosen(old(handle)@, before, handle@, self.ids(), k, false);
    }
//@ fn mesdoc/interface/elements.rs Elements::is_by
//@ prop C12
//@ sig
fn is_by(&self, handle: &mut Callback<bool>) -> (r: bool)
//@ header
    ensures exists|k: int| {
        &&& #[trigger] asked(old(handle)@, final(handle)@, self.ids(), k)
        &&& (forall|i: int| 0 <= i < k - 1 ==> ans(old(handle)@, final(handle)@, i) != true)
        &&& r == true ==> k > 0 && ans(old(handle)@, final(handle)@, k - 1) == true
        &&& r != true ==> k == self.ids().len() && (forall|i: int| 0 <= i < k ==> ans(old(handle)@, final(handle)@, i) != true)
    },
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant_except_break
        flag != true,
        forall|i: int| 0 <= i < __i0 ==> ans(old(handle)@, handle@, i) != true,
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        asked(old(handle)@, handle@, self.ids(), __i0 as int),
    ensures
        forall|i: int| 0 <= i < __i0 - 1 ==> ans(old(handle)@, handle@, i) != true,
        flag == true ==> __i0 > 0 && ans(old(handle)@, handle@, __i0 - 1) == true,
        flag != true ==> __i0 == __s0.len() && forall|i: int| 0 <= i < __i0 ==> ans(old(handle)@, handle@, i) != true,
//@ at loop-start 0
    let ghost before = handle@;
//@ at before if handle(
    proof { let k = __i0 - 1; let o = old(handle)@; let s = self.ids(); lemma_asked(o, before, s, k, true); lemma_asked(o, before, s, k, false); }
//@ fn mesdoc/interface/elements.rs Elements::is_all_by
//@ prop C12
//@ sig
fn is_all_by(&self, handle: &mut Callback<bool>) -> (r: bool)
//@ header
    ensures exists|k: int| {
        &&& #[trigger] asked(old(handle)@, final(handle)@, self.ids(), k)
        &&& (forall|i: int| 0 <= i < k - 1 ==> ans(old(handle)@, final(handle)@, i) != false)
        &&& r == false ==> k > 0 && ans(old(handle)@, final(handle)@, k - 1) == false
        &&& r != false ==> k == self.ids().len() && (forall|i: int| 0 <= i < k ==> ans(old(handle)@, final(handle)@, i) != false)
    },
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant_except_break
        flag != false,
        forall|i: int| 0 <= i < __i0 ==> ans(old(handle)@, handle@, i) != false,
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        asked(old(handle)@, handle@, self.ids(), __i0 as int),
    ensures
        forall|i: int| 0 <= i < __i0 - 1 ==> ans(old(handle)@, handle@, i) != false,
        flag == false ==> __i0 > 0 && ans(old(handle)@, handle@, __i0 - 1) == false,
        flag != false ==> __i0 == __s0.len() && forall|i: int| 0 <= i < __i0 ==> ans(old(handle)@, handle@, i) != false,
//@ at loop-start 0
    let ghost before = handle@;
//@ at before if !handle(
    proof { let k = __i0 - 1; let o = old(handle)@; let s = self.ids(); lemma_asked(o, before, s, k, true); lemma_asked(o, before, s, k, false); }
//@ fn mesdoc/interface/elements.rs Elements::map
//@ prop C12
//@ sig
fn map<T>(&self, handle: &mut Callback<T>) -> (r: Vec<T>)
//@ header
    ensures
        asked(old(handle)@, final(handle)@, self.ids(), self.ids().len() as int),
        r@.len() == self.ids().len(),
        forall|i: int| 0 <= i < r@.len() ==> r@[i] == ans(old(handle)@, final(handle)@, i),
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(),
        asked(old(handle)@, handle@, self.ids(), __i0 as int),
        result@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> result@[i] == ans(old(handle)@, handle@, i),
//@ at loop-start 0
    let ghost before = handle@;
//@ at loop-end 0
    proof { let k = __i0 - 1; lemma_asked(old(handle)@, before, self.ids(), k, handle@.last().2); }
//@ fn mesdoc/interface/elements.rs Elements::for_each
//@ prop C12
//@ sig
fn for_each(&mut self, handle: &mut Callback<bool>) -> (r: &mut Self)
//@ header
    ensures exists|k: int| {
        &&& #[trigger] asked(old(handle)@, final(handle)@, old(self).ids(), k)
        &&& (forall|i: int| 0 <= i < k - 1 ==> ans(old(handle)@, final(handle)@, i))
        &&& k < old(self).ids().len() ==> k > 0 && !ans(old(handle)@, final(handle)@, k - 1)
    },
//@ at start
    proof { assert(handle@.take(handle@.len() as int) =~= handle@); }
//@ loop 0
    invariant_except_break
        forall|i: int| 0 <= i < __i0 ==> ans(old(handle)@, handle@, i),
    invariant
        __i0 <= __s0.len(), __s0.len() == old(self).ids().len(),
        forall|i: int| __i0 <= i < __s0.len() ==> __s0@[i] == old(self).nodes@[i],
        asked(old(handle)@, handle@, old(self).ids(), __i0 as int),
    ensures
        forall|i: int| 0 <= i < __i0 - 1 ==> ans(old(handle)@, handle@, i),
        __i0 < __s0.len() ==> __i0 > 0 && !ans(old(handle)@, handle@, __i0 - 1),
//@ at loop-start 0
    let ghost before = handle@;
//@ at before if !handle(
    proof { let k = __i0 - 1; let o = old(handle)@; let s = old(self).ids(); lemma_asked(o, before, s, k, true); lemma_asked(o, before, s, k, false); }
//@ fn mesdoc/interface/elements.rs Elements::eq
//@ prop C12
//@ ret r
//@ header
    ensures r.ids() == (if index < self.ids().len() { seq![self.ids()[index as int]] } else { Seq::empty() }),
//@ fn mesdoc/interface/elements.rs Elements::first
//@ prop C12
//@ ret r
//@ header
    ensures r.ids() == (if self.ids().len() > 0 { seq![self.ids()[0]] } else { Seq::empty() }),
//@ fn mesdoc/interface/elements.rs Elements::last
//@ prop C12
//@ ret r
//@ header
    ensures r.ids() == (if self.ids().len() > 0 { seq![self.ids().last()] } else { Seq::empty() }),
//@ fn mesdoc/interface/elements.rs Elements::slice
//@ prop C12
//@ sig
fn slice(&self, range: RangeArg) -> (r: Elements<'a>)
//@ header
    ensures r.ids() == cut(self.ids(), lo_of(range_lo(&range)), hi_of(range_hi(&range), self.ids().len() as int)),
//@ rule text &cur_start => cur_start
//@ rule text &cur_end => cur_end
//@ loop 0
    invariant
        start < end <= self.ids().len(), eles@ == self.nodes@,
        __s0@ == self.nodes@.subrange(start as int, end as int), __i0 <= __s0.len(),
        result.ids() == self.ids().subrange(start as int, start + __i0),
//@ at loop-end 0
    proof { assert(self.ids().subrange(start as int, start + __i0) =~= self.ids().subrange(start as int, start + __i0 - 1).push(self.ids()[start + __i0 - 1])); }
//@ fn mesdoc/interface/elements.rs Elements::index_of
//@ prop C04
//@ ret r
//@ header
    ensures
        r matches Some(i) ==> start_index <= i < self.ids().len() && self.ids()[i as int] == id_of(ele),
        r is None ==> forall|i: int| start_index <= i < self.ids().len() ==> #[trigger] self.ids()[i] != id_of(ele),
//@ loop 0
    invariant
        start_index < total, total == self.nodes@.len(), nodes@ == self.nodes@,
        __s0@ == self.nodes@.subrange(start_index as int, total as int), __i0 <= __s0.len(),
        forall|i: int| start_index <= i < start_index + __i0 ==> #[trigger] self.ids()[i] != id_of(ele),
//@ at loop-start 0
    proof { assert(self.ids()[start_index + __i0 - 1] == id_of(&self.nodes@[start_index + __i0 - 1])); assert(__s0@[__i0 - 1] == self.nodes@[start_index + __i0 - 1]); }
//@ fn mesdoc/interface/elements.rs Elements::filter_in_handle
//@ prop C04 C03
//@ ret r
//@ header
    requires
        !(filter_type is Is) ==> sorted(self.ids()) && sorted(search.ids()),
    ensures
        filter_type is Filter ==> r.0.ids() == self.ids().filter(inside(search.ids())),
        filter_type is Not ==> r.0.ids() == self.ids().filter(outside(search.ids())),
        filter_type is Is ==> r.1 == exists|i: int| 0 <= i < self.ids().len() && search.ids().contains(#[trigger] self.ids()[i]),
        filter_type is IsAll ==> r.1 == forall|i: int| 0 <= i < self.ids().len() ==> search.ids().contains(#[trigger] self.ids()[i]),
//@ attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ at start
    let ghost a = self.ids();
    let ghost b = search.ids();
    proof { assert(search.nodes.len() == search.nodes@.len()); assert(a.take(0).filter(inside(b)) =~= Seq::empty()) by { reveal(Seq::filter); } assert(a.take(0).filter(outside(b)) =~= Seq::empty()) by { reveal(Seq::filter); } assert(a.take(a.len() as int) =~= a); }
//@ loop 0
    invariant_except_break
        start_index < search_total || __i0 == 0 || search_total == 0,
        start_index < search_total || search_total == 0,
    invariant
        __s0@ == self.nodes@, __i0 <= __s0.len(), start_index <= b.len(),
        result.ids() == a.take(__i0 as int).filter(inside(b)),
        behind(a, b, start_index as int, __i0 as int),
    ensures
        result.ids() == a.filter(inside(b)),
//@ at loop-start 0
    let ghost k = __i0 - 1;
    proof {
        lemma_take_filter(a, k, inside(b));
        assert(a[k] == id_of(ele));
        lemma_behind(a, b, start_index as int, k);
    }
//@ at before if start_index >= search_total
    proof { lemma_exhausted(a, b, k + 1); }
//@ at loop-end 0
    proof { assert(__i0 == __s0.len() ==> a.take(__i0 as int) =~= a); }
//@ loop 1
    invariant
        __s1@ == self.nodes@, __i1 <= __s1.len(), start_index <= b.len(),
        result.ids() == a.take(__i1 as int).filter(outside(b)),
        behind(a, b, start_index as int, __i1 as int),
//@ at loop-start 1
    let ghost k = __i1 - 1;
    proof {
        lemma_take_filter(a, k, outside(b));
        assert(a[k] == id_of(ele));
        lemma_behind(a, b, start_index as int, k);
    }
//@ loop 2
    invariant_except_break
        !all_matched,
        forall|i: int| 0 <= i < __i2 ==> !b.contains(#[trigger] a[i]),
    invariant
        __s2@ == self.nodes@, __i2 <= __s2.len(),
    ensures
        all_matched == exists|i: int| 0 <= i < a.len() && b.contains(#[trigger] a[i]),
//@ at loop-start 2
    proof { assert(a[__i2 - 1] == id_of(ele)); }
//@ loop 3
    invariant_except_break
        is_all_matched,
        forall|i: int| 0 <= i < __i3 ==> b.contains(#[trigger] a[i]),
    invariant
        __s3@ == self.nodes@, __i3 <= __s3.len(), start_index <= b.len(),
        behind(a, b, start_index as int, __i3 as int),
    ensures
        is_all_matched == forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
//@ at loop-start 3
    let ghost k = __i3 - 1;
    proof {
        assert(a[k] == id_of(ele));
        lemma_behind(a, b, start_index as int, k);
    }
//@ at before all_matched = is_all_matched
    proof { }
//@ at before if total <= search.length()
    proof { if a.len() > b.len() { lemma_too_many(a, b); } }
//@ fn mesdoc/interface/elements.rs Elements::filter_in
//@ prop C04 C03
//@ ret r
//@ header
    requires sorted(self.ids()), sorted(search.ids()),
    ensures r.ids() == self.ids().filter(inside(search.ids())),
//@ fn mesdoc/interface/elements.rs Elements::not_in
//@ prop C04 C03
//@ ret r
//@ header
    requires sorted(self.ids()), sorted(search.ids()),
    ensures r.ids() == self.ids().filter(outside(search.ids())),
//@ fn mesdoc/interface/elements.rs Elements::is_in
//@ prop C04
//@ ret r
//@ header
    ensures r == exists|i: int| 0 <= i < self.ids().len() && search.ids().contains(#[trigger] self.ids()[i]),
//@ fn mesdoc/interface/elements.rs Elements::is_all_in
//@ prop C04
//@ ret r
//@ header
    requires sorted(self.ids()), sorted(search.ids()),
    ensures r == forall|i: int| 0 <= i < self.ids().len() ==> search.ids().contains(#[trigger] self.ids()[i]),
//@ emit
}
}
fn main() {}
