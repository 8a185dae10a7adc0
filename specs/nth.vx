//@ include base.vx
global size_of usize == 8;
//@ item mesdoc/utils.rs RoundType

//@ emit
/// quotient and remainder of a non-negative number, in terms of multiplication
proof fn lemma_div_abs(x: int, b: int)
    requires b != 0, x >= 0,
    ensures
        (x / b) * b + x % b == x,
        0 <= x % b < (if b > 0 { b } else { -b }),
        -x <= x / b <= x,
        b > 0 ==> x / b >= 0,
        b < 0 ==> x / b <= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
    let q = x / b;
    let m = x % b;
    assert(q * b == b * q) by (nonlinear_arith);
    if b > 0 {
        assert(0 <= m < b) by (nonlinear_arith) requires b > 0, m == x % b;
        assert(0 <= q) by (nonlinear_arith) requires x >= 0, b > 0, x == b * q + m, m < b;
        assert(q <= x) by (nonlinear_arith) requires x >= 0, b > 0, x == b * q + m, m >= 0, q >= 0;
    } else {
        assert(0 <= m < -b) by (nonlinear_arith) requires b < 0, m == x % b;
        assert(q <= 0) by (nonlinear_arith) requires x >= 0, b < 0, x == b * q + m, m < -b;
        assert(-x <= q) by (nonlinear_arith) requires x >= 0, b < 0, x == b * q + m, m >= 0, q <= 0;
    }
}
/// lo is the least / hi the greatest integer m with the value n*m + c on the wanted side: used to leave multiplication behind
proof fn lemma_mul_mono(m: int, k: int, n: int)
    requires n > 0,
    ensures m <= k <==> m * n <= k * n, m < k <==> m * n < k * n,
{
    assert(m <= k ==> m * n <= k * n) by (nonlinear_arith) requires n > 0;
    assert(m > k ==> m * n > k * n) by (nonlinear_arith) requires n > 0;
    assert(m < k ==> m * n < k * n) by (nonlinear_arith) requires n > 0;
    assert(m >= k ==> m * n >= k * n) by (nonlinear_arith) requires n > 0;
}

//@ fn mesdoc/utils.rs divide_isize
//@ prop C01
//@ ret r
//@ header
    requires
        b != 0,
        -0x2fff_ffff_ffff_ffff <= a <= 0x2fff_ffff_ffff_ffff,
        -0x2fff_ffff_ffff_ffff <= b <= 0x2fff_ffff_ffff_ffff,
    ensures
        // the exact quotient rounded down / up
        round is Floor ==> (if b > 0 { r * b <= a < r * b + b } else { r * b >= a > r * b + b }),
        round is Ceil ==> (if b > 0 { r * b - b < a <= r * b } else { r * b - b > a >= r * b }),
        -0x3000_0000_0000_0000 <= r <= 0x3000_0000_0000_0000,
//@ at start
    proof {
        lemma_div_abs(if a >= 0 { a as int } else { -(a as int) }, b as int);
        assert(forall|q: int| #[trigger] ((-q) * (b as int)) == -(q * (b as int))) by (nonlinear_arith);
        assert(forall|q: int| #[trigger] ((q - 1) * (b as int)) == q * (b as int) - b) by (nonlinear_arith);
        assert(forall|q: int| #[trigger] ((q + 1) * (b as int)) == q * (b as int) + b) by (nonlinear_arith);
    }

//@ include nthdef.vx
//@ emit
/// TRUSTED: parsing of a decimal integer
#[verifier::external_body]
fn vx_parse(num: &str) -> (r: Result<isize, ()>)
    ensures
        r is Ok ==> r->Ok_0 == written(num@),
        r is Err && num@.len() > 0 && num@[0] == '-' ==> written(num@) < isize::MIN,
        r is Err && !(num@.len() > 0 && num@[0] == '-') ==> written(num@) > isize::MAX,
{ num.parse::<isize>().map_err(|_| ()) }
/// TRUSTED: `str::starts_with` of one character
#[verifier::external_body]
fn vx_starts_with_char(num: &str, c: char) -> (r: bool)
    ensures r == (num@.len() > 0 && num@[0] == c),
{ num.starts_with(c) }
fn vx_clamp(x: isize, lo: isize, hi: isize) -> (r: isize)
    requires lo <= hi,
    ensures r == (if x < lo { lo } else if x > hi { hi } else { x }),
{ if x < lo { lo } else if x > hi { hi } else { x } }
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
/// lo..=hi are exactly the m >= 0 with 1 <= m*n + b <= total
spec fn window(n: int, b: int, total: int, lo: int, hi: int) -> bool {
    forall|m: int| m >= 0 ==> (lo <= m <= hi <==> 1 <= #[trigger] (m * n) + b <= total)
}
/// from the rounded quotients to the window
proof fn lemma_nth_window(n: int, b: int, total: int, lo: int, hi: int)
    requires
        n != 0,
        lo >= 0,
        n > 0 ==> (lo * n >= 1 - b) && (lo > 0 ==> lo * n - n < 1 - b) && hi * n <= total - b < hi * n + n,
        n < 0 ==> (lo * (-n) >= b - total) && (lo > 0 ==> lo * (-n) + n < b - total) && hi * (-n) <= b - 1 < hi * (-n) - n,
    ensures window(n, b, total, lo, hi),
{
    assert forall|m: int| m >= 0 implies (lo <= m <= hi <==> 1 <= #[trigger] (m * n) + b <= total) by {
        let k = if n > 0 { n } else { -n };
        assert(m * (-n) == -(m * n)) by (nonlinear_arith);
        lemma_mul_mono(lo, m, k);
        lemma_mul_mono(m, hi, k);
        lemma_mul_mono(m, lo - 1, k);
        lemma_mul_mono(hi + 1, m, k);
        assert((lo - 1) * k == lo * k - k) by (nonlinear_arith);
        assert((hi + 1) * k == hi * k + k) by (nonlinear_arith);
    }
}
proof fn lemma_nth_list(s: Seq<usize>, n: int, b: int, total: int, lo: int, hi: int, pn: Option<String>, pi: Option<String>)
    requires
        n != 0, lo >= 0, lo <= hi,
        window(n, b, total, lo, hi),
        s.len() == hi - lo + 1,
        forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == (lo + j) * n + b - 1,
        pn is Some, n == clamp_lim(written(pn->0@)), b == (if pi is Some { clamp_lim(written(pi->0@)) } else { 0 }),
    ensures
        n > 0 ==> exact_indexs(s, pn, pi, total),
        n < 0 ==> exact_indexs(s.reverse(), pn, pi, total),
{
    let r = if n > 0 { s } else { s.reverse() };
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by {
        if n > 0 {
            lemma_mul_mono(lo + i, lo + j, n);
        } else {
            let i2 = lo + s.len() - 1 - i;
            let j2 = lo + s.len() - 1 - j;
            assert(i2 * (-n) == -(i2 * n)) by (nonlinear_arith);
            assert(j2 * (-n) == -(j2 * n)) by (nonlinear_arith);
            lemma_mul_mono(j2, i2, -n);
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < total && nth_wants(pn, pi, r[i] + 1) by {
        let m = if n > 0 { lo + i } else { lo + s.len() - 1 - i };
        assert(1 <= m * n + b <= total);
        assert(r[i] == m * n + b - 1);
    }
    assert forall|p: int| 1 <= p <= total && nth_wants(pn, pi, p) implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == p - 1 by {
        let m = choose|m: int| m >= 0 && #[trigger] (m * n) + b == p;
        assert(lo <= m <= hi);
        let i = if n > 0 { m - lo } else { hi - m };
        assert(r[i] == p - 1);
    }
}
struct Nth;
impl Nth {
//@ fn mesdoc/selector/pattern.rs Nth::to_number
//@ prop C01
//@ ret r
//@ rule method parse => vx_parse
//@ rule method starts_with => vx_starts_with_char
//@ rule method clamp => vx_clamp(val)
//@ header
    ensures r == clamp_lim(written(num@)),

//@ fn mesdoc/selector/pattern.rs Nth::get_allowed_indexs
//@ prop C01
//@ ret r
//@ rule optmap
//@ header
    requires
        n is None ==> index is Some,
        total <= 0x0fff_ffff_ffff_ffff,   // a Vec of nodes cannot be longer
    ensures
        exact_indexs(r@, *n, *index, total as int),
//@ at start
    let ghost pn = *n;
    let ghost pi = *index;
    proof {
        assert forall|x: usize| x < total && (forall|p: int| 1 <= p <= total ==> (#[trigger] nth_wants(pn, pi, p) <==> p == x + 1))
            implies exact_indexs(#[trigger] seq![x], pn, pi, total as int) by { assert(seq![x][0] == x); }
        // n == 0: only b itself; -an+b with b <= a: only m == 0 reaches a positive position
        assert forall|b: int, p: int| nth_sel(0, b, p) <==> p == b by { assert(0 * 0int + b == b); }
        assert forall|a: int, b: int, p: int| a < 0 && b <= -a && p >= 1 implies (#[trigger] nth_sel(a, b, p) <==> p == b) by {
            assert(0 * a + b == b);
            if nth_sel(a, b, p) {
                let m = choose|m: int| m >= 0 && #[trigger] (m * a) + b == p;
                assert(m >= 1 ==> m * a <= a) by (nonlinear_arith) requires a < 0;
                assert(m == 0 ==> m * a == 0) by (nonlinear_arith);
            }
        }
        assert forall|a: int, b: int, p: int| a < 0 && b <= 0 && p >= 1 implies !(#[trigger] nth_sel(a, b, p)) by {
            if nth_sel(a, b, p) {
                let m = choose|m: int| m >= 0 && #[trigger] (m * a) + b == p;
                assert(m * a <= 0) by (nonlinear_arith) requires a < 0, m >= 0;
            }
        }
    }
//@ at before if start_loop < 0 {
    proof {
        let k = if n > 0 { n as int } else { -(n as int) };
        let s0 = start_loop as int;
        assert(s0 < 0 ==> s0 * k < 0) by (nonlinear_arith) requires k > 0;
        assert(0 * k == 0);
        assert(0 * (-n) == 0);
        assert(0 * n == 0);
    }
//@ at before if start_loop > end_loop {
    proof { lemma_nth_window(n as int, index as int, total as int, start_loop as int, end_loop as int); }
//@ loop 0
    invariant
        start <= end,
        __a0 == start, __e0 == end,
        start <= __i0 <= end,
        !__more0 ==> __i0 == end,
        allow_indexs@.len() == __i0 - start + (if __more0 { 0int } else { 1int }),
        forall|j: int| 0 <= j < allow_indexs@.len() ==> #[trigger] allow_indexs@[j] == (start + j) * n + index - 1,
        forall|m: int| start <= m <= end ==> 1 <= #[trigger] (m * n) + index <= total,
        total <= 0x0fff_ffff_ffff_ffff,
        -LIM() <= index <= LIM(),
        end <= 0x3000_0000_0000_0000,
//@ at loop-start 0
    proof { assert(1 <= (i as int) * n + index <= total); }
//@ at loop-exit 0
    proof { lemma_nth_list(allow_indexs@, n as int, index as int, total as int, start as int, end as int, pn, pi); }
//@ emit
}
}
fn main() {}
