#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_parens, unused_braces, unused_labels, unreachable_code, non_snake_case)]
#![allow(mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
// ---------------------------------------------------------------- support for the mechanical rewrites
/// `for x in v.iter()` / `for x in &v` walk the slice from first to last
fn vx_slice<T>(s: &[T]) -> (r: &[T])
    ensures r@ == s@,
{ s }
/// TRUSTED: `str::chars` yields the characters of the string, in order
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@,
{ s.chars().collect() }
/// TRUSTED: collecting characters into a String keeps them, in order
#[verifier::external_body]
fn vx_string(v: &[char]) -> (r: String)
    ensures r@ == v@,
{ v.iter().collect() }
/// `&mut v[a..]` needs a <= v.len()
fn vx_part(len: usize, a: usize)
    requires a <= len,
{}
fn vx_vec1<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x],
{ let mut v = Vec::new(); v.push(x); v }
#[verifier::external_body]
fn vx_format() -> String { String::new() }
/// `panic!`, `unreachable!`: must not be reached
#[verifier::external_body]
fn vx_panic() -> !
    requires false,
{ panic!() }
