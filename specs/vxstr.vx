//@ emit
// ---------------------------------------------------------------- text helpers
trait VxStr {
    spec fn sv(&self) -> Seq<char>;
}
impl VxStr for str { spec fn sv(&self) -> Seq<char> { self@ } }
impl VxStr for String { spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { spec fn sv(&self) -> Seq<char> { (**self).sv() } }
/// TRUSTED: two texts are equal when they have the same characters
#[verifier::external_body]
fn vx_eq<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.sv() == b.sv()),
{ unimplemented!() }
