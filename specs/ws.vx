//@ emit
// ---------------------------------------------------------------- white space
spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
/// TRUSTED: `char::is_ascii_whitespace`
#[verifier::external_body]
fn vx_is_ascii_whitespace(c: &char) -> (r: bool)
    ensures r == is_ws(*c),
{ c.is_ascii_whitespace() }
