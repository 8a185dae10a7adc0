//@ include base.vx
use std::collections::VecDeque;
global size_of usize == 8;
//@ include tree.vx
//@ include elements.vx
//@ include elemfn.vx
//@ emit
}
fn main() {}
