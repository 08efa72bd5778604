//! reject: a boxed optional tree outlives what its values borrow
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t: Box<Option<RleTree<u32, Loud, AllowSliceRefs, 2>>> = Box::new(None);
    let x = text(1);
    *t = Some(RleTree::new(Loud(&x), 3));
}
