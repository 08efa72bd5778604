//! reject: a tree built by new outlives what its value borrows
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let t: RleTree<u32, Loud, AllowSliceRefs, 1>;
    let x = text(1);
    t = RleTree::new(Loud(&x), 3);
}
