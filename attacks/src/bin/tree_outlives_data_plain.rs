//! reject: a tree of values that read a borrow when destroyed outlives what they borrow
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t: RleTree<u32, Loud, NoFeatures, 1> = RleTree::new_empty();
    let x = text(1);
    for i in 0..6 { t.insert(i, Loud(&x), 1); }
}
