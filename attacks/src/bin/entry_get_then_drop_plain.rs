//! reject: an entry from get outlives the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<NoFeatures>(9);
    let e = t.get(4);
    drop(t);
    println!("{}", e.slice().read());
}
