//! reject: a copy of an entry survives the replacement of the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<NoFeatures>(9);
    let e = t.get(4);
    let f = e.clone();
    let old = std::mem::replace(&mut t, grow::<NoFeatures>(2));
    drop(old);
    println!("{}", f.slice().read());
}
