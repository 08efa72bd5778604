//! reject: an entry yielded by an iterator outlives the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<NoFeatures>(9);
    let e = t.iter(..).next_back().unwrap();
    drop(t);
    println!("{}", e.slice().read());
}
