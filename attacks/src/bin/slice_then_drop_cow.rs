//! reject: a slice reference taken from an entry outlives the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowCow>(9);
    let s: &Own = t.get(4).slice();
    drop(t);
    println!("{}", s.read());
}
