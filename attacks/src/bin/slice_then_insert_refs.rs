//! reject: a slice reference taken from an entry survives an insertion
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let s: &Own = t.get(4).slice();
    for i in 0..40 { t.insert(4, Own::new("new"), 1); }
    println!("{}", s.read());
}
