//! reject: an iterator survives an insertion
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let mut it = t.iter(..);
    it.next();
    for i in 0..40 { t.insert(1, Own::new("new"), 1); }
    for e in it { println!("{}", e.slice().read()); }
}
