//! reject: an iterator outlives the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let it = t.iter(2..7);
    drop(t);
    for e in it { println!("{}", e.slice().read()); }
}
