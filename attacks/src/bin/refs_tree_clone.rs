//! reject: cloning a tree with slice references
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let u = RleTree::clone(&t);
    drop(t);
    println!("{} {}", u.get(4).slice().read(), r.is_valid());
}
