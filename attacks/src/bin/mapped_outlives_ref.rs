//! reject: a mapped borrow outlives its reference
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let b = Borrow::map(r.borrow_slice(), |s| &s.0);
    drop(t);
    drop(r);
    println!("{}", b.len());
}
