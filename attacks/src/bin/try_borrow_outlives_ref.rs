//! reject: a fallible borrow outlives its reference
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let b = r.try_borrow_slice().unwrap();
    drop(r);
    drop(t);
    println!("{}", b.read());
}
