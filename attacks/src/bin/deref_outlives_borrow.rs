//! reject: what a borrow points to is used after the borrow was released and the tree dropped
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let b = r.borrow_slice();
    let s: &Own = &b;
    drop(b);
    drop(t);
    println!("{}", s.read());
}
