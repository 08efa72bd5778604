//! reject: the clone of a borrow outlives its reference
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let b = r.borrow_slice();
    let c = b.clone();
    drop(b);
    drop(t);
    drop(r);
    println!("{}", c.read());
}
