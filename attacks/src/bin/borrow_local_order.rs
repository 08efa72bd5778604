//! reject: a borrow declared before the reference it came from
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let b;
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    b = r.borrow_slice();
}
