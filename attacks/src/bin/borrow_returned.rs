//! reject: a borrow through a local reference is returned
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f(t: &RleTree<u32, Own, AllowSliceRefs, 1>) -> Borrow<'_, Own> {
    let r = t.get(4).make_ref();
    let b = r.borrow_slice();
    b
}
fn main() {
    let t = grow::<AllowSliceRefs>(9);
    let b = f(&t);
    drop(t.iter(..));
    println!("{}", b.read());
}
