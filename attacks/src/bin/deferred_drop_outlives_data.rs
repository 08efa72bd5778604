//! reject: a borrow that keeps a dropped tree alive outlives what the values borrow
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let b;
    let x = text(1);
    let mut t: RleTree<u32, Loud, AllowSliceRefs, 1> = RleTree::new_empty();
    let r: &'_ mut _ = Box::leak(Box::new(t.insert_ref(0, Loud(&x), 1)));
    b = r.borrow_slice();
    drop(t);
}
