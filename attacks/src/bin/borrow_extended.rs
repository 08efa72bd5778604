//! reject: a borrow is given a longer lifetime
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'a>(b: Borrow<'a, Own>) -> Borrow<'static, Own> {
    b
}
fn main() {
    let b;
    {
        let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
        b = f(r.borrow_slice());
    }
    println!("{}", b.read());
}
