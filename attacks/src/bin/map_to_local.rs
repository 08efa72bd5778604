//! reject: a mapping closure returns a reference to a local
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let b;
    {
        let local = text(3);
        b = Borrow::map(r.borrow_slice(), |_| &local);
    }
    println!("{}", b.len());
}
