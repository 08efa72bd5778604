//! reject: an entry of a local tree is returned
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f() -> &'static Own {
    let mut t = grow::<AllowSliceRefs>(9);
    let s = t.get(4).slice();
    s
}
fn main() {
    println!("{}", f().read());
}
