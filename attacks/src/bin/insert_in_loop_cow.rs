//! reject: inserting while iterating
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowCow>(9);
    for e in t.iter(..) {
        t.insert(e.range().start, Own::new("new"), 1);
        println!("{}", e.slice().read());
    }
}
