//! reject: an entry from get survives an insertion
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowCow>(9);
    let e = t.get(4);
    for i in 0..9 { t.insert(4, Own::new("new"), 1); }
    println!("{}", e.slice().read());
}
