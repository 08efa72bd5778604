//! reject: an entry yielded by an iterator survives an insertion
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowCow>(9);
    let e = t.iter(3..).next().unwrap();
    for i in 0..40 { t.insert(3, Own::new("new"), 1); }
    println!("{}", e.slice().read());
}
