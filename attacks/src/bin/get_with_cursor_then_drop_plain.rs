//! reject: an entry from get_with_cursor outlives the tree
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<NoFeatures>(9);
    let c: BoundedCursor<4> = t.cursor_to(4);
    let e = t.get_with_cursor(c, 4);
    drop(t);
    println!("{}", e.slice().read());
}
