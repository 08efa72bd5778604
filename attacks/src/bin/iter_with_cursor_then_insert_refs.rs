//! reject: an iterator from iter_with_cursor survives an insertion
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let c: BoundedCursor<4> = t.cursor_to(4);
    let mut it = t.iter_with_cursor(c, 4..);
    let e = it.next().unwrap();
    for i in 0..40 { t.insert(4, Own::new("new"), 1); }
    println!("{}", e.slice().read());
    for e in it { println!("{}", e.slice().read()); }
}
