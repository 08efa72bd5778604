//! reject: the slice of an entry is given a longer lifetime than the entry
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'a>(e: SliceEntry<'a, u32, Own, AllowCow, 1>) -> &'static Own {
    e.slice()
}
fn main() {
    let s;
    {
        let mut t = grow::<AllowCow>(9);
        s = f(t.get(4));
    }
    println!("{}", s.read());
}
