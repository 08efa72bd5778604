//! reject: an iterator is given a longer lifetime
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'a>(e: Iter<'a, NoCursor, u32, Own, NoFeatures, 1>) -> Iter<'static, NoCursor, u32, Own, NoFeatures, 1> {
    e
}
fn main() {
    let mut it;
    {
        let mut t = grow::<NoFeatures>(9);
        it = f(t.iter(..));
    }
    println!("{}", it.next().unwrap().slice().read());
}
