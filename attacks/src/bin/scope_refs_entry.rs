//! reject: an entry of a tree with slice references is used on another thread
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let e = t.get(3);
    std::thread::scope(|s| {
        s.spawn(move || for _ in 0..4 { drop(e.make_ref()); });
        for _ in 0..4 { drop(r.clone()); }
    });
}
