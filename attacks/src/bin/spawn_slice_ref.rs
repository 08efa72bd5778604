//! reject: a slice reference is sent to a thread
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let h = std::thread::spawn(move || { for _ in 0..4 { drop(r.clone()); } });
    for _ in 0..4 { drop(t.get(4).make_ref()); }
    h.join().unwrap();
}
