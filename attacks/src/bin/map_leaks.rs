//! reject: a mapping closure lets its argument escape
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let mut out: Option<&Own> = None;
    let b = Borrow::map(r.borrow_slice(), |s| {
        out = Some(s);
        s
    });
    drop(b);
    drop(t);
    println!("{}", out.unwrap().read());
}
