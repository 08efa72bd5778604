//! accept: references outlive the tree, borrows keep it alive
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let q = t.insert_ref(4, Own::new("inserted"), 3);
    let e = t.get(8);
    let s = e.make_ref();
    let b = r.borrow_slice();
    let n = b.read();
    let m = Borrow::map(q.borrow_slice(), |s| &s.0);
    let k = m.clone();
    drop(m);
    assert_eq!(k.as_str(), "inserted");
    assert_eq!(e.slice().read(), s.borrow_slice().read());
    drop(t);
    assert!(!s.is_valid() && !s.can_borrow());
    assert_eq!(b.read(), n);
    drop(b);
    assert_eq!(k.as_str(), "inserted");
    drop(k);
    drop(r.clone());
    drop(r);
    drop(q);
}
