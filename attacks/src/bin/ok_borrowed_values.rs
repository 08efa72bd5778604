//! accept: values that borrow, in trees that die first
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let x = text(1);
    let y = text(2);
    let mut a: RleTree<u32, Loud, NoFeatures, 1> = RleTree::new_empty();
    let mut b: RleTree<u32, Loud, AllowCow, 1> = RleTree::new_empty();
    let mut c: RleTree<u32, Loud, AllowSliceRefs, 1> = RleTree::new_empty();
    for i in 0..7 {
        let s = if i % 2 == 0 { &x } else { &y };
        a.insert(i / 2, Loud(s), 1);
        b.insert(i / 2, Loud(s), 1);
        c.insert(i / 2, Loud(s), 1);
    }
    let r = c.get(3).make_ref();
    let b2 = b.clone();
    b.insert(0, Loud(&y), 1);
    // what a value borrows may outlive the tree
    let p: &str = a.get(2).slice().0;
    drop(a);
    assert!(p.len() > 3);
    let w = r.borrow_slice();
    drop(c);
    assert!(w.read() > 0);
    drop(w);
    drop(b);
    assert!(b2.get(1).slice().read() > 0);
}
