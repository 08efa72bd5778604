//! reject: a reference held with a longer lifetime than the tree that it points into
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn longer<'s>(r: SliceRef<u32, Pick<'s>, 1>, _: &'s str) -> SliceRef<u32, Pick<'static>, 1> {
    r.clone()
}
fn main() {
    let r;
    let x = text(7);
    let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
    r = longer(t.insert_ref(0, Pick(&x), 1), &x);
    let p: Pick<'static> = *r.borrow_slice();
    drop(t);
    drop(x);
    println!("{}", p.read());
}
