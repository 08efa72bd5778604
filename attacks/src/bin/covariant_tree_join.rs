//! reject: a tree of long-lived values is treated as one of short-lived values while a reference remembers the long lifetime
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn shorten<'l: 's, 's>(t: RleTree<u32, Pick<'l>, AllowSliceRefs, 1>, _: &'s str) -> RleTree<u32, Pick<'s>, AllowSliceRefs, 1> {
    t
}
fn main() {
    let mut t: RleTree<u32, Pick<'static>, AllowSliceRefs, 1> = RleTree::new_empty();
    let r: SliceRef<u32, Pick<'static>, 1> = t.insert_ref(0, Pick("static"), 1);
    let p: Pick<'static>;
    {
        let x = text(7);
        let mut u = shorten(t, &x);
        u.insert(1, Pick(&x), 1);
        p = *r.borrow_slice();
    }
    println!("{}", p.read());
}
