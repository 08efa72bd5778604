//! reject: a reference to short-lived values is given a longer lifetime
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'s>(r: SliceRef<u32, Pick<'s>, 1>) -> SliceRef<u32, Pick<'static>, 1> {
    r
}
fn main() {
    let p: Pick<'static>;
    {
        let x = text(1);
        let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
        let r = f(t.insert_ref(0, Pick(&x), 1));
        p = *r.borrow_slice();
    }
    println!("{}", p.read());
}
