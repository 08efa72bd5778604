//! reject: a tree of short-lived values is swapped into one of long-lived ones
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'s>(long: &mut RleTree<u32, Pick<'static>, AllowSliceRefs, 1>, short: &mut RleTree<u32, Pick<'s>, AllowSliceRefs, 1>) {
    std::mem::swap(long, short);
}
fn main() {
    let mut t: RleTree<u32, Pick<'static>, AllowSliceRefs, 1> = RleTree::new_empty();
    {
        let x = text(1);
        let mut u: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
        u.insert(0, Pick(&x), 1);
        f(&mut t, &mut u);
    }
    println!("{}", t.get(0).slice().read());
}
