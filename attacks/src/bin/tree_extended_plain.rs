//! reject: a tree is given a longer lifetime for its values
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn f<'s>(t: RleTree<u32, Pick<'s>, NoFeatures, 1>) -> RleTree<u32, Pick<'static>, NoFeatures, 1> {
    t
}
fn main() {
    let t;
    {
        let x = text(1);
        let mut u: RleTree<u32, Pick, NoFeatures, 1> = RleTree::new_empty();
        u.insert(0, Pick(&x), 1);
        t = f(u);
    }
    println!("{}", t.get(0).slice().read());
}
