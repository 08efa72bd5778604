//! reject: the data borrowed by a stored value is moved away while the tree lives
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let x = text(1);
    let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
    t.insert(0, Pick(&x), 1);
    drop(x);
    println!("{}", t.get(0).slice().read());
}
