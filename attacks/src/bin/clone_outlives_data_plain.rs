//! reject: a clone outlives what the shared values borrow
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let c;
    {
        let x = text(1);
        let mut t: RleTree<u32, Loud, NoFeatures, 1> = RleTree::new_empty();
        for i in 0..6 { t.insert(i, Loud(&x), 1); }
        c = t.clone();
    }
    println!("{}", c.get(0).slice().read());
}
