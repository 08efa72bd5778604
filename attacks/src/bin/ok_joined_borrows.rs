//! accept: joins of values that borrow
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let x = text(1);
    let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
    let r = t.insert_ref(0, Pick("static"), 2);
    {
        let y = text(2);
        let u: RleTree<u32, Pick, NoFeatures, 1> = RleTree::new(Pick(&y), 2);
        assert!(u.get(0).slice().read() > 0);
    }
    t.insert(2, Pick(&x), 1);
    assert_eq!(r.range(), 0..3);
    assert!(r.borrow_slice().read() > 0);
    let doc = String::from("[[1,7],[2,8]]");
    #[derive(Clone, serde::Deserialize)]
    struct N(u8);
    impl Slice<u32> for N {
        const MAY_JOIN: bool = false;
        fn split_at(&mut self, _: u32) -> Self { self.clone() }
        fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
    }
    let d: RleTree<u32, N> = serde_json::from_str(&doc).unwrap();
    drop(doc);
    assert_eq!(d.get(1).slice().0, 8);
}
