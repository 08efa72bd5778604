//! reject: safe client code declares its trees with slice references to be Sync
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct I(u32);
impl DirectionalAdd for I { fn add_right(self, o: Self) -> Self { I(self.0 + o.0) } }
impl DirectionalSub for I {
    fn sub_left(self, o: Self) -> Self { I(self.0 - o.0) }
    fn sub_right(self, o: Self) -> Self { I(self.0 - o.0) }
}
impl Index for I { const ZERO: Self = I(0); }
struct S(std::rc::Rc<u32>);
impl Slice<I> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { S(self.0.clone()) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
impl RleTreeIsSync<I, S> for AllowSliceRefs {}
fn main() {
    let mut t: RleTree<I, S, AllowSliceRefs, 2> = RleTree::new_empty();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
    let t = &t;
    std::thread::scope(|s| {
        s.spawn(move || for _ in 0..3 { drop(t.get(I(0)).make_ref()); });
        for _ in 0..3 { drop(t.get(I(0)).make_ref()); }
    });
}
