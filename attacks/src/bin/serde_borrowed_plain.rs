//! reject: a deserialised tree borrows from a document that is gone
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct P<'a>(#[serde(borrow)] &'a str);
impl<'a> Slice<u32> for P<'a> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u32) -> Self { self.clone() }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
fn main() {
    let t: RleTree<u32, P, NoFeatures, 1>;
    {
        let doc = format!("[[1,\"{}\"],[2,\"two\"]]", text(1));
        t = serde_json::from_str(&doc).unwrap();
    }
    println!("{}", t.get(0).slice().0);
}
