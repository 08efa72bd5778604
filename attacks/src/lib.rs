//! Stored types shared by the client programs in `src/bin`: every one of them is safe code. A program
//! that the compiler accepts is run under Miri; the values below make stale accesses visible there.
#![forbid(unsafe_code)]
use sherman::Slice;

/// Owns heap memory: reading it after it was destroyed is a use after free
#[derive(Clone)]
pub struct Own(pub String);
impl Own {
    pub fn new(s: &str) -> Own {
        Own(s.to_string())
    }
    pub fn read(&self) -> usize {
        self.0.bytes().map(|b| b as usize).sum()
    }
}
impl Slice<u32> for Own {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u32) -> Self {
        self.clone()
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Err((self, o))
    }
}

/// Borrows something and reads it when destroyed
#[derive(Clone)]
pub struct Loud<'a>(pub &'a String);
impl Loud<'_> {
    pub fn read(&self) -> usize {
        self.0.bytes().map(|b| b as usize).sum()
    }
}
impl Drop for Loud<'_> {
    fn drop(&mut self) {
        std::hint::black_box(self.read());
    }
}
impl<'a> Slice<u32> for Loud<'a> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u32) -> Self {
        Loud(self.0)
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Err((self, o))
    }
}

/// Borrows something; a join keeps the newer of the two borrows
#[derive(Clone, Copy)]
pub struct Pick<'a>(pub &'a str);
impl Pick<'_> {
    pub fn read(&self) -> usize {
        self.0.bytes().map(|b| b as usize).sum()
    }
}
impl<'a> Slice<u32> for Pick<'a> {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: u32) -> Self {
        *self
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Ok(o)
    }
}

/// `String` built at run time, so that nothing is promoted to a constant
pub fn text(n: u32) -> String {
    format!("some text {n} that lives on the heap")
}

pub fn grow<P>(n: u32) -> sherman::RleTree<u32, Own, P, 1>
where
    P: sherman::param::RleTreeConfig<u32, Own, 1> + sherman::param::SupportsInsert<u32, Own, 1>,
{
    let mut t: sherman::RleTree<u32, Own, P, 1> = sherman::RleTree::new_empty();
    for i in 0..n {
        t.insert(i, Own(text(i)), 1);
    }
    t
}
