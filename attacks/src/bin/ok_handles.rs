//! accept: everything held across what the signatures permit
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn go<P>(t: &RleTree<u32, Own, P, 1>) -> usize
where
    P: RleTreeConfig<u32, Own, 1> + SupportsInsert<u32, Own, 1>,
{
    let first;
    let s: &Own;
    {
        // entries and slices outlive the iterator that yielded them
        let mut it = t.iter(..);
        first = it.next().unwrap();
        s = it.next_back().unwrap().slice();
    }
    let all: Vec<_> = t.iter(..).collect();
    let rev: Vec<&Own> = t.iter(..).rev().map(|e| e.slice()).collect();
    // ranges by reference, dropped before the iterator
    let it = {
        let r = 2..5u32;
        t.iter(&r)
    };
    let n: usize = it.map(|e| e.slice().read()).sum();
    first.slice().read() + s.read() + n + all.iter().map(|e| e.slice().read()).sum::<usize>() + rev.iter().map(|s| s.read()).sum::<usize>()
}
fn main() {
    let (mut a, mut b, mut c) = (grow::<NoFeatures>(9), grow::<AllowCow>(9), grow::<AllowSliceRefs>(9));
    assert_eq!(go(&a), go(&b));
    assert_eq!(go(&a), go(&c));
    let d = b.clone();
    b.insert(3, Own::new("x"), 1);
    let keep = d.get(3).slice();
    drop(b);
    assert!(keep.read() > 0);
    let e = a.clone();
    a.insert(3, Own::new("x"), 1);
    drop(a);
    assert!(go(&e) > 0);
    c.insert(0, Own::new("y"), 2);
    assert!(go(&c) > 0);
}
