//! accept: what may cross threads does
#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
fn main() {
    let t = grow::<AllowCow>(9);
    let mut u = t.clone();
    let p = grow::<NoFeatures>(5);
    std::thread::scope(|s| {
        s.spawn(|| t.iter(..).map(|e| e.slice().read()).sum::<usize>());
        s.spawn(move || { u.insert(3, Own::new("x"), 1); u });
        let e = p.get(2);
        s.spawn(move || e.slice().read());
        let it = p.iter(1..);
        s.spawn(move || it.rev().count());
    });
    std::thread::spawn(move || drop((t, p))).join().unwrap();
}
