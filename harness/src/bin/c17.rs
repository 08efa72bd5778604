//! C17: only the documented directional arithmetic, checked with a non-commutative index.
use monitors::*;
use monitors::{idx::*, slices::*};
use sherman::param::*;

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, gets: true, full: true, ranges: true, ..Watch::default() };
    let b = |n: u64, steps, max| Batch::new(n * k, steps, max, w);
    hist::<Heis, KPiece, NoFeatures, 1>(&mut r, b(800, 200, 100));
    hist::<Heis, KConst, NoFeatures, 2>(&mut r, b(800, 200, 100));
    hist::<Heis, KUniq, NoFeatures, 3>(&mut r, b(400, 200, 150));
    let mut s = b(600, 200, 80);
    s.watch.refs = true;
    s.max_refs = 30;
    hist::<Heis, KPiece, AllowSliceRefs, 1>(&mut r, s);
    hist::<Heis, KConst, AllowSliceRefs, 2>(&mut r, s);
    hist::<Heis, KUniq, AllowSliceRefs, 1>(&mut r, s);
    let mut f = b(600, 200, 80);
    f.watch.forks = true;
    f.max_trees = 4;
    hist::<Heis, KPiece, AllowCow, 1>(&mut r, f);
    hist::<Heis, KConst, AllowCow, 2>(&mut r, f);
    hist::<Heis, KUniq, NoFeatures, 5>(&mut r, b(50, 800, 600));
    r.finish();
}
