//! C05: cursors never change results; all cursor sources agree on the path.
use monitors::*;
use monitors::{idx::*, slices::*};
use sherman::param::*;

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { cursors: true, full: true, ranges: true, forks: true, ..Watch::default() };
    let b = |n: u64, steps, max, trees| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.max_trees = trees;
        b
    };
    hist::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(400, 200, 120, 3));
    hist::<usize, KConst, NoFeatures, 2>(&mut r, b(400, 200, 120, 3));
    hist::<usize, KUniq, NoFeatures, 1>(&mut r, b(300, 200, 120, 3));
    hist::<usize, KUniq, NoFeatures, 4>(&mut r, b(200, 400, 300, 2));
    hist::<u8, KPiece, AllowSliceRefs, 3>(&mut r, b(200, 200, 120, 1));
    hist::<usize, KPiece, NoFeatures, 30>(&mut r, b(30, 600, 500, 1));
    hist::<usize, KUniq, NoFeatures, 127>(&mut r, b(6, 1500, 1500, 1));
    let mut s = b(400, 200, 100, 1);
    s.watch.refs = true;
    hist::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, s);
    hist::<usize, KUniq, AllowSliceRefs, 2>(&mut r, s);
    hist::<usize, KConst, AllowSliceRefs, 1>(&mut r, s);
    hist::<Cnt, KPiece, AllowCow, 1>(&mut r, b(500, 200, 100, 4));
    hist::<usize, KConst, AllowCow, 2>(&mut r, b(400, 200, 100, 4));
    hist::<usize, KUniq, AllowCow, 3>(&mut r, b(300, 200, 100, 4));
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, AllowSliceRefs, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<Cnt, KPiece, AllowCow, 64>(&mut r, 3 * kw, 9200, w);
    r.finish();
}
