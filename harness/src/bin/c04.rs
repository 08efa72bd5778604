//! C04: height and index-operation cost.
use monitors::*;
use monitors::{idx::*, slices::*};
use sherman::param::*;

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 30 } else { 1 };
    let w = Watch { hints: true, shape: true, cost: true, ranges: true, ..Watch::default() };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.full_every = (steps / 6).max(20);
        b
    };
    hist::<Cnt, KUniq, NoFeatures, 1>(&mut r, b(400, 300, 300));
    hist::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(400, 300, 300));
    hist::<Cnt, KConst, AllowSliceRefs, 2>(&mut r, b(400, 300, 300));
    hist::<Cnt, KUniq, AllowSliceRefs, 1>(&mut r, b(400, 300, 300));
    hist::<Cnt, KPiece, AllowCow, 2>(&mut r, b(200, 300, 300));
    hist::<Cnt, KUniq, AllowCow, 3>(&mut r, b(200, 400, 400));
    hist::<Cnt, KUniq, NoFeatures, 4>(&mut r, b(100, 800, 800));
    hist::<Cnt, KUniq, NoFeatures, 5>(&mut r, b(100, 800, 800));
    hist::<Cnt, KUniq, NoFeatures, 20>(&mut r, b(20, 3000, 3000));
    hist::<Cnt, KUniq, NoFeatures, 127>(&mut r, b(4, 6000, 6000));
    hist::<Cnt, KUniq, NoFeatures, 1>(&mut r, b(16, 6000, 6000));
    hist::<Cnt, KPiece, NoFeatures, 2>(&mut r, b(16, 6000, 6000));
    hist::<Cnt, KUniq, AllowCow, 1>(&mut r, b(16, 3000, 3000));
    let mut f = b(300, 250, 200);
    f.watch.forks = true;
    f.max_trees = 4;
    hist::<Cnt, KUniq, AllowCow, 1>(&mut r, f);
    hist::<Cnt, KPiece, AllowCow, 2>(&mut r, f);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<Cnt, KUniq, NoFeatures, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<Cnt, KPiece, AllowCow, 64>(&mut r, 3 * kw, 9200, w);
    r.finish();
}
