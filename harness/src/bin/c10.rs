//! C10: cloning clones nothing; insertion clones at most the path.
use monitors::*;
use monitors::{idx::*, slices::*};
use sherman::param::*;

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, forks: true, clone_cost: true, ..Watch::default() };
    let b = |n: u64, steps, max, trees| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.max_trees = trees;
        b.full_every = 100;
        b
    };
    hist::<Cnt, KPiece, AllowCow, 1>(&mut r, b(600, 250, 120, 4));
    hist::<usize, KConst, AllowCow, 1>(&mut r, b(600, 250, 120, 4));
    hist::<usize, KUniq, AllowCow, 2>(&mut r, b(400, 300, 200, 4));
    hist::<usize, KPiece, AllowCow, 2>(&mut r, b(400, 300, 200, 4));
    hist::<usize, KUniq, AllowCow, 5>(&mut r, b(100, 600, 500, 3));
    hist::<usize, KUniq, AllowCow, 1>(&mut r, b(20, 3000, 3000, 3));
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, AllowCow, 127>(&mut r, 2 * kw, 34000, w);
    hist_wide::<u32, KPiece, AllowCow, 64>(&mut r, 3 * kw, 9200, w);
    r.finish();
}
