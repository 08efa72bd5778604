//! C01: insert / get / size / number_of_slices against the run-sequence model.
use monitors::*;
use monitors::{idx::*, slices::*};
use monitors::constant::constant;
use sherman::param::*;

fn main() {
    let mut r = Runner::new();
    let t = r.a.thorough() as usize;
    let w = Watch { hints: true, gets: true, ..Watch::default() };
    let b = |n: u64, steps, max| Batch::new(n, steps, max, w);
    let k = if t == 1 { 40 } else { 1 };
    hist::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(600 * k, 250, 150));
    hist::<Cnt, KConst, AllowSliceRefs, 1>(&mut r, b(600 * k, 250, 150));
    hist::<usize, KConst, NoFeatures, 2>(&mut r, b(600 * k, 250, 150));
    hist::<usize, KPiece, AllowCow, 2>(&mut r, b(600 * k, 250, 150));
    hist::<u8, KConst, NoFeatures, 1>(&mut r, b(300 * k, 200, 150));
    hist::<u8, KPiece, AllowSliceRefs, 3>(&mut r, b(300 * k, 200, 150));
    hist::<u16, KUniq, NoFeatures, 3>(&mut r, b(300 * k, 300, 250));
    hist::<u32, KStubborn, AllowCow, 3>(&mut r, b(300 * k, 300, 250));
    hist::<u64, KPieceA64, AllowSliceRefs, 4>(&mut r, b(300 * k, 300, 250));
    hist::<u128, KPiece, NoFeatures, 5>(&mut r, b(300 * k, 400, 400));
    hist::<Cnt, KUniq, AllowSliceRefs, 2>(&mut r, b(300 * k, 300, 250));
    hist::<Heis, KPiece, NoFeatures, 2>(&mut r, b(0, 250, 150));
    hist::<usize, KUniq, NoFeatures, 16>(&mut r, b(40 * k, 1500, 1500));
    hist::<usize, KPiece, AllowCow, 127>(&mut r, b(10 * k, 3000, 3000));
    // deep trees
    let mut d = b(12 * k, 5000, 5000);
    d.full_every = 1000;
    d.joiny = &[5];
    hist::<usize, KUniq, AllowCow, 1>(&mut r, d);
    hist::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, d);
    constant::<NoFeatures, 1>(&mut r, 120 * k, 160);
    constant::<AllowSliceRefs, 2>(&mut r, 120 * k, 160);
    constant::<AllowCow, 3>(&mut r, 120 * k, 160);
    // insertions that join both neighbours
    let mut e = b(100 * k, 60, 40);
    e.edge_both = true;
    hist_with::<Cnt, KConst, NoFeatures, 1>(&mut r, "joins-both", e, |_| ());
    hist_with::<usize, KPiece, AllowCow, 2>(&mut r, "joins-both", e, |_| ());
    hist_with::<u32, KConst, AllowSliceRefs, 2>(&mut r, "joins-both", e, |_| ());
    shapes::shapes(&mut r, 60 * k, 200, [true; 3]);
    // wide nodes, full at every level
    let kw = if t == 1 { 15 } else { 1 };
    hist_wide::<usize, KUniq, NoFeatures, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<Cnt, KPiece, AllowSliceRefs, 64>(&mut r, 4 * kw, 9200, w);
    hist_wide::<u32, KConst, AllowCow, 100>(&mut r, 4 * kw, 21000, w);
    hist_wide::<u64, KPieceA64, NoFeatures, 63>(&mut r, 4 * kw, 8900, w);
    // more than a narrow counter can count
    many::entries::<NoFeatures, 1>(&mut r);
    many::entries::<AllowSliceRefs, 5>(&mut r);
    many::entries::<AllowCow, 3>(&mut r);
    r.finish();
}
