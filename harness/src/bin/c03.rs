//! C03: split/join protocol observed at the callbacks; run normalisation.
use monitors::*;
use monitors::{idx::*, px::PX, slices::*};
use sherman::param::*;

fn normal<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    for mem in &w.members {
        let v: Vec<_> = mem.t.iter(..).map(|e| (e.slice().desc(), e.size())).collect();
        for d in &v {
            ensure!(d.0 .2 == d.1, "entry {:?} of length {:?} is reported with size {:?}", d.0, d.0 .2, d.1);
        }
        if K::MAY_JOIN {
            for p in v.windows(2) {
                ensure!(!K::joins(p[0].0, p[1].0), "adjacent joinable entries {:?} and {:?} remain", p[0], p[1]);
            }
        }
    }
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, protocol: true, full: true, ..Watch::default() };
    let mut b = Batch::new(800 * k, 250, 120, w);
    b.joiny = &[0, 30, 60, 90];
    hist_with::<Cnt, KPiece, NoFeatures, 1>(&mut r, "", b, normal);
    hist_with::<usize, KConst, NoFeatures, 1>(&mut r, "", b, normal);
    hist_with::<Cnt, KConst, NoFeatures, 2>(&mut r, "", b, normal);
    hist_with::<u64, KPiece, AllowSliceRefs, 2>(&mut r, "", b, normal);
    hist_with::<u16, KPiece, AllowSliceRefs, 1>(&mut r, "", b, normal);
    hist_with::<usize, KUniq, NoFeatures, 2>(&mut r, "", b, normal);
    hist_with::<usize, KUniq, AllowSliceRefs, 3>(&mut r, "", b, normal);
    hist_with::<u8, KStubborn, NoFeatures, 2>(&mut r, "", b, normal);
    hist_with::<usize, KStubborn, AllowCow, 1>(&mut r, "", b, normal);
    hist_with::<usize, KPieceA64, NoFeatures, 5>(&mut r, "", b, normal);
    b.watch.forks = true;
    b.max_trees = 3;
    hist_with::<Cnt, KPiece, AllowCow, 1>(&mut r, "", b, normal);
    hist_with::<usize, KConst, AllowCow, 2>(&mut r, "", b, normal);
    hist_with::<usize, KUniq, AllowCow, 3>(&mut r, "", b, normal);
    let mut d = Batch::new(16 * k, 3000, 2500, w);
    d.full_every = 500;
    hist_with::<usize, KPiece, NoFeatures, 1>(&mut r, "deep", d, normal);
    hist_with::<usize, KConst, AllowSliceRefs, 12>(&mut r, "deep", d, normal);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KPiece, NoFeatures, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<u32, KConst, AllowSliceRefs, 64>(&mut r, 4 * kw, 9200, w);
    // the crate's own slice type: maximal runs
    constant::constant::<NoFeatures, 1>(&mut r, 60 * k, 160);
    constant::constant::<AllowSliceRefs, 3>(&mut r, 60 * k, 160);
    constant::constant::<AllowCow, 2>(&mut r, 60 * k, 160);
    r.finish();
}
