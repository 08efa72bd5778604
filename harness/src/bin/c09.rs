//! C09: copy-on-write clones are independent snapshots.
use monitors::*;
use monitors::{idx::*, px::PX, slices::*};
use sherman::param::*;

fn after<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    // drop the family in a random order, checking the survivors each time
    while w.members.len() > 1 {
        let mi = w.rng.below(w.members.len());
        w.do_drop(mi);
        w.check_all();
    }
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { gets: true, full: true, ranges: true, forks: true, cursors: true, ..Watch::default() };
    let b = |n: u64, steps, max, trees, every| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.max_trees = trees;
        b.full_every = every;
        b
    };
    hist_with::<Cnt, KPiece, AllowCow, 1>(&mut r, "", b(700, 200, 80, 6, 12), after);
    hist_with::<usize, KConst, AllowCow, 1>(&mut r, "", b(500, 200, 80, 6, 12), after);
    hist_with::<usize, KPiece, AllowCow, 2>(&mut r, "", b(500, 200, 80, 6, 12), after);
    hist_with::<usize, KUniq, AllowCow, 2>(&mut r, "", b(400, 200, 80, 5, 12), after);
    hist_with::<u8, KConst, AllowCow, 3>(&mut r, "", b(200, 200, 80, 4, 12), after);
    hist_with::<u32, KStubborn, AllowCow, 3>(&mut r, "", b(200, 200, 80, 4, 12), after);
    hist_with::<usize, KPieceA64, AllowCow, 5>(&mut r, "", b(100, 400, 300, 4, 60), after);
    let mut d = b(8, 1500, 1500, 3, 300);
    d.joiny = &[5];
    hist_with::<usize, KUniq, AllowCow, 1>(&mut r, "deep", d, after);
    let n = |n: u64| if cfg!(miri) { n / 60 + 1 } else { n } * k;
    nested::snapshots::<1>(&mut r, n(600), if cfg!(miri) { 30 } else { 120 });
    nested::snapshots::<2>(&mut r, n(400), if cfg!(miri) { 30 } else { 120 });
    nested::snapshots::<3>(&mut r, n(200), if cfg!(miri) { 30 } else { 160 });
    shapes::shapes(&mut r, n(60), if cfg!(miri) { 40 } else { 200 }, [false, true, false]);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, AllowCow, 127>(&mut r, 2 * kw, 34000, w);
    hist_wide::<Cnt, KPiece, AllowCow, 64>(&mut r, 3 * kw, 9200, w);
    many::clones::<1>(&mut r);
    many::clones::<5>(&mut r);
    if !cfg!(miri) {
        // (they leak)
        forgot::clones::<1>(&mut r, 100 * k);
        forgot::clones::<4>(&mut r, 100 * k);
    }
    r.finish();
}
