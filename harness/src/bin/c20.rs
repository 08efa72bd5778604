//! C20: deep clones.
use monitors::*;
use monitors::{faults::Site, idx::*, px::PX, slices::*};
use sherman::param::*;

fn after<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    // a panic in the k-th value clone leaks and double-drops nothing
    for mi in 0..w.members.len() {
        let n = w.members[mi].m.len();
        if n == 0 {
            continue;
        }
        for _ in 0..4 {
            let k = w.rng.below(n) as u64;
            let live = ledger::live();
            let net = alloc::net();
            faults::arm(Site::Clone, k);
            let res = report::quiet_catch(|| drop(P::clone_tree(&w.members[mi].t)));
            let fired = faults::disarm();
            slices::take_events();
            ensure!(fired && res.is_err(), "clone #{k} of {n} never happened");
            w.stats.op("clone_panics");
            if let Some(f) = ledger::take_fault() {
                panic!("MONITOR: after a panic in value clone #{k}: {f}");
            }
            ensure!(ledger::live() == live, "a panic in value clone #{k} of {n} changed the live values from {live} to {}", ledger::live());
            let _ = net;
            w.check_member(mi);
        }
    }
    while w.members.len() > 1 {
        let mi = w.rng.below(w.members.len());
        w.do_drop(mi);
        w.check_all();
    }
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, gets: true, full: true, forks: true, deep: true, ledger: true, ..Watch::default() };
    let b = |n: u64, steps, max, trees| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.max_trees = trees;
        b.full_every = 30;
        b
    };
    hist_with::<Cnt, KPiece, NoFeatures, 1>(&mut r, "", b(400, 150, 80, 4), after);
    hist_with::<usize, KConst, NoFeatures, 2>(&mut r, "", b(400, 150, 80, 4), after);
    hist_with::<usize, KUniq, NoFeatures, 1>(&mut r, "", b(400, 150, 80, 4), after);
    hist_with::<u64, KPieceA64, NoFeatures, 3>(&mut r, "", b(200, 150, 80, 3), after);
    hist_with::<usize, KUniq, NoFeatures, 5>(&mut r, "", b(60, 500, 400, 3), after);
    hist_with::<usize, KUniq, NoFeatures, 127>(&mut r, "", b(4, 1200, 1200, 2), after);
    hist_with::<usize, KUniq, NoFeatures, 1>(&mut r, "deep", b(8, 1500, 1500, 2), after);
    shapes::shapes(&mut r, 100 * k, 200, [true, false, false]);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, NoFeatures, 127>(&mut r, 2 * kw, 34000, w);
    hist_wide::<u32, KPiece, NoFeatures, 64>(&mut r, 3 * kw, 9200, w);
    many::deep_clone::<1>(&mut r);
    many::deep_clone::<5>(&mut r);
    r.finish();
}
