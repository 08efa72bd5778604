//! C16: refused operations panic and change nothing.
use monitors::*;
use monitors::{idx::*, px::PX, slices::*};
use sherman::param::*;
use sherman::RleTree;

fn boundaries<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    // idx == size() is a legal insert
    w.cfg.max_runs = 1 << 20;
    for mi in 0..w.members.len() {
        let total = w.members[mi].m.size();
        let size = I::gen_size(&mut w.rng);
        if I::fits(total, size) {
            w.fresh += 1;
            let id = w.fresh;
            w.insert(mi, total, id, I::ZERO, size);
            w.stats.op("boundary_append");
        }
        w.check_member(mi);
    }
}

fn bad_m<const M: usize>(r: &mut Runner, ok: bool) {
    r.config(&format!("M{M}"), 1, |_, _, _| {
        let a = report::quiet_catch(|| drop(RleTree::<usize, Sl<usize, KUniq>, NoFeatures, M>::new_empty()));
        let b = report::quiet_catch(|| drop(RleTree::<usize, Sl<usize, KUniq>, AllowCow, M>::new(Sl::new(1, 0, 3), 3)));
        let c = report::quiet_catch(|| drop(RleTree::<usize, Sl<usize, KUniq>, AllowSliceRefs, M>::new(Sl::new(1, 0, 3), 3)));
        for (n, x) in [("new_empty", &a), ("new (cow)", &b), ("new (refs)", &c)] {
            ensure!(x.is_ok() == ok, "{n} with M = {M}: {x:?}, expected {}", if ok { "success" } else { "a panic" });
        }
        ensure!(ledger::live() == 0, "refused constructions leave {} live values", ledger::live());
        let mut s = world::Stats::default();
        s.op("construction");
        Outcome { hash: M as u64, nontrivial: true, stats: s, sample: format!("construction with M = {M}") }
    });
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, refused: true, ..Watch::default() };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.full_every = 40;
        b
    };
    hist_with::<Cnt, KPiece, NoFeatures, 1>(&mut r, "", b(500, 150, 80), boundaries);
    hist_with::<usize, KConst, NoFeatures, 2>(&mut r, "", b(400, 150, 80), boundaries);
    hist_with::<u8, KUniq, NoFeatures, 3>(&mut r, "", b(300, 150, 80), boundaries);
    let mut s = b(500, 150, 60);
    s.watch.refs = true;
    hist_with::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, "", s, boundaries);
    hist_with::<usize, KUniq, AllowSliceRefs, 2>(&mut r, "", s, boundaries);
    hist_with::<u32, KConst, AllowSliceRefs, 3>(&mut r, "", s, boundaries);
    let mut f = b(500, 150, 60);
    f.watch.forks = true;
    f.max_trees = 3;
    hist_with::<Cnt, KPiece, AllowCow, 1>(&mut r, "", f, boundaries);
    hist_with::<usize, KConst, AllowCow, 2>(&mut r, "", f, boundaries);
    hist_with::<Cnt, KUniq, NoFeatures, 2>(&mut r, "", f, boundaries);
    bad_m::<0>(&mut r, false);
    bad_m::<1>(&mut r, true);
    bad_m::<2>(&mut r, true);
    bad_m::<64>(&mut r, true);
    bad_m::<126>(&mut r, true);
    bad_m::<127>(&mut r, true);
    bad_m::<128>(&mut r, false);
    bad_m::<129>(&mut r, false);
    bad_m::<255>(&mut r, false);
    bad_m::<256>(&mut r, false);
    bad_m::<257>(&mut r, false);
    bad_m::<1000>(&mut r, false);
    r.finish();
}
