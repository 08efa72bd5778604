//! C07: slice references follow their slice.
use monitors::*;
use monitors::{idx::*, px::PX, slices::*};
use sherman::param::*;

fn after<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    // a reference to every entry at once, then mutate under them
    let n = w.members[0].m.len();
    w.members[0].refs.clear();
    for k in 0..n {
        let r = {
            let mem = &w.members[0];
            P::make_ref(&mem.t.get(mem.m.starts[k]))
        };
        let u = w.members[0].m.runs[k].uid;
        w.members[0].refs.push((r, u));
    }
    w.cfg.max_refs = n + 8;
    w.cfg.max_runs = n + 60;
    for _ in 0..25 {
        w.do_insert(0);
    }
    w.check_member(0);
    let s = w.members[0].refs.len() as u64;
    w.stats.max("max_simultaneous_refs", s);
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, refs: true, ..Watch::default() };
    let b = |n: u64, steps, max, refs| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.max_refs = refs;
        b.full_every = 15;
        b
    };
    hist_with::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, "", b(800, 200, 100, 40), after);
    hist_with::<usize, KConst, AllowSliceRefs, 1>(&mut r, "", b(800, 200, 100, 40), after);
    hist_with::<usize, KPiece, AllowSliceRefs, 2>(&mut r, "", b(800, 200, 100, 40), after);
    hist_with::<usize, KUniq, AllowSliceRefs, 1>(&mut r, "", b(500, 200, 100, 60), after);
    hist_with::<u8, KConst, AllowSliceRefs, 2>(&mut r, "", b(300, 200, 100, 20), after);
    hist_with::<u32, KUniq, AllowSliceRefs, 3>(&mut r, "", b(300, 250, 200, 60), after);
    hist_with::<usize, KStubborn, AllowSliceRefs, 4>(&mut r, "", b(300, 250, 200, 100), after);
    hist_with::<usize, KPieceA64, AllowSliceRefs, 5>(&mut r, "", b(200, 300, 250, 100), after);
    hist_with::<usize, KPiece, AllowSliceRefs, 20>(&mut r, "", b(20, 800, 800, 200), after);
    let mut d = b(12, 2500, 2000, 300);
    d.full_every = 400;
    hist_with::<usize, KPiece, AllowSliceRefs, 1>(&mut r, "deep", d, after);
    shapes::shapes(&mut r, 100 * k, 200, [false, false, true]);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, AllowSliceRefs, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<u32, KPiece, AllowSliceRefs, 64>(&mut r, 4 * kw, 9200, w);
    many::references::<1>(&mut r);
    many::references::<5>(&mut r);
    r.finish();
}
