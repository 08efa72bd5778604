//! C02: range iteration from both ends against the model; refused ranges; every std range type.
use monitors::*;
use monitors::{idx::*, px::PX, slices::*};
use sherman::param::*;

/// The same span through every concrete range type must give the same entries
fn spellings<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    let t = &w.members[0].t;
    let m = &w.members[0].m;
    let n = m.len();
    if n == 0 {
        ensure!(t.iter(..).count() == 0, "iter(..) of an empty tree yields something");
        ensure!(t.iter(..I::ZERO).count() == 0, "iter(..0) of an empty tree yields something");
        return;
    }
    let total = m.size();
    let all = |v: Vec<(I, I)>, a: usize, b: usize, what: &str| {
        let want: Vec<(I, I)> = (a..b).map(|k| (m.starts[k], m.end(k))).collect();
        ensure!(v == want, "{what}: yields {} entries {v:?}, expected entries {a}..{b}", v.len());
    };
    macro_rules! it {
        ($r:expr) => {
            t.iter($r).map(|e| (e.range().start, e.range().end)).collect::<Vec<_>>()
        };
    }
    for _ in 0..6 {
        let a = w.rng.below(n);
        let b = w.rng.range(a, n - 1);
        let (sa, sb, eb) = (m.starts[a], m.starts[b], m.end(b));
        all(it!(sa..eb), a, b + 1, "start..end");
        if a < b {
            all(it!(sa..sb), a, b, "start..start");
        }
        all(it!(sa..=sb), a, b + 1, "start..=start");
        all(it!(..eb), 0, b + 1, "..end");
        all(it!(..=sb), 0, b + 1, "..=start");
        all(it!(sa..), a, n, "start..");
        all(it!(..), 0, n, "..");
        all(it!(&(sa..eb)), a, b + 1, "&start..end");
        all(it!(sa..total), a, n, "start..size");
        all(it!(..I::ZERO), 0, 0, "..0");
    }
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, ranges: true, full: true, ..Watch::default() };
    let wf = Watch { forks: true, ..w };
    let b = |n: u64, steps, max| Batch::new(n * k, steps, max, w);
    hist_with::<Cnt, KPiece, NoFeatures, 1>(&mut r, "", b(600, 200, 120), spellings);
    hist_with::<usize, KConst, NoFeatures, 2>(&mut r, "", b(600, 200, 120), spellings);
    hist_with::<u8, KConst, AllowSliceRefs, 1>(&mut r, "", b(300, 200, 120), spellings);
    hist_with::<Cnt, KUniq, AllowSliceRefs, 3>(&mut r, "", b(300, 200, 120), spellings);
    hist_with::<u32, KStubborn, NoFeatures, 5>(&mut r, "", b(300, 200, 120), spellings);
    hist_with::<usize, KUniq, NoFeatures, 1>(&mut r, "", b(60, 900, 900), spellings);
    hist_with::<usize, KUniq, NoFeatures, 60>(&mut r, "", b(10, 900, 900), spellings);
    // copy-on-write: shared nodes whose parent pointers belong to another tree
    let mut f = Batch::new(600 * k, 200, 100, wf);
    f.max_trees = 4;
    hist_with::<Cnt, KPiece, AllowCow, 1>(&mut r, "", f, spellings);
    hist_with::<usize, KConst, AllowCow, 2>(&mut r, "", f, spellings);
    hist_with::<u64, KUniq, AllowCow, 3>(&mut r, "", f, spellings);
    // wide nodes, full at every level
    let kw = k.min(15);
    hist_wide::<usize, KUniq, NoFeatures, 127>(&mut r, 3 * kw, 34000, w);
    hist_wide::<u32, KPiece, AllowCow, 64>(&mut r, 4 * kw, 9200, wf);
    many::entries::<NoFeatures, 2>(&mut r);
    many::entries::<AllowCow, 5>(&mut r);
    r.finish();
}
