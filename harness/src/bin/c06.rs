//! C06: BoundedCursor keeps the top of the path; hints save search work.
use monitors::*;
use monitors::{cursors::*, idx::*, px::PX, rng::*, slices::*};
use sherman::param::*;
use sherman::{BoundedCursor, Cursor, NoCursor, PathComponent};

/// The specification: what a cursor of LEN components must yield after this path was fed to it
fn expect(fed: &[PathComponent], len: usize) -> Vec<PathComponent> {
    fed.iter().rev().take(len).copied().collect()
}

fn fidelity<const L: usize>(pool: &[PathComponent], g: &mut Rng, st: &mut world::Stats) -> u64 {
    let depth = match g.below(4) {
        0 => g.below(4),
        1 => L.saturating_sub(2) + g.below(6),
        2 => g.below(20),
        _ => g.below(300),
    };
    let mut c = BoundedCursor::<L>::new_empty();
    let mut fed = vec![];
    let mut h = L as u64;
    ensure!(c.into_path().next().is_none(), "an empty BoundedCursor<{L}> yields a component");
    for i in 0..depth {
        let p = pool[g.below(pool.len())];
        c.prepend_to_path(p);
        fed.push(p);
        h = mix(h ^ i as u64 ^ ((pool.binary_search(&p).unwrap() as u64) << 9));
        if i < 12 || i + 1 == depth || g.chance(1, 8) {
            let got: Vec<_> = c.into_path().take(L + 3).collect();
            let want = expect(&fed, L);
            ensure!(got == want, "BoundedCursor<{L}> fed {} components (leaf first) {:?} yields {got:?}, expected {want:?}", i + 1, fed);
            let mut it = c.into_path();
            for _ in 0..want.len() {
                it.next();
            }
            ensure!(it.next().is_none() && it.next().is_none(), "BoundedCursor<{L}> does not stay exhausted");
            st.comparisons += 1;
        }
    }
    // reading does not consume the (Copy) cursor
    let a: Vec<_> = c.into_path().collect();
    let b: Vec<_> = c.into_path().collect();
    ensure!(a == b, "reading a BoundedCursor<{L}> twice differs");
    st.max("max_path_fed", depth as u64);
    h
}

fn lens<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize, const L: usize>(w: &mut World<I, K, P, M>, k: usize) {
    let m = &w.members[0];
    let x = m.m.starts[k];
    let full = m.t.cursor_to::<VecCursor>(x);
    let want: Vec<_> = full.path().into_iter().take(L).collect();
    let got: Vec<_> = m.t.cursor_to::<BoundedCursor<L>>(x).into_path().collect();
    ensure!(got == want, "cursor_to::<BoundedCursor<{L}>>({x:?}) yields {got:?}, the full path is {:?}", full.path());
    if let Some(c) = P::entry_cursor::<BoundedCursor<L>>(&m.t.get(x)) {
        let got: Vec<_> = c.into_path().collect();
        ensure!(got == want, "SliceEntry::cursor::<BoundedCursor<{L}>> yields {got:?}, the full path is {:?}", full.path());
    }
    let e = m.t.get_with_cursor(m.t.cursor_to::<BoundedCursor<L>>(x), x);
    ensure!(e.range().start == x && e.slice().desc() == m.m.runs[k].desc(), "get_with_cursor with the exact BoundedCursor<{L}> gives a different entry");
    w.stats.comparisons += 3;
}

fn after<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    let n = w.members[0].m.len();
    for _ in 0..20.min(n) {
        let k = w.rng.below(n);
        lens::<I, K, P, M, 0>(w, k);
        lens::<I, K, P, M, 1>(w, k);
        lens::<I, K, P, M, 2>(w, k);
        lens::<I, K, P, M, 3>(w, k);
        lens::<I, K, P, M, 8>(w, k);
        // insertion with a short cursor: what comes back is the top of the new path
        let x = w.members[0].m.starts[k];
        if w.members[0].m.len() >= w.cfg.max_runs {
            continue;
        }
        let Some((idx, id, off, size)) = w.gen_insert(0) else { continue };
        let _ = x;
        let p = w.members[0].m.plan(idx, id, off, size, 1 << 40);
        let hint = w.members[0].t.cursor_to::<BoundedCursor<2>>(x);
        let res = p.result;
        let m = &mut w.members[0];
        let c: BoundedCursor<2> = m.t.insert_with_cursor(hint, idx, Sl::new(id, off, size), size);
        m.m.commit(p);
        m.m.runs.iter_mut().for_each(|r| if r.uid >= 1 << 40 { w.uid += 1; r.uid = w.uid });
        let full = m.t.cursor_to::<VecCursor>(m.m.starts[res]).path();
        let want: Vec<_> = full.iter().copied().take(2).collect();
        let got: Vec<_> = c.into_path().collect();
        ensure!(got == want, "insertion returned the BoundedCursor<2> {got:?}; the path to the entry is {full:?}");
    }
    slices::take_events();
}

/// Total index comparisons of get over all entries: full search, exact cursor
fn savings<P: PX<Cnt, KUniq, M>, const M: usize>(w: &mut World<Cnt, KUniq, P, M>) {
    let m = &w.members[0];
    let n = m.m.len();
    let (mut full, mut hinted, mut bounded) = (0, 0, 0);
    let mut depth = 0;
    let mut tops = std::collections::BTreeSet::new();
    for k in 0..n {
        // any position inside the entry
        let x = m.m.starts[k];
        let (c, b) = (m.t.cursor_to::<VecCursor>(x), m.t.cursor_to::<BoundedCursor<8>>(x));
        depth += c.0.len() as u64;
        tops.extend(c.path().first().copied());
        let o = idx::cmps();
        m.t.get(x);
        full += idx::cmps() - o;
        let o = idx::cmps();
        m.t.get_with_cursor(c, x);
        hinted += idx::cmps() - o;
        let o = idx::cmps();
        m.t.get_with_cursor(b, x);
        bounded += idx::cmps() - o;
    }
    w.stats.comparisons += n as u64;
    w.stats.add("comparisons_full_search", full);
    w.stats.add("comparisons_with_exact_cursor", hinted);
    w.stats.max(&format!("max_hinted_permille_M{M}"), if full > 0 { hinted * 1000 / full } else { 0 });
    ensure!(bounded == hinted, "BoundedCursor<8> hints give {bounded} comparisons, a full cursor {hinted}");
    // following a hint costs a bounded number of comparisons per level, whatever the width of the node
    ensure!(hinted <= full + 2 * depth, "with exact cursors {hinted} index comparisons over all {n} entries ({depth} levels), without {full} (M = {M})");
    if M >= 16 && tops.len() >= 12 {
        w.stats.add("wide_trees_measured", 1);
        ensure!(hinted < full, "with exact cursors {hinted} index comparisons over all {n} entries, without {full} (M = {M}, {} subtrees below the root)", tops.len());
    }
}

fn sav<P: PX<Cnt, KUniq, M>, const M: usize>(r: &mut Runner, b: Batch) {
    hist_with::<Cnt, KUniq, P, M>(r, "savings", b, |w| savings::<P, M>(w));
}

/// Per-level savings in trees whose levels below the root are wide as well
fn levels<P: PX<Cnt, KUniq, M>, const M: usize>(r: &mut Runner, n: usize, times: u64) {
    r.config(&format!("levels/{}/M{M}", P::NAME), times, |seed, _, _| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        // appended, prepended, or filled from the middle: all of them leave wide nodes
        let how = g.below(3);
        let build = || {
            let mut t: sherman::RleTree<Cnt, Sl<Cnt, KUniq>, P, M> = sherman::RleTree::new_empty();
            for i in 0..n {
                let at = match how { 0 => i as i64 * 2, 1 => 0, _ => (i as i64 / 2) * 2 };
                t.insert(Cnt(at), Sl::new(i as u32, Cnt(0), Cnt(2)), Cnt(2));
            }
            t
        };
        let (mut t, mut twin) = (build(), build());
        // how many children do the nodes have along every path?
        let paths: Vec<VecCursor> = (0..n).map(|i| t.cursor_to(Cnt(i as i64 * 2))).collect();
        let mut widths: std::collections::BTreeMap<Vec<PathComponent>, std::collections::BTreeSet<PathComponent>> = Default::default();
        for p in &paths {
            let p = p.path();
            for d in 0..p.len() {
                widths.entry(p[..d].to_vec()).or_default().insert(p[d]);
            }
        }
        let mut need = 0u64;
        let mut tot = [[0u64; 2]; 7];
        let mut of = [0u64; 7];
        for (i, c) in paths.iter().enumerate() {
            let p = c.path();
            for d in 0..p.len() {
                let w = widths[&p[..d].to_vec()].len() as u64;
                need += (w.ilog2() as u64).saturating_sub(3);
            }
            let saved: u64 = (0..p.len()).map(|d| (widths[&p[..d].to_vec()].len().ilog2() as u64).saturating_sub(3)).sum();
            let x = Cnt(i as i64 * 2 + g.below(2) as i64);
            let b = BoundedCursor::<6>::new_empty();
            let b = p.iter().rev().fold(b, |mut b, c| { b.prepend_to_path(*c); b });
            let mut cost = |k: usize, h: usize, f: &mut dyn FnMut()| {
                let o = idx::cmps();
                f();
                tot[k][h] += idx::cmps() - o;
                of[k] += if h == 0 { saved } else { 0 };
            };
            // the edges of the subtrees by themselves: both ends of a child belong to it
            if i > 0 && paths[i - 1].0.len() < c.0.len() {
                let x = Cnt(i as i64 * 2);
                cost(5, 0, &mut || drop(t.get(x)));
                cost(5, 1, &mut || drop(t.get_with_cursor(b, x)));
            }
            if i + 1 < n && paths[i + 1].0.len() < c.0.len() {
                let x = Cnt(i as i64 * 2 + 1);
                cost(6, 0, &mut || drop(t.get(x)));
                cost(6, 1, &mut || drop(t.get_with_cursor(b, x)));
            }
            cost(0, 0, &mut || drop(t.get(x)));
            cost(0, 1, &mut || drop(t.get_with_cursor(c.clone(), x)));
            cost(1, 0, &mut || drop(t.get(x)));
            cost(1, 1, &mut || drop(t.get_with_cursor(b, x)));
            cost(2, 0, &mut || drop(t.iter(x..).next()));
            cost(2, 1, &mut || drop(t.iter_with_cursor(b, x..).next()));
            if g.chance(1, 64) {
                // (only where the cost of the second search is known: towards the end of the same entry)
                cost(3, 0, &mut || drop(t.iter(..=x).next_back()));
                cost(3, 1, &mut || drop(t.iter_with_cursor(b, ..=x).next_back()));
            }
        }
        // insertions: two equal trees, one of them is given the exact cursor every time
        for i in 0..400 {
            let x = Cnt(g.below(n * 2 + i * 2) as i64);
            let c = twin.cursor_to::<BoundedCursor<6>>(x);
            let id = (n + i) as u32;
            let o = idx::cmps();
            t.insert(x, Sl::new(id, Cnt(0), Cnt(2)), Cnt(2));
            tot[4][0] += idx::cmps() - o;
            let o = idx::cmps();
            twin.insert_with_cursor(c, x, Sl::new(id, Cnt(0), Cnt(2)), Cnt(2));
            tot[4][1] += idx::cmps() - o;
        }
        of[4] = need * 400 / n as u64 * 9 / 10;
        let ops = ["get", "get (BoundedCursor<6>)", "iter().next()", "iter().next_back()", "insert", "get_first in a subtree", "get_last in a subtree"];
        for k in 0..7 {
            let [full, hinted] = tot[k];
            ensure!(hinted + of[k] <= full, "{}: {hinted} index comparisons with the exact cursor, {full} without: nodes are wide at {} levels, so at least {} should be saved ({n} entries, M = {M})", ops[k], paths[0].path().len(), of[k]);
            st.add(&format!("comparisons_saved_{}", ops[k].split(' ').next().unwrap().replace("().", "_").replace("()", "")), full - hinted);
        }
        ensure!(t.iter(..).zip(twin.iter(..)).all(|(a, b)| a.range() == b.range() && a.slice().desc() == b.slice().desc()), "a tree built with exact cursors differs from its twin");
        st.max("max_levels_of_wide_tree", paths[0].path().len() as u64 + 1);
        st.comparisons += n as u64 * 6;
        st.op("levels");
        Outcome { hash: seed, nontrivial: true, stats: st, sample: format!("{n} entries, {} levels", paths[0].path().len() + 1) }
    });
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 30 } else { 1 };
    let pool = harvest();
    r.config("fidelity", 1500 * k, |seed, _, _| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        let mut h = 0;
        macro_rules! f { ($($l:literal),*) => { $( h = mix(h ^ fidelity::<$l>(&pool, &mut g, &mut st)); )* } }
        f!(0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 127, 128, 254, 255);
        st.op("bounded_cursor_fidelity");
        Outcome { hash: h, nontrivial: true, stats: st, sample: "15 lengths, random paths".into() }
    });
    r.config("limits", 1, |_, _, _| {
        ensure!(report::quiet_catch(|| BoundedCursor::<256>::new_empty()).is_err(), "BoundedCursor<256> can be created");
        ensure!(report::quiet_catch(|| BoundedCursor::<1000>::new_empty()).is_err(), "BoundedCursor<1000> can be created");
        let mut n = NoCursor::new_empty();
        n.prepend_to_path(pool[3]);
        ensure!(n.into_path().next().is_none(), "NoCursor yields a component");
        Outcome { hash: 1, nontrivial: false, stats: Default::default(), sample: String::new() }
    });
    let w = Watch { gets: true, ..Watch::default() };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new(n * k, steps, max, w);
        b.full_every = 0;
        b
    };
    hist_with::<usize, KPiece, NoFeatures, 1>(&mut r, "", b(300, 150, 120), after);
    hist_with::<usize, KConst, AllowSliceRefs, 1>(&mut r, "", b(200, 150, 120), after);
    hist_with::<usize, KUniq, AllowCow, 1>(&mut r, "", b(200, 150, 120), after);
    hist_with::<usize, KUniq, NoFeatures, 1>(&mut r, "deep", b(24, 1500, 1500), after);
    hist_with::<usize, KUniq, NoFeatures, 3>(&mut r, "", b(100, 300, 300), after);
    hist_with::<u64, KUniq, AllowCow, 127>(&mut r, "", b(4, 1500, 1500), after);
    levels::<NoFeatures, 127>(&mut r, 40_000, 4 * k);
    levels::<AllowSliceRefs, 64>(&mut r, 15_000, 6 * k);
    levels::<AllowCow, 32>(&mut r, 20_000, 4 * k);
    sav::<NoFeatures, 1>(&mut r, b(40, 300, 300));
    sav::<AllowSliceRefs, 2>(&mut r, b(40, 300, 300));
    sav::<NoFeatures, 4>(&mut r, b(40, 400, 400));
    sav::<AllowCow, 5>(&mut r, b(40, 600, 600));
    sav::<AllowSliceRefs, 5>(&mut r, b(40, 600, 600));
    sav::<NoFeatures, 16>(&mut r, b(24, 900, 900));
    sav::<NoFeatures, 64>(&mut r, b(12, 1500, 1500));
    sav::<NoFeatures, 127>(&mut r, b(12, 2500, 2500));
    r.finish();
}
