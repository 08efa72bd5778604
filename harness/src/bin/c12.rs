//! C12: every value is dropped exactly once, and all memory comes back.
use monitors::*;
use monitors::{idx::*, model::InsKind, px::PX, rng::Rng, slices::*};
use sherman::param::*;
use sherman::RleTree;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const OPS: [&str; 8] = ["insert", "clone", "drop_tree", "make_ref", "clone_ref", "drop_ref", "insert_ref", "full_check"];
const KINDS: [InsKind; 8] = [
    InsKind::Empty, InsKind::EdgeNone, InsKind::EdgeLeft, InsKind::EdgeRight,
    InsKind::MidNone, InsKind::MidLeft, InsKind::MidRight, InsKind::MidBoth,
];

/// What a history saw, in a form that owns no memory
#[derive(Clone, Copy, Default)]
struct Sum {
    ops: [u64; 8],
    kinds: [u64; 8],
    height: usize,
    runs: usize,
    cmps: u64,
    hash: u64,
    values: u64,
    ends: [u64; 3],
    peak: (i64, i64),
}

/// Tears everything down in a random order; returns how
fn teardown<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>, ends: &mut [u64; 3]) {
    while let Some(mut mem) = w.members.pop() {
        let k = w.members.len();
        if k > 0 && w.rng.chance(1, 2) {
            // any order
            let q = w.rng.below(k);
            std::mem::swap(&mut mem, &mut w.members[q]);
        }
        let n = mem.m.len();
        let live = ledger::live();
        let mut refs: Vec<P::Ref> = mem.refs.drain(..).map(|r| r.0).collect();
        for i in (1..refs.len()).rev() {
            refs.swap(i, w.rng.below(i + 1));
        }
        if refs.is_empty() {
            ends[0] += 1;
            drop(mem.t);
            if !P::IS_COW {
                ensure!(ledger::live() + n == live, "dropping a tree of {n} entries destroyed {} values", live - ledger::live());
            }
        } else if w.rng.chance(1, 2) {
            // some references go first, the others outlive the tree
            ends[1] += 1;
            let keep = w.rng.below(refs.len() + 1);
            refs.truncate(keep);
            ensure!(ledger::live() == live, "dropping references changed the number of live values");
            drop(mem.t);
            ensure!(ledger::live() + n == live, "dropping a tree of {n} entries destroyed {} values", live - ledger::live());
        } else {
            // the tree goes while a value is borrowed
            ends[2] += 1;
            let mut t = Some(mem.t);
            let ok = P::r_with_borrow(&refs[0], &mut || {
                drop(t.take());
                ensure!(ledger::live() == live, "dropping a tree while borrowed destroyed {} values", live - ledger::live());
            });
            ensure!(ok, "valid reference could not be borrowed");
            ensure!(ledger::live() + n == live, "releasing the last borrow of a dropped tree of {n} entries destroyed {} values", live - ledger::live());
        }
        drop(refs);
        w.check_faults();
        if !w.members.is_empty() && P::IS_COW {
            w.check_reachable();
        }
    }
    ensure!(ledger::live() == 0, "{} of {} values were never destroyed", ledger::live(), ledger::created());
}

fn go<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(r: &mut Runner, b: Batch) {
    let nm = hist::name::<I, K, P, M>("");
    // one throw-away construction, for whatever is initialised lazily
    drop(RleTree::<I, Sl<I, K>, P, M>::new_empty());
    r.config(&nm, b.n, |seed, logging, log| {
        slices::take_events();
        let net0 = alloc::net();
        let sum = {
            let mut g = Rng::new(seed);
            let mut w: World<I, K, P, M> = World::new(seed, b.cfg(&mut g));
            w.logging = logging;
            let mut sum = Sum::default();
            let res = catch_unwind(AssertUnwindSafe(|| {
                w.run();
                sum.hash = w.final_hash();
                sum.peak = alloc::net();
                sum.peak.0 -= net0.0;
                teardown(&mut w, &mut sum.ends);
            }));
            if let Err(e) = res {
                *log = std::mem::take(&mut w.log);
                std::mem::forget(w);
                resume_unwind(e);
            }
            for (i, o) in OPS.iter().enumerate() {
                sum.ops[i] = w.stats.ops.get(o).copied().unwrap_or(0);
            }
            for (i, o) in KINDS.iter().enumerate() {
                sum.kinds[i] = w.stats.kinds.get(o).copied().unwrap_or(0);
            }
            sum.height = w.stats.max_height;
            sum.runs = w.stats.max_runs;
            sum.cmps = w.stats.comparisons;
            sum.values = ledger::created() as u64;
            if logging {
                *log = std::mem::take(&mut w.log);
            }
            sum
        };
        drop(slices::take_events());
        let net1 = alloc::net();
        if !logging {
            ensure!(
                net1 == net0,
                "{} blocks ({} bytes) are still allocated after everything was dropped (of {} at the end of the history)",
                net1.0 - net0.0, net1.1 - net0.1, sum.peak.0
            );
        }
        let mut st = world::Stats::default();
        for (i, o) in OPS.iter().enumerate() {
            st.ops.insert(o, sum.ops[i]);
        }
        for (i, o) in KINDS.iter().enumerate() {
            st.kinds.insert(*o, sum.kinds[i]);
        }
        st.max_height = sum.height;
        st.max_runs = sum.runs;
        st.comparisons = sum.cmps;
        st.add("values_tracked", sum.values);
        st.add("trees_dropped_plainly", sum.ends[0]);
        st.add("trees_outlived_by_references", sum.ends[1]);
        st.add("trees_dropped_while_borrowed", sum.ends[2]);
        st.max("max_blocks_at_end_of_history", sum.peak.0 as u64);
        Outcome {
            hash: sum.hash,
            nontrivial: sum.runs > 2 * M,
            stats: st,
            sample: format!("{} values created and destroyed, largest tree {} entries, {} blocks at the end, all returned", sum.values, sum.runs, sum.peak.0),
        }
    });
}

// ------------------------------------------------------------------ the other owners go away during a copy

thread_local! {
    static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static OTHERS: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(vec![]) };
}
/// A value in whose n-th clone other trees are dropped
struct Fuse(ledger::Token, u32);
impl Clone for Fuse {
    fn clone(&self) -> Self {
        self.0.check();
        let c = Fuse(ledger::Token::new(), self.1);
        let n = LEFT.with(|l| l.replace(l.get().saturating_sub(1)));
        if n == 1 {
            let o = OTHERS.with(|o| std::mem::take(&mut *o.borrow_mut()));
            drop(o);
        }
        c
    }
}
impl sherman::Slice<usize> for Fuse {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self {
        Fuse(ledger::Token::new(), self.1)
    }
}

/// Copy-on-write copies nodes while they are shared; the last other owner may disappear meanwhile (as
/// another thread's might at any time)
fn fuse<const M: usize>(r: &mut Runner, n: u64, size: usize) {
    type T<const M: usize> = RleTree<usize, Fuse, AllowCow, M>;
    r.config(&format!("owners-leave-during-copy/M{M}"), n, |seed, _, _| {
        let mut g = Rng::new(seed);
        let net0 = alloc::net();
        let (mut h, mut blown, mut rounds, mut most) = (seed, 0, 0, 0);
        {
            let mut t: T<M> = RleTree::new_empty();
            let mut l: Vec<u32> = vec![];
            let put = |g: &mut Rng, t: &mut T<M>, l: &mut Vec<u32>| {
                let x = g.below(l.len() + 1);
                let id = g.u64() as u32;
                t.insert(x, Fuse(ledger::Token::new(), id), 1);
                l.insert(x, id);
            };
            for _ in 0..g.range(1, size) {
                put(&mut g, &mut t, &mut l);
            }
            for _ in 0..g.range(1, 8) {
                rounds += 1;
                let many = g.range(1, 3);
                for _ in 0..many {
                    let mut c = t.clone();
                    let mut cl = l.clone();
                    for _ in 0..g.below(3) {
                        put(&mut g, &mut c, &mut cl);
                    }
                    OTHERS.with(|o| o.borrow_mut().push(Box::new(c)));
                }
                let k = g.range(1, 2 * M + 6) as u64;
                LEFT.with(|c| c.set(k));
                h = rng::mix(h ^ k << 8 ^ many as u64 ^ (l.len() as u64) << 20);
                for _ in 0..g.range(1, 4) {
                    put(&mut g, &mut t, &mut l);
                }
                LEFT.with(|c| c.set(0));
                let o = OTHERS.with(|o| std::mem::take(&mut *o.borrow_mut()));
                blown += o.is_empty() as u64;
                drop(o);
                ensure!(t.iter(..).map(|e| e.slice().1).eq(l.iter().copied()), "the tree's contents differ from the model");
                ensure!(ledger::live() == l.len(), "{} values live for {} entries, when nothing is shared any more", ledger::live(), l.len());
                most = most.max(l.len());
            }
        }
        ensure!(ledger::live() == 0, "{} of {} values were never destroyed", ledger::live(), ledger::created());
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
        let net1 = alloc::net();
        ensure!(net1 == net0, "{} blocks ({} bytes) are still allocated after everything was dropped", net1.0 - net0.0, net1.1 - net0.1);
        let mut st = world::Stats::default();
        st.op("copy_round");
        st.add("copies_during_which_owners_left", blown);
        st.add("copy_rounds", rounds);
        st.max_runs = most;
        st.comparisons = rounds;
        Outcome { hash: h, nontrivial: blown > 0 && most > 2 * M, stats: st, sample: format!("{rounds} rounds, in {blown} the other owners went away during the copy") }
    });
}

/// References come and go on a tree that stays as it is: what they occupy must be reused
fn churn<const M: usize>(r: &mut Runner, n: u64, rounds: usize) {
    type T<const M: usize> = RleTree<usize, Fuse, AllowSliceRefs, M>;
    r.config(&format!("references-come-and-go/M{M}"), n, |seed, _, _| {
        let mut g = Rng::new(seed);
        let net0 = alloc::net();
        let (mut h, mut made, mut most, mut early, mut late) = (seed, 0u64, 0, 0, 0);
        let len = g.range(1, 60);
        {
            let mut t: T<M> = RleTree::new_empty();
            for k in 0..len {
                t.insert(g.below(k + 1), Fuse(ledger::Token::new(), k as u32), 1);
            }
            let mut refs: Vec<sherman::SliceRef<usize, Fuse, M>> = Vec::with_capacity(64);
            let base = alloc::net().1;
            for round in 0..rounds {
                for _ in 0..g.range(1, 40) {
                    if refs.len() >= 30 || g.chance(1, 3) && !refs.is_empty() {
                        refs.swap_remove(g.below(refs.len()));
                        continue;
                    }
                    made += 1;
                    let x = g.below(len);
                    let new: sherman::SliceRef<usize, Fuse, M> = match g.below(4) {
                        0 if !refs.is_empty() => refs[g.below(refs.len())].clone(),
                        1 => {
                            let mut it = t.iter(x..);
                            it.next_back().unwrap().make_ref()
                        }
                        _ => t.get(x).make_ref(),
                    };
                    h = rng::mix(h ^ x as u64);
                    if g.chance(1, 4) {
                        let b = new.borrow_slice();
                        let c = b.clone();
                        drop(b);
                        c.0.check();
                    }
                    refs.push(new);
                }
                if g.chance(1, 8) {
                    refs.clear();
                }
                most = most.max(refs.len());
                let now = alloc::net().1 - base;
                if round < 60 { early = early.max(now) } else { late = late.max(now) }
                ensure!(now <= 2 * early + 1024, "{made} references were made, at most 30 at once: the tree now uses {now} bytes for them, at most {early} during the first 60 rounds");
            }
        }
        ensure!(ledger::live() == 0, "{} of {} values were never destroyed", ledger::live(), ledger::created());
        let net1 = alloc::net();
        ensure!(net1 == net0, "{} blocks ({} bytes) are still allocated after everything was dropped", net1.0 - net0.0, net1.1 - net0.1);
        let mut st = world::Stats::default();
        st.op("references_come_and_go");
        st.add("references_made_in_churn", made);
        st.max("max_bytes_for_references_in_churn", early.max(late) as u64);
        st.comparisons = rounds as u64;
        Outcome { hash: h, nontrivial: most > 5, stats: st, sample: format!("{made} references to {len} entries, at most {most} at once, in at most {} bytes", early.max(late)) }
    });
}

fn main() {
    let mut r = Runner::new();
    // (allocated once, and kept)
    drop(world::pool());
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { hints: true, ledger: true, full: true, ..Watch::default() };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new(if cfg!(miri) { n / 60 + 1 } else { n } * k, if cfg!(miri) { 40 } else { steps }, max, w);
        b.full_every = 40;
        b
    };
    go::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(400, 200, 120));
    go::<usize, KConst, NoFeatures, 2>(&mut r, b(400, 200, 120));
    go::<usize, KPieceA64, NoFeatures, 3>(&mut r, b(200, 300, 200));
    let mut s = b(600, 200, 80);
    s.watch.refs = true;
    s.max_refs = 24;
    go::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, s);
    go::<u32, KConst, AllowSliceRefs, 2>(&mut r, s);
    go::<usize, KUniq, AllowSliceRefs, 1>(&mut r, s);
    go::<u64, KStubborn, AllowSliceRefs, 3>(&mut r, s);
    let mut f = b(600, 200, 80);
    f.watch.forks = true;
    f.max_trees = 4;
    go::<Cnt, KPiece, AllowCow, 1>(&mut r, f);
    go::<usize, KConst, AllowCow, 2>(&mut r, f);
    go::<usize, KUniq, AllowCow, 1>(&mut r, f);
    go::<u64, KPieceA64, AllowCow, 4>(&mut r, f);
    go::<usize, KPiece, NoFeatures, 1>(&mut r, f);
    go::<usize, KUniq, AllowCow, 1>(&mut r, { let mut f = f; f.n /= 10; f.steps = if cfg!(miri) { 60 } else { 1200 }; f.max_runs = 1000; f });
    go::<usize, KUniq, AllowSliceRefs, 2>(&mut r, { let mut s = s; s.n /= 10; s.steps = if cfg!(miri) { 60 } else { 1200 }; s.max_runs = 1000; s.max_refs = 200; s });
    // wide nodes, full at every level
    if !cfg!(miri) {
        let wide = |mut b: Batch, entries| {
            b.n = 2 * k.min(15);
            b.steps = 120;
            b.full_every = 60;
            b.prefill = entries;
            b
        };
        go::<usize, KUniq, NoFeatures, 127>(&mut r, wide(f, 34000));
        go::<u32, KPieceA64, AllowSliceRefs, 64>(&mut r, wide(s, 9200));
        go::<usize, KPiece, AllowCow, 64>(&mut r, wide(f, 9200));
    }
    let n = |n: u64| if cfg!(miri) { n / 60 + 1 } else { n } * k;
    churn::<1>(&mut r, n(60), if cfg!(miri) { 70 } else { 500 });
    churn::<5>(&mut r, n(60), if cfg!(miri) { 70 } else { 500 });
    fuse::<1>(&mut r, n(800), if cfg!(miri) { 14 } else { 40 });
    fuse::<2>(&mut r, n(500), if cfg!(miri) { 20 } else { 80 });
    fuse::<4>(&mut r, n(200), if cfg!(miri) { 30 } else { 160 });
    nested::cyclic::<1>(&mut r, n(600), if cfg!(miri) { 30 } else { 120 });
    nested::cyclic::<3>(&mut r, n(200), if cfg!(miri) { 30 } else { 120 });
    nested::snapshots::<1>(&mut r, n(600), if cfg!(miri) { 30 } else { 120 });
    nested::snapshots::<2>(&mut r, n(400), if cfg!(miri) { 30 } else { 120 });
    shapes::shapes(&mut r, n(60), if cfg!(miri) { 40 } else { 200 }, [true; 3]);
    many::references::<3>(&mut r);
    many::borrows::<2>(&mut r);
    many::clones::<2>(&mut r);
    many::entries::<NoFeatures, 4>(&mut r);
    r.finish();
}
