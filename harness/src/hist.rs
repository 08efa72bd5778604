//! Glue: run many random histories of one typed configuration under a set of monitors.
use crate::idx::TIdx;
use crate::px::PX;
use crate::report::{Outcome, Runner};
use crate::rng::Rng;
use crate::slices::Kind;
use crate::world::{Cfg, Watch, World};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Parameters of a batch of histories
#[derive(Clone, Copy)]
pub struct Batch {
    pub n: u64,
    pub steps: usize,
    pub max_runs: usize,
    pub max_trees: usize,
    pub full_every: usize,
    pub max_refs: usize,
    /// entries the tree begins with
    pub prefill: usize,
    pub watch: Watch,
    /// also generate the insertions that join both neighbours
    pub edge_both: bool,
    pub patterns: &'static [usize],
    pub joiny: &'static [usize],
}
impl Batch {
    pub fn new(n: u64, steps: usize, max_runs: usize, watch: Watch) -> Batch {
        Batch {
            n,
            steps,
            max_runs,
            max_trees: 1,
            full_every: 50,
            max_refs: 12,
            prefill: 0,
            watch,
            edge_both: false,
            patterns: &[0, 0, 0, 1, 2, 3, 4, 5, 6],
            joiny: &[5, 30, 60, 80],
        }
    }
    pub fn cfg(&self, g: &mut Rng) -> Cfg {
        let max_runs = if g.chance(1, 3) { self.max_runs } else { g.range(2, self.max_runs.max(2)) };
        Cfg {
            steps: self.steps,
            max_runs,
            max_trees: self.max_trees,
            full_every: self.full_every,
            alphabet: *g.pick(&[2, 3, 5, 40]),
            pattern: *g.pick(self.patterns),
            joiny: *g.pick(self.joiny),
            edge_both: self.edge_both,
            max_refs: self.max_refs,
            prefill: if self.prefill > 0 { self.prefill + g.below(self.prefill / 8) } else { 0 },
            watch: self.watch,
        }
    }
}

pub fn name<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(tag: &str) -> String {
    let t = if tag.is_empty() { String::new() } else { format!("{tag}:") };
    format!("{t}{}/{}/{}/M{M}", I::NAME, K::NAME, P::NAME)
}

/// Runs `n` histories; `after` is called on the finished world (still populated)
pub fn hist_with<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(
    r: &mut Runner,
    tag: &str,
    b: Batch,
    mut after: impl FnMut(&mut World<I, K, P, M>),
) {
    let nm = name::<I, K, P, M>(tag);
    r.config(&nm, b.n, |seed, logging, log| {
        let mut g = Rng::new(seed);
        let cfg = b.cfg(&mut g);
        let mut w: World<I, K, P, M> = World::new(seed, cfg);
        w.logging = logging;
        let res = catch_unwind(AssertUnwindSafe(|| {
            w.run();
            after(&mut w);
            w.check_faults();
        }));
        *log = std::mem::take(&mut w.log);
        if let Err(e) = res {
            // whatever state the trees are in, do not let their destructors hide the verdict
            std::mem::forget(w);
            resume_unwind(e);
        }
        let n: usize = w.members.iter().map(|m| m.m.len()).max().unwrap_or(0);
        let sample = format!(
            "pattern {} joiny {} -> {} tree(s), largest {} entries, first inserts hashed {:x}",
            w.cfg.pattern, w.cfg.joiny, w.members.len(), n, w.oplog_hash
        );
        Outcome { hash: w.final_hash(), nontrivial: w.stats.max_runs > 2 * M, stats: std::mem::take(&mut w.stats), sample }
    });
}

pub fn hist<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(r: &mut Runner, b: Batch) {
    hist_with::<I, K, P, M>(r, "", b, |_| ())
}

/// Wide nodes that are full at every level: trees of `n` entries to begin with, then some random steps
pub fn hist_wide<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(r: &mut Runner, histories: u64, entries: usize, watch: Watch) {
    let mut b = Batch::new(histories, 120, entries, watch);
    b.prefill = entries;
    b.full_every = 60;
    b.max_trees = 3;
    b.patterns = &[0, 0, 1, 2, 3, 4];
    hist_with::<I, K, P, M>(r, "wide", b, |_| ());
}
