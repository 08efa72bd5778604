//! The workload driver: random histories over a family of trees, watched by selectable monitors that
//! compare everything observable with the reference model.
use crate::cursors::{parse_shape, Shape, VecCursor};
use crate::idx::{self, TIdx};
use crate::ledger;
use crate::model::{InsKind, Model, Run};
use crate::px::PX;
use crate::rng::{mix, Rng};
use crate::slices::{self, Desc, Ev, Kind, Sl};
use sherman::range::{EndBound, StartBound};
use sherman::{BoundedCursor, Cursor, NoCursor, PathComponent, RleTree};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { panic!("MONITOR: {}", format!($($a)*)); } };
}

/// Which monitors watch the run
#[derive(Clone, Copy, Default, Debug)]
pub struct Watch {
    /// compare get/size/number_of_slices with the model
    pub gets: bool,
    /// compare whole iteration with the model
    pub full: bool,
    /// probe random ranges, both ends, refused ranges
    pub ranges: bool,
    /// split/join protocol
    pub protocol: bool,
    /// shape reconstructed from cursor paths
    pub shape: bool,
    /// index-operation cost per call
    pub cost: bool,
    /// use cursor hints, and check returned cursors
    pub cursors: bool,
    /// use cursor hints in half of the histories, without looking at returned cursors
    pub hints: bool,
    /// keep and check slice references
    pub refs: bool,
    /// fork trees by cloning
    pub forks: bool,
    /// count clones of values
    pub clone_cost: bool,
    /// deep-clone contract (NoFeatures)
    pub deep: bool,
    /// live values == entries
    pub ledger: bool,
    /// refused operations
    pub refused: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub steps: usize,
    pub max_runs: usize,
    pub max_trees: usize,
    pub full_every: usize,
    pub alphabet: u32,
    /// 0 mixed, 1 ascending, 2 descending, 3 hot spot, 4 mid-splits, 5 front half
    pub pattern: usize,
    /// percentage of inserts that try to be joinable
    pub joiny: usize,
    /// allow insertions that join with both neighbours at an edge (unimplemented upstream)
    pub edge_both: bool,
    pub max_refs: usize,
    /// entries the tree begins with (see `prefill`)
    pub prefill: usize,
    pub watch: Watch,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: HashMap<&'static str, u64>,
    pub kinds: HashMap<InsKind, u64>,
    pub max_height: usize,
    pub max_runs: usize,
    pub shapes: HashSet<u64>,
    pub comparisons: u64,
    pub max_cost_ratio: f64,
    pub joins: u64,
    pub splits: u64,
    pub extra: HashMap<String, u64>,
}
impl Stats {
    pub fn op(&mut self, k: &'static str) {
        *self.ops.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.extra.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        for (k, v) in o.extra {
            if k.starts_with("max_") { self.max(&k, v) } else { self.add(&k, v) }
        }
        self.max_height = self.max_height.max(o.max_height);
        self.max_runs = self.max_runs.max(o.max_runs);
        self.shapes.extend(o.shapes);
        self.comparisons += o.comparisons;
        self.max_cost_ratio = self.max_cost_ratio.max(o.max_cost_ratio);
        self.joins += o.joins;
        self.splits += o.splits;
    }
}

/// See `foresee_copies`
pub struct Copies {
    bound: u64,
    addrs: Vec<usize>,
    off_path: Vec<bool>,
    shared_nodes: u64,
}

pub struct Member<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> {
    pub t: RleTree<I, Sl<I, K>, P, M>,
    pub m: Model<I, K>,
    pub refs: Vec<(P::Ref, u64)>,
    pub cursors: Vec<VecCursor>,
    /// whether this tree may share nodes with another (COW)
    pub shared: bool,
}

pub struct World<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> {
    pub cfg: Cfg,
    pub rng: Rng,
    pub members: Vec<Member<I, K, P, M>>,
    pub dead_refs: Vec<P::Ref>,
    pub uid: u64,
    pub fresh: u32,
    pub stats: Stats,
    pub log: Vec<String>,
    pub logging: bool,
    pub pool: Vec<PathComponent>,
    /// whether calls are given cursors
    pub hinting: bool,
    pub last_pos: usize,
    pub oplog_hash: u64,
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<PathComponent>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub fn pool() -> Vec<PathComponent> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            *p = crate::cursors::harvest();
        }
        p.clone()
    })
}

/// Maximum height allowed for `n` entries when every non-root node holds at least `m` of them
pub fn height_bound(n: usize, m: usize) -> usize {
    // minimum entries for height h: 2*(m+1)^h - 1
    let mut h = 0;
    let mut p = (m + 1) as u128;
    while 2 * p - 1 <= n as u128 {
        h += 1;
        p *= (m + 1) as u128;
    }
    h
}

impl<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> World<I, K, P, M> {
    pub fn new(seed: u64, cfg: Cfg) -> Self {
        let mut w = World {
            rng: Rng::new(seed),
            members: vec![],
            dead_refs: vec![],
            uid: 1,
            fresh: 1000,
            stats: Stats::default(),
            log: vec![],
            logging: false,
            pool: if cfg.watch.cursors || cfg.watch.hints { pool() } else { vec![] },
            hinting: cfg.watch.cursors || cfg.watch.hints && mix(seed) % 2 == 0,
            last_pos: 0,
            oplog_hash: seed,
            cfg,
        };
        w.members.push(Member { t: RleTree::new_empty(), m: Model::new(), refs: vec![], cursors: vec![], shared: false });
        w
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            if std::env::var("MON_VERBOSE").as_deref() == Ok("2") {
                eprintln!("{s}");
            }
            self.log.push(s);
        }
    }
    pub fn hash_op(&mut self, a: u64, x: [i64; 3], y: [i64; 3]) {
        let mut h = mix(self.oplog_hash ^ a);
        for v in x.into_iter().chain(y) {
            h = mix(h ^ v as u64);
        }
        self.oplog_hash = h;
    }

    // ------------------------------------------------------------------ generation

    /// Chooses where and what to insert into member `mi`
    pub fn gen_insert(&mut self, mi: usize) -> Option<(I, u32, I, I)> {
        let r = &mut self.rng;
        let m = &self.members[mi].m;
        let n = m.len();
        let size = I::gen_size(r);
        if !I::fits(m.size(), size) {
            return None;
        }
        if n == 0 {
            self.fresh += 1;
            let off = I::small(0);
            return Some((I::ZERO, r.below(self.cfg.alphabet as usize) as u32, off, size));
        }
        let (at, mid) = match self.cfg.pattern {
            1 => (n, false),
            2 => (0, false),
            3 => {
                let lo = self.last_pos.saturating_sub(2).min(n);
                (r.range(lo, (lo + 4).min(n)), r.chance(1, 3))
            }
            4 => (r.below(n), true),
            5 => (r.below(n / 2 + 1), r.chance(1, 4)),
            _ => match r.below(10) {
                0 => (0, false),
                1 => (n, false),
                2 => (n - 1, true),
                3 => (0, true),
                _ => (r.range(0, n), r.chance(1, 2)),
            },
        };
        let mut idx = if at >= n { m.size() } else { m.starts[at] };
        let mut inside = None;
        if mid && at < n {
            if let Some(u) = I::gen_inside(r, m.runs[at].len) {
                idx = m.starts[at].add_right(u);
                inside = Some(u);
            }
        }
        // content
        let joiny = r.below(100) < self.cfg.joiny;
        let (left, right): (Option<Run<I>>, Option<Run<I>>) = match inside {
            Some(u) => {
                let x = m.runs[at];
                let roff = if K::TRACKS_OFF { x.off.add_right(u) } else { I::ZERO };
                (Some(Run { len: u, ..x }), Some(Run { off: roff, len: x.len.sub_left(u), ..x }))
            }
            None => (at.checked_sub(1).map(|i| m.runs[i]), m.runs.get(at).copied()),
        };
        let (mut id, mut off) = (0, I::ZERO);
        let mut chosen = false;
        if joiny {
            let want_left = r.chance(1, 2);
            if K::TRACKS_OFF {
                if want_left {
                    if let Some(l) = left {
                        id = l.id;
                        off = l.off.add_right(l.len);
                        chosen = true;
                    }
                } else if let Some(x) = right {
                    if x.off >= size {
                        id = x.id;
                        off = x.off.sub_right(size);
                        chosen = true;
                    }
                }
            } else if let Some(l) = if want_left { left } else { right } {
                id = l.id;
                chosen = true;
            }
        }
        if !chosen {
            if K::TRACKS_OFF {
                self.fresh += 1;
                id = self.fresh;
                // room to the left, so that something can be prepended later
                off = if I::fits(I::ZERO, I::small(60)) { I::small(r.range(0, 60)) } else { I::ZERO };
            } else {
                id = r.below(self.cfg.alphabet as usize) as u32;
            }
        }
        if !self.cfg.edge_both {
            let p = m.plan(idx, id, off, size, 0);
            if p.kind == InsKind::EdgeBoth {
                self.fresh += 1;
                id = self.fresh;
            }
        }
        Some((idx, id, off, size))
    }

    /// An arbitrary cursor, or one that leads to the entry at `idx`, the one before or the one after it
    pub fn gen_cursor_near(&mut self, mi: usize, idx: I) -> VecCursor {
        let tail = self.rng.below(12);
        crate::cursors::set_tail(match tail {
            0 => crate::cursors::Tail::Endless,
            1 => crate::cursors::Tail::Unfused,
            _ => crate::cursors::Tail::End,
        });
        let m = &self.members[mi];
        if m.m.len() == 0 || self.rng.chance(1, 3) {
            return self.gen_cursor(mi);
        }
        let k = m.m.starts.partition_point(|s| *s <= idx);
        let k = (k + self.rng.below(3)).saturating_sub(2).min(m.m.len() - 1);
        m.t.cursor_to(m.m.starts[k])
    }

    /// An arbitrary cursor: exact, stale, foreign, truncated, extended or nonsense
    pub fn gen_cursor(&mut self, mi: usize) -> VecCursor {
        let mut path: Vec<PathComponent> = match self.rng.below(6) {
            0 => vec![],
            1 | 2 => {
                let k = self.rng.below(self.members.len());
                let cs = &self.members[k].cursors;
                if cs.is_empty() { vec![] } else { cs[self.rng.below(cs.len())].path() }
            }
            3 => {
                let cs = &self.members[mi].cursors;
                if cs.is_empty() { vec![] } else { cs[cs.len() - 1].path() }
            }
            _ if self.pool.is_empty() => vec![],
            _ => {
                let wide = self.rng.chance(1, 3);
                let lim = if wide { self.pool.len() } else { (2 * M + 2).min(self.pool.len()) };
                (0..self.rng.below(8)).map(|_| self.pool[self.rng.below(lim)]).collect()
            }
        };
        match self.rng.below(8) {
            0 => {
                let k = self.rng.below(path.len() + 1);
                path.truncate(k);
            }
            1 if !path.is_empty() && !self.pool.is_empty() => {
                let k = self.rng.below(path.len());
                path[k] = self.pool[self.rng.below(self.pool.len())];
            }
            2 if !self.pool.is_empty() => {
                for _ in 0..self.rng.below(12) {
                    path.push(self.pool[self.rng.below((2 * M + 2).min(self.pool.len()))]);
                }
            }
            3 if !path.is_empty() => {
                path.remove(0);
            }
            _ => (),
        }
        VecCursor::from_root_first(path)
    }

    pub fn bounded<const L: usize>(c: &VecCursor) -> BoundedCursor<L> {
        let mut b = BoundedCursor::<L>::new_empty();
        for x in &c.0 {
            b.prepend_to_path(*x);
        }
        b
    }

    // ------------------------------------------------------------------ operations

    /// One random step
    pub fn step(&mut self) {
        let w = self.cfg.watch;
        let forks = w.forks && P::CLONES;
        let weights = [
            60,                                       // 0 insert
            if forks { 8 } else { 0 },                // 1 clone
            if forks { 5 } else { 0 },                // 2 drop
            if w.gets { 20 } else { 0 },              // 3 get
            if w.ranges { 25 } else { 0 },            // 4 range iteration
            if w.cursors { 20 } else { 0 },           // 5 cursor reads
            if w.refs && P::REFS { 20 } else { 0 },   // 6 refs
            if w.refused { 20 } else { 0 },           // 7 refused
            2,                                        // 8 full check
        ];
        let mi = self.rng.below(self.members.len());
        match self.rng.weighted(&weights) {
            0 => self.do_insert(mi),
            1 => self.do_clone(mi),
            2 => self.do_drop(mi),
            3 => self.do_gets(mi, 3),
            4 => self.do_ranges(mi, 2),
            5 => self.do_cursor_reads(mi),
            6 => self.do_refs(mi),
            7 => self.do_refused(mi),
            _ => self.check_member(mi),
        }
        self.check_faults();
    }

    pub fn check_faults(&mut self) {
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
    }

    /// Begins with a tree of `n` entries, none of which join: wide nodes get full at every level, which
    /// step-by-step histories are too short for. Appended, prepended or inserted in the middle.
    pub fn prefill(&mut self, n: usize) {
        let mode = self.rng.below(5);
        let (mut a, mut c) = match mode {
            0 | 1 => (n, 0),
            2 => (0, 0),
            3 => (0, n / 3),
            _ => (n / 4, n / 4),
        };
        if mode == 1 {
            // the end of the tree, in the middle of a node
            let k = self.rng.below(64);
            a -= k;
            c += k;
        }
        let b = n - a - c;
        self.note(|| format!("t0: append {a}, append {c}, then {b} insertions at the position after the first {a}"));
        self.stats.op("prefill");
        self.stats.max("max_prefilled_entries", n as u64);
        let mut at = I::ZERO;
        let mut runs: [Vec<Run<I>>; 3] = Default::default();
        for k in 0..n {
            let part = if k < a { 0 } else if k < a + c { 2 } else { 1 };
            let len = I::small(1 + (k * 7 + mode) % 3);
            self.fresh += 1;
            self.uid += 2;
            let run = Run { id: self.fresh, off: I::ZERO, len, uid: self.uid };
            let pos = if part == 1 { at } else { self.members[0].t.size() };
            self.members[0].t.insert(pos, Sl::<I, K>::new(run.id, run.off, run.len), run.len);
            if part == 0 {
                at = at.add_right(len);
            }
            runs[part].push(run);
        }
        slices::take_events();
        runs[1].reverse();
        let m = &mut self.members[0].m;
        m.runs = runs.concat();
        m.restart(0);
        self.cfg.max_runs = n + self.cfg.steps;
        self.last_pos = self.rng.below(n);
        self.stats.max_runs = self.stats.max_runs.max(n);
    }

    pub fn run(&mut self) {
        if self.cfg.prefill > 0 {
            self.prefill(self.cfg.prefill);
        }
        let steps = self.cfg.steps;
        for i in 0..steps {
            self.step();
            if self.cfg.full_every > 0 && i % self.cfg.full_every == self.cfg.full_every - 1 {
                self.check_all();
            }
        }
        self.check_all();
    }

    pub fn do_insert(&mut self, mi: usize) {
        if self.members[mi].m.len() >= self.cfg.max_runs {
            return;
        }
        let Some((idx, id, off, size)) = self.gen_insert(mi) else { return };
        self.insert(mi, idx, id, off, size)
    }

    pub fn insert(&mut self, mi: usize, idx: I, id: u32, off: I, size: I) {
        self.stats.op("insert");
        self.note(|| format!("t{mi}.insert(idx={idx:?}, id={id}, off={off:?}, size={size:?})"));
        self.hash_op(mi as u64 + 1, idx.enc(), [size.enc()[0], size.enc()[1], id as i64]);
        let w = self.cfg.watch;
        self.uid += 2;
        let uid = self.uid;
        let plan = self.members[mi].m.plan(idx, id, off, size, uid);
        *self.stats.kinds.entry(plan.kind).or_default() += 1;
        let (first, result) = (plan.first_changed, plan.result);

        let cursor_mode = if self.hinting { self.rng.below(6) } else { 0 };
        let with_ref = w.refs && P::REFS && self.rng.chance(1, 3) && self.members[mi].refs.len() < self.cfg.max_refs;
        let hint = if cursor_mode > 0 { Some(self.gen_cursor_near(mi, idx)) } else { None };
        if let Some(h) = &hint {
            self.note(|| format!("    hint {:?} mode {cursor_mode}", h.path()));
        }
        let copies = if w.clone_cost && P::IS_COW { self.foresee_copies(mi, idx) } else { None };
        let sl = Sl::<I, K>::new(id, off, size);
        slices::take_events();
        let (ops0, clones0, live0) = (idx::ops(), slices::clones(), ledger::live());
        idx::set_budget(4_000_000);
        if plan.kind == InsKind::EdgeBoth {
            crate::report::context(" [inserting a slice that joins both neighbours]");
        }
        let mem = &mut self.members[mi];
        let n_before = mem.m.len();
        let mut got_ref = None;
        let mut got_cursor: Option<VecCursor> = None;
        let mut got_bounded: Option<BoundedCursor<3>> = None;
        if with_ref {
            let (c, r) = match hint {
                Some(h) => P::insert_ref(&mut mem.t, Some(h), idx, sl, size),
                None => P::insert_ref::<VecCursor>(&mut mem.t, None, idx, sl, size),
            };
            got_cursor = c;
            got_ref = Some(r);
        } else {
            match (hint, cursor_mode) {
                // a tree may also begin with its first entry
                (None, _) if n_before == 0 && size > I::ZERO && idx == I::ZERO && self.rng.chance(1, 3) => {
                    self.stats.op("new");
                    mem.t = RleTree::new(sl, size);
                }
                (None, _) => mem.t.insert(idx, sl, size),
                (Some(h), 1) => got_bounded = Some(mem.t.insert_with_cursor(Self::bounded::<3>(&h), idx, sl, size)),
                (Some(_), 2) => {
                    let _: NoCursor = mem.t.insert_with_cursor(NoCursor, idx, sl, size);
                }
                (Some(h), _) => got_cursor = Some(mem.t.insert_with_cursor(h, idx, sl, size)),
            }
        }
        crate::report::context("");
        idx::clear_budget();
        let cost = idx::ops() - ops0;
        let cloned = slices::clones() - clones0;
        let evs = slices::take_events();
        self.last_pos = result;

        // --- monitors on the call itself
        if w.protocol {
            let splits: Vec<_> = evs.iter().filter_map(|e| if let Ev::Split(d, a) = e { Some((*d, *a)) } else { None }).collect();
            let joins: Vec<Ev> = evs.iter().filter(|e| matches!(e, Ev::Join(..))).copied().collect();
            let want: Vec<_> = plan.split.into_iter().collect();
            ensure!(splits == want, "split_at calls {splits:?}, expected {want:?} for insert at {idx:?} size {size:?}");
            ensure!(
                joins == plan.joins[0] || joins == plan.joins[1],
                "try_join calls {joins:?}, expected {:?} or {:?} for {:?} insert at {idx:?}",
                plan.joins[0], plan.joins[1], plan.kind
            );
            self.stats.joins += joins.len() as u64;
            self.stats.splits += splits.len() as u64;
        }
        let was_shared = self.members[mi].shared;
        self.members[mi].m.commit(plan);
        let n_after = self.members[mi].m.len();
        self.stats.max_runs = self.stats.max_runs.max(n_after);
        if w.cost {
            self.check_cost("insert", cost, n_before.max(n_after));
        }
        if w.clone_cost {
            if !P::IS_COW || !was_shared {
                ensure!(cloned == 0, "insert cloned {cloned} values although nothing is shared");
            } else {
                let h = height_bound(n_before.max(1), M) as u64;
                let bound = (h + 1) * 2 * M as u64;
                ensure!(cloned <= bound, "insert cloned {cloned} values; the path holds at most {bound} ({n_before} entries)");
                self.stats.max("max_values_cloned_by_one_insert", cloned);
            }
            if let Some(c) = copies {
                self.check_copies(mi, idx, cloned, n_before, first, c);
            }
        }
        if w.ledger {
            // exactly one more live value per new entry (clones create further ones)
            let want = live0 as i64 + (n_after as i64 - n_before as i64) - 1 + cloned as i64;
            ensure!(ledger::live() as i64 == want, "{} live values after insert, expected {want}", ledger::live());
        }
        // --- the returned cursor and reference
        if w.cursors {
            let mem = &self.members[mi];
            let start = mem.m.starts[result];
            if let Some(c) = &got_cursor {
                let want: VecCursor = mem.t.cursor_to(start);
                ensure!(c.path() == want.path(), "insert_with_cursor returned path {:?}, but cursor_to({start:?}) is {:?}", c.path(), want.path());
                let any: VecCursor = mem.t.cursor_to(idx);
                ensure!(c.path() == any.path(), "insert_with_cursor returned path {:?}, but cursor_to({idx:?}) is {:?}", c.path(), any.path());
            }
            if let Some(b) = got_bounded {
                let want: Vec<_> = mem.t.cursor_to::<BoundedCursor<3>>(idx).into_path().collect();
                let got: Vec<_> = b.into_path().collect();
                ensure!(got == want, "insert_with_cursor returned bounded path {got:?}, but cursor_to({idx:?}) is {want:?}");
            }
        }
        if let Some(c) = got_cursor {
            let cs = &mut self.members[mi].cursors;
            if cs.len() < 8 { cs.push(c) } else { cs[0] = c; cs.rotate_left(1) }
        }
        if let Some(r) = got_ref {
            let uid = self.members[mi].m.runs[result].uid;
            self.members[mi].refs.push((r, uid));
            self.stats.op("insert_ref");
            let k = self.members[mi].refs.len() - 1;
            self.check_ref(mi, k);
        }
        if w.gets {
            self.check_get(mi, idx);
            let mem = &self.members[mi];
            ensure!(mem.t.size() == mem.m.size(), "size() = {:?}, expected {:?}", mem.t.size(), mem.m.size());
            ensure!(mem.t.number_of_slices() == n_after, "number_of_slices() = {}, expected {n_after}", mem.t.number_of_slices());
            for k in [first, result + 1] {
                if k < n_after {
                    let s = self.members[mi].m.starts[k];
                    self.check_get(mi, s);
                }
            }
        }
        if w.refs && P::REFS && !self.members[mi].refs.is_empty() {
            for _ in 0..2 {
                let k = self.rng.below(self.members[mi].refs.len());
                self.check_ref(mi, k);
            }
        }
    }

    /// What an insertion at `idx` may copy: the number of values in those nodes on the path that another tree
    /// also uses, and the addresses of everything that's not on the path.
    fn foresee_copies(&mut self, mi: usize, idx: I) -> Option<Copies> {
        let n = self.members[mi].m.len();
        if n == 0 || n > 400 || !self.rng.chance(1, 3) {
            return None;
        }
        let elsewhere: HashSet<usize> = self
            .members
            .iter()
            .enumerate()
            .filter(|(k, _)| *k != mi)
            .flat_map(|(_, m)| m.t.iter(..).map(|e| e.slice() as *const _ as usize).collect::<Vec<_>>())
            .collect();
        let mem = &self.members[mi];
        let addrs: Vec<usize> = mem.t.iter(..).map(|e| e.slice() as *const _ as usize).collect();
        // entries with the same path live in the same node
        let paths: Vec<Vec<PathComponent>> = mem.m.starts.iter().take(n).map(|x| mem.t.cursor_to::<VecCursor>(*x).path()).collect();
        let mut nodes: HashMap<&[PathComponent], (u64, bool)> = HashMap::new();
        for (p, a) in paths.iter().zip(&addrs) {
            let e = nodes.entry(&p[..]).or_insert((0, false));
            e.0 += 1;
            e.1 |= elsewhere.contains(a);
        }
        let at = if idx >= mem.m.size() { n } else { mem.m.find(idx) };
        // the insertion happens at the entry or in the leaf next to it
        let touched = at.saturating_sub(1)..(at + 2).min(n);
        let longest = touched.clone().map(|k| &paths[k][..]);
        let sum = |p: &[PathComponent]| (0..=p.len()).filter_map(|l| nodes.get(&p[..l])).filter(|x| x.1).map(|x| x.0).sum::<u64>();
        let bound = longest.clone().map(sum).max().unwrap_or(0);
        let off_path: Vec<bool> = paths.iter().map(|p| !longest.clone().any(|l| l.starts_with(p))).collect();
        let shared_nodes = nodes.values().filter(|x| x.1).count() as u64;
        Some(Copies { bound, addrs, off_path, shared_nodes })
    }

    fn check_copies(&mut self, mi: usize, idx: I, cloned: u64, n_before: usize, first: usize, c: Copies) {
        ensure!(
            cloned <= c.bound,
            "insert at {idx:?} cloned {cloned} values; the nodes on the path that are shared hold {} ({n_before} entries)",
            c.bound
        );
        let mem = &self.members[mi];
        let now: Vec<usize> = mem.t.iter(..).map(|e| e.slice() as *const _ as usize).collect();
        let kept = now.iter().copied().collect::<HashSet<_>>();
        let mut off = 0;
        for (k, a) in c.addrs.iter().enumerate() {
            // (what's next to the insertion may be joined with it)
            if c.off_path[k] && (k + 1 < first || k > first + 1) {
                off += 1;
                ensure!(kept.contains(a), "insert at {idx:?} moved entry {k}, which lives in a node that isn't on the path ({n_before} entries)");
            }
        }
        self.stats.comparisons += 1 + off;
        self.stats.add("inserts_with_foreseen_copies", 1);
        self.stats.add("values_allowed_to_be_cloned", c.bound);
        self.stats.add("values_cloned", cloned);
        self.stats.add("entries_off_the_path_kept_in_place", off);
        if c.shared_nodes > 0 {
            self.stats.add("inserts_into_shared_trees", 1);
        }
    }

    /// Cost ceiling for one operation: comparisons and additions per level, times levels
    pub fn check_cost(&mut self, what: &str, cost: u64, n: usize) {
        let levels = height_bound(n.max(1), M) as u64 + 1;
        // about 2.3 times the worst seen on the repaired tree (the worst cases are at M = 1)
        let per_level = (if what == "insert" { 16 } else { 7 }) * (2 * M as u64 + 2);
        let bound = levels * per_level;
        let ratio = cost as f64 / bound as f64;
        self.stats.max_cost_ratio = self.stats.max_cost_ratio.max(ratio);
        self.stats.max(&format!("max_cost_{what}_permille"), (ratio * 1000.0) as u64);
        ensure!(cost <= bound, "{what} took {cost} index operations on {n} entries (M = {M}); bound {bound}");
    }

    pub fn do_clone(&mut self, mi: usize) {
        if self.members.len() >= self.cfg.max_trees {
            return self.do_drop(mi);
        }
        self.stats.op("clone");
        self.hash_op(77, [mi as i64, 0, 0], [0; 3]);
        let nk = self.members.len();
        self.note(|| format!("t{nk} = t{mi}.clone()"));
        let (c0, live0) = (slices::clones(), ledger::live());
        let t = P::clone_tree(&self.members[mi].t);
        let cloned = slices::clones() - c0;
        let n = self.members[mi].m.len();
        if P::IS_COW {
            if self.cfg.watch.clone_cost {
                ensure!(cloned == 0, "cloning a copy-on-write tree cloned {cloned} values");
            }
            self.members[mi].shared = true;
        } else if self.cfg.watch.deep {
            ensure!(cloned as usize == n, "deep clone called Clone {cloned} times for {n} entries");
            ensure!(ledger::live() == live0 + n, "deep clone of {n} entries created {} values", ledger::live() - live0);
        }
        let m = self.members[mi].m.clone();
        let cursors = self.members[mi].cursors.clone();
        self.members.push(Member { t, m, refs: vec![], cursors, shared: P::IS_COW });
        let k = self.members.len() - 1;
        self.check_member(k);
        if self.cfg.watch.deep && !P::IS_COW {
            let (a, b) = (&self.members[mi], &self.members[k]);
            let mut seen = HashSet::new();
            for e in a.t.iter(..) {
                seen.insert(e.slice().tok.serial());
            }
            for e in b.t.iter(..) {
                ensure!(!seen.contains(&e.slice().tok.serial()), "deep clone shares a value with its source");
            }
            let (sa, sb) = (self.shape(mi), self.shape(k));
            ensure!(sa.as_ref().map(|s| s.height) == sb.as_ref().map(|s| s.height), "deep clone has shape {sb:?}, source {sa:?}");
        }
    }

    pub fn do_drop(&mut self, mi: usize) {
        if self.members.len() <= 1 {
            return;
        }
        self.stats.op("drop_tree");
        self.note(|| format!("drop(t{mi})"));
        self.hash_op(78, [mi as i64, 0, 0], [0; 3]);
        let mem = self.members.swap_remove(mi);
        drop(mem);
        self.check_faults();
        if self.members.len() == 1 {
            // sole survivor: nothing it holds can be shared any more
            self.members[0].shared = false;
        }
    }

    // ------------------------------------------------------------------ read monitors

    pub fn expect_entry(&self, mi: usize, k: usize, start: I, end: I, size: I, d: Desc<I>, what: &dyn Debug) {
        let m = &self.members[mi].m;
        let r = &m.runs[k];
        ensure!(
            start == m.starts[k] && end == m.end(k),
            "{what:?}: entry {k} reported range {start:?}..{end:?}, expected {:?}..{:?}", m.starts[k], m.end(k)
        );
        ensure!(size == r.len, "{what:?}: entry {k} reported size {size:?}, expected {:?}", r.len);
        ensure!(d == r.desc(), "{what:?}: entry {k} holds {d:?}, expected {:?}", r.desc());
    }

    pub fn check_get(&mut self, mi: usize, x: I) {
        self.stats.comparisons += 1;
        let k = self.members[mi].m.find(x);
        let ops0 = idx::ops();
        let e = self.members[mi].t.get(x);
        let cost = idx::ops() - ops0;
        self.expect_entry(mi, k, e.range().start, e.range().end, e.size(), e.slice().desc(), &("get", x));
        if self.cfg.watch.cost {
            let n = self.members[mi].m.len();
            self.check_cost("get", cost, n);
        }
    }

    fn gen_pos(&mut self, mi: usize) -> Option<I> {
        let m = &self.members[mi].m;
        if m.is_empty() {
            return None;
        }
        let k = self.rng.below(m.len());
        Some(match I::gen_inside(&mut self.rng, m.runs[k].len) {
            Some(u) if self.rng.chance(2, 3) => m.starts[k].add_right(u),
            _ => m.starts[k],
        })
    }

    pub fn do_gets(&mut self, mi: usize, n: usize) {
        for _ in 0..n {
            if let Some(x) = self.gen_pos(mi) {
                self.stats.op("get");
                self.check_get(mi, x);
            }
        }
    }

    /// Everything the model says about this tree, through `get` alone
    pub fn sweep_gets(&mut self, mi: usize) {
        let n = self.members[mi].m.len();
        for k in 0..n {
            let s = self.members[mi].m.starts[k];
            self.check_get(mi, s);
            let len = self.members[mi].m.runs[k].len;
            if let Some(u) = I::gen_inside(&mut self.rng, len) {
                self.check_get(mi, s.add_right(u));
            }
        }
    }

    /// Whole iteration, forwards and backwards
    pub fn sweep_iter(&mut self, mi: usize) {
        let mem = &self.members[mi];
        let n = mem.m.len();
        let mut k = 0;
        for e in mem.t.iter(..) {
            ensure!(k < n, "iter(..) yields more than {n} entries");
            self.expect_entry(mi, k, e.range().start, e.range().end, e.size(), e.slice().desc(), &"iter(..)");
            k += 1;
        }
        ensure!(k == n, "iter(..) yielded {k} entries, expected {n}");
        let mut k = n;
        for e in mem.t.iter(..).rev() {
            ensure!(k > 0, "iter(..).rev() yields more than {n} entries");
            k -= 1;
            self.expect_entry(mi, k, e.range().start, e.range().end, e.size(), e.slice().desc(), &"iter(..).rev()");
        }
        ensure!(k == 0, "iter(..).rev() stopped {k} entries early");
        self.stats.comparisons += 2 * n as u64;
    }

    pub fn do_ranges(&mut self, mi: usize, n: usize) {
        for _ in 0..n {
            self.stats.op("iter_range");
            let total = self.members[mi].m.size();
            let empty = self.members[mi].m.is_empty();
            let a = self.gen_pos(mi).unwrap_or(I::ZERO);
            let b = self.gen_pos(mi).unwrap_or(I::ZERO);
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            let lo_unb = self.rng.chance(1, 4);
            let start = if lo_unb { StartBound::Unbounded } else { StartBound::Included(lo) };
            let end = match self.rng.below(5) {
                0 => EndBound::Unbounded,
                1 | 2 => EndBound::Included(hi),
                3 => EndBound::Excluded(hi),
                _ => EndBound::Excluded(total),
            };
            self.check_range(mi, start, end, empty);
        }
        if self.rng.chance(1, 3) {
            self.bad_range(mi);
        }
    }

    fn expected_span(&self, mi: usize, start: StartBound<I>, end: EndBound<I>) -> Result<(usize, usize), ()> {
        // Ok((first, one past last)) or Err if the call must panic
        let m = &self.members[mi].m;
        let total = m.size();
        let s = match start {
            StartBound::Included(s) => {
                if s < I::ZERO || s >= total {
                    return Err(());
                }
                s
            }
            StartBound::Unbounded => I::ZERO,
        };
        match end {
            EndBound::Unbounded => {
                if m.is_empty() { Ok((0, 0)) } else { Ok((m.find(s), m.len())) }
            }
            EndBound::Included(e) => {
                if e >= total || (matches!(start, StartBound::Included(_)) && s > e) {
                    return Err(());
                }
                if e < I::ZERO {
                    return Ok((0, 0));
                }
                Ok((m.find(s), m.find(e) + 1))
            }
            EndBound::Excluded(e) => {
                if e > total || (matches!(start, StartBound::Included(_)) && s >= e) {
                    return Err(());
                }
                if e <= I::ZERO {
                    return Ok((0, 0));
                }
                // last run starting before e
                let last = m.starts[..m.len()].partition_point(|x| *x < e);
                Ok((m.find(s), last))
            }
        }
    }

    fn check_range(&mut self, mi: usize, start: StartBound<I>, end: EndBound<I>, _empty: bool) {
        let want = self.expected_span(mi, start, end);
        let range = (start, end);
        let (lo, hi) = match want {
            Err(()) => return self.must_panic_range(mi, start, end),
            Ok(x) => x,
        };
        let mode = self.rng.below(5);
        let coin = self.rng.u64();
        let hint = if self.hinting { Some(self.gen_cursor_near(mi, match start { StartBound::Included(s) => s, StartBound::Unbounded => I::ZERO })) } else { None };
        let cost_on = self.cfg.watch.cost;
        let worst = {
            let t = &self.members[mi].t;
            match hint {
                None => self.drive(mi, t.iter(range), &range, (lo, hi), mode, coin),
                Some(h) => self.drive(mi, t.iter_with_cursor(h, range), &range, (lo, hi), mode, coin),
            }
        };
        self.stats.comparisons += (hi - lo) as u64;
        self.hash_op(5, [lo as i64, hi as i64, mode as i64], [0; 3]);
        if cost_on {
            let n = self.members[mi].m.len();
            self.check_cost("iterator step", worst, n);
        }
    }

    /// Walks over an iterator of entries `lo..hi` in one of several ways; the cost of its worst single step
    fn drive<'t, T>(&self, mi: usize, mut it: T, range: &dyn Debug, (lo, hi): (usize, usize), mode: usize, coin: u64) -> u64
    where
        T: DoubleEndedIterator<Item = sherman::SliceEntry<'t, I, Sl<I, K>, P, M>>,
        P: 't,
    {
        let (mut i, mut j) = (lo, hi);
        let mut step = 0u32;
        let mut worst = 0;
        let same = |k: usize, e: &sherman::SliceEntry<'t, I, Sl<I, K>, P, M>, how: &str| {
            self.expect_entry(mi, k, e.range().start, e.range().end, e.size(), e.slice().desc(), &("iter", range, how));
        };
        // (in the last mode: provided methods of the iterator traits too)
        let adapters = mode == 4;
        loop {
            let c = coin.rotate_left(step * 5);
            let fwd = match mode {
                0 => true,
                1 => false,
                2 => step % 2 == 0,
                _ => (coin.rotate_left(step) & 1) == 1,
            };
            step += 1;
            let (l, u) = it.size_hint();
            ensure!(l <= j - i && u.map_or(true, |u| u >= j - i), "iter({range:?}) has the size hint ({l}, {u:?}) with {} entries to go", j - i);
            if adapters && c & 0b110 == 0 {
                // skip some
                let k = (c >> 3) as usize & 3;
                let e = if fwd { it.nth(k) } else { it.nth_back(k) };
                let how = if fwd { "nth" } else { "nth_back" };
                match e {
                    None => {
                        ensure!(k >= j - i, "iter({range:?}): {how}({k}) is None with {} entries to go", j - i);
                        i = j;
                    }
                    Some(e) => {
                        ensure!(k < j - i, "iter({range:?}): {how}({k}) with {} entries to go yields {:?}", j - i, e.range());
                        same(if fwd { i + k } else { j - 1 - k }, &e, how);
                        if fwd { i += k + 1 } else { j -= k + 1 }
                    }
                }
                continue;
            }
            if adapters && c & 0b11110 == 0b01110 {
                // consume the rest in one go
                let n = j - i;
                match (c >> 5) & 7 {
                    0 => ensure!(it.count() == n, "iter({range:?}): count() is wrong with {n} entries to go"),
                    1 => match it.last() {
                        Some(e) => {
                            ensure!(n > 0, "iter({range:?}): last() of an exhausted iterator is {:?}", e.range());
                            same(j - 1, &e, "last");
                        }
                        None => ensure!(n == 0, "iter({range:?}): last() is None with {n} entries to go"),
                    },
                    2 => {
                        let k = it.fold(i, |k, e| {
                            ensure!(k < j, "iter({range:?}): fold() yields too much");
                            same(k, &e, "fold");
                            k + 1
                        });
                        ensure!(k == j, "iter({range:?}): fold() ended with {} entries not yielded", j - k);
                    }
                    3 => {
                        let k = it.rfold(j, |k, e| {
                            ensure!(k > i, "iter({range:?}): rfold() yields too much");
                            same(k - 1, &e, "rfold");
                            k - 1
                        });
                        ensure!(k == i, "iter({range:?}): rfold() ended with {} entries not yielded", k - i);
                    }
                    4 => {
                        let by = 1 + ((c >> 8) as usize & 3);
                        let mut k = i;
                        for e in it.step_by(by) {
                            ensure!(k < j, "iter({range:?}): step_by({by}) yields too much");
                            same(k, &e, "step_by");
                            k += by;
                        }
                        ensure!(k >= j, "iter({range:?}): step_by({by}) ended at entry {k} of {j}");
                    }
                    5 => {
                        let skip = (c >> 8) as usize & 3;
                        let mut k = j - skip.min(n);
                        for e in it.rev().skip(skip) {
                            ensure!(k > i, "iter({range:?}): rev().skip({skip}) yields too much");
                            same(k - 1, &e, "rev().skip");
                            k -= 1;
                        }
                        ensure!(k == i, "iter({range:?}): rev().skip({skip}) ended with {} entries not yielded", k - i);
                    }
                    6 => {
                        let v: Vec<_> = it.collect();
                        ensure!(v.len() == n, "iter({range:?}): collect() gives {} entries, expected {n}", v.len());
                        for (k, e) in v.iter().enumerate() {
                            same(i + k, e, "collect");
                        }
                    }
                    _ => {
                        // by reference: the rest is still there afterwards
                        let k = ((c >> 8) as usize & 7).min(n);
                        let v: Vec<_> = it.by_ref().take(k).collect();
                        ensure!(v.len() == k, "iter({range:?}): take({k}) gives {} entries", v.len());
                        for (x, e) in v.iter().enumerate() {
                            same(i + x, e, "take");
                        }
                        i += k;
                        if let Some(e) = it.rfind(|_| true) {
                            ensure!(i < j, "iter({range:?}): rfind() yields too much");
                            same(j - 1, &e, "rfind");
                            j -= 1;
                        }
                        ensure!(it.count() == j - i, "iter({range:?}): count() after take() is wrong, {} entries to go", j - i);
                    }
                }
                return worst;
            }
            let ops0 = idx::ops();
            let e = if fwd { it.next() } else { it.next_back() };
            worst = worst.max(idx::ops() - ops0);
            match e {
                None => {
                    ensure!(i == j, "iter({range:?}) ended with {} of {} entries not yielded (mode {mode})", j - i, hi - lo);
                    break;
                }
                Some(e) => {
                    ensure!(i < j, "iter({range:?}) yields more than the {} overlapping entries (mode {mode})", hi - lo);
                    same(if fwd { i } else { j - 1 }, &e, if fwd { "next" } else { "next_back" });
                    if fwd { i += 1 } else { j -= 1 }
                }
            }
        }
        // stays exhausted
        for q in 0..3 {
            let e = if q % 2 == 0 { it.next() } else { it.next_back() };
            ensure!(e.is_none(), "iter({range:?}) yields an entry after it had ended");
        }
        worst
    }

    fn bad_range(&mut self, mi: usize) {
        let total = self.members[mi].m.size();
        let a = self.gen_pos(mi).unwrap_or(I::ZERO);
        let (s, e) = match self.rng.below(7) {
            0 => (StartBound::Included(total), EndBound::Unbounded),
            1 => (StartBound::Unbounded, EndBound::Included(total)),
            2 => (StartBound::Included(a), EndBound::Excluded(a)),
            3 => match I::gen_above(&mut self.rng, total) {
                Some(x) => (StartBound::Unbounded, EndBound::Excluded(x)),
                None => return,
            },
            4 => match I::gen_above(&mut self.rng, a) {
                Some(x) if x < total => (StartBound::Included(x), EndBound::Included(a)),
                _ => return,
            },
            5 => match I::gen_negative(&mut self.rng) {
                Some(x) => (StartBound::Included(x), EndBound::Unbounded),
                None => return,
            },
            _ => match I::gen_above(&mut self.rng, total) {
                Some(x) => (StartBound::Included(x), EndBound::Unbounded),
                None => return,
            },
        };
        if self.expected_span(mi, s, e).is_err() {
            self.must_panic_range(mi, s, e);
        }
    }

    fn must_panic_range(&mut self, mi: usize, s: StartBound<I>, e: EndBound<I>) {
        self.stats.op("iter_refused");
        let t = &self.members[mi].t;
        let r = crate::report::quiet_catch(|| {
            let _ = t.iter((s, e));
        });
        ensure!(r.is_err(), "iter({s:?}, {e:?}) on a tree of size {:?} did not panic", self.members[mi].m.size());
    }

    /// Reads with arbitrary cursors, and agreement of all cursor sources
    pub fn do_cursor_reads(&mut self, mi: usize) {
        for _ in 0..3 {
            let Some(x) = self.gen_pos(mi) else { return };
            self.stats.op("get_with_cursor");
            let k = self.members[mi].m.find(x);
            let h = self.gen_cursor(mi);
            self.note(|| format!("t{mi}.get_with_cursor({:?}, {x:?})", h.path()));
            let mem = &self.members[mi];
            let e = match self.rng.below(3) {
                0 => mem.t.get_with_cursor(Self::bounded::<2>(&h), x),
                1 => mem.t.get_with_cursor(Self::bounded::<8>(&h), x),
                _ => mem.t.get_with_cursor(h, x),
            };
            self.expect_entry(mi, k, e.range().start, e.range().end, e.size(), e.slice().desc(), &("get_with_cursor", x));
            let c: VecCursor = mem.t.cursor_to(x);
            let c2: VecCursor = mem.t.cursor_to(mem.m.starts[k]);
            ensure!(c == c2, "cursor_to({x:?}) = {:?} but cursor_to of the start of the same entry = {:?}", c.path(), c2.path());
            if let Some(ec) = P::entry_cursor::<VecCursor>(&e) {
                ensure!(ec == c, "SliceEntry::cursor = {:?} but cursor_to({x:?}) = {:?}", ec.path(), c.path());
            }
            let e2 = mem.t.get_with_cursor(c.clone(), x);
            self.expect_entry(mi, k, e2.range().start, e2.range().end, e2.size(), e2.slice().desc(), &("get with exact cursor", x));
            self.stats.comparisons += 4;
            let cs = &mut self.members[mi].cursors;
            if cs.len() < 8 { cs.push(c) } else { let q = self.rng.below(8); cs[q] = c; }
        }
        if self.rng.chance(1, 4) {
            self.do_ranges(mi, 1);
        }
    }

    pub fn shape(&self, mi: usize) -> Result<Shape, String> {
        let mem = &self.members[mi];
        if mem.m.is_empty() {
            return Ok(Shape::default());
        }
        let paths: Vec<_> = (0..mem.m.len()).map(|k| mem.t.cursor_to::<VecCursor>(mem.m.starts[k]).path()).collect();
        parse_shape(&paths)
    }

    pub fn check_shape(&mut self, mi: usize, strict: bool) {
        let n = self.members[mi].m.len();
        match self.shape(mi) {
            Err(e) => panic!("MONITOR: paths reported by cursor_to describe no tree: {e}"),
            Ok(s) => {
                self.stats.max_height = self.stats.max_height.max(s.height);
                if s.height > 0 {
                    self.stats.shapes.insert(mix(s.hash ^ M as u64));
                }
                if strict {
                    let b = height_bound(n.max(1), M);
                    ensure!(s.height <= b, "height {} for {n} entries (M = {M}); logarithmic bound {b}", s.height);
                }
            }
        }
    }

    // ------------------------------------------------------------------ references

    pub fn check_ref(&mut self, mi: usize, k: usize) {
        self.stats.comparisons += 1;
        let mem = &self.members[mi];
        let (r, uid) = &mem.refs[k];
        let pos = mem.m.runs.iter().position(|x| x.uid == *uid);
        let Some(p) = pos else { panic!("MONITOR: model lost run {uid}") };
        ensure!(P::r_valid(r), "reference to entry {p} is no longer valid");
        ensure!(P::r_can(r), "reference to entry {p} cannot be borrowed");
        let range = P::r_range(r);
        let want = mem.m.starts[p]..mem.m.end(p);
        ensure!(range == Some(want.clone()), "reference to entry {p} reports range {range:?}, expected {want:?}");
        let d = P::r_desc(r);
        ensure!(d == Some(mem.m.runs[p].desc()), "reference to entry {p} borrows {d:?}, expected {:?}", mem.m.runs[p].desc());
        let addr = P::r_addr(r);
        let e = mem.t.get(mem.m.starts[p]);
        ensure!(addr == Some(e.slice() as *const _ as usize), "reference to entry {p} borrows a different object than get() returns");
        if self.cfg.watch.cursors {
            let a = P::r_cursor(r);
            let b: VecCursor = mem.t.cursor_to(mem.m.starts[p]);
            ensure!(a.as_ref() == Some(&b), "SliceRef::cursor = {a:?}, cursor_to = {b:?}");
        }
    }

    pub fn do_refs(&mut self, mi: usize) {
        match self.rng.below(6) {
            0 | 1 => {
                if self.members[mi].m.is_empty() || self.members[mi].refs.len() >= self.cfg.max_refs {
                    return;
                }
                self.stats.op("make_ref");
                let k = self.rng.below(self.members[mi].m.len());
                let mem = &mut self.members[mi];
                let e = mem.t.get(mem.m.starts[k]);
                let r = P::make_ref(&e);
                mem.refs.push((r, mem.m.runs[k].uid));
                self.note(|| format!("t{mi} make_ref(entry {k})"));
                let k = self.members[mi].refs.len() - 1;
                self.check_ref(mi, k);
            }
            2 => {
                let n = self.members[mi].refs.len();
                if n == 0 || n >= self.cfg.max_refs {
                    return;
                }
                self.stats.op("clone_ref");
                let k = self.rng.below(n);
                let r = P::r_clone(&self.members[mi].refs[k].0);
                let u = self.members[mi].refs[k].1;
                self.members[mi].refs.push((r, u));
                self.check_ref(mi, n);
            }
            3 => {
                let n = self.members[mi].refs.len();
                if n > 0 {
                    self.stats.op("drop_ref");
                    let k = self.rng.below(n);
                    drop(self.members[mi].refs.swap_remove(k));
                }
            }
            _ => {
                let n = self.members[mi].refs.len();
                if n > 0 {
                    let k = self.rng.below(n);
                    self.check_ref(mi, k);
                }
            }
        }
    }

    // ------------------------------------------------------------------ refused operations

    pub fn do_refused(&mut self, mi: usize) {
        self.stats.op("refused");
        let total = self.members[mi].m.size();
        let what = self.rng.below(7);
        let live0 = ledger::live();
        self.note(|| format!("refused op kind {what} on t{mi}"));
        // indexes below zero: refused by reads; `insert` documents only the upper bound
        let bad_idx = match self.rng.below(3) {
            0 if what != 0 => I::gen_negative(&mut self.rng),
            _ => I::gen_above(&mut self.rng, total),
        };
        let good = self.gen_pos(mi).unwrap_or(I::ZERO);
        let np = I::gen_nonpositive(&mut self.rng);
        let size = I::gen_size(&mut self.rng);
        let mem = &mut self.members[mi];
        let res = match what {
            0 => {
                let Some(b) = bad_idx else { return };
                let t = &mut mem.t;
                crate::report::quiet_catch(|| t.insert(b, Sl::new(5, I::ZERO, size), size))
            }
            1 => {
                let t = &mut mem.t;
                crate::report::quiet_catch(|| t.insert(good, Sl::new(5, I::ZERO, np), np))
            }
            2 => {
                let t = &mem.t;
                let b = match bad_idx {
                    Some(b) if self.rng.chance(1, 2) => b,
                    _ => total,
                };
                crate::report::quiet_catch(|| {
                    let _ = t.get(b);
                })
            }
            3 => {
                let t = &mem.t;
                let b = bad_idx.unwrap_or(total);
                crate::report::quiet_catch(|| {
                    let _ = t.cursor_to::<VecCursor>(b);
                })
            }
            4 => crate::report::quiet_catch(|| {
                let _ = RleTree::<I, Sl<I, K>, P, M>::new(Sl::new(1, I::ZERO, np), np);
            }),
            5 => {
                let t = &mem.t;
                let b = bad_idx.unwrap_or(total);
                crate::report::quiet_catch(|| {
                    let _ = t.get_with_cursor(BoundedCursor::<4>::new_empty(), b);
                })
            }
            _ => {
                // insertion while borrowed
                if !P::REFS || mem.refs.is_empty() {
                    return;
                }
                let k = self.rng.below(mem.refs.len());
                let (t, r) = (&mut mem.t, &mem.refs[k].0);
                let mut out = Ok(());
                let ok = P::r_with_borrow(r, &mut || {
                    out = crate::report::quiet_catch(|| t.insert(good, Sl::new(5, I::ZERO, size), size));
                });
                ensure!(ok, "valid reference could not be borrowed");
                self.stats.op("refused_while_borrowed");
                out
            }
        };
        ensure!(res.is_err(), "operation that must be refused (kind {what}) did not panic; size {total:?}, bad index {bad_idx:?}, size arg {np:?}");
        slices::take_events();
        ensure!(ledger::live() == live0, "a refused operation (kind {what}) changed the number of live values from {live0} to {}", ledger::live());
        self.check_member(mi);
        // and the tree still works
        if self.rng.chance(1, 2) {
            self.do_insert(mi);
        }
    }

    // ------------------------------------------------------------------ full checks

    pub fn check_member(&mut self, mi: usize) {
        self.stats.op("full_check");
        let w = self.cfg.watch;
        let mem = &self.members[mi];
        let n = mem.m.len();
        if w.gets || w.full || w.refused || w.forks {
            ensure!(mem.t.size() == mem.m.size(), "size() = {:?}, expected {:?}", mem.t.size(), mem.m.size());
            ensure!(mem.t.number_of_slices() == n, "number_of_slices() = {}, expected {n}", mem.t.number_of_slices());
        }
        if w.cost {
            let o = idx::ops();
            let _ = (mem.t.size(), mem.t.number_of_slices());
            ensure!(idx::ops() - o <= 8, "size() and number_of_slices() used {} index operations", idx::ops() - o);
        }
        if w.gets || w.refused {
            self.sweep_gets(mi);
        }
        if w.full {
            self.sweep_iter(mi);
        }
        if w.shape {
            self.check_shape(mi, true);
        } else if w.cursors {
            self.check_shape(mi, false);
        }
        if w.refs && P::REFS {
            for k in 0..self.members[mi].refs.len() {
                self.check_ref(mi, k);
            }
            // distinct entries, distinct objects
            let mut seen: HashMap<usize, u64> = HashMap::new();
            for (r, u) in &self.members[mi].refs {
                if let Some(a) = P::r_addr(r) {
                    let o = *seen.entry(a).or_insert(*u);
                    ensure!(o == *u, "references to different entries alias the same object");
                }
            }
        }
        if w.ledger && (!P::IS_COW || self.members.iter().all(|m| !m.shared)) {
            let want: usize = self.members.iter().map(|m| m.m.len()).sum();
            ensure!(ledger::live() == want, "{} live values, but the trees hold {want} entries", ledger::live());
        }
        if self.cfg.watch.cost && !w.gets {
            self.do_gets(mi, 4);
            for _ in 0..4 {
                let Some(x) = self.gen_pos(mi) else { break };
                let o = idx::ops();
                let c: VecCursor = self.members[mi].t.cursor_to(x);
                let cost = idx::ops() - o;
                self.check_cost("cursor_to", cost, n);
                let o = idx::ops();
                let _ = self.members[mi].t.get_with_cursor(c, x);
                let cost = idx::ops() - o;
                self.check_cost("get_with_cursor", cost, n);
            }
        }
    }

    pub fn check_all(&mut self) {
        for mi in 0..self.members.len() {
            self.check_member(mi);
        }
        if self.cfg.watch.ledger && P::IS_COW {
            self.check_reachable();
        }
        self.check_faults();
    }

    /// Every live value is reachable from some tree (nothing lost while the trees live)
    pub fn check_reachable(&mut self) {
        let mut seen = HashSet::new();
        for m in &self.members {
            for e in m.t.iter(..) {
                e.slice().tok.check();
                seen.insert(e.slice().tok.serial());
            }
        }
        self.stats.comparisons += 1;
        ensure!(seen.len() == ledger::live(), "{} live values, but only {} are reachable from the {} trees", ledger::live(), seen.len(), self.members.len());
    }

    pub fn final_hash(&self) -> u64 {
        self.members.iter().fold(self.oplog_hash, |h, m| mix(h ^ m.m.hash()))
    }
}
