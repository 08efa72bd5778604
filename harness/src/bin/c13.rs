//! C13: panics injected into every kind of user callback, at every kind of operation.
use monitors::report::{quiet_catch, take_unchecked};
use monitors::*;
use monitors::{cursors::VecCursor, faults::*, idx::*, px::PX, rng::*, slices::*, world::Member};
use sherman::param::*;
use sherman::RleTree;
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// A tree that was hit by a fault: it may answer anything or panic, but must stay memory-safe
struct Suspect<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> {
    t: Option<RleTree<I, Sl<I, K>, P, M>>,
    refs: Vec<P::Ref>,
}

struct F<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> {
    w: World<I, K, P, M>,
    sus: Vec<Suspect<I, K, P, M>>,
    /// references whose tree is gone, perhaps only half destroyed
    orphans: Vec<P::Ref>,
    fresh: u32,
    fired: u64,
    sites: [u64; 8],
    by_op: [u64; 12],
    h: u64,
}

const OPS: [&str; 12] = [
    "insert", "insert_with_cursor", "insert_ref", "get", "iter", "cursor_to", "clone", "drop_tree", "ref_query", "drop_ref", "drop_while_borrowed", "new",
];

impl<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize> F<I, K, P, M> {
    fn verdict(&mut self, what: &str) {
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: {what}: {f}");
        }
        if let Some(u) = take_unchecked() {
            panic!("MONITOR: {what}: reached a condition that is undefined behaviour in release builds: {u}");
        }
    }
    fn note(&mut self, s: impl FnOnce() -> String) {
        if self.w.logging {
            let s = s();
            if std::env::var("MON_VERBOSE").as_deref() == Ok("2") {
                eprintln!("{s}");
            }
            self.w.log.push(s);
        }
    }

    fn choose_site(&mut self, op: usize) -> (Site, u64) {
        let g = &mut self.w.rng;
        let site = match op {
            0..=2 => *g.pick(&[
                Site::SplitBefore, Site::SplitAfter, Site::JoinBefore, Site::JoinBefore, Site::JoinAfter, Site::JoinAfter,
                Site::Index, Site::Index, Site::Index, Site::Cursor, Site::Clone, Site::Clone, Site::Drop,
            ]),
            6 => Site::Clone,
            7 | 9 | 10 => Site::Drop,
            _ => *g.pick(&[Site::Index, Site::Index, Site::Cursor]),
        };
        let wide = g.chance(1, 2);
        let k = match site {
            Site::SplitBefore | Site::SplitAfter => 0,
            Site::JoinBefore | Site::JoinAfter => g.below(2) as u64,
            Site::Index if op <= 2 => g.below(if wide { 140 } else { 30 }) as u64,
            Site::Index => g.below(30) as u64,
            Site::Cursor => g.below(6) as u64,
            Site::Clone if op <= 2 => g.below(2 * M * 3) as u64,
            _ => g.below(if wide { 60 } else { 4 }) as u64,
        };
        (site, k)
    }

    /// Performs one operation on a healthy member while a fault is armed
    fn fault_op(&mut self) {
        let mi = self.w.rng.below(self.w.members.len());
        let op = self.w.rng.weighted(&[40, 20, if P::REFS { 20 } else { 0 }, 5, 8, 5, if P::CLONES { 12 } else { 0 }, 6, if P::REFS { 5 } else { 0 }, if P::REFS { 5 } else { 0 }, if P::REFS { 5 } else { 0 }, 2]);
        let (site, k) = self.choose_site(op);
        self.h = mix(self.h ^ (op as u64) << 32 ^ (site as u64) << 16 ^ k);
        self.note(|| format!("{} on t{mi} with {site:?} #{k} panicking", OPS[op]));
        let gi = self.w.gen_insert(mi);
        let hint = self.w.gen_cursor(mi);
        let pick = self.w.rng.u64();
        self.w.uid += 2;
        let uid = self.w.uid;
        take_unchecked();
        let what = format!("{} with a panic in {site:?} #{k}", OPS[op]);
        idx::set_budget(1_000_000);
        let mut gone = false;
        let res: Result<(), String>;
        match op {
            0 | 1 | 2 => {
                let Some((idx, id, off, size)) = gi else { return };
                let plan = self.w.members[mi].m.plan(idx, id, off, size, uid);
                let result = plan.result;
                let sl = Sl::<I, K>::new(id, off, size);
                let t = &mut self.w.members[mi].t;
                let mut got = None;
                arm(site, k);
                res = quiet_catch(|| match op {
                    0 => t.insert(idx, sl, size),
                    1 => drop(t.insert_with_cursor(hint, idx, sl, size)),
                    _ => got = Some(if pick & 1 == 0 { P::insert_ref(t, Some(hint), idx, sl, size).1 } else { P::insert_ref::<VecCursor>(t, None, idx, sl, size).1 }),
                });
                if res.is_ok() {
                    ensure!(!disarm(), "{what}: the injected panic was swallowed");
                    let m = &mut self.w.members[mi];
                    m.m.commit(plan);
                    let n = m.m.len();
                    if let Some(r) = got {
                        let u = m.m.runs[result].uid;
                        m.refs.push((r, u));
                    }
                    self.w.stats.max_runs = self.w.stats.max_runs.max(n);
                }
            }
            3 | 4 | 5 | 8 => {
                let mem = &self.w.members[mi];
                let n = mem.m.len();
                if n == 0 {
                    return;
                }
                let x = mem.m.starts[(pick % n as u64) as usize];
                arm(site, k);
                res = quiet_catch(|| match op {
                    3 => {
                        if pick & 1 == 0 {
                            mem.t.get(x).slice().tok.check();
                        } else {
                            mem.t.get_with_cursor(hint, x).slice().tok.check();
                        }
                    }
                    4 => {
                        let mut it = mem.t.iter(x..);
                        let mut c = pick;
                        while let Some(e) = if c & 1 == 0 { it.next() } else { it.next_back() } {
                            e.slice().tok.check();
                            c = mix(c);
                        }
                    }
                    5 => drop(mem.t.cursor_to::<VecCursor>(x)),
                    _ => {
                        if let Some((r, _)) = mem.refs.first() {
                            let _ = (P::r_range(r), P::r_cursor(r), P::r_desc(r));
                        }
                    }
                });
                // a read has not touched anything: this tree is still expected to be right
                let f = disarm();
                self.fired += f as u64;
                if f {
                    self.sites[site as usize] += 1;
                    self.by_op[op] += 1;
                }
                idx::clear_budget();
                self.verdict(&what);
                ensure!(f || res.is_ok(), "{what}: panicked although the fault never fired: {:?}", res);
                self.w.check_member(mi);
                return;
            }
            6 => {
                let t = &self.w.members[mi].t;
                let mut out = None;
                arm(site, k);
                res = quiet_catch(|| out = Some(P::clone_tree(t)));
                let f = disarm();
                self.fired += f as u64;
                if f {
                    self.sites[site as usize] += 1;
                    self.by_op[op] += 1;
                }
                idx::clear_budget();
                self.verdict(&what);
                ensure!(f || res.is_ok(), "{what}: panicked although the fault never fired: {:?}", res);
                if let Some(t) = out {
                    if self.w.members.len() < self.w.cfg.max_trees {
                        let m = self.w.members[mi].m.clone();
                        self.w.members.push(Member { t, m, refs: vec![], cursors: vec![], shared: true });
                    }
                }
                self.w.check_member(mi);
                return;
            }
            7 => {
                if self.w.members.len() <= 1 {
                    return;
                }
                let mem = self.w.members.swap_remove(mi);
                self.orphans.extend(mem.refs.into_iter().map(|r| r.0));
                let t = mem.t;
                arm(site, k);
                res = quiet_catch(|| drop(t));
                gone = true;
            }
            9 => {
                let Some((r, _)) = self.w.members[mi].refs.pop() else { return };
                arm(site, k);
                res = quiet_catch(|| drop(r));
            }
            10 => {
                if self.w.members[mi].refs.is_empty() {
                    return;
                }
                let n = self.w.members[mi].m.len();
                let mem = std::mem::replace(
                    &mut self.w.members[mi],
                    Member { t: RleTree::new_empty(), m: model::Model::new(), refs: vec![], cursors: vec![], shared: false },
                );
                let mut t = Some(mem.t);
                let refs: Vec<P::Ref> = mem.refs.into_iter().map(|r| r.0).collect();
                let r = &refs[(pick % refs.len() as u64) as usize];
                arm(site, k % (n as u64 + 1));
                res = quiet_catch(|| {
                    P::r_with_borrow(r, &mut || drop(t.take()));
                });
                self.orphans.extend(refs);
                gone = true;
            }
            _ => {
                let sz = I::gen_size(&mut self.w.rng);
                let sl = Sl::<I, K>::new(1, I::ZERO, sz);
                arm(site, k);
                res = quiet_catch(|| drop(RleTree::<I, Sl<I, K>, P, M>::new(sl, sz)));
                gone = true;
            }
        }
        let f = disarm();
        idx::clear_budget();
        slices::take_events();
        if f {
            self.fired += 1;
            self.sites[site as usize] += 1;
            self.by_op[op] += 1;
        }
        self.verdict(&what);
        if !gone && res.is_err() {
            ensure!(f, "{what}: panicked although the fault never fired: {res:?}");
            let mem = std::mem::replace(
                &mut self.w.members[mi],
                Member { t: RleTree::new_empty(), m: model::Model::new(), refs: vec![], cursors: vec![], shared: false },
            );
            self.sus.push(Suspect { t: Some(mem.t), refs: mem.refs.into_iter().map(|r| r.0).collect() });
        }
    }

    /// One hostile follow-up on a tree (or references) that already saw a fault
    fn probe(&mut self) {
        if self.sus.is_empty() {
            return;
        }
        let si = self.w.rng.below(self.sus.len());
        let op = self.w.rng.weighted(&[20, 15, 15, 25, if P::CLONES { 8 } else { 0 }, 6, if P::REFS { 10 } else { 0 }, if P::REFS { 8 } else { 0 }]);
        let again = self.w.rng.chance(1, 4);
        let (site, k) = self.choose_site(match op { 3 => 0, 4 => 6, 5 => 7, _ => 3 });
        let (r0, size, coin) = (self.w.rng.u64(), I::gen_size(&mut self.w.rng), self.w.rng.u64());
        self.note(|| format!("probe {op} on suspect {si}, second fault: {:?}", again.then_some((site, k))));
        self.fresh += 1;
        let fresh = self.fresh;
        let inside = I::gen_inside(&mut self.w.rng, size);
        let mut ops_ok = 0u64;
        idx::set_budget(2_000_000);
        if again {
            arm(site, k);
        }
        let mut clone = None;
        let mut new_ref = None;
        let mut nrefs = vec![];
        let res = quiet_catch(|| {
            let s = &mut self.sus[si];
            let Some(t) = s.t.as_mut() else { return };
            match op {
                0 => {
                    // whatever is handed out must be live, and nothing twice
                    let mut seen = HashSet::new();
                    let mut it = t.iter(..);
                    let mut c = coin;
                    let mut left = t.number_of_slices() as i64 + 50;
                    while let Some(e) = if c & 1 == 0 { it.next() } else { it.next_back() } {
                        c = c.rotate_right(1);
                        e.slice().tok.check();
                        let _ = (e.range(), e.size());
                        if !seen.insert(e.slice().tok.serial()) && ledger::is_live(e.slice().tok.serial()) {
                            DUP.with(|d| d.set(true));
                        }
                        ops_ok += 1;
                        left -= 1;
                        if left < 0 {
                            break;
                        }
                    }
                }
                1 => {
                    let total = t.size();
                    let x = if total > size { size } else { I::ZERO };
                    let e = t.get(x);
                    e.slice().tok.check();
                    let c: VecCursor = t.cursor_to(x);
                    t.get_with_cursor(c, x).slice().tok.check();
                    ops_ok += 1;
                }
                2 => {
                    let e = t.iter(..).next_back().map(|e| e.range().start);
                    if let Some(x) = e {
                        t.get(x).slice().tok.check();
                    }
                    ops_ok += 1;
                }
                3 => {
                    let total = t.size();
                    let x = match r0 % 4 {
                        0 => I::ZERO,
                        1 => total,
                        _ => match inside {
                            Some(u) if u < total => u,
                            _ => if size < total { size } else { I::ZERO },
                        },
                    };
                    // sometimes joinable with what is there
                    let (mut id, mut off) = (fresh, I::ZERO);
                    if r0 & 16 != 0 && x != I::ZERO {
                        if let Some(e) = t.iter(..x).next_back() {
                            let d = e.slice().desc();
                            id = d.0;
                            off = d.1.add_right(d.2);
                        }
                    }
                    let sl = Sl::new(id, off, size);
                    if P::REFS && r0 & 32 != 0 {
                        new_ref = Some(P::insert_ref::<VecCursor>(t, None, x, sl, size).1);
                    } else {
                        t.insert(x, sl, size);
                    }
                    ops_ok += 1;
                }
                4 => clone = Some(P::clone_tree(t)),
                5 => drop(s.t.take()),
                6 => {
                    for r in &s.refs {
                        if P::r_valid(r) && P::r_can(r) {
                            let _ = (P::r_range(r), P::r_desc(r), P::r_cursor(r), P::r_addr(r));
                            ops_ok += 1;
                        }
                        nrefs.push(P::r_clone(r));
                    }
                }
                _ => {
                    // mutation while borrowed must still be refused, whatever happened before
                    if let Some(r) = s.refs.first() {
                        P::r_with_borrow(r, &mut || {
                            let r = quiet_catch(|| t.insert(I::ZERO, Sl::new(fresh, I::ZERO, size), size));
                            if r.is_ok() {
                                DUP.with(|d| d.set(true));
                            }
                        });
                    }
                }
            }
        });
        let fired = disarm();
        idx::clear_budget();
        slices::take_events();
        ensure!(!DUP.with(|d| d.replace(false)), "after a fault, probe {op} observed a value twice, or an insertion succeeded while borrowed");
        self.verdict(&format!("probe {op} of a tree hit by a fault ({:?})", res.as_ref().err()));
        if let Err(e) = &res {
            ensure!(!e.contains("MONITOR"), "probe {op} of a tree hit by a fault: {e}");
        }
        self.w.stats.add(if res.is_ok() { "probes_answered" } else { "probes_panicked" }, 1);
        if fired {
            self.fired += 1;
            self.w.stats.add("second_faults", 1);
        }
        let s = &mut self.sus[si];
        s.refs.extend(nrefs);
        s.refs.extend(new_ref);
        if s.refs.len() > 30 {
            s.refs.drain(..15);
        }
        if let Some(t) = clone {
            self.sus.push(Suspect { t: Some(t), refs: vec![] });
        }
        if op == 5 || (self.sus[si].t.is_none()) {
            let s = self.sus.swap_remove(si);
            self.orphans.extend(s.refs);
        }
    }

    fn orphan(&mut self) {
        while self.orphans.len() > 12 {
            let k = self.w.rng.below(self.orphans.len());
            let r = self.orphans.swap_remove(k);
            let _ = quiet_catch(|| drop(r));
        }
        for i in 0..self.orphans.len() {
            let _ = quiet_catch(|| {
                let r = &self.orphans[i];
                if P::r_valid(r) && P::r_can(r) {
                    let _ = (P::r_range(r), P::r_desc(r), P::r_addr(r));
                }
                drop(P::r_clone(r));
            });
        }
        self.verdict("queries on references whose tree died in a fault");
    }
}

thread_local! {
    static DUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn go<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(r: &mut Runner, b: Batch) {
    let nm = hist::name::<I, K, P, M>("");
    r.config(&nm, b.n, |seed, logging, log| {
        let mut g = Rng::new(seed);
        let cfg = b.cfg(&mut g);
        let mut w: World<I, K, P, M> = World::new(seed, cfg);
        w.logging = logging;
        let mut f = F { w, sus: vec![], orphans: vec![], fresh: 5000, fired: 0, sites: [0; 8], by_op: [0; 12], h: seed };
        let res = catch_unwind(AssertUnwindSafe(|| {
            for i in 0..b.steps {
                match f.w.rng.below(10) {
                    0..=4 => f.w.step(),
                    5 | 6 if i > b.steps / 5 => f.fault_op(),
                    7 | 8 => f.probe(),
                    9 if P::REFS => f.orphan(),
                    _ => f.w.do_insert(0),
                }
                if f.sus.len() > 5 {
                    let s = f.sus.remove(0);
                    f.orphans.extend(s.refs);
                    let t = s.t;
                    let _ = quiet_catch(|| drop(t));
                    f.verdict("dropping a tree hit by a fault");
                }
                if b.full_every > 0 && i % b.full_every == b.full_every - 1 {
                    f.w.check_all();
                }
            }
            f.w.check_all();
            // everything goes, in a random order, and still nothing is destroyed twice
            while !f.sus.is_empty() {
                let k = f.w.rng.below(f.sus.len());
                let s = f.sus.swap_remove(k);
                if f.w.rng.chance(1, 2) {
                    f.orphans.extend(s.refs);
                } else {
                    let rs = s.refs;
                    let _ = quiet_catch(|| drop(rs));
                }
                let t = s.t;
                let _ = quiet_catch(|| drop(t));
                f.verdict("dropping a tree hit by a fault");
            }
            f.orphan();
            f.w.check_all();
            let o = std::mem::take(&mut f.orphans);
            drop(o);
            while let Some(m) = f.w.members.pop() {
                drop(m);
            }
            f.verdict("final drop");
        }));
        *log = std::mem::take(&mut f.w.log);
        if let Err(e) = res {
            std::mem::forget(f);
            resume_unwind(e);
        }
        let mut st = std::mem::take(&mut f.w.stats);
        st.add("faults_fired", f.fired);
        for (i, s) in SITES.iter().enumerate() {
            if f.sites[i] > 0 {
                st.add(&format!("fired_in_{s:?}"), f.sites[i]);
            }
        }
        for (i, s) in OPS.iter().enumerate() {
            if f.by_op[i] > 0 {
                st.add(&format!("fired_during_{s}"), f.by_op[i]);
            }
        }
        let sample = format!("{} faults fired, largest tree {} entries", f.fired, st.max_runs);
        Outcome { hash: mix(f.h ^ f.w.oplog_hash), nontrivial: f.fired >= 2, stats: st, sample }
    });
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let w = Watch { gets: true, full: true, cursors: true, ..Watch::default() };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new((if cfg!(miri) { n / 150 + 1 } else { n }) * k, if cfg!(miri) { 60 } else { steps }, max, w);
        b.full_every = if cfg!(miri) { 30 } else { 25 };
        b.joiny = &[30, 60, 80, 95];
        b.max_trees = 3;
        if cfg!(miri) {
            b.watch.cursors = false;
        }
        b
    };
    go::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(600, 200, 60));
    go::<Cnt, KConst, NoFeatures, 2>(&mut r, b(600, 200, 80));
    let mut s = b(900, 200, 60);
    s.watch.refs = true;
    go::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, s);
    go::<Cnt, KConst, AllowSliceRefs, 2>(&mut r, s);
    go::<Cnt, KUniq, AllowSliceRefs, 3>(&mut r, s);
    let mut f = b(900, 200, 60);
    f.watch.forks = true;
    f.max_trees = 4;
    go::<Cnt, KPiece, AllowCow, 1>(&mut r, f);
    go::<Cnt, KConst, AllowCow, 2>(&mut r, f);
    go::<Cnt, KUniq, AllowCow, 1>(&mut r, f);
    go::<Cnt, KPieceA64, AllowCow, 3>(&mut r, f);
    go::<Cnt, KPiece, NoFeatures, 2>(&mut r, f);
    r.finish();
}
