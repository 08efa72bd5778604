//! C11: concurrent copy-on-write and shared reads. Run under ThreadSanitizer, Miri and natively.
//! Nothing the harness does between the threads synchronises them (only relaxed atomics), so every
//! happens-before edge a detector sees comes from the tree itself (or from spawn/join/channels where
//! a tree is handed over).
use monitors::*;
use monitors::{idx::TIdx, model::*, rng::*, slices::*};
use sherman::param::*;
use sherman::{RleTree, Slice};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- values with a global ledger

const CAP: usize = 1 << 17;
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static FAULT: AtomicU32 = AtomicU32::new(0);
static TICK: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static NOISE: RefCell<Rng> = RefCell::new(Rng::new(7));
    static NOISY: Cell<usize> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
}

/// Injected delay: user callbacks stall at random, which moves the other threads relative to this one
fn delay() {
    let n = NOISY.with(|n| n.get());
    if n == 0 {
        return;
    }
    NOISE.with(|r| {
        let mut r = r.borrow_mut();
        match r.below(n) {
            0 => std::thread::yield_now(),
            1 => (0..r.below(if cfg!(miri) { 3 } else { 400 })).for_each(|_| std::hint::spin_loop()),
            _ => (),
        }
    })
}

struct Val {
    id: u32,
    off: usize,
    len: usize,
    /// plain heap memory: its last read and its deallocation must be ordered
    tok: Box<(u64, usize)>,
}
const CANARY: u64 = 0x5EED_CAFE_F00D_D00D;
impl Val {
    fn new(id: u32, off: usize, len: usize) -> Val {
        let s = NEXT.fetch_add(1, Relaxed) % CAP;
        if STATE[s].swap(1, Relaxed) == 1 {
            FAULT.store(3, Relaxed);
        }
        Val { id, off, len, tok: Box::new((CANARY, s)) }
    }
    fn desc(&self) -> Desc<usize> {
        if self.tok.0 != CANARY {
            FAULT.store(4, Relaxed);
        } else if STATE[self.tok.1].load(Relaxed) != 1 {
            FAULT.store(2, Relaxed);
        }
        (self.id, self.off, self.len)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        delay();
        if self.tok.0 != CANARY {
            FAULT.store(4, Relaxed);
        } else if STATE[self.tok.1].swap(2, Relaxed) != 1 {
            FAULT.store(1, Relaxed);
        }
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        delay();
        CLONES.with(|c| c.set(c.get() + 1));
        let (a, b, c) = self.desc();
        Val::new(a, b, c)
    }
}
impl Slice<usize> for Val {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, i: usize) -> Val {
        delay();
        self.desc();
        let r = Val::new(self.id, self.off + i, self.len - i);
        self.len = i;
        r
    }
    fn try_join(mut self, o: Val) -> Result<Val, (Val, Val)> {
        delay();
        if KPiece::joins(self.desc(), o.desc()) {
            self.len += o.len;
            Ok(self)
        } else {
            Err((self, o))
        }
    }
}

// ---------------------------------------------------------------- one participant

type Mo = Model<usize, KPiece>;
type Tree<P, const M: usize> = RleTree<usize, Val, P, M>;

fn gen(g: &mut Rng, m: &Mo, fresh: &mut u32) -> (usize, u32, usize, usize) {
    let n = m.len();
    let size = usize::gen_size(g);
    let (mut idx, mut left) = (0, None);
    if n > 0 {
        let at = g.range(0, n);
        idx = if at == n { m.size() } else { m.starts[at] };
        left = at.checked_sub(1).map(|k| m.runs[k]);
        if at < n && g.chance(1, 2) {
            if let Some(u) = usize::gen_inside(g, m.runs[at].len) {
                idx += u;
                left = Some(Run { len: u, ..m.runs[at] });
            }
        }
    }
    *fresh += 1;
    let (mut id, mut off) = (*fresh, g.below(50));
    if let (Some(l), true) = (left, g.chance(1, 4)) {
        (id, off) = (l.id, l.off + l.len);
    }
    if m.plan(idx, id, off, size, 0).kind == InsKind::EdgeBoth {
        (id, off) = (*fresh, 0);
    }
    (idx, id, off, size)
}

fn insert<P: RleTreeConfig<usize, Val, M> + SupportsInsert<usize, Val, M>, const M: usize>(g: &mut Rng, t: &mut Tree<P, M>, m: &mut Mo, fresh: &mut u32) {
    let (idx, id, off, size) = gen(g, m, fresh);
    let p = m.plan(idx, id, off, size, 0);
    t.insert(idx, Val::new(id, off, size), size);
    m.commit(p);
}

fn check<P: RleTreeConfig<usize, Val, M>, const M: usize>(t: &Tree<P, M>, m: &Mo, who: &str) {
    ensure!(t.size() == m.size() && t.number_of_slices() == m.len(), "{who}: size {} / {} slices, its own history gives {} / {}", t.size(), t.number_of_slices(), m.size(), m.len());
    let mut k = 0;
    for e in t.iter(..) {
        ensure!(k < m.len() && e.range() == (m.starts[k]..m.end(k)) && e.slice().desc() == m.runs[k].desc(), "{who}: entry {k} = {:?} {:?}, its own history gives {:?}", e.range(), e.slice().desc(), m.runs.get(k));
        k += 1;
    }
    ensure!(k == m.len(), "{who}: entries are missing");
}
fn peek<P: RleTreeConfig<usize, Val, M>, const M: usize>(g: &mut Rng, t: &Tree<P, M>, m: &Mo, who: &str) {
    if m.is_empty() {
        return;
    }
    let x = g.below(m.size());
    let k = m.find(x);
    let e = t.get(x);
    ensure!(e.range() == (m.starts[k]..m.end(k)) && e.slice().desc() == m.runs[k].desc(), "{who}: get({x}) = {:?} {:?}, its own history gives {:?}", e.range(), e.slice().desc(), m.runs[k]);
    let lo = x.saturating_sub(20);
    let mut it = t.iter(lo..=x);
    let last = it.next_back().expect("empty iteration");
    ensure!(last.range().start == m.starts[k], "{who}: iteration over {lo}..={x} ends with {:?}", last.range());
}

/// One participant's own operations, on its own clone
struct Party<const M: usize> {
    g: Rng,
    t: Vec<(Tree<AllowCow, M>, Mo)>,
    fresh: u32,
    ticks: Vec<usize>,
    ops: [u64; 5],
    name: String,
}
impl<const M: usize> Party<M> {
    fn tick(&mut self) {
        self.ticks.push(TICK.fetch_add(1, Relaxed));
    }
    fn run(&mut self, steps: usize, cap: usize) {
        for _ in 0..steps {
            self.tick();
            if self.t.is_empty() {
                return;
            }
            let k = self.g.below(self.t.len());
            let op = self.g.weighted(&[50, 12, 10, 20, 6]);
            self.ops[op] += 1;
            match op {
                0 => {
                    let (t, m) = &mut self.t[k];
                    if m.len() < cap {
                        insert(&mut self.g, t, m, &mut self.fresh)
                    }
                }
                1 => {
                    if self.t.len() < 3 {
                        let c = (self.t[k].0.clone(), self.t[k].1.clone());
                        self.t.push(c);
                    }
                }
                2 => {
                    if self.t.len() > 1 {
                        drop(self.t.swap_remove(k));
                    }
                }
                3 => peek(&mut self.g, &self.t[k].0, &self.t[k].1, &self.name),
                _ => check(&self.t[k].0, &self.t[k].1, &self.name),
            }
        }
        for (t, m) in &self.t {
            check(t, m, &self.name);
        }
        self.tick();
    }
}

fn base<const M: usize, P: RleTreeConfig<usize, Val, M> + SupportsInsert<usize, Val, M>>(g: &mut Rng, n: usize) -> (Tree<P, M>, Mo, u32) {
    let (mut t, mut m, mut fresh) = (RleTree::new_empty(), Mo::new(), 0);
    for _ in 0..n {
        insert(g, &mut t, &mut m, &mut fresh);
    }
    (t, m, fresh)
}

fn interleaving(parts: &[Vec<usize>]) -> u64 {
    let mut all: Vec<(usize, usize)> = parts.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |t| (*t, i))).collect();
    all.sort();
    all.iter().fold(1, |h, (_, i)| mix(h ^ *i as u64))
}
fn switches(parts: &[Vec<usize>]) -> u64 {
    let mut all: Vec<(usize, usize)> = parts.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |t| (*t, i))).collect();
    all.sort();
    all.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64
}

fn start(noisy: usize, seed: u64) {
    NOISY.with(|n| n.set(noisy));
    NOISE.with(|r| *r.borrow_mut() = Rng::new(seed));
}

fn history<const M: usize>(seed: u64, small: bool) -> Outcome {
    FAULT.store(0, Relaxed);
    NEXT.store(0, Relaxed);
    for s in STATE.iter().take(if small { 4096 } else { CAP }) {
        s.store(0, Relaxed);
    }
    let mut g = Rng::new(seed);
    let mut st = world::Stats::default();
    let threads = if small { g.range(2, 3) } else { g.range(2, 6) };
    let steps = if small { g.range(3, 10) } else { g.range(10, 80) };
    let n = if small { g.range(1, 12) } else { g.range(1, 150) };
    let noisy = *g.pick(&[0, 2, 6, 30]);
    let scenario = g.below(if small { 5 } else { 6 });
    start(0, seed);
    let mut parts: Vec<Vec<usize>> = vec![];
    let mut ops = [0u64; 5];
    let cap = n + 60;
    let mut sample = String::new();
    match scenario {
        // every thread owns a clone; they mutate, clone and drop at will
        0 | 1 => {
            let (t, m, fresh) = base::<M, AllowCow>(&mut g, n);
            let mut owner = Some(t);
            let mut ps: Vec<Party<M>> = (0..threads)
                .map(|i| {
                    let t = if i + 1 == threads && scenario == 1 { owner.take().unwrap() } else { owner.as_ref().unwrap().clone() };
                    Party { g: Rng::new(g.u64()), t: vec![(t, m.clone())], fresh: fresh + 1000 * (i as u32 + 1), ticks: vec![], ops: [0; 5], name: format!("thread {i}") }
                })
                .collect();
            let res: Vec<std::thread::Result<Party<M>>> = std::thread::scope(|s| {
                let hs: Vec<_> = ps
                    .drain(..)
                    .map(|mut p| {
                        s.spawn(move || {
                            start(noisy, p.g.u64());
                            p.run(steps, cap);
                            // half of the parties drop their trees on their own thread, racing
                            if p.g.chance(1, 2) {
                                p.t.clear();
                            }
                            p
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for r in res {
                match r {
                    Err(e) => {
                        std::mem::forget(owner);
                        std::panic::resume_unwind(e)
                    }
                    Ok(p) => {
                        for (t, m) in &p.t {
                            check(t, m, &p.name);
                        }
                        for k in 0..5 {
                            ops[k] += p.ops[k];
                        }
                        parts.push(p.ticks.clone());
                    }
                }
            }
            if let Some(t) = &owner {
                check(t, &m, "the original, untouched");
            }
        }
        // one tree shared by reference: read, clone, mutate the clone, drop
        2 => {
            let (t, m, fresh) = base::<M, AllowCow>(&mut g, n);
            let seeds: Vec<u64> = (0..threads).map(|_| g.u64()).collect();
            let res: Vec<std::thread::Result<Vec<usize>>> = std::thread::scope(|s| {
                let (t, m) = (&t, &m);
                let hs: Vec<_> = seeds
                    .iter()
                    .enumerate()
                    .map(|(i, sd)| {
                        let sd = *sd;
                        s.spawn(move || {
                            start(noisy, sd);
                            let mut g = Rng::new(sd);
                            let mut ticks = vec![];
                            for _ in 0..steps / 4 + 1 {
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                peek(&mut g, t, m, &format!("reader {i}"));
                                if g.chance(1, 3) {
                                    check(t, m, &format!("reader {i}"));
                                }
                                let (mut c, mut cm, mut f) = (t.clone(), m.clone(), fresh + 1000 * (i as u32 + 1));
                                for _ in 0..g.below(4) {
                                    insert(&mut g, &mut c, &mut cm, &mut f);
                                }
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                check(&c, &cm, &format!("clone of reader {i}"));
                            }
                            ticks
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for r in res {
                parts.push(r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
            }
            ops[3] += (threads * steps / 4) as u64;
            check(&t, &m, "the shared tree");
            let (mut t, mut m, mut f) = (t, m, fresh);
            insert(&mut g, &mut t, &mut m, &mut f);
            check(&t, &m, "the formerly shared tree");
        }
        // racing drops of the last owners
        3 => {
            let rounds = if small { 1 } else { 12 };
            for _ in 0..rounds {
                let (t, m, _) = base::<M, AllowCow>(&mut g, n.min(40));
                let mut clones: Vec<_> = (1..threads).map(|_| t.clone()).collect();
                clones.push(t);
                let seeds: Vec<u64> = (0..threads).map(|_| g.u64()).collect();
                let m = &m;
                let res: Vec<std::thread::Result<Vec<usize>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = clones
                        .into_iter()
                        .zip(seeds)
                        .map(|(mut t, sd)| {
                            s.spawn(move || {
                                start(noisy, sd);
                                let mut g = Rng::new(sd);
                                let mut ticks = vec![TICK.fetch_add(1, Relaxed)];
                                match g.below(3) {
                                    0 => check(&t, m, "last owners"),
                                    1 => {
                                        let (mut mm, mut f) = (m.clone(), 9000);
                                        insert(&mut g, &mut t, &mut mm, &mut f);
                                        check(&t, &mm, "last owners");
                                    }
                                    _ => (),
                                }
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                drop(t);
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                ticks
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join()).collect()
                });
                for r in res {
                    parts.push(r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
                }
                ops[2] += threads as u64;
            }
        }
        // trees handed from thread to thread through a channel
        4 => {
            let (t, m, fresh) = base::<M, AllowCow>(&mut g, n);
            let (tx, rx) = std::sync::mpsc::channel::<(Tree<AllowCow, M>, Mo, u32)>();
            let rx2 = std::sync::Mutex::new(rx);
            let seeds: Vec<u64> = (0..threads).map(|_| g.u64()).collect();
            let items = if small { 2 } else { 12 };
            for i in 0..items {
                tx.send((t.clone(), m.clone(), fresh + 1000 * i)).unwrap();
            }
            let res: Vec<std::thread::Result<Vec<usize>>> = std::thread::scope(|s| {
                let hs: Vec<_> = seeds
                    .into_iter()
                    .map(|sd| {
                        let (tx, rx) = (tx.clone(), &rx2);
                        s.spawn(move || {
                            start(noisy, sd);
                            let mut g = Rng::new(sd);
                            let mut ticks = vec![];
                            for _ in 0..steps / 4 + 1 {
                                let got = rx.lock().unwrap().try_recv();
                                let Ok((mut t, mut m, mut f)) = got else { break };
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                insert(&mut g, &mut t, &mut m, &mut f);
                                if g.chance(1, 3) {
                                    check(&t, &m, "a received tree");
                                }
                                if g.chance(2, 3) {
                                    let k = t.clone();
                                    insert(&mut g, &mut t, &mut m.clone(), &mut f);
                                    tx.send((k, m, f)).unwrap();
                                }
                                ticks.push(TICK.fetch_add(1, Relaxed));
                            }
                            ticks
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for r in res {
                parts.push(r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
            }
            drop(tx);
            let rx = rx2.into_inner().unwrap();
            while let Ok((t, m, _)) = rx.try_recv() {
                check(&t, &m, "a tree left in the channel");
            }
            check(&t, &m, "the sender's tree");
            ops[0] += items as u64;
        }
        // plain trees shared by reference: concurrent reads and deep clones
        _ => {
            let (t, m, _) = base::<M, NoFeatures>(&mut g, n);
            let seeds: Vec<u64> = (0..threads).map(|_| g.u64()).collect();
            let res: Vec<std::thread::Result<Vec<usize>>> = std::thread::scope(|s| {
                let (t, m) = (&t, &m);
                let hs: Vec<_> = seeds
                    .into_iter()
                    .map(|sd| {
                        s.spawn(move || {
                            start(noisy, sd);
                            let mut g = Rng::new(sd);
                            let mut ticks = vec![];
                            for _ in 0..steps / 4 + 1 {
                                ticks.push(TICK.fetch_add(1, Relaxed));
                                peek(&mut g, t, m, "reader of a plain tree");
                                if g.chance(1, 4) {
                                    let c = t.clone();
                                    check(&c, m, "deep clone");
                                }
                            }
                            ticks
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for r in res {
                parts.push(r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
            }
            ops[3] += (threads * steps / 4) as u64;
        }
    }
    sample += &format!("scenario {scenario}, {threads} threads, {n} initial inserts, {} thread switches observed", switches(&parts));
    // everything is gone: every value must have been destroyed exactly once
    let created = NEXT.load(Relaxed);
    ensure!(created <= CAP, "workload too big for the ledger");
    let mut alive = 0;
    for s in STATE.iter().take(created) {
        match s.load(Relaxed) {
            1 => alive += 1,
            2 => (),
            x => panic!("MONITOR: ledger corrupt ({x})"),
        }
    }
    match FAULT.load(Relaxed) {
        0 => (),
        1 => panic!("MONITOR: a value was destroyed twice"),
        2 => panic!("MONITOR: a value was read after it had been destroyed"),
        4 => panic!("MONITOR: a corrupt value was read or destroyed"),
        _ => panic!("MONITOR: ledger serial reused"),
    }
    ensure!(alive == 0, "{alive} of {created} values were never destroyed");
    let il = interleaving(&parts);
    st.add("thread_switches_observed", switches(&parts));
    st.add("threads_started", parts.len() as u64);
    st.add("values_tracked", created as u64);
    for (k, n) in ["insert", "clone", "drop", "peek", "check"].iter().zip(ops) {
        *st.ops.entry(*k).or_default() += n;
    }
    st.comparisons += created as u64;
    Outcome { hash: mix(il ^ seed), nontrivial: switches(&parts) > parts.len() as u64, stats: st, sample }
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    let small = cfg!(miri) || r.a.extra.iter().any(|x| x == "small");
    if small {
        r.config("small/M1", 16 * k, |s, _, _| history::<1>(s, true));
        r.config("small/M2", 8 * k, |s, _, _| history::<2>(s, true));
    } else {
        r.config("M1", 500 * k, |s, _, _| history::<1>(s, false));
        r.config("M2", 400 * k, |s, _, _| history::<2>(s, false));
        r.config("M5", 200 * k, |s, _, _| history::<5>(s, false));
    }
    r.finish();
}
