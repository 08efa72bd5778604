//! C15: ordinary use, with everything the API hands out held across everything it permits meanwhile.
//! The verdict is the interpreter's or sanitizer's; the model checks run along.
use monitors::*;
use monitors::{cursors::VecCursor, idx::*, px::PX, slices::*};
use sherman::param::*;
use sherman::range::{EndBound, StartBound};
use sherman::{Borrow, BoundedCursor, Constant, Cursor, NoCursor, RleTree, Slice, SliceEntry, SliceRef};

/// Entries, iterators and cursors alive at the same time, read in every order
fn held<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(w: &mut World<I, K, P, M>) {
    for mi in 0..w.members.len() {
        let n = w.members[mi].m.len();
        if n == 0 {
            continue;
        }
        w.stats.op("held_bundle");
        let mut rng = w.rng.clone();
        w.rng.u64();
        let mem = &w.members[mi];
        let (t, m) = (&mem.t, &mem.m);
        let mut its = vec![];
        let mut entries: Vec<(SliceEntry<'_, I, Sl<I, K>, P, M>, usize)> = vec![];
        let mut refs: Vec<(P::Ref, usize)> = vec![];
        let mut clones = vec![];
        for _ in 0..10 {
            match rng.below(9) {
                0 if its.len() < 3 => {
                    let a = rng.below(n);
                    its.push((t.iter((StartBound::Included(m.starts[a]), EndBound::Unbounded)), a, n));
                }
                1 if its.len() < 3 => {
                    let c: VecCursor = t.cursor_to(m.starts[rng.below(n)]);
                    let mut it = its.pop();
                    if let Some((i, a, b)) = &mut it {
                        if *a < *b {
                            entries.push((i.next().unwrap(), *a));
                            *a += 1;
                        }
                    }
                    its.extend(it);
                    let e = t.get_with_cursor(c, m.starts[0]);
                    entries.push((e, 0));
                }
                2 | 3 => {
                    if !its.is_empty() {
                        let q = rng.below(its.len());
                        let (it, a, b) = &mut its[q];
                        if a < b {
                            if rng.chance(1, 2) {
                                entries.push((it.next().unwrap(), *a));
                                *a += 1;
                            } else {
                                *b -= 1;
                                entries.push((it.next_back().unwrap(), *b));
                            }
                        }
                    }
                }
                4 => {
                    let k = rng.below(n);
                    entries.push((t.get(m.starts[k]), k));
                }
                5 if P::REFS => {
                    let k = rng.below(n);
                    let e = t.get(m.starts[k]);
                    refs.push((P::make_ref(&e), k));
                    if rng.chance(1, 2) {
                        let r = P::r_clone(&refs[0].0);
                        let k = refs[0].1;
                        refs.push((r, k));
                    }
                }
                6 if P::CLONES && clones.len() < 2 => clones.push(P::clone_tree(t)),
                7 => {
                    if let Some((e, k)) = entries.last() {
                        if let Some(c) = P::entry_cursor::<VecCursor>(e) {
                            let e2 = t.get_with_cursor(c, m.starts[*k]);
                            ensure!(std::ptr::eq(e.slice(), e2.slice()), "two entries for the same position are different objects");
                        }
                    }
                }
                _ => {
                    // everything read again, newest or oldest first
                    let f = |e: &SliceEntry<'_, I, Sl<I, K>, P, M>, k: usize| {
                        ensure!(e.range().start == m.starts[k] && e.range().end == m.end(k) && e.slice().desc() == m.runs[k].desc(), "held entry {k} changed");
                    };
                    entries.iter().for_each(|(e, k)| f(e, *k));
                    entries.iter().rev().for_each(|(e, k)| f(&e.clone(), *k));
                    for (r, k) in &refs {
                        ensure!(P::r_range(r) == Some(m.starts[*k]..m.end(*k)) && P::r_desc(r) == Some(m.runs[*k].desc()), "held reference {k} changed");
                        P::r_with_borrow(r, &mut || entries.iter().for_each(|(e, k)| f(e, *k)));
                    }
                }
            }
        }
        if rng.chance(1, 2) {
            drop(clones);
            drop(its);
        } else {
            drop(its);
            if let Some(c) = clones.pop() {
                let e: Vec<_> = c.iter(..).map(|e| e.slice().desc()).collect();
                ensure!(e.len() == n, "clone has {} entries, expected {n}", e.len());
            }
        }
        for (e, k) in entries {
            let s = e.slice();
            ensure!(s.desc() == m.runs[k].desc(), "held entry {k} changed");
        }
        w.stats.comparisons += n as u64;
    }
}

fn go<I: TIdx, K: Kind, P: PX<I, K, M>, const M: usize>(r: &mut Runner, mut b: Batch) {
    let miri = cfg!(miri);
    b.watch = Watch { gets: !miri, full: true, ranges: true, cursors: true, refs: P::REFS, forks: P::CLONES, ledger: true, refused: !miri, ..Watch::default() };
    b.max_trees = if P::CLONES { 3 } else { 1 };
    hist_with::<I, K, P, M>(r, "", b, |w| {
        for _ in 0..3 {
            held(w);
            let mi = w.rng.below(w.members.len());
            for _ in 0..4 {
                w.do_insert(mi);
            }
        }
    });
}

// ------------------------------------------------------------------ borrows, by value, in every order

fn borrows<const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    type S = Sl<u32, KPiece>;
    r.config(&format!("borrows/M{M}"), n, |seed, _, _| {
        let mut g = rng::Rng::new(seed);
        let mut st = world::Stats::default();
        let mut h = seed;
        {
            let mut t: Option<RleTree<u32, S, AllowSliceRefs, M>> = Some(RleTree::new_empty());
            let mut refs: Vec<(SliceRef<u32, S, M>, u32)> = vec![];
            let count = g.range(1, 6 * M + 4);
            for i in 0..count {
                let tr = t.as_mut().unwrap();
                let at = 2 * g.below(tr.size() as usize / 2 + 1) as u32;
                let id = 1000 + i as u32;
                if g.chance(1, 2) {
                    refs.push((tr.insert_ref(at, S::new(id, 0, 2), 2), id));
                } else {
                    tr.insert(at, S::new(id, 0, 2), 2);
                }
            }
            let live = ledger::live();
            {
                enum B<'a> {
                    Whole(Borrow<'a, S>),
                    Id(Borrow<'a, u32>),
                }
                let mut held: Vec<(B, u32)> = vec![];
                for _ in 0..steps {
                    let k = g.below(10);
                    h = rng::mix(h ^ k as u64);
                    match k {
                        0..=3 if !refs.is_empty() => {
                            let (r, id) = &refs[g.below(refs.len())];
                            if t.is_some() {
                                st.op("borrow");
                                held.push((B::Whole(r.borrow_slice()), *id));
                            } else {
                                ensure!(!r.can_borrow() && r.try_borrow_slice().is_none() && !r.is_valid(), "a reference into a dropped tree can be borrowed");
                            }
                        }
                        4 if !held.is_empty() => {
                            let q = g.below(held.len());
                            let (b, id) = held.swap_remove(q);
                            st.op("map");
                            held.push((match b { B::Whole(b) => B::Id(Borrow::map(b, |s| &s.id)), b => b }, id));
                        }
                        5 if !held.is_empty() && held.len() < 20 => {
                            let (b, id) = &held[g.below(held.len())];
                            st.op("clone_borrow");
                            let c = match b { B::Whole(b) => B::Whole(b.clone()), B::Id(b) => B::Id(b.clone()) };
                            let id = *id;
                            held.push((c, id));
                        }
                        6 if !held.is_empty() => {
                            st.op("release");
                            let q = g.below(held.len());
                            drop(held.swap_remove(q));
                        }
                        7 if g.chance(1, 4) && t.is_some() => {
                            st.op("drop_tree");
                            let none = held.is_empty();
                            drop(t.take());
                            ensure!(ledger::live() == if none { 0 } else { live }, "{} values after dropping the tree with {} borrows", ledger::live(), held.len());
                        }
                        8 => {
                            if let Some(t) = &t {
                                let seen: Vec<u32> = t.iter(..).map(|e| e.slice().id).collect();
                                ensure!(seen.len() == count, "tree changed while borrowed");
                            }
                        }
                        _ => {
                            for (b, id) in &held {
                                let got = match b { B::Whole(b) => { b.desc(); b.id } B::Id(b) => **b };
                                ensure!(got == *id, "borrowed value changed from {id} to {got}");
                                st.comparisons += 1;
                            }
                        }
                    }
                    if t.is_none() {
                        ensure!(ledger::live() == if held.is_empty() { 0 } else { live }, "{} of {live} values live with {} borrows after dropping the tree", ledger::live(), held.len());
                    }
                }
                while !held.is_empty() {
                    let q = g.below(held.len());
                    drop(held.swap_remove(q));
                }
            }
            if let Some(t) = &mut t {
                // usable again
                t.insert(0, S::new(1, 0, 1), 1);
                ensure!(t.number_of_slices() == count + 1, "insertion after the last borrow");
            }
            if g.chance(1, 2) {
                drop(refs);
                drop(t);
            } else {
                drop(t);
                drop(refs);
            }
        }
        ensure!(ledger::live() == 0, "{} values never destroyed", ledger::live());
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
        Outcome { hash: h, nontrivial: true, stats: st, sample: format!("borrow history {h:x}") }
    });
}

// ------------------------------------------------------------------ unusual layouts

/// Zero-sized value that joins with everything
#[derive(Clone, Copy, Debug, PartialEq)]
struct Zst;
impl Slice<u64> for Zst {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u64) -> Self {
        Zst
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Err((self, o))
    }
}
/// Large, heap-owning value
#[derive(Clone, Debug, PartialEq)]
struct Fat([u64; 40], String, Box<u32>);
impl Slice<u64> for Fat {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, x: u64) -> Self {
        let mut r = self.clone();
        r.1.push_str(&x.to_string());
        r
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Err((self, o))
    }
}
/// Over-aligned zero-sized value
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(128))]
struct Az;
impl Slice<u64> for Az {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u64) -> Self {
        Az
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        Err((self, o))
    }
}

fn layout<S, P, const M: usize>(r: &mut Runner, name: &str, n: u64, size: usize, mk: fn(u64) -> S)
where
    S: Slice<u64> + Clone + PartialEq + std::fmt::Debug + 'static,
    P: RleTreeConfig<u64, S, M> + SupportsInsert<u64, S, M>,
{
    r.config(&format!("layout:{name}/M{M}"), n, |seed, _, _| {
        let mut g = rng::Rng::new(seed);
        let mut st = world::Stats::default();
        let mut ends: Vec<u64> = vec![];
        let mut t: RleTree<u64, S, P, M> = if g.chance(1, 2) {
            ends.push(3);
            RleTree::new(mk(0), 3)
        } else {
            RleTree::new_empty()
        };
        let mut h = seed;
        for i in 0..g.range(1, size) {
            let total = ends.last().copied().unwrap_or(0);
            let x = match g.below(4) {
                0 => total,
                1 => 0,
                _ => g.below(total as usize + 1) as u64,
            };
            let s = g.range(1, 9) as u64;
            h = rng::mix(h ^ x << 8 ^ s);
            let (k, cut) = match ends.iter().position(|e| *e > x) {
                Some(k) => (k, x != if k == 0 { 0 } else { ends[k - 1] }),
                None => (ends.len(), false),
            };
            if g.chance(1, 3) {
                let c: BoundedCursor<4> = t.insert_with_cursor(BoundedCursor::new_empty(), x, mk(i as u64), s);
                drop(c);
            } else if g.chance(1, 2) {
                let _: NoCursor = t.insert_with_cursor(NoCursor, x, mk(i as u64), s);
            } else {
                t.insert(x, mk(i as u64), s);
            }
            ends.iter_mut().skip(k).for_each(|e| *e += s);
            ends.insert(k, x + s);
            if cut {
                ends.insert(k, x);
            }
            if S::MAY_JOIN || i % 16 == 0 {
                st.op("layout_insert");
            }
        }
        let joins_possible = name.starts_with("constant");
        let got: Vec<u64> = t.iter(..).map(|e| e.range().end).collect();
        let back: Vec<u64> = t.iter(..).rev().map(|e| e.range().end).collect();
        ensure!(back.iter().rev().eq(got.iter()), "backward iteration differs from forward iteration");
        ensure!(joins_possible || got == ends, "entries end at {got:?}, expected {ends:?}");
        ensure!(t.size() == ends.last().copied().unwrap_or(0) && t.number_of_slices() == got.len(), "size or number_of_slices");
        for e in t.iter(..) {
            let a = e.slice() as *const S as usize;
            ensure!(a % std::mem::align_of::<S>() == 0, "value at misaligned address {a:#x}");
            let _ = e.slice().clone();
        }
        st.comparisons += got.len() as u64;
        st.max("max_layout_entries", got.len() as u64);
        Outcome { hash: h, nontrivial: got.len() > 2 * M, stats: st, sample: format!("{name}: {} entries", got.len()) }
    });
}

// ------------------------------------------------------------------ many short-lived clones

/// Never joins; light enough for long histories under the interpreter
#[derive(Clone, Debug, PartialEq)]
struct Light(u32);
impl Slice<usize> for Light {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self {
        Light(self.0)
    }
}

/// A family of copy-on-write trees, cloned and dropped all the time, so that nodes are freed and their
/// addresses reused while other trees still share what was below them
fn family<const M: usize>(r: &mut Runner, n: u64, start: usize, rounds: usize) {
    type T<const M: usize> = RleTree<usize, Light, AllowCow, M>;
    fn insert<const M: usize>(g: &mut rng::Rng, (t, l): &mut (T<M>, Vec<(usize, u32)>), id: u32) {
        let x = g.below(t.size() + 1);
        let s = g.range(1, 2);
        if g.chance(1, 4) {
            let c: VecCursor = if x < t.size() { t.cursor_to(x) } else { VecCursor::new_empty() };
            let _ = t.insert_with_cursor(c, x, Light(id), s);
        } else {
            t.insert(x, Light(id), s);
        }
        let (mut at, mut k) = (0, 0);
        while k < l.len() && at + l[k].0 <= x {
            at += l[k].0;
            k += 1;
        }
        if at < x {
            let right = (at + l[k].0 - x, l[k].1);
            l[k].0 = x - at;
            l.insert(k + 1, right);
            k += 1;
        }
        l.insert(k, (s, id));
    }
    fn check<const M: usize>(g: &mut rng::Rng, (t, l): &(T<M>, Vec<(usize, u32)>), st: &mut world::Stats) {
        ensure!(t.number_of_slices() == l.len() && t.size() == l.iter().map(|x| x.0).sum(), "size or number_of_slices");
        let mut it = t.iter(..);
        let (mut a, mut b) = (0, l.len());
        let style = g.below(3);
        while a < b {
            let fwd = style == 0 || style == 2 && g.chance(1, 2);
            let (e, k) = if fwd { a += 1; (it.next(), a - 1) } else { b -= 1; (it.next_back(), b) };
            let e = e.expect("MONITOR: iteration ended early");
            ensure!((e.size(), e.slice().0) == l[k], "entry {k} is {:?}, expected {:?}", (e.range(), e.slice()), l[k]);
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "iteration goes on");
        if !l.is_empty() {
            let x = g.below(t.size());
            let c: VecCursor = t.cursor_to(x);
            let (e, f) = (t.get_with_cursor(c.clone(), x), t.get(x));
            ensure!(std::ptr::eq(e.slice(), f.slice()) && e.range() == f.range(), "get and get_with_cursor disagree");
            ensure!(t.iter_with_cursor(c, x..).next().map(|e| e.range()) == Some(f.range()), "iter_with_cursor({x}..)");
        }
        st.comparisons += l.len() as u64;
    }
    r.config(&format!("family/M{M}"), n, |seed, _, _| {
        let mut g = rng::Rng::new(seed);
        let mut st = world::Stats::default();
        let mut h = seed;
        let mut id = 0;
        let mut f: Vec<(T<M>, Vec<(usize, u32)>)> = vec![(RleTree::new_empty(), vec![])];
        for _ in 0..g.range(start / 2, start) {
            insert(&mut g, &mut f[0], id);
            id += 1;
        }
        for _ in 0..rounds {
            let k = g.below(f.len());
            let many = g.range(1, 6);
            h = rng::mix(h ^ k as u64 ^ (many as u64) << 8 ^ (f.len() as u64) << 16);
            match g.below(6) {
                // a snapshot and its entries, held while the original is changed
                0..=2 => {
                    st.op("snapshot_held");
                    let snap = (f[k].0.clone(), f[k].1.clone());
                    if g.chance(1, 2) {
                        check(&mut g, &snap, &mut st);
                    }
                    let held: Vec<_> = if g.chance(1, 2) { snap.0.iter(..).map(|e| e.slice()).collect() } else { vec![] };
                    for _ in 0..many {
                        insert(&mut g, &mut f[k], id);
                        id += 1;
                    }
                    ensure!(held.iter().zip(&snap.1).all(|(a, b)| a.0 == b.1), "a held slice changed");
                    check(&mut g, &snap, &mut st);
                }
                3 if f.len() < 3 => {
                    st.op("fork");
                    let c = (f[k].0.clone(), f[k].1.clone());
                    f.push(c);
                }
                4 if f.len() > 1 => {
                    st.op("drop_member");
                    drop(f.swap_remove(k));
                }
                _ => {
                    st.op("insert_round");
                    for _ in 0..many {
                        insert(&mut g, &mut f[k], id);
                        id += 1;
                    }
                }
            }
            let k = g.below(f.len());
            check(&mut g, &f[k], &mut st);
        }
        while !f.is_empty() {
            let k = g.below(f.len());
            drop(f.swap_remove(k));
            for m in &f {
                check(&mut g, m, &mut st);
            }
        }
        st.max("max_inserted", id as u64);
        Outcome { hash: h, nontrivial: id as usize > 2 * M, stats: st, sample: format!("family of {id} insertions") }
    });
}

fn main() {
    let mut r = Runner::new();
    let miri = cfg!(miri);
    let k = if r.a.thorough() { 20 } else { 1 };
    let b = |n: u64, steps, max| {
        let mut b = Batch::new(if miri { 2 } else { n } * k, if miri { 25 } else { steps }, if miri { 40 } else { max }, Watch::default());
        b.full_every = if miri { 15 } else { 50 };
        b
    };
    go::<Cnt, KPiece, NoFeatures, 1>(&mut r, b(200, 150, 100));
    go::<Cnt, KPiece, AllowCow, 1>(&mut r, b(200, 150, 100));
    go::<Cnt, KPiece, AllowSliceRefs, 1>(&mut r, b(200, 150, 100));
    go::<usize, KConst, AllowCow, 2>(&mut r, b(200, 150, 100));
    go::<u8, KConst, AllowSliceRefs, 2>(&mut r, b(200, 150, 100));
    go::<u128, KUniq, NoFeatures, 3>(&mut r, b(100, 200, 150));
    go::<u64, KPieceA64, AllowCow, 1>(&mut r, b(100, 150, 100));
    go::<u32, KPieceA64, AllowSliceRefs, 1>(&mut r, b(100, 150, 100));
    go::<Heis, KPiece, NoFeatures, 1>(&mut r, b(100, 150, 100));
    if !miri {
        go::<usize, KUniq, NoFeatures, 5>(&mut r, b(60, 400, 400));
        go::<u16, KUniq, AllowSliceRefs, 16>(&mut r, b(40, 600, 600));
        go::<u64, KStubborn, AllowCow, 127>(&mut r, b(16, 1500, 1500));
    }
    let n = |a: u64, b: u64| if miri { a * k } else { b * k };
    borrows::<1>(&mut r, n(6, 1500), 40);
    borrows::<2>(&mut r, n(3, 600), 60);
    family::<1>(&mut r, n(6, 1500), if miri { 24 } else { 120 }, if miri { 12 } else { 60 });
    family::<2>(&mut r, n(8, 1500), if miri { 45 } else { 300 }, if miri { 12 } else { 60 });
    let sz = |a: usize, b: usize| if miri { a } else { b };
    layout::<Zst, NoFeatures, 1>(&mut r, "zst", n(1, 200), sz(25, 200), |_| Zst);
    layout::<Zst, AllowCow, 127>(&mut r, "zst-cow", n(1, 8), sz(300, 2500), |_| Zst);
    layout::<Zst, AllowSliceRefs, 2>(&mut r, "zst-refs", n(1, 200), sz(25, 200), |_| Zst);
    layout::<Az, AllowSliceRefs, 1>(&mut r, "aligned-zst", n(1, 100), sz(20, 200), |_| Az);
    layout::<Fat, NoFeatures, 2>(&mut r, "fat", n(1, 100), sz(20, 200), |i| Fat([i; 40], format!("{i}"), Box::new(i as u32)));
    layout::<Fat, AllowCow, 1>(&mut r, "fat-cow", n(1, 100), sz(20, 200), |i| Fat([i; 40], format!("{i}"), Box::new(i as u32)));
    layout::<Fat, AllowSliceRefs, 127>(&mut r, "fat-refs", n(!cfg!(miri) as u64, 8), sz(260, 1500), |i| Fat([i; 40], format!("{i}"), Box::new(i as u32)));
    layout::<Constant<u64>, NoFeatures, 1>(&mut r, "constant", n(1, 200), sz(25, 200), |i| Constant(i));
    layout::<Constant<String>, AllowSliceRefs, 1>(&mut r, "constant-refs", n(1, 200), sz(25, 200), |i| Constant(i.to_string()));
    r.finish();
}
