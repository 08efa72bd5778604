//! Histories over values of every shape: zero-sized, without a destructor, byte-sized, large, over-aligned, with
//! niches, borrowed. The other workloads store values of one shape, that have a destructor and an identity; these
//! watch what may depend on the shape - offsets, alignment, destructors and clones that are there or not.
use crate::idx::TIdx;
use crate::report::{Outcome, Runner};
use crate::rng::{mix, Rng};
use crate::{alloc, world};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{RleTree, Slice, SliceRef};
use std::cell::Cell;
use std::num::NonZeroU16;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static SPLITS: Cell<u64> = const { Cell::new(0) };
}
fn live(d: i64) {
    LIVE.with(|l| l.set(l.get() + d));
}

/// What is stored
pub trait Val: Clone + 'static {
    const NAME: &'static str;
    const JOIN: bool;
    const DROP: bool = false;
    /// `n` distinguishes as many values as the shape can
    fn new(n: u32) -> Self;
    fn id(&self) -> u32;
    fn canon(n: u32) -> u32;
}
#[derive(Clone)]
pub struct Unit;
#[derive(Clone)]
pub struct UnitSame;
pub struct UnitDrop;
#[derive(Clone)]
pub struct Byte(u8);
#[derive(Clone)]
pub struct Large([u64; 33]);
#[derive(Clone)]
#[repr(align(256))]
pub struct Aligned(u8);
#[derive(Clone)]
pub struct Niche(Option<NonZeroU16>);
#[derive(Clone)]
pub struct Flag(bool);
#[derive(Clone)]
pub struct Owned(Box<u32>);
#[derive(Clone)]
pub struct Lent(&'static u32);
#[derive(Clone)]
pub struct Text(String);
#[derive(Clone)]
pub struct Func(fn(u32) -> u32, u32);
static LENT: [u32; 64] = {
    let mut a = [0; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = i as u32;
        i += 1;
    }
    a
};
fn twice(n: u32) -> u32 {
    2 * n
}
macro_rules! vals {
    ($($t:ident $name:literal $join:literal $drop:literal |$n:ident| $new:expr; |$s:ident| $id:expr; $canon:expr)*) => { $(
        impl Val for $t {
            const NAME: &'static str = $name;
            const JOIN: bool = $join;
            const DROP: bool = $drop;
            fn new($n: u32) -> Self { $new }
            fn id(&self) -> u32 { let $s = self; $id }
            fn canon($n: u32) -> u32 { $canon }
        }
    )* };
}
vals! {
    Unit "zero-sized" false false |_n| Unit; |_s| 0; 0
    UnitSame "zero-sized-joins" true false |_n| UnitSame; |_s| 0; 0
    UnitDrop "zero-sized-drop" false true |_n| { live(1); UnitDrop }; |_s| 0; 0
    Byte "byte" true false |n| Byte(n as u8); |s| s.0 as u32; n & 0xff
    Large "264-bytes" false false |n| Large([n as u64; 33]); |s| { ensure!(s.0.iter().all(|x| *x == s.0[0]), "torn value"); s.0[0] as u32 }; n
    Aligned "align-256" true false |n| Aligned(n as u8); |s| { ensure!(s as *const _ as usize % 256 == 0, "misplaced value"); s.0 as u32 }; n & 0xff
    Niche "niche" false false |n| Niche(NonZeroU16::new(n as u16 & 7)); |s| s.0.map_or(0, |x| x.get() as u32); n & 7
    Flag "bool" true false |n| Flag(n & 1 == 1); |s| s.0 as u32; n & 1
    Owned "box" true false |n| Owned(Box::new(n)); |s| *s.0; n
    Lent "reference" true false |n| Lent(&LENT[n as usize % 64]); |s| *s.0; n % 64
    Text "string" false false |n| Text(format!("{n:0w$}", w = n as usize % 30)); |s| s.0.parse().expect("not the text of a number"); n
    Func "function" false false |n| Func(twice, n); |s| (s.0)(s.1) / 2; n & 0xffff
}
impl Clone for UnitDrop {
    fn clone(&self) -> Self {
        live(1);
        UnitDrop
    }
}
impl Drop for UnitDrop {
    fn drop(&mut self) {
        live(-1);
    }
}

/// Counts the callbacks, and has a destructor only if the value does
pub struct W<V>(V);
impl<V: Val> Clone for W<V> {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        W(self.0.clone())
    }
}
impl<I: TIdx, V: Val> Slice<I> for W<V> {
    const MAY_JOIN: bool = V::JOIN;
    fn split_at(&mut self, _: I) -> Self {
        SPLITS.with(|c| c.set(c.get() + 1));
        W(V::new(self.0.id()))
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        match V::JOIN && self.0.id() == other.0.id() {
            true => Ok(other),
            false => Err((self, other)),
        }
    }
}

/// The three configurations, for any slice type
pub trait Mode<I: TIdx, V: Val, const M: usize>: RleTreeConfig<I, W<V>, M> + SupportsInsert<I, W<V>, M> + Sized + 'static {
    const NAME: &'static str;
    /// Calls of `Clone` per entry when a tree is cloned
    const CLONES: u64;
    type Ref;
    fn dup(t: &RleTree<I, W<V>, Self, M>) -> Option<RleTree<I, W<V>, Self, M>>;
    fn ins(t: &mut RleTree<I, W<V>, Self, M>, at: I, v: W<V>, size: I) -> Option<Self::Ref>;
    fn look(r: &Self::Ref) -> (std::ops::Range<I>, u32);
}
macro_rules! mode {
    ($p:ident, $name:literal, $clones:expr) => {
        impl<I: TIdx, V: Val, const M: usize> Mode<I, V, M> for $p {
            const NAME: &'static str = $name;
            const CLONES: u64 = $clones;
            type Ref = std::convert::Infallible;
            fn dup(t: &RleTree<I, W<V>, Self, M>) -> Option<RleTree<I, W<V>, Self, M>> {
                Some(t.clone())
            }
            fn ins(t: &mut RleTree<I, W<V>, Self, M>, at: I, v: W<V>, size: I) -> Option<Self::Ref> {
                t.insert(at, v, size);
                None
            }
            fn look(r: &Self::Ref) -> (std::ops::Range<I>, u32) {
                match *r {}
            }
        }
    };
}
mode!(NoFeatures, "NoFeatures", 1);
mode!(AllowCow, "AllowCow", 0);
impl<I: TIdx, V: Val, const M: usize> Mode<I, V, M> for AllowSliceRefs {
    const NAME: &'static str = "AllowSliceRefs";
    const CLONES: u64 = 0;
    type Ref = SliceRef<I, W<V>, M>;
    fn dup(_: &RleTree<I, W<V>, Self, M>) -> Option<RleTree<I, W<V>, Self, M>> {
        None
    }
    fn ins(t: &mut RleTree<I, W<V>, Self, M>, at: I, v: W<V>, size: I) -> Option<Self::Ref> {
        Some(t.insert_ref(at, v, size))
    }
    fn look(r: &Self::Ref) -> (std::ops::Range<I>, u32) {
        let b = r.borrow_slice();
        (r.range(), b.0.id())
    }
}

/// (size, id, key) per run
type Runs = Vec<(usize, u32, u64)>;
struct Mem<I: TIdx, V: Val, P: Mode<I, V, M>, const M: usize> {
    t: RleTree<I, W<V>, P, M>,
    l: Runs,
    refs: Vec<(u64, P::Ref)>,
}
/// Performs the insertion on the list; None if it would join with both neighbours (not implemented: see the
/// known findings)
fn put<V: Val>(l: &Runs, idx: usize, id: u32, size: usize, key: u64) -> Option<(Runs, bool)> {
    let mut l = l.clone();
    let (mut at, mut q) = (0, 0);
    while q < l.len() && at + l[q].0 <= idx {
        at += l[q].0;
        q += 1;
    }
    if q < l.len() && at < idx {
        let (s, i, k) = l[q];
        if V::JOIN && i == id {
            l[q].0 += size;
            return Some((l, true));
        }
        l[q].0 = idx - at;
        l.insert(q + 1, (size, id, key));
        l.insert(q + 2, (s - (idx - at), i, k | 1 << 63));
        return Some((l, true));
    }
    let left = V::JOIN && q > 0 && l[q - 1].1 == id;
    let right = V::JOIN && q < l.len() && l[q].1 == id;
    match (left, right) {
        (true, true) => return None,
        (true, false) => l[q - 1].0 += size,
        (false, true) => l[q].0 += size,
        (false, false) => l.insert(q, (size, id, key)),
    }
    Some((l, false))
}
fn num<I: TIdx>(i: I) -> usize {
    i.enc()[0] as usize
}
fn check<I: TIdx, V: Val, P: Mode<I, V, M>, const M: usize>(m: &Mem<I, V, P, M>, g: &mut Rng, what: &str) {
    let total: usize = m.l.iter().map(|x| x.0).sum();
    ensure!(num(m.t.size()) == total, "{what}: size {:?}, expected {total}", m.t.size());
    ensure!(m.t.number_of_slices() == m.l.len(), "{what}: {} slices, expected {}", m.t.number_of_slices(), m.l.len());
    let mut at = 0;
    let mut it = m.t.iter(..);
    for (n, (s, id, _)) in m.l.iter().enumerate() {
        let e = it.next();
        ensure!(e.is_some(), "{what}: only {n} entries of {}", m.l.len());
        let e = e.unwrap();
        let r = e.range();
        ensure!((num(r.start), num(r.end)) == (at, at + s), "{what}: entry {n} covers {r:?}, expected {at}..{}", at + s);
        ensure!(e.slice().0.id() == *id, "{what}: entry {n} holds {}, expected {id}", e.slice().0.id());
        if g.chance(1, 4) {
            let e = m.t.get(I::small(at + g.below(*s)));
            let r = e.range();
            ensure!((num(r.start), num(r.end), e.slice().0.id()) == (at, at + s, *id), "{what}: get inside of entry {n} finds {r:?} {}", e.slice().0.id());
        }
        at += s;
    }
    ensure!(it.next().is_none(), "{what}: more entries than {}", m.l.len());
    let back: Vec<u32> = m.t.iter(..).rev().map(|e| e.slice().0.id()).collect();
    ensure!(back.iter().rev().eq(m.l.iter().map(|x| &x.1)), "{what}: values from the back {back:?}");
    for (key, r) in &m.refs {
        let q = m.l.iter().position(|x| x.2 == *key).expect("the run of a reference");
        let at: usize = m.l[..q].iter().map(|x| x.0).sum();
        let (range, id) = P::look(r);
        ensure!((num(range.start), num(range.end), id) == (at, at + m.l[q].0, m.l[q].1), "{what}: a reference finds {range:?} {id}, expected {at}..{} {}", at + m.l[q].0, m.l[q].1);
    }
}

fn go<I: TIdx, V: Val, P: Mode<I, V, M>, const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    let nm = format!("shape:{}/{}/{}/M{M}", V::NAME, I::NAME, P::NAME);
    r.config(&nm, n, |seed, _, _| {
        let mut g = Rng::new(seed);
        let mut h = seed;
        LIVE.with(|l| l.set(0));
        CLONES.with(|c| c.set(0));
        let (mut inserts, mut dups, mut dropped, mut checks, mut most, mut key) = (0u64, 0u64, 0u64, 0u64, 0, 0u64);
        let cap = if I::NAME == "u8" { 250 } else { usize::MAX };
        let ids = 1 + g.below(60) as u32;
        let net0 = alloc::net();
        {
            let mut all: Vec<Mem<I, V, P, M>> = vec![Mem { t: RleTree::new_empty(), l: vec![], refs: vec![] }];
            let mut want_live = 0i64;
            for _ in 0..steps {
                let k = g.below(all.len());
                match g.weighted(&[16, 2, 1, 2]) {
                    0 => {
                        let m = &mut all[k];
                        let total: usize = m.l.iter().map(|x| x.0).sum();
                        let size = 1 + g.below(3);
                        if total + size > cap {
                            continue;
                        }
                        let idx = match g.below(4) {
                            0 => total,
                            1 => 0,
                            _ => g.below(total + 1),
                        };
                        let id = V::canon(g.below(ids as usize) as u32);
                        key += 1;
                        let Some((l, split)) = put::<V>(&m.l, idx, id, size, key) else { continue };
                        let s0 = SPLITS.with(|c| c.get());
                        let c0 = CLONES.with(|c| c.get());
                        let rf = P::ins(&mut m.t, I::small(idx), W(V::new(id)), I::small(size));
                        let s = SPLITS.with(|c| c.get()) - s0;
                        ensure!(s == split as u64, "{s} splits for an insertion at {idx}, expected {}", split as u64);
                        if !P::COW {
                            ensure!(CLONES.with(|c| c.get()) == c0, "an insertion called Clone");
                        }
                        if let Some(rf) = rf {
                            // (what a reference to a joined slice refers to is C07's subject)
                            if !V::JOIN {
                                m.refs.push((key, rf));
                                if m.refs.len() > 12 {
                                    let q = g.below(m.refs.len());
                                    m.refs.swap_remove(q);
                                }
                            }
                        }
                        want_live += l.len() as i64 - m.l.len() as i64;
                        m.l = l;
                        inserts += 1;
                        most = most.max(m.l.len());
                        h = mix(h ^ idx as u64 ^ (size as u64) << 24 ^ (id as u64) << 32);
                    }
                    1 if all.len() < 4 => {
                        let c0 = CLONES.with(|c| c.get());
                        if let Some(t) = P::dup(&all[k].t) {
                            let c = CLONES.with(|c| c.get()) - c0;
                            let want = P::CLONES * all[k].l.len() as u64;
                            ensure!(c == want, "cloning a tree of {} entries called Clone {c} times, expected {want}", all[k].l.len());
                            let l = all[k].l.clone();
                            want_live += l.len() as i64;
                            all.push(Mem { t, l, refs: vec![] });
                            dups += 1;
                        }
                    }
                    2 if all.len() > 1 => {
                        let m = all.swap_remove(k);
                        want_live -= m.l.len() as i64;
                        dropped += 1;
                    }
                    _ => {
                        check(&all[k], &mut g, "a member");
                        checks += 1;
                    }
                }
                if V::DROP {
                    let l = LIVE.with(|l| l.get());
                    let ok = if P::COW { l <= want_live && l >= all.iter().map(|m| m.l.len()).max().unwrap_or(0) as i64 } else { l == want_live };
                    ensure!(ok, "{l} values are alive, expected {want_live}");
                }
            }
            for m in &all {
                check(m, &mut g, "a member at the end");
            }
            while !all.is_empty() {
                let k = g.below(all.len());
                let m = all.swap_remove(k);
                if g.chance(1, 2) {
                    // the references outlive the tree
                    let Mem { t, refs, .. } = m;
                    drop(t);
                    drop(refs);
                }
                for m in &all {
                    check(m, &mut g, "a member that is left");
                }
            }
        }
        if V::DROP {
            let l = LIVE.with(|l| l.get());
            ensure!(l == 0, "{l} values were never destroyed");
        }
        let net1 = alloc::net();
        ensure!(net1 == net0, "{} blocks ({} bytes) are still allocated after everything was dropped", net1.0 - net0.0, net1.1 - net0.1);
        let mut st = world::Stats::default();
        st.op("shape_history");
        st.add("inserts", inserts);
        st.add("clones", dups);
        st.add("members_dropped", dropped);
        st.comparisons = checks;
        st.max_runs = most;
        Outcome { hash: h, nontrivial: inserts > 8 && checks > 0, stats: st, sample: format!("{inserts} insertions, {dups} clones, up to {most} entries") }
    });
}

fn modes<I: TIdx, V: Val, const M: usize>(r: &mut Runner, n: u64, steps: usize, which: [bool; 3])
where
    NoFeatures: Mode<I, V, M>,
    AllowCow: Mode<I, V, M>,
    AllowSliceRefs: Mode<I, V, M>,
{
    if which[0] {
        go::<I, V, NoFeatures, M>(r, n, steps);
    }
    if which[1] {
        go::<I, V, AllowCow, M>(r, n, steps);
    }
    if which[2] {
        go::<I, V, AllowSliceRefs, M>(r, n, steps);
    }
}
/// All shapes, `n` histories of `steps` operations each, in the chosen configurations (plain, COW, references)
pub fn shapes(r: &mut Runner, n: u64, steps: usize, which: [bool; 3]) {
    modes::<usize, Unit, 2>(r, n, steps, which);
    modes::<u8, Unit, 1>(r, n, steps, which);
    modes::<u128, UnitSame, 1>(r, n, steps, which);
    modes::<usize, UnitDrop, 1>(r, n, steps, which);
    modes::<u16, UnitDrop, 3>(r, n, steps, which);
    modes::<u8, Byte, 1>(r, n, steps, which);
    modes::<u128, Byte, 2>(r, n, steps, which);
    modes::<usize, Large, 2>(r, n, steps, which);
    modes::<u8, Large, 1>(r, n, steps, which);
    modes::<u32, Aligned, 1>(r, n, steps, which);
    modes::<usize, Niche, 1>(r, n, steps, which);
    modes::<u64, Flag, 1>(r, n, steps, which);
    modes::<usize, Owned, 2>(r, n, steps, which);
    modes::<u16, Lent, 3>(r, n, steps, which);
    modes::<usize, Text, 1>(r, n, steps, which);
    modes::<usize, Func, 2>(r, n, steps, which);
}
