//! Guards that are forgotten (`mem::forget`): safe code may do that at any time. A forgotten borrow stays held for
//! ever, a forgotten reference or clone stays alive for ever.
use crate::report::{quiet_catch, Outcome, Runner};
use crate::rng::{mix, Rng};
use crate::{ensure, world};
use sherman::param::*;
use sherman::{RleTree, Slice, SliceRef};
use std::cell::Cell;
use std::mem::forget;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// A value on the heap
pub struct V(Box<u32>);
impl V {
    fn new(n: u32) -> V {
        LIVE.with(|l| l.set(l.get() + 1));
        V(Box::new(n))
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(*self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Slice<usize> for V {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> V {
        self.clone()
    }
}

/// References, borrows and iterators are forgotten
pub fn borrows<const M: usize>(r: &mut Runner, count: u64) {
    r.config(&format!("forgotten-borrows/M{M}"), count, |seed, logging, log| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        LIVE.with(|l| l.set(0));
        let mut t: Option<RleTree<usize, V, AllowSliceRefs, M>> = Some(RleTree::new_empty());
        let mut v: Vec<u32> = vec![];
        let mut refs: Vec<(u32, SliceRef<usize, V, M>)> = vec![];
        // borrows that are never given back
        let mut lost = false;
        let n = g.range(1, 40);
        for k in 0..n {
            let at = g.below(k + 1);
            let r = t.as_mut().unwrap().insert_ref(at, V::new(k as u32), 1);
            v.insert(at, k as u32);
            if g.chance(1, 2) {
                refs.push((k as u32, r));
            }
        }
        let mut h = seed;
        for step in 0..g.range(5, 60) {
            let op = g.below(12);
            h = mix(h ^ op as u64);
            macro_rules! note { ($($a:tt)*) => { if logging { log.push(format!($($a)*)); } } }
            let some = (!refs.is_empty()).then(|| g.below(refs.len()));
            match (op, some) {
                (0, Some(x)) if t.is_some() => {
                    note!("borrow of value {} forgotten", refs[x].0);
                    forget(refs[x].1.borrow_slice());
                    lost = true;
                    st.op("forget_borrow");
                }
                (1, Some(x)) => {
                    note!("reference to value {} forgotten", refs[x].0);
                    forget(refs.swap_remove(x));
                    st.op("forget_ref");
                }
                (2, Some(x)) => {
                    note!("reference to value {} dropped", refs[x].0);
                    refs.swap_remove(x);
                    st.op("drop_ref");
                }
                (3, Some(x)) => {
                    let c = (refs[x].0, refs[x].1.clone());
                    refs.push(c);
                    st.op("clone_ref");
                }
                (4 | 5, _) if t.is_some() => {
                    let t = t.as_mut().unwrap();
                    let at = g.below(v.len() + 1);
                    let id = 1000 + step as u32;
                    note!("insert({at}, {id}, 1), forgotten borrows: {lost}");
                    let before = live();
                    let r = quiet_catch(|| t.insert(at, V::new(id), 1));
                    ensure!(r.is_err() == lost, "insert with a forgotten borrow ({lost}): {r:?}");
                    ensure!(live() == before + !lost as i64, "insert with a forgotten borrow ({lost}): {} values, {before} before", live());
                    if !lost {
                        v.insert(at, id);
                    }
                    st.op("insert");
                }
                (6, Some(x)) if t.is_some() => {
                    // a borrow held over the end of the tree, and given back
                    let gone = g.chance(1, 4);
                    let b = refs[x].1.borrow_slice();
                    note!("borrow of value {} held; tree dropped meanwhile: {gone}", refs[x].0);
                    let before = live();
                    if gone {
                        t = None;
                        ensure!(live() == before, "dropping the tree while a borrow is held destroyed {} values", before - live());
                    }
                    let c = b.clone();
                    if g.chance(1, 3) {
                        forget(c);
                        lost = true;
                    } else {
                        drop(c);
                    }
                    ensure!(*b.0 == refs[x].0, "the borrow of value {} reads {}", refs[x].0, b.0);
                    drop(b);
                    ensure!(live() == if gone && !lost { 0 } else { before }, "the last borrow is given back (tree gone {gone}, others forgotten {lost}): {} values alive, {before} before", live());
                    st.op("hold_borrow");
                }
                (7, _) if step > 20 && t.is_some() => {
                    note!("tree dropped, forgotten borrows: {lost}");
                    let before = live();
                    t = None;
                    ensure!(live() == if lost { before } else { 0 }, "dropping the tree with a forgotten borrow ({lost}) leaves {} of {before} values", live());
                    st.op("drop_tree");
                }
                (8, _) if t.is_some() => {
                    let t = t.as_ref().unwrap();
                    let mut it = t.iter(..);
                    for k in 0..g.below(v.len() + 1) {
                        let e = it.next();
                        ensure!(e.as_ref().map(|e| *e.slice().0) == Some(v[k]), "entry {k} is {:?}", e.map(|e| e.range()));
                        forget(e);
                    }
                    forget(it);
                    st.op("forget_iter");
                }
                (9, _) if t.is_some() => {
                    let x = g.below(v.len());
                    refs.push((v[x], t.as_ref().unwrap().get(x).make_ref()));
                    st.op("make_ref");
                }
                _ => (),
            }
            for (id, r) in &refs {
                ensure!(r.is_valid() == t.is_some() && r.can_borrow() == t.is_some(), "reference to value {id}: is_valid() = {}, can_borrow() = {} with the tree there: {}", r.is_valid(), r.can_borrow(), t.is_some());
                if t.is_some() {
                    let x = r.range().start;
                    ensure!(v[x] == *id && *r.borrow_slice().0 == *id, "reference to value {id} reports {:?}", r.range());
                } else {
                    ensure!(r.try_range().is_none() && r.try_borrow_slice().is_none(), "reference to value {id} is of use after the tree is gone");
                }
                st.comparisons += 2;
            }
            if let Some(t) = &t {
                ensure!(t.iter(..).map(|e| *e.slice().0).eq(v.iter().copied()), "the tree does not hold what it should");
            }
        }
        let nontrivial = st.ops.get("forget_borrow").is_some() || st.ops.get("hold_borrow").is_some();
        Outcome { hash: h, nontrivial, sample: format!("{n} entries, ops {:?}", st.ops), stats: st }
    });
}

/// Clones of a tree are forgotten
pub fn clones<const M: usize>(r: &mut Runner, count: u64) {
    r.config(&format!("forgotten-clones/M{M}"), count, |seed, _, _| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        LIVE.with(|l| l.set(0));
        let mut family: Vec<(RleTree<usize, V, AllowCow, M>, Vec<u32>)> = vec![(RleTree::new_empty(), vec![])];
        let mut h = seed;
        for step in 0..g.range(20, 150) {
            let x = g.below(family.len());
            let op = g.below(10);
            h = mix(h ^ (op as u64) << 8 ^ x as u64);
            match op {
                0 | 1 if family.len() < 6 => {
                    let c = (family[x].0.clone(), family[x].1.clone());
                    family.push(c);
                    st.op("clone");
                }
                2 => {
                    forget(family[x].0.clone());
                    st.op("forget_clone");
                }
                3 if family.len() > 1 => {
                    let (t, _) = family.swap_remove(x);
                    if g.chance(1, 2) {
                        forget(t);
                    }
                    st.op("drop_or_forget");
                }
                _ => {
                    let (t, v) = &mut family[x];
                    let at = g.below(v.len() + 1);
                    t.insert(at, V::new(step as u32), 1);
                    v.insert(at, step as u32);
                    st.op("insert");
                }
            }
            for (t, v) in &family {
                ensure!(t.iter(..).map(|e| *e.slice().0).eq(v.iter().copied()), "a tree does not hold what it should");
                st.comparisons += v.len() as u64;
                st.max_runs = st.max_runs.max(v.len());
            }
        }
        let nontrivial = st.max_runs > 2 * M && st.ops.get("forget_clone").is_some();
        Outcome { hash: h, nontrivial, sample: format!("ops {:?}", st.ops), stats: st }
    });
}
