//! Crowds: more entries, references, borrows and clones than an 8- or 16-bit counter can tell apart. The other
//! workloads vary what happens; here little happens, very often.
use crate::report::{quiet_catch, Outcome, Runner};
use crate::rng::{mix, Rng};
use crate::{alloc, ensure, world};
use sherman::param::*;
use sherman::{Borrow, RleTree, Slice, SliceRef};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// A value with a destructor that never joins
pub struct V(u32);
impl V {
    fn new(n: u32) -> V {
        LIVE.with(|l| l.set(l.get() + 1));
        V(n)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Slice<usize> for V {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> V {
        self.clone()
    }
}

/// How many; passes both limits
fn crowd(g: &mut Rng) -> usize {
    if cfg!(miri) {
        300
    } else {
        [700, 66_000, 66_000, 70_000][g.below(4)]
    }
}

fn run(r: &mut Runner, name: String, count: u64, mut f: impl FnMut(&mut Rng, &mut world::Stats) -> usize) {
    r.config(&name, count, |seed, _, _| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        LIVE.with(|l| l.set(0));
        let net = alloc::net();
        let n = f(&mut g, &mut st);
        ensure!(live() == 0, "{} values are still alive after everything was dropped", live());
        if !cfg!(miri) {
            // (a few blocks for the statistics)
            let now = alloc::net();
            ensure!(now.1 - net.1 < 4096, "{} bytes are still allocated after everything was dropped", now.1 - net.1);
        }
        st.add("crowds", 1);
        Outcome { hash: mix(seed ^ n as u64), nontrivial: true, sample: format!("a crowd of {n}"), stats: st }
    });
}

fn pname<P>() -> &'static str {
    std::any::type_name::<P>().rsplit(':').next().unwrap()
}

type Tree<P, const M: usize> = RleTree<usize, V, P, M>;

/// A tree of `n` entries of size one, and what they are
fn grow<P, const M: usize>(g: &mut Rng, n: usize) -> (Tree<P, M>, Vec<u32>)
where
    P: RleTreeConfig<usize, V, M> + SupportsInsert<usize, V, M>,
{
    let mut t = Tree::<P, M>::new_empty();
    let mut v: Vec<u32> = Vec::with_capacity(n);
    let how = g.below(3);
    for k in 0..n {
        let at = match how {
            0 => k,
            1 => 0,
            _ => g.below(k + 1),
        };
        t.insert(at, V::new(k as u32), 1);
        v.insert(at, k as u32);
        let c = k + 1;
        if c % 256 < 2 || c % 4096 == 5 {
            ensure!(t.number_of_slices() == c && t.size() == c, "{c} entries of size 1: number_of_slices() = {}, size() = {}", t.number_of_slices(), t.size());
        }
    }
    (t, v)
}

fn same<P, const M: usize>(t: &Tree<P, M>, v: &[u32], g: &mut Rng, st: &mut world::Stats)
where
    P: RleTreeConfig<usize, V, M>,
{
    ensure!(t.size() == v.len() && t.number_of_slices() == v.len(), "size() = {}, number_of_slices() = {}, expected {}", t.size(), t.number_of_slices(), v.len());
    let mut k = 0;
    for e in t.iter(..) {
        ensure!(k < v.len() && e.range() == (k..k + 1) && e.slice().0 == v[k], "entry {k} of {} is {:?} {}", v.len(), e.range(), e.slice().0);
        k += 1;
    }
    ensure!(k == v.len(), "iteration yields {k} of {} entries", v.len());
    for e in t.iter(..).rev() {
        ensure!(k > 0, "backward iteration yields too much");
        k -= 1;
        ensure!(e.range() == (k..k + 1) && e.slice().0 == v[k], "from the back, entry {k} of {} is {:?} {}", v.len(), e.range(), e.slice().0);
    }
    ensure!(k == 0, "backward iteration leaves out {k} entries");
    for x in [0, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, v.len() - 1].into_iter().chain((0..200).map(|_| g.below(v.len()))) {
        if x < v.len() {
            let e = t.get(x);
            ensure!(e.range() == (x..x + 1) && e.slice().0 == v[x], "get({x}) = {:?} {}, expected {}", e.range(), e.slice().0, v[x]);
        }
    }
    st.comparisons += 2 * v.len() as u64;
    st.max_runs = st.max_runs.max(v.len());
}

/// Many entries
pub fn entries<P, const M: usize>(r: &mut Runner)
where
    P: RleTreeConfig<usize, V, M> + SupportsInsert<usize, V, M>,
{
    run(r, format!("many-entries/{}/M{M}", pname::<P>()), 1, |g, st| {
        let n = crowd(g);
        let (t, v) = grow::<P, M>(g, n);
        same(&t, &v, g, st);
        ensure!(live() == n as i64, "{n} entries, but {} values are alive", live());
        n
    });
}

/// A copy of many entries
pub fn deep_clone<const M: usize>(r: &mut Runner) {
    run(r, format!("many-copied/M{M}"), 1, |g, st| {
        let n = crowd(g);
        let (t, v) = grow::<NoFeatures, M>(g, n);
        let c = t.clone();
        ensure!(live() == 2 * n as i64, "a copy of {n} entries, and {} values are alive", live());
        let (first, second) = if g.chance(1, 2) { (t, c) } else { (c, t) };
        same(&first, &v, g, st);
        drop(first);
        same(&second, &v, g, st);
        n
    });
}

/// Many references to one entry, and to many
pub fn references<const M: usize>(r: &mut Runner) {
    run(r, format!("many-references/M{M}"), 1, |g, st| {
        let n = crowd(g);
        let (mut t, mut v) = grow::<AllowSliceRefs, M>(g, n);
        // one for every entry
        let mut refs: Vec<(u32, SliceRef<usize, V, M>)> = (0..n).map(|x| (v[x], t.get(x).make_ref())).collect();
        let all = |v: &[u32], refs: &[(u32, SliceRef<usize, V, M>)], st: &mut world::Stats| {
            for (id, r) in refs {
                let x = r.range().start;
                ensure!(x < v.len() && v[x] == *id && r.range().end == x + 1, "the reference to value {id}, one of {}, reports {:?}", refs.len(), r.range());
                ensure!(r.borrow_slice().0 == *id, "the reference to value {id}, one of {}, borrows {}", refs.len(), r.borrow_slice().0);
            }
            st.comparisons += refs.len() as u64;
        };
        all(&v, &refs, st);
        // half of them go, others come
        for _ in 0..n / 2 {
            let k = g.below(refs.len());
            refs.swap_remove(k);
        }
        for k in 0..200 {
            let x = g.below(v.len() + 1);
            let r = t.insert_ref(x, V::new((n + k) as u32), 1);
            v.insert(x, (n + k) as u32);
            refs.push(((n + k) as u32, r));
        }
        all(&v, &refs, st);
        // a crowd of the same
        let x = g.below(v.len());
        let id = v[x];
        let one = t.get(x).make_ref();
        let mut same_one: Vec<_> = (0..n)
            .map(|k| (id, if k % 3 == 0 { t.get(x).make_ref() } else { one.clone() }))
            .collect();
        t.insert(0, V::new(u32::MAX), 1);
        v.insert(0, u32::MAX);
        all(&v, &same_one, st);
        while same_one.len() > 1 {
            same_one.pop();
            if same_one.len() % 256 < 2 {
                ensure!(one.is_valid() && one.can_borrow() && one.range() == (x + 1..x + 2) && one.borrow_slice().0 == id, "with {} fellows left, the reference reports {:?}", same_one.len(), one.range());
            }
        }
        all(&v, &refs, st);
        // the tree goes before some of them
        refs.truncate(g.below(refs.len()));
        drop(t);
        ensure!(live() == 0, "the tree is gone and {} values are alive", live());
        let c: Vec<_> = refs.iter().map(|r| r.1.clone()).collect();
        ensure!(refs.iter().map(|r| &r.1).chain(&c).chain([&one]).all(|r| !r.is_valid() && !r.can_borrow()), "a reference is valid after the tree is gone");
        n
    });
}

/// Many borrows at once
pub fn borrows<const M: usize>(r: &mut Runner) {
    run(r, format!("many-borrows/M{M}"), 1, |g, st| {
        let n = crowd(g);
        let (mut t, mut v) = grow::<AllowSliceRefs, M>(g, 50);
        let refs: Vec<_> = (0..50).map(|x| t.get(x).make_ref()).collect();
        let doomed = g.chance(1, 2);
        let mut bs: Vec<Borrow<V>> = vec![];
        for k in 0..n {
            let b = match bs.last() {
                Some(b) if k % 2 == 1 => b.clone(),
                _ => refs[g.below(50)].borrow_slice(),
            };
            bs.push(b);
        }
        ensure!(bs.iter().all(|b| v.contains(&b.0)), "a borrow reads a value that is not there");
        let mut next = 1000;
        let refused = |t: &mut Tree<AllowSliceRefs, M>, left: usize, next: &mut u32| {
            *next += 1;
            let e = quiet_catch(|| t.insert(0, V::new(*next), 1));
            ensure!(e.is_err(), "an insertion succeeded while {left} borrows were held");
        };
        if doomed {
            drop(t);
            while let Some(b) = bs.pop() {
                ensure!(live() == 50, "with {} borrows held, {} of 50 values are alive", bs.len() + 1, live());
                drop(b);
            }
            ensure!(live() == 0, "the last borrow is gone, and {} values are alive", live());
            return n;
        }
        while !bs.is_empty() {
            if bs.len() % 256 < 2 && (bs.len() < 1000 || bs.len() % 65536 < 2 || bs.len() % 4096 < 2) {
                refused(&mut t, bs.len(), &mut next);
            }
            bs.pop();
        }
        t.insert(50, V::new(7777), 1);
        v.push(7777);
        same(&t, &v, g, st);
        drop(bs);
        drop(refs);
        n
    });
}

/// Many clones of one tree, sharing everything
pub fn clones<const M: usize>(r: &mut Runner) {
    run(r, format!("many-clones/M{M}"), 1, |g, st| {
        let n = crowd(g);
        let k = g.range(1, 30);
        let (t, v) = grow::<AllowCow, M>(g, k);
        let mut family = vec![(t, v)];
        for _ in 1..n {
            let x = if g.chance(1, 2) { 0 } else { g.below(family.len()) };
            let c = (family[x].0.clone(), family[x].1.clone());
            family.push(c);
            if g.chance(1, 2000) {
                // one of them goes its own way
                let x = g.below(family.len());
                let (t, v) = &mut family[x];
                let at = g.below(v.len() + 1);
                t.insert(at, V::new(5000 + x as u32), 1);
                v.insert(at, 5000 + x as u32);
            }
        }
        for _ in 0..50 {
            let x = g.below(n);
            same(&family[x].0, &family[x].1, g, st);
        }
        // they go in any order; the rest stays as it was
        while family.len() > 1 {
            let x = g.below(family.len());
            drop(family.swap_remove(x));
            let left = family.len();
            if left % 4096 == 0 || left < 4 || (left % 256 < 2 && left < 1000) {
                let x = g.below(left);
                same(&family[x].0, &family[x].1, g, st);
            }
        }
        let (mut t, mut v) = family.pop().unwrap();
        t.insert(0, V::new(1), 1);
        v.insert(0, 1);
        same(&t, &v, g, st);
        ensure!(live() == v.len() as i64, "one tree of {} entries is left, and {} values are alive", v.len(), live());
        n
    });
}
