//! Values that own handles into the machinery they are stored in: references to their own tree (C08), and
//! snapshots of trees of their own family (C09, C12). Their callbacks use what they own.
use crate::cursors::VecCursor;
use crate::ledger::{self, Token};
use crate::report::{quiet_catch, Outcome, Runner};
use crate::rng::{mix, Rng};
use crate::{alloc, world};
use sherman::param::{AllowCow, AllowSliceRefs};
use sherman::{RleTree, Slice, SliceRef};
use std::cell::{Cell, RefCell};

thread_local! {
    /// whether the tree under test still exists / is inside of an insertion
    static ALIVE: Cell<bool> = const { Cell::new(false) };
    static INSERTING: Cell<bool> = const { Cell::new(false) };
    static QUERIES: Cell<u64> = const { Cell::new(0) };
    static SALT: Cell<u64> = const { Cell::new(0) };
}
fn salt() -> u64 {
    SALT.with(|s| {
        let x = mix(s.get());
        s.set(x);
        x
    })
}
fn bump() {
    QUERIES.with(|q| q.set(q.get() + 1));
}

type R<const M: usize> = SliceRef<usize, Cy<M>, M>;
/// A value holding references to entries of the tree it is stored in
pub struct Cy<const M: usize> {
    id: u32,
    tok: Token,
    held: RefCell<Vec<(u64, R<M>)>>,
}
/// What a reference must answer right now, from inside a callback
fn probe<const M: usize>(r: &R<M>, what: &str) {
    bump();
    let (alive, inserting) = (ALIVE.with(|a| a.get()), INSERTING.with(|a| a.get()));
    if !alive {
        ensure!(!r.is_valid(), "is_valid() is true in {what} after the tree was dropped");
    }
    if !alive || inserting {
        let when = if alive { "during an insertion" } else { "after the tree was dropped" };
        ensure!(!r.can_borrow(), "can_borrow() is true in {what} {when}");
        ensure!(r.try_borrow_slice().is_none(), "try_borrow_slice() succeeds in {what} {when}");
        ensure!(r.try_range().is_none(), "try_range() succeeds in {what} {when}");
        ensure!(r.try_cursor::<VecCursor>().is_none(), "try_cursor() succeeds in {what} {when}");
    }
}
impl<const M: usize> Cy<M> {
    fn new(id: u32) -> Self {
        Cy { id, tok: Token::new(), held: Default::default() }
    }
    fn poke(&self, what: &str) {
        self.tok.check();
        let held = self.held.borrow();
        for (_, r) in held.iter() {
            probe(r, what);
            if salt() % 2 == 0 {
                let c = r.clone();
                probe(&c, what);
            }
        }
    }
}
impl<const M: usize> Slice<usize> for Cy<M> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self {
        self.poke("split_at");
        let right = Cy::new(self.id);
        let mut h = self.held.borrow_mut();
        let n = h.len() / 2;
        let moved = h.split_off(n);
        if salt() % 3 == 0 {
            h.pop();
        }
        drop(h);
        right.held.borrow_mut().extend(moved);
        right
    }
}
impl<const M: usize> Drop for Cy<M> {
    fn drop(&mut self) {
        if std::thread::panicking() && INSERTING.with(|i| i.get()) {
            // (a refused insertion unwinds: the tree is only borrowed)
            return;
        }
        self.poke("a destructor");
        let mut h = std::mem::take(&mut *self.held.borrow_mut());
        while !h.is_empty() {
            let k = salt() as usize % h.len();
            drop(h.swap_remove(k));
        }
    }
}

struct D<const M: usize> {
    g: Rng,
    t: Option<RleTree<usize, Cy<M>, AllowSliceRefs, M>>,
    /// identity, id and size of every entry
    m: Vec<(u64, u32, usize)>,
    refs: Vec<(u64, R<M>)>,
    uid: u64,
    st: world::Stats,
    h: u64,
}
impl<const M: usize> D<M> {
    fn at(&self, uid: u64) -> (usize, usize, u32) {
        let mut at = 0;
        for x in &self.m {
            if x.0 == uid {
                return (at, at + x.2, x.1);
            }
            at += x.2;
        }
        panic!("MONITOR: model lost a run");
    }
    fn check_ref(&self, uid: u64, r: &R<M>) {
        let (s, e, id) = self.at(uid);
        ensure!(r.is_valid() && r.can_borrow(), "a reference to {s}..{e} is unusable");
        ensure!(r.range() == (s..e), "a reference to {s}..{e} reports {:?}", r.range());
        let b = r.borrow_slice();
        b.tok.check();
        ensure!(b.id == id, "a reference to {s}..{e} borrows value {}, expected {id}", b.id);
    }
    fn check(&mut self) {
        let t = self.t.as_ref().unwrap();
        let (mut at, mut n) = (0, 0);
        for (e, x) in t.iter(..).zip(&self.m) {
            ensure!(e.range() == (at..at + x.2) && e.slice().id == x.1, "entry {n} is {:?} {}, expected {:?} {}", e.range(), e.slice().id, at..at + x.2, x.1);
            let held = e.slice().held.borrow();
            for (u, r) in held.iter() {
                self.check_ref(*u, r);
            }
            at += x.2;
            n += 1;
        }
        ensure!(n == self.m.len() && t.number_of_slices() == n && t.size() == at, "{} entries, expected {n}", t.number_of_slices());
        for (u, r) in &self.refs {
            self.check_ref(*u, r);
        }
        ensure!(ledger::live() == self.m.len(), "{} live values, {} entries", ledger::live(), self.m.len());
        self.st.comparisons += 1;
    }
    fn some_ref(&mut self) -> Option<(u64, R<M>)> {
        if self.m.is_empty() {
            return None;
        }
        if !self.refs.is_empty() && self.g.chance(1, 2) {
            let k = self.g.below(self.refs.len());
            return Some((self.refs[k].0, self.refs[k].1.clone()));
        }
        let k = self.g.below(self.m.len());
        let u = self.m[k].0;
        let (s, _, _) = self.at(u);
        Some((u, self.t.as_ref().unwrap().get(s).make_ref()))
    }
    fn insert(&mut self, refused: bool) {
        let size = 1 + self.g.below(5);
        let total: usize = self.m.iter().map(|x| x.2).sum();
        let idx = self.g.below(total + 1);
        let id = self.uid as u32;
        let v = Cy::new(id);
        for _ in 0..self.g.below(3) {
            if let Some(r) = self.some_ref() {
                v.held.borrow_mut().push(r);
            }
        }
        let with_ref = self.g.chance(1, 3);
        let t = self.t.as_mut().unwrap();
        INSERTING.with(|i| i.set(true));
        if refused {
            let r = quiet_catch(|| if with_ref { drop(t.insert_ref(idx, v, size)) } else { t.insert(idx, v, size) });
            INSERTING.with(|i| i.set(false));
            ensure!(r.is_err(), "an insertion succeeded while a value was borrowed");
            self.st.op("insert_refused_while_borrowed");
            return;
        }
        let r = if with_ref { Some(t.insert_ref(idx, v, size)) } else { t.insert(idx, v, size); None };
        INSERTING.with(|i| i.set(false));
        self.st.op("insert");
        self.h = mix(self.h ^ idx as u64 ^ (size as u64) << 32);
        let (mut at, mut k) = (0, 0);
        while k < self.m.len() && at + self.m[k].2 <= idx {
            at += self.m[k].2;
            k += 1;
        }
        self.uid += 2;
        let u = self.uid;
        if k < self.m.len() && at < idx {
            let (l, r) = (idx - at, at + self.m[k].2 - idx);
            self.m[k].2 = l;
            let rid = self.m[k].1;
            self.m.insert(k + 1, (u, id, size));
            self.m.insert(k + 2, (u + 1, rid, r));
        } else {
            self.m.insert(k, (u, id, size));
        }
        if let Some(r) = r {
            self.refs.push((u, r));
        }
    }
    /// Follows references from borrowed values to further values; at the end of the chain something happens
    fn walk(&mut self, uid: u64, r: R<M>, depth: usize, end: usize) {
        let n = self.m.len();
        self.check_ref(uid, &r);
        let b = r.borrow_slice();
        let at = &*b as *const Cy<M> as usize;
        let next = {
            let h = b.held.borrow();
            if h.is_empty() { None } else { let k = self.g.below(h.len()); Some((h[k].0, h[k].1.clone())) }
        };
        match next {
            Some((u, r)) if depth < 6 => self.walk(u, r, depth + 1, end),
            _ => match end {
                0 => (),
                1 => {
                    self.insert(true);
                    ensure!(ledger::live() == n, "a refused insertion left {} live values, expected {n}", ledger::live());
                }
                _ => {
                    self.st.add("chains_of_borrows_around_a_drop", 1);
                    ALIVE.with(|a| a.set(false));
                    drop(self.t.take());
                }
            },
        }
        // the value is still there, unmoved
        ensure!(at == &*b as *const Cy<M> as usize, "a borrowed value moved");
        b.tok.check();
        ensure!(ledger::live() == n, "{} live values while a value is borrowed, expected {n}", ledger::live());
        for (_, r) in b.held.borrow().iter() {
            if end == 2 {
                probe(r, "a borrowed value");
            }
        }
        self.st.op("follow_reference");
        drop(b);
    }
    fn run(&mut self, steps: usize) {
        ALIVE.with(|a| a.set(true));
        for _ in 0..steps {
            match self.g.weighted(&[8, 5, 3, 3, 2, 1]) {
                0 if self.m.len() < 50 => self.insert(false),
                0 | 1 => {
                    // a value gets a reference (possibly to itself)
                    if let Some(r) = self.some_ref() {
                        let k = self.g.below(self.m.len());
                        let (s, _, _) = self.at(self.m[k].0);
                        let t = self.t.as_ref().unwrap();
                        let e = t.get(s);
                        let mut h = e.slice().held.borrow_mut();
                        if h.len() > 3 {
                            h.swap_remove(0);
                        }
                        h.push(r);
                        drop(h);
                        self.st.op("store_reference");
                    }
                }
                2 => {
                    if let Some(r) = self.some_ref() {
                        let end = self.g.below(2);
                        self.walk(r.0, r.1, 0, end);
                    }
                }
                3 => {
                    if let (Some(r), true) = (self.some_ref(), self.refs.len() < 12) {
                        self.refs.push(r);
                    }
                }
                4 => {
                    if !self.refs.is_empty() {
                        let k = self.g.below(self.refs.len());
                        self.refs.swap_remove(k);
                    }
                }
                _ => self.check(),
            }
        }
        self.check();
        let n = self.m.len();
        match self.some_ref() {
            Some(r) if self.g.chance(1, 2) => self.walk(r.0, r.1, 0, 2),
            _ => {
                ALIVE.with(|a| a.set(false));
                self.st.op("drop_tree");
                ensure!(ledger::live() == n, "{} live values, {n} entries", ledger::live());
                drop(self.t.take());
            }
        }
        ensure!(ledger::live() == 0, "{} of {n} values survived their tree and its borrows", ledger::live());
        while let Some((_, r)) = self.refs.pop() {
            probe(&r, "the end");
            if self.g.chance(1, 3) {
                let c = r.clone();
                drop(r);
                probe(&c, "the end");
            }
        }
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
    }
}

pub fn cyclic<const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    let nm = format!("values-with-references/M{M}");
    r.config(&nm, n, |seed, _, _| {
        SALT.with(|s| s.set(seed | 1));
        QUERIES.with(|q| q.set(0));
        INSERTING.with(|q| q.set(false));
        let mut d = D::<M> { g: Rng::new(seed), t: Some(RleTree::new_empty()), m: vec![], refs: vec![], uid: 1, st: Default::default(), h: seed };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.run(steps)));
        if let Err(e) = res {
            std::mem::forget(d);
            std::panic::resume_unwind(e);
        }
        let mut st = std::mem::take(&mut d.st);
        let q = QUERIES.with(|q| q.get());
        st.add("queries_by_values_inside_callbacks", q);
        let sample = format!("{} entries at the end, {q} queries by the values themselves", d.m.len());
        Outcome { hash: d.h, nontrivial: q > 0 && st.ops.contains_key("follow_reference"), stats: st, sample }
    });
}

/////////////////////////////////////////////////////////////////////////////////////////////////////

type Tr<const M: usize> = RleTree<usize, Sn<M>, AllowCow, M>;
/// A value that may own a snapshot of a tree of its own family
pub struct Sn<const M: usize> {
    id: u32,
    tok: Token,
    snap: Option<Box<(Tr<M>, u64)>>,
}
/// Everything one level deep that a snapshot shows
fn digest<const M: usize>(t: &Tr<M>) -> u64 {
    let mut h = t.size() as u64 ^ (t.number_of_slices() as u64) << 32;
    for e in t.iter(..) {
        e.slice().tok.check();
        h = mix(h ^ e.range().start as u64 ^ (e.size() as u64) << 20 ^ (e.slice().id as u64) << 40 ^ e.slice().snap.as_ref().map_or(0, |s| s.1));
    }
    h
}
impl<const M: usize> Sn<M> {
    fn new(id: u32, snap: Option<Tr<M>>) -> Self {
        Sn { id, tok: Token::new(), snap: snap.map(|t| { let d = digest(&t); Box::new((t, d)) }) }
    }
    fn check(&self, what: &str) {
        self.tok.check();
        if let Some(s) = &self.snap {
            bump();
            ensure!(digest(&s.0) == s.1, "a snapshot owned by a stored value reads differently in {what}");
        }
    }
}
impl<const M: usize> Clone for Sn<M> {
    fn clone(&self) -> Self {
        if salt() % 4 == 0 {
            self.check("clone");
        }
        Sn { id: self.id, tok: Token::new(), snap: self.snap.as_ref().map(|s| Box::new((s.0.clone(), s.1))) }
    }
}
impl<const M: usize> Drop for Sn<M> {
    fn drop(&mut self) {
        if salt() % 4 == 0 && !std::thread::panicking() {
            self.check("a destructor");
        }
    }
}
impl<const M: usize> Slice<usize> for Sn<M> {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: usize) -> Self {
        self.check("split_at");
        self.clone()
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        // (pieces of one value, whose snapshots are equal)
        if self.id == other.id { Ok(self) } else { Err((self, other)) }
    }
}

/// id, size, digest of the snapshot
type L = Vec<(u32, usize, u64)>;
fn put(l: &mut L, idx: usize, id: u32, size: usize, d: u64) {
    let (mut at, mut k) = (0, 0);
    while k < l.len() && at + l[k].1 <= idx {
        at += l[k].1;
        k += 1;
    }
    if k < l.len() && at < idx {
        let (a, b) = (idx - at, at + l[k].1 - idx);
        if l[k].0 == id {
            l[k].1 += size;
            return;
        }
        l[k].1 = a;
        let (i, s) = (l[k].0, l[k].2);
        l.insert(k + 1, (id, size, d));
        l.insert(k + 2, (i, b, s));
    } else if k > 0 && l[k - 1].0 == id {
        l[k - 1].1 += size;
    } else if k < l.len() && l[k].0 == id {
        l[k].1 += size;
    } else {
        l.insert(k, (id, size, d));
    }
}

fn agree<const M: usize>(t: &Tr<M>, l: &L, what: &str) {
    let (mut at, mut n) = (0, 0);
    for (e, x) in t.iter(..).zip(l) {
        ensure!(e.range() == (at..at + x.1), "{what}: entry {n} covers {:?}, expected {:?}", e.range(), at..at + x.1);
        let v = e.slice();
        v.tok.check();
        ensure!(v.id == x.0 && v.snap.as_ref().map_or(0, |s| s.1) == x.2, "{what}: entry {n} holds value {}, expected {}", v.id, x.0);
        if let Some(s) = &v.snap {
            ensure!(digest(&s.0) == s.1, "{what}: the snapshot in entry {n} has changed");
        }
        at += x.1;
        n += 1;
    }
    ensure!(n == l.len() && n == t.number_of_slices() && t.size() == at, "{what}: {} entries, expected {}", t.number_of_slices(), l.len());
}

/// Copy-on-write families whose values own snapshots of the family
pub fn snapshots<const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    let nm = format!("values-with-snapshots/M{M}");
    r.config(&nm, n, |seed, _, _| {
        SALT.with(|s| s.set(seed | 1));
        QUERIES.with(|q| q.set(0));
        let mut g = Rng::new(seed);
        let mut h = seed;
        let (mut inserts, mut nested, mut clones, mut checks, mut most) = (0, 0, 0, 0, 0);
        let net0 = alloc::net();
        {
            let mut all: Vec<(Tr<M>, L)> = vec![(RleTree::new_empty(), vec![])];
            let mut next = 1;
            for _ in 0..steps {
                let k = g.below(all.len());
                match g.weighted(&[12, 3, 2, 2]) {
                    0 if all[k].1.len() < 40 => {
                        let l = &all[k].1;
                        let total: usize = l.iter().map(|x| x.1).sum();
                        let idx = g.below(total + 1);
                        let size = 1 + g.below(4);
                        let join = g.chance(1, 6) && !l.is_empty();
                        let snap = if join || g.chance(1, 2) {
                            None
                        } else if g.chance(1, 8) && all.len() > 2 {
                            // the member itself moves into the other tree
                            let mut j = g.below(all.len());
                            if j == k {
                                j = (j + 1) % all.len();
                            }
                            Some(std::mem::replace(&mut all[j], (RleTree::new_empty(), vec![])).0)
                        } else {
                            // of any member, the one it goes into included
                            let j = g.below(all.len());
                            Some(all[j].0.clone())
                        };
                        let (t, l) = &mut all[k];
                        // (joining both neighbours is not implemented: see the known findings)
                        let id = if join { l[g.below(l.len())].0 } else { next += 1; next };
                        let (mut at, mut q) = (0, 0);
                        while q < l.len() && at + l[q].1 <= idx {
                            at += l[q].1;
                            q += 1;
                        }
                        let edge = q == l.len() || at == idx;
                        if edge && q > 0 && q < l.len() && l[q - 1].0 == id && l[q].0 == id {
                            continue;
                        }
                        if join && !(edge && ((q > 0 && l[q - 1].0 == id) || (q < l.len() && l[q].0 == id)) || !edge && l[q].0 == id) {
                            continue;
                        }
                        nested += snap.is_some() as u64;
                        let v = Sn::new(id, snap);
                        let d = v.snap.as_ref().map_or(0, |s| s.1);
                        // what is joined to keeps its own snapshot, unless the new value is the left one
                        let takes = edge && !(q > 0 && l[q - 1].0 == id) && q < l.len() && l[q].0 == id;
                        put(l, idx, id, size, d);
                        t.insert(idx, v, size);
                        if takes {
                            l[q].2 = d;
                        }
                        inserts += 1;
                        most = most.max(l.len());
                        h = mix(h ^ idx as u64 ^ (size as u64) << 24 ^ (d != 0) as u64);
                    }
                    1 if all.len() < 5 => {
                        let c = (all[k].0.clone(), all[k].1.clone());
                        all.push(c);
                        clones += 1;
                    }
                    2 if all.len() > 1 => drop(all.swap_remove(k)),
                    _ => {
                        for (t, l) in &all {
                            agree(t, l, "a member");
                        }
                        checks += 1;
                    }
                }
            }
            while !all.is_empty() {
                let k = g.below(all.len());
                drop(all.swap_remove(k));
                for (t, l) in &all {
                    agree(t, l, "a member that is left");
                }
            }
        }
        ensure!(ledger::live() == 0, "{} of {} values were never destroyed", ledger::live(), ledger::created());
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
        let net1 = alloc::net();
        ensure!(net1 == net0, "{} blocks ({} bytes) are still allocated after everything was dropped", net1.0 - net0.0, net1.1 - net0.1);
        let q = QUERIES.with(|q| q.get());
        let mut st = world::Stats::default();
        st.op("snapshot_history");
        st.add("values_that_own_a_snapshot", nested);
        st.add("snapshots_read_inside_callbacks", q);
        st.add("clones", clones);
        st.add("inserts", inserts);
        st.comparisons = checks;
        st.max_runs = most;
        Outcome { hash: h, nontrivial: nested > 2 && most > 2 * M, stats: st, sample: format!("{inserts} insertions, {nested} of them of values that own a snapshot") }
    });
}
