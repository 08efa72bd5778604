//! C08: borrow protocol and lifecycle of slice references.
use monitors::report::quiet_catch;
use monitors::*;
use monitors::{cursors::VecCursor, idx::TIdx, ledger, model::*, rng::*, slices::*};
use sherman::param::AllowSliceRefs;
use sherman::{Borrow, RleTree, SliceRef};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type Ref<I, K, const M: usize> = SliceRef<I, Sl<I, K>, M>;

/// References live in boxes so that borrows can be held next to them
struct Held<I: TIdx, K: Kind, const M: usize> {
    r: Box<Ref<I, K, M>>,
    uid: u64,
    pins: usize,
}

enum AnyBorrow<I: TIdx, K: Kind> {
    Whole(Borrow<'static, Sl<I, K>>),
    Id(Borrow<'static, u32>),
}

struct Live<I: TIdx, K: Kind> {
    b: AnyBorrow<I, K>,
    owner: u64,
    desc: Desc<I>,
    addr: usize,
}
impl<I: TIdx, K: Kind> Live<I, K> {
    fn check(&self) {
        match &self.b {
            AnyBorrow::Whole(b) => {
                ensure!(b.desc() == self.desc, "a held borrow now reads {:?}, it read {:?} when taken", b.desc(), self.desc);
                ensure!(&**b as *const Sl<I, K> as usize == self.addr, "a held borrow moved");
            }
            AnyBorrow::Id(b) => ensure!(**b == self.desc.0, "a mapped borrow reads {}, expected {}", **b, self.desc.0),
        }
    }
}

struct D<I: TIdx, K: Kind, const M: usize> {
    g: Rng,
    st: world::Stats,
    t: Option<RleTree<I, Sl<I, K>, AllowSliceRefs, M>>,
    m: Model<I, K>,
    refs: Vec<Held<I, K, M>>,
    bs: Vec<Live<I, K>>,
    uid: u64,
    fresh: u32,
    log: Vec<String>,
    logging: bool,
    h: u64,
}

macro_rules! note { ($s:expr, $($a:tt)*) => { if $s.logging { $s.log.push(format!($($a)*)); } } }

/// What every reference must answer while the tree cannot be accessed
fn probe_inaccessible<I: TIdx, K: Kind, const M: usize>(r: &Ref<I, K, M>, what: &str, deep: bool) {
    ensure!(!r.can_borrow(), "can_borrow() is true {what}");
    ensure!(r.try_borrow_slice().is_none(), "try_borrow_slice() succeeds {what}");
    ensure!(r.try_range().is_none(), "try_range() succeeds {what}");
    ensure!(r.try_cursor::<VecCursor>().is_none(), "try_cursor() succeeds {what}");
    if deep {
        ensure!(quiet_catch(|| drop(r.borrow_slice())).is_err(), "borrow_slice() does not panic {what}");
        ensure!(quiet_catch(|| drop(r.range())).is_err(), "range() does not panic {what}");
        ensure!(quiet_catch(|| drop(r.cursor::<VecCursor>())).is_err(), "cursor() does not panic {what}");
    }
}
fn probe_dead<I: TIdx, K: Kind, const M: usize>(r: &Ref<I, K, M>, what: &str, deep: bool) {
    ensure!(!r.is_valid(), "is_valid() is true {what}");
    probe_inaccessible(r, what, deep);
    let c = r.clone();
    ensure!(!c.is_valid() && !c.can_borrow(), "a clone of an invalid reference is usable {what}");
    let cc = c.clone();
    drop(c);
    ensure!(!cc.is_valid(), "a clone of a clone of an invalid reference is usable {what}");
}

impl<I: TIdx, K: Kind, const M: usize> D<I, K, M> {
    fn new(seed: u64, logging: bool) -> Self {
        D {
            g: Rng::new(seed),
            st: Default::default(),
            t: Some(RleTree::new_empty()),
            m: Model::new(),
            refs: vec![],
            bs: vec![],
            uid: 1,
            fresh: 1,
            log: vec![],
            logging,
            h: seed,
        }
    }
    fn gen(&mut self) -> Option<(I, u32, I, I)> {
        let g = &mut self.g;
        let size = I::gen_size(g);
        if !I::fits(self.m.size(), size) {
            return None;
        }
        let n = self.m.len();
        let (mut idx, mut left) = (I::ZERO, None);
        if n > 0 {
            let at = g.range(0, n);
            idx = if at == n { self.m.size() } else { self.m.starts[at] };
            left = at.checked_sub(1).map(|k| self.m.runs[k]);
            if at < n && g.chance(1, 2) {
                if let Some(u) = I::gen_inside(g, self.m.runs[at].len) {
                    idx = idx.add_right(u);
                    left = Some(Run { len: u, ..self.m.runs[at] });
                }
            }
        }
        let (mut id, mut off) = (0, I::ZERO);
        match left {
            Some(l) if g.chance(1, 3) => {
                id = l.id;
                if K::TRACKS_OFF {
                    off = l.off.add_right(l.len);
                }
            }
            _ => {
                self.fresh += 1;
                id += if K::TRACKS_OFF { self.fresh } else { g.below(4) as u32 };
            }
        }
        if self.m.plan(idx, id, off, size, 0).kind == InsKind::EdgeBoth {
            self.fresh += 1;
            id = 1000 + self.fresh;
        }
        Some((idx, id, off, size))
    }
    /// The references answer like the model says (tree alive)
    fn check_refs(&mut self) {
        let t = self.t.as_ref().unwrap();
        for h in &self.refs {
            let p = self.m.runs.iter().position(|x| x.uid == h.uid).expect("model lost a run");
            let (s, e) = (self.m.starts[p], self.m.end(p));
            ensure!(h.r.is_valid() && h.r.can_borrow(), "a reference to entry {p} is unusable (valid {}, can borrow {})", h.r.is_valid(), h.r.can_borrow());
            ensure!(h.r.range() == (s..e), "a reference to entry {p} reports {:?}, expected {:?}", h.r.range(), s..e);
            let b = h.r.borrow_slice();
            ensure!(b.desc() == self.m.runs[p].desc(), "a reference to entry {p} borrows {:?}", b.desc());
            ensure!(std::ptr::eq(&*b, t.get(s).slice()), "a reference to entry {p} borrows another object than get() shows");
            self.st.comparisons += 1;
        }
        for b in &self.bs {
            b.check();
        }
    }
    fn check_tree(&mut self) {
        let t = self.t.as_ref().unwrap();
        ensure!(t.size() == self.m.size() && t.number_of_slices() == self.m.len(), "size or slice count differ from the model");
        let mut k = 0;
        for e in t.iter(..) {
            ensure!(k < self.m.len(), "too many entries");
            ensure!(e.range() == (self.m.starts[k]..self.m.end(k)) && e.slice().desc() == self.m.runs[k].desc(), "entry {k} differs from the model");
            k += 1;
        }
        ensure!(k == self.m.len(), "entries are missing");
        let extra = 0;
        ensure!(ledger::live() == self.m.len() + extra, "{} live values, {} entries", ledger::live(), self.m.len());
        self.check_refs();
    }
    fn insert(&mut self) {
        if self.m.len() > 60 {
            return;
        }
        let Some((idx, id, off, size)) = self.gen() else { return };
        self.uid += 2;
        let with_ref = self.refs.len() < 24 && self.g.chance(1, 2);
        self.h = mix(self.h ^ idx.enc()[0] as u64 ^ (size.enc()[0] as u64) << 20 ^ (with_ref as u64) << 50);
        if !self.bs.is_empty() {
            // refused: the tree is borrowed
            note!(self, "insert({idx:?}, {id}, {size:?}) while {} borrows are held", self.bs.len());
            let live = ledger::live();
            let t = self.t.as_mut().unwrap();
            let r = if with_ref {
                quiet_catch(|| drop(t.insert_ref(idx, Sl::new(id, off, size), size)))
            } else {
                quiet_catch(|| t.insert(idx, Sl::new(id, off, size), size))
            };
            ensure!(r.is_err(), "an insertion succeeded while {} borrows were held", self.bs.len());
            slices::take_events();
            ensure!(ledger::live() == live, "a refused insertion changed the number of live values from {live} to {}", ledger::live());
            self.st.op("insert_refused_while_borrowed");
            self.check_tree();
            return;
        }
        let p = self.m.plan(idx, id, off, size, self.uid);
        note!(self, "insert({idx:?}, {id}, {size:?}) ref {with_ref}");
        *self.st.kinds.entry(p.kind).or_default() += 1;
        // inside callbacks the tree is mutably borrowed
        let ptrs: Vec<*const Ref<I, K, M>> = self.refs.iter().map(|h| &*h.r as *const _).collect();
        let probes = Rc::new(Cell::new(0u64));
        let kept: Rc<RefCell<Vec<(usize, Ref<I, K, M>)>>> = Rc::default();
        if self.g.chance(2, 3) && !ptrs.is_empty() {
            let (pr, kp, mut g) = (probes.clone(), kept.clone(), Rng::new(self.g.u64()));
            set_hook(Some(Box::new(move || {
                let deep = g.chance(1, 6);
                for (k, p) in ptrs.iter().enumerate() {
                    // SAFETY: the boxes are not touched during the insertion
                    let r = unsafe { &**p };
                    probe_inaccessible(r, "inside a callback of an insertion", deep);
                    let c = r.clone();
                    ensure!(!c.can_borrow(), "a clone made inside a callback can be borrowed there");
                    if g.chance(1, 4) {
                        kp.borrow_mut().push((k, c));
                    }
                    pr.set(pr.get() + 1);
                }
            })));
        }
        let t = self.t.as_mut().unwrap();
        let r = if with_ref { Some(t.insert_ref(idx, Sl::new(id, off, size), size)) } else { t.insert(idx, Sl::new(id, off, size), size); None };
        set_hook(None);
        slices::take_events();
        self.st.add("queries_inside_callbacks", probes.get());
        self.st.op("insert");
        let uid = p.runs[p.result].uid;
        self.m.commit(p);
        if let Some(r) = r {
            self.refs.push(Held { r: Box::new(r), uid, pins: 0 });
        }
        for (k, c) in kept.borrow_mut().drain(..) {
            if self.refs.len() < 32 {
                let uid = self.refs[k].uid;
                self.refs.push(Held { r: Box::new(c), uid, pins: 0 });
            }
        }
    }
    fn borrow(&mut self) {
        if self.refs.is_empty() || self.bs.len() >= 6 {
            return;
        }
        let k = self.g.below(self.refs.len());
        note!(self, "borrow through reference {k}");
        // SAFETY: the box outlives the borrow: it is pinned until the borrow is dropped
        let r: &'static Ref<I, K, M> = unsafe { &*(&*self.refs[k].r as *const _) };
        let b = if self.g.chance(1, 2) { r.borrow_slice() } else { r.try_borrow_slice().expect("a valid reference could not be borrowed") };
        self.refs[k].pins += 1;
        let (desc, addr) = (b.desc(), &*b as *const _ as usize);
        let p = self.m.runs.iter().position(|x| x.uid == self.refs[k].uid).unwrap();
        ensure!(desc == self.m.runs[p].desc(), "borrowed {desc:?}, expected {:?}", self.m.runs[p].desc());
        let b = if self.g.chance(1, 3) { AnyBorrow::Id(Borrow::map(b, |s| &s.id)) } else { AnyBorrow::Whole(b) };
        // identify the pinned reference by address
        self.bs.push(Live { b, owner: r as *const _ as u64, desc, addr });
        self.st.op("borrow");
    }
    fn clone_borrow(&mut self) {
        if self.bs.is_empty() || self.bs.len() >= 8 {
            return;
        }
        let k = self.g.below(self.bs.len());
        note!(self, "clone borrow {k}");
        let b = match &self.bs[k].b {
            AnyBorrow::Whole(b) => {
                let c = b.clone();
                if self.g.chance(1, 3) { AnyBorrow::Id(Borrow::map(c, |s| &s.id)) } else { AnyBorrow::Whole(c) }
            }
            AnyBorrow::Id(b) => AnyBorrow::Id(b.clone()),
        };
        let (owner, desc, addr) = (self.bs[k].owner, self.bs[k].desc, self.bs[k].addr);
        self.pin(owner, 1);
        self.bs.push(Live { b, owner, desc, addr });
        self.st.op("clone_borrow");
    }
    fn pin(&mut self, owner: u64, d: isize) {
        let h = self.refs.iter_mut().find(|h| &*h.r as *const _ as u64 == owner).unwrap();
        h.pins = (h.pins as isize + d) as usize;
    }
    fn drop_borrow(&mut self) {
        if self.bs.is_empty() {
            return;
        }
        let k = self.g.below(self.bs.len());
        note!(self, "drop borrow {k}");
        let b = self.bs.swap_remove(k);
        b.check();
        let o = b.owner;
        drop(b);
        self.pin(o, -1);
        self.st.op("drop_borrow");
    }
    fn ref_op(&mut self) {
        match self.g.below(4) {
            0 if !self.m.is_empty() && self.refs.len() < 24 => {
                let k = self.g.below(self.m.len());
                let r = self.t.as_ref().unwrap().get(self.m.starts[k]).make_ref();
                self.refs.push(Held { r: Box::new(r), uid: self.m.runs[k].uid, pins: 0 });
                self.st.op("make_ref");
            }
            1 | 2 if !self.refs.is_empty() && self.refs.len() < 24 => {
                let k = self.g.below(self.refs.len());
                let h = Held { r: Box::new((*self.refs[k].r).clone()), uid: self.refs[k].uid, pins: 0 };
                self.refs.push(h);
                self.st.op("clone_ref");
            }
            _ => {
                if let Some(k) = (0..self.refs.len()).find(|k| self.refs[*k].pins == 0) {
                    self.refs.swap_remove(k);
                    self.st.op("drop_ref");
                }
            }
        }
    }
    /// Drops the tree, possibly under live borrows, and follows everything to the end
    fn finale(&mut self) {
        let n = self.m.len();
        let deep = self.g.chance(1, 3);
        ensure!(ledger::live() == n, "{} live values, {n} entries", ledger::live());
        // during the destructors, nothing can be reached any more
        let ptrs: Vec<*const Ref<I, K, M>> = self.refs.iter().map(|h| &*h.r as *const _).collect();
        let in_drop = Rc::new(Cell::new(0u64));
        if self.g.chance(2, 3) && !ptrs.is_empty() {
            let (c, mut g) = (in_drop.clone(), Rng::new(self.g.u64()));
            set_drop_hook(Some(Box::new(move || {
                if g.chance(1, 2) {
                    for p in &ptrs {
                        // SAFETY: the boxes are not touched while destructors run
                        probe_dead(unsafe { &**p }, "inside a destructor of a dropped tree", false);
                        c.set(c.get() + 1);
                    }
                }
            })));
        }
        if self.bs.is_empty() {
            self.st.op("drop_tree");
            drop(self.t.take());
            set_drop_hook(None);
            ensure!(ledger::live() == 0, "{} values survived dropping the tree", ledger::live());
        } else {
            self.st.op("drop_tree_while_borrowed");
            drop(self.t.take());
            ensure!(ledger::live() == n, "dropping a borrowed tree of {n} entries left {} live values", ledger::live());
            while !self.bs.is_empty() {
                for b in &self.bs {
                    b.check();
                }
                // borrows can still be cloned and mapped
                if self.g.chance(1, 4) && self.bs.len() < 8 {
                    self.clone_borrow();
                }
                for k in 0..self.refs.len() {
                    probe_dead(&self.refs[k].r, "after the tree was dropped under a borrow", deep);
                }
                ensure!(ledger::live() == n, "{} of {n} values left while a borrow is still held", ledger::live());
                self.drop_borrow();
                self.st.comparisons += 1;
            }
            set_drop_hook(None);
            ensure!(ledger::live() == 0, "{} values survived the last borrow of a dropped tree", ledger::live());
        }
        self.st.add("queries_inside_destructors", in_drop.get());
        // references, clones of references, in any order
        while !self.refs.is_empty() {
            let k = self.g.below(self.refs.len());
            probe_dead(&self.refs[k].r, "after the tree was dropped", deep);
            if self.g.chance(1, 3) && self.refs.len() < 40 {
                let c = Held { r: Box::new((*self.refs[k].r).clone()), uid: 0, pins: 0 };
                self.refs.push(c);
            }
            if self.g.chance(2, 3) {
                self.refs.swap_remove(k);
            }
        }
    }
    fn run(&mut self, steps: usize) {
        for _ in 0..steps {
            match self.g.weighted(&[40, 14, 6, 24, 16, 6]) {
                0 => self.insert(),
                1 => self.borrow(),
                2 => self.clone_borrow(),
                3 => self.drop_borrow(),
                4 => self.ref_op(),
                _ => self.check_tree(),
            }
            if let Some(f) = ledger::take_fault() {
                panic!("MONITOR: value ledger: {f}");
            }
        }
        self.check_tree();
        if self.g.chance(1, 2) {
            self.borrow();
            self.borrow();
        }
        self.finale();
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: value ledger: {f}");
        }
    }
}

fn go<I: TIdx, K: Kind, const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    let nm = format!("{}/{}/M{M}", I::NAME, K::NAME);
    r.config(&nm, n, |seed, logging, log| {
        let net0 = alloc::net();
        let out;
        {
            let mut d = D::<I, K, M>::new(seed, logging);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.run(steps)));
            *log = std::mem::take(&mut d.log);
            if let Err(e) = res {
                set_hook(None);
                set_drop_hook(None);
                std::mem::forget(d);
                std::panic::resume_unwind(e);
            }
            let nt = d.st.ops.contains_key("insert_refused_while_borrowed");
            let h = d.h;
            let sample = format!("{} entries at the end, ops {:?}", d.m.len(), d.st.ops);
            let st = std::mem::take(&mut d.st);
            out = Outcome { hash: h, nontrivial: nt, stats: st, sample };
        }
        let _ = net0;
        out
    });
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 30 } else { 1 };
    if cfg!(miri) {
        go::<usize, KPiece, 1>(&mut r, 8 * k, 60);
        go::<usize, KConst, 2>(&mut r, 4 * k, 60);
        nested::cyclic::<1>(&mut r, 8 * k, 40);
        nested::cyclic::<2>(&mut r, 4 * k, 40);
        queries::callbacks::<1>(&mut r, 8 * k, 30);
        r.finish();
        return;
    }
    go::<usize, KPiece, 1>(&mut r, 2000 * k, 150);
    go::<usize, KConst, 1>(&mut r, 1500 * k, 150);
    go::<usize, KUniq, 2>(&mut r, 1000 * k, 150);
    go::<u64, KPieceA64, 3>(&mut r, 500 * k, 150);
    go::<u32, KStubborn, 5>(&mut r, 500 * k, 200);
    go::<usize, KPiece, 127>(&mut r, 60 * k, 400);
    nested::cyclic::<1>(&mut r, 1000 * k, 120);
    nested::cyclic::<2>(&mut r, 600 * k, 120);
    nested::cyclic::<4>(&mut r, 200 * k, 160);
    queries::callbacks::<1>(&mut r, 1000 * k, 60);
    queries::callbacks::<2>(&mut r, 600 * k, 60);
    queries::callbacks::<5>(&mut r, 200 * k, 60);
    many::borrows::<1>(&mut r);
    many::references::<2>(&mut r);
    forgot::borrows::<1>(&mut r, 150 * k);
    forgot::borrows::<3>(&mut r, 150 * k);
    r.finish();
}
