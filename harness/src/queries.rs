//! Queries whose callbacks (index arithmetic and comparisons, cursor building) use the tree and its
//! references while the query runs (C08).
use crate::cursors::VecCursor;
use crate::ledger::{self, Token};
use crate::report::{quiet_catch, Outcome, Runner};
use crate::rng::{mix, Rng};
use crate::world;
use sherman::param::AllowSliceRefs;
use sherman::{Borrow, Cursor, DirectionalAdd, DirectionalSub, Index, PathComponent, RleTree, Slice, SliceRef};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::rc::Rc;

type Action = Box<dyn FnOnce()>;
thread_local! {
    /// what happens at which further callback
    static HOOK: RefCell<Option<(u32, Action)>> = const { RefCell::new(None) };
    static SEEN: Cell<u32> = const { Cell::new(0) };
}
fn tick() {
    SEEN.with(|s| s.set(s.get() + 1));
    let a = HOOK.with(|h| {
        // (the hook itself is being replaced: nothing to do)
        let mut h = h.try_borrow_mut().ok()?;
        match &mut *h {
            Some((0, _)) => h.take().map(|x| x.1),
            Some((k, _)) => {
                *k -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(a) = a {
        a()
    }
}
fn arm(k: u32, a: Action) {
    HOOK.with(|h| *h.borrow_mut() = Some((k, a)));
}
/// Whether it had fired
fn disarm() -> bool {
    HOOK.with(|h| h.borrow_mut().take()).is_none()
}

/// An index whose every operation is a callback
#[derive(Debug, Copy, Clone)]
pub struct HIdx(usize);
impl PartialEq for HIdx {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for HIdx {}
impl PartialOrd for HIdx {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HIdx {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl DirectionalAdd for HIdx {
    fn add_left(self, l: Self) -> Self {
        tick();
        HIdx(l.0 + self.0)
    }
    fn add_right(self, r: Self) -> Self {
        tick();
        HIdx(self.0 + r.0)
    }
}
impl DirectionalSub for HIdx {
    fn sub_left(self, l: Self) -> Self {
        tick();
        HIdx(self.0 - l.0)
    }
    fn sub_right(self, r: Self) -> Self {
        tick();
        HIdx(self.0 - r.0)
    }
}
impl Index for HIdx {
    const ZERO: Self = HIdx(0);
}

struct HCursor(VecCursor);
impl Cursor for HCursor {
    fn new_empty() -> Self {
        tick();
        HCursor(VecCursor::default())
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        tick();
        self.0.prepend_to_path(c)
    }
    type PathIter = <VecCursor as Cursor>::PathIter;
    fn into_path(self) -> Self::PathIter {
        tick();
        self.0.into_path()
    }
}

pub struct V {
    id: u32,
    tok: Token,
}
impl Slice<HIdx> for V {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: HIdx) -> Self {
        self.tok.check();
        V { id: self.id, tok: Token::new() }
    }
}

type T<const M: usize> = RleTree<HIdx, V, AllowSliceRefs, M>;
type R<const M: usize> = SliceRef<HIdx, V, M>;
/// start, end and value
type E = (usize, usize, u32);

/// Everything a callback can reach
struct Sh<const M: usize> {
    /// borrows, each before the reference it comes from
    held: RefCell<Vec<(Borrow<'static, V>, u32, Rc<R<M>>)>>,
    tree: RefCell<Option<T<M>>>,
    /// entries, never changed while a query runs
    m: RefCell<Vec<E>>,
    /// references to the entries
    refs: RefCell<Vec<(Rc<R<M>>, E)>>,
    g: RefCell<Rng>,
    alive: Cell<bool>,
    /// a query on a reference is running, i.e. the tree is borrowed
    borrowed: Cell<bool>,
    did: RefCell<Vec<&'static str>>,
}
struct Stop;

impl<const M: usize> Sh<M> {
    fn below(&self, n: usize) -> usize {
        self.g.borrow_mut().below(n)
    }
    fn some_entry(&self) -> E {
        let m = self.m.borrow();
        m[self.g.borrow_mut().below(m.len())]
    }
    fn some_ref(&self) -> Option<(Rc<R<M>>, E)> {
        let r = self.refs.borrow();
        if r.is_empty() {
            return None;
        }
        let k = self.g.borrow_mut().below(r.len());
        Some((r[k].0.clone(), r[k].1))
    }
    /// A query on a reference is running, and no query on the tree itself
    fn mutable(&self) -> bool {
        self.borrowed.get() && self.alive.get() && self.tree.try_borrow_mut().is_ok()
    }
    fn note(&self, w: &'static str) {
        self.did.borrow_mut().push(w);
    }
    fn check_ref(&self, r: &R<M>, e: E) {
        if self.alive.get() {
            ensure!(r.is_valid() && r.can_borrow(), "a reference to {e:?} is unusable inside of a query");
            let b = r.borrow_slice();
            b.tok.check();
            ensure!(b.id == e.2, "a reference to {e:?} borrows value {}", b.id);
            ensure!(r.range() == (HIdx(e.0)..HIdx(e.1)), "a reference to {e:?} reports {:?}", r.range());
        } else {
            ensure!(!r.is_valid() && !r.can_borrow(), "a reference is usable after the tree was dropped (is_valid {}, can_borrow {})", r.is_valid(), r.can_borrow());
            ensure!(r.try_borrow_slice().is_none() && r.try_range().is_none() && r.try_cursor::<VecCursor>().is_none(), "a try_ query succeeds after the tree was dropped");
        }
    }
    /// One thing that code inside of a query's callback does
    fn act(self: &Rc<Self>, depth: usize) {
        let n = self.m.borrow().len();
        match self.below(11) {
            0 | 1 => {
                // a new reference to some entry
                if self.alive.get() {
                    let e = self.some_entry();
                    let r = {
                        let t = self.tree.borrow();
                        let t = t.as_ref().unwrap();
                        let en = t.get(HIdx(e.0));
                        let r = en.make_ref();
                        ensure!(std::ptr::eq(&*r.borrow_slice(), en.slice()), "a new reference borrows another object");
                        r
                    };
                    self.check_ref(&r, e);
                    self.refs.borrow_mut().push((Rc::new(r), e));
                    self.note("make_ref");
                }
            }
            2 => {
                if let Some((r, e)) = self.some_ref() {
                    let c = R::clone(&r);
                    self.check_ref(&c, e);
                    if self.below(2) == 0 {
                        self.refs.borrow_mut().push((Rc::new(c), e));
                    }
                    self.note("clone_ref");
                }
            }
            3 => {
                let k = self.refs.borrow().len();
                if k > 1 {
                    let k = self.below(k);
                    // (the one being queried stays alive through its other handle)
                    let x = self.refs.borrow_mut().swap_remove(k);
                    drop(x);
                    self.note("drop_ref");
                }
            }
            4 => {
                if let Some((r, e)) = self.some_ref() {
                    if self.alive.get() {
                        // SAFETY: the reference is kept alive next to the borrow, and dropped after it
                        let b: Borrow<'static, V> = unsafe { std::mem::transmute(r.borrow_slice()) };
                        ensure!(b.id == e.2, "a borrow inside of a query reads value {}, expected {}", b.id, e.2);
                        self.held.borrow_mut().push((b, e.2, r));
                        self.note("hold_borrow");
                    }
                }
            }
            5 => {
                let x = { let mut h = self.held.borrow_mut(); if h.is_empty() { None } else { let k = self.g.borrow_mut().below(h.len()); Some(h.swap_remove(k)) } };
                if let Some((b, id, _r)) = x {
                    ensure!(b.id == id, "a held borrow reads value {}, expected {id}", b.id);
                    b.tok.check();
                    drop(b);
                    self.note("release_borrow");
                }
            }
            6 => {
                // mutation is refused
                if self.mutable() {
                    let r = quiet_catch(|| {
                        let mut t = self.tree.borrow_mut();
                        let at = HIdx(self.below(n));
                        t.as_mut().unwrap().insert(at, V { id: 9999, tok: Token::new() }, HIdx(1))
                    });
                    ensure!(r.is_err(), "an insertion succeeded inside of a query on a reference");
                    self.note("refused_insert");
                }
            }
            7 | 8 => {
                if self.mutable() && self.below(3) == 0 {
                    self.alive.set(false);
                    let t = self.tree.borrow_mut().take();
                    drop(t);
                    ensure!(ledger::live() == n, "{} of {n} values left although the query that runs has the tree borrowed", ledger::live());
                    self.note("drop_tree");
                }
            }
            9 if depth < 3 => {
                // another query, with a callback of its own
                self.note("nested_query");
                self.query(depth + 1);
            }
            _ => {
                if let Some((r, e)) = self.some_ref() {
                    self.check_ref(&r, e);
                    self.note("ask_ref");
                }
            }
        }
        ensure!(ledger::live() == n, "{} live values while a query runs, expected {n}", ledger::live());
    }
    /// Runs one query with something happening inside
    fn query(self: &Rc<Self>, depth: usize) {
        let k = self.below(if depth == 0 { 14 } else { 6 }) as u32;
        let me = self.clone();
        let acts = 1 + self.below(3);
        let fail = depth == 0 && self.below(12) == 0;
        let kind = self.below(8);
        let (was_alive, was_borrowed) = (self.alive.get(), self.borrowed.get());
        let on_ref = kind < 5;
        let the_ref = self.some_ref();
        if !was_alive {
            return;
        }
        let job = move || {
            for _ in 0..acts {
                me.act(depth);
            }
            if fail {
                std::panic::panic_any(Stop);
            }
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if on_ref {
                let Some((r, e)) = the_ref else { return };
                self.borrowed.set(true);
                arm(k, Box::new(job));
                match kind {
                    0 | 1 => {
                        let got = if kind == 0 { r.range() } else { r.try_range().expect("MONITOR: try_range() fails on a live tree") };
                        HOOK.with(|h| h.borrow_mut().take());
                        ensure!((got.start.0, got.end.0) == (e.0, e.1), "range() of {e:?} answered {got:?}");
                    }
                    2 | 3 => {
                        let got: HCursor = if kind == 2 { r.cursor() } else { r.try_cursor().expect("MONITOR: try_cursor() fails on a live tree") };
                        HOOK.with(|h| h.borrow_mut().take());
                        let t = self.tree.borrow();
                        if let Some(t) = t.as_ref() {
                            let want: VecCursor = t.get(HIdx(e.0)).cursor();
                            ensure!(got.0 == want, "cursor() of {e:?} answered {:?}, expected {want:?}", got.0);
                        }
                    }
                    _ => {
                        let b = r.borrow_slice();
                        let id = Borrow::map(b, |v| {
                            tick();
                            &v.id
                        });
                        HOOK.with(|h| h.borrow_mut().take());
                        ensure!(*id == e.2, "a borrow of {e:?} reads {}", *id);
                    }
                }
            } else {
                let e = self.some_entry();
                let t = self.tree.borrow();
                let t = t.as_ref().unwrap();
                arm(k, Box::new(job));
                match kind {
                    5 => {
                        let en = t.get_with_cursor(HCursor(VecCursor::default()), HIdx(e.1 - 1));
                        ensure!(en.slice().id == e.2, "get({}) shows value {}", e.1 - 1, en.slice().id);
                        let c: HCursor = en.cursor();
                        drop(c);
                        let rg = en.range();
                        ensure!((rg.start.0, rg.end.0) == (e.0, e.1), "get({}) is at {rg:?}", e.1 - 1);
                        let r = en.make_ref();
                        HOOK.with(|h| h.borrow_mut().take());
                        self.check_ref(&r, e);
                    }
                    6 => {
                        let mut at = 0;
                        for en in t.iter(..) {
                            let rg = en.range();
                            ensure!(rg.start.0 == at, "iteration goes on at {rg:?}, expected {at}");
                            at = rg.end.0;
                        }
                        HOOK.with(|h| h.borrow_mut().take());
                        ensure!(at == self.m.borrow().last().unwrap().1, "iteration ends at {at}");
                    }
                    _ => {
                        let c: HCursor = t.cursor_to(HIdx(e.0));
                        HOOK.with(|h| h.borrow_mut().take());
                        let want: VecCursor = t.get(HIdx(e.0)).cursor();
                        ensure!(c.0 == want, "cursor_to({}) answered {:?}, expected {want:?}", e.0, c.0);
                    }
                }
            }
        }));
        disarm();
        self.borrowed.set(was_borrowed);
        if let Err(p) = r {
            if !p.is::<Stop>() {
                std::panic::resume_unwind(p);
            }
            self.note("callback_panicked");
        }
        // values outlive the tree exactly as long as something borrows it
        let n = self.m.borrow().len();
        let dead = !self.alive.get() && !was_borrowed && self.held.borrow().is_empty();
        let want = if dead { 0 } else { n };
        ensure!(ledger::live() == want, "{} live values after the query, expected {want} (tree {}, {} borrows held)", ledger::live(), if self.alive.get() { "alive" } else { "dropped in the query" }, self.held.borrow().len());
    }
    /// (no query is running)
    fn insert(&self) {
        let mut t = self.tree.borrow_mut();
        let t = t.as_mut().unwrap();
        let mut m = self.m.borrow_mut();
        let total = m.last().map_or(0, |e| e.1);
        let (at, size) = (self.below(total + 1), 1 + self.below(4));
        let id = total as u32 * 31 + size as u32;
        t.insert(HIdx(at), V { id, tok: Token::new() }, HIdx(size));
        // the pieces of a divided entry: the left one keeps the references
        let mut out: Vec<E> = vec![];
        let mut put = false;
        for &(s, e, v) in m.iter() {
            if at <= s && !put {
                out.push((at, at + size, id));
                put = true;
            }
            if s < at && at < e {
                out.push((s, at, v));
                out.push((at, at + size, id));
                out.push((at + size, e + size, v));
                put = true;
            } else if at <= s {
                out.push((s + size, e + size, v));
            } else {
                out.push((s, e, v));
            }
        }
        if !put {
            out.push((at, at + size, id));
        }
        *m = out;
        for (_, e) in self.refs.borrow_mut().iter_mut() {
            if e.0 < at && at < e.1 {
                e.1 = at;
            } else if at <= e.0 {
                e.0 += size;
                e.1 += size;
            }
        }
    }
}

fn one<const M: usize>(seed: u64, steps: usize, st: &mut world::Stats) -> (u64, bool, String) {
    let sh = Rc::new(Sh::<M> {
        held: Default::default(),
        tree: RefCell::new(Some(RleTree::new_empty())),
        m: Default::default(),
        refs: Default::default(),
        g: RefCell::new(Rng::new(seed)),
        alive: Cell::new(true),
        borrowed: Cell::new(false),
        did: Default::default(),
    });
    let mut h = seed;
    SEEN.with(|s| s.set(0));
    let fill = 1 + sh.below(if cfg!(miri) { 12 } else { 40 });
    for _ in 0..fill {
        sh.insert();
    }
    let (mut queries, mut fired) = (0, 0);
    for _ in 0..steps {
        if !sh.alive.get() {
            break;
        }
        if sh.held.borrow().is_empty() && sh.below(3) == 0 && sh.m.borrow().len() < 80 {
            sh.insert();
            st.op("insert");
        } else {
            let before = sh.did.borrow().len();
            sh.query(0);
            queries += 1;
            fired += (sh.did.borrow().len() > before) as u64;
            st.op("query");
            // (borrows are sometimes kept over several queries)
            if sh.below(3) == 0 {
                let hs = sh.held.take();
                for (b, id, _r) in hs {
                    ensure!(b.id == id, "a held borrow reads value {}, expected {id}", b.id);
                }
            }
        }
    }
    let n = sh.m.borrow().len();
    let dropped_inside = !sh.alive.get();
    for (r, e) in sh.refs.borrow().iter() {
        sh.check_ref(r, *e);
    }
    for (b, id, _r) in sh.held.take() {
        b.tok.check();
        ensure!(b.id == id, "a held borrow reads value {}, expected {id}", b.id);
    }
    sh.alive.set(false);
    let t = sh.tree.borrow_mut().take();
    drop(t);
    ensure!(ledger::live() == 0, "{} of {n} values survived their tree and its borrows", ledger::live());
    for (r, e) in sh.refs.take() {
        sh.check_ref(&r, e);
    }
    if let Some(f) = ledger::take_fault() {
        panic!("MONITOR: value ledger: {f}");
    }
    let did = sh.did.take();
    for d in &did {
        h = mix(h ^ d.len() as u64 ^ (d.as_bytes()[0] as u64) << 8);
        st.op(d);
    }
    st.add("queries_interrupted_by_user_code", fired);
    st.add("trees_dropped_inside_of_a_query", dropped_inside as u64);
    st.comparisons += queries;
    (h, fired > 3, format!("{queries} queries, {fired} of them with code inside, {} callbacks, {n} entries", SEEN.with(|s| s.get())))
}

pub fn callbacks<const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    r.config(&format!("query-callbacks/M{M}"), n, |seed, _, _| {
        let mut st = world::Stats::default();
        let (hash, nontrivial, sample) = one::<M>(seed, steps, &mut st);
        Outcome { hash, nontrivial, stats: st, sample }
    });
}
