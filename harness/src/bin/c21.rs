//! C21: what may cross threads. Every handle type is offered to other threads for all combinations of
//! thread-safety of the stored types; whenever the compiler's auto traits let it across, it is used and
//! destroyed there while thread-affine values watch.
use monitors::*;
use sherman::param::*;
use sherman::{Borrow, BoundedCursor, Cursor, Index, Iter, NoCursor, RleTree, Slice, SliceEntry, SliceRef};
use std::cell::{Cell, UnsafeCell};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;
use std::thread::ThreadId;

// ------------------------------------------------------------------ marker probes

macro_rules! is {
    ($tr:ident, $t:ty) => {{
        struct W<T: ?Sized>(PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const V: bool = false;
        }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> W<T> {
            const V: bool = true;
        }
        <W<$t>>::V
    }};
}

// ------------------------------------------------------------------ thread-affine types

static FOREIGN_SEND: AtomicU64 = AtomicU64::new(0);
static FOREIGN_SYNC: AtomicU64 = AtomicU64::new(0);
static TOUCHES: AtomicU64 = AtomicU64::new(0);

pub trait Safety: 'static {
    const NAME: &'static str;
    const SEND: bool;
    const SYNC: bool;
    type Mark;
    fn mark() -> Self::Mark;
}
macro_rules! safety {
    ($($n:ident, $name:expr, $send:expr, $sync:expr, $m:ty);*) => { $(
        pub struct $n;
        impl Safety for $n {
            const NAME: &'static str = $name;
            const SEND: bool = $send;
            const SYNC: bool = $sync;
            type Mark = PhantomData<$m>;
            fn mark() -> Self::Mark { PhantomData }
        }
    )* };
}
safety!(Both, "Send+Sync", true, true, u8; SendOnly, "Send", true, false, Cell<u8>; SyncOnly, "Sync", false, true, std::sync::MutexGuard<'static, u8>; Neither, "neither", false, false, *const u8);

/// A stored value that notes being owned, read or destroyed where its type forbids it
pub struct Val<A: Safety> {
    id: u64,
    home: ThreadId,
    /// plain memory, read and written through `&self` when the type is not Sync: a race is visible to detectors
    inner: UnsafeCell<u64>,
    m: A::Mark,
}
// what the type claims; `look` is the monitor for it
unsafe impl<A: Safety> Sync for Val<A> where A::Mark: Sync {}
impl<A: Safety> Val<A> {
    fn new(id: u64) -> Self {
        Val { id, home: std::thread::current().id(), inner: UnsafeCell::new(0), m: A::mark() }
    }
    fn away(&self) -> bool {
        self.home != std::thread::current().id()
    }
    fn owned(&self) {
        TOUCHES.fetch_add(1, Relaxed);
        if !A::SEND && self.away() {
            FOREIGN_SEND.fetch_add(1, Relaxed);
        }
    }
    /// What a user could do with a shared reference
    fn look(&self) -> u64 {
        TOUCHES.fetch_add(1, Relaxed);
        if !A::SYNC {
            // like Cell::set
            unsafe { *self.inner.get() += 1 };
            if !A::SEND && self.away() {
                FOREIGN_SYNC.fetch_add(1, Relaxed);
            }
        }
        self.id
    }
}
impl<A: Safety> Drop for Val<A> {
    fn drop(&mut self) {
        self.owned();
    }
}
impl<A: Safety> Clone for Val<A> {
    fn clone(&self) -> Self {
        Val::new(self.look())
    }
}
impl<A: Safety> Slice<Ix<Both>> for Val<A> {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: Ix<Both>) -> Self {
        self.owned();
        Val::new(self.id)
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        self.owned();
        o.owned();
        Err((self, o))
    }
}
impl<A: Safety> Val<A> {
    fn read(&self) -> u64 {
        self.look()
    }
}

/// An index with chosen thread-safety
pub struct Ix<A: Safety>(u64, PhantomData<A::Mark>);
impl<A: Safety> std::fmt::Debug for Ix<A> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<A: Safety> Clone for Ix<A> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<A: Safety> Copy for Ix<A> {}
impl<A: Safety> PartialEq for Ix<A> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<A: Safety> Eq for Ix<A> {}
impl<A: Safety> PartialOrd for Ix<A> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<A: Safety> Ord for Ix<A> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<A: Safety> sherman::DirectionalAdd for Ix<A> {
    fn add_right(self, r: Self) -> Self {
        Ix(self.0 + r.0, PhantomData)
    }
}
impl<A: Safety> sherman::DirectionalSub for Ix<A> {
    fn sub_left(self, l: Self) -> Self {
        Ix(self.0 - l.0, PhantomData)
    }
    fn sub_right(self, r: Self) -> Self {
        Ix(self.0 - r.0, PhantomData)
    }
}
impl<A: Safety> Index for Ix<A> {
    const ZERO: Self = Ix(0, PhantomData);
}
fn ix(x: u64) -> Ix<Both> {
    Ix(x, PhantomData)
}

// ------------------------------------------------------------------ the table

struct Row {
    what: String,
    is: bool,
    /// documented (or plainly sound and present) implementations
    must: bool,
    /// implementations that let safe code break a stored type's own rules
    must_not: bool,
}

fn table() -> Vec<Row> {
    let mut v = vec![];
    macro_rules! row {
        ($tr:ident, $t:ty, $what:expr, $must:expr, $must_not:expr) => {
            v.push(Row { what: format!("{}: {}", $what, stringify!($tr)), is: is!($tr, $t), must: $must, must_not: $must_not })
        };
    }
    macro_rules! cell {
        ($i:ident, $s:ident) => {{
            type I = Ix<$i>;
            type S = Val<$s>;
            let (isend, isync) = ($i::SEND, $i::SYNC);
            let (ssend, ssync) = ($s::SEND, $s::SYNC);
            let all = isend && isync && ssend && ssync;
            let n = |what: &str, p: &str| format!("{what}<index {}, slice {}, {p}>", $i::NAME, $s::NAME);
            // trees: the documented table
            row!(Send, RleTree<I, S, NoFeatures, 2>, n("RleTree", "NoFeatures"), isend && ssend, !(isend && ssend));
            row!(Sync, RleTree<I, S, NoFeatures, 2>, n("RleTree", "NoFeatures"), isync && ssync, !(isync && ssync));
            row!(Send, RleTree<I, S, AllowCow, 2>, n("RleTree", "AllowCow"), all, !all);
            row!(Sync, RleTree<I, S, AllowCow, 2>, n("RleTree", "AllowCow"), all, !all);
            row!(Send, RleTree<I, S, AllowSliceRefs, 2>, n("RleTree", "AllowSliceRefs"), false, true);
            row!(Sync, RleTree<I, S, AllowSliceRefs, 2>, n("RleTree", "AllowSliceRefs"), false, true);
            // handles
            row!(Send, SliceEntry<'static, I, S, NoFeatures, 2>, n("SliceEntry", "NoFeatures"), all, !(isend && ssync));
            row!(Sync, SliceEntry<'static, I, S, NoFeatures, 2>, n("SliceEntry", "NoFeatures"), all, !(isync && ssync));
            row!(Send, SliceEntry<'static, I, S, AllowCow, 2>, n("SliceEntry", "AllowCow"), all, !(isend && ssync));
            row!(Sync, SliceEntry<'static, I, S, AllowCow, 2>, n("SliceEntry", "AllowCow"), all, !(isync && ssync));
            row!(Send, SliceEntry<'static, I, S, AllowSliceRefs, 2>, n("SliceEntry", "AllowSliceRefs"), false, true);
            row!(Sync, SliceEntry<'static, I, S, AllowSliceRefs, 2>, n("SliceEntry", "AllowSliceRefs"), false, true);
            row!(Send, Iter<'static, NoCursor, I, S, NoFeatures, 2>, n("Iter", "NoFeatures"), all, !(isend && isync && ssync));
            row!(Send, Iter<'static, NoCursor, I, S, AllowCow, 2>, n("Iter", "AllowCow"), all, !(isend && isync && ssync));
            row!(Send, Iter<'static, NoCursor, I, S, AllowSliceRefs, 2>, n("Iter", "AllowSliceRefs"), false, true);
            row!(Sync, Iter<'static, NoCursor, I, S, NoFeatures, 2>, n("Iter", "NoFeatures"), all, false);
            row!(Sync, Iter<'static, NoCursor, I, S, AllowCow, 2>, n("Iter", "AllowCow"), all, false);
            row!(Send, SliceRef<I, S, 2>, n("SliceRef", "M = 2"), false, true);
            row!(Sync, SliceRef<I, S, 2>, n("SliceRef", "M = 2"), false, true);
            row!(Send, Borrow<'static, S>, n("Borrow", "-"), false, true);
            row!(Sync, Borrow<'static, S>, n("Borrow", "-"), false, true);
            row!(Send, Borrow<'static, u32>, n("Borrow of a part", "-"), false, true);
        }};
    }
    macro_rules! cells {
        ($($i:ident),*) => { $( cell!($i, Both); cell!($i, SendOnly); cell!($i, SyncOnly); cell!($i, Neither); )* };
    }
    cells!(Both, SendOnly, SyncOnly, Neither);
    // cursors carried by an iterator
    struct NotSend(#[allow(dead_code)] *const u8);
    row!(Send, Iter<'static, NotSend, Ix<Both>, Val<Both>, NoFeatures, 2>, "Iter with a cursor that is not Send", false, true);
    row!(Send, NoCursor, "NoCursor", true, false);
    row!(Sync, NoCursor, "NoCursor", true, false);
    row!(Send, BoundedCursor<3>, "BoundedCursor", true, false);
    row!(Sync, BoundedCursor<3>, "BoundedCursor", true, false);
    row!(Send, <BoundedCursor<3> as Cursor>::PathIter, "path of a BoundedCursor", true, false);
    v
}

// ------------------------------------------------------------------ crossing

/// Moves the pair to another thread if the compiler lets it; reports whether it did
struct Probe<T>(Cell<Option<T>>);
impl<T: Send> Probe<T> {
    fn cross(&self, f: fn(T)) -> bool {
        let t = self.0.take().unwrap();
        std::thread::scope(|s| {
            s.spawn(move || f(t));
        });
        true
    }
    /// The other thread's use overlaps with `here`
    fn cross_with(&self, f: fn(T), here: &mut dyn FnMut()) -> bool {
        let t = self.0.take().unwrap();
        let b = &Barrier::new(2);
        std::thread::scope(|s| {
            s.spawn(move || {
                b.wait();
                f(t)
            });
            b.wait();
            here();
        });
        true
    }
}
trait Stays<T> {
    fn cross(&self, _: fn(T)) -> bool {
        false
    }
    fn cross_with(&self, _: fn(T), _: &mut dyn FnMut()) -> bool {
        false
    }
}
impl<T> Stays<T> for &Probe<T> {}

fn build<A: Safety, P>(g: &mut rng::Rng, n: usize) -> RleTree<Ix<Both>, Val<A>, P, 2>
where
    P: RleTreeConfig<Ix<Both>, Val<A>, 2> + SupportsInsert<Ix<Both>, Val<A>, 2>,
{
    let mut t: RleTree<Ix<Both>, Val<A>, P, 2> = RleTree::new_empty();
    for i in 0..n {
        let at = g.below(t.size().0 as usize + 1) as u64;
        t.insert(ix(at), Val::new(i as u64), ix(2));
    }
    t
}

type Tree<A, P> = RleTree<Ix<Both>, Val<A>, P, 2>;

macro_rules! scenarios {
    ($r:ident, $n:expr, $($a:ident),*) => { $( {
        type A = $a;
        $r.config(&format!("crossing:{}", A::NAME), $n, |seed, _, log| {
            let mut g = rng::Rng::new(seed);
            let mut st = world::Stats::default();
            let n = g.range(1, 40);
            FOREIGN_SEND.store(0, Relaxed);
            FOREIGN_SYNC.store(0, Relaxed);
            let t0 = TOUCHES.load(Relaxed);
            let mut crossed = vec![];
            macro_rules! go {
                ($name:expr, $e:expr) => {{
                    let did: bool = $e;
                    let (a, b) = (FOREIGN_SEND.load(Relaxed), FOREIGN_SYNC.load(Relaxed));
                    ensure!(a == 0, "{}: a {} value was owned or destroyed {a} times on a thread that may not have it", $name, A::NAME);
                    ensure!(b == 0, "{}: a {} value was read {b} times on a thread that may not see it", $name, A::NAME);
                    st.op(if did { "crossed" } else { "kept_back_by_the_compiler" });
                    if did { crossed.push($name); }
                    log.push(format!("{}: {}", $name, did));
                }};
            }
            // a whole tree, destroyed elsewhere
            fn use_plain(mut t: Tree<A, NoFeatures>) {
                let s = t.size();
                t.iter(..).for_each(|e| { e.slice().read(); });
                t.insert(ix(s.0 / 2), Val::new(7), ix(1));
            }
            let t: Tree<A, NoFeatures> = build(&mut g, n);
            go!("NoFeatures tree moved", (&Probe(Cell::new(Some(t)))).cross(use_plain));
            // clones of one tree, used at the same time
            fn use_cow(mut t: Tree<A, AllowCow>) {
                let s = t.size();
                t.iter(..).for_each(|e| { e.slice().read(); });
                let mut u = t.clone();
                u.insert(ix(s.0 / 2), Val::new(7), ix(1));
                drop(t);
                u.insert(ix(0), Val::new(8), ix(1));
            }
            let t: Tree<A, AllowCow> = build(&mut g, n);
            let mut u = Some(t.clone());
            go!("AllowCow clone moved", (&Probe(Cell::new(Some(t)))).cross_with(use_cow, &mut || use_cow(u.take().unwrap())));
            // shared by reference
            fn read_plain(t: &Tree<A, NoFeatures>) {
                t.iter(..).for_each(|e| { e.slice().read(); });
                let e = t.get(ix(t.size().0 / 2));
                e.slice().read();
            }
            let t: Tree<A, NoFeatures> = build(&mut g, n);
            go!("&NoFeatures tree shared", (&Probe(Cell::new(Some(&t)))).cross_with(read_plain, &mut || read_plain(&t)));
            fn read_cow(t: &Tree<A, AllowCow>) {
                t.iter(..).for_each(|e| { e.slice().read(); });
                let mut c = t.clone();
                c.insert(ix(1), Val::new(9), ix(1));
            }
            let mut tc: Tree<A, AllowCow> = build(&mut g, n);
            go!("&AllowCow tree shared", (&Probe(Cell::new(Some(&tc)))).cross_with(read_cow, &mut || read_cow(&tc)));
            tc.insert(ix(0), Val::new(1), ix(1));
            fn read_refs(t: &Tree<A, AllowSliceRefs>) {
                for e in t.iter(..) {
                    let r = e.make_ref();
                    r.borrow_slice().read();
                    drop(r.clone());
                }
            }
            let tr: Tree<A, AllowSliceRefs> = build(&mut g, n);
            go!("&AllowSliceRefs tree shared", (&Probe(Cell::new(Some(&tr)))).cross_with(read_refs, &mut || read_refs(&tr)));
            // handles
            let k = g.below(t.size().0 as usize) as u64;
            fn read_entry(e: SliceEntry<'_, Ix<Both>, Val<A>, NoFeatures, 2>) {
                e.slice().read();
                let _: NoCursor = e.cursor();
                let _ = (e.range(), e.size());
            }
            let e = t.get(ix(k));
            go!("entry of a NoFeatures tree moved", (&Probe(Cell::new(Some(e)))).cross_with(read_entry, &mut || read_entry(e)));
            fn read_centry(e: SliceEntry<'_, Ix<Both>, Val<A>, AllowCow, 2>) {
                e.slice().read();
            }
            let e = tc.get(ix(k));
            go!("entry of an AllowCow tree moved", (&Probe(Cell::new(Some(e)))).cross_with(read_centry, &mut || read_centry(e)));
            fn read_rentry(e: SliceEntry<'_, Ix<Both>, Val<A>, AllowSliceRefs, 2>) {
                let r = e.make_ref();
                r.borrow_slice().read();
            }
            let e = tr.get(ix(k));
            go!("entry of an AllowSliceRefs tree moved", (&Probe(Cell::new(Some(e)))).cross_with(read_rentry, &mut || read_rentry(e)));
            fn read_iter(i: Iter<'_, NoCursor, Ix<Both>, Val<A>, NoFeatures, 2>) {
                i.for_each(|e| { e.slice().read(); });
            }
            let mut it = t.iter(..);
            it.next();
            go!("iterator of a NoFeatures tree moved", (&Probe(Cell::new(Some(it)))).cross_with(read_iter, &mut || read_iter(t.iter(..))));
            fn read_citer(i: Iter<'_, NoCursor, Ix<Both>, Val<A>, AllowCow, 2>) {
                i.rev().for_each(|e| { e.slice().read(); });
            }
            go!("iterator of an AllowCow tree moved", (&Probe(Cell::new(Some(tc.iter(..))))).cross_with(read_citer, &mut || read_citer(tc.iter(..))));
            fn read_riter(i: Iter<'_, NoCursor, Ix<Both>, Val<A>, AllowSliceRefs, 2>) {
                i.for_each(|e| { drop(e.make_ref()); });
            }
            go!("iterator of an AllowSliceRefs tree moved", (&Probe(Cell::new(Some(tr.iter(..))))).cross_with(read_riter, &mut || read_riter(tr.iter(..))));
            let sr = tr.get(ix(k)).make_ref();
            fn use_ref(r: SliceRef<Ix<Both>, Val<A>, 2>) {
                let c = r.clone();
                r.borrow_slice().read();
                drop(c);
            }
            go!("SliceRef moved", (&Probe(Cell::new(Some(sr.clone())))).cross_with(use_ref, &mut || use_ref(sr.clone())));
            fn see_ref(r: &SliceRef<Ix<Both>, Val<A>, 2>) {
                use_ref(r.clone())
            }
            go!("&SliceRef shared", (&Probe(Cell::new(Some(&sr)))).cross_with(see_ref, &mut || see_ref(&sr)));
            fn use_borrow(b: Borrow<'_, Val<A>>) {
                b.read();
                drop(b.clone());
            }
            go!("Borrow moved", (&Probe(Cell::new(Some(sr.borrow_slice())))).cross_with(use_borrow, &mut || use_borrow(sr.borrow_slice())));
            fn see_borrow(b: &Borrow<'_, Val<A>>) {
                drop(b.clone());
            }
            let b = sr.borrow_slice();
            go!("&Borrow shared", (&Probe(Cell::new(Some(&b)))).cross_with(see_borrow, &mut || see_borrow(&b)));
            drop(b);
            go!("AllowSliceRefs tree moved", {
                let tr2: Tree<A, AllowSliceRefs> = build(&mut g, n);
                let r2 = tr2.get(ix(0)).make_ref();
                fn end(t: Tree<A, AllowSliceRefs>) {
                    drop(t.get(ix(0)).make_ref());
                }
                (&Probe(Cell::new(Some(tr2)))).cross_with(end, &mut || { let _ = (r2.is_valid(), r2.clone()); })
            });
            st.add("value_accesses_observed", TOUCHES.load(Relaxed) - t0);
            st.comparisons += 17;
            Outcome { hash: seed, nontrivial: n > 4, stats: st, sample: format!("{} values, {n} inserted: crossed {crossed:?}", A::NAME) }
        });
    } )* };
}

fn main() {
    let mut r = Runner::new();
    let k = if r.a.thorough() { 40 } else { 1 };
    r.config("markers", 1, |_, _, log| {
        let mut st = world::Stats::default();
        let t = table();
        let (mut yes, mut no) = (0, 0);
        let mut wrong = vec![];
        for row in &t {
            if row.is && row.must_not {
                wrong.push(format!("{} is implemented, but lets a stored value be used where its type forbids it", row.what));
            }
            if !row.is && row.must {
                wrong.push(format!("{} is not implemented, but documented", row.what));
            }
            if row.is { yes += 1 } else { no += 1 }
        }
        st.add("marker_rows_implemented", yes);
        st.add("marker_rows_not_implemented", no);
        st.comparisons += t.len() as u64;
        log.extend(wrong.iter().cloned());
        ensure!(wrong.is_empty(), "{} of {} marker rows are wrong: {}", wrong.len(), t.len(), wrong[0]);
        Outcome { hash: 1, nontrivial: true, stats: st, sample: format!("{} marker rows", t.len()) }
    });
    let n = if cfg!(miri) { 3 * k } else { 60 * k };
    scenarios!(r, n, Both, SendOnly, SyncOnly, Neither);
    r.finish();
}
