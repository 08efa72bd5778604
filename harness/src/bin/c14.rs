//! C14: safe but law-breaking implementations of Index, Slice and Cursor, including callbacks that
//! re-enter the crate through slice references and other handles.
use monitors::report::{quiet_catch, take_unchecked};
use monitors::*;
use monitors::{ledger::Token, rng::*};
use sherman::param::*;
use sherman::range::{EndBound, RangeBounds, StartBound};
use sherman::{Borrow, Cursor, DirectionalAdd, DirectionalSub, Index, NoCursor, PathComponent, RleTree, Slice, SliceRef};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

// ---------------------------------------------------------------- how to lie

#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Mode {
    /// 1/x chance of a wrong comparison / sum / difference (0: never)
    cmp: u32,
    add: u32,
    sub: u32,
    eq: u32,
    /// 1/x chance of a panic in any callback
    panic: u32,
    /// systematic lawlessness
    kind: u8,
    /// 1/x chance of a lying split / join / clone / cursor
    slice: u32,
    cursor: u32,
    /// 1/x chance of re-entering the crate from a callback
    reenter: u32,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode { cmp: 0, add: 0, sub: 0, eq: 0, panic: 0, kind: 0, slice: 0, cursor: 0, reenter: 0 }) };
    static R: RefCell<Rng> = RefCell::new(Rng::new(1));
    static LIES: Cell<u64> = const { Cell::new(0) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static REENTRIES: Cell<u64> = const { Cell::new(0) };
}
fn rnd(n: usize) -> usize {
    R.with(|r| r.borrow_mut().below(n))
}
fn lie(x: u32) -> bool {
    x != 0 && rnd(x as usize) == 0 && {
        LIES.with(|l| l.set(l.get() + 1));
        true
    }
}
fn mode() -> Mode {
    MODE.with(|m| m.get())
}
fn count() {
    OPS.with(|o| o.set(o.get() + 1));
    if OPS.with(|o| o.get()) > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        std::panic::panic_any("budget");
    }
    callback();
}
/// Anything a callback may do besides answering
fn callback() {
    let m = mode();
    if m.reenter != 0 && rnd(m.reenter as usize) == 0 {
        let h = HOOK.with(|h| h.borrow_mut().take());
        if let Some(mut h) = h {
            REENTRIES.with(|r| r.set(r.get() + 1));
            h();
            HOOK.with(|x| {
                let mut x = x.borrow_mut();
                if x.is_none() {
                    *x = Some(h);
                }
            });
        }
    }
    if m.panic != 0 && !std::thread::panicking() && rnd(m.panic as usize) == 0 {
        std::panic::panic_any("hostile callback");
    }
}

// ---------------------------------------------------------------- range

/// A range whose bounds differ between calls and that says whatever it likes about itself
#[derive(Debug)]
struct Sly(Liar, Liar);
impl RangeBounds<Liar> for Sly {
    fn start_bound(&self) -> StartBound<&Liar> {
        callback();
        match rnd(4) {
            0 => StartBound::Unbounded,
            1 => StartBound::Included(&self.1),
            _ => StartBound::Included(&self.0),
        }
    }
    fn end_bound(&self) -> EndBound<&Liar> {
        callback();
        match rnd(5) {
            0 => EndBound::Unbounded,
            1 => EndBound::Included(&self.0),
            2 => EndBound::Excluded(&self.0),
            3 => EndBound::Included(&self.1),
            _ => EndBound::Excluded(&self.1),
        }
    }
    fn starts_after_end(&self) -> bool {
        callback();
        rnd(8) == 0
    }
    fn is_empty_naive(&self) -> bool {
        rnd(2) == 0
    }
    fn overlaps_naive<R: RangeBounds<Liar>>(&self, _: R) -> bool {
        rnd(2) == 0
    }
}

// ---------------------------------------------------------------- index

#[derive(Clone, Copy, Debug)]
struct Liar(i64);

impl PartialEq for Liar {
    fn eq(&self, o: &Self) -> bool {
        count();
        if lie(mode().eq) {
            return rnd(2) == 0;
        }
        match mode().kind {
            5 => true,
            6 | 7 => false,
            _ => self.0 == o.0,
        }
    }
}
impl Eq for Liar {}
impl PartialOrd for Liar {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if lie(mode().cmp) {
            return [None, Some(Ordering::Less), Some(Ordering::Equal), Some(Ordering::Greater)][rnd(4)];
        }
        Some(self.cmp(o))
    }
}
impl Ord for Liar {
    fn cmp(&self, o: &Self) -> Ordering {
        count();
        if lie(mode().cmp) {
            return [Ordering::Less, Ordering::Equal, Ordering::Greater][rnd(3)];
        }
        match mode().kind {
            4 => o.0.cmp(&self.0),
            5 => Ordering::Equal,
            6 => Ordering::Less,
            7 => Ordering::Greater,
            8 => (self.0 / 8).cmp(&(o.0 / 8)),
            9 => (self.0 & 7).cmp(&(o.0 & 7)),
            _ => self.0.cmp(&o.0),
        }
    }
}
fn arith(x: i64, rate: u32) -> Liar {
    count();
    if lie(rate) {
        return Liar(match rnd(6) {
            0 => 0,
            1 => -x,
            2 => x.wrapping_add(1),
            3 => i64::MAX,
            4 => i64::MIN,
            _ => rnd(200) as i64 - 50,
        });
    }
    Liar(match mode().kind {
        1 => x as i8 as i64,
        2 => x.clamp(-20, 60),
        3 => 0,
        10 => 1,
        11 => x & !3,
        _ => x,
    })
}
impl DirectionalAdd for Liar {
    fn add_right(self, r: Self) -> Self {
        arith(self.0.wrapping_add(r.0), mode().add)
    }
    fn add_left(self, l: Self) -> Self {
        arith(self.0.wrapping_add(l.0), mode().add)
    }
}
impl DirectionalSub for Liar {
    fn sub_left(self, l: Self) -> Self {
        arith(self.0.wrapping_sub(l.0), mode().sub)
    }
    fn sub_right(self, r: Self) -> Self {
        arith(self.0.wrapping_sub(r.0), mode().sub)
    }
}
impl Index for Liar {
    const ZERO: Self = Liar(0);
}

// ---------------------------------------------------------------- slice

struct HS<const JOIN: bool> {
    id: u32,
    tok: Token,
}
impl<const JOIN: bool> HS<JOIN> {
    fn new(id: u32) -> Self {
        HS { id, tok: Token::new() }
    }
}
impl<const JOIN: bool> Clone for HS<JOIN> {
    fn clone(&self) -> Self {
        self.tok.check();
        callback();
        HS::new(if lie(mode().slice) { 0 } else { self.id })
    }
}
impl<const JOIN: bool> Drop for HS<JOIN> {
    fn drop(&mut self) {
        self.tok.check();
        callback();
    }
}
impl<const JOIN: bool> Slice<Liar> for HS<JOIN> {
    const MAY_JOIN: bool = JOIN;
    fn split_at(&mut self, _i: Liar) -> Self {
        self.tok.check();
        callback();
        if lie(mode().slice) {
            // hand back what was there, keep something new
            std::mem::replace(self, HS::new(rnd(4) as u32))
        } else {
            HS::new(self.id)
        }
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        self.tok.check();
        o.tok.check();
        callback();
        if lie(mode().slice) {
            return match rnd(6) {
                0 => Err((o, self)),
                1 => Ok(o),
                2 => Ok(self),
                3 => Ok(HS::new(7)),
                4 => Err((HS::new(8), self)),
                _ => Err((HS::new(1), HS::new(1))),
            };
        }
        if self.id == o.id {
            Ok(self)
        } else {
            Err((self, o))
        }
    }
}

// ---------------------------------------------------------------- cursor

thread_local! {
    static PARTS: RefCell<Vec<PathComponent>> = const { RefCell::new(Vec::new()) };
}
#[derive(Clone, Default)]
struct HC(Vec<PathComponent>);
struct HI(Vec<PathComponent>);
impl Cursor for HC {
    fn new_empty() -> Self {
        callback();
        HC(vec![])
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        callback();
        if lie(mode().cursor) {
            self.0.clear();
        }
        self.0.push(c);
    }
    type PathIter = HI;
    fn into_path(self) -> HI {
        callback();
        HI(self.0)
    }
}
impl Iterator for HI {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        callback();
        if lie(mode().cursor) {
            return PARTS.with(|p| {
                let p = p.borrow();
                if p.is_empty() { None } else { Some(p[rnd(p.len())]) }
            });
        }
        self.0.pop()
    }
}

// ---------------------------------------------------------------- drivers

trait HP<const J: bool, const M: usize>: RleTreeConfig<Liar, HS<J>, M> + SupportsInsert<Liar, HS<J>, M> + Sized + 'static {
    const NAME: &'static str;
    const REFS: bool;
    type Ref: 'static;
    fn insert_ref(t: &mut RleTree<Liar, HS<J>, Self, M>, i: Liar, s: HS<J>, z: Liar) -> Self::Ref;
    fn make_ref(t: &RleTree<Liar, HS<J>, Self, M>, i: Liar) -> Self::Ref;
    fn clone_tree(t: &RleTree<Liar, HS<J>, Self, M>) -> Option<RleTree<Liar, HS<J>, Self, M>>;
    fn query(r: &Self::Ref, how: usize) -> Option<Self::Ref>;
    /// Keeps a borrow alive beyond this call
    fn stash(r: &Self::Ref);
}
thread_local! {
    static STASH1: RefCell<Vec<Borrow<'static, HS<true>>>> = const { RefCell::new(Vec::new()) };
    static STASH0: RefCell<Vec<Borrow<'static, HS<false>>>> = const { RefCell::new(Vec::new()) };
}
fn unstash(n: usize) -> usize {
    // whatever is held must still be readable
    STASH1.with(|s| s.borrow().iter().for_each(|b| b.tok.check()));
    STASH0.with(|s| s.borrow().iter().for_each(|b| b.tok.check()));
    let mut k = 0;
    for _ in 0..n {
        let a = STASH1.with(|s| s.borrow_mut().pop());
        let b = STASH0.with(|s| s.borrow_mut().pop());
        k += a.is_some() as usize + b.is_some() as usize;
        drop(a);
        drop(b);
    }
    k
}
macro_rules! plain {
    ($p:ident, $n:expr) => {
        impl<const J: bool, const M: usize> HP<J, M> for $p {
            const NAME: &'static str = $n;
            const REFS: bool = false;
            type Ref = ();
            fn insert_ref(t: &mut RleTree<Liar, HS<J>, Self, M>, i: Liar, s: HS<J>, z: Liar) {
                t.insert(i, s, z)
            }
            fn make_ref(t: &RleTree<Liar, HS<J>, Self, M>, i: Liar) {
                t.get(i).slice().tok.check()
            }
            fn clone_tree(t: &RleTree<Liar, HS<J>, Self, M>) -> Option<RleTree<Liar, HS<J>, Self, M>> {
                Some(t.clone())
            }
            fn query(_: &(), _: usize) -> Option<()> {
                None
            }
            fn stash(_: &()) {}
        }
    };
}
plain!(NoFeatures, "NoFeatures");
plain!(AllowCow, "AllowCow");
impl<const J: bool, const M: usize> HP<J, M> for AllowSliceRefs {
    const NAME: &'static str = "AllowSliceRefs";
    const REFS: bool = true;
    type Ref = SliceRef<Liar, HS<J>, M>;
    fn insert_ref(t: &mut RleTree<Liar, HS<J>, Self, M>, i: Liar, s: HS<J>, z: Liar) -> Self::Ref {
        t.insert_ref(i, s, z)
    }
    fn make_ref(t: &RleTree<Liar, HS<J>, Self, M>, i: Liar) -> Self::Ref {
        t.get(i).make_ref()
    }
    fn clone_tree(_: &RleTree<Liar, HS<J>, Self, M>) -> Option<RleTree<Liar, HS<J>, Self, M>> {
        None
    }
    fn query(r: &Self::Ref, how: usize) -> Option<Self::Ref> {
        match how {
            0 => {
                if let Some(b) = r.try_borrow_slice() {
                    b.tok.check();
                    let c = b.clone();
                    c.tok.check();
                    drop(b);
                    let m = Borrow::map(c, |s| &s.id);
                    let _ = *m;
                }
                None
            }
            1 => {
                let _ = r.try_range();
                None
            }
            2 => {
                let _ = r.try_cursor::<HC>();
                None
            }
            3 => {
                let _ = (r.is_valid(), r.can_borrow());
                None
            }
            _ => Some(r.clone()),
        }
    }
    fn stash(r: &Self::Ref) {
        let r: &'static Self::Ref = Box::leak(Box::new(r.clone()));
        if let Some(b) = r.try_borrow_slice() {
            b.tok.check();
            // SAFETY-free: the reference is leaked, so the borrow really is 'static
            if J {
                let b: Box<dyn std::any::Any> = Box::new(b);
                if let Ok(b) = b.downcast::<Borrow<'static, HS<true>>>() {
                    STASH1.with(|s| s.borrow_mut().push(*b));
                }
            } else {
                let b: Box<dyn std::any::Any> = Box::new(b);
                if let Ok(b) = b.downcast::<Borrow<'static, HS<false>>>() {
                    STASH0.with(|s| s.borrow_mut().push(*b));
                }
            }
        }
    }
}

fn gen_mode(g: &mut Rng, refs: bool) -> Mode {
    let mut m = Mode::default();
    let rate = |g: &mut Rng| *g.pick(&[3u32, 10, 40, 150, 600]);
    match g.below(8) {
        0 => m.cmp = rate(g),
        1 => m.add = rate(g),
        2 => m.sub = rate(g),
        3 => {
            m.cmp = rate(g);
            m.add = rate(g);
            m.sub = rate(g);
            m.eq = rate(g);
        }
        4 => m.kind = g.range(1, 11) as u8,
        5 => {
            m.kind = g.range(1, 11) as u8;
            m.cmp = 600;
            m.add = 600;
        }
        _ => (),
    }
    if g.chance(1, 2) {
        m.slice = rate(g).min(40);
    }
    if g.chance(1, 2) {
        m.cursor = rate(g).min(40);
    }
    if g.chance(1, 3) {
        m.panic = *g.pick(&[20, 100, 400, 2000]);
    }
    if refs && g.chance(1, 2) {
        m.reenter = *g.pick(&[2, 8, 30, 100]);
    }
    m
}

fn history<const J: bool, P: HP<J, M>, const M: usize>(seed: u64, steps: usize, logging: bool, log: &mut Vec<String>) -> Outcome {
    let mut g = Rng::new(seed);
    R.with(|r| *r.borrow_mut() = Rng::new(mix(seed)));
    LIES.with(|l| l.set(0));
    OPS.with(|l| l.set(0));
    REENTRIES.with(|l| l.set(0));
    MODE.with(|m| m.set(Mode::default()));
    let verbose = std::env::var("MON_VERBOSE").as_deref() == Ok("2");
    type Tr<const J: bool, P, const M: usize> = RleTree<Liar, HS<J>, P, M>;
    let mut trees: Vec<Tr<J, P, M>> = vec![RleTree::new_empty()];
    let refs: std::rc::Rc<RefCell<Vec<P::Ref>>> = Default::default();
    let mut h = seed;
    let mut st = world::Stats::default();
    let mut live_total = 0i64;
    let mut built = 0u64;
    let (mut panics, mut answers) = (0u64, 0u64);
    // re-entry: query, clone, hold or drop references from inside callbacks
    if P::REFS {
        let rr = refs.clone();
        HOOK.with(|x| {
            *x.borrow_mut() = Some(Box::new(move || {
                let k = rnd(8);
                let Ok(mut v) = rr.try_borrow_mut() else { return };
                if v.is_empty() {
                    return;
                }
                let i = rnd(v.len());
                match k {
                    0 => {
                        let r = v.swap_remove(i);
                        drop(v);
                        drop(r);
                    }
                    1 => {
                        // stash at most a few
                        if STASH1.with(|s| s.borrow().len()) + STASH0.with(|s| s.borrow().len()) < 3 {
                            P::stash(&v[i]);
                        }
                    }
                    2 => {
                        let r = v.swap_remove(i);
                        drop(v);
                        unstash(1);
                        rr.borrow_mut().push(r);
                    }
                    _ => {
                        let c = P::query(&v[i], k - 3);
                        if v.len() < 20 {
                            v.extend(c);
                        }
                    }
                }
            }))
        });
    }
    let verdict = |what: &str| {
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: {what}: {f}");
        }
        if let Some(u) = take_unchecked() {
            panic!("MONITOR: {what}: reached a condition that is undefined behaviour in release builds: {u}");
        }
    };
    take_unchecked();
    let honest = g.range(steps / 8, steps / 2);
    for i in 0..steps {
        if i >= honest && (i - honest) % 12 == 0 {
            let m = gen_mode(&mut g, P::REFS);
            MODE.with(|x| x.set(m));
            if logging {
                log.push(format!("{m:?}"));
            }
            if verbose {
                eprintln!("{m:?}");
            }
        }
        let ti = g.below(trees.len());
        let op = g.weighted(&[50, 10, 10, 10, 6, 4, if P::REFS { 12 } else { 2 }, if P::REFS { 10 } else { 0 }, if P::REFS { 4 } else { 0 }]);
        h = mix(h ^ op as u64);
        let lied = LIES.with(|l| l.get()) + panics > 0;
        let x = {
            // positions computed with the honest part of the type
            let total = { let m = mode(); MODE.with(|x| x.set(Mode::default())); let t = trees[ti].size().0; MODE.with(|x| x.set(m)); t };
            match g.below(8) {
                0 => Liar(0),
                1 => Liar(total),
                2 => Liar(total.wrapping_sub(1)),
                3 if lied => Liar(g.below(300) as i64 - 100),
                _ => Liar(if total > 0 { (g.u64() % total as u64) as i64 } else { 0 }),
            }
        };
        let size = Liar(if lied && g.chance(1, 20) { *g.pick(&[0, -3, i64::MAX, i64::MIN, 1 << 40]) } else { g.range(1, 9) as i64 });
        let id = g.below(if J { 4 } else { 400 }) as u32;
        let coin = g.u64();
        let what = ["insert", "insert_with_cursor", "get", "iterate", "clone", "drop tree", "make_ref/insert_ref", "query refs", "release borrows"][op];
        if logging {
            log.push(format!("{what} on t{ti} at {x:?} size {size:?}"));
        }
        if verbose {
            eprintln!("{what} on t{ti} at {x:?} size {size:?}");
        }
        LIMIT.with(|l| l.set(OPS.with(|o| o.get()) + 300_000));
        let mut made = None;
        let mut forked = None;
        let res = quiet_catch(|| {
            let t = &mut trees[ti];
            match op {
                0 => t.insert(x, HS::new(id), size),
                1 => {
                    let c = match coin % 3 {
                        0 => HC::new_empty(),
                        1 => HC(PARTS.with(|p| { let p = p.borrow(); (0..coin as usize / 8 % 9).map(|k| p[(mix(coin + k as u64) % p.len() as u64) as usize]).collect() })),
                        _ => t.cursor_to(x),
                    };
                    if coin & 64 == 0 {
                        let _ = t.insert_with_cursor(c, x, HS::new(id), size);
                    } else {
                        let _ = t.insert_with_cursor(NoCursor, x, HS::new(id), size);
                    }
                }
                2 => {
                    let e = if coin & 1 == 0 { t.get(x) } else { t.get_with_cursor(HC(vec![]), x) };
                    e.slice().tok.check();
                    let _ = (e.range(), e.size());
                    let _: HC = t.cursor_to(x);
                }
                3 => {
                    // many entries held at once, both ends
                    let y = Liar(x.0.wrapping_add(size.0));
                    let mut held = vec![];
                    let mut c = coin;
                    let mut walk = |it: &mut dyn FnMut(bool) -> Option<*const HS<J>>| {
                        for _ in 0..400 {
                            c = c.rotate_left(1);
                            match it(c & 1 == 0) {
                                Some(p) => held.push(p),
                                None => break,
                            }
                        }
                    };
                    macro_rules! go {
                        ($r:expr) => {{
                            let mut it = t.iter_with_cursor(HC(vec![]), $r);
                            walk(&mut |f| {
                                let e = if f { it.next() } else { it.next_back() }?;
                                e.slice().tok.check();
                                Some(e.slice() as *const _)
                            })
                        }};
                    }
                    match coin % 7 {
                        0 => go!(..),
                        1 => go!(x..),
                        2 => go!(..x),
                        3 => go!(x..y),
                        4 => go!(x..=y),
                        _ => go!(Sly(x, y)),
                    }
                    for p in held {
                        // entries live as long as the tree is not touched
                        unsafe { (*p).tok.check() };
                    }
                }
                4 => forked = P::clone_tree(t),
                5 => {
                    let t = std::mem::replace(t, RleTree::new_empty());
                    drop(t);
                }
                6 => made = Some(if coin & 1 == 0 { P::make_ref(t, x) } else { P::insert_ref(t, x, HS::new(id), size) }),
                7 => {
                    let n = refs.borrow().len();
                    if n > 0 {
                        let v = refs.borrow();
                        let c = P::query(&v[coin as usize % n], (coin >> 8) as usize % 5);
                        drop(v);
                        made = c;
                    }
                }
                _ => {
                    unstash(2);
                    let r = { let mut v = refs.borrow_mut(); if v.is_empty() { None } else { let n = v.len(); Some(v.swap_remove(coin as usize % n)) } };
                    drop(r);
                }
            }
        });
        LIMIT.with(|l| l.set(u64::MAX));
        if res.is_ok() { answers += 1 } else { panics += 1 }
        if op == 0 && res.is_ok() {
            built += 1;
        }
        verdict(&format!("{what} ({:?})", res.err()));
        {
            let mut v = refs.borrow_mut();
            if v.len() < 20 {
                v.extend(made);
            }
        }
        if let Some(t) = forked {
            if trees.len() < 4 {
                trees.push(t);
            } else {
                let _ = quiet_catch(|| drop(t));
            }
        }
        live_total = live_total.max(ledger::live() as i64);
        if g.chance(1, 12) {
            let _ = quiet_catch(|| unstash(3));
            verdict("releasing borrows");
        }
    }
    // tear down, still lying
    HOOK.with(|x| x.borrow_mut().take());
    let first = g.chance(1, 2);
    let v = std::mem::take(&mut *refs.borrow_mut());
    let mut v = Some(v);
    if first {
        for r in v.take().unwrap() {
            let _ = quiet_catch(|| drop(r));
        }
    }
    if g.chance(1, 2) {
        let _ = quiet_catch(|| unstash(100));
    }
    while !trees.is_empty() {
        let t = trees.swap_remove(g.below(trees.len()));
        let _ = quiet_catch(|| drop(t));
        verdict("dropping a tree");
    }
    for _ in 0..200 {
        if let Ok(0) = quiet_catch(|| unstash(1)) {
            break;
        }
    }
    for r in v.into_iter().flatten() {
        let _ = quiet_catch(|| drop(r));
    }
    MODE.with(|m| m.set(Mode::default()));
    verdict("final drop");
    let lies = LIES.with(|l| l.get());
    st.add("lies_told", lies);
    st.add("callbacks_run", OPS.with(|l| l.get()));
    st.add("reentrant_calls", REENTRIES.with(|l| l.get()));
    st.add("operations_answered", answers);
    st.add("operations_panicked", panics);
    st.max("max_live_values", live_total as u64);
    Outcome { hash: h, nontrivial: lies + REENTRIES.with(|l| l.get()) > 2 && built > 2 * M as u64, stats: st, sample: format!("{lies} lies, {answers} operations answered, {panics} panicked, up to {live_total} live values") }
}

fn go<const J: bool, P: HP<J, M>, const M: usize>(r: &mut Runner, n: u64, steps: usize) {
    let nm = format!("{}/join-{J}/M{M}", P::NAME);
    let k = if r.a.thorough() { 40 } else { 1 };
    let (n, steps) = if cfg!(miri) { (n / 200 + 1, 90) } else { (n, steps) };
    r.config(&nm, n * k, |s, l, log| history::<J, P, M>(s, steps, l, log));
}

// ---------------------------------------------------------------- built-in indexes that overflow

/// A value for any index type
struct WS {
    id: u32,
    tok: Token,
}
impl Clone for WS {
    fn clone(&self) -> Self {
        self.tok.check();
        WS { id: self.id, tok: Token::new() }
    }
}
impl<I: Index> Slice<I> for WS {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: I) -> Self {
        self.tok.check();
        WS { id: self.id, tok: Token::new() }
    }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
        self.tok.check();
        o.tok.check();
        if self.id == o.id { Ok(self) } else { Err((self, o)) }
    }
}
trait Prim: Index + std::panic::RefUnwindSafe + 'static {
    const NAME: &'static str;
    fn any(r: &mut Rng) -> Self;
}
macro_rules! prim { ($($t:ident)*) => { $( impl Prim for $t {
    const NAME: &'static str = stringify!($t);
    fn any(r: &mut Rng) -> Self {
        match r.below(5) { 0 => $t::MAX, 1 => $t::MAX / 2 + 1, 2 => r.u64() as $t, 3 => r.range(1, 9) as $t, _ => (r.u64() as $t) >> r.below($t::BITS as usize) }
    }
} )* } }
prim!(u8 u16 usize u128);

/// Sizes that do not fit into a primitive index type together: with overflow checks a panic, without
/// them sums that are wrong (and the crate trusts primitive types in its messages)
fn overflow<I: Prim, P, const M: usize>(r: &mut Runner, n: u64, steps: usize, pn: &str, refs: fn(&RleTree<I, WS, P, M>, I) -> Option<Box<dyn std::any::Any>>)
where
    P: RleTreeConfig<I, WS, M> + SupportsInsert<I, WS, M> + 'static,
{
    let (n, steps) = if cfg!(miri) { (n / 200 + 1, 90) } else { (n, steps) };
    let k = if r.a.thorough() { 40 } else { 1 };
    r.config(&format!("overflowing-{}/{pn}/M{M}", I::NAME), n * k, |seed, logging, log| {
        let mut g = Rng::new(seed);
        let mut st = world::Stats::default();
        take_unchecked();
        let mut t: RleTree<I, WS, P, M> = RleTree::new_empty();
        let mut kept: Vec<Box<dyn std::any::Any>> = vec![];
        let (mut ok, mut panics, mut h) = (0u64, 0u64, seed);
        let honest = g.below(4 * M + 2);
        for i in 0..steps {
            let size = if i < honest { I::any(&mut Rng::new(3)) } else { I::any(&mut g) };
            let at = match g.below(4) {
                0 => I::ZERO,
                1 => t.size(),
                _ => I::any(&mut g),
            };
            let op = g.below(6);
            let id = g.below(20) as u32;
            if logging {
                log.push(format!("op {op} at {at:?} size {size:?}"));
            }
            let mut made = None;
            let res = quiet_catch(|| match op {
                0..=2 => t.insert(at, WS { id, tok: Token::new() }, size),
                3 => {
                    let e = t.get(at);
                    e.slice().tok.check();
                    let _ = (e.range(), e.size());
                    let c: HC = t.cursor_to(at);
                    let _ = t.insert_with_cursor(c, at, WS { id, tok: Token::new() }, size);
                }
                4 => {
                    // (a wrong total can make the iteration endless)
                    let (mut k, mut it) = (0, t.iter(at..));
                    while let Some(e) = if k % 3 == 0 { it.next_back() } else { it.next() } {
                        e.slice().tok.check();
                        k += 1;
                        if k > 2000 {
                            break;
                        }
                    }
                }
                _ => made = refs(&t, at),
            });
            if let Some(m) = made {
                if kept.len() < 8 {
                    kept.push(m);
                }
            }
            h = mix(h ^ op as u64 ^ (res.is_ok() as u64) << 9);
            if res.is_ok() { ok += 1 } else { panics += 1 }
            if let Some(f) = ledger::take_fault() {
                panic!("MONITOR: overflowing sizes: {f}");
            }
            if let Some(u) = take_unchecked() {
                panic!("MONITOR: overflowing sizes: reached a condition that is undefined behaviour in release builds: {u} ({:?})", res.err());
            }
        }
        let entries = t.number_of_slices();
        let _ = quiet_catch(|| drop(t));
        let _ = quiet_catch(|| drop(kept));
        if let Some(f) = ledger::take_fault() {
            panic!("MONITOR: overflowing sizes: {f}");
        }
        st.add("operations_answered", ok);
        st.add("operations_panicked", panics);
        Outcome { hash: h, nontrivial: panics > 2 && entries > 2 * M, stats: st, sample: format!("{ok} operations answered, {panics} panicked, {entries} entries") }
    });
}
fn no_ref<I: Prim, P, const M: usize>(t: &RleTree<I, WS, P, M>, _: I) -> Option<Box<dyn std::any::Any>>
where
    P: RleTreeConfig<I, WS, M> + SupportsInsert<I, WS, M> + 'static,
{
    t.number_of_slices();
    None
}
fn a_ref<I: Prim, const M: usize>(t: &RleTree<I, WS, AllowSliceRefs, M>, at: I) -> Option<Box<dyn std::any::Any>> {
    let r = t.get(at).make_ref();
    let _ = r.try_range();
    let _: Option<HC> = r.try_cursor();
    r.borrow_slice().tok.check();
    Some(Box::new(r))
}
fn a_clone<I: Prim, const M: usize>(t: &RleTree<I, WS, AllowCow, M>, _: I) -> Option<Box<dyn std::any::Any>> {
    Some(Box::new(t.clone()))
}

fn main() {
    let mut r = Runner::new();
    PARTS.with(|p| *p.borrow_mut() = if cfg!(miri) { small_parts() } else { cursors::harvest() });
    go::<true, NoFeatures, 1>(&mut r, 2000, 150);
    go::<false, NoFeatures, 1>(&mut r, 1000, 200);
    go::<true, NoFeatures, 2>(&mut r, 1000, 200);
    go::<true, AllowSliceRefs, 1>(&mut r, 3000, 150);
    go::<false, AllowSliceRefs, 1>(&mut r, 2000, 200);
    go::<true, AllowSliceRefs, 3>(&mut r, 1000, 250);
    go::<true, AllowCow, 1>(&mut r, 2000, 150);
    go::<false, AllowCow, 2>(&mut r, 1000, 200);
    go::<false, AllowCow, 1>(&mut r, 1000, 200);
    overflow::<u8, NoFeatures, 1>(&mut r, 600, 120, "NoFeatures", no_ref);
    overflow::<u8, AllowSliceRefs, 1>(&mut r, 600, 120, "AllowSliceRefs", a_ref);
    overflow::<u16, AllowCow, 2>(&mut r, 600, 120, "AllowCow", a_clone);
    overflow::<usize, AllowSliceRefs, 2>(&mut r, 300, 120, "AllowSliceRefs", a_ref);
    overflow::<u128, NoFeatures, 3>(&mut r, 300, 120, "NoFeatures", no_ref);
    let n = |n: u64| if cfg!(miri) { n / 10 } else { n };
    forgot::borrows::<2>(&mut r, n(300));
    forgot::clones::<1>(&mut r, n(200));
    r.finish();
}

fn small_parts() -> Vec<PathComponent> {
    let mut t: RleTree<usize, sherman::Constant<u32>, NoFeatures, 4> = RleTree::new_empty();
    for i in 0..60usize {
        t.insert(i, sherman::Constant(i as u32), 1);
    }
    let mut v: Vec<PathComponent> = vec![];
    for e in t.iter(..) {
        let c: cursors::VecCursor = e.cursor();
        v.extend(c.0);
    }
    v.sort();
    v.dedup();
    v
}
