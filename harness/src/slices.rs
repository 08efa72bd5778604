//! The slice types stored in the trees under test. They are monitors themselves: they know their own
//! length, record every callback, carry a ledger token and can be told to panic.
use crate::faults::{tick, Site};
use crate::idx::TIdx;
use crate::ledger::Token;
use sherman::Slice;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

/// Id, offset and length of a slice
pub type Desc<I> = (u32, I, I);

pub trait Kind: 'static {
    const NAME: &'static str;
    const MAY_JOIN: bool;
    const TRACKS_OFF: bool;
    type Pad: Default + Clone + 'static;
    fn joins<I: TIdx>(a: Desc<I>, b: Desc<I>) -> bool;
}

/// Classic run-length encoding: equal ids join
pub struct KConst;
/// Contiguous pieces of numbered sources: `(s, a..b)` joins with `(s, b..c)` only
pub struct KPiece;
/// Never joins and says so
pub struct KUniq;
/// Never joins but does not say so (`MAY_JOIN = true`)
pub struct KStubborn;
/// As `KPiece`, over-aligned payload
pub struct KPieceA64;

#[derive(Clone, Default)]
#[repr(align(64))]
pub struct A64(#[allow(dead_code)] pub [u8; 3]);

fn contiguous<I: TIdx>(a: Desc<I>, b: Desc<I>) -> bool {
    a.0 == b.0 && a.1.add_right(a.2) == b.1
}
impl Kind for KConst {
    const NAME: &'static str = "const";
    const MAY_JOIN: bool = true;
    const TRACKS_OFF: bool = false;
    type Pad = ();
    fn joins<I: TIdx>(a: Desc<I>, b: Desc<I>) -> bool {
        a.0 == b.0
    }
}
impl Kind for KPiece {
    const NAME: &'static str = "piece";
    const MAY_JOIN: bool = true;
    const TRACKS_OFF: bool = true;
    type Pad = ();
    fn joins<I: TIdx>(a: Desc<I>, b: Desc<I>) -> bool {
        contiguous(a, b)
    }
}
impl Kind for KPieceA64 {
    const NAME: &'static str = "piece-align64";
    const MAY_JOIN: bool = true;
    const TRACKS_OFF: bool = true;
    type Pad = A64;
    fn joins<I: TIdx>(a: Desc<I>, b: Desc<I>) -> bool {
        contiguous(a, b)
    }
}
impl Kind for KUniq {
    const NAME: &'static str = "nojoin";
    const MAY_JOIN: bool = false;
    const TRACKS_OFF: bool = true;
    type Pad = ();
    fn joins<I: TIdx>(_: Desc<I>, _: Desc<I>) -> bool {
        false
    }
}
impl Kind for KStubborn {
    const NAME: &'static str = "refuses";
    const MAY_JOIN: bool = true;
    const TRACKS_OFF: bool = true;
    type Pad = ();
    fn joins<I: TIdx>(_: Desc<I>, _: Desc<I>) -> bool {
        false
    }
}

/// One recorded callback
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// (desc, at)
    Split(EDesc, [i64; 3]),
    /// (left, right, accepted)
    Join(EDesc, EDesc, bool),
    Clone(EDesc),
}
/// Encoded `Desc`
pub type EDesc = (u32, [i64; 3], [i64; 3]);

pub fn edesc<I: TIdx>(d: Desc<I>) -> EDesc {
    (d.0, d.1.enc(), d.2.enc())
}

thread_local! {
    static EVENTS: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static DROP_HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static DROP_HOOK_ON: Cell<bool> = const { Cell::new(false) };
}
pub fn take_events() -> Vec<Ev> {
    EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
pub fn clones() -> u64 {
    CLONES.with(|c| c.get())
}
/// Installs a function to be run inside every split/join callback (re-entrancy probes)
pub fn set_hook(h: Option<Box<dyn FnMut()>>) {
    let old = HOOK.with(|x| std::mem::replace(&mut *x.borrow_mut(), h));
    drop(old);
}
/// Installs a function to be run inside every destructor of a value
pub fn set_drop_hook(h: Option<Box<dyn FnMut()>>) {
    DROP_HOOK_ON.with(|d| d.set(h.is_some()));
    let old = DROP_HOOK.with(|x| std::mem::replace(&mut *x.borrow_mut(), h));
    drop(old);
}
fn run_drop_hook() {
    let h = DROP_HOOK.with(|x| x.borrow_mut().take());
    if let Some(mut h) = h {
        h();
        if DROP_HOOK_ON.with(|d| d.get()) {
            DROP_HOOK.with(|x| *x.borrow_mut() = Some(h));
        }
    }
}
fn run_hook() {
    // Taken out while running, so that a hook that triggers callbacks does not recurse
    let h = HOOK.with(|x| x.borrow_mut().take());
    if let Some(mut h) = h {
        h();
        HOOK.with(|x| {
            let mut x = x.borrow_mut();
            if x.is_none() {
                *x = Some(h);
            }
        });
    }
}
fn log(e: Ev) {
    EVENTS.with(|x| x.borrow_mut().push(e));
}

pub struct Sl<I: TIdx, K: Kind> {
    pub id: u32,
    pub off: I,
    pub len: I,
    pub tok: Token,
    #[allow(dead_code)]
    pad: K::Pad,
    k: PhantomData<K>,
}

impl<I: TIdx, K: Kind> Sl<I, K> {
    pub fn new(id: u32, off: I, len: I) -> Self {
        let off = if K::TRACKS_OFF { off } else { I::ZERO };
        Sl { id, off, len, tok: Token::new(), pad: Default::default(), k: PhantomData }
    }
    /// Reads the value (checking that it is a live, uncorrupted one)
    pub fn desc(&self) -> Desc<I> {
        self.tok.check();
        (self.id, self.off, self.len)
    }
}

impl<I: TIdx, K: Kind> Clone for Sl<I, K> {
    fn clone(&self) -> Self {
        tick(Site::Clone);
        log(Ev::Clone(edesc(self.desc())));
        CLONES.with(|c| c.set(c.get() + 1));
        Sl { id: self.id, off: self.off, len: self.len, tok: Token::new(), pad: self.pad.clone(), k: PhantomData }
    }
}

impl<I: TIdx, K: Kind> Drop for Sl<I, K> {
    fn drop(&mut self) {
        if DROP_HOOK_ON.with(|d| d.get()) {
            run_drop_hook();
        }
        tick(Site::Drop);
    }
}

impl<I: TIdx, K: Kind> Slice<I> for Sl<I, K> {
    const MAY_JOIN: bool = K::MAY_JOIN;

    fn split_at(&mut self, idx: I) -> Self {
        tick(Site::SplitBefore);
        run_hook();
        log(Ev::Split(edesc(self.desc()), idx.enc()));
        let right = Sl::new(self.id, self.off.add_right(idx), self.len.sub_left(idx));
        self.len = idx;
        tick(Site::SplitAfter);
        right
    }

    fn try_join(mut self, other: Self) -> Result<Self, (Self, Self)> {
        tick(Site::JoinBefore);
        run_hook();
        let (a, b) = (self.desc(), other.desc());
        let ok = K::joins(a, b);
        log(Ev::Join(edesc(a), edesc(b), ok));
        let r = if ok {
            // Alternate which of the two values survives
            let len = a.2.add_right(b.2);
            if (a.0 ^ other.tok.serial()) & 1 == 0 {
                self.len = len;
                drop(other);
                Ok(self)
            } else {
                let mut o = other;
                o.off = self.off;
                o.len = len;
                drop(self);
                Ok(o)
            }
        } else {
            Err((self, other))
        };
        tick(Site::JoinAfter);
        r
    }
}
