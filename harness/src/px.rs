//! Uniform access to what differs between the three feature parameters.
use crate::cursors::VecCursor;
use crate::idx::TIdx;
use crate::slices::{Desc, Kind, Sl};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Cursor, RleTree, SliceEntry, SliceRef};
use std::ops::Range;

pub trait PX<I: TIdx, K: Kind, const M: usize>:
    RleTreeConfig<I, Sl<I, K>, M> + SupportsInsert<I, Sl<I, K>, M> + Sized + 'static
{
    type Ref: 'static;
    const NAME: &'static str;
    const REFS: bool;
    const CLONES: bool;
    const IS_COW: bool;
    fn insert_ref<C: Cursor>(
        _t: &mut RleTree<I, Sl<I, K>, Self, M>,
        _c: Option<C>,
        _idx: I,
        _s: Sl<I, K>,
        _size: I,
    ) -> (Option<C>, Self::Ref) {
        unreachable!()
    }
    fn make_ref(_e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Self::Ref {
        unreachable!()
    }
    fn entry_cursor<C: Cursor>(e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Option<C>;
    fn clone_tree(_t: &RleTree<I, Sl<I, K>, Self, M>) -> RleTree<I, Sl<I, K>, Self, M> {
        unreachable!()
    }
    fn r_clone(_r: &Self::Ref) -> Self::Ref {
        unreachable!()
    }
    fn r_valid(_r: &Self::Ref) -> bool {
        unreachable!()
    }
    fn r_can(_r: &Self::Ref) -> bool {
        unreachable!()
    }
    fn r_range(_r: &Self::Ref) -> Option<Range<I>> {
        unreachable!()
    }
    fn r_desc(_r: &Self::Ref) -> Option<Desc<I>> {
        unreachable!()
    }
    fn r_addr(_r: &Self::Ref) -> Option<usize> {
        unreachable!()
    }
    fn r_cursor(_r: &Self::Ref) -> Option<VecCursor> {
        unreachable!()
    }
    /// Runs `f` while a borrow through the reference is held. `false` if it could not be borrowed
    fn r_with_borrow(_r: &Self::Ref, _f: &mut dyn FnMut()) -> bool {
        unreachable!()
    }
}

impl<I: TIdx, K: Kind, const M: usize> PX<I, K, M> for NoFeatures {
    type Ref = ();
    const NAME: &'static str = "NoFeatures";
    const REFS: bool = false;
    const CLONES: bool = true;
    const IS_COW: bool = false;
    fn entry_cursor<C: Cursor>(e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Option<C> {
        Some(e.cursor())
    }
    fn clone_tree(t: &RleTree<I, Sl<I, K>, Self, M>) -> RleTree<I, Sl<I, K>, Self, M> {
        t.clone()
    }
}

impl<I: TIdx, K: Kind, const M: usize> PX<I, K, M> for AllowCow {
    type Ref = ();
    const NAME: &'static str = "AllowCow";
    const REFS: bool = false;
    const CLONES: bool = true;
    const IS_COW: bool = true;
    fn entry_cursor<C: Cursor>(_e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Option<C> {
        None
    }
    fn clone_tree(t: &RleTree<I, Sl<I, K>, Self, M>) -> RleTree<I, Sl<I, K>, Self, M> {
        t.clone()
    }
}

impl<I: TIdx, K: Kind, const M: usize> PX<I, K, M> for AllowSliceRefs {
    type Ref = SliceRef<I, Sl<I, K>, M>;
    const NAME: &'static str = "AllowSliceRefs";
    const REFS: bool = true;
    const CLONES: bool = false;
    const IS_COW: bool = false;
    fn insert_ref<C: Cursor>(
        t: &mut RleTree<I, Sl<I, K>, Self, M>,
        c: Option<C>,
        idx: I,
        s: Sl<I, K>,
        size: I,
    ) -> (Option<C>, Self::Ref) {
        match c {
            Some(c) => {
                let (c, r) = t.insert_ref_with_cursor(c, idx, s, size);
                (Some(c), r)
            }
            None => (None, t.insert_ref(idx, s, size)),
        }
    }
    fn make_ref(e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Self::Ref {
        e.make_ref()
    }
    fn entry_cursor<C: Cursor>(e: &SliceEntry<I, Sl<I, K>, Self, M>) -> Option<C> {
        Some(e.cursor())
    }
    fn r_clone(r: &Self::Ref) -> Self::Ref {
        r.clone()
    }
    fn r_valid(r: &Self::Ref) -> bool {
        r.is_valid()
    }
    fn r_can(r: &Self::Ref) -> bool {
        r.can_borrow()
    }
    fn r_range(r: &Self::Ref) -> Option<Range<I>> {
        r.try_range()
    }
    fn r_desc(r: &Self::Ref) -> Option<Desc<I>> {
        r.try_borrow_slice().map(|b| b.desc())
    }
    fn r_addr(r: &Self::Ref) -> Option<usize> {
        r.try_borrow_slice().map(|b| &*b as *const Sl<I, K> as usize)
    }
    fn r_cursor(r: &Self::Ref) -> Option<VecCursor> {
        r.try_cursor()
    }
    fn r_with_borrow(r: &Self::Ref, f: &mut dyn FnMut()) -> bool {
        match r.try_borrow_slice() {
            Some(_b) => {
                f();
                true
            }
            None => false,
        }
    }
}
