//! The reference model: a plain list of runs.
use crate::idx::TIdx;
use crate::slices::{edesc, Desc, EDesc, Ev, Kind};
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Run<I> {
    pub id: u32,
    pub off: I,
    pub len: I,
    /// Identity of the entry, for slice references
    pub uid: u64,
}
impl<I: TIdx> Run<I> {
    pub fn desc(&self) -> Desc<I> {
        (self.id, self.off, self.len)
    }
}

pub struct Model<I, K> {
    pub runs: Vec<Run<I>>,
    /// `starts[i]` is the position of run `i`; one extra at the end (the total size)
    pub starts: Vec<I>,
    k: PhantomData<K>,
}
impl<I: Clone, K> Clone for Model<I, K> {
    fn clone(&self) -> Self {
        Model { runs: self.runs.clone(), starts: self.starts.clone(), k: PhantomData }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum InsKind {
    Empty,
    EdgeNone,
    EdgeLeft,
    EdgeRight,
    EdgeBoth,
    MidNone,
    MidLeft,
    MidRight,
    MidBoth,
}

/// What an insertion is expected to do
pub struct Plan<I> {
    pub kind: InsKind,
    pub runs: Vec<Run<I>>,
    /// Index of the run containing the inserted slice, afterwards
    pub result: usize,
    pub first_changed: usize,
    pub split: Option<(EDesc, [i64; 3])>,
    /// Acceptable try_join event lists (left-first or right-first order)
    pub joins: [Vec<Ev>; 2],
}

impl<I: TIdx, K: Kind> Model<I, K> {
    pub fn new() -> Self {
        Model { runs: Vec::new(), starts: vec![I::ZERO], k: PhantomData }
    }
    pub fn size(&self) -> I {
        *self.starts.last().unwrap()
    }
    pub fn len(&self) -> usize {
        self.runs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.runs.is_empty()
    }
    pub fn end(&self, i: usize) -> I {
        self.starts[i + 1]
    }
    /// Index of the run containing `x` (must be in bounds)
    pub fn find(&self, x: I) -> usize {
        self.starts.partition_point(|s| *s <= x) - 1
    }
    pub fn restart(&mut self, from: usize) {
        self.starts.truncate(from + 1);
        for r in &self.runs[from..] {
            let e = self.starts.last().unwrap().add_right(r.len);
            self.starts.push(e);
        }
    }
    /// Pure prediction of the effect of `insert(idx, (id, off), size)`
    pub fn plan(&self, idx: I, id: u32, off: I, size: I, uid: u64) -> Plan<I> {
        let off = if K::TRACKS_OFF { off } else { I::ZERO };
        let new = Run { id, off, len: size, uid };
        let try_join = |a: Run<I>, b: Run<I>, keep: u64| -> (Ev, Option<Run<I>>) {
            let ok = K::joins(a.desc(), b.desc());
            let ev = Ev::Join(edesc(a.desc()), edesc(b.desc()), ok);
            let j = Run { id: a.id, off: a.off, len: a.len.add_right(b.len), uid: keep };
            (ev, ok.then_some(j))
        };
        if self.runs.is_empty() {
            return Plan {
                kind: InsKind::Empty,
                runs: vec![new],
                result: 0,
                first_changed: 0,
                split: None,
                joins: [vec![], vec![]],
            };
        }
        let total = self.size();
        let (left, right, before, after, split): (Option<Run<I>>, Option<Run<I>>, usize, usize, _);
        let at = if idx == total { self.runs.len() } else { self.find(idx) };
        let mid = idx != total && self.starts[at] != idx;
        if mid {
            let r = self.runs[at];
            let u = idx.sub_left(self.starts[at]);
            let l = Run { len: u, ..r };
            let roff = if K::TRACKS_OFF { r.off.add_right(u) } else { I::ZERO };
            let rr = Run { id: r.id, off: roff, len: r.len.sub_left(u), uid: uid + 1 };
            left = Some(l);
            right = Some(rr);
            before = at;
            after = at + 1;
            split = Some((edesc(r.desc()), u.enc()));
        } else {
            left = at.checked_sub(1).map(|i| self.runs[i]);
            right = self.runs.get(at).copied();
            before = at - left.is_some() as usize;
            after = at + right.is_some() as usize;
            split = None;
        }

        let mut joins = [Vec::new(), Vec::new()];
        let (mut jl, mut jr) = (false, false);
        let mut m = new;
        if K::MAY_JOIN {
            // left first
            if let Some(l) = left {
                let (ev, j) = try_join(l, m, l.uid);
                joins[0].push(ev);
                if let Some(j) = j {
                    m = j;
                    jl = true;
                }
            }
            if let Some(r) = right {
                let (ev, j) = try_join(m, r, if jl { m.uid } else { r.uid });
                joins[0].push(ev);
                if let Some(j) = j {
                    m = j;
                    jr = true;
                }
            }
            // right first (events only)
            let mut m2 = new;
            if let Some(r) = right {
                let (ev, j) = try_join(m2, r, 0);
                joins[1].push(ev);
                if let Some(j) = j {
                    m2 = j;
                }
            }
            if let Some(l) = left {
                let (ev, _) = try_join(l, m2, 0);
                joins[1].push(ev);
            }
        }
        if mid && jr && !jl {
            // the right half of the split entry continues in the joined entry
            m.uid = uid;
        }
        let mut runs = Vec::with_capacity(self.runs.len() + 2);
        runs.extend_from_slice(&self.runs[..before]);
        if let (Some(l), false) = (left, jl) {
            runs.push(l);
        }
        let result = runs.len();
        runs.push(m);
        if let (Some(r), false) = (right, jr) {
            runs.push(r);
        }
        runs.extend_from_slice(&self.runs[after..]);
        let kind = match (mid, jl, jr) {
            (false, false, false) => InsKind::EdgeNone,
            (false, true, false) => InsKind::EdgeLeft,
            (false, false, true) => InsKind::EdgeRight,
            (false, true, true) => InsKind::EdgeBoth,
            (true, false, false) => InsKind::MidNone,
            (true, true, false) => InsKind::MidLeft,
            (true, false, true) => InsKind::MidRight,
            (true, true, true) => InsKind::MidBoth,
        };
        Plan { kind, runs, result, first_changed: before, split, joins }
    }
    pub fn commit(&mut self, p: Plan<I>) {
        self.runs = p.runs;
        self.restart(p.first_changed);
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for r in &self.runs {
            for x in r.len.enc().into_iter().chain([r.id as i64]) {
                h = crate::rng::mix(h ^ x as u64);
            }
        }
        h
    }
}
