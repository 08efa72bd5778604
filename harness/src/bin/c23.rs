//! C23: the shipped fuzz runner accepts every command sequence; the shipped mock agrees with an independent model.
#[cfg(not(feature = "fuzz"))]
fn main() {}

#[cfg(feature = "fuzz")]
fn main() {
    imp::main()
}

#[cfg(feature = "fuzz")]
mod imp {
    use arbitrary::{Arbitrary, Unstructured};
    use monitors::model::{InsKind, Model};
    use monitors::rng::{mix, Rng};
    use monitors::*;
    use monitors::{idx::*, slices::*};
    use sherman::mock::{self, Mock};
    use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
    use sherman::range::{EndBound, StartBound};
    use sherman::{Constant, DirectionalAdd, DirectionalSub, Index, Slice};
    use sherman_fuzz_utils::{BasicCommand, CommandSequence, CowCommand, ExtraRunnerInfo, Name, RunnerState, SliceRefCommand};
    use std::cell::Cell;

    // ------------------------------------------------------------------ types for generated commands

    thread_local! {
        /// upper bound of the size of any tree of the current sequence, as generated so far
        static EST: Cell<i64> = const { Cell::new(0) };
        /// the next index drawn is a size (a slice has just been drawn)
        static SIZE_NEXT: Cell<bool> = const { Cell::new(false) };
        static MAXSIZE: Cell<i64> = const { Cell::new(9) };
        static ALPHA: Cell<u8> = const { Cell::new(4) };
        static WILD: Cell<u8> = const { Cell::new(0) };
        /// joins that succeeded and splits made during the current command
        static JOINED: Cell<u32> = const { Cell::new(0) };
        static SPLIT: Cell<u32> = const { Cell::new(0) };
    }
    fn bump(c: &'static std::thread::LocalKey<Cell<u32>>) {
        c.with(|c| c.set(c.get() + 1))
    }

    /// Index whose random values are mostly in bounds of the tree being generated
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Ar(i64);
    impl DirectionalAdd for Ar {
        fn add_right(self, r: Self) -> Self {
            Ar(self.0.checked_add(r.0).unwrap())
        }
    }
    impl DirectionalSub for Ar {
        fn sub_left(self, l: Self) -> Self {
            Ar(self.0.checked_sub(l.0).unwrap())
        }
        fn sub_right(self, r: Self) -> Self {
            Ar(self.0.checked_sub(r.0).unwrap())
        }
    }
    impl Index for Ar {
        const ZERO: Self = Ar(0);
    }
    impl<'d> Arbitrary<'d> for Ar {
        fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
            let x = u16::arbitrary(u)? as i64;
            let wild = u8::arbitrary(u)? < WILD.with(|w| w.get());
            let est = EST.with(|e| e.get());
            if SIZE_NEXT.with(|s| s.replace(false)) {
                let s = if wild { (x % 3) - 1 } else { 1 + x % MAXSIZE.with(|m| m.get()) };
                EST.with(|e| e.set(est + s.max(0)));
                Ok(Ar(s))
            } else if wild {
                Ok(Ar((est + (x % 5) - 2).max(0)))
            } else {
                Ok(Ar(x % (est + 1)))
            }
        }
    }

    /// Equal letters join; the left letter's tag survives, so that operand order is visible
    #[derive(Clone, Debug, PartialEq)]
    pub struct Tagged(u8, u8);
    impl Slice<Ar> for Tagged {
        const MAY_JOIN: bool = true;
        fn split_at(&mut self, _: Ar) -> Self {
            bump(&SPLIT);
            Tagged(self.0, self.1.wrapping_add(1))
        }
        fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
            if self.0 == o.0 {
                bump(&JOINED);
                Ok(self)
            } else {
                Err((self, o))
            }
        }
    }
    impl<'d> Arbitrary<'d> for Tagged {
        fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
            let v = Tagged(u8::arbitrary(u)? % ALPHA.with(|a| a.get()), u8::arbitrary(u)?);
            SIZE_NEXT.with(|s| s.set(true));
            Ok(v)
        }
    }
    /// Joins only when the left letter is one less: never joins its own split halves
    #[derive(Clone, Debug, PartialEq)]
    pub struct Stair(u8, u8);
    impl Slice<Ar> for Stair {
        const MAY_JOIN: bool = true;
        fn split_at(&mut self, _: Ar) -> Self {
            bump(&SPLIT);
            Stair(self.0, self.1)
        }
        fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
            if self.1.wrapping_add(1) == o.0 {
                bump(&JOINED);
                Ok(Stair(self.0, o.1))
            } else {
                Err((self, o))
            }
        }
    }
    impl<'d> Arbitrary<'d> for Stair {
        fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
            let a = u8::arbitrary(u)? % ALPHA.with(|a| a.get());
            SIZE_NEXT.with(|s| s.set(true));
            Ok(Stair(a, a))
        }
    }
    /// Never joins
    #[derive(Clone, Debug, PartialEq)]
    pub struct Lone(u16);
    impl Slice<Ar> for Lone {
        const MAY_JOIN: bool = false;
        fn split_at(&mut self, _: Ar) -> Self {
            Lone(self.0.wrapping_mul(31).wrapping_add(7))
        }
    }
    impl<'d> Arbitrary<'d> for Lone {
        fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
            let v = Lone(u16::arbitrary(u)?);
            SIZE_NEXT.with(|s| s.set(true));
            Ok(v)
        }
    }
    /// The letters of the shipped fuzz targets
    #[derive(Debug, Eq)]
    pub struct Letter(char);
    impl Clone for Letter {
        fn clone(&self) -> Self {
            bump(&SPLIT);
            Letter(self.0)
        }
    }
    impl PartialEq for Letter {
        fn eq(&self, o: &Self) -> bool {
            if self.0 == o.0 {
                bump(&JOINED);
            }
            self.0 == o.0
        }
    }
    impl<'d> Arbitrary<'d> for Letter {
        fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
            Ok(Letter((b'A' + u.int_in_range(0_u8..=25)?) as char))
        }
    }

    struct N;
    impl Name for N {
        fn name() -> &'static str {
            "T"
        }
    }

    fn bytes(g: &mut Rng, n: usize) -> Vec<u8> {
        (0..n).map(|_| g.u64() as u8).collect()
    }

    /// Message and place of a panic out of the runner. The runner installs and removes panic hooks of its own.
    fn caught<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
        report::install_hook();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        report::install_hook();
        r.map_err(|_| ())
    }

    macro_rules! family {
        ($r:expr, $nm:expr, $n:expr, $len:expr, $wild:expr, $i:ty, $draw:ty => $s:ty, $p:ty, $m:literal, $cmd:ident, $run:ident, $extra:ident, $map:expr) => {
            $r.config(&format!("runner:{}", $nm), $n, |seed, logging, log| {
                let mut g = Rng::new(seed);
                EST.with(|e| e.set(0));
                SIZE_NEXT.with(|s| s.set(false));
                MAXSIZE.with(|m| m.set(*g.pick(&[1, 3, 9, 40])));
                ALPHA.with(|a| a.set(*g.pick(&[2, 4, 12, 200])));
                WILD.with(|w| w.set($wild));
                let len = g.range(8, $len);
                let b = bytes(&mut g, len);
                let mut u = Unstructured::new(&b);
                let seq = caught(|| CommandSequence::<N, $cmd<$i, $draw>>::arbitrary(&mut u));
                report::install_hook();
                let mut st = world::Stats::default();
                let Ok(seq) = seq else { panic!("MONITOR: the mock panicked outside of a refused command: {}", report::last_panic()) };
                let Ok(seq) = seq else {
                    // ran out of input inside a command
                    st.op("sequence_not_generated");
                    return Outcome { hash: seed, nontrivial: false, stats: st, sample: String::new() };
                };
                let cmds = seq.map($map).cmds;
                let mut runner: RunnerState<$i, $s, $p, $m> = RunnerState::init();
                let extra = ExtraRunnerInfo::$extra();
                let n = cmds.len();
                let mut inserts = 0;
                for c in &cmds {
                    let d = format!("{c:?}");
                    if d.contains(".insert") && !d.contains("is_err") {
                        inserts += 1;
                    }
                    if logging {
                        log.push(d);
                    }
                    JOINED.with(|c| c.set(0));
                    SPLIT.with(|c| c.set(0));
                    if caught(|| runner.$run(c, &extra)).is_err() {
                        let mut why = report::last_panic();
                        if (JOINED.with(|c| c.get()), SPLIT.with(|c| c.get())) == (2, 0) {
                            why += " [inserting a slice that joins both neighbours]";
                        }
                        std::mem::forget(runner);
                        panic!("MONITOR: the runner fails on an accepted command sequence: {why}; at {c:?}");
                    }
                    st.comparisons += 1;
                }
                report::install_hook();
                st.add("commands", n as u64);
                st.add("accepted_inserts", inserts);
                st.max("max_accepted_inserts", inserts);
                Outcome { hash: b.iter().fold(seed, |h, x| mix(h ^ *x as u64)), nontrivial: inserts > 2 * $m as u64, stats: st, sample: format!("{n} commands, {inserts} accepted inserts") }
            });
        };
    }

    // ------------------------------------------------------------------ mock against model

    struct MState<I: TIdx, K: Kind> {
        mock: Mock<I, Sl<I, K>>,
        m: Model<I, K>,
        refs: Vec<(mock::Ref, u64)>,
        uid: u64,
    }

    fn mock_check<I: TIdx, K: Kind>(s: &MState<I, K>, g: &mut Rng, st: &mut world::Stats) {
        let (mk, m) = (&s.mock, &s.m);
        ensure!(mk.size() == m.size(), "mock size {:?}, expected {:?}", mk.size(), m.size());
        let n = m.len();
        for k in 0..n {
            let mut xs = vec![m.starts[k]];
            if let Some(u) = I::gen_inside(g, m.runs[k].len) {
                xs.push(m.starts[k].add_right(u));
            }
            for x in xs {
                let (r, v) = mk.get(x);
                ensure!(r == (m.starts[k]..m.end(k)) && v.desc() == m.runs[k].desc(), "mock get({x:?}) = {r:?} {:?}, expected entry {k} at {:?}", v.desc(), m.starts[k]..m.end(k));
                st.comparisons += 1;
            }
        }
        for (r, uid) in &s.refs {
            let p = m.runs.iter().position(|x| x.uid == *uid).expect("model run");
            let got = mk.ref_range(r);
            ensure!(got == Some(m.starts[p]..m.end(p)), "mock ref_range = {got:?}, expected entry {p} at {:?}", m.starts[p]..m.end(p));
            ensure!(mk.ref_slice(r).map(|v| v.desc()) == Some(m.runs[p].desc()), "mock ref_slice differs for entry {p}");
            ensure!(mk.ref_size(r) == Some(m.runs[p].len), "mock ref_size differs for entry {p}");
            st.comparisons += 1;
        }
        // iteration over random bounds, both ends; refusals
        for _ in 0..4 {
            let pos = |g: &mut Rng| -> I {
                if n == 0 || g.chance(1, 8) {
                    return match g.below(4) {
                        0 => I::ZERO,
                        1 => m.size(),
                        2 => I::gen_above(g, m.size()).unwrap_or(I::ZERO),
                        _ => I::gen_negative(g).unwrap_or(I::ZERO),
                    };
                }
                let k = g.below(n);
                match I::gen_inside(g, m.runs[k].len) {
                    Some(u) if g.chance(1, 2) => m.starts[k].add_right(u),
                    _ => m.starts[k],
                }
            };
            let sb = if g.chance(1, 4) { StartBound::Unbounded } else { StartBound::Included(pos(g)) };
            let eb = match g.below(5) {
                0 => EndBound::Unbounded,
                1 | 2 => EndBound::Included(pos(g)),
                _ => EndBound::Excluded(pos(g)),
            };
            // what the documentation of RleTree::iter says
            let total = m.size();
            let lo = match sb {
                StartBound::Unbounded => Some(0),
                StartBound::Included(x) if x >= I::ZERO && x < total => Some(m.find(x)),
                _ => None,
            };
            let hi = match eb {
                EndBound::Unbounded => Some(n),
                EndBound::Included(x) if x >= I::ZERO && x < total => Some(m.find(x) + 1),
                EndBound::Excluded(x) if x == I::ZERO => Some(0),
                EndBound::Excluded(x) if x == total => Some(n),
                EndBound::Excluded(x) if x > I::ZERO && x < total => {
                    let k = m.find(x);
                    Some(if m.starts[k] == x { k } else { k + 1 })
                }
                _ => None,
            };
            let backwards = match (sb, eb) {
                (StartBound::Included(a), EndBound::Included(b)) => a > b,
                (StartBound::Included(a), EndBound::Excluded(b)) => a >= b,
                _ => false,
            };
            let want = match (lo, hi) {
                (Some(a), Some(b)) if !backwards => Some((a, b)),
                _ => None,
            };
            let mut dirs: Vec<bool> = vec![];
            let got = report::quiet_catch(|| {
                let mut it = mk.iter((sb, eb));
                let (mut f, mut b) = (vec![], vec![]);
                for _ in 0..n + 3 {
                    let d = g.chance(1, 2);
                    dirs.push(d);
                    let e = if d { it.next() } else { it.next_back() };
                    if let Some((r, sz, v)) = e {
                        let x = (r.start, r.end, sz, v.desc());
                        if d { f.push(x) } else { b.push(x) }
                    }
                }
                b.reverse();
                f.extend(b);
                f
            });
            match (want, &got) {
                (None, Err(_)) => st.op("mock_iter_refused"),
                (None, Ok(v)) => panic!("MONITOR: mock iter({sb:?}, {eb:?}) over size {total:?} yields {} entries; the tree refuses it", v.len()),
                (Some(_), Err(e)) => panic!("MONITOR: mock iter({sb:?}, {eb:?}) over size {total:?} panics: {e}"),
                (Some((a, b)), Ok(v)) => {
                    let w: Vec<_> = (a..b.max(a)).map(|k| (m.starts[k], m.end(k), m.runs[k].len, m.runs[k].desc())).collect();
                    ensure!(*v == w, "mock iter({sb:?}, {eb:?}) yields {} entries, expected entries {a}..{b}", v.len());
                    st.op("mock_iter");
                }
            }
            st.comparisons += 1;
        }
    }

    fn mock_history<I: TIdx, K: Kind>(r: &mut Runner, n: u64, steps: usize) {
        r.config(&format!("mock:{}/{}", I::NAME, K::NAME), n, |seed, logging, log| {
            let mut g = Rng::new(seed);
            let mut st = world::Stats::default();
            let alpha = *g.pick(&[1usize, 2, 3, 30]);
            let with_refs = g.chance(2, 3);
            let mut s: MState<I, K> = MState { mock: Mock::new_empty(), m: Model::new(), refs: vec![], uid: 1 };
            if g.chance(1, 3) {
                let size = I::gen_size(&mut g);
                let (id, off) = (g.below(alpha) as u32, I::ZERO);
                let p = s.m.plan(I::ZERO, id, off, size, 0);
                s.m.commit(p);
                s.mock = Mock::new(Sl::new(id, off, size), size);
                if with_refs {
                    // a reference to the value it was made with, checked before anything else happens
                    let rf = s.mock.make_ref(I::ZERO);
                    s.refs.push((rf, s.m.runs[0].uid));
                    st.op("mock_make_ref");
                }
                mock_check(&s, &mut g, &mut st);
            }
            let mut h = seed;
            for step in 0..steps {
                let total = s.m.size();
                match g.below(12) {
                    0 if with_refs && !s.m.is_empty() => {
                        let k = g.below(s.m.len());
                        let rf = s.mock.make_ref(s.m.starts[k]);
                        s.refs.push((rf, s.m.runs[k].uid));
                        st.op("mock_make_ref");
                    }
                    1 => {
                        let bad = match g.below(3) {
                            0 => I::gen_negative(&mut g),
                            1 => I::gen_above(&mut g, total),
                            _ => Some(total),
                        };
                        if let Some(b) = bad {
                            let mk = &s.mock;
                            ensure!(report::quiet_catch(|| { mk.get(b); }).is_err(), "mock get({b:?}) with size {total:?} does not panic");
                            let mk = &mut s.mock;
                            ensure!(report::quiet_catch(|| { mk.make_ref(b); }).is_err(), "mock make_ref({b:?}) with size {total:?} does not panic");
                            st.op("mock_refused_read");
                        }
                    }
                    2 => {
                        let (idx, size) = if g.chance(1, 2) {
                            (total, I::gen_nonpositive(&mut g))
                        } else {
                            match I::gen_above(&mut g, total) {
                                Some(x) => (x, I::gen_size(&mut g)),
                                None => continue,
                            }
                        };
                        let mk = &mut s.mock;
                        ensure!(report::quiet_catch(|| { mk.insert(idx, Sl::new(1, I::ZERO, size), size, false); }).is_err(), "mock insert({idx:?}, size {size:?}) with size {total:?} does not panic");
                        let sz = I::gen_nonpositive(&mut g);
                        ensure!(report::quiet_catch(|| { Mock::new(Sl::<I, K>::new(1, I::ZERO, sz), sz); }).is_err(), "Mock::new with size {sz:?} does not panic");
                        st.op("mock_refused_insert");
                    }
                    3 if s.refs.is_empty() && step % 3 == 0 => {
                        let c = s.mock.clone();
                        s.mock = c;
                        st.op("mock_clone");
                    }
                    _ => {
                        let size = I::gen_size(&mut g);
                        if !I::fits(total, size) {
                            continue;
                        }
                        let mut idx = total;
                        if !s.m.is_empty() && g.chance(4, 5) {
                            let k = g.below(s.m.len());
                            idx = s.m.starts[k];
                            if g.chance(1, 2) {
                                if let Some(u) = I::gen_inside(&mut g, s.m.runs[k].len) {
                                    idx = idx.add_right(u);
                                }
                            }
                        }
                        let (mut id, mut off) = (g.below(alpha) as u32, I::ZERO);
                        if K::TRACKS_OFF && !s.m.is_empty() && g.chance(2, 3) {
                            // continue what ends here
                            let k = if idx == total { s.m.len() - 1 } else { s.m.find(idx) };
                            if s.m.starts[k] < idx {
                                let x = s.m.runs[k];
                                id = x.id;
                                off = x.off.add_right(idx.sub_left(s.m.starts[k]));
                            }
                        }
                        s.uid += 2;
                        let uid = s.uid;
                        // the mock offers the pairs whatever MAY_JOIN says
                        let p = s.m.plan(idx, id, off, size, uid);
                        let kind = p.kind;
                        *st.kinds.entry(kind).or_default() += 1;
                        let res = p.result;
                        // a reference to the right operand of a double join follows the joined entry
                        let right_uid = if kind == InsKind::EdgeBoth { Some(s.m.runs[if idx == total { s.m.len() - 1 } else { s.m.find(idx) }].uid) } else { None };
                        if logging {
                            log.push(format!("insert({idx:?}, id {id}, off {off:?}, size {size:?}) {kind:?}"));
                        }
                        let want_ref = with_refs && g.chance(1, 3);
                        let got = s.mock.insert(idx, Sl::new(id, off, size), size, want_ref);
                        s.m.commit(p);
                        ensure!(got.is_some() == want_ref, "mock insert(make_ref = {want_ref}) returned {got:?}");
                        let joined = s.m.runs[res].uid;
                        if let Some(ru) = right_uid {
                            for x in s.refs.iter_mut().filter(|x| x.1 == ru) {
                                x.1 = joined;
                            }
                        }
                        if let Some(rf) = got {
                            s.refs.push((rf, joined));
                        }
                        h = mix(h ^ kind as u64 ^ (idx.enc()[0] as u64) << 8);
                        st.op("mock_insert");
                    }
                }
                slices::take_events();
                if step % 5 == 4 || step + 1 == steps {
                    mock_check(&s, &mut g, &mut st);
                }
                if let Some(f) = ledger::take_fault() {
                    panic!("MONITOR: value ledger: {f}");
                }
            }
            let nontrivial = s.m.len() > 5;
            let sample = format!("{} entries, {} references", s.m.len(), s.refs.len());
            Outcome { hash: h, nontrivial, stats: st, sample }
        });
    }

    pub fn main() {
        let mut r = Runner::new();
        let k = if r.a.thorough() { 40 } else { 1 };
        macro_rules! three {
            ($s:ty, $m:literal, $n:expr, $len:expr, $wild:expr, $t:expr) => {
                family!(r, format!("{}/{}/NoFeatures/M{}", $t, stringify!($s), $m), $n * k, $len, $wild, Ar, $s => $s, NoFeatures, $m, BasicCommand, run_basic_cmd, new_basic, |c| c);
                family!(r, format!("{}/{}/AllowSliceRefs/M{}", $t, stringify!($s), $m), $n * k, $len, $wild, Ar, $s => $s, AllowSliceRefs, $m, SliceRefCommand, run_slice_ref_cmd, new_slice_refs, |c| c);
                family!(r, format!("{}/{}/AllowCow/M{}", $t, stringify!($s), $m), $n * k, $len, $wild, Ar, $s => $s, AllowCow, $m, CowCommand, run_cow_cmd, new_cow, |c| c);
            };
        }
        three!(Lone, 1, 250, 1200, 1, "in-bounds");
        three!(Lone, 2, 150, 2500, 1, "in-bounds");
        three!(Tagged, 1, 250, 1200, 1, "in-bounds");
        three!(Stair, 1, 250, 1200, 1, "in-bounds");
        three!(Stair, 3, 150, 1200, 2, "in-bounds");
        three!(Lone, 3, 150, 400, 40, "wild");
        three!(Tagged, 2, 150, 400, 40, "wild");
        // exactly what the shipped fuzz targets do with uniformly random input
        macro_rules! shipped {
            ($m:literal) => {
                family!(r, format!("uniform/letters/NoFeatures/M{}", $m), 300 * k, 200, 0, u8, Constant<Letter> => Constant<Letter>, NoFeatures, $m, BasicCommand, run_basic_cmd, new_basic, |c| c);
                family!(r, format!("uniform/letters/AllowSliceRefs/M{}", $m), 300 * k, 200, 0, u8, Constant<Letter> => Constant<Letter>, AllowSliceRefs, $m, SliceRefCommand, run_slice_ref_cmd, new_slice_refs, |c| c);
                family!(r, format!("uniform/letters/AllowCow/M{}", $m), 300 * k, 200, 0, u8, Constant<Letter> => Constant<Letter>, AllowCow, $m, CowCommand, run_cow_cmd, new_cow, |c| c);
            };
        }
        shipped!(1);
        shipped!(3);
        mock_history::<Cnt, KConst>(&mut r, 300 * k, 80);
        mock_history::<usize, KPiece>(&mut r, 300 * k, 80);
        mock_history::<u8, KConst>(&mut r, 200 * k, 60);
        mock_history::<Cnt, KStubborn>(&mut r, 150 * k, 80);
        mock_history::<Heis, KPiece>(&mut r, 200 * k, 60);
        mock_history::<Heis, KConst>(&mut r, 200 * k, 60);
        r.finish();
    }
}
