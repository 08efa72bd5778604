//! C19: range bound types mean what their mathematical ranges mean, checked against explicit sets.
//! Exhaustive over a small dense domain: bounds are the even numbers, test points include the odd ones and both outsides.
use monitors::*;
use monitors::{rng::mix};
use sherman::range::{EndBound, RangeBounds, StartBound};
use std::collections::BTreeSet;
use std::fmt::Debug;

type V = i32;

/// The set of test points of one range, from its plain meaning
fn set(s: Option<V>, e: Option<(V, bool)>, pts: &[V]) -> BTreeSet<V> {
    pts.iter().copied().filter(|x| s.map_or(true, |s| *x >= s) && e.map_or(true, |(e, inc)| if inc { *x <= e } else { *x < e })).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Spec {
    s: Option<V>,
    e: Option<(V, bool)>,
}

struct Mon<'a> {
    pts: &'a [V],
    n: u64,
    h: u64,
}

impl<'a> Mon<'a> {
    fn one<R: RangeBounds<V> + Debug>(&mut self, r: &R, sp: Spec, ty: &str) {
        self.n += 1;
        self.h = mix(self.h ^ mix(sp.s.unwrap_or(99) as u64) ^ mix((sp.e.map_or(77, |e| e.0 * 2 + e.1 as V)) as u64) ^ report::hash_str(ty));
        let want = set(sp.s, sp.e, self.pts);
        let got: BTreeSet<V> = self.pts.iter().copied().filter(|x| r.contains(x)).collect();
        ensure!(got == want, "{ty} {r:?}: contains() holds for {got:?}, the range denotes {want:?}");
        let sb = match r.start_bound() {
            StartBound::Included(x) => Some(*x),
            StartBound::Unbounded => None,
        };
        let eb = match r.end_bound() {
            EndBound::Included(x) => Some((*x, true)),
            EndBound::Excluded(x) => Some((*x, false)),
            EndBound::Unbounded => None,
        };
        ensure!(sb == sp.s && eb == sp.e, "{ty} {r:?}: bounds are {sb:?} and {eb:?}, expected {sp:?}");
        // conversions preserve the bound
        let (cs, ce) = (r.start_bound().cloned(), r.end_bound().cloned());
        ensure!(
            cs == sp.s.map_or(StartBound::Unbounded, StartBound::Included)
                && ce == sp.e.map_or(EndBound::Unbounded, |(x, i)| if i { EndBound::Included(x) } else { EndBound::Excluded(x) }),
            "{ty} {r:?}: cloned bounds {cs:?} {ce:?}"
        );
        // the value order is dense enough that a range with both bounds is empty iff no point is in it
        let after = match (sp.s, sp.e) {
            (Some(s), Some((e, true))) => s > e,
            (Some(s), Some((e, false))) => s >= e,
            _ => false,
        };
        ensure!(r.starts_after_end() == after, "{ty} {r:?}: starts_after_end() = {}", r.starts_after_end());
        ensure!(r.is_empty_naive() == want.is_empty(), "{ty} {r:?}: is_empty_naive() = {}, the range denotes {want:?}", r.is_empty_naive());
    }
    fn two<A: RangeBounds<V> + Debug, B: RangeBounds<V> + Debug>(&mut self, a: &A, sa: Spec, b: B, sb: Spec, ty: &str) {
        self.n += 1;
        let (x, y) = (set(sa.s, sa.e, self.pts), set(sb.s, sb.e, self.pts));
        let want = x.intersection(&y).next().is_some();
        let d = format!("{b:?}");
        let got = a.overlaps_naive(b);
        ensure!(got == want, "{ty}: {a:?} overlaps_naive {d} = {got}; they share {:?}", x.intersection(&y).collect::<Vec<_>>());
    }
}

/// Calls `f` with every spelling of the range
macro_rules! spell {
    ($sp:expr, |$r:ident, $ty:ident| $b:expr) => {{
        let sp = $sp;
        macro_rules! go {
            ($e:expr, $t:expr) => {{
                let ($r, $ty) = (&$e, $t);
                $b;
            }};
        }
        let sbv = sp.s.map_or(StartBound::Unbounded, StartBound::Included);
        let ebv = sp.e.map_or(EndBound::Unbounded, |(x, i)| if i { EndBound::Included(x) } else { EndBound::Excluded(x) });
        go!((sbv, ebv), "(StartBound<T>, EndBound<T>)");
        go!(&(sbv, ebv), "&(StartBound<T>, EndBound<T>)");
        let sref = match &sbv { StartBound::Included(x) => StartBound::Included(x), StartBound::Unbounded => StartBound::Unbounded };
        let eref = match &ebv { EndBound::Included(x) => EndBound::Included(x), EndBound::Excluded(x) => EndBound::Excluded(x), EndBound::Unbounded => EndBound::Unbounded };
        go!((sref, eref), "(StartBound<&T>, EndBound<&T>)");
        match (sp.s, sp.e) {
            (Some(s), Some((e, false))) => {
                go!(s..e, "Range<T>");
                go!(&s..&e, "Range<&T>");
                go!(&(s..e), "&Range<T>");
                go!(&&(s..e), "&&Range<T>");
            }
            (Some(s), Some((e, true))) => {
                go!(s..=e, "RangeInclusive<T>");
                go!(&s..=&e, "RangeInclusive<&T>");
                go!(&(s..=e), "&RangeInclusive<T>");
            }
            (Some(s), None) => {
                go!(s.., "RangeFrom<T>");
                go!(&s.., "RangeFrom<&T>");
                go!(&(s..), "&RangeFrom<T>");
            }
            (None, Some((e, false))) => {
                go!(..e, "RangeTo<T>");
                go!(..&e, "RangeTo<&T>");
            }
            (None, Some((e, true))) => {
                go!(..=e, "RangeToInclusive<T>");
                go!(..=&e, "RangeToInclusive<&T>");
            }
            (None, None) => {
                go!(.., "RangeFull");
                go!(&.., "&RangeFull");
            }
        }
    }};
}

fn specs(lo: V, hi: V) -> Vec<Spec> {
    let mut v = vec![];
    let b: Vec<V> = (lo..=hi).step_by(2).collect();
    let ss: Vec<Option<V>> = std::iter::once(None).chain(b.iter().map(|x| Some(*x))).collect();
    let es: Vec<Option<(V, bool)>> = std::iter::once(None).chain(b.iter().flat_map(|x| [Some((*x, true)), Some((*x, false))])).collect();
    for s in &ss {
        for e in &es {
            v.push(Spec { s: *s, e: *e });
        }
    }
    v
}

/// A range type of our own that overrides nothing: the provided methods must only use its bounds
#[derive(Debug, Clone)]
struct Own(Spec);
impl RangeBounds<V> for Own {
    fn start_bound(&self) -> StartBound<&V> {
        match &self.0.s {
            Some(x) => StartBound::Included(x),
            None => StartBound::Unbounded,
        }
    }
    fn end_bound(&self) -> EndBound<&V> {
        match &self.0.e {
            Some((x, true)) => EndBound::Included(x),
            Some((x, false)) => EndBound::Excluded(x),
            None => EndBound::Unbounded,
        }
    }
}

/// Non-`Copy` values without a common numeric meaning
fn strings() -> u64 {
    let words = ["", "a", "ab", "b", "ba", "c"];
    let mut n = 0;
    for (i, a) in words.iter().enumerate() {
        for (j, b) in words.iter().enumerate() {
            let (a, b) = (a.to_string(), b.to_string());
            for (k, w) in words.iter().enumerate() {
                let w = w.to_string();
                let r = a.clone()..b.clone();
                ensure!(RangeBounds::contains(&r, &w) == (i <= k && k < j), "{r:?} contains {w:?}");
                let r = &a..=&b;
                ensure!(RangeBounds::<String>::contains(&r, &w) == (i <= k && k <= j), "{r:?} contains {w:?}");
                let r = (StartBound::<String>::Unbounded, EndBound::Excluded(b.clone()));
                ensure!(RangeBounds::<String>::contains(&r, &w) == (k < j), "{r:?} contains {w:?}");
                n += 3;
            }
            ensure!((a.clone()..b.clone()).overlaps_naive(b.clone()..) == false, "{a:?}..{b:?} overlaps {b:?}..");
            ensure!((a.clone()..=b.clone()).overlaps_naive(b.clone()..) == (i <= j), "{a:?}..={b:?} overlaps {b:?}..");
            n += 2;
        }
    }
    n
}

/// Partially ordered values: an unordered bound or item is in no bounded range
fn floats() -> u64 {
    let vs = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 0.5, 1.0, f64::INFINITY, f64::NAN];
    let mut n = 0;
    for a in vs {
        for b in vs {
            for x in vs {
                ensure!(RangeBounds::contains(&(a..b), &x) == (a <= x && x < b), "{a}..{b} contains {x}");
                ensure!(RangeBounds::contains(&(a..=b), &x) == (a <= x && x <= b), "{a}..={b} contains {x}");
                ensure!(RangeBounds::contains(&(a..), &x) == (a <= x), "{a}.. contains {x}");
                ensure!(RangeBounds::contains(&(..b), &x) == (x < b), "..{b} contains {x}");
                n += 4;
            }
            ensure!((a..b).starts_after_end() == (a >= b), "{a}..{b} starts_after_end");
            ensure!((a..=b).starts_after_end() == (a > b), "{a}..={b} starts_after_end");
            n += 2;
        }
    }
    // the limits of a type, where nothing is outside
    for a in 0..=u8::MAX {
        for b in 0..=u8::MAX {
            for x in [0, a.wrapping_sub(1), a, b, b.wrapping_add(1), u8::MAX] {
                ensure!(RangeBounds::contains(&(a..b), &x) == (a <= x && x < b), "{a}..{b} contains {x}");
                ensure!(RangeBounds::contains(&(a..=b), &x) == (a <= x && x <= b), "{a}..={b} contains {x}");
                n += 2;
            }
            ensure!((a..b).is_empty_naive() == (a >= b) && (a..=b).is_empty_naive() == (a > b), "{a}, {b}: is_empty_naive");
            n += 2;
        }
    }
    n
}

fn main() {
    let mut r = Runner::new();
    let hi: V = if r.a.thorough() { 40 } else { 14 };
    let pts: Vec<V> = (-3..=hi + 3).collect();
    let all = specs(0, hi);
    // one history per first range, so that a violation names it
    let count = all.len() as u64;
    for i in 0..count {
        let sp = all[i as usize];
        let name = format!("pairs-with:{:?}..{:?}", sp.s, sp.e);
        if i % r.a.shards != r.a.shard && r.a.only.is_none() {
            continue;
        }
        let (sh, shs) = (r.a.shard, r.a.shards);
        r.a.shard = 0;
        r.a.shards = 1;
        let sc = std::mem::replace(&mut r.a.scale, 1.0);
        r.config(&name, 1, |_, _, _| {
            let mut m = Mon { pts: &pts, n: 0, h: i };
            spell!(sp, |x, ty| m.one(x, sp, ty));
            m.one(&Own(sp), sp, "own type");
            for sq in &all {
                let sq = *sq;
                spell!(sp, |x, ty| {
                    m.two(x, sp, Own(sq), sq, ty);
                    m.two(&Own(sq), sq, x, sp, ty);
                });
                spell!(sq, |x, ty| m.two(&Own(sp), sp, x, sq, ty));
            }
            let mut st = world::Stats::default();
            st.comparisons += m.n;
            st.add("range_pairs", all.len() as u64);
            Outcome { hash: m.h, nontrivial: true, stats: st, sample: format!("{} checks over {} points", m.n, pts.len()) }
        });
        r.a.shard = sh;
        r.a.shards = shs;
        r.a.scale = sc;
    }
    r.config("strings", 1, |_, _, _| {
        let mut st = world::Stats::default();
        st.comparisons += strings();
        Outcome { hash: 1, nontrivial: true, stats: st, sample: "String bounds".into() }
    });
    r.config("floats-and-limits", 1, |_, _, _| {
        let mut st = world::Stats::default();
        st.comparisons += floats();
        Outcome { hash: 2, nontrivial: true, stats: st, sample: "f64 and u8 bounds".into() }
    });
    r.finish();
}
