//! Law-abiding index types used by the workloads.
use crate::rng::Rng;
use sherman::{DirectionalAdd, DirectionalSub, Index};
use std::cell::Cell;
use std::fmt::Debug;

/// What the harness needs from an index type on top of the crate's `Index`
pub trait TIdx: Index + Debug + 'static {
    const NAME: &'static str;
    /// Random positive size
    fn gen_size(r: &mut Rng) -> Self;
    /// Random `u` with `0 < u < size`, if there is one the generator can find
    fn gen_inside(r: &mut Rng, size: Self) -> Option<Self>;
    /// Whether `total +> size` is representable
    fn fits(total: Self, size: Self) -> bool;
    /// A non-positive size (zero, or negative if the type has them)
    fn gen_nonpositive(r: &mut Rng) -> Self;
    /// An index strictly greater than `x`, if representable
    fn gen_above(r: &mut Rng, x: Self) -> Option<Self>;
    /// An index strictly less than zero, if the type has any
    fn gen_negative(_r: &mut Rng) -> Option<Self> {
        None
    }
    /// Injective encoding, for event logs and hashes
    fn enc(&self) -> [i64; 3];
    /// Small size for memory-conscious runs
    fn small(n: usize) -> Self;
}

macro_rules! prim {
    ($t:ident, $max:expr) => {
        impl TIdx for $t {
            const NAME: &'static str = stringify!($t);
            fn gen_size(r: &mut Rng) -> Self {
                if r.chance(1, 3) { 1 } else { r.range(1, $max) as $t }
            }
            fn gen_inside(r: &mut Rng, size: Self) -> Option<Self> {
                if size < 2 { return None; }
                let m = ((size - 1) as u128).min(1_000_000) as usize;
                Some(match r.below(4) { 0 => 1, 1 => size - 1, _ => r.range(1, m) as $t })
            }
            fn fits(total: Self, size: Self) -> bool { total.checked_add(size).is_some() }
            fn gen_nonpositive(_r: &mut Rng) -> Self { 0 }
            fn gen_above(r: &mut Rng, x: Self) -> Option<Self> {
                match r.below(3) {
                    0 => x.checked_add(1),
                    1 => x.checked_add(r.range(1, 50) as $t),
                    _ => if x < $t::MAX { Some($t::MAX) } else { None },
                }
            }
            fn enc(&self) -> [i64; 3] { [*self as i64, 0, 0] }
            fn small(n: usize) -> Self { n as $t }
        }
    };
}
prim!(u8, 5);
prim!(u16, 40);
prim!(u32, 100);
prim!(u64, 100);
prim!(usize, 100);
prim!(u128, 100);

// ---------------------------------------------------------------------------------------------

thread_local! {
    static ARITH: Cell<u64> = const { Cell::new(0) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn arith() -> u64 {
    ARITH.with(|a| a.get())
}
pub fn cmps() -> u64 {
    CMPS.with(|a| a.get())
}
pub fn ops() -> u64 {
    arith() + cmps()
}
/// Logical-step watchdog: after this many further index operations, panic (a diverging operation)
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(ops().saturating_add(n)));
}
pub fn clear_budget() {
    BUDGET.with(|b| b.set(u64::MAX));
}
fn over() {
    crate::faults::tick(crate::faults::Site::Index);
    if ops() > BUDGET.with(|b| b.get()) {
        clear_budget();
        panic!("MONITOR: operation diverges (index-operation budget exhausted)");
    }
}
fn count_arith() {
    ARITH.with(|a| a.set(a.get() + 1));
    over();
}
fn count_cmp() {
    CMPS.with(|a| a.set(a.get() + 1));
    over();
}

/// Signed integer index that counts every operation, and panics on overflow in any build.
/// Signed: has indexes below zero, so the "less than zero" checks are observable.
#[derive(Copy, Clone, Debug)]
pub struct Cnt(pub i64);

impl PartialEq for Cnt {
    fn eq(&self, o: &Self) -> bool {
        count_cmp();
        self.0 == o.0
    }
}
impl Eq for Cnt {}
impl PartialOrd for Cnt {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cnt {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        count_cmp();
        self.0.cmp(&o.0)
    }
}
impl DirectionalAdd for Cnt {
    fn add_right(self, r: Self) -> Self {
        count_arith();
        Cnt(self.0.checked_add(r.0).expect("index overflow"))
    }
}
impl DirectionalSub for Cnt {
    fn sub_left(self, l: Self) -> Self {
        count_arith();
        Cnt(self.0.checked_sub(l.0).expect("index overflow"))
    }
    fn sub_right(self, r: Self) -> Self {
        count_arith();
        Cnt(self.0.checked_sub(r.0).expect("index overflow"))
    }
}
impl Index for Cnt {
    const ZERO: Self = Cnt(0);
}
impl TIdx for Cnt {
    const NAME: &'static str = "counting-i64";
    fn gen_size(r: &mut Rng) -> Self {
        Cnt(if r.chance(1, 3) { 1 } else { r.range(1, 60) as i64 })
    }
    fn gen_inside(r: &mut Rng, size: Self) -> Option<Self> {
        if size.0 < 2 {
            return None;
        }
        Some(Cnt(match r.below(4) {
            0 => 1,
            1 => size.0 - 1,
            _ => r.range(1, (size.0 - 1).min(1 << 40) as usize) as i64,
        }))
    }
    fn fits(t: Self, s: Self) -> bool {
        t.0.checked_add(s.0).is_some()
    }
    fn gen_nonpositive(r: &mut Rng) -> Self {
        Cnt(if r.chance(1, 2) { 0 } else { -(r.range(1, 9) as i64) })
    }
    fn gen_above(r: &mut Rng, x: Self) -> Option<Self> {
        Some(Cnt(x.0 + r.range(1, 30) as i64))
    }
    fn gen_negative(r: &mut Rng) -> Option<Self> {
        Some(Cnt(-(r.range(1, 30) as i64)))
    }
    fn enc(&self) -> [i64; 3] {
        [self.0, 0, 0]
    }
    fn small(n: usize) -> Self {
        Cnt(n as i64)
    }
}

// ---------------------------------------------------------------------------------------------

/// The integer Heisenberg group with its bi-invariant lexicographic order: a non-commutative,
/// totally ordered group satisfying every documented directional law.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Heis(pub i64, pub i64, pub i64);

impl Heis {
    pub fn mul(self, o: Heis) -> Heis {
        Heis(self.0 + o.0, self.1 + o.1, self.2 + o.2 + self.0 * o.1)
    }
    pub fn inv(self) -> Heis {
        // (a,b,c)^-1 = (-a,-b,-c+ab)
        Heis(-self.0, -self.1, -self.2 + self.0 * self.1)
    }
}
impl DirectionalAdd for Heis {
    fn add_right(self, r: Self) -> Self {
        count_arith();
        self.mul(r)
    }
}
impl DirectionalSub for Heis {
    // self = left * result
    fn sub_left(self, left: Self) -> Self {
        count_arith();
        left.inv().mul(self)
    }
    // self = result * right
    fn sub_right(self, right: Self) -> Self {
        count_arith();
        self.mul(right.inv())
    }
}
impl Index for Heis {
    const ZERO: Self = Heis(0, 0, 0);
}
impl TIdx for Heis {
    const NAME: &'static str = "heisenberg";
    fn gen_size(r: &mut Rng) -> Self {
        let s = |r: &mut Rng, n: usize| r.below(2 * n + 1) as i64 - n as i64;
        match r.below(8) {
            0 => Heis(0, 0, r.range(1, 5) as i64),
            1 => Heis(0, r.range(1, 4) as i64, s(r, 5)),
            _ => Heis(r.range(1, 4) as i64, s(r, 4), s(r, 5)),
        }
    }
    fn gen_inside(r: &mut Rng, size: Self) -> Option<Self> {
        for _ in 0..8 {
            let s = |r: &mut Rng, n: usize| r.below(2 * n + 1) as i64 - n as i64;
            let u = match r.below(3) {
                0 => Heis(r.below(size.0.max(0) as usize + 1) as i64, s(r, 4), s(r, 6)),
                1 => Heis(size.0, size.1 - r.below(3) as i64, s(r, 6)),
                _ => Heis(0, r.below(3) as i64, r.below(5) as i64),
            };
            if Self::ZERO < u && u < size {
                return Some(u);
            }
        }
        None
    }
    fn fits(t: Self, s: Self) -> bool {
        let big = |x: i64| x.abs() > 1 << 28;
        !(big(t.0) || big(t.1) || big(s.0) || big(s.1) || t.2.abs() > 1 << 58)
    }
    fn gen_nonpositive(r: &mut Rng) -> Self {
        if r.chance(1, 2) { Self::ZERO } else { Self::gen_size(r).inv() }
    }
    fn gen_above(r: &mut Rng, x: Self) -> Option<Self> {
        Some(x.mul(Self::gen_size(r)))
    }
    fn gen_negative(r: &mut Rng) -> Option<Self> {
        Some(Self::gen_size(r).inv())
    }
    fn enc(&self) -> [i64; 3] {
        [self.0, self.1, self.2]
    }
    fn small(n: usize) -> Self {
        Heis(n as i64, (n % 3) as i64 - 1, 0)
    }
}
