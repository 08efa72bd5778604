//! Fault injection: the k-th callback of a chosen kind panics.
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Site {
    SplitBefore,
    SplitAfter,
    JoinBefore,
    JoinAfter,
    Clone,
    Drop,
    Index,
    Cursor,
}
pub const SITES: [Site; 8] = [
    Site::SplitBefore,
    Site::SplitAfter,
    Site::JoinBefore,
    Site::JoinAfter,
    Site::Clone,
    Site::Drop,
    Site::Index,
    Site::Cursor,
];

thread_local! {
    static ARMED: Cell<Option<(Site, u64)>> = const { Cell::new(None) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<[u64; 8]> = const { Cell::new([0; 8]) };
}

pub struct Injected(pub Site);

pub fn arm(site: Site, k: u64) {
    ARMED.with(|a| a.set(Some((site, k))));
    FIRED.with(|f| f.set(false));
}
/// Disarms; returns whether the fault fired since it was armed
pub fn disarm() -> bool {
    ARMED.with(|a| a.set(None));
    FIRED.with(|f| f.replace(false))
}
pub fn seen() -> [u64; 8] {
    SEEN.with(|s| s.get())
}
pub fn reset_seen() {
    SEEN.with(|s| s.set([0; 8]))
}
#[inline]
pub fn tick(site: Site) {
    SEEN.with(|s| {
        let mut v = s.get();
        v[site as usize] += 1;
        s.set(v);
    });
    ARMED.with(|a| {
        if let Some((s, k)) = a.get() {
            if s == site {
                if k == 0 {
                    if site == Site::Drop && std::thread::panicking() {
                        return;
                    }
                    a.set(None);
                    FIRED.with(|f| f.set(true));
                    std::panic::panic_any(Injected(site));
                }
                a.set(Some((s, k - 1)));
            }
        }
    });
}
