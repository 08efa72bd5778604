//! Thread-local value ledger: every stored value carries a `Token`, whose creation and destruction
//! are recorded here by the *value itself*, independently of the crate under test.
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
}

thread_local! {
    static STATE: RefCell<Vec<St>> = const { RefCell::new(Vec::new()) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static FAULT: RefCell<Option<String>> = const { RefCell::new(None) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
}

pub fn reset() {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        // room for a whole history, so that the allocation counters only see the trees
        s.reserve(if cfg!(miri) { 1 << 12 } else { 1 << 20 });
    });
    LIVE.with(|l| l.set(0));
    FAULT.with(|f| *f.borrow_mut() = None);
}
pub fn live() -> usize {
    LIVE.with(|l| l.get())
}
pub fn created() -> usize {
    STATE.with(|s| s.borrow().len())
}
/// Bytes the ledger itself has allocated
pub fn own_bytes() -> i64 {
    STATE.with(|s| (s.borrow().capacity() * std::mem::size_of::<St>()) as i64)
}
pub fn drops() -> u64 {
    DROPS.with(|d| d.get())
}
fn fault(msg: String) {
    FAULT.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(msg);
        }
    });
}
/// The first ledger fault seen so far, if any (double drop, use after drop, garbage value)
pub fn take_fault() -> Option<String> {
    FAULT.with(|f| f.borrow_mut().take())
}
pub fn is_live(serial: u32) -> bool {
    STATE.with(|s| s.borrow().get(serial as usize) == Some(&St::Live))
}

const CANARY: u64 = 0xA11C_E5ED_0DDB_A115;

/// Ownership witness. Heap-allocated so that sanitizers also see misuse.
pub struct Token {
    cell: Box<(u64, u32)>,
}

impl Token {
    pub fn new() -> Token {
        let serial = STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.push(St::Live);
            s.len() - 1
        }) as u32;
        LIVE.with(|l| l.set(l.get() + 1));
        Token { cell: Box::new((CANARY, serial)) }
    }
    pub fn serial(&self) -> u32 {
        self.cell.1
    }
    pub fn addr(&self) -> usize {
        &*self.cell as *const _ as usize
    }
    /// Checks that this token is a genuine live one
    pub fn check(&self) {
        let (c, s) = *self.cell;
        if c != CANARY {
            fault(format!("value with corrupt canary {c:#x} was accessed"));
        } else if !is_live(s) {
            fault(format!("value #{s} was accessed after it had been dropped"));
        }
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        let (c, serial) = *self.cell;
        if c != CANARY {
            fault(format!("destructor ran on a value with corrupt canary {c:#x}"));
            return;
        }
        DROPS.with(|d| d.set(d.get() + 1));
        let prev = STATE.with(|s| {
            let mut s = s.borrow_mut();
            match s.get_mut(serial as usize) {
                Some(x) => std::mem::replace(x, St::Dropped),
                None => St::Dropped,
            }
        });
        if prev != St::Live {
            fault(format!("value #{serial} was dropped twice"));
        } else {
            LIVE.with(|l| l.set(l.get() - 1));
        }
    }
}
