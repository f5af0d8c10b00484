//! Comparisons under observation: counting, order modes, injected panics,
//! inconsistent answers, an adversary against quicksort, stack depth.

use crate::data::*;
use crate::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

/// How elements are ordered (by key), or how the order lies.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Plain,
    Reverse,
    /// by key / n: groups of equal elements
    Div(u8),
    /// by key % n: groups of equal elements, unrelated to the key order
    Mod(u8),
    /// McIlroy's adversary: the order is made up while sorting
    Killer,
    /// not an order: the answer is a hash of the call number
    Lie(u32),
    /// not an order: mostly right
    Sometimes(u32),
    /// not an order: always the same answer
    Const(i8),
}

impl Mode {
    pub fn honest(self) -> bool {
        !matches!(self, Mode::Lie(_) | Mode::Sometimes(_) | Mode::Const(_))
    }
    /// rank of a key under the (key-based) order
    pub fn rank(self, key: u32) -> u32 {
        match self {
            Mode::Reverse => u32::MAX - key,
            Mode::Div(n) => key / (n.max(1) as u32),
            Mode::Mod(n) => key % (n.max(1) as u32),
            _ => key,
        }
    }
}

struct Hook {
    mode: Cell<Mode>,
    calls: Cell<u64>,
    panic_at: Cell<u64>,
    limit: Cell<u64>,
    low: Cell<usize>,
    /// addresses which no argument may have
    forbidden: Cell<[(usize, usize); 2]>,
    bad: RefCell<Option<String>>,
    killer: RefCell<Killer>,
}

/// Work to do inside callbacks.
#[derive(Clone, Copy)]
pub struct Nest {
    /// the first callback to do some
    pub at: u64,
    /// and from then on
    pub period: u64,
    pub code: u32,
    pub work: fn(u32) -> Res,
}

struct Nesting {
    nest: Cell<Option<Nest>>,
    ticks: Cell<u64>,
    done: Cell<u64>,
    bad: RefCell<Res>,
}
thread_local! {
    static NESTING: Nesting = Nesting { nest: Cell::new(None), ticks: Cell::new(0), done: Cell::new(0), bad: RefCell::new(Ok(())) };
}
/// Do (or no longer do) work inside callbacks.
pub fn hook_nest(n: Option<Nest>) {
    NESTING.with(|h| {
        h.nest.set(n);
        h.ticks.set(0);
        h.done.set(0);
        *h.bad.borrow_mut() = Ok(());
    })
}
/// How much work was done, or what went wrong there
pub fn hook_nested() -> Result<u64, String> {
    NESTING.with(|h| h.bad.borrow().clone().map(|_| h.done.get()))
}
/// A callback was called.
pub fn hook_tick() {
    NESTING.with(|h| {
        if let Some(n) = h.nest.get() {
            let t = h.ticks.get();
            h.ticks.set(t + 1);
            if t >= n.at && (t - n.at) % n.period == 0 && h.done.get() < 60 {
                h.nest.set(None);
                h.done.set(h.done.get() + 1);
                let r = (n.work)(n.code.wrapping_add(t as u32));
                h.nest.set(Some(n));
                if r.is_err() {
                    *h.bad.borrow_mut() = r;
                }
            }
        }
    })
}

#[derive(Default)]
struct Killer {
    val: Vec<u32>,
    candidate: u32,
    solid: u32,
}
const GAS: u32 = u32::MAX;
impl Killer {
    fn cmp(&mut self, x: u32, y: u32) -> Ordering {
        let top = x.max(y) as usize;
        if top >= self.val.len() {
            self.val.resize(top + 1, GAS);
        }
        if x != y && self.val[x as usize] == GAS && self.val[y as usize] == GAS {
            let f = if x == self.candidate { x } else { y };
            self.val[f as usize] = self.solid;
            self.solid += 1;
        }
        if self.val[x as usize] == GAS {
            self.candidate = x
        } else if self.val[y as usize] == GAS {
            self.candidate = y
        }
        self.val[x as usize].cmp(&self.val[y as usize])
    }
}

thread_local! {
    static HOOK: Hook = Hook {
        mode: Cell::new(Mode::Plain), calls: Cell::new(0), panic_at: Cell::new(u64::MAX), limit: Cell::new(u64::MAX),
        low: Cell::new(usize::MAX), forbidden: Cell::new([(0, 0); 2]), bad: RefCell::new(None), killer: RefCell::new(Killer::default()),
    };
}

/// Set up the hook for one run: order, budget of calls, call that panics.
pub fn hook_start(mode: Mode, limit: u64, panic_at: Option<u64>) {
    HOOK.with(|h| {
        h.mode.set(mode);
        h.calls.set(0);
        h.limit.set(limit);
        h.panic_at.set(panic_at.unwrap_or(u64::MAX));
        h.low.set(usize::MAX);
        h.forbidden.set([(0, 0); 2]);
        *h.bad.borrow_mut() = None;
        *h.killer.borrow_mut() = Killer::default();
    })
}
/// Elements around a guarded slice: nothing there may be shown to callbacks.
pub fn hook_forbid<T: Elem>(b: &mut Buf<T>) {
    let z = std::mem::size_of::<T>();
    let r = b.m().as_ptr_range();
    let (s, e) = (r.start as usize, r.end as usize);
    let g = b.guards() * z;
    if z > 0 {
        HOOK.with(|h| h.forbidden.set([(s - g, s), (e, e + g)]))
    }
}
pub fn hook_calls() -> u64 {
    HOOK.with(|h| h.calls.get())
}
/// Lowest stack address seen in a comparison
pub fn hook_low() -> usize {
    HOOK.with(|h| h.low.get())
}
/// Did a comparison get arguments it should not have?
pub fn hook_ok() -> Res {
    HOOK.with(|h| match &*h.bad.borrow() {
        Some(m) => Err(m.clone()),
        None => Ok(()),
    })
}
/// Forget the budget and the panic, keep the order (for checking results).
pub fn hook_quiet() {
    HOOK.with(|h| {
        h.limit.set(u64::MAX);
        h.panic_at.set(u64::MAX);
    })
}
/// The final order of two elements given by (key, id), without counting.
pub fn hook_final(a: u64, b: u64) -> Ordering {
    HOOK.with(|h| match h.mode.get() {
        Mode::Killer => {
            let k = h.killer.borrow();
            let v = |s: u64| k.val.get(s as u32 as usize).copied().unwrap_or(GAS);
            v(a).cmp(&v(b))
        }
        m => m.rank(key_of(a)).cmp(&m.rank(key_of(b))),
    })
}

#[inline(never)]
pub fn hook_cmp<T: Elem>(a: &T, b: &T) -> Ordering {
    hook_tick();
    HOOK.with(|h| {
        let n = h.calls.get();
        h.calls.set(n + 1);
        let here = 0u8;
        let sp = &here as *const u8 as usize;
        if sp < h.low.get() {
            h.low.set(sp)
        }
        for x in [a, b] {
            let at = x as *const T as usize;
            if h.forbidden.get().iter().any(|r| at >= r.0 && at < r.1) {
                h.bad.borrow_mut().get_or_insert_with(|| format!("comparison {} was given memory next to the slice", n));
            }
        }
        if n == h.panic_at.get() {
            std::panic::panic_any(Injected);
        }
        if n >= h.limit.get() {
            std::panic::panic_any(Budget("comparisons"));
        }
        let m = h.mode.get();
        let (x, y) = (a.sig(), b.sig());
        match m {
            Mode::Killer => h.killer.borrow_mut().cmp(x as u32, y as u32),
            Mode::Lie(s) => (mix((s as u64) << 32 | n) % 3).cmp(&1),
            Mode::Sometimes(s) if mix((s as u64) << 32 | n) % 5 == 0 => (mix(n ^ 77) % 3).cmp(&1),
            Mode::Const(c) => c.cmp(&0),
            m => m.rank(key_of(x)).cmp(&m.rank(key_of(y))),
        }
    })
}
pub fn hook_less<T: Elem>(a: &T, b: &T) -> bool {
    hook_cmp(a, b) == Ordering::Less
}

/// Any element type, ordered through the hook.
#[derive(Debug)]
pub struct Hk<T>(pub T);
impl<T: Elem> Elem for Hk<T> {
    const TRACKED: bool = T::TRACKED;
    const KEYS: u32 = T::KEYS;
    const IDS: bool = T::IDS;
    fn make(k: u32, i: u32) -> Self {
        Hk(T::make(k, i))
    }
    fn sig(&self) -> u64 {
        self.0.sig()
    }
}
impl<T: Elem> PartialEq for Hk<T> {
    fn eq(&self, o: &Self) -> bool {
        hook_cmp(self, o) == Ordering::Equal
    }
}
impl<T: Elem> Eq for Hk<T> {}
impl<T: Elem> PartialOrd for Hk<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(hook_cmp(self, o))
    }
    fn lt(&self, o: &Self) -> bool {
        hook_cmp(self, o) == Ordering::Less
    }
    fn le(&self, o: &Self) -> bool {
        hook_cmp(self, o) != Ordering::Greater
    }
    fn gt(&self, o: &Self) -> bool {
        hook_cmp(self, o) == Ordering::Greater
    }
    fn ge(&self, o: &Self) -> bool {
        hook_cmp(self, o) != Ordering::Less
    }
}
impl<T: Elem> Ord for Hk<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        hook_cmp(self, o)
    }
}

/// Orders: mostly the plain one
pub fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![
        5 => Just(Mode::Plain),
        1 => Just(Mode::Reverse),
        1 => (2u8..9).prop_map(Mode::Div),
        1 => (1u8..9).prop_map(Mode::Mod),
    ]
}
/// Not orders
pub fn lies() -> impl Strategy<Value = Mode> {
    prop_oneof![
        2 => any::<u32>().prop_map(Mode::Lie),
        2 => any::<u32>().prop_map(Mode::Sometimes),
        1 => (-1i8..2).prop_map(Mode::Const),
    ]
}
