//! Element types, data patterns, guarded slices and numbers.

use crate::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt;

// ------------------------------------------------------------ drop ledger

thread_local! {
    static LEDGER: RefCell<HashMap<u64, bool>> = RefCell::new(HashMap::new());
    static LEDGER_BAD: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
}

/// Forget everything the ledger knows (start of a case).
pub fn ledger_reset() {
    LEDGER.with(|l| l.borrow_mut().clear());
    LEDGER_BAD.with(|c| c.set(0));
    ZLIVE.with(|c| c.set(0));
}

/// (live tracked elements, drops of elements that were not live)
pub fn ledger() -> (i64, u64) {
    let live = LEDGER.with(|l| l.borrow().values().filter(|a| **a).count() as i64);
    (live + ZLIVE.with(|c| c.get()), LEDGER_BAD.with(|c| c.get()))
}

/// Everything created has been dropped exactly once.
pub fn ledger_settled() -> Res {
    let (live, bad) = ledger();
    ensure!(bad == 0, "{} element drops of elements that were not alive (double drop)", bad);
    ensure!(live == 0, "{} elements were never dropped (leaked)", live);
    Ok(())
}

/// `n` elements are alive, none was dropped twice.
pub fn ledger_live(n: usize) -> Res {
    let (live, bad) = ledger();
    ensure!(bad == 0, "{} element drops of elements that were not alive (double drop)", bad);
    ensure!(live == n as i64, "{} elements are alive, expected {}", live, n);
    Ok(())
}

// ------------------------------------------------------------ elements

/// An element type: has a key (by which it is ordered) and, where the type
/// can hold it, an identity that no operation may alter.
pub trait Elem: Ord + Debug + 'static {
    /// Does `Drop` take part in the ledger?
    const TRACKED: bool = false;
    /// Largest key the type can tell apart
    const KEYS: u32;
    /// Can the type hold an identity?
    const IDS: bool;
    fn make(key: u32, id: u32) -> Self;
    /// Key and identity, as far as the type holds them.
    fn sig(&self) -> u64;
    fn key(&self) -> u32 {
        (self.sig() >> 32) as u32
    }
}

pub fn sig(key: u32, id: u32) -> u64 {
    (key as u64) << 32 | id as u64
}

impl Elem for u8 {
    const KEYS: u32 = 255;
    const IDS: bool = false;
    fn make(k: u32, _: u32) -> u8 {
        k as u8
    }
    fn sig(&self) -> u64 {
        sig(*self as u32, 0)
    }
}
impl Elem for u16 {
    const KEYS: u32 = 65535;
    const IDS: bool = false;
    fn make(k: u32, _: u32) -> u16 {
        k as u16
    }
    fn sig(&self) -> u64 {
        sig(*self as u32, 0)
    }
}
impl Elem for i32 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = false;
    fn make(k: u32, _: u32) -> i32 {
        (k ^ 0x8000_0000) as i32
    }
    fn sig(&self) -> u64 {
        sig(*self as u32 ^ 0x8000_0000, 0)
    }
}
impl Elem for u64 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = false;
    fn make(k: u32, _: u32) -> u64 {
        (k as u64) << 20
    }
    fn sig(&self) -> u64 {
        sig((*self >> 20) as u32, (*self & 0xfffff) as u32)
    }
}

macro_rules! by_key {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.key() == o.key()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.key().cmp(&o.key())
            }
        }
    };
}

macro_rules! short_debug {
    ($t:ident) => {
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}{:x}", stringify!($t), self.sig())
            }
        }
    };
}

/// Three bytes, alignment 1 (odd element size)
#[derive(Clone, Copy, Debug)]
pub struct B3([u8; 3]);
impl Elem for B3 {
    const KEYS: u32 = 255;
    const IDS: bool = true; // 16 bits
    fn make(k: u32, i: u32) -> B3 {
        B3([k as u8, i as u8, (i >> 8) as u8])
    }
    fn sig(&self) -> u64 {
        sig(self.0[0] as u32, self.0[1] as u32 | (self.0[2] as u32) << 8)
    }
}
by_key!(B3);

/// Key and identity, eight bytes
#[derive(Clone, Copy, Debug)]
pub struct Kv(pub u32, pub u32);
impl Elem for Kv {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> Kv {
        Kv(k, i)
    }
    fn sig(&self) -> u64 {
        sig(self.0, self.1)
    }
}
by_key!(Kv);

/// A large element with internal redundancy (a torn copy is seen)
#[derive(Clone, Copy)]
pub struct Big(u64, [u64; 8]);
impl Elem for Big {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> Big {
        let s = sig(k, i);
        Big(s, [!s; 8])
    }
    fn sig(&self) -> u64 {
        if self.1.iter().all(|x| *x == !self.0) {
            self.0
        } else {
            u64::MAX
        }
    }
}
by_key!(Big);
short_debug!(Big);

/// Twelve bytes: neither a power of two nor odd
#[derive(Clone, Copy)]
pub struct T12(u32, u32, u32);
impl Elem for T12 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> T12 {
        T12(k, !(k ^ i), i)
    }
    fn sig(&self) -> u64 {
        if self.1 == !(self.0 ^ self.2) {
            sig(self.0, self.2)
        } else {
            u64::MAX
        }
    }
}
by_key!(T12);
short_debug!(T12);

/// Alignment larger than that of a word
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct W32(u32, u32);
impl Elem for W32 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> W32 {
        W32(k, i)
    }
    fn sig(&self) -> u64 {
        sig(self.0, self.1)
    }
}
by_key!(W32);
short_debug!(W32);

/// A very large element with internal redundancy
#[derive(Clone, Copy)]
pub struct Huge([u32; 75]);
impl Elem for Huge {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> Huge {
        let mut a = [!(k ^ i.rotate_left(7)); 75];
        a[0] = k;
        a[74] = i;
        Huge(a)
    }
    fn sig(&self) -> u64 {
        let (k, i) = (self.0[0], self.0[74]);
        if self.0[1..74].iter().all(|x| *x == !(k ^ i.rotate_left(7))) {
            sig(k, i)
        } else {
            u64::MAX
        }
    }
}
by_key!(Huge);
short_debug!(Huge);

/// Fourteen bytes with alignment 2
#[derive(Clone, Copy)]
pub struct P14([u16; 7]);
impl Elem for P14 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> P14 {
        let c = !((k ^ k >> 16) as u16);
        P14([k as u16, (k >> 16) as u16, c, i as u16, (i >> 16) as u16, !c, 77])
    }
    fn sig(&self) -> u64 {
        let a = &self.0;
        let k = a[0] as u32 | (a[1] as u32) << 16;
        if a[2] == !((k ^ k >> 16) as u16) && a[5] == !a[2] && a[6] == 77 {
            sig(k, a[3] as u32 | (a[4] as u32) << 16)
        } else {
            u64::MAX
        }
    }
}
by_key!(P14);
short_debug!(P14);

/// Eleven bytes with alignment 1
#[derive(Clone, Copy)]
pub struct P11([u8; 11]);
impl Elem for P11 {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> P11 {
        let mut a = [0x5a; 11];
        a[..4].copy_from_slice(&k.to_le_bytes());
        a[7..].copy_from_slice(&i.to_le_bytes());
        P11(a)
    }
    fn sig(&self) -> u64 {
        let a = &self.0;
        if a[4..7] == [0x5a; 3] {
            sig(u32::from_le_bytes([a[0], a[1], a[2], a[3]]), u32::from_le_bytes([a[7], a[8], a[9], a[10]]))
        } else {
            u64::MAX
        }
    }
}
by_key!(P11);
short_debug!(P11);

#[derive(Clone, Debug)]
pub struct Str(String);
impl Elem for Str {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> Str {
        Str(format!("{:x}:{:x}", k, i))
    }
    fn sig(&self) -> u64 {
        let mut p = self.0.split(':').map(|s| u32::from_str_radix(s, 16).unwrap_or(u32::MAX));
        sig(p.next().unwrap_or(u32::MAX), p.next().unwrap_or(u32::MAX))
    }
}
by_key!(Str);

#[derive(Clone, Debug)]
pub struct Bx(Box<(u32, u32)>);
impl Elem for Bx {
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(k: u32, i: u32) -> Bx {
        Bx(Box::new((k, i)))
    }
    fn sig(&self) -> u64 {
        sig(self.0 .0, self.0 .1)
    }
}
by_key!(Bx);

/// Drop-tracked element: every creation and drop is in the ledger.
pub struct Trk {
    key: u32,
    id: u32,
    serial: u64,
}
impl fmt::Debug for Trk {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Trk({},{})", self.key, self.id)
    }
}
impl Elem for Trk {
    const TRACKED: bool = true;
    const KEYS: u32 = u32::MAX;
    const IDS: bool = true;
    fn make(key: u32, id: u32) -> Trk {
        let serial = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        LEDGER.with(|l| l.borrow_mut().insert(serial, true));
        Trk { key, id, serial }
    }
    fn sig(&self) -> u64 {
        sig(self.key, self.id)
    }
}
impl Drop for Trk {
    fn drop(&mut self) {
        let was = LEDGER.with(|l| l.borrow_mut().insert(self.serial, false));
        if was != Some(true) {
            LEDGER_BAD.with(|c| c.set(c.get() + 1));
        }
    }
}
by_key!(Trk);

/// Zero-sized with an alignment, all equal
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(16))]
pub struct Z;
impl Elem for Z {
    const KEYS: u32 = 0;
    const IDS: bool = false;
    fn make(_: u32, _: u32) -> Z {
        Z
    }
    fn sig(&self) -> u64 {
        0
    }
}

/// Zero-sized with counted drops
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct ZTrk(());
impl Elem for ZTrk {
    const TRACKED: bool = true;
    const KEYS: u32 = 0;
    const IDS: bool = false;
    fn make(_: u32, _: u32) -> ZTrk {
        ZLIVE.with(|c| c.set(c.get() + 1));
        ZTrk(())
    }
    fn sig(&self) -> u64 {
        0
    }
}
impl Drop for ZTrk {
    fn drop(&mut self) {
        ZLIVE.with(|c| c.set(c.get() - 1));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    U8,
    Kv,
    I32,
    U64,
    U16,
    B3,
    Big,
    T12,
    P14,
    P11,
    W32,
    Huge,
    Str,
    Bx,
    Trk,
    Z,
    ZTrk,
}

impl Ty {
    pub fn zst(self) -> bool {
        matches!(self, Ty::Z | Ty::ZTrk)
    }
}

/// Any element type, small ones first (shrinking goes there).
pub fn ty() -> impl Strategy<Value = Ty> {
    proptest::sample::select(vec![
        Ty::U8, Ty::Kv, Ty::I32, Ty::U64, Ty::U16, Ty::B3, Ty::Big, Ty::T12, Ty::P14, Ty::P11, Ty::W32, Ty::Huge, Ty::Str, Ty::Bx, Ty::Trk, Ty::Z, Ty::ZTrk,
    ])
}
/// Element types with non-zero size
pub fn ty_nz() -> impl Strategy<Value = Ty> {
    proptest::sample::select(vec![
        Ty::U8, Ty::Kv, Ty::I32, Ty::U64, Ty::U16, Ty::B3, Ty::Big, Ty::T12, Ty::P14, Ty::P11, Ty::W32, Ty::Huge, Ty::Str, Ty::Bx, Ty::Trk,
    ])
}
/// Element types that can hold an identity
pub fn ty_id() -> impl Strategy<Value = Ty> {
    proptest::sample::select(vec![Ty::Kv, Ty::B3, Ty::Big, Ty::T12, Ty::P14, Ty::P11, Ty::W32, Ty::Huge, Ty::Str, Ty::Bx, Ty::Trk])
}

/// Call a generic function for the element type named by a `Ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        use $crate::data as d_;
        match $ty {
            d_::Ty::U8 => $f::<u8>($($a),*),
            d_::Ty::Kv => $f::<d_::Kv>($($a),*),
            d_::Ty::I32 => $f::<i32>($($a),*),
            d_::Ty::U64 => $f::<u64>($($a),*),
            d_::Ty::U16 => $f::<u16>($($a),*),
            d_::Ty::B3 => $f::<d_::B3>($($a),*),
            d_::Ty::Big => $f::<d_::Big>($($a),*),
            d_::Ty::T12 => $f::<d_::T12>($($a),*),
            d_::Ty::P14 => $f::<d_::P14>($($a),*),
            d_::Ty::P11 => $f::<d_::P11>($($a),*),
            d_::Ty::W32 => $f::<d_::W32>($($a),*),
            d_::Ty::Huge => $f::<d_::Huge>($($a),*),
            d_::Ty::Str => $f::<d_::Str>($($a),*),
            d_::Ty::Bx => $f::<d_::Bx>($($a),*),
            d_::Ty::Trk => $f::<d_::Trk>($($a),*),
            d_::Ty::Z => $f::<d_::Z>($($a),*),
            d_::Ty::ZTrk => $f::<d_::ZTrk>($($a),*),
        }
    }};
}

/// The same for the types that differ most (less code to compile).
#[macro_export]
macro_rules! with_ty_few {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        use $crate::data as d_;
        match $ty {
            d_::Ty::U8 | d_::Ty::I32 => $f::<u8>($($a),*),
            d_::Ty::Kv | d_::Ty::U64 => $f::<d_::Kv>($($a),*),
            d_::Ty::B3 | d_::Ty::U16 => $f::<d_::B3>($($a),*),
            d_::Ty::Big | d_::Ty::Huge => $f::<d_::Big>($($a),*),
            d_::Ty::P11 | d_::Ty::P14 => $f::<d_::P14>($($a),*),
            d_::Ty::T12 => $f::<d_::T12>($($a),*),
            d_::Ty::W32 => $f::<d_::W32>($($a),*),
            d_::Ty::Trk | d_::Ty::Str | d_::Ty::Bx => $f::<d_::Trk>($($a),*),
            d_::Ty::Z | d_::Ty::ZTrk => $f::<d_::ZTrk>($($a),*),
        }
    }};
}

/// Elements with the given keys; identities 0, 1, 2, ...
pub fn elems<T: Elem>(keys: &[u32]) -> Vec<T> {
    elems_from(keys, 0)
}
pub fn elems_from<T: Elem>(keys: &[u32], id0: u32) -> Vec<T> {
    let v: Vec<T> = keys
        .iter()
        .enumerate()
        .map(|(i, k)| T::make(if T::KEYS == u32::MAX { *k } else { *k % (T::KEYS + 1) }, id0 + i as u32))
        .collect();
    // an exact allocation, so that a sanitizer sees the first byte past it
    v.into_boxed_slice().into_vec()
}
pub fn sigs<T: Elem>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.sig()).collect()
}
pub fn sorted_sigs(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}
pub fn key_of(sig: u64) -> u32 {
    (sig >> 32) as u32
}

// ------------------------------------------------------------ keys

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pat {
    Sorted,
    Reversed,
    Equal,
    OrganPipe,
    Valley,
    Saw,
    Random,
    SortedTail,
    OneOff,
    Evens,
}

/// Where the keys of a case come from.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Keys {
    List(Vec<u32>),
    Pat { pat: Pat, len: usize, modulus: u32, seed: u32 },
}

impl Keys {
    pub fn get(&self) -> Vec<u32> {
        match self {
            Keys::List(v) => v.clone(),
            Keys::Pat { pat, len, modulus, seed } => {
                let n = *len as u32;
                let m = (*modulus).max(1);
                (0..n)
                    .map(|i| match pat {
                        Pat::Sorted => i / m,
                        Pat::Reversed => (n - i) / m,
                        Pat::Equal => 7,
                        Pat::OrganPipe => i.min(n - i) / m,
                        Pat::Valley => i.max(n - i) / m,
                        Pat::Saw => i % m,
                        Pat::Random => (mix((*seed as u64) << 32 | i as u64) % m as u64) as u32,
                        Pat::SortedTail => {
                            if i + n / 8 + 1 < n {
                                i
                            } else {
                                (mix((*seed as u64) << 32 | i as u64) % (n as u64 + 1)) as u32
                            }
                        }
                        Pat::OneOff => {
                            if n > 0 && i == *seed % n {
                                m
                            } else {
                                i
                            }
                        }
                        Pat::Evens => {
                            if i % 2 == 0 {
                                i / m
                            } else {
                                n - i
                            }
                        }
                    })
                    .collect()
            }
        }
    }
}

/// Short explicit lists, few or many distinct keys.
pub fn keys_small(max: usize) -> impl Strategy<Value = Vec<u32>> {
    prop_oneof![
        3 => prop::collection::vec(0u32..4, 0..=max),
        2 => prop::collection::vec(0u32..2, 0..=max),
        2 => prop::collection::vec(0u32..200, 0..=max),
    ]
}

pub fn lens(max: usize) -> impl Strategy<Value = usize> {
    let near: Vec<usize> = [0usize, 1, 2, 3, 23, 24, 25, 26, 31, 32, 33, 47, 48, 49, 50, 51, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]
        .iter()
        .copied()
        .filter(|x| *x <= max)
        .collect();
    prop_oneof![
        3 => 0..=max.min(80),
        2 => proptest::sample::select(near),
        1 => 0..=max,
    ]
}

/// Lengths where thresholds, narrow counters and block-wise code would show.
pub fn big() -> impl Strategy<Value = usize> {
    prop_oneof![
        4 => 300usize..3000,
        3 => proptest::sample::select(vec![1000usize, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384]),
        1 => proptest::sample::select(vec![20000usize, 32767, 32768, 32769, 65535, 65536, 65537, 70000]),
    ]
}

/// Lengths past what sixteen bits count.
pub fn vast() -> impl Strategy<Value = usize> {
    prop_oneof![
        2 => proptest::sample::select(vec![65535usize, 65536, 65537, 65538, 70000, 100000, 131071, 131072, 131073, 140000]),
        1 => 65536usize..150000,
    ]
}

/// Patterns at big lengths.
pub fn big_keys(max: usize) -> impl Strategy<Value = Keys> {
    let pats = vec![
        Pat::Sorted, Pat::Reversed, Pat::Equal, Pat::OrganPipe, Pat::Valley, Pat::Saw, Pat::Random, Pat::Random, Pat::SortedTail, Pat::OneOff, Pat::Evens,
    ];
    (proptest::sample::select(pats), big(), prop_oneof![1u32..6, 1u32..100, Just(100000u32)], any::<u32>())
        .prop_map(move |(pat, len, modulus, seed)| Keys::Pat { pat, len: len.min(max), modulus, seed })
}

/// All patterns at all sizes, plus explicit small lists.
pub fn keys(max: usize) -> impl Strategy<Value = Keys> {
    let pats = vec![
        Pat::Sorted, Pat::Reversed, Pat::Equal, Pat::OrganPipe, Pat::Valley, Pat::Saw, Pat::Random, Pat::Random, Pat::SortedTail,
        Pat::OneOff, Pat::Evens,
    ];
    prop_oneof![
        3 => keys_small(14).prop_map(Keys::List),
        2 => keys_small(max.min(60)).prop_map(Keys::List),
        3 => (proptest::sample::select(pats), lens(max), prop_oneof![1u32..6, 1u32..100, Just(100000u32)], any::<u32>())
            .prop_map(|(pat, len, modulus, seed)| Keys::Pat { pat, len, modulus, seed }),
    ]
}

// ------------------------------------------------------------ guarded slices

/// A slice with guard elements around it.
pub struct Buf<T> {
    all: Vec<T>,
    pre: usize,
    post: usize,
    guard: Vec<u64>,
}

impl<T: Elem> Buf<T> {
    /// `guards` elements on either side (0: the slice is an exact allocation)
    pub fn new(keys: &[u32], guards: usize) -> Buf<T> {
        Buf::new_from(keys, guards, 0)
    }
    pub fn new_from(keys: &[u32], guards: usize, id0: u32) -> Buf<T> {
        let mut all = Vec::with_capacity(keys.len() + 2 * guards);
        for i in 0..guards {
            // the extremes of the key space: they would win any comparison
            all.push(T::make(0, 60000 + i as u32));
        }
        all.extend(elems_from::<T>(keys, id0));
        for i in 0..guards {
            all.push(T::make(if i % 2 == 0 { T::KEYS.min(1 << 30) } else { 0 }, 61000 + i as u32));
        }
        let all = all.into_boxed_slice().into_vec();
        let guard = all[..guards].iter().chain(&all[all.len() - guards..]).map(|x| x.sig()).collect();
        Buf { all, pre: guards, post: guards, guard }
    }
    pub fn s(&self) -> &[T] {
        &self.all[self.pre..self.all.len() - self.post]
    }
    pub fn m(&mut self) -> &mut [T] {
        let n = self.all.len();
        &mut self.all[self.pre..n - self.post]
    }
    pub fn guards_ok(&self) -> Res {
        let n = self.all.len();
        let g: Vec<u64> = self.all[..self.pre].iter().chain(&self.all[n - self.post..]).map(|x| x.sig()).collect();
        ensure!(g == self.guard, "memory next to the slice changed");
        Ok(())
    }
    pub fn total(&self) -> usize {
        self.all.len()
    }
    pub fn guards(&self) -> usize {
        self.pre
    }
}

/// The position of `x` in the slice starting at `base`, by address.
pub fn pos_of<T>(base: *const T, len: usize, x: *const T) -> Result<usize, String> {
    let sz = std::mem::size_of::<T>();
    if sz == 0 {
        return Ok(0);
    }
    let d = (x as usize).wrapping_sub(base as usize);
    if d % sz != 0 || d / sz >= len {
        return Err(format!(
            "accessed an address outside the slice (byte offset {} in {} elements of {} bytes)",
            d as isize, len, sz
        ));
    }
    Ok(d / sz)
}

/// A slice of zero-sized elements of any length.
pub fn zst_slice(len: usize) -> &'static [()] {
    // sound: zero-sized elements need no memory, total size is 0
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len) }
}

// ------------------------------------------------------------ numbers

/// A number that is interesting relative to a length.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Num {
    Small(u8),
    Len(i8),
    Half(i8),
    IMax(i8),
    UMax(u8),
    UMaxLen(i8),
    Pow(u8, i8),
    Any(u64),
}

impl Num {
    /// The number for the length `len`
    pub fn at(self, len: usize) -> usize {
        let d = |x: usize, y: i8| x.wrapping_add(y as isize as usize);
        match self {
            Num::Small(x) => x as usize,
            Num::Len(y) => d(len, y),
            Num::Half(y) => d(len / 2, y),
            Num::IMax(y) => d(isize::MAX as usize, y),
            Num::UMax(y) => usize::MAX - y as usize,
            Num::UMaxLen(y) => d(usize::MAX - len, y),
            Num::Pow(e, y) => d(1usize << (e % 64), y),
            Num::Any(x) => x as usize,
        }
    }
}

/// Any number, concentrated where the boundaries are.
pub fn num() -> impl Strategy<Value = Num> {
    prop_oneof![
        6 => (0u8..32).prop_map(Num::Small),
        4 => (-3i8..4).prop_map(Num::Len),
        1 => (-2i8..3).prop_map(Num::Half),
        1 => (-2i8..3).prop_map(Num::IMax),
        2 => (0u8..40).prop_map(Num::UMax),
        2 => (-3i8..4).prop_map(Num::UMaxLen),
        1 => ((0u8..64), -1i8..2).prop_map(|(e, y)| Num::Pow(e, y)),
        1 => any::<u64>().prop_map(Num::Any),
    ]
}
/// Mostly numbers that are in bounds of something short.
pub fn num_in() -> impl Strategy<Value = Num> {
    prop_oneof![
        8 => (0u8..16).prop_map(Num::Small),
        3 => (-3i8..1).prop_map(Num::Len),
        1 => (-1i8..2).prop_map(Num::Half),
        1 => num(),
    ]
}

/// Numbers in bounds of something long, often next to powers of two.
pub fn num_long() -> impl Strategy<Value = Num> {
    prop_oneof![
        3 => num_in(),
        3 => (0u8..14, -1i8..2).prop_map(|(e, y)| Num::Pow(e, y)),
        1 => (0u64..80).prop_map(|x| Num::Any(x * 64)),
        2 => (0u64..5000).prop_map(Num::Any),
    ]
}

/// A length: small, moderate, or anything up to the maximum (zero-sized data).
pub fn len_any() -> impl Strategy<Value = u64> {
    prop_oneof![
        6 => 0u64..20,
        2 => 0u64..2000,
        2 => (0u64..40).prop_map(|d| u64::MAX - d),
        2 => (0u64..5).prop_map(|d| (i64::MAX as u64 + 2) - d),
        1 => (0u32..64, 0u64..3).prop_map(|(e, d)| (1u64 << e).wrapping_add(d)),
        1 => any::<u64>(),
    ]
}

/// Choose from `0..n` (n > 0) by a fraction, so that shrinking goes to 0.
pub fn pick(f: u16, n: usize) -> usize {
    ((f as u128 * n as u128) >> 16) as usize
}

/// A valid range of a container of length `len`, from two fractions.
pub fn pick_range(a: u16, b: u16, len: usize) -> (usize, usize) {
    let n = (len as u128) + 1;
    let x = ((a as u128 * n) >> 16) as usize;
    let y = ((b as u128 * n) >> 16) as usize;
    (x.min(y), x.max(y))
}

// ------------------------------------------------------------ budgets

/// Counts callback calls and panics past a limit (deterministic termination).
pub struct Calls {
    pub n: Cell<u64>,
    pub limit: u64,
    pub what: &'static str,
}
impl Calls {
    pub fn new(limit: u64, what: &'static str) -> Calls {
        Calls { n: Cell::new(0), limit, what }
    }
    pub fn tick(&self) {
        self.n.set(self.n.get() + 1);
        if self.n.get() > self.limit {
            std::panic::panic_any(Budget(self.what));
        }
    }
}

pub fn log2_ceil(n: usize) -> u64 {
    if n <= 1 {
        0
    } else {
        64 - (n as u64 - 1).leading_zeros() as u64
    }
}

/// A position `0..=len`
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pos {
    Lo(u8),
    Hi(u8),
    Fr(u16),
    /// Next to a power of two; in a range, from the other position (for even numbers)
    Pw(u8, i8),
    /// A multiple of a power of two; in a range, from the other position
    Mul(u8, u8),
}
impl Pos {
    pub fn at(self, len: usize) -> usize {
        match self {
            Pos::Lo(x) => (x as usize).min(len),
            Pos::Hi(x) => len - (x as usize).min(len),
            Pos::Fr(f) => ((f as u128 * (len as u128 + 1)) >> 16) as usize,
            Pos::Pw(..) | Pos::Mul(..) => self.beyond(0, len),
        }
    }
    /// A position after `x`; or among all, if that would be beyond `len`.
    fn beyond(self, x: usize, len: usize) -> usize {
        let d = match self {
            Pos::Pw(k, o) => (1usize << (k / 2 % 63)).wrapping_add(o as isize as usize),
            Pos::Mul(k, m) => (m as usize) << (k % 48),
            _ => return self.at(len),
        };
        match x.checked_add(d) {
            Some(y) if y <= len => y,
            _ if len < usize::MAX => d % (len + 1),
            _ => d,
        }
    }
    /// An index `0..len` (len > 0)
    pub fn idx(self, len: usize) -> usize {
        self.at(len - 1)
    }
}
pub fn pos() -> impl Strategy<Value = Pos> {
    prop_oneof![
        4 => (0u8..12).prop_map(Pos::Lo),
        3 => (0u8..6).prop_map(Pos::Hi),
        2 => any::<u16>().prop_map(Pos::Fr),
        1 => (0u8..28, -1i8..2).prop_map(|(k, o)| Pos::Pw(k, o)),
        1 => (3u8..9, 0u8..40).prop_map(|(k, m)| Pos::Mul(k, m)),
    ]
}
/// A valid range of something of length `len`
pub fn span(a: Pos, b: Pos, len: usize) -> (usize, usize) {
    let x = a.at(len);
    let y = match b {
        Pos::Pw(k, _) if k % 2 == 0 => b.beyond(x, len),
        Pos::Mul(..) => b.beyond(x, len),
        _ => b.at(len),
    };
    (x.min(y), x.max(y))
}
