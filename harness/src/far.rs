//! Containers of more than 2^32 real elements: reserved address space of which
//! a few pages around interesting positions hold content.

use indexing::{scope, Container};
use std::sync::Mutex;
use vh::data::pos_of;
use vh::*;
use std::cmp::Ordering;
use std::collections::BTreeMap as Map;

const LEN: usize = (1 << 32) + 100;
const ANCHORS: [usize; 6] = [0, 1 << 16, (1 << 31) - 1, 1 << 31, 1 << 32, LEN];
const REACH: usize = 48;

/// A position: an anchor and an offset
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct At(u8, i8);
impl At {
    /// `0..=LEN`
    fn edge(self) -> usize {
        (ANCHORS[self.0 as usize % ANCHORS.len()] as i64 + self.1 as i64).clamp(0, LEN as i64) as usize
    }
    /// `0..LEN`
    fn idx(self) -> usize {
        self.edge().min(LEN - 1)
    }
    fn span(self, k: u8) -> (usize, usize) {
        let a = self.edge();
        (a, (a + k as usize).min(LEN))
    }
}
fn at() -> impl Strategy<Value = At> {
    (0u8..6, prop_oneof![2 => -3i8..4, 1 => -20i8..21]).prop_map(|(a, o)| At(a, o))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Read(At),
    Write(At),
    Sub(At, u8),
    SubMut(At, u8),
    Long(At, At),
    From(At),
    To(At),
    Twice(At, u8, At, u8),
    ZipRaw(At, u8, At, u8),
    Swap(At, At),
    Up(At, u8),
    Down(At, u8),
    SwapPtr(At, At),
    UpPtr(At, u8),
    Scan(At, u8),
    ScanRev(At, u8),
    ScanRange(At, At, u8),
    ScanPtr(At, At, u8),
    ScanPtrRev(At, At, u8),
    Search(u8, At, bool),
    SearchPart(u8, At, At, At),
    Ptr(At, At),
    Split(At),
    Push,
    Insert(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

/// Random histories of the operations a property is about.
pub fn far<const ID: u8>(n: u32) -> Box<dyn AnyGroup> {
    group(
        "vast_far",
        "the same in a container of more than 2^32 bytes; non-trivial: a position of 2^31 or more is used",
        n,
        strat::<ID>,
        if ID == 13 { grow as fn(&Case, &mut Stats) -> Res } else { test },
    )
}

fn strat<const ID: u8>() -> impl Strategy<Value = Case> {
    prop::collection::vec(op(ID), 1..12).prop_map(|ops| Case { ops })
}

fn op(id: u8) -> BoxedStrategy<Op> {
    let k = || 0u8..12;
    match id {
        10 => prop_oneof![
            at().prop_map(Op::Read),
            at().prop_map(Op::Write),
            (at(), k()).prop_map(|(a, k)| Op::Sub(a, k)),
            (at(), k()).prop_map(|(a, k)| Op::SubMut(a, k)),
            (at(), at()).prop_map(|(a, b)| Op::Long(a, b)),
            at().prop_map(Op::From),
            at().prop_map(Op::To),
        ]
        .boxed(),
        11 => prop_oneof![
            (at(), k(), at(), k()).prop_map(|(a, k, b, l)| Op::Twice(a, k, b, l)),
            (at(), k(), at(), k()).prop_map(|(a, k, b, l)| Op::ZipRaw(a, k, b, l)),
        ]
        .boxed(),
        12 => prop_oneof![
            (at(), at()).prop_map(|(a, b)| Op::Swap(a, b)),
            (at(), k()).prop_map(|(a, k)| Op::Up(a, k)),
            (at(), k()).prop_map(|(a, k)| Op::Down(a, k)),
            (at(), at()).prop_map(|(a, b)| Op::SwapPtr(a, b)),
            (at(), k()).prop_map(|(a, k)| Op::UpPtr(a, k)),
        ]
        .boxed(),
        13 => prop_oneof![Just(Op::Push), (0u8..200).prop_map(Op::Insert)].boxed(),
        15 => prop_oneof![
            (at(), k()).prop_map(|(a, k)| Op::Scan(a, k)),
            (at(), k()).prop_map(|(a, k)| Op::ScanRev(a, k)),
            (at(), at(), k()).prop_map(|(a, b, k)| Op::ScanRange(a, b, k)),
            (at(), at(), k()).prop_map(|(a, b, k)| Op::ScanPtr(a, b, k)),
            (at(), at(), k()).prop_map(|(a, b, k)| Op::ScanPtrRev(a, b, k)),
        ]
        .boxed(),
        20 => prop_oneof![
            (0u8..8, at(), any::<bool>()).prop_map(|(f, a, h)| Op::Search(f, a, h)),
            (0u8..4, at(), at(), at()).prop_map(|(f, a, b, c)| Op::SearchPart(f, a, b, c)),
        ]
        .boxed(),
        23 => (at(), at()).prop_map(|(a, b)| Op::Ptr(a, b)).boxed(),
        _ => at().prop_map(Op::Split).boxed(),
    }
}

struct Map4 {
    p: *mut u8,
}
impl Map4 {
    fn new() -> Option<Map4> {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        (p != libc::MAP_FAILED).then(|| Map4 { p: p as *mut u8 })
    }
    fn m(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, LEN) }
    }
}
impl Drop for Map4 {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p as *mut _, LEN);
        }
    }
}

// one at a time: the address space of a run is limited
static ONE: Mutex<()> = Mutex::new(());

fn windows() -> impl Iterator<Item = usize> {
    ANCHORS.into_iter().flat_map(|a| a.saturating_sub(REACH)..(a + REACH).min(LEN))
}

struct Model(Map<usize, u8>, u8);
impl Model {
    fn get(&self, n: usize) -> u8 {
        self.0.get(&n).copied().unwrap_or(0)
    }
    fn slice(&self, a: usize, b: usize) -> Vec<u8> {
        (a..b).map(|n| self.get(n)).collect()
    }
    fn put(&mut self, a: usize, v: &[u8]) {
        for (k, x) in v.iter().enumerate() {
            self.0.insert(a + k, *x);
        }
    }
    fn fresh(&mut self) -> u8 {
        self.1 = self.1 % 250 + 1;
        self.1
    }
}

fn test(case: &Case, st: &mut Stats) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let mut map = match Map4::new() {
        Some(m) => m,
        None => {
            st.label("no address space");
            return Ok(());
        }
    };
    let mut model = Model(Map::new(), 0);
    for n in windows() {
        let v = 1 + ((n * 31) ^ (n >> 16)) as u8 % 250;
        model.0.insert(n, v);
        map.m()[n] = v;
    }
    let base = map.p as *const u8;
    scope(map.m(), |mut c| -> Res {
        ensure_eq!(c.len(), LEN, "len()");
        for (k, op) in case.ops.iter().enumerate() {
            step(&mut c, base, &mut model, *op, st).map_err(|e| format!("step {} ({:?}): {}", k, op, e))?;
            #[cfg(feature = "ptr")]
            pstep(&mut c, base, &mut model, *op, st).map_err(|e| format!("step {} ({:?}): {}", k, op, e))?;
        }
        Ok(())
    })?;
    for (n, v) in &model.0 {
        ensure_eq!(map.m()[*n], *v, "element {} afterwards", n);
    }
    Ok(())
}

fn addr(base: *const u8, what: &str, got: &[u8], a: usize, b: usize) -> Res {
    ensure_eq!((got.as_ptr() as usize).wrapping_sub(base as usize), a, "start of {}", what);
    ensure_eq!(got.len(), b - a, "length of {}", what);
    Ok(())
}

fn two(a: At, b: At) -> (usize, usize) {
    let (x, y) = (a.edge(), b.edge());
    (x.min(y), x.max(y))
}

fn ab<P>(r: indexing::Range<P>) -> (usize, usize) {
    (r.start(), r.end())
}

fn step<'id>(c: &mut Container<'id, &mut [u8]>, base: *const u8, model: &mut Model, op: Op, st: &mut Stats) -> Res {
    macro_rules! i {
        ($n:expr) => {
            c.vet($n).map_err(|_| format!("vet({}) refused", $n))?
        };
    }
    macro_rules! r {
        ($a:expr, $b:expr) => {
            c.vet_range($a..$b).map_err(|_| format!("vet_range({}..{}) refused", $a, $b))?
        };
    }
    let hi = 1usize << 31;
    match op {
        Op::Read(a) => {
            let n = a.idx();
            st.nt(n >= hi);
            let i = i!(n);
            ensure_eq!(&c[i] as *const u8 as usize - base as usize, n, "address");
            ensure_eq!(c[i], model.get(n), "element {}", n);
        }
        Op::Write(a) => {
            let n = a.idx();
            st.nt(n >= hi);
            let v = model.fresh();
            let i = i!(n);
            c[i] = v;
            model.put(n, &[v]);
        }
        Op::Sub(a, k) => {
            let (x, y) = a.span(k);
            st.nt(x >= hi);
            let s = &c[r!(x, y)];
            addr(base, "[a..b]", s, x, y)?;
            ensure_eq!(s.to_vec(), model.slice(x, y), "elements");
        }
        Op::SubMut(a, k) => {
            let (x, y) = a.span(k);
            st.nt(x >= hi);
            let v: Vec<u8> = (x..y).map(|_| model.fresh()).collect();
            let r = r!(x, y);
            let s = &mut c[r];
            addr(base, "mut [a..b]", s, x, y)?;
            ensure_eq!(s.to_vec(), model.slice(x, y), "elements");
            s.copy_from_slice(&v);
            model.put(x, &v);
        }
        Op::Long(a, b) => {
            let (x, y) = two(a, b);
            st.nt(y >= hi);
            addr(base, "[a..b]", &c[r!(x, y)], x, y)?;
            let r = r!(x, y);
            addr(base, "mut [a..b]", &mut c[r], x, y)?;
        }
        Op::From(a) | Op::To(a) => {
            let n = a.edge();
            st.nt(n >= hi);
            let e = r!(n, LEN).first();
            addr(base, "[e..]", &c[e..], n, LEN)?;
            addr(base, "[..e]", &c[..e], 0, n)?;
            addr(base, "mut [e..]", &mut c[e..], n, LEN)?;
            addr(base, "mut [..e]", &mut c[..e], 0, n)?;
            if n < LEN {
                let i = i!(n);
                addr(base, "[i..]", &c[i..], n, LEN)?;
                addr(base, "[..i]", &c[..i], 0, n)?;
            }
            addr(base, "[..]", &c[..], 0, LEN)?;
        }
        Op::Twice(a, k, b, l) => {
            let ((x, y), (z, w)) = (a.span(k), b.span(l));
            st.nt(x.max(z) >= hi);
            let (r, s) = (r!(x, y), r!(z, w));
            match c.index_twice(r, s) {
                Ok((s, t)) => {
                    ensure!(y <= z, "index_twice({}..{}, {}..{}) accepted", x, y, z, w);
                    addr(base, "the first slice", s, x, y)?;
                    addr(base, "the second slice", t, z, w)?;
                }
                Err(_) => ensure!(y > z, "index_twice({}..{}, {}..{}) refused", x, y, z, w),
            }
        }
        Op::ZipRaw(a, k, b, l) => {
            let ((x, y), (z, w)) = (a.span(k), b.span(l));
            st.nt(x.max(z) >= hi);
            let (r, s) = (r!(x, y), r!(z, w));
            let mut got = vec![];
            c.zip_mut_raw(r, s, |p, q| got.push((p as usize - base as usize, q as usize - base as usize)));
            ensure_eq!(got, (x..y).zip(z..w).collect::<Vec<_>>(), "pairs of {}..{} and {}..{}", x, y, z, w);
        }
        Op::Swap(a, b) => {
            let (x, y) = (a.idx(), b.idx());
            st.nt(x.max(y) >= hi);
            let (i, j) = (i!(x), i!(y));
            c.swap(i, j);
            let (v, w) = (model.get(x), model.get(y));
            model.put(x, &[w]);
            model.put(y, &[v]);
        }
        Op::Up(a, k) | Op::Down(a, k) => {
            let (x, y) = a.span(k);
            st.nt(x >= hi);
            let mut v = model.slice(x, y);
            let r = r!(x, y);
            if let Op::Up(..) = op {
                c.rotate1_up(r);
                if x < y {
                    v.rotate_right(1)
                }
            } else {
                c.rotate1_down(r);
                if x < y {
                    v.rotate_left(1)
                }
            }
            model.put(x, &v);
        }
        Op::Scan(a, k) | Op::ScanRev(a, k) => {
            let n = a.idx();
            st.nt(n >= hi);
            let fwd = matches!(op, Op::Scan(..));
            let i = i!(n);
            let mut seen = vec![];
            let f = |x: &u8| {
                seen.push(pos_of(base, LEN, x));
                seen.len() <= k as usize
            };
            let got = if fwd { ab(c.scan_from(i, f)) } else { ab(c.scan_from_rev(i, f)) };
            let all = if fwd { LEN - 1 - n } else { n };
            let run = all.min(k as usize);
            let want: Vec<usize> = (1..=(run + 1).min(all)).map(|d| if fwd { n + d } else { n - d }).collect();
            ensure_eq!(seen.into_iter().collect::<Result<Vec<_>, _>>()?, want, "positions scanned");
            ensure_eq!(got, if fwd { (n, n + 1 + run) } else { (n - run, n + 1) }, "result of the scan");
        }
        Op::ScanRange(a, b, k) => {
            let (x, y) = two(a, b);
            st.nt(x >= hi);
            let r = r!(x, y);
            let mut seen = vec![];
            let (p, q) = c.scan_range(r, |e| {
                seen.push(pos_of(base, LEN, e));
                seen.len() <= k as usize
            });
            let run = (y - x).min(k as usize);
            ensure_eq!(seen.into_iter().collect::<Result<Vec<_>, _>>()?, (x..y).take(run + 1).collect::<Vec<_>>(), "positions scanned");
            ensure_eq!((ab(p), ab(q)), ((x, x + run), (x + run, y)), "result of the scan");
        }
        Op::Search(f, a, hit) if f < 2 => {
            use indexing::algorithms::*;
            let n = if hit { a.idx() } else { a.edge() };
            st.nt(n >= hi);
            let cmp = |x: &u8| {
                let p = (x as *const u8 as usize).wrapping_sub(base as usize);
                if p < n {
                    Ordering::Less
                } else if hit && p == n {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            };
            let mut calls = 0;
            let got = binary_search_by(&c[..], |x| {
                calls += 1;
                cmp(x)
            });
            ensure_eq!(got, if hit { Ok(n) } else { Err(n) }, "binary_search_by");
            ensure!(calls <= 40, "{} comparisons", calls);
        }
        _ => {}
    }
    Ok(())
}

#[cfg(feature = "ptr")]
fn pstep<'id>(c: &mut Container<'id, &mut [u8]>, base: *const u8, model: &mut Model, op: Op, st: &mut Stats) -> Res {
    use indexing::algorithms::*;
    use indexing::pointer::*;
    use indexing::Unknown;
    // a pointer by bisection
    fn ptr<'id>(c: &Container<'id, &mut [u8]>, base: *const u8, n: usize) -> Result<PIndex<'id, u8, Unknown>, String> {
        let p = lower_bound_prange_(c.pointer_range(), c, |x| (x as *const u8 as usize).wrapping_sub(base as usize) < n);
        ensure_eq!((p.ptr() as usize).wrapping_sub(base as usize), n, "lower_bound_prange_ for position {}", n);
        Ok(p)
    }
    fn range<'id>(c: &Container<'id, &mut [u8]>, base: *const u8, a: usize, b: usize) -> Result<PRange<'id, u8, Unknown>, String> {
        if a == b {
            let mut r: PRange<'id, u8, Unknown> = c.split_at_pointer(ptr(c, base, a)?).1;
            while r.len() > 0 {
                r = r.split_in_half().0;
            }
            return Ok(r);
        }
        let r = c.nonempty_range(ptr(c, base, a)?, ptr(c, base, b)?).map_err(|_| format!("nonempty_range of {} and {} refused", a, b))?;
        Ok(r.into_iter().into_range())
    }
    fn spot<P>(base: *const u8, p: PIndex<u8, P>) -> usize {
        (p.ptr() as usize).wrapping_sub(base as usize)
    }
    fn pab<P: Copy>(base: *const u8, r: PRange<u8, P>) -> (usize, usize) {
        (spot(base, r.first()), spot(base, r.past_the_end()))
    }
    let hi = 1usize << 31;
    match op {
        Op::Sub(a, k) => {
            let (x, y) = a.span(k);
            let r = range(c, base, x, y)?;
            addr(base, "[PRange]", &c[r], x, y)?;
            addr(base, "mut [PRange]", &mut c[r], x, y)?;
        }
        Op::From(a) | Op::To(a) => {
            let n = a.edge();
            let p = ptr(c, base, n)?;
            addr(base, "[p..]", &c[p..], n, LEN)?;
            addr(base, "[..p]", &c[..p], 0, n)?;
            addr(base, "mut [p..]", &mut c[p..], n, LEN)?;
            addr(base, "mut [..p]", &mut c[..p], 0, n)?;
        }
        Op::SwapPtr(a, b) => {
            let (x, y) = (a.idx(), b.idx());
            st.nt(x.max(y) >= hi);
            let one = |n: usize| -> Result<PIndex<'id, u8>, String> {
                Ok(c.nonempty_range(ptr(c, base, n)?, ptr(c, base, n + 1)?).map_err(|_| "nonempty_range refused".to_string())?.first())
            };
            let (p, q) = (one(x)?, one(y)?);
            c.swap_ptr(p, q);
            let (v, w) = (model.get(x), model.get(y));
            model.put(x, &[w]);
            model.put(y, &[v]);
        }
        Op::UpPtr(a, k) => {
            let (x, y) = a.span(k);
            st.nt(x >= hi);
            if x < y {
                let r = c.nonempty_range(ptr(c, base, x)?, ptr(c, base, y)?).map_err(|_| "nonempty_range refused".to_string())?;
                c.rotate1_prange(r);
                let mut v = model.slice(x, y);
                v.rotate_right(1);
                model.put(x, &v);
            }
        }
        Op::ScanPtr(a, b, k) | Op::ScanPtrRev(a, b, k) => {
            let (x, y) = two(a, b);
            st.nt(y >= hi);
            let r = range(c, base, x, y)?;
            let rev = matches!(op, Op::ScanPtrRev(..));
            let mut seen = vec![];
            let f = |e: &u8| {
                seen.push(pos_of(base, LEN, e));
                seen.len() <= k as usize
            };
            let (p, q) = if rev { c.scan_pointer_range_rev(r, f) } else { c.scan_pointer_range(r, f) };
            let run = (y - x).min(k as usize);
            let want: Vec<usize> = if rev { (x..y).rev().take(run + 1).collect() } else { (x..y).take(run + 1).collect() };
            ensure_eq!(seen.into_iter().collect::<Result<Vec<_>, _>>()?, want, "positions scanned");
            let m = if rev { y - run } else { x + run };
            ensure_eq!((pab(base, p), pab(base, q)), ((x, m), (m, y)), "result of the scan");
            if y < LEN {
                let i = ptr(c, base, y)?;
                let mut n = 0;
                let r = c.scan_tail_(i, |_| {
                    n += 1;
                    n <= k as usize
                });
                ensure_eq!(pab(base, r), (y - y.min(k as usize), y + 1), "scan_tail_ from {}", y);
            }
        }
        Op::Search(f, a, hit) if f >= 2 => {
            let n = if hit { a.idx() } else { a.edge() };
            st.nt(n >= hi);
            let mut calls = 0;
            let mut cmp = |x: &u8| {
                calls += 1;
                let p = (x as *const u8 as usize).wrapping_sub(base as usize);
                if p < n {
                    Ordering::Less
                } else if hit && p == n {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            };
            match f {
                2 => ensure_eq!(binary_search_by_prange(&c[..], cmp), if hit { Ok(n) } else { Err(n) }, "binary_search_by_prange"),
                3 => ensure_eq!(binary_search_by_pslice(&c[..], cmp), if hit { Ok(n) } else { Err(n) }, "binary_search_by_pslice"),
                _ => ensure_eq!(lower_bound_pslice(&c[..], |x| cmp(x) == Ordering::Less), n, "lower_bound_pslice"),
            }
            ensure!(calls <= 40, "{} comparisons", calls);
        }
        Op::SearchPart(f, a, b, t) => {
            let (x, y) = two(a, b);
            let n = t.edge().clamp(x, y);
            st.nt(n >= hi);
            let r = range(c, base, x, y)?;
            let s: PSlice<u8, Unknown> = r.into();
            let mut bad = Ok(());
            let mut less = |e: &u8| {
                let p = (e as *const u8 as usize).wrapping_sub(base as usize);
                if p < x || p >= y {
                    bad = Err(format!("looked at position {} while searching {}..{}", p, x, y));
                }
                p < n
            };
            let g = |l: bool| if l { Ordering::Less } else { Ordering::Greater };
            let got = match f {
                0 => lower_bound_prange_(r, &*c, less),
                1 => lower_bound_pslice_(s, &*c, less),
                2 => binary_search_by_prange_(r, &*c, |e| g(less(e))).err().ok_or("found what is not there")?,
                _ => binary_search_by_pslice_(s, &*c, |e| g(less(e))).err().ok_or("found what is not there")?,
            };
            bad?;
            ensure_eq!(spot(base, got), n, "position found in {}..{}", x, y);
        }
        Op::Ptr(a, b) => {
            let (x, y) = two(a, b);
            st.nt(y >= hi);
            let r = range(c, base, x, y)?;
            let s: PSlice<u8, Unknown> = r.into();
            let i = c.vet_range(x..y).map_err(|_| "vet_range refused".to_string())?;
            ensure_eq!((r.len(), s.len(), i.len()), (y - x, y - x, y - x), "lengths of {}..{}", x, y);
            ensure_eq!(pab(base, r), (x, y), "ends of the range");
            ensure_eq!((spot(base, s.first()), spot(base, s.past_the_end())), (x, y), "ends of the slice");
            let m = i.upper_middle().integer();
            ensure_eq!((spot(base, r.upper_middle()), spot(base, s.upper_middle())), (m, m), "middle of {}..{}", x, y);
            let (h, k) = r.split_in_half();
            ensure_eq!((pab(base, h), pab(base, k)), ((x, m), (m, y)), "halves");
            let (h, k) = s.split_in_half();
            ensure_eq!((pab(base, h.into()), pab(base, k.into())), ((x, m), (m, y)), "halves of the slice");
            ensure_eq!(c.distance_to(r.past_the_end()), y, "distance_to");
            ensure!(PRange::from(s) == r, "conversion to a slice and back");
            let (g, h) = c.split_at_pointer(r.past_the_end());
            ensure_eq!((pab(base, g), pab(base, h)), ((0, y), (y, LEN)), "split_at_pointer");
            ensure_eq!(pab(base, c.pointer_range_of(r.first()..)), (x, LEN), "pointer_range_of(p..)");
            ensure_eq!(pab(base, c.pointer_range_of(..r.first())), (0, x), "pointer_range_of(..p)");
            if let (Ok(mut r), Ok(mut s)) = (r.nonempty(), s.nonempty()) {
                ensure_eq!((spot(base, r.last()), spot(base, s.last())), (y - 1, y - 1), "last");
                ensure_eq!((pab(base, r.tail()), pab(base, s.tail().into())), ((x + 1, y), (x + 1, y)), "tail");
                ensure_eq!((pab(base, r.init()), pab(base, s.init().into())), ((x, y - 1), (x, y - 1)), "init");
                let more = y - x > 1;
                ensure_eq!((r.advance_back(), s.advance_back()), (more, more), "advance_back");
                let z = y - more as usize;
                ensure_eq!((pab(base, r), pab(base, s.into())), ((x, z), (x, z)), "after advance_back");
                let more = z - x > 1;
                ensure_eq!((r.advance(), s.advance()), (more, more), "advance");
                ensure_eq!((pab(base, r), pab(base, s.into())), ((x + more as usize, z), (x + more as usize, z)), "after advance");
            } else {
                ensure!(x == y, "no proof for {}..{}", x, y);
            }
            let mut it = r.into_iter();
            ensure_eq!(it.len(), y - x, "size of the iterator");
            ensure_eq!(it.next_back().map(|p| spot(base, p)), (x < y).then(|| y - 1), "next_back");
            ensure_eq!(it.next().map(|p| spot(base, p)), (x + 1 < y).then_some(x), "next");
        }
        Op::Split(a) => {
            let n = a.edge();
            st.nt(n >= hi);
            let p = ptr(c, base, n)?;
            let (v, w) = (model.fresh(), model.fresh());
            c.split_container_at_pointer(p, |mut l, lr, mut r, rr| -> Res {
                ensure_eq!((l.len(), r.len(), lr.len(), rr.len()), (n, LEN - n, n, LEN - n), "lengths of the halves");
                addr(base, "the left half", &l[..], 0, n)?;
                addr(base, "the right half", &r[..], n, LEN)?;
                if n > 0 {
                    let i = l.vet(n - 1).map_err(|_| "vet refused".to_string())?;
                    l[i] = v;
                }
                if n < LEN {
                    let i = r.vet(0).map_err(|_| "vet refused".to_string())?;
                    r[i] = w;
                }
                Ok(())
            })?;
            if n > 0 {
                model.put(n - 1, &[v]);
            }
            if n < LEN {
                model.put(n, &[w]);
            }
        }
        _ => {}
    }
    Ok(())
}

/// Growth of a vector beyond 2^32 elements (near its end only).
fn grow(case: &Case, st: &mut Stats) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    const N: usize = (1 << 32) - 3;
    // zeroed lazily by the system; never grows beyond its capacity
    let mut v: Vec<u8> = Vec::new();
    if v.try_reserve_exact(1).is_err() || std::env::var_os("VH_NO_FAR").is_some() {
        return Ok(());
    }
    v = vec![0u8; N + 64];
    v.truncate(N);
    let mut tail: Vec<u8> = vec![0; 200];
    let first = N - 200;
    scope(&mut v, |c| -> Res {
        let mut c = c.only_index();
        let mut n = N;
        for (k, op) in case.ops.iter().enumerate() {
            let x = k as u8 + 1;
            match *op {
                Op::Push => {
                    let i = c.push(x);
                    ensure_eq!(i.integer(), n, "index of the element pushed to {}", n);
                    ensure_eq!(c[i], x, "element pushed to {}", n);
                    tail.push(x);
                }
                Op::Insert(d) => {
                    let at = n - d as usize;
                    let e = c.vet_range(at..n).map_err(|_| "vet_range refused".to_string())?.first();
                    c.insert(e, x);
                    tail.insert(at - first, x);
                }
                _ => continue,
            }
            n += 1;
            st.nt(n > 1 << 32);
            ensure_eq!(c.len(), n, "length after step {}", k);
            let r = c.vet_range(first..n).map_err(|_| "vet_range refused".to_string())?;
            ensure_eq!(c[r].to_vec(), tail, "elements after step {}", k);
        }
        Ok(())
    })?;
    ensure_eq!(v[..100].to_vec(), vec![0; 100], "the first elements");
    Ok(())
}
