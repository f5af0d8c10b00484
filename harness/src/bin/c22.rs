//! C22: callbacks that panic or answer inconsistently.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
use indexing::algorithms::*;
use indexing::scope;
use std::cell::Cell;
use vh::data::*;
use vh::hook::*;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Alg {
    QRange,
    QPrange,
    QBounds,
    Indexes,
    Ranges,
    PrangeLower,
    PointerIndex,
    Raw,
    Two,
    Heapify,
    MergeIndices,
    MergeRanges,
    Bs,
    BsBy,
    BsPrange,
    BsPslice,
    Lb,
    LbRaw,
    LbPrange,
    LbPslice,
}
use Alg::*;
const ALGS: [Alg; 20] = [
    QRange, QPrange, QBounds, Indexes, Ranges, PrangeLower, PointerIndex, Raw, Two, Heapify, MergeIndices, MergeRanges, Bs, BsBy, BsPrange, BsPslice,
    Lb, LbRaw, LbPrange, LbPslice,
];
impl Alg {
    fn ptr_search(self) -> bool {
        matches!(self, BsPrange | BsPslice | LbPrange | LbPslice)
    }
    fn search(self) -> bool {
        self.ptr_search() || matches!(self, Bs | BsBy | Lb | LbRaw)
    }
    fn merge(self) -> bool {
        matches!(self, MergeIndices | MergeRanges)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum At {
    Never,
    Call(u16),
    /// fraction of the comparisons that the run makes
    Part(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    alg: Alg,
    ty: Ty,
    keys: Keys,
    /// second slice or buffer
    len2: u16,
    split: u16,
    /// sections sorted before a merge
    sorted: bool,
    mode: Mode,
    /// panic in this comparison
    at: At,
    guards: u8,
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    match case.at {
        At::Never => run::<T>(case, None, st),
        At::Call(k) => run::<T>(case, Some(k as u64), st),
        At::Part(f) => {
            run::<T>(case, None, &mut Stats::default())?;
            let n = hook_calls().min(1 << 30) as usize;
            run::<T>(case, Some(pick(f, n.max(1)) as u64), st)
        }
    }
}

fn run<T: Elem>(case: &Case, at: Option<u64>, st: &mut Stats) -> Res {
    ledger_reset();
    let mut keys = case.keys.get();
    let n = keys.len();
    if n == 0 && case.alg.merge() {
        return Ok(());
    }
    let split = pick(case.split, n + 1);
    let len2 = match case.alg {
        Two => n,
        MergeIndices | MergeRanges => case.len2 as usize % (2 * n + 1),
        _ => 0,
    };
    if case.alg.merge() && case.sorted {
        keys[..split].sort();
        keys[split..].sort();
    }
    if case.alg.search() && case.sorted {
        keys.sort();
    }
    {
        let mut a: Buf<Hk<T>> = Buf::new(&keys, case.guards as usize);
        let k2: Vec<u32> = (0..len2 as u32).map(|i| i * 5 % 251).collect();
        let mut b: Buf<Hk<T>> = Buf::new_from(&k2, case.guards as usize, 30000);
        let elt = Hk(T::make(case.split as u32 % 16, 50000));
        let (a0, b0) = (sigs(a.s()), sigs(b.s()));
        let live = a.total() + b.total() + 1;
        hook_start(case.mode, 4 * (n * n) as u64 + 1000, at);
        hook_forbid(&mut a);
        let mut pos = None;
        let r = catch(|| {
            let (v, u) = (a.m(), b.m());
            let f = |x: &Hk<T>| hook_cmp(x, &elt);
            let mut any = |r: Result<usize, usize>| pos = Some(r);
            match case.alg {
                QRange => quicksort_range(v),
                #[cfg(feature = "ptr")]
                QPrange => quicksort_prange(v),
                QBounds => quicksort_bounds(v),
                Indexes => insertion_sort_indexes(v, hook_less),
                Ranges => insertion_sort_ranges(v, hook_less),
                #[cfg(feature = "ptr")]
                PrangeLower => insertion_sort_prange_lower(v, hook_less),
                #[cfg(feature = "ptr")]
                PointerIndex => insertion_sort_pointerindex(v, hook_less),
                Raw => insertion_sort_rust(v, hook_less),
                Two => insertion_sort2_indexes(v, u, hook_less),
                Heapify => heapify(v),
                MergeIndices => drop(merge_internal_indices(v, split, u)),
                MergeRanges => drop(merge_internal_ranges(v, split, u)),
                Bs => any(binary_search(v, &elt)),
                BsBy => any(binary_search_by(v, f)),
                Lb => any(Err(lower_bound(v, &elt))),
                LbRaw => any(Err(lower_bound_raw_ptr(v, &elt))),
                #[cfg(feature = "ptr")]
                BsPrange => any(binary_search_by_prange(v, f)),
                #[cfg(feature = "ptr")]
                BsPslice => any(binary_search_by_pslice(v, f)),
                #[cfg(feature = "ptr")]
                LbPrange => any(Err(lower_bound_prange(v, &elt))),
                #[cfg(feature = "ptr")]
                LbPslice => any(Err(lower_bound_pslice(v, |x| f(x) == std::cmp::Ordering::Less))),
                #[cfg(not(feature = "ptr"))]
                _ => {}
            }
        });
        let calls = hook_calls();
        hook_quiet();
        hook_ok()?;
        let how = match &r {
            Ok(()) => "returning",
            Err(p) if p.is::<Injected>() => "an injected panic",
            // inconsistent answers may keep a sort going: stopped by the budget
            Err(p) if p.is::<Budget>() && !case.mode.honest() => "the budget panic",
            Err(_) => return Err(format!("{:?} panicked by itself", case.alg)),
        };
        let (a1, b1) = (sigs(a.s()), sigs(b.s()));
        if case.alg.merge() {
            let all = |x: &[u64], y: &[u64]| sorted_sigs([x, y].concat());
            ensure_eq!(all(&a1, &b1), all(&a0, &b0), "elements of data and buffer after {} ({:?})", how, case.alg);
        } else if case.alg.search() {
            ensure_eq!(a1, a0, "data after {} ({:?})", how, case.alg);
            if let Some(r) = pos {
                ensure!(r.map_or_else(|e| e <= n, |i| i < n), "{:?} returned {:?} for {} elements", case.alg, r, n);
            }
        } else {
            ensure_eq!(sorted_sigs(a1.clone()), sorted_sigs(a0.clone()), "elements after {} ({:?})", how, case.alg);
            ensure_eq!(sorted_sigs(b1), sorted_sigs(b0), "elements of the second slice after {} ({:?})", how, case.alg);
        }
        a.guards_ok()?;
        b.guards_ok()?;
        if T::TRACKED {
            ledger_live(live)?;
        }
        st.label(how);
        st.nt(r.is_err() && (calls > 1 || n > 1) || !case.mode.honest() && calls > 1);
        st.label_if(a1 != a0, "elements had moved");
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(if case.ty.zst() && case.alg.ptr_search() { Ty::Kv } else { case.ty }, go, case, st)
}

fn strat() -> impl Strategy<Value = Case> {
    from_keys(prop_oneof![4 => keys(40), 2 => keys(120)])
}
fn large() -> impl Strategy<Value = Case> {
    from_keys(big_keys(1100))
}
fn from_keys(k: impl Strategy<Value = Keys>) -> impl Strategy<Value = Case> {
    let fail = prop_oneof![
        5 => (mode(), any::<u16>().prop_map(At::Part)),
        3 => (lies(), Just(At::Never)),
        2 => (lies(), any::<u16>().prop_map(At::Part)),
    ];
    ((proptest::sample::select(ALGS.to_vec()), ty(), k), (any::<u16>(), any::<u16>(), any::<bool>(), fail, 0u8..3)).prop_map(
        |((alg, ty, keys), (len2, split, sorted, (mode, at), guards))| Case { alg, ty, keys, len2, split, sorted, mode, at, guards },
    )
}

/// A panic in every single comparison of small runs
fn everywhere(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let seeds = if thorough { 40u32 } else { 6 };
    Box::new(ALGS.into_iter().flat_map(move |alg| {
        let lens: &[u32] = if alg == QRange || alg == QPrange || alg == QBounds { &[2, 5, 25, 27, 33] } else { &[1, 2, 3, 5, 8] };
        lens.iter().flat_map(move |n| {
            (0..seeds).flat_map(move |s| {
                let keys: Vec<u32> = (0..*n).map(|i| (mix((s as u64) << 20 | i as u64) % 9) as u32).collect();
                let calls = if *n > 9 { 200 } else { 36 };
                (0..calls).map(move |k| Case {
                    alg,
                    ty: [Ty::Trk, Ty::Kv, Ty::Str][s as usize % 3],
                    keys: Keys::List(keys.clone()),
                    len2: *n as u16 - (s % 2) as u16,
                    split: (s * 9000) as u16,
                    sorted: s % 4 > 0,
                    mode: Mode::Plain,
                    at: At::Call(k),
                    guards: 1,
                })
            })
        })
    }))
}

// ------------------------------------------------------------ closures

/// What happens inside a scope; any closure may panic at any of its calls.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Swap(Pos, Pos),
    Up(Pos, Pos),
    Down(Pos, Pos),
    ScanFrom(Pos),
    ScanFromRev(Pos),
    ScanRange(Pos, Pos),
    ScanTail(Pos),
    ScanPrange(Pos, Pos),
    ScanPrangeRev(Pos, Pos),
    Zip,
    ZipMutRaw(Pos, Pos, Pos, Pos),
    SplitAt(Pos),
    Push(u8),
    Insert(Pos, u8),
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inside {
    ty: Ty,
    n: u32,
    guards: u8,
    /// slice, owned vector in index-only mode, owned vector
    kind: u8,
    ops: Vec<Op>,
    at: u32,
    answers: u32,
}

struct Caller {
    n: Cell<u64>,
    at: u64,
    answers: u32,
}
impl Caller {
    fn call(&self) -> bool {
        let n = self.n.get();
        self.n.set(n + 1);
        if n == self.at {
            std::panic::panic_any(Injected);
        }
        self.answers >> (n % 32) & 1 == 1
    }
}

macro_rules! common_ops {
    ($c:ident, $op:expr, $call:ident, $len:ident) => {
        match $op {
            Op::Swap(i, j) if $len > 0 => {
                let (i, j) = ($c.vet(i.idx($len)).unwrap(), $c.vet(j.idx($len)).unwrap());
                $c.swap(i, j)
            }
            Op::Up(i, j) | Op::Down(i, j) => {
                let (x, y) = span(i, j, $len);
                let r = $c.vet_range(x..y).unwrap();
                if matches!($op, Op::Up(..)) {
                    $c.rotate1_up(r)
                } else {
                    $c.rotate1_down(r)
                }
            }
            Op::ScanFrom(i) if $len > 0 => {
                let i = $c.vet(i.idx($len)).unwrap();
                let r = $c.scan_from(i, |_| $call.call());
                $c.rotate1_up(r);
            }
            Op::ScanFromRev(i) if $len > 0 => {
                let i = $c.vet(i.idx($len)).unwrap();
                let r = $c.scan_from_rev(i, |_| $call.call());
                $c.rotate1_up(r);
            }
            Op::ScanRange(i, j) => {
                let (x, y) = span(i, j, $len);
                let r = $c.vet_range(x..y).unwrap();
                let (r, s) = $c.scan_range(r, |_| $call.call());
                $c.rotate1_up(r);
                $c.rotate1_down(s);
            }
            Op::ZipMutRaw(a, b, c, d) => {
                let (a, b) = span(a, b, $len);
                let (c, d) = span(c, d, $len);
                let (r, s) = ($c.vet_range(a..b).unwrap(), $c.vet_range(c..d).unwrap());
                $c.zip_mut_raw(r, s, |p, q| {
                    if $call.call() {
                        unsafe { std::ptr::swap(p, q) }
                    }
                });
            }
            Op::Panic => {
                $call.call();
            }
            _ => {}
        }
    };
}

fn inside<T: Elem>(case: &Inside, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..case.n as u32).collect();
    let call = &Caller { n: Cell::new(0), at: case.at as u64, answers: case.answers };
    {
        let mut a: Buf<T> = Buf::new(&keys, case.guards as usize);
        let mut b: Buf<T> = Buf::new_from(&keys, case.guards as usize, 30000);
        let (a0, b0) = (sigs(a.s()), sigs(b.s()));
        let live = a.total() + b.total();
        let mut vec: Vec<T> = elems_from(&keys, 10000);
        let v0 = sigs(&vec);
        let added = Cell::new(0);
        let r = match case.kind {
            // borrowed data: still there afterwards
            0 => catch(|| {
                scope(a.m(), |mut c| {
                    scope(b.m(), |mut d| {
                        for op in &case.ops {
                            let len = c.len();
                            #[cfg(feature = "ptr")]
                            match *op {
                                Op::ScanTail(i) if len > 0 && std::mem::size_of::<T>() > 0 => {
                                    let p = c.pointer_range().into_iter().nth(i.idx(len)).unwrap();
                                    let r = c.scan_tail_(p, |_| call.call());
                                    c.rotate1_prange(r);
                                }
                                Op::ScanPrange(i, j) | Op::ScanPrangeRev(i, j) if std::mem::size_of::<T>() > 0 => {
                                    let (x, y) = span(i, j, len);
                                    let mut it = c.pointer_range().into_iter();
                                    for _ in 0..x {
                                        it.next();
                                    }
                                    for _ in y..len {
                                        it.next_back();
                                    }
                                    let r = it.into_range();
                                    let (r, s) = if matches!(op, Op::ScanPrange(..)) {
                                        c.scan_pointer_range(r, |_| call.call())
                                    } else {
                                        c.scan_pointer_range_rev(r, |_| call.call())
                                    };
                                    for r in [r, s] {
                                        if let Ok(r) = r.nonempty() {
                                            c.rotate1_prange(r)
                                        }
                                    }
                                }
                                Op::Zip if std::mem::size_of::<T>() > 0 => {
                                    let (r, s) = (c.pointer_range(), d.pointer_range());
                                    indexing::pointer::zip(r, &mut c, s, &mut d, |x, y| {
                                        if call.call() {
                                            std::mem::swap(x, y)
                                        }
                                    });
                                }
                                Op::SplitAt(i) if len > 0 && std::mem::size_of::<T>() > 0 => {
                                    let p = c.pointer_range().into_iter().nth(i.idx(len)).unwrap();
                                    c.split_container_at_pointer(p, |mut l, lr, mut r, rr| {
                                        if let Ok(lr) = lr.nonempty() {
                                            l.rotate1_prange(lr);
                                        }
                                        call.call();
                                        r.rotate1_prange(rr);
                                    });
                                }
                                _ => {}
                            }
                            let op = *op;
                            common_ops!(c, op, call, len);
                            common_ops!(d, op, call, len);
                        }
                    })
                })
            }),
            1 | 2 => {
                let grow = std::mem::take(&mut vec);
                catch(|| {
                    scope(grow, |c| {
                        if case.kind == 1 {
                            let mut c = c.only_index();
                            for op in &case.ops {
                                let len = c.len();
                                match *op {
                                    Op::Push(k) => {
                                        added.set(added.get() + 1);
                                        c.push(T::make(k as u32, 20000));
                                    }
                                    Op::Insert(i, k) if len > 0 => {
                                        let i = c.vet(i.idx(len)).unwrap();
                                        added.set(added.get() + 1);
                                        c.insert(i, T::make(k as u32, 21000));
                                    }
                                    op => common_ops!(c, op, call, len),
                                }
                            }
                        } else {
                            let mut c = c;
                            for op in &case.ops {
                                let len = c.len();
                                let op = *op;
                                common_ops!(c, op, call, len)
                            }
                        }
                    })
                })
            }
            // a borrowed growable vector: what was pushed stays
            _ => catch(|| {
                scope(&mut a.m()[..0], |_| ());
                scope(&mut vec, |c| {
                    let mut c = c;
                    for op in &case.ops {
                        let len = c.len();
                        let op = *op;
                        common_ops!(c, op, call, len)
                    }
                })
            }),
        };
        match &r {
            Ok(()) => st.label("returned"),
            Err(p) if p.is::<Injected>() => {
                st.label("panicked");
                st.nt(call.n.get() > 1 && case.n > 1);
            }
            Err(_) => return Err("an operation panicked by itself".into()),
        }
        let mut all0 = [&a0[..], &b0[..]].concat();
        let mut all1 = [sigs(a.s()), sigs(b.s())].concat();
        if case.kind == 0 {
            all0.sort();
            all1.sort();
        }
        ensure_eq!(all1, all0, "elements of the borrowed slices");
        a.guards_ok()?;
        b.guards_ok()?;
        if matches!(case.kind, 1 | 2) {
            // the vector went into the scope
            if T::TRACKED {
                ledger_live(live)?;
            }
        } else {
            ensure_eq!(sorted_sigs(sigs(&vec)), sorted_sigs(v0.clone()), "elements of the borrowed vector");
            if T::TRACKED {
                ledger_live(live + v0.len())?;
            }
        }
    }
    ledger_settled()
}

fn test_inside(case: &Inside, st: &mut Stats) -> Res {
    with_ty!(case.ty, inside, case, st)
}

fn strat_inside() -> impl Strategy<Value = Inside> {
    inside_len(0u32..14, prop_oneof![0u32..4, 0u32..30])
}
fn large_inside() -> impl Strategy<Value = Inside> {
    inside_len(big().prop_map(|n| n as u32), prop_oneof![0u32..4, 0u32..3000])
}
fn inside_len(n: impl Strategy<Value = u32>, at: impl Strategy<Value = u32>) -> impl Strategy<Value = Inside> {
    let op = prop_oneof![
        (pos(), pos()).prop_map(|(a, b)| Op::Swap(a, b)),
        (pos(), pos()).prop_map(|(a, b)| Op::Up(a, b)),
        (pos(), pos()).prop_map(|(a, b)| Op::Down(a, b)),
        pos().prop_map(Op::ScanFrom),
        pos().prop_map(Op::ScanFromRev),
        (pos(), pos()).prop_map(|(a, b)| Op::ScanRange(a, b)),
        pos().prop_map(Op::ScanTail),
        (pos(), pos()).prop_map(|(a, b)| Op::ScanPrange(a, b)),
        (pos(), pos()).prop_map(|(a, b)| Op::ScanPrangeRev(a, b)),
        Just(Op::Zip),
        (pos(), pos(), pos(), pos()).prop_map(|(a, b, c, d)| Op::ZipMutRaw(a, b, c, d)),
        pos().prop_map(Op::SplitAt),
        any::<u8>().prop_map(Op::Push),
        (pos(), any::<u8>()).prop_map(|(a, b)| Op::Insert(a, b)),
        Just(Op::Panic),
    ];
    ((ty(), n, 0u8..3), (0u8..4, prop::collection::vec(op, 1..12), at, any::<u32>()))
        .prop_map(|((ty, n, guards), (kind, ops, at, answers))| Inside { ty, n, guards, kind, ops, at, answers })
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("everywhere", "a panic in every comparison of small runs of every algorithm; non-trivial: a panic or false answer after the first call", everywhere, test),
        group("failing", "any algorithm, type, content; comparisons panic or lie; non-trivial as above", 80000, strat, test),
        group("large", "the same with 300 to 1100 elements; non-trivial as above", 2500, large, test),
        group("closures", "scans, zips, splits and scopes whose closures panic at some call; non-trivial: panicked after the first call", 50000, strat_inside, test_inside),
        group("large_closures", "the same with up to 70000 elements; non-trivial as above", 2500, large_inside, test_inside),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<22>(3000),
    ]);
}
