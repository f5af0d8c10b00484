//! C20: searches.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
#[path = "../zst.rs"]
mod zst;
#[path = "../far.rs"]
mod far;
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::{scope, Container};
use std::cell::RefCell;
use std::cmp::Ordering;
use vh::data::*;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fun {
    Bs,
    BsBy,
    BsPrange,
    BsPslice,
    Lb,
    LbRaw,
    LbPrange,
    LbPslice,
    /// the rest search a part of a container
    BsPrangePart,
    BsPslicePart,
    LbPrangePart,
    LbPslicePart,
}
use Fun::*;
const ALL: [Fun; 12] = [Bs, BsBy, BsPrange, BsPslice, Lb, LbRaw, LbPrange, LbPslice, BsPrangePart, BsPslicePart, LbPrangePart, LbPslicePart];
impl Fun {
    fn part(self) -> bool {
        matches!(self, BsPrangePart | BsPslicePart | LbPrangePart | LbPslicePart)
    }
    fn partial(self) -> bool {
        matches!(self, Lb | LbRaw | LbPrange | LbPslice | LbPrangePart | LbPslicePart)
    }
    fn ptr(self) -> bool {
        !matches!(self, Bs | BsBy | Lb | LbRaw)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Answers {
    /// the data is sorted, the answers are true
    Sorted,
    /// partitioned with respect to the query, not sorted
    Partitioned,
    /// any data, true answers
    True,
    /// answers are a hash of the position
    ByPos(u32),
    /// answers are a hash of the call number
    ByCall(u32),
    Const(i8),
    /// by position, including positions that do not compare at all
    Partial(u32),
    /// less up to a position, not less (or not comparable) from there
    PartialSplit(u32, Pos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fun: Fun,
    ty: Ty,
    keys: Keys,
    answers: Answers,
    query: u16,
    /// query taken from the data (else between)
    present: bool,
    a: Pos,
    b: Pos,
    proof: bool,
    kind: u8,
}

/// What the search asked, in order.
struct Oracle {
    base: usize,
    size: usize,
    len: usize,
    part: (usize, usize),
    query: u32,
    answers: Answers,
    asked: Vec<(usize, Option<Ordering>)>,
    limit: u64,
    bad: Res,
}
thread_local! {
    static ORACLE: RefCell<Option<Oracle>> = const { RefCell::new(None) };
}

impl Oracle {
    fn answer(&mut self, at: usize, key: u32) -> Option<Ordering> {
        vh::hook::hook_tick();
        let n = self.asked.len();
        if n as u64 >= self.limit {
            std::panic::panic_any(Budget("comparisons of a search (more than logarithmic)"));
        }
        let pos = if self.size == 0 { 0 } else { at.wrapping_sub(self.base) / self.size };
        let mut partial = false;
        let o = match self.answers {
            Answers::ByPos(s) => (mix((s as u64) << 32 | pos as u64) % 3).cmp(&1),
            Answers::ByCall(s) => (mix((s as u64) << 32 | n as u64) % 3).cmp(&1),
            Answers::Const(c) => c.cmp(&0),
            Answers::Partial(s) => {
                let h = mix((s as u64) << 32 | pos as u64) % 4;
                if h == 3 { partial = true }
                h.cmp(&1)
            }
            Answers::PartialSplit(s, k) => {
                let (a, b) = self.part;
                let h = mix((s as u64) << 32 | pos as u64) % 3;
                if pos < a + k.at(b - a) {
                    Ordering::Less
                } else {
                    if h == 0 { partial = true }
                    if h == 1 { Ordering::Equal } else { Ordering::Greater }
                }
            }
            _ => key.cmp(&self.query),
        };
        let o = if partial { None } else { Some(o) };
        if self.size > 0 && self.bad.is_ok() {
            let d = at.wrapping_sub(self.base);
            if d % self.size != 0 || pos >= self.len {
                self.bad = Err(format!("comparison {} is given something outside the data", n));
            } else if pos < self.part.0 || pos >= self.part.1 {
                self.bad = Err(format!("comparison {} is given position {}, the searched part is {:?}", n, pos, self.part));
            }
        }
        self.asked.push((pos, o));
        o
    }
}

/// element against the query
fn ask<T: Elem>(x: &T) -> Ordering {
    ORACLE.with(|o| o.borrow_mut().as_mut().unwrap().answer(x as *const T as usize, x.key())).expect("comparable")
}

fn less<T: Elem>(x: &T) -> bool {
    ORACLE.with(|o| o.borrow_mut().as_mut().unwrap().answer(x as *const T as usize, x.key())) == Some(Ordering::Less)
}

/// Elements for the functions that compare two elements: the query is the
/// one outside of the data.
struct Q<T>(T);
impl<T: Elem> Q<T> {
    fn against(&self, o: &Q<T>) -> Option<Ordering> {
        ORACLE.with(|or| {
            let mut or = or.borrow_mut();
            let or = or.as_mut().unwrap();
            let inside = |x: &Q<T>| (x as *const Q<T> as usize).wrapping_sub(or.base) < or.size.max(1) * or.len;
            if inside(self) {
                or.answer(self as *const Q<T> as usize, self.0.key())
            } else if inside(o) {
                or.answer(o as *const Q<T> as usize, o.0.key()).map(|x| x.reverse())
            } else {
                or.bad = Err("a comparison is given nothing of the data".into());
                Some(Ordering::Equal)
            }
        })
    }
}
impl<T: Elem> PartialEq for Q<T> {
    fn eq(&self, o: &Self) -> bool {
        self.against(o) == Some(Ordering::Equal)
    }
}
impl<T: Elem> Eq for Q<T> {}
impl<T: Elem> PartialOrd for Q<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.against(o)
    }
}
impl<T: Elem> Ord for Q<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.against(o).expect("comparable")
    }
}

#[cfg(feature = "ptr")]
fn part<'id, A, T: Elem>(c: &Container<'id, A>, case: &Case, a: usize, b: usize) -> Result<Result<usize, usize>, String>
where
    A: Contiguous<Item = T>,
{
    use indexing::pointer::{PRange, PSlice};
    // the pointer range over a..b, taken apart from the whole
    let whole = c.pointer_range();
    let mut it = whole.into_iter();
    for _ in 0..a {
        it.next();
    }
    for _ in b..c.len() {
        it.next_back();
    }
    let r: PRange<T> = it.into_range();
    ensure_eq!(r.len(), b - a, "length of the part");
    let s: PSlice<T> = r.into();
    let lt = |x: &T| less(x);
    fn int<X: Copy, Y: Copy>(r: Result<X, Y>, f: impl Fn(X) -> usize, g: impl Fn(Y) -> usize) -> Result<usize, usize> {
        r.map(f).map_err(g)
    }
    Ok(match (case.fun, case.proof && a < b) {
        (BsPrangePart, false) => int(binary_search_by_prange_(r, c, ask), |p| c.distance_to(p), |p| c.distance_to(p)),
        (BsPrangePart, true) => int(binary_search_by_prange_(r.nonempty().unwrap(), c, ask), |p| c.distance_to(p), |p| c.distance_to(p)),
        (BsPslicePart, false) => int(binary_search_by_pslice_(s, c, ask), |p| c.distance_to(p), |p| c.distance_to(p)),
        (BsPslicePart, true) => int(binary_search_by_pslice_(s.nonempty().unwrap(), c, ask), |p| c.distance_to(p), |p| c.distance_to(p)),
        (LbPrangePart, false) => Err(c.distance_to(lower_bound_prange_(r, c, lt))),
        (LbPrangePart, true) => Err(c.distance_to(lower_bound_prange_(r.nonempty().unwrap(), c, lt))),
        (LbPslicePart, false) => Err(c.distance_to(lower_bound_pslice_(s, c, lt))),
        _ => Err(c.distance_to(lower_bound_pslice_(s.nonempty().unwrap(), c, lt))),
    })
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    let mut keys = case.keys.get();
    let m = T::KEYS;
    let cut = |k: u32| if m == u32::MAX { k } else { k % (m + 1) };
    keys.iter_mut().for_each(|k| *k = cut(k.wrapping_mul(2)));
    let n = keys.len();
    let query = if case.present && n > 0 {
        keys[pick(case.query, n)]
    } else if n > 0 && case.query % 8 > 0 {
        cut(keys[pick(case.query, n)] | 1)
    } else {
        cut([0, u32::MAX, 1][case.query as usize % 3])
    };
    let (a, b) = if case.fun.part() { span(case.a, case.b, n) } else { (0, n) };
    match case.answers {
        Answers::Sorted => keys[a..b].sort(),
        Answers::Partitioned => keys[a..b].sort_by_key(|k| k.cmp(&query)),
        _ => {}
    }
    let elt = Q(T::make(query, 1));
    let data: Vec<Q<T>> = elems::<T>(&keys).into_iter().map(Q).collect::<Vec<_>>().into_boxed_slice().into_vec();
    // Q<T> has the layout of T: a second view of the same data for closures
    let plain: Vec<T> = elems::<T>(&keys);
    let sz = std::mem::size_of::<T>();
    let base = if matches!(case.fun, Bs | Lb | LbRaw | LbPrange) { data.as_ptr() as usize } else { plain.as_ptr() as usize };
    let limit = 2 * log2_ceil(b - a + 1) + 8;
    ORACLE.with(|o| {
        *o.borrow_mut() =
            Some(Oracle { base, size: sz, len: n, part: (a, b), query, answers: case.answers, asked: vec![], limit, bad: Ok(()) })
    });
    let lower = matches!(case.fun, Lb | LbRaw | LbPrange | LbPslice | LbPrangePart | LbPslicePart);
    let r: Result<usize, usize> = match case.fun {
        Bs => binary_search(&data, &elt),
        BsBy => binary_search_by(&plain, ask),
        Lb => Err(lower_bound(&data, &elt)),
        LbRaw => Err(lower_bound_raw_ptr(&data, &elt)),
        #[cfg(feature = "ptr")]
        BsPrange => binary_search_by_prange(&plain, ask),
        #[cfg(feature = "ptr")]
        BsPslice => binary_search_by_pslice(&plain, ask),
        #[cfg(feature = "ptr")]
        LbPrange => Err(lower_bound_prange(&data, &elt)),
        #[cfg(feature = "ptr")]
        LbPslice => Err(lower_bound_pslice(&plain, less)),
        #[cfg(feature = "ptr")]
        _ => match case.kind {
            0 => scope(&plain[..], |c| part(&c, case, a, b))?,
            _ => scope(&plain, |c| part(&c, case, a, b))?,
        },
        #[cfg(not(feature = "ptr"))]
        _ => return Ok(()),
    };
    let o = ORACLE.with(|o| o.borrow_mut().take()).unwrap();
    o.bad?;
    let said = |p: usize, f: &dyn Fn(Option<Ordering>) -> bool| o.asked.iter().any(|x| (sz == 0 || x.0 == p) && f(x.1));
    // locally consistent with the answers
    match r {
        Ok(i) => {
            ensure!(!lower, "no exact match from a lower bound");
            ensure!(a <= i && i < b, "{:?} found position {} outside {}..{}", case.fun, i, a, b);
            ensure!(said(i, &|x| x == Some(Ordering::Equal)), "{:?} found position {} which did not compare equal", case.fun, i);
        }
        Err(i) => {
            ensure!(a <= i && i <= b, "{:?} returned position {} outside {}..{}", case.fun, i, a, b);
            ensure!(i == a || said(i - 1, &|x| x == Some(Ordering::Less)), "{:?} returned {} but {} was not less", case.fun, i, i - 1);
            let above = |x: Option<Ordering>| if lower { x != Some(Ordering::Less) } else { x == Some(Ordering::Greater) };
            ensure!(i == b || said(i, &above), "{:?} returned {} but that position was not found above", case.fun, i);
        }
    }
    // exact on ordered data
    let exact = matches!(case.answers, Answers::Sorted | Answers::Partitioned);
    if exact {
        let lb = a + keys[a..b].iter().filter(|k| **k < query).count();
        let eq = keys[a..b].iter().filter(|k| **k == query).count();
        match r {
            Ok(i) => ensure!(lb <= i && i < lb + eq, "{:?}: found {}, matches are {}..{}", case.fun, i, lb, lb + eq),
            Err(i) => {
                ensure!(lower || eq == 0, "{:?} missed the match at {}", case.fun, lb);
                ensure!(i == lb, "{:?} returned {}, the first position not less is {}", case.fun, i, lb);
            }
        }
        st.label_if(eq > 1, "several matches");
        st.label("ordered data");
    }
    if let Answers::PartialSplit(_, k) = case.answers {
        if sz > 0 {
            ensure_eq!(r, Err(a + k.at(b - a)), "the first position not less");
        }
    }
    st.label_if(matches!(case.answers, Answers::Partial(_) | Answers::PartialSplit(..)), "incomparable elements");
    st.label_if(!exact, "arbitrary data or answers");
    st.nt(b - a >= 2 && (!case.fun.part() || b - a < n || case.proof));
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn answers() -> impl Strategy<Value = Answers> {
    prop_oneof![
        6 => Just(Answers::Sorted),
        2 => Just(Answers::Partitioned),
        1 => Just(Answers::True),
        1 => any::<u32>().prop_map(Answers::ByPos),
        1 => any::<u32>().prop_map(Answers::ByCall),
        1 => (-1i8..2).prop_map(Answers::Const),
        1 => any::<u32>().prop_map(Answers::Partial),
        1 => (any::<u32>(), pos()).prop_map(|(s, p)| Answers::PartialSplit(s, p)),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    from_keys(keys(1100))
}
fn large() -> impl Strategy<Value = Case> {
    from_keys(big_keys(70000))
}
fn far() -> impl Strategy<Value = Case> {
    let pats = vec![Pat::Sorted, Pat::Reversed, Pat::Equal, Pat::Random, Pat::OneOff, Pat::Evens];
    from_keys((proptest::sample::select(pats), vast(), prop_oneof![1u32..6, Just(100000u32)], any::<u32>())
        .prop_map(|(pat, len, modulus, seed)| Keys::Pat { pat, len, modulus, seed }))
}
fn from_keys(k: impl Strategy<Value = Keys>) -> impl Strategy<Value = Case> {
    (
        (proptest::sample::select(ALL.to_vec()), prop_oneof![5 => ty_nz(), 1 => ty()], k, answers()),
        (any::<u16>(), any::<bool>(), pos(), pos(), any::<bool>(), 0u8..2),
    )
        .prop_map(|((fun, ty, keys, answers), (query, present, a, b, proof, kind))| Case {
            fun,
            // pointer searches of zero-sized elements: group zst_pointers
            ty: if fun.ptr() && ty.zst() { Ty::Kv } else { ty },
            keys,
            answers: match answers {
                // only some variants take elements that need not compare
                Answers::Partial(s) | Answers::PartialSplit(s, _) if !fun.partial() => Answers::ByPos(s),
                x => x,
            },
            query,
            present,
            a,
            b,
            proof,
            kind,
        })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 7u32 } else { 5 };
    let mut v = vec![];
    for n in 0..=max {
        for c in 0..3u32.pow(n) {
            let keys: Vec<u32> = (0..n).map(|i| c / 3u32.pow(i) % 3).collect();
            let sorted = keys.windows(2).all(|w| w[0] <= w[1]);
            for fun in ALL {
                for q in 0..=n.max(1) as u16 {
                    for present in [false, true] {
                        let query = (q as u32 * 65536 / (n + 2)) as u16;
                        v.push(Case {
                            fun,
                            ty: [Ty::Kv, Ty::U8, Ty::B3][(c % 3) as usize],
                            keys: Keys::List(keys.clone()),
                            answers: if sorted { Answers::Sorted } else { Answers::True },
                            query,
                            present,
                            a: Pos::Lo(if present { 0 } else { 1 }),
                            b: Pos::Hi((c % 2) as u8),
                            proof: c % 3 == 0,
                            kind: 0,
                        });
                    }
                }
            }
        }
    }
    Box::new(v.into_iter())
}

/// Pointer searches of zero-sized elements against their index twins.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zst {
    probe: String,
    n: u8,
    less: bool,
}
fn zst(_: bool) -> Box<dyn Iterator<Item = Zst>> {
    let mut v = vec![];
    if cfg!(feature = "ptr") {
        for f in ["binary_search_by_prange", "binary_search_by_pslice", "lower_bound_prange", "lower_bound_pslice"] {
            for n in 0..5 {
                for less in [false, true] {
                    v.push(Zst { probe: format!("zst:{}", f), n, less });
                }
            }
        }
    }
    Box::new(v.into_iter())
}
#[cfg(feature = "ptr")]
fn test_zst(case: &Zst, st: &mut Stats) -> Res {
    let data = vec![Z; case.n as usize];
    let o = if case.less { Ordering::Less } else { Ordering::Greater };
    let want = if case.less { case.n as usize } else { 0 };
    let got = catch(|| match case.probe.as_str() {
        "zst:binary_search_by_prange" => binary_search_by_prange(&data, |_| o) == Err(want),
        "zst:binary_search_by_pslice" => binary_search_by_pslice(&data, |_| o) == Err(want),
        "zst:lower_bound_prange" => lower_bound_prange(&data, &Z) == 0,
        _ => lower_bound_pslice(&data, |_| case.less) == want,
    });
    st.nt(case.n > 0);
    match (got, case.probe.as_str()) {
        (Ok(true), _) => {}
        (_, "zst:binary_search_by_prange") => st.label("known:zst:binary_search_by_prange"),
        (_, "zst:binary_search_by_pslice") => st.label("known:zst:binary_search_by_pslice"),
        (_, "zst:lower_bound_prange") => st.label("known:zst:lower_bound_prange"),
        _ => st.label("known:zst:lower_bound_pslice"),
    }
    Ok(())
}
#[cfg(not(feature = "ptr"))]
fn test_zst(_: &Zst, _: &mut Stats) -> Res {
    Ok(())
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[11, 12], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every content over 3 keys up to length 5 (7 thorough), every variant and query; non-trivial: two elements or more to search (for parts: a proper part)", small, test),
        group("random", "any variant, type, content, query and answers; non-trivial as above", 150000, strat, test),
        group("large", "the same up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 80, far, test),
        exhaustive("zst_pointers", "the pointer searches on zero-sized elements; non-trivial: not empty", zst, test_zst),
        far::far::<20>(1000),
        zst::zst::<20>(20000),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<20>(2000),
    ]);
}
