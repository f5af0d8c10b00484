//! C17: every sort yields an ordered permutation, terminates, and does not
//! use stack in proportion to the length.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
use indexing::algorithms::*;
use vh::data::*;
use vh::hook::*;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sort {
    QRange,
    QPrange,
    QBounds,
    Indexes,
    Ranges,
    PrangeLower,
    PointerIndex,
    Raw,
    Two,
}
use Sort::*;
const QUICK: [Sort; 3] = [QRange, QPrange, QBounds];
const ALL: [Sort; 9] = [QRange, QPrange, QBounds, Indexes, Ranges, PrangeLower, PointerIndex, Raw, Two];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sort: Sort,
    ty: Ty,
    keys: Keys,
    mode: Mode,
    guards: u8,
    /// compare the elements themselves, not through the hook
    direct: bool,
}

fn sort<T: Elem>(s: Sort, v: &mut [T], less: impl FnMut(&T, &T) -> bool) {
    match s {
        QRange => quicksort_range(v),
        #[cfg(feature = "ptr")]
        QPrange => quicksort_prange(v),
        QBounds => quicksort_bounds(v),
        Indexes => insertion_sort_indexes(v, less),
        Ranges => insertion_sort_ranges(v, less),
        #[cfg(feature = "ptr")]
        PrangeLower => insertion_sort_prange_lower(v, less),
        #[cfg(feature = "ptr")]
        PointerIndex => insertion_sort_pointerindex(v, less),
        Raw => insertion_sort_rust(v, less),
        Two => {
            let mut u: Vec<u32> = (0..v.len() as u32).collect();
            insertion_sort2_indexes(v, &mut u, less)
        }
        #[cfg(not(feature = "ptr"))]
        _ => v.sort(),
    }
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    if case.direct {
        run::<T>(case, st, T::lt)
    } else {
        run::<Hk<T>>(case, st, hook_less)
    }
}

fn run<T: Elem>(case: &Case, st: &mut Stats, less: fn(&T, &T) -> bool) -> Res {
    ledger_reset();
    let keys = case.keys.get();
    let n = keys.len() as u64;
    let extent;
    {
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let before = sigs(buf.s());
        let live = buf.total();
        let mode = if case.mode == Mode::Killer && !T::IDS { Mode::Plain } else { case.mode };
        hook_start(mode, 4 * n * n + 1000, None);
        hook_forbid(&mut buf);
        let top = 0u8;
        sort(case.sort, buf.m(), less);
        extent = (&top as *const u8 as usize).saturating_sub(hook_low());
        hook_ok()?;
        buf.guards_ok()?;
        let after = sigs(buf.s());
        ensure_eq!(sorted_sigs(after.clone()), sorted_sigs(before.clone()), "elements after {:?}", case.sort);
        if let Some(k) = after.windows(2).position(|w| hook_final(w[0], w[1]) == std::cmp::Ordering::Greater) {
            return Err(format!("{:?} left positions {} and {} of {} out of order", case.sort, k, k + 1, n));
        }
        if T::TRACKED {
            ledger_live(live)?;
        }
        let moved = before != after;
        st.nt(moved || n > 24);
        st.label_if(n > 24, "longer than the insertion sort threshold");
        st.label_if(!moved, "already ordered");
        st.count("comparisons", hook_calls());
    }
    if n >= 1000 && !case.direct && !cfg!(miri) && std::env::var_os("VH_NO_STACK").is_none() {
        st.label("stack measured");
        ensure!(extent < 64 << 10, "{:?} used {} bytes of stack for {} elements", case.sort, extent, n);
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn modes_ty() -> impl Strategy<Value = (Mode, Ty, u8, bool)> {
    (mode(), ty(), 0u8..3, prop::bool::weighted(0.2)).prop_map(|(mode, ty, guards, direct)| (if direct { Mode::Plain } else { mode }, ty, guards, direct))
}

fn any_sort() -> impl Strategy<Value = Case> {
    (proptest::sample::select(ALL.to_vec()), modes_ty(), keys(160)).prop_map(|(sort, (mode, ty, guards, direct), keys)| Case { sort, ty, keys, mode, guards, direct })
}

fn large() -> impl Strategy<Value = Case> {
    // some sorts are quadratic
    (proptest::sample::select(ALL.to_vec()), modes_ty(), prop_oneof![big_keys(900), (any::<u32>(), 1500usize..2600).prop_map(|(seed, len)| Keys::Pat { pat: Pat::Random, len, modulus: 1 << 20, seed }), (big(), any::<u32>()).prop_map(|(n, seed)| Keys::Pat { pat: Pat::OneOff, len: n.min(20000), modulus: 1, seed })])
        .prop_map(|(sort, (mode, ty, guards, direct), mut keys)| {
            // quicksorts are quadratic on some content
            if let (true, Keys::Pat { len, .. }) = (mode != Mode::Plain || QUICK.contains(&sort), &mut keys) {
                *len = (*len).min(1100);
            }
            Case { sort, ty, keys, mode, guards, direct }
        })
}

fn quick_sorts() -> impl Strategy<Value = Case> {
    let k = prop_oneof![
        2 => keys(1100),
        1 => prop::collection::vec(0u32..1000, 20..90).prop_map(Keys::List),
        1 => prop::collection::vec(0u32..5, 20..90).prop_map(Keys::List),
    ];
    (proptest::sample::select(QUICK.to_vec()), modes_ty(), k).prop_map(|(sort, (mode, ty, guards, direct), keys)| Case { sort, ty, keys, mode, guards, direct })
}

/// Long and adversarial: patterns and McIlroy's killer
fn deep() -> impl Strategy<Value = Case> {
    let pats = vec![
        Pat::Sorted, Pat::Reversed, Pat::Equal, Pat::OrganPipe, Pat::Valley, Pat::Saw, Pat::Random, Pat::SortedTail, Pat::OneOff, Pat::Evens,
    ];
    let k = (proptest::sample::select(pats), 1000usize..4500, prop_oneof![1u32..6, 1u32..100, Just(100000u32)], any::<u32>())
        .prop_map(|(pat, len, modulus, seed)| Keys::Pat { pat, len, modulus, seed });
    let t = proptest::sample::select(vec![Ty::Kv, Ty::I32, Ty::U16, Ty::B3, Ty::Big]);
    (proptest::sample::select(QUICK.to_vec()), prop_oneof![2 => Just(Mode::Killer), 3 => mode()], t, k)
        .prop_map(|(sort, mode, ty, keys)| Case { sort, ty, keys, mode, guards: 1, direct: false })
}

/// Every content over few keys at small lengths
fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 7u32 } else { 5 };
    Box::new((0..=max).flat_map(move |n| {
        (0..4u32.pow(n)).flat_map(move |c| {
            let keys: Vec<u32> = (0..n).map(|i| c / 4u32.pow(i) % 4).collect();
            ALL.into_iter().map(move |sort| Case {
                sort,
                ty: [Ty::Kv, Ty::U8, Ty::Trk][(c % 3) as usize],
                keys: Keys::List(keys.clone()),
                mode: Mode::Plain,
                guards: 1,
                direct: false,
            })
        })
    }))
}

/// Permutations around the threshold where quicksort hands over to
/// insertion sort: every rotation and every transposition of a run.
fn threshold(_: bool) -> Box<dyn Iterator<Item = Case>> {
    Box::new((22u32..=30).flat_map(|n| {
        (0..n).flat_map(move |a| {
            (0..n).flat_map(move |b| {
                let mut k: Vec<u32> = (0..n).collect();
                if a <= b {
                    k.swap(a as usize, b as usize);
                } else {
                    k.rotate_left(a as usize);
                    if b % 3 > 0 {
                        k.iter_mut().for_each(|x| *x /= 1 + b % 3);
                    }
                }
                QUICK.into_iter().map(move |sort| Case { sort, ty: Ty::Kv, keys: Keys::List(k.clone()), mode: Mode::Plain, guards: 1, direct: false })
            })
        })
    }))
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[5, 6, 7], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every content over 4 keys up to length 5 (7 thorough), every sort; non-trivial: the input was not already ordered", small, test),
        exhaustive("threshold", "transpositions and rotations of runs of 22 to 30 elements, quicksorts; non-trivial as above or more than 24 elements", threshold, test),
        group("any", "any sort, element type, order and content pattern; non-trivial as above", 60000, any_sort, test),
        group("large", "any sort, up to 900 elements of any content, up to 20000 nearly ordered ones; non-trivial as above", 1200, large, test),
        group("quick", "quicksorts up to 1100 elements; non-trivial as above", 30000, quick_sorts, test),
        group("deep", "quicksorts of 1000 to 4500 elements, patterns and McIlroy's adversary, stack use measured; non-trivial as above", 320, deep, test),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, any_sort, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(any_sort()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), any_sort()), storm),
        giant::giant::<17>(2000),
    ]);
}
