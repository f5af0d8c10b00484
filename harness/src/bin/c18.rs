//! C18: the linear insertion sorts are stable; the two-container sort
//! applies the same permutation to both.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
use indexing::algorithms::*;
use vh::data::*;
use vh::hook::*;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sort {
    Indexes,
    Ranges,
    Raw,
    PointerIndex,
}
use Sort::*;
const ALL: [Sort; 4] = [Indexes, Ranges, Raw, PointerIndex];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sort: Sort,
    ty: Ty,
    keys: Keys,
    mode: Mode,
    guards: u8,
}

/// What a stable sort makes of it: positions in the original, in order.
fn stable(sigs: &[u64], mode: Mode) -> Vec<usize> {
    let mut p: Vec<usize> = (0..sigs.len()).collect();
    p.sort_by_key(|i| mode.rank(key_of(sigs[*i])));
    p
}

fn one<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys = case.keys.get();
    let n = keys.len() as u64;
    {
        let mut buf: Buf<Hk<T>> = Buf::new(&keys, case.guards as usize);
        let before = sigs(buf.s());
        let live = buf.total();
        hook_start(case.mode, 2 * n * n + 100, None);
        hook_forbid(&mut buf);
        match case.sort {
            Indexes => insertion_sort_indexes(buf.m(), hook_less),
            Ranges => insertion_sort_ranges(buf.m(), hook_less),
            #[cfg(feature = "ptr")]
            PointerIndex => insertion_sort_pointerindex(buf.m(), hook_less),
            _ => insertion_sort_rust(buf.m(), hook_less),
        }
        hook_ok()?;
        let p = stable(&before, case.mode);
        let want: Vec<u64> = p.iter().map(|i| before[*i]).collect();
        let after = sigs(buf.s());
        ensure_eq!(after, want, "{:?}: stable order", case.sort);
        buf.guards_ok()?;
        if T::TRACKED {
            ledger_live(live)?;
        }
        let ranks: Vec<u32> = before.iter().map(|s| case.mode.rank(key_of(*s))).collect();
        let ties = (0..ranks.len()).any(|i| ranks[..i].contains(&ranks[i]));
        st.nt(ties && after != before);
    }
    ledger_settled()
}

fn test_one(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, one, case, st)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    ty: Ty,
    ty2: Ty,
    keys: Keys,
    mode: Mode,
    guards: u8,
    /// length of the second slice, relative to the first
    diff: i8,
}

fn two<T: Elem, U: Elem>(case: &Two, st: &mut Stats) -> Res {
    ledger_reset();
    let keys = case.keys.get();
    let n = keys.len();
    let m = (n as i64 + case.diff as i64).max(0) as usize;
    {
        let mut a: Buf<Hk<T>> = Buf::new(&keys, case.guards as usize);
        let k2: Vec<u32> = (0..m as u32).map(|i| i * 5 % 251).collect();
        let mut b: Buf<U> = Buf::new_from(&k2, case.guards as usize, 5000);
        let (b1, b2) = (sigs(a.s()), sigs(b.s()));
        let live = if T::TRACKED { a.total() } else { 0 } + if U::TRACKED { b.total() } else { 0 };
        hook_start(case.mode, 2 * (n * n) as u64 + 100, None);
        hook_forbid(&mut a);
        let r = catch(|| insertion_sort2_indexes(a.m(), b.m(), hook_less));
        hook_ok()?;
        a.guards_ok()?;
        b.guards_ok()?;
        if n == m {
            if r.is_err() {
                return Err("panicked on slices of equal length".into());
            }
            let p = stable(&b1, case.mode);
            ensure_eq!(sigs(a.s()), p.iter().map(|i| b1[*i]).collect::<Vec<_>>(), "first slice");
            ensure_eq!(sigs(b.s()), p.iter().map(|i| b2[*i]).collect::<Vec<_>>(), "second slice");
            st.nt(p.windows(2).any(|w| w[0] > w[1]));
            st.label("same length");
        } else {
            ensure!(r.is_err(), "slices of {} and {} elements were accepted", n, m);
            ensure_eq!(sigs(a.s()), b1, "first slice after the refusal");
            ensure_eq!(sigs(b.s()), b2, "second slice after the refusal");
            st.nt(n > 0);
            st.label("different length");
        }
        ledger_live(live)?;
    }
    ledger_settled()
}

fn test_two(case: &Two, st: &mut Stats) -> Res {
    // first slice: any type, with the second of a type of each sort
    fn first<T: Elem>(case: &Two, st: &mut Stats) -> Res {
        match case.ty2 {
            Ty::U8 | Ty::U16 | Ty::I32 | Ty::U64 => two::<T, u64>(case, st),
            Ty::B3 | Ty::Kv => two::<T, B3>(case, st),
            Ty::Big | Ty::Huge => two::<T, Big>(case, st),
            Ty::P14 | Ty::P11 => two::<T, P14>(case, st),
            Ty::T12 | Ty::W32 => two::<T, W32>(case, st),
            Ty::Str | Ty::Bx => two::<T, Bx>(case, st),
            Ty::Trk => two::<T, Trk>(case, st),
            Ty::Z => two::<T, Z>(case, st),
            Ty::ZTrk => two::<T, ZTrk>(case, st),
        }
    }
    with_ty!(case.ty, first, case, st)
}

fn strat_one() -> impl Strategy<Value = Case> {
    (proptest::sample::select(ALL.to_vec()), prop_oneof![4 => ty_id(), 1 => ty()], keys(140), mode(), 0u8..3)
        .prop_map(|(sort, ty, keys, mode, guards)| Case { sort, ty, keys, mode, guards })
}
fn large() -> impl Strategy<Value = Case> {
    // insertion sorts are quadratic: nearly ordered content when long
    let near = (proptest::sample::select(vec![Pat::Sorted, Pat::OneOff, Pat::Equal, Pat::Saw, Pat::Random, Pat::Reversed]), big(), 1u32..100, any::<u32>())
        .prop_map(|(pat, len, modulus, seed)| match pat {
            Pat::Saw | Pat::Random | Pat::Reversed => Keys::Pat { pat, len: len.min(900), modulus, seed },
            _ => Keys::Pat { pat, len: len.min(20000), modulus, seed },
        });
    let near = prop_oneof![
        12 => near,
        1 => (proptest::sample::select(vec![Pat::Sorted, Pat::Equal]), vast(), 1000u32..5000).prop_map(|(pat, len, modulus)| Keys::Pat { pat, len, modulus, seed: 0 }),
    ];
    (proptest::sample::select(ALL.to_vec()), ty_id(), near, prop_oneof![Just(Mode::Plain), mode()], 0u8..2)
        .prop_map(|(sort, ty, mut keys, mode, guards)| {
            if let (true, Keys::Pat { len, .. }) = (mode != Mode::Plain, &mut keys) {
                *len = (*len).min(900);
            }
            Case { sort, ty, keys, mode, guards }
        })
}
fn large_two() -> impl Strategy<Value = Two> {
    (ty(), ty(), big_keys(700), mode(), 0u8..3, prop_oneof![4 => Just(0i8), 1 => any::<i8>()])
        .prop_map(|(ty, ty2, keys, mode, guards, diff)| Two { ty, ty2, keys, mode, guards, diff })
}
fn strat_two() -> impl Strategy<Value = Two> {
    (ty(), ty(), keys(70), mode(), 0u8..3, prop_oneof![4 => Just(0i8), 2 => -3i8..4, 1 => any::<i8>()])
        .prop_map(|(ty, ty2, keys, mode, guards, diff)| Two { ty, ty2, keys, mode, guards, diff })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 8u32 } else { 6 };
    Box::new((0..=max).flat_map(move |n| {
        (0..3u32.pow(n)).flat_map(move |c| {
            let keys: Vec<u32> = (0..n).map(|i| c / 3u32.pow(i) % 3).collect();
            ALL.into_iter().map(move |sort| Case { sort, ty: [Ty::Kv, Ty::B3, Ty::Trk][(c % 3) as usize], keys: Keys::List(keys.clone()), mode: Mode::Plain, guards: 1 })
        })
    }))
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test_one, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test_one, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test_one, &[0, 1, 2, 3, 4], c, st)
}
fn two_nested(c: &Two, st: &mut Stats) -> Res {
    nest::nested(test_two, c, st)
}
fn two_sequence(c: &Vec<(u32, Two)>, st: &mut Stats) -> Res {
    nest::sequence(test_two, c, st)
}
fn two_storm(c: &(u32, Two), st: &mut Stats) -> Res {
    nest::after_storm(test_two, &[0, 1, 2, 3, 4], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every content over 3 keys up to length 6 (8 thorough); non-trivial: there are ties and something moves", small, test_one),
        group("stable", "any type, order and content; non-trivial as above", 60000, strat_one, test_one),
        group("two", "two slices in lock step; non-trivial: something moves, or the lengths differ", 50000, strat_two, test_two),
        group("large", "up to 900 elements of any content, up to 20000 nearly ordered ones; non-trivial as above", 2500, large, test_one),
        group("large_two", "two slices of up to 700 elements; non-trivial as above", 2500, large_two, test_two),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat_one, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat_one()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat_one()), storm),
        group("two_nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat_two, two_nested),
        group("two_sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat_two()), two_sequence),
        group("large_two_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 200, || (any::<u32>(), strat_two()), two_storm),
        giant::giant::<18>(2000),
    ]);
}
