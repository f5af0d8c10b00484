//! C21: in-place merge.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
use indexing::algorithms::*;
use vh::data::*;
use vh::hook::*;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ranges: bool,
    ty: Ty,
    left: Keys,
    right: Keys,
    mode: Mode,
    /// buffer length relative to the left section, or absolute
    extra: i16,
    /// split point given to the function
    split: Split,
    guards: u8,
    direct: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Split {
    Right,
    PastData(u16),
    Huge(u16),
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    if case.direct {
        run::<T>(case, st)
    } else {
        run::<Hk<T>>(case, st)
    }
}

fn run<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    // sort the sections as the elements will be ordered
    let section = |k: &Keys| {
        let mut v = k.get();
        if T::KEYS != u32::MAX {
            v.iter_mut().for_each(|x| *x %= T::KEYS + 1);
        }
        v.sort_by_key(|x| case.mode.rank(*x));
        v
    };
    let (l, r) = (section(&case.left), section(&case.right));
    let keys = [&l[..], &r[..]].concat();
    let (n, nl) = (keys.len(), l.len());
    let nb = (nl as i64 + case.extra as i64).max(0) as usize;
    let split = match case.split {
        Split::Right => nl,
        Split::PastData(d) => n + 1 + d as usize,
        Split::Huge(d) => usize::MAX - d as usize,
    };
    if n == 0 && cfg!(debug_assertions) {
        return Ok(()); // documented precondition of the debug build
    }
    {
        let mut data: Buf<T> = Buf::new(&keys, case.guards as usize);
        let bk: Vec<u32> = (0..nb as u32).map(|i| i * 13 % 251).collect();
        let mut buf: Buf<T> = Buf::new_from(&bk, case.guards as usize, 30000);
        let live = data.total() + buf.total();
        let (d0, b0) = (sigs(data.s()), sigs(buf.s()));
        hook_start(case.mode, 4 * (n + 2) as u64 + 100, None);
        hook_forbid(&mut data);
        let res = if case.ranges {
            merge_internal_ranges(data.m(), split, buf.m())
        } else {
            merge_internal_indices(data.m(), split, buf.m())
        };
        hook_ok()?;
        let bad = split > n || split > nb;
        ensure!(res.is_err() == bad, "split {} of {} elements with a buffer of {}: {:?}", split, n, nb, res);
        let (d1, b1) = (sigs(data.s()), sigs(buf.s()));
        if bad {
            ensure_eq!(d1, d0, "data after the refusal");
            ensure_eq!(b1, b0, "buffer after the refusal");
            st.label("refused");
            st.nt(true);
        } else {
            let mut want = d0.clone();
            want.sort_by_key(|s| case.mode.rank(key_of(*s)));
            ensure_eq!(d1, want, "merge of {} and {} elements with a buffer of {}", nl, n - nl, nb);
            ensure_eq!(sorted_sigs(b1), sorted_sigs(b0.clone()), "elements of the buffer");
            let ranks: std::collections::HashSet<_> = l.iter().map(|x| case.mode.rank(*x)).collect();
            let ties = r.iter().any(|y| ranks.contains(&case.mode.rank(*y)));
            st.label_if(ties, "ties between the sections");
            st.label_if(nl == 0, "empty left section");
            st.label_if(nl == n, "empty right section");
            st.nt(d1 != d0);
        }
        data.guards_ok()?;
        buf.guards_ok()?;
        if T::TRACKED {
            ledger_live(live)?;
        }
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn strat() -> impl Strategy<Value = Case> {
    let k = || prop_oneof![4 => keys_small(12).prop_map(Keys::List), 1 => keys(300)];
    from_keys(k(), k())
}
fn large() -> impl Strategy<Value = Case> {
    let k = || prop_oneof![3 => big_keys(20000), 1 => keys(20)];
    from_keys(k(), k())
}
fn far() -> impl Strategy<Value = Case> {
    let pats = || vec![Pat::Sorted, Pat::Equal, Pat::Random, Pat::OneOff];
    let k = move || {
        (proptest::sample::select(pats()), vast(), prop_oneof![1u32..6, Just(100000u32)], any::<u32>())
            .prop_map(|(pat, len, modulus, seed)| Keys::Pat { pat, len, modulus, seed })
    };
    (any::<bool>(), k(), keys(20), k(), prop::bool::weighted(0.3)).prop_flat_map(|(first, a, b, c, both)| {
        let (l, r) = if both { (a, c) } else if first { (a, b) } else { (b, a) };
        from_keys(Just(l), Just(r))
    })
}
fn from_keys(k: impl Strategy<Value = Keys>, l: impl Strategy<Value = Keys>) -> impl Strategy<Value = Case> {
    let extra = prop_oneof![3 => Just(0i16), 3 => 0i16..9, 2 => -4i16..0, 1 => -400i16..400];
    let split = prop_oneof![8 => Just(Split::Right), 1 => (0u16..9).prop_map(Split::PastData), 1 => (0u16..9).prop_map(Split::Huge)];
    ((any::<bool>(), ty(), k, l), (mode(), extra, split, 0u8..3, prop::bool::weighted(0.2))).prop_map(
        |((ranges, ty, left, right), (mode, extra, split, guards, direct))| Case {
            ranges,
            ty,
            left,
            right,
            mode: if direct { Mode::Plain } else { mode },
            extra,
            split,
            guards,
            direct,
        },
    )
}

/// All pairs of sorted sections over 3 keys
fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 6 } else { 4 };
    let mut secs: Vec<Vec<u32>> = vec![];
    for n in 0..=max {
        for a in 0..=n {
            for b in 0..=n - a {
                secs.push([vec![0; a], vec![1; b], vec![2; n - a - b]].concat());
            }
        }
    }
    let mut v = vec![];
    for (k, l) in secs.iter().enumerate() {
        for r in &secs {
            for ranges in [false, true] {
                for extra in [-1i16, 0, 1, 3] {
                    v.push(Case {
                        ranges,
                        ty: [Ty::Kv, Ty::Trk, Ty::B3][k % 3],
                        left: Keys::List(l.clone()),
                        right: Keys::List(r.clone()),
                        mode: Mode::Plain,
                        extra,
                        split: Split::Right,
                        guards: 1,
                        direct: false,
                    });
                }
            }
        }
    }
    Box::new(v.into_iter())
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[8, 9], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every pair of sorted sections over 3 keys of up to 4 elements (6 thorough), buffers too short, exact and longer; non-trivial: something moves or the call is refused", small, test),
        group("random", "any type, order, content, buffer and split point; non-trivial as above", 80000, strat, test),
        group("large", "sections of up to 20000 elements; non-trivial as above", 2500, large, test),
        group("vast", "a section beyond 65536 elements, or two; non-trivial as above", 60, far, test),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<21>(2000),
    ]);
}
