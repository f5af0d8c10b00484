//! C19: heapify.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
use indexing::algorithms::heapify;
use std::cmp::Ordering;
use vh::data::*;
use vh::hook::*;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty,
    keys: Keys,
    mode: Mode,
    guards: u8,
    direct: bool,
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    if case.direct {
        run::<T>(case, st)
    } else {
        run::<Hk<T>>(case, st)
    }
}

fn run<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys = case.keys.get();
    let n = keys.len();
    {
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let before = sigs(buf.s());
        let live = buf.total();
        hook_start(case.mode, 4 * (n * n) as u64 + 1000, None);
        hook_forbid(&mut buf);
        heapify(buf.m());
        hook_ok()?;
        buf.guards_ok()?;
        let after = sigs(buf.s());
        for k in 0..n {
            for c in [2 * k + 1, 2 * k + 2] {
                if c < n {
                    ensure!(
                        hook_final(after[k], after[c]) != Ordering::Greater,
                        "of {} elements, position {} (key {}) is greater than its child {} (key {})",
                        n, k, key_of(after[k]), c, key_of(after[c])
                    );
                }
            }
        }
        ensure_eq!(sorted_sigs(after.clone()), sorted_sigs(before.clone()), "elements of the heap");
        if T::TRACKED {
            ledger_live(live)?;
        }
        st.nt(before != after);
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn strat() -> impl Strategy<Value = Case> {
    from_keys(keys(1100))
}
fn large() -> impl Strategy<Value = Case> {
    from_keys(big_keys(70000))
}
fn far() -> impl Strategy<Value = Case> {
    let pats = vec![Pat::Sorted, Pat::Reversed, Pat::Equal, Pat::Random, Pat::OneOff, Pat::Evens];
    from_keys((proptest::sample::select(pats), vast(), prop_oneof![1u32..6, Just(100000u32)], any::<u32>())
        .prop_map(|(pat, len, modulus, seed)| Keys::Pat { pat, len, modulus, seed }))
}
fn from_keys(k: impl Strategy<Value = Keys>) -> impl Strategy<Value = Case> {
    (ty(), k, mode(), 0u8..3, prop::bool::weighted(0.2))
        .prop_map(|(ty, keys, mode, guards, direct)| Case { ty, keys, mode: if direct { Mode::Plain } else { mode }, guards, direct })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 9u32 } else { 7 };
    Box::new((0..=max).flat_map(move |n| {
        (0..4u32.pow(n)).map(move |c| Case {
            ty: [Ty::Kv, Ty::U8, Ty::Trk][(c % 3) as usize],
            keys: Keys::List((0..n).map(|i| c / 4u32.pow(i) % 4).collect()),
            mode: Mode::Plain,
            guards: 1,
            direct: false,
        })
    }))
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[10], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every content over 4 keys up to length 7 (9 thorough); non-trivial: something moves", small, test),
        group("random", "any type, order and content up to 1100 elements; non-trivial as above", 60000, strat, test),
        group("large", "the same up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 80, far, test),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<19>(2000),
    ]);
}
