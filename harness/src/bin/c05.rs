//! C05: vetting accepts exactly what is in bounds.
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
use indexing::{scope, Container, IndexingError};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Q {
    Vet(Num),
    VetRange(Num, Num),
    Contains(Num, Num, Num),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Zst,
    Virtual,
    Slice,
    SliceMut,
    Vec,
    VecRef,
    VecMut,
    Nested,
    Fixed,
    Ring,
    OnlyIndex,
    Twin,
    Clone,
}
const KINDS: [Kind; 13] = [
    Kind::Zst, Kind::Virtual, Kind::Slice, Kind::SliceMut, Kind::Vec, Kind::VecRef, Kind::VecMut, Kind::Nested, Kind::Fixed,
    Kind::Ring, Kind::OnlyIndex, Kind::Twin, Kind::Clone,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    len: u64,
    qs: Vec<Q>,
}

fn ask<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, qs: &[Q], st: &mut Stats) -> Res {
    ensure_eq!(c.len(), len, "container length");
    let mut both = [false; 2];
    for q in qs {
        match *q {
            Q::Vet(n) => {
                let i = n.at(len);
                let want = i < len;
                both[want as usize] = true;
                match c.vet(i) {
                    Ok(x) => {
                        ensure!(want, "vet({}) accepted with length {}", i, len);
                        ensure_eq!(x.integer(), i, "vet({})", i);
                    }
                    Err(e) => {
                        let _: IndexingError = e;
                        ensure!(!want, "vet({}) refused with length {}", i, len);
                    }
                }
            }
            Q::VetRange(a, b) => {
                let (a, b) = (a.at(len), b.at(len));
                let want = a <= b && b <= len;
                both[want as usize] = true;
                match c.vet_range(a..b) {
                    Ok(r) => {
                        ensure!(want, "vet_range({}..{}) accepted with length {}", a, b, len);
                        ensure_eq!((r.start(), r.end()), (a, b), "vet_range");
                        ensure_eq!(r.as_range(), a..b, "as_range");
                        ensure_eq!(r.len(), b - a, "length of range {}..{}", a, b);
                        ensure_eq!(r.is_empty(), a == b, "is_empty of {}..{}", a, b);
                        let ne = r.nonempty();
                        ensure_eq!(ne.is_ok(), a < b, "nonempty() of {}..{}", a, b);
                        if let Ok(ne) = ne {
                            ensure_eq!((ne.start(), ne.end()), (a, b), "nonempty");
                            let again = ne.nonempty();
                            ensure_eq!(again.map(|r| r.as_range()), Ok(a..b), "nonempty of nonempty");
                            ensure_eq!(
                                IntoCheckedRange::into(ne).map(|r| r.as_range()),
                                Ok(a..b),
                                "checked conversion of non-empty"
                            );
                        }
                        let ck = IntoCheckedRange::into(r);
                        ensure_eq!(ck.is_ok(), a < b, "checked conversion of {}..{}", a, b);
                        if let Ok(ck) = ck {
                            ensure_eq!(ck.as_range(), a..b, "checked conversion");
                        }
                        ensure_eq!(r.no_proof().as_range(), a..b, "no_proof");
                    }
                    Err(_) => ensure!(!want, "vet_range({}..{}) refused with length {}", a, b, len),
                }
            }
            Q::Contains(a, b, i) => {
                let (a, b) = (a.at(len), b.at(len));
                let i = i.at(len);
                if let Ok(r) = c.vet_range(a..b) {
                    let want = a <= i && i < b;
                    both[want as usize] = true;
                    let got = r.contains(i);
                    ensure_eq!(got.map(|x| x.integer()), want.then_some(i), "contains({}) of {}..{}", i, a, b);
                    if let Ok(ne) = r.nonempty() {
                        let got = ne.contains(i);
                        ensure_eq!(got.map(|x| x.integer()), want.then_some(i), "contains({}) of non-empty {}..{}", i, a, b);
                    }
                }
            }
        }
    }
    st.nt(both[0] && both[1]);
    st.label_if(len > isize::MAX as usize, "length above isize::MAX");
    st.label_if(len == 0, "empty");
    Ok(())
}

fn test(c: &Case, st: &mut Stats) -> Res {
    let big = c.len as usize;
    let small = (c.len % 3000) as usize;
    let mut v: Vec<u16> = vec![7; small];
    let qs = &c.qs[..];
    let r = match c.kind {
        Kind::Zst => scope(zst_slice(big), |a| ask(&a, big, qs, st)),
        Kind::Virtual => scope(Virt(big), |a| ask(&a, big, qs, st)),
        Kind::Slice => scope(&v[..], |a| ask(&a, small, qs, st)),
        Kind::SliceMut => scope(&mut v[..], |a| ask(&a, small, qs, st)),
        Kind::Vec => scope(v.clone(), |a| ask(&a, small, qs, st)),
        Kind::VecRef => scope(&v, |a| ask(&a, small, qs, st)),
        Kind::VecMut => scope(&mut v, |a| ask(&a, small, qs, st)),
        Kind::Nested => scope(&mut &mut &&v[..], |a| ask(&a, small, qs, st)),
        Kind::Fixed => scope(Fixed(v.clone().into_boxed_slice()), |a| ask(&a, small, qs, st)),
        Kind::Ring => scope(Ring::wrapped(v.clone()), |a| ask(&a, small, qs, st)),
        Kind::OnlyIndex => scope(v.clone(), |a| ask(&a.only_index(), small, qs, st)),
        Kind::Twin => scope(zst_slice(big), |a| match a.make_twin(Virt(big)) {
            Ok(t) => ask(&t, big, qs, st),
            Err(_) => Err(format!("twin of equal length {} refused", big)),
        }),
        Kind::Clone => scope(zst_slice(big), |a| ask(&a.clone(), big, qs, st)),
    };
    r?;
    ensure!(v.iter().all(|x| *x == 7) && v.len() == small, "vetting changed the data");
    Ok(())
}

fn strat() -> impl Strategy<Value = Case> {
    let q = prop_oneof![
        num().prop_map(Q::Vet),
        (num(), num()).prop_map(|(a, b)| Q::VetRange(a, b)),
        (num_in(), num_in()).prop_map(|(a, b)| Q::VetRange(a, b)),
        (num_in(), num_in(), num()).prop_map(|(a, b, i)| Q::Contains(a, b, i)),
        (num_in(), num(), num_in()).prop_map(|(a, b, i)| Q::Contains(a, b, i)),
    ];
    (proptest::sample::select(&KINDS[..]), len_any(), prop::collection::vec(q, 1..16)).prop_map(|(kind, len, qs)| Case {
        kind,
        len,
        qs,
    })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 14u64 } else { 9 };
    let edge = |len: u64| {
        let mut v: Vec<Num> = (0..=len + 2).map(|x| Num::Small(x as u8)).collect();
        v.extend([Num::UMax(0), Num::UMax(1), Num::IMax(0), Num::IMax(1), Num::UMaxLen(0), Num::UMaxLen(1)]);
        v
    };
    Box::new((0..=max).flat_map(move |len| {
        KINDS.into_iter().flat_map(move |kind| {
            let e = edge(len);
            let mut cases = vec![];
            cases.push(Case { kind, len, qs: e.iter().map(|n| Q::Vet(*n)).collect() });
            for a in &e {
                cases.push(Case { kind, len, qs: e.iter().map(|b| Q::VetRange(*a, *b)).collect() });
                for b in e.iter().take(len as usize + 1) {
                    cases.push(Case { kind, len, qs: e.iter().map(|i| Q::Contains(*a, *b, *i)).collect() });
                }
            }
            cases
        })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "lengths 0..=9 (14 thorough), all kinds, all numbers near the bounds and at the extremes", small, test),
        group(
            "random",
            "container kind x any length x queries; non-trivial when queries are both accepted and refused",
            60000,
            strat,
            test,
        ),
    ]);
}
