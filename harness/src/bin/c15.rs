//! C15: scans return the maximal matching run.
#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
#[path = "../zst.rs"]
mod zst;
#[path = "../far.rs"]
mod far;
use indexing::container_traits::*;
use indexing::{scope, Container};
use vh::data::*;
use vh::hook::hook_tick;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    From,
    FromRev,
    Range,
    RangeNe,
    /// pointer scans
    Tail,
    TailEdge,
    PRange,
    PRangeNe,
    PRangeRev,
    PRangeRevNe,
}
const HOWS: [How; 10] = [
    How::From, How::FromRev, How::Range, How::RangeNe, How::Tail, How::TailEdge, How::PRange, How::PRangeNe, How::PRangeRev, How::PRangeRevNe,
];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Pred {
    /// by the element's key
    Key,
    /// by the number of the call: reject at call k
    At(u16),
    /// bits by call number
    Bits(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    ty: Ty,
    keys: Vec<u32>,
    guards: u8,
    how: How,
    a: Pos,
    b: Pos,
    pred: Pred,
}

/// Positions to be scanned in order -> how many are accepted.
struct Tracer<'a, T> {
    want: Vec<usize>,
    base: *const T,
    model: &'a [u64],
    pred: Pred,
    calls: usize,
    run: usize,
    stopped: bool,
    bad: Res,
}

impl<'a, T: Elem> Tracer<'a, T> {
    fn call(&mut self, x: &T) -> bool {
        hook_tick();
        let k = self.calls;
        self.calls += 1;
        let ok = match self.pred {
            Pred::Key => x.key() % 2 == 0,
            Pred::At(n) => k < n as usize,
            Pred::Bits(b) => k < 32 && b >> k & 1 == 1,
        };
        if self.bad.is_ok() {
            self.bad = (|| {
                ensure!(!self.stopped, "the predicate is called again after it rejected an element");
                ensure!(k < self.want.len(), "the predicate is called {} times, there are {} elements to scan", k + 1, self.want.len());
                if std::mem::size_of::<T>() > 0 {
                    let at = pos_of(self.base, self.model.len(), x)?;
                    ensure_eq!(at, self.want[k], "position of the element of call {}", k);
                }
                ensure_eq!(x.sig(), self.model[self.want[k]], "element of call {}", k);
                Ok(())
            })();
        }
        if ok {
            self.run += 1
        } else {
            self.stopped = true
        }
        ok
    }
}

fn ab<P>(r: indexing::Range<P>) -> (usize, usize) {
    (r.start(), r.end())
}

fn scan<'id, A, M, T: Elem>(c: &Container<'id, A, M>, base: *const T, model: &[u64], case: &Case, st: &mut Stats) -> Result<bool, String>
where
    A: Contiguous<Item = T>,
{
    let len = model.len();
    let (a, b) = span(case.a, case.b, len);
    let mut t = Tracer { want: vec![], base, model, pred: case.pred, calls: 0, run: 0, stopped: false, bad: Ok(()) };
    match case.how {
        How::From if len > 0 => {
            let n = case.a.idx(len);
            let i = c.vet(n).map_err(|_| "vet refused".to_string())?;
            t.want = (n + 1..len).collect();
            let mut kept: Vec<&T> = vec![];
            let r = c.scan_from(i, |x| {
                kept.push(x);
                t.call(x)
            });
            t.bad.clone()?;
            ensure_eq!(ab(r), (n, n + 1 + t.run), "scan_from {} of {} accepting {}", n, len, t.run);
            ensure!(kept.len() == t.calls && kept.iter().enumerate().all(|(k, x)| x.sig() == model[n + 1 + k]), "references kept from the scan changed");
        }
        How::FromRev if len > 0 => {
            let n = case.a.idx(len);
            let i = c.vet(n).map_err(|_| "vet refused".to_string())?;
            t.want = (0..n).rev().collect();
            let r = c.scan_from_rev(i, |x| t.call(x));
            t.bad.clone()?;
            ensure_eq!(ab(r), (n - t.run, n + 1), "scan_from_rev {} accepting {}", n, t.run);
        }
        How::Range | How::RangeNe => {
            let r = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
            t.want = (a..b).collect();
            let (x, y) = match (r.nonempty(), case.how) {
                (Ok(r), How::RangeNe) => c.scan_range(r, |x| t.call(x)),
                _ => c.scan_range(r, |x| t.call(x)),
            };
            t.bad.clone()?;
            ensure_eq!((ab(x), ab(y)), ((a, a + t.run), (a + t.run, b)), "scan_range {}..{} accepting {}", a, b, t.run);
        }
        _ => return Ok(false),
    }
    ensure!(t.calls == t.want.len().min(t.run + 1), "the scan made {} calls, accepted {} of {} elements", t.calls, t.run, t.want.len());
    st.nt(t.run > 0 && t.stopped);
    st.label_if(t.run == t.want.len() && t.run > 0, "ran to the end");
    st.label_if(t.want.is_empty(), "nothing to scan");
    Ok(true)
}

#[cfg(feature = "ptr")]
fn pscan<'id, A, T: Elem>(c: &Container<'id, A>, base: *const T, model: &[u64], case: &Case, st: &mut Stats) -> Res
where
    A: Contiguous<Item = T>,
{
    use indexing::pointer::{PIndex, PRange};
    if scan(c, base, model, case, st)? || std::mem::size_of::<T>() == 0 {
        return Ok(());
    }
    let len = model.len();
    let (a, b) = span(case.a, case.b, len);
    let mut t = Tracer { want: vec![], base, model, pred: case.pred, calls: 0, run: 0, stopped: false, bad: Ok(()) };
    fn at<'id, A: Contiguous>(c: &Container<'id, A>, n: usize) -> PIndex<'id, A::Item, indexing::Unknown> {
        let mut it = c.pointer_range().into_iter();
        for _ in 0..n {
            it.next();
        }
        it.into_range().first()
    }
    fn ab<'id, A: Contiguous, P>(c: &Container<'id, A>, r: PRange<'id, A::Item, P>) -> (usize, usize) {
        (c.distance_to(r.first()), c.distance_to(r.past_the_end()))
    }
    let sub = |a: usize, b: usize| {
        let mut it = c.pointer_range().into_iter();
        for _ in 0..a {
            it.next();
        }
        for _ in b..len {
            it.next_back();
        }
        it.into_range()
    };
    match case.how {
        How::Tail if len > 0 => {
            let n = case.a.idx(len);
            let p = c.pointer_range().into_iter().nth(n).ok_or("no pointer")?;
            t.want = (0..n).rev().collect();
            let r = c.scan_tail_(p, |x| t.call(x));
            t.bad.clone()?;
            ensure_eq!(ab(c, r), (n - t.run, n + 1), "scan_tail_ {} accepting {}", n, t.run);
        }
        How::TailEdge => {
            let n = case.a.at(len);
            let p = at(c, n);
            t.want = (0..n).rev().collect();
            let r = c.scan_tail_(p, |x| t.call(x));
            t.bad.clone()?;
            ensure_eq!(ab(c, r), (n - t.run, (n + 1).min(len)), "scan_tail_ {} (edge) of {} accepting {}", n, len, t.run);
        }
        How::PRange | How::PRangeNe => {
            let r = sub(a, b);
            t.want = (a..b).collect();
            let (x, y) = match (r.nonempty(), case.how) {
                (Ok(r), How::PRangeNe) => c.scan_pointer_range(r, |x| t.call(x)),
                _ => c.scan_pointer_range(r, |x| t.call(x)),
            };
            t.bad.clone()?;
            ensure_eq!((ab(c, x), ab(c, y)), ((a, a + t.run), (a + t.run, b)), "scan_pointer_range {}..{} accepting {}", a, b, t.run);
        }
        How::PRangeRev | How::PRangeRevNe => {
            let r = sub(a, b);
            t.want = (a..b).rev().collect();
            let (x, y) = match (r.nonempty(), case.how) {
                (Ok(r), How::PRangeRevNe) => c.scan_pointer_range_rev(r, |x| t.call(x)),
                _ => c.scan_pointer_range_rev(r, |x| t.call(x)),
            };
            t.bad.clone()?;
            let m = b - t.run;
            // the accepted run is at the end of the range
            ensure_eq!((ab(c, x), ab(c, y)), ((a, m), (m, b)), "scan_pointer_range_rev {}..{} accepting {}", a, b, t.run);
        }
        _ => return Ok(()),
    }
    ensure!(t.calls == t.want.len().min(t.run + 1), "the scan made {} calls, accepted {} of {} elements", t.calls, t.run, t.want.len());
    st.nt(t.run > 0 && t.stopped);
    st.label_if(t.run == t.want.len() && t.run > 0, "ran to the end");
    st.label_if(t.want.is_empty(), "nothing to scan");
    Ok(())
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    let mut buf: Buf<T> = Buf::new(&case.keys, case.guards as usize);
    let model = sigs(buf.s());
    let base = buf.s().as_ptr();
    match case.kind {
        #[cfg(feature = "ptr")]
        0 => scope(buf.s(), |c| pscan(&c, base, &model, case, st))?,
        #[cfg(feature = "ptr")]
        1 => scope(buf.m(), |c| pscan(&c, base, &model, case, st))?,
        2 => scope(buf.m(), |c| scan(&c.only_index(), base, &model, case, st).map(|_| ()))?,
        _ => {
            let v: Vec<T> = elems(&case.keys);
            let base = v.as_ptr();
            scope(&v[..], |c| scan(&c, base, &model, case, st).map(|_| ()))?
        }
    }
    ensure_eq!(sigs(buf.s()), model, "data after the scan");
    buf.guards_ok()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn strat() -> impl Strategy<Value = Case> {
    // runs of equal parity
    from_keys(prop_oneof![
        3 => keys_small(20),
        2 => prop::collection::vec((0u32..5, 1usize..8), 0..8)
            .prop_map(|v| v.into_iter().flat_map(|(k, n)| std::iter::repeat(k).take(n)).collect::<Vec<u32>>()),
        1 => (0usize..200, 0usize..200).prop_map(|(a, b)| [vec![2; a], vec![1], vec![2; b]].concat()),
    ])
}
/// One element in the way, far out
fn large() -> impl Strategy<Value = Case> {
    from_keys(prop_oneof![
        (big(), any::<u16>(), 0u32..2).prop_map(|(n, at, k)| { let mut v = vec![2 - k; n]; v[pick(at, n)] = 1 + k; v }),
        (big(), 0u32..2).prop_map(|(n, k)| vec![k; n]),
    ])
}
fn far() -> impl Strategy<Value = Case> {
    from_keys(prop_oneof![
        (vast(), any::<u16>(), 0u32..2).prop_map(|(n, at, k)| { let mut v = vec![2 - k; n]; v[pick(at, n)] = 1 + k; v }),
        (vast(), 0u32..8).prop_map(|(n, k)| vec![k / 7; n]),
        (vast(), 0usize..3).prop_map(|(n, k)| { let mut v = vec![0; n]; v[n - 1 - k] = 1; v }),
    ])
}
fn from_keys(keys: impl Strategy<Value = Vec<u32>>) -> impl Strategy<Value = Case> {
    let pred = prop_oneof![Just(Pred::Key), (0u16..12).prop_map(Pred::At), any::<u32>().prop_map(Pred::Bits), Just(Pred::At(9999))];
    (0u8..4, ty(), keys, 0u8..3, proptest::sample::select(&HOWS[..]), pos(), pos(), pred)
        .prop_map(|(kind, ty, keys, guards, how, a, b, pred)| Case { kind, ty, keys, guards, how, a, b, pred })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 6u8 } else { 4 };
    Box::new(HOWS.into_iter().flat_map(move |how| {
        (0..=max).flat_map(move |len| {
            (0..1u32 << len).flat_map(move |bits| {
                let mut v = vec![];
                for a in 0..=len {
                    for b in a..=len {
                        for kind in 0..4u8 {
                            v.push(Case {
                                kind,
                                ty: [Ty::Kv, Ty::B3, Ty::Str][bits as usize % 3],
                                keys: (0..len).map(|k| bits >> k & 1).collect(),
                                guards: (a + b) % 2,
                                how,
                                a: Pos::Lo(a),
                                b: Pos::Lo(b),
                                pred: Pred::Key,
                            });
                        }
                    }
                }
                v
            })
        })
    }))
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[13, 14, 15], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every scan of every 0/1 content up to length 4 (6 thorough); non-trivial: some element accepted, then one rejected", small, test),
        group("random", "container x element type x contents x scan x predicate (also by call number); non-trivial as above", 150000, strat, test),
        group("large", "runs of up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "runs beyond 65536 elements; non-trivial as above", 200, far, test),
        far::far::<15>(1000),
        zst::zst::<15>(20000),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<15>(2000),
    ]);
}
