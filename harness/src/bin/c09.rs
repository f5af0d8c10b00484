//! C09: range iteration.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Next,
    Back,
    Nth(u8),
    NthBack(u8),
    /// nth far past the end
    NthFar(u8),
    NthBackFar(u8),
    /// search for the k-th remaining index (find), from the front or the back
    Find(u8),
    RFind(u8),
    /// stop in the middle of a fold
    TryFold(u8),
    TryRFold(u8),
    /// position(), all(), any() stopping at the k-th
    Position(u8),
    All(u8),
    Any(u8),
    /// by_ref with take and skip
    Take(u8),
    /// keep a copy here and go on with the original
    Copy,
    /// swap with the kept copy
    Switch,
    Range,
    Hint,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0: no memory, 1: zero-sized, 2: slice, 3..: pointers
    kind: u8,
    ty: u8,
    len: u64,
    r: (Pos, Pos),
    ops: Vec<Op>,
    ne: bool,
}

/// Remaining part (lo, hi) of both iterators.
fn drive<It, X>(
    mut it: It,
    (a, b): (usize, usize),
    ops: &[Op],
    num: &dyn Fn(&X) -> Result<usize, String>,
    left: &dyn Fn(&It) -> Result<(usize, usize), String>,
    len: &dyn Fn(&It) -> Option<usize>,
    // methods that need ordered items, with the indices left
    ordered: &dyn Fn(It, (usize, usize)) -> Res,
    st: &mut Stats,
) -> Res
where
    It: Iterator<Item = X> + DoubleEndedIterator + Clone,
{
    let mut m = (a, b);
    let mut kept = (it.clone(), m);
    let (mut fronts, mut backs, mut ends) = (0, 0, 0);
    for (k, op) in ops.iter().enumerate() {
        let rem = m.1 - m.0;
        match *op {
            Op::Next | Op::Nth(_) => {
                let skip = if let Op::Nth(n) = *op { n as usize } else { 0 };
                let want = (skip < rem).then_some(m.0.wrapping_add(skip));
                let got = if skip > 0 { it.nth(skip) } else { it.next() };
                let got = match got {
                    Some(x) => Some(num(&x)?),
                    None => None,
                };
                ensure_eq!(got, want, "step {}: {:?} with {}..{} left", k, op, m.0, m.1);
                m.0 = if want.is_some() { m.0 + skip + 1 } else { m.1 };
                fronts += want.is_some() as u32;
                ends += want.is_none() as u32;
                // after running out, whatever is left is empty; its place is not fixed
                if want.is_none() {
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                }
            }
            Op::Back | Op::NthBack(_) => {
                let skip = if let Op::NthBack(n) = *op { n as usize } else { 0 };
                let want = (skip < rem).then(|| m.1 - 1 - skip);
                let got = if skip > 0 { it.nth_back(skip) } else { it.next_back() };
                let got = match got {
                    Some(x) => Some(num(&x)?),
                    None => None,
                };
                ensure_eq!(got, want, "step {}: {:?} with {}..{} left", k, op, m.0, m.1);
                m.1 = if want.is_some() { m.1 - skip - 1 } else { m.0 };
                backs += want.is_some() as u32;
                ends += want.is_none() as u32;
                if want.is_none() {
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                }
            }
            Op::NthFar(x) | Op::NthBackFar(x) => {
                // the default implementation walks to the end
                if rem <= 5000 {
                    let n = usize::MAX - x as usize;
                    let got = if matches!(op, Op::NthFar(_)) { it.nth(n) } else { it.nth_back(n) };
                    ensure!(got.is_none(), "step {}: {:?} yields with {}..{} left", k, op, m.0, m.1);
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                    ends += 1;
                }
            }
            Op::Find(n) | Op::TryFold(n) | Op::Position(n) | Op::All(n) | Op::Any(n) if rem <= 5000 || (n as usize) < rem => {
                let n = n as usize;
                let mut seen = vec![];
                let mut note = |x: X| {
                    seen.push(num(&x));
                    seen.len() == n + 1
                };
                let full = n >= rem;
                let ok = match *op {
                    Op::Find(_) => it.find_map(|x| note(x).then_some(())).is_none() == full,
                    Op::TryFold(_) => it.try_fold((), |(), x| if note(x) { Err(()) } else { Ok(()) }).is_ok() == full,
                    Op::Position(_) => it.position(|x| note(x)) == (!full).then_some(n),
                    Op::All(_) => it.all(|x| !note(x)) == full,
                    _ => it.any(|x| note(x)) != full,
                };
                ensure!(ok, "step {}: result of {:?} with {}..{} left", k, op, m.0, m.1);
                let seen: Vec<usize> = seen.into_iter().collect::<Result<_, _>>()?;
                ensure_eq!(seen, (m.0..m.1).take(n + 1).collect::<Vec<_>>(), "step {}: indices visited by {:?}", k, op);
                m.0 += seen.len();
                fronts += 1;
                if full {
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                    ends += 1;
                }
            }
            Op::RFind(n) | Op::TryRFold(n) if rem <= 5000 || (n as usize) < rem => {
                let n = n as usize;
                let mut seen = vec![];
                let mut note = |x: &X| {
                    seen.push(num(x));
                    seen.len() == n + 1
                };
                let full = n >= rem;
                let ok = match *op {
                    Op::RFind(_) => it.rfind(|x| note(x)).is_none() == full,
                    _ => it.try_rfold((), |(), x| if note(&x) { Err(()) } else { Ok(()) }).is_ok() == full,
                };
                ensure!(ok, "step {}: result of {:?} with {}..{} left", k, op, m.0, m.1);
                let seen: Vec<usize> = seen.into_iter().collect::<Result<_, _>>()?;
                ensure_eq!(seen, (m.0..m.1).rev().take(n + 1).collect::<Vec<_>>(), "step {}: indices visited by {:?}", k, op);
                m.1 -= seen.len();
                backs += 1;
                if full {
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                    ends += 1;
                }
            }
            Op::Find(_) | Op::TryFold(_) | Op::Position(_) | Op::All(_) | Op::Any(_) | Op::RFind(_) | Op::TryRFold(_) => {}
            Op::Take(n) => {
                let n = n as usize;
                let mut seen = vec![];
                for x in it.by_ref().take(n) {
                    seen.push(num(&x)?);
                }
                ensure_eq!(seen, (m.0..m.1).take(n).collect::<Vec<_>>(), "step {}: indices visited by {:?}", k, op);
                m.0 += seen.len();
                if n > rem {
                    let (x, y) = left(&it)?;
                    ensure!(x == y && a <= x && x <= b, "step {}: an exhausted iterator has {}..{} left", k, x, y);
                    m = (x, y);
                    ends += 1;
                }
            }
            Op::Copy => kept = (it.clone(), m),
            Op::Switch => {
                std::mem::swap(&mut it, &mut kept.0);
                std::mem::swap(&mut m, &mut kept.1);
            }
            Op::Range => ensure_eq!(left(&it)?, m, "step {}: range recovered from the iterator", k),
            Op::Hint => {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= rem && hi.map_or(true, |h| h >= rem), "step {}: size_hint ({}, {:?}) with {} left", k, lo, hi, rem);
                if let Some(l) = len(&it) {
                    ensure_eq!(l, rem, "step {}: len()", k);
                    ensure_eq!((lo, hi), (rem, Some(rem)), "step {}: size_hint of an exact iterator", k);
                }
            }
        }
    }
    // finish both, from different sides
    let rem = m.1 - m.0;
    if rem <= 5000 {
        let c = it.clone();
        ensure_eq!(c.clone().count(), rem, "count()");
        let mut front = vec![];
        for x in c.clone() {
            front.push(num(&x)?);
            ensure!(front.len() <= rem, "the iterator yields more than {} indices", rem);
        }
        ensure!(front.iter().copied().eq(m.0..m.1), "forward iteration over {}..{} gave {:?}", m.0, m.1, trunc(&format!("{:?}", front)));
        let mut back = vec![];
        for x in c.clone().rev() {
            back.push(num(&x)?);
            ensure!(back.len() <= rem, "the iterator yields more than {} indices from the back", rem);
        }
        ensure!(back.iter().copied().eq((m.0..m.1).rev()), "backward iteration over {}..{} gave {:?}", m.0, m.1, trunc(&format!("{:?}", back)));
        let last = match c.clone().last() {
            Some(x) => Some(num(&x)?),
            None => None,
        };
        ensure_eq!(last, (m.0..m.1).last(), "last()");
        let mut acc = vec![];
        c.clone().fold((), |(), x| acc.push(num(&x)));
        ensure!(acc.iter().map(|x| x.clone()).eq((m.0..m.1).map(Ok)), "fold() over {}..{} gave {}", m.0, m.1, trunc(&format!("{:?}", acc)));
        acc.clear();
        c.clone().rfold((), |(), x| acc.push(num(&x)));
        ensure!(acc.iter().map(|x| x.clone()).eq((m.0..m.1).rev().map(Ok)), "rfold() over {}..{} gave {}", m.0, m.1, trunc(&format!("{:?}", acc)));
        acc.clear();
        c.clone().rev().for_each(|x| acc.push(num(&x)));
        ensure!(acc.iter().map(|x| x.clone()).eq((m.0..m.1).rev().map(Ok)), "rev().for_each() over {}..{} gave {}", m.0, m.1, trunc(&format!("{:?}", acc)));
        let step = 1 + ops.len() % 5;
        let got = c.clone().step_by(step).map(|x| num(&x)).collect::<Result<Vec<_>, _>>()?;
        ensure_eq!(got, (m.0..m.1).step_by(step).collect::<Vec<_>>(), "step_by({})", step);
        let got = c.clone().rev().skip(step).map(|x| num(&x)).collect::<Result<Vec<_>, _>>()?;
        ensure_eq!(got, (m.0..m.1).rev().skip(step).collect::<Vec<_>>(), "rev().skip({})", step);
        let key = |x: &X| num(x).unwrap_or(usize::MAX);
        ensure_eq!(c.clone().min_by_key(key).map(|x| key(&x)), (m.0..m.1).min(), "min_by_key()");
        ensure_eq!(c.clone().max_by_key(key).map(|x| key(&x)), (m.0..m.1).max(), "max_by_key()");
        ordered(c.clone(), m)?;
        let mut e = c;
        for _ in 0..rem {
            e.next();
        }
        for _ in 0..3 {
            ensure!(e.next().is_none() && e.next_back().is_none(), "an ended iterator yields again");
        }
    }
    ensure_eq!(left(&it)?, m, "range recovered at the end");
    ensure_eq!(left(&kept.0)?, kept.1, "the copy moved");
    st.nt(fronts > 0 && backs > 0);
    st.label_if(ends > 0, "ran out");
    Ok(())
}

fn by_index<'id, A: Trustworthy>(c: &Container<'id, A>, len: usize, case: &Case, st: &mut Stats) -> Res {
    let (a, b) = span(case.r.0, case.r.1, len);
    let r: Range = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
    let it = match r.nonempty() {
        Ok(n) if case.ne => n.into_iter(),
        _ => r.into_iter(),
    };
    drive(
        it,
        (a, b),
        &case.ops,
        &|x: &indexing::Index<'id>| Ok(x.integer()),
        &|it| {
            let r = it.into_range();
            Ok((r.start(), r.end()))
        },
        &|_| None,
        &|it, (x, y)| {
            let n = |i: Option<indexing::Index<'id>>| i.map(|i| i.integer());
            ensure_eq!(n(it.clone().min()), (x..y).min(), "min() of {}..{}", x, y);
            ensure_eq!(n(it.clone().max()), (x..y).max(), "max() of {}..{}", x, y);
            ensure!(it.clone().eq(it.clone()) && it.clone().cmp(it.clone()) == std::cmp::Ordering::Equal, "an iterator differs from its copy");
            ensure!(it.clone().is_sorted(), "is_sorted() of {}..{}", x, y);
            ensure_eq!(it.clone().lt(it.clone().rev()), (x..y).lt((x..y).rev()), "order of {}..{} and its reverse", x, y);
            Ok(())
        },
        st,
    )
}

#[cfg(feature = "ptr")]
fn by_pointer<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    use indexing::pointer::PIndex;
    let len = (if case.kind == 5 && case.ty != 4 { case.len % 5000 } else { case.len % 70 }) as usize;
    let buf: Buf<T> = Buf::new(&vec![0; len], (case.ty % 3) as usize);
    let (a, b) = span(case.r.0, case.r.1, len);
    scope(buf.s(), |c| {
        let base = buf.s().as_ptr();
        // a sub-range as a pointer range, built by iterating to its ends
        let mut whole = c.pointer_range().into_iter();
        for _ in 0..a {
            whole.next();
        }
        for _ in b..len {
            whole.next_back();
        }
        let r = whole.into_range();
        let it = match r.nonempty() {
            Ok(n) if case.ne => n.into_iter(),
            _ => r.into_iter(),
        };
        drive(
            it,
            (a, b),
            &case.ops,
            &|&p: &PIndex<T>| {
                let at = pos_of(base, len, p.ptr())?;
                ensure!(std::ptr::eq(&c[p], p.ptr()), "the pointer reaches another element");
                ensure_eq!(c.distance_to(p), at, "distance_to");
                Ok(at)
            },
            &|it| {
                let r = it.into_range();
                let s = c.distance_to(r.first());
                ensure!(s + r.len() <= len, "recovered range outside the slice");
                Ok((s, s + r.len()))
            },
            &|it| Some(ExactSizeIterator::len(it)),
            &|_, _| Ok(()),
            st,
        )
    })
}

fn test(case: &Case, st: &mut Stats) -> Res {
    let len = case.len as usize;
    match case.kind {
        0 => scope(Virt(len), |c| by_index(&c, len, case, st)),
        1 => scope(zst_slice(len), |c| by_index(&c, len, case, st)),
        2 => scope(&vec![1u8; len % 3000][..], |c| by_index(&c, len % 3000, case, st)),
        #[cfg(feature = "ptr")]
        _ => match case.ty {
            0 => by_pointer::<u8>(case, st),
            1 => by_pointer::<u64>(case, st),
            2 => by_pointer::<B3>(case, st),
            3 => by_pointer::<Big>(case, st),
            4 => by_pointer::<T12>(case, st),
            5 => by_pointer::<W32>(case, st),
            _ => by_pointer::<Str>(case, st),
        },
        #[cfg(not(feature = "ptr"))]
        _ => Ok(()),
    }
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => Just(Op::Next),
        6 => Just(Op::Back),
        1 => (0u8..6).prop_map(Op::Nth),
        1 => (0u8..6).prop_map(Op::NthBack),
        1 => (0u8..6).prop_map(Op::Take),
        1 => prop_oneof![
            (0u8..3).prop_map(Op::NthFar), (0u8..3).prop_map(Op::NthBackFar),
            (0u8..5).prop_map(Op::Find), (0u8..5).prop_map(Op::RFind),
            (0u8..5).prop_map(Op::TryFold), (0u8..5).prop_map(Op::TryRFold),
            (0u8..5).prop_map(Op::Position), (0u8..5).prop_map(Op::All), (0u8..5).prop_map(Op::Any),
        ],
        1 => Just(Op::Copy),
        1 => Just(Op::Switch),
        2 => Just(Op::Range),
        1 => Just(Op::Hint),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    (0u8..6, 0u8..7, len_any(), (pos(), pos()), prop::collection::vec(op(), 0..40), any::<bool>())
        .prop_map(|(kind, ty, len, r, ops, ne)| Case { kind, ty, len, r, ops, ne })
}

/// Every interleaving of front and back steps.
fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 10u32 } else { 7 };
    Box::new((0..=max).flat_map(move |len| {
        (0..1u32 << (len + 1)).flat_map(move |bits| {
            [0u8, 1, 2, 3].into_iter().map(move |kind| {
                let mut ops = vec![];
                for k in 0..=len {
                    ops.push(if bits >> k & 1 == 0 { Op::Next } else { Op::Back });
                    ops.push(Op::Range);
                    ops.push(Op::Hint);
                }
                ops.push(Op::Next);
                ops.push(Op::Back);
                Case {
                    kind,
                    ty: (bits % 7) as u8,
                    len: len as u64 + 2,
                    r: (Pos::Lo(1), Pos::Hi(1)),
                    ops,
                    ne: bits & 1 == 0,
                }
            })
        })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every interleaving of front and back steps up to length 7 (10 thorough); non-trivial: steps from both ends succeed", small, test),
        group("random", "iterator operation sequences on index and pointer ranges; non-trivial as above", 80000, strat, test),
    ]);
}
