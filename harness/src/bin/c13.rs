//! C13: growth.
use indexing::container_traits::*;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use vh::data::*;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Push,
    /// insert at a proven index / at an edge index
    Ins(Pos),
    InsEdge(Pos),
    /// insert at a held particle
    InsHeld(u16),
    Hold(Pos),
    HoldRange(Pos, Pos),
    Write(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    ty: Ty,
    n: u32,
    spare: u8,
    ops: Vec<Op>,
}

fn grow<'id, A, T: Elem>(
    mut c: Container<'id, A, indexing::container::OnlyIndex>,
    model: &mut Vec<u64>,
    ops: &[Op],
    st: &mut Stats,
) -> Res
where
    A: Pushable<Item = T> + GetUncheckedMut,
{
    let mut held: Vec<(Index<'id>, usize)> = vec![];
    let mut edges: Vec<(Index<'id, Unknown>, usize)> = vec![];
    let mut ranges: Vec<(Range<'id>, usize, usize)> = vec![];
    let mut proven: Vec<(Range<'id, NonEmpty>, usize, usize)> = vec![];
    let mut id = 5000u32;
    let mut grown = 0;
    for i in c.range() {
        held.push((i, held.len()));
    }
    for (k, op) in ops.iter().enumerate() {
        let len = model.len();
        id += 1;
        let make = || T::make(id % 200, id);
        match *op {
            Op::Push => {
                let t = make();
                let s = t.sig();
                let i = c.push(t);
                model.push(s);
                ensure_eq!(i.integer(), len, "step {}: index returned by push", k);
                ensure_eq!(c[i].sig(), s, "step {}: element at the index returned by push", k);
                held.push((i, len));
                grown += 1;
            }
            Op::Ins(p) if len > 0 => {
                let n = p.idx(len);
                let i = c.vet(n).map_err(|_| format!("vet({}) refused", n))?;
                let t = make();
                model.insert(n, t.sig());
                c.insert(i, t);
                held.push((i, n));
                grown += 1;
            }
            Op::InsEdge(p) => {
                let n = p.at(len);
                let i = c.vet_range(n..len).map_err(|_| "vet_range refused".to_string())?.first();
                let t = make();
                model.insert(n, t.sig());
                c.insert(i, t);
                edges.push((i, n));
                grown += 1;
            }
            Op::InsHeld(f) => {
                let t = make();
                // held from before earlier growth: index, edge index or end of a range
                let all = held.len() + edges.len() + ranges.len();
                if all > 0 {
                    let j = pick(f, all);
                    if j < held.len() {
                        model.insert(held[j].1, t.sig());
                        c.insert(held[j].0, t);
                    } else if j < held.len() + edges.len() {
                        let e = edges[j - held.len()];
                        model.insert(e.1, t.sig());
                        c.insert(e.0, t);
                    } else {
                        let r = ranges[j - held.len() - edges.len()];
                        model.insert(r.2, t.sig());
                        c.insert(r.0.past_the_end(), t);
                    }
                    grown += 1;
                }
            }
            Op::Hold(p) if len > 0 => {
                let n = p.idx(len);
                held.push((c.vet(n).map_err(|_| format!("vet({}) refused", n))?, n));
            }
            Op::HoldRange(a, b) => {
                let (a, b) = span(a, b, len);
                let r = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
                ranges.push((r, a, b));
                if let Ok(r) = r.nonempty() {
                    proven.push((r, a, b));
                }
            }
            Op::Write(f) if !held.is_empty() => {
                let (i, n) = held[pick(f, held.len())];
                let t = make();
                model[n] = t.sig();
                c[i] = t;
            }
            _ => {}
        }
        // the container is exactly the vector model
        ensure_eq!(c.len(), model.len(), "step {}: length after {:?}", k, op);
        let got: Vec<u64> = c.range().into_iter().map(|i| c[i].sig()).collect();
        ensure_eq!(got, *model, "step {}: elements after {:?}", k, op);
        if T::TRACKED {
            ledger_live(model.len())?;
        }
        // everything held is unchanged and in bounds
        for (i, n) in &held {
            ensure_eq!(i.integer(), *n, "step {}: a held index", k);
            ensure!(*n < c.len(), "step {}: held index {} with length {}", k, n, c.len());
            ensure_eq!(c[*i].sig(), model[*n], "step {}: element at held index {}", k, n);
        }
        for (i, n) in &edges {
            ensure!(i.integer() == *n && *n <= c.len(), "step {}: held edge index {} with length {}", k, n, c.len());
        }
        for (r, a, b) in &ranges {
            ensure!(r.start() == *a && r.end() == *b && *b <= c.len(), "step {}: held range {}..{}", k, a, b);
        }
        for (r, a, b) in &proven {
            ensure!(r.start() == *a && r.end() == *b && a < b && *b <= c.len(), "step {}: held range {}..{}", k, a, b);
            ensure_eq!(c[r.first()].sig(), model[*a], "step {}: first of held range", k);
            ensure_eq!(c[r.last()].sig(), model[*b - 1], "step {}: last of held range", k);
        }
    }
    st.nt(grown > 1 && held.len() > grown);
    st.count("grown", grown as u64);
    Ok(())
}

/// Slicing by held particles after growth (contiguous containers).
fn tail<'id, A, T: Elem>(c: &mut Container<'id, A, indexing::container::OnlyIndex>, model: &mut Vec<u64>) -> Res
where
    A: Pushable<Item = T> + Contiguous,
{
    let r = c.range();
    let (e, n) = (r.past_the_end(), r.end());
    for k in 0..3u32 {
        let t = T::make(k, 9000 + k);
        model.push(t.sig());
        let i = c.push(t);
        ensure_eq!(sigs(&c[r]), model[..n].to_vec(), "slice by a range from before growth");
        ensure_eq!(sigs(&c[e..]), model[n..].to_vec(), "slice from an edge index from before growth");
        ensure_eq!(sigs(&c[..e]), model[..n].to_vec(), "slice to an edge index from before growth");
        ensure_eq!(sigs(&c[..i]), model[..n + k as usize].to_vec(), "slice to a pushed index");
        ensure_eq!(sigs(&c[..]), *model, "full slice after growth");
    }
    Ok(())
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..case.n as u32).collect();
    let mut v: Vec<T> = Vec::with_capacity(keys.len() + case.spare as usize);
    v.extend(elems::<T>(&keys));
    let mut model = sigs(&v);
    let ops = &case.ops[..];
    match case.kind {
        #[cfg(feature = "std_cfg")]
        0 => {
            scope(&mut v, |c| grow(c.only_index(), &mut model, ops, st))?;
            scope(&mut v, |c| tail(&mut c.only_index(), &mut model))?;
            ensure_eq!(sigs(&v), model, "vector after the scope");
        }
        #[cfg(feature = "std_cfg")]
        1 => {
            let mut m = &mut v;
            scope(&mut m, |c| grow(c.only_index(), &mut model, ops, st))?;
            ensure_eq!(sigs(&v), model, "vector after the scope");
        }
        #[cfg(feature = "std_cfg")]
        2 => scope(std::mem::take(&mut v), |c| grow(c.only_index(), &mut model, ops, st))?,
        3 => {
            let mut g = Grow(std::mem::take(&mut v));
            scope(&mut g, |c| grow(c.only_index(), &mut model, ops, st))?;
            scope(&mut g, |c| tail(&mut c.only_index(), &mut model))?;
            ensure_eq!(sigs(&g.0), model, "container after the scope");
        }
        _ => {
            let mut g = Ring::wrapped(std::mem::take(&mut v));
            scope(&mut g, |c| grow(c.only_index(), &mut model, ops, st))?;
            ensure_eq!(g.0.iter().map(|x| x.sig()).collect::<Vec<_>>(), model, "container after the scope");
        }
    }
    drop(v);
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => Just(Op::Push),
        2 => pos().prop_map(Op::Ins),
        2 => pos().prop_map(Op::InsEdge),
        2 => any::<u16>().prop_map(Op::InsHeld),
        2 => pos().prop_map(Op::Hold),
        2 => (pos(), pos()).prop_map(|(a, b)| Op::HoldRange(a, b)),
        1 => any::<u16>().prop_map(Op::Write),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    from_len(0u32..9, 25)
}
fn large() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![3 => 200u32..1100, 1 => big().prop_map(|n| n as u32)], 6)
}
fn far() -> impl Strategy<Value = Case> {
    from_len(vast().prop_map(|n| n as u32), 4)
}
fn from_len(n: impl Strategy<Value = u32>, k: usize) -> impl Strategy<Value = Case> {
    (0u8..5, ty(), n, 0u8..4, prop::collection::vec(op(), 1..k))
        .prop_map(|(kind, ty, n, spare, ops)| Case { kind, ty, n, spare, ops })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 6u8 } else { 4 };
    Box::new((0..=max).flat_map(move |n| {
        let mut v = vec![];
        for kind in 0..5 {
            for ty in [Ty::Trk, Ty::Kv, Ty::ZTrk] {
                for spare in 0..2 {
                    for a in 0..=n {
                        let p = Pos::Lo(a);
                        for first in [Op::Push, Op::Ins(p), Op::InsEdge(p)] {
                            for b in 0..=n + 1 {
                                let q = Pos::Lo(b);
                                for second in [Op::Push, Op::Ins(q), Op::InsEdge(q)] {
                                    v.push(Case { kind, ty, n: n as u32, spare, ops: vec![Op::Hold(p), Op::HoldRange(p, q), first, second] });
                                }
                            }
                        }
                    }
                }
            }
        }
        v.into_iter()
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every pair of growth steps up to length 4 (6 thorough); non-trivial: grown twice while particles are held", small, test),
        group("random", "histories of growth, holding and writing over every growable container; non-trivial as above", 60000, strat, test),
        group("large", "the same from up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 100, far, test),
        far::far::<13>(400),
        giant::giant::<13>(2000),
    ]);
}
