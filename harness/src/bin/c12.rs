//! C12: swaps and rotations.
use indexing::container_traits::*;
use indexing::{scope, Container};
use vh::data::*;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Swap(Pos, Pos),
    Up(Pos, Pos, bool),
    Down(Pos, Pos, bool),
    SwapPtr(Pos, Pos),
    UpPtr(Pos, Pos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    ty: Ty,
    n: u32,
    guards: u8,
    ops: Vec<Op>,
}

fn swaps<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, model: &mut Vec<u64>, op: Op) -> Res
where
    A: GetUncheckedMut<Item = T>,
{
    if let Op::Swap(i, j) = op {
        if !model.is_empty() {
            let (i, j) = (i.idx(model.len()), j.idx(model.len()));
            let v = |k| c.vet(k).map_err(|_| format!("vet({}) refused", k));
            let (x, y) = (v(i)?, v(j)?);
            c.swap(x, y);
            model.swap(i, j);
        }
    }
    Ok(())
}

fn rotations<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, model: &mut Vec<u64>, op: Op) -> Res
where
    A: ContiguousMut<Item = T> + GetUncheckedMut,
{
    match op {
        Op::Up(a, b, ne) | Op::Down(a, b, ne) => {
            let up = matches!(op, Op::Up(..));
            let (a, b) = span(a, b, model.len());
            let r = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
            match (r.nonempty(), ne, up) {
                (Ok(r), true, true) => c.rotate1_up(r),
                (Ok(r), true, false) => c.rotate1_down(r),
                (_, _, true) => c.rotate1_up(r),
                (_, _, false) => c.rotate1_down(r),
            }
            if a < b {
                if up {
                    model[a..b].rotate_right(1)
                } else {
                    model[a..b].rotate_left(1)
                }
            }
            Ok(())
        }
        _ => swaps(c, model, op),
    }
}

#[cfg(feature = "ptr")]
fn pointers<'id, A, T: Elem>(c: &mut Container<'id, A>, model: &mut Vec<u64>, op: Op) -> Res
where
    A: ContiguousMut<Item = T> + GetUncheckedMut,
{
    let len = model.len();
    let nth = |c: &Container<'id, A>, n: usize| {
        let mut it = c.pointer_range().into_iter();
        it.nth(n).ok_or(format!("no pointer {}", n))
    };
    if std::mem::size_of::<T>() == 0 {
        return Ok(()); // pointer ranges of zero-sized elements are always empty
    }
    match op {
        Op::SwapPtr(i, j) if len > 0 => {
            let (i, j) = (i.idx(len), j.idx(len));
            let (p, q) = (nth(c, i)?, nth(c, j)?);
            c.swap_ptr(p, q);
            model.swap(i, j);
            Ok(())
        }
        Op::UpPtr(a, b) => {
            let (a, b) = span(a, b, len);
            if a < b {
                let p = nth(c, a)?;
                let q = nth(c, b - 1)?.after();
                let r = c.nonempty_range(p, q).map_err(|_| "nonempty_range refused".to_string())?;
                c.rotate1_prange(r);
                model[a..b].rotate_right(1);
            }
            Ok(())
        }
        _ => rotations(c, model, op),
    }
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..case.n as u32).map(|k| k * 7 % 251).collect();
    {
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let mut model = sigs(buf.s());
        let before = model.clone();
        let live = buf.total();
        let after = |got: Vec<u64>, model: &Vec<u64>, k: usize, op: Op| -> Res {
            ensure_eq!(got, *model, "elements after step {} ({:?})", k, op);
            Ok(())
        };
        match case.kind {
            0 | 1 => scope(buf.m(), |c| -> Res {
                if case.kind == 0 {
                    let mut c = c;
                    for (k, op) in case.ops.iter().enumerate() {
                        #[cfg(feature = "ptr")]
                        pointers(&mut c, &mut model, *op)?;
                        #[cfg(not(feature = "ptr"))]
                        rotations(&mut c, &mut model, *op)?;
                        after(sigs(&c[..]), &model, k, *op)?;
                    }
                } else {
                    let mut c = c.only_index();
                    for (k, op) in case.ops.iter().enumerate() {
                        rotations(&mut c, &mut model, *op)?;
                        after(sigs(&c[..]), &model, k, *op)?;
                    }
                }
                Ok(())
            })?,
            2 => {
                let mut v: Vec<T> = elems(&keys);
                scope(&mut v, |mut c| -> Res {
                    for (k, op) in case.ops.iter().enumerate() {
                        rotations(&mut c, &mut model, *op)?;
                        after(sigs(&c[..]), &model, k, *op)?;
                    }
                    Ok(())
                })?;
                after(sigs(&v), &model, case.ops.len(), Op::Swap(Pos::Lo(0), Pos::Lo(0)))?;
                drop(v);
                model = before.clone();
            }
            _ => {
                let mut q = Ring::wrapped(elems::<T>(&keys));
                let mut m2 = model.clone();
                scope(&mut q, |mut c| -> Res {
                    for (k, op) in case.ops.iter().enumerate() {
                        swaps(&mut c, &mut m2, *op)?;
                        let got = c.range().into_iter().map(|i| c[i].sig()).collect();
                        after(got, &m2, k, *op)?;
                    }
                    Ok(())
                })?;
            }
        }
        ensure_eq!(sigs(buf.s()), model, "slice afterwards");
        buf.guards_ok()?;
        if T::TRACKED {
            ledger_live(live)?;
        }
        st.nt(model != before || case.kind >= 2 && case.n > 1);
        st.count("steps", case.ops.len() as u64);
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        (pos(), pos()).prop_map(|(a, b)| Op::Swap(a, b)),
        (pos(), pos(), any::<bool>()).prop_map(|(a, b, n)| Op::Up(a, b, n)),
        (pos(), pos(), any::<bool>()).prop_map(|(a, b, n)| Op::Down(a, b, n)),
        (pos(), pos()).prop_map(|(a, b)| Op::SwapPtr(a, b)),
        (pos(), pos()).prop_map(|(a, b)| Op::UpPtr(a, b)),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![5 => 0u32..12, 1 => 0u32..260], 20)
}
fn large() -> impl Strategy<Value = Case> {
    from_len(big().prop_map(|n| n as u32), 5)
}
fn far() -> impl Strategy<Value = Case> {
    from_len(vast().prop_map(|n| n as u32), 5)
}
fn from_len(n: impl Strategy<Value = u32>, k: usize) -> impl Strategy<Value = Case> {
    (0u8..4, ty(), n, 0u8..3, prop::collection::vec(op(), 1..k)).prop_map(|(kind, ty, n, guards, ops)| Case { kind, ty, n, guards, ops })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 9u8 } else { 6 };
    Box::new((0..=max).flat_map(move |len| {
        let mut v = vec![];
        for a in 0..=len {
            for b in 0..=len {
                let (p, q) = (Pos::Lo(a), Pos::Lo(b));
                for op in [Op::Swap(p, q), Op::Up(p, q, true), Op::Up(p, q, false), Op::Down(p, q, true), Op::Down(p, q, false), Op::SwapPtr(p, q), Op::UpPtr(p, q)] {
                    for ty in [Ty::Kv, Ty::Trk, Ty::B3, Ty::ZTrk] {
                        for kind in 0..4 {
                            v.push(Case { kind, ty, n: len as u32, guards: (a + b) % 2, ops: vec![op] });
                        }
                    }
                }
            }
        }
        v.into_iter()
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every swap and rotation up to length 6 (9 thorough); non-trivial: elements move", small, test),
        group("random", "sequences of swaps and rotations over any container; non-trivial as above", 80000, strat, test),
        group("large", "the same up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 100, far, test),
        far::far::<12>(1000),
        giant::giant::<12>(2000),
    ]);
}
