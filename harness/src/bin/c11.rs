//! C11: paired access.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use vh::data::*;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
#[path = "../zst.rs"]
mod zst;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    ty: Ty,
    n: u32,
    guards: u8,
    r: (Pos, Pos),
    s: (Pos, Pos),
    /// 1: s starts where r ends; 2: s ends where r starts; 3: same start
    glue: u8,
    ne: (bool, bool),
}

/// Both ranges with each combination of proofs.
macro_rules! with_proofs {
    ($r:expr, $s:expr, $ne:expr, |$x:ident, $y:ident| $e:expr) => {
        match ($r.nonempty(), $s.nonempty(), $ne) {
            (Ok($x), Ok($y), (true, true)) => $e,
            (Ok($x), _, (true, _)) => {
                let $y = $s;
                $e
            }
            (_, Ok($y), (_, true)) => {
                let $x = $r;
                $e
            }
            _ => {
                let ($x, $y) = ($r, $s);
                $e
            }
        }
    };
}

fn spans(case: &Case, len: usize) -> ((usize, usize), (usize, usize)) {
    let (a, b) = span(case.r.0, case.r.1, len);
    let s = span(case.s.0, case.s.1, len);
    let s = match case.glue {
        1 => (b, s.1.max(b)),
        2 => (s.0.min(a), a),
        3 => (a, s.1.max(a)),
        _ => s,
    };
    ((a, b), s)
}

fn rng<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, (a, b): (usize, usize)) -> Result<Range<'id>, String> {
    c.vet_range(a..b).map_err(|_| format!("vet_range({}..{}) refused", a, b))
}

fn twice<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, base: *const T, model: &mut Vec<u64>, case: &Case, st: &mut Stats) -> Res
where
    A: ContiguousMut<Item = T>,
{
    let len = model.len();
    let ((a, b), (d, e)) = spans(case, len);
    let (r, s) = (rng(c, (a, b))?, rng(c, (d, e))?);
    let what = format!("index_twice({}..{}, {}..{})", a, b, d, e);
    let res: Result<(&mut [T], &mut [T]), _> = with_proofs!(r, s, case.ne, |r, s| c.index_twice(r, s));
    match res {
        Ok((x, y)) => {
            ensure!(b <= d, "{} accepted", what);
            ensure_eq!((x.len(), y.len()), (b - a, e - d), "lengths from {}", what);
            if std::mem::size_of::<T>() > 0 {
                ensure!(
                    x.as_ptr() == base.wrapping_add(a) && y.as_ptr() == base.wrapping_add(d),
                    "{} gives slices at other places",
                    what
                );
            }
            ensure_eq!(sigs(x), model[a..b].to_vec(), "first slice of {}", what);
            ensure_eq!(sigs(y), model[d..e].to_vec(), "second slice of {}", what);
            // both at the same time are writable
            let n = x.len().min(y.len());
            for k in 0..n {
                std::mem::swap(&mut x[k], &mut y[k]);
                model.swap(a + k, d + k);
            }
            st.label_if(b == d, "touching");
            st.nt(b > a && e > d);
        }
        Err(_) => {
            ensure!(b > d, "{} refused", what);
            st.label("refused");
            st.nt(b > a && e > d);
        }
    }
    Ok(())
}

fn zip<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, at: &dyn Fn(*const T) -> Result<Option<usize>, String>, model: &[u64], case: &Case, st: &mut Stats) -> Res
where
    A: GetUncheckedMut<Item = T>,
{
    let len = model.len();
    let ((a, b), (d, e)) = spans(case, len);
    let n = (b - a).min(e - d);
    let (r, s) = (rng(c, (a, b))?, rng(c, (d, e))?);
    let what = format!("zip_mut_raw({}..{}, {}..{})", a, b, d, e);
    let mut seen = 0;
    let mut bad: Res = Ok(());
    let mut f = |x: *mut T, y: *mut T| {
        vh::hook::hook_tick();
        if bad.is_ok() {
            bad = (|| {
                ensure!(seen < n, "{} calls more than {} times", what, n);
                if let (Some(i), Some(j)) = (at(x)?, at(y)?) {
                    ensure_eq!((i, j), (a + seen, d + seen), "pair {} of {}", seen, what);
                }
                let (i, j) = unsafe { ((*x).sig(), (*y).sig()) };
                ensure_eq!((i, j), (model[a + seen], model[d + seen]), "elements of pair {} of {}", seen, what);
                Ok(())
            })();
        }
        seen += 1;
    };
    with_proofs!(r, s, case.ne, |r, s| c.zip_mut_raw(r, s, &mut f));
    bad?;
    ensure_eq!(seen, n, "number of pairs of {}", what);
    st.nt(n > 1);
    st.label_if(n > 0 && a < e && d < b, "overlapping zip");
    Ok(())
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..case.n as u32).map(|k| k * 7 % 251).collect();
    {
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let base = buf.s().as_ptr();
        let len = keys.len();
        let at = move |p: *const T| pos_of(base, len, p).map(|i| (std::mem::size_of::<T>() > 0).then_some(i));
        let mut model = sigs(buf.s());
        match case.kind {
            0 => scope(buf.m(), |mut c| {
                twice(&mut c, base, &mut model, case, st)?;
                zip(&mut c, &at, &model, case, st)
            })?,
            1 => scope(&mut buf.m(), |c| {
                let mut c = c.only_index();
                zip(&mut c, &at, &model, case, st)?;
                twice(&mut c, base, &mut model, case, st)
            })?,
            2 => {
                let mut v: Vec<T> = elems(&keys);
                let base = v.as_ptr();
                let at = move |p: *const T| pos_of(base, len, p).map(|i| (std::mem::size_of::<T>() > 0).then_some(i));
                scope(&mut v, |mut c| {
                    twice(&mut c, base, &mut model, case, st)?;
                    zip(&mut c, &at, &model, case, st)
                })?;
                ensure_eq!(sigs(&v), model, "vector afterwards");
                model = sigs(buf.s());
            }
            _ => {
                let mut q = Ring::wrapped(elems::<T>(&keys));
                scope(&mut q, |mut c| zip(&mut c, &|_| Ok(None), &model, case, st))?;
                ensure_eq!(q.0.iter().map(|x| x.sig()).collect::<Vec<_>>(), model, "ring afterwards");
            }
        }
        ensure_eq!(sigs(buf.s()), model, "data afterwards");
        buf.guards_ok()?;
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn strat() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![4 => 0u32..14, 1 => 0u32..300])
}
fn large() -> impl Strategy<Value = Case> {
    from_len(big().prop_map(|n| n as u32))
}
fn far() -> impl Strategy<Value = Case> {
    from_len(vast().prop_map(|n| n as u32))
}
fn from_len(n: impl Strategy<Value = u32>) -> impl Strategy<Value = Case> {
    (0u8..4, ty(), n, 0u8..3, (pos(), pos()), (pos(), pos()), 0u8..7, any::<(bool, bool)>())
        .prop_map(|(kind, ty, n, guards, r, s, glue, ne)| Case { kind, ty, n, guards, r, s, glue, ne })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 7u8 } else { 5 };
    Box::new((0..=max).flat_map(move |len| {
        let mut v = vec![];
        for a in 0..=len {
            for b in a..=len {
                for d in 0..=len {
                    for e in d..=len {
                        for kind in 0..4 {
                            for (k, ty) in [Ty::Kv, Ty::Trk, Ty::U8].into_iter().enumerate() {
                                let m = (a + b + d + e) as usize + k;
                                v.push(Case {
                                    kind,
                                    ty,
                                    n: len as u32,
                                    guards: k as u8,
                                    r: (Pos::Lo(a), Pos::Lo(b)),
                                    s: (Pos::Lo(d), Pos::Lo(e)),
                                    glue: 0,
                                    ne: (m % 2 == 0, m % 3 == 0),
                                });
                            }
                        }
                    }
                }
            }
        }
        v.into_iter()
    }))
}

fn nested(c: &Case, st: &mut Stats) -> Res {
    nest::nested(test, c, st)
}
fn sequence(c: &Vec<(u32, Case)>, st: &mut Stats) -> Res {
    nest::sequence(test, c, st)
}
fn storm(c: &(u32, Case), st: &mut Stats) -> Res {
    nest::after_storm(test, &[13, 14], c, st)
}

fn main() {
    vh::main(vec![
        exhaustive("small", "all pairs of ranges up to length 5 (7 thorough); non-trivial: two non-empty ranges", small, test),
        group("random", "pairs of ranges of any container; non-trivial as above", 80000, strat, test),
        group("large", "the same up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 100, far, test),
        far::far::<11>(1000),
        zst::zst::<11>(20000),
        group("nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat, nested),
        group("sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat()), sequence),
        group("large_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat()), storm),
        giant::giant::<11>(2000),
    ]);
}
