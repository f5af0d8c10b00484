//! C10: indexing reaches exactly the named elements.
use indexing::container_traits::*;
use indexing::{scope, Container, Index, Range};
use vh::data::*;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../zst.rs"]
mod zst;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    At(Pos),
    Sub(Pos, Pos),
    SubNe(Pos, Pos),
    /// from / up to an index; the flag makes it an edge index
    From(Pos, bool),
    To(Pos, bool),
    Full,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    SliceMut,
    Slice,
    Vec,
    VecRef,
    VecMut,
    RefRef,
    MutMut,
    RefMut,
    MutRef,
    MutMutVec,
    Fixed,
    Grow,
    Ring,
    RingMut,
    OnlyIndex,
    OnlyIndexMut,
    TwinMut,
    Clone,
}
const KINDS: [Kind; 18] = [
    Kind::SliceMut, Kind::Slice, Kind::Vec, Kind::VecRef, Kind::VecMut, Kind::RefRef, Kind::MutMut, Kind::RefMut, Kind::MutRef,
    Kind::MutMutVec, Kind::Fixed, Kind::Grow, Kind::Ring, Kind::RingMut, Kind::OnlyIndex, Kind::OnlyIndexMut, Kind::TwinMut, Kind::Clone,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    ty: Ty,
    keys: Vec<u32>,
    guards: u8,
    ops: Vec<Op>,
}

struct Exp<'a, T> {
    /// the data by value, as it must be now
    model: &'a mut Vec<u64>,
    /// address of the first element, for contiguous containers
    base: *const T,
    next_id: &'a mut u32,
}

impl<'a, T: Elem> Exp<'a, T> {
    fn fresh(&mut self) -> T {
        *self.next_id += 1;
        T::make(*self.next_id % 250, *self.next_id)
    }
    fn same(&self, what: &str, got: &[T], a: usize, b: usize) -> Res {
        ensure_eq!(got.len(), b - a, "length of {}", what);
        if got.len() > 0 || std::mem::size_of::<T>() > 0 {
            ensure!(
                got.as_ptr() == self.base.wrapping_add(a) || std::mem::size_of::<T>() == 0,
                "{} is at byte offset {}, expected element {}",
                what,
                (got.as_ptr() as usize).wrapping_sub(self.base as usize) as isize,
                a
            );
        }
        ensure_eq!(sigs(got), self.model[a..b].to_vec(), "elements of {}", what);
        Ok(())
    }
}

fn common<'id, A, M, T: Elem>(c: &Container<'id, A, M>, x: &Exp<T>, st: &mut Stats) -> Res
where
    A: Trustworthy<Item = T>,
{
    ensure_eq!(c.len(), x.model.len(), "len()");
    st.nt(x.model.len() > 1);
    Ok(())
}

fn idx<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, n: usize) -> Result<Index<'id>, String> {
    c.vet(n).map_err(|_| format!("vet({}) refused", n))
}
fn rng<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, a: usize, b: usize) -> Result<Range<'id>, String> {
    c.vet_range(a..b).map_err(|_| format!("vet_range({}..{}) refused", a, b))
}

/// Reads through single indices only.
fn read_at<'id, A, M, T: Elem>(c: &Container<'id, A, M>, x: &Exp<T>, ops: &[Op], contiguous: bool) -> Res
where
    A: GetUnchecked<Item = T>,
{
    let len = x.model.len();
    for op in ops {
        if let Op::At(p) = op {
            if len > 0 {
                let n = p.idx(len);
                let r: &T = &c[idx(c, n)?];
                ensure_eq!(r.sig(), x.model[n], "element at {}", n);
                if contiguous && std::mem::size_of::<T>() > 0 {
                    ensure!(std::ptr::eq(r, x.base.wrapping_add(n)), "element {} is at another address", n);
                }
            }
        }
    }
    // and every element in order, through iteration
    for (n, i) in c.range().into_iter().enumerate() {
        ensure_eq!(c[i].sig(), x.model[n], "element {} (iterating)", n);
    }
    Ok(())
}

fn write_at<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, x: &mut Exp<T>, ops: &[Op]) -> Res
where
    A: GetUncheckedMut<Item = T>,
{
    let len = x.model.len();
    for op in ops {
        if let Op::At(p) = op {
            if len > 0 {
                let n = p.idx(len);
                let new = x.fresh();
                let s = new.sig();
                let i = idx(c, n)?;
                let old = std::mem::replace(&mut c[i], new);
                ensure_eq!(old.sig(), x.model[n], "element replaced at {}", n);
                x.model[n] = s;
            }
        }
    }
    Ok(())
}

fn ends<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, p: Pos, len: usize) -> Result<(Index<'id>, usize), String> {
    let n = p.idx(len);
    Ok((idx(c, n)?, n))
}

/// Reads of slices.
fn read<'id, A, M, T: Elem>(c: &Container<'id, A, M>, x: &Exp<T>, ops: &[Op]) -> Res
where
    A: Contiguous<Item = T> + GetUnchecked,
{
    let len = x.model.len();
    read_at(c, x, ops, true)?;
    for op in ops {
        match *op {
            Op::At(_) => {}
            Op::Sub(a, b) => {
                let (a, b) = span(a, b, len);
                x.same(&format!("[{}..{}]", a, b), &c[rng(c, a, b)?], a, b)?;
            }
            Op::SubNe(a, b) => {
                let (a, b) = span(a, b, len);
                if let Ok(r) = rng(c, a, b)?.nonempty() {
                    x.same(&format!("[{}..{}] (non-empty)", a, b), &c[r], a, b)?;
                }
            }
            Op::From(p, edge) => {
                if edge {
                    let n = p.at(len);
                    let i = rng(c, n, len)?.first();
                    x.same(&format!("[{}..]", n), &c[i..], n, len)?;
                } else if len > 0 {
                    let (i, n) = ends(c, p, len)?;
                    x.same(&format!("[{}..] (proven)", n), &c[i..], n, len)?;
                }
            }
            Op::To(p, edge) => {
                if edge {
                    let n = p.at(len);
                    let i = rng(c, 0, n)?.past_the_end();
                    x.same(&format!("[..{}]", n), &c[..i], 0, n)?;
                } else if len > 0 {
                    let (i, n) = ends(c, p, len)?;
                    x.same(&format!("[..{}] (proven)", n), &c[..i], 0, n)?;
                }
            }
            Op::Full => x.same("[..]", &c[..], 0, len)?,
        }
    }
    Ok(())
}

/// Replace every element of the slice, checking what was there.
fn overwrite<T: Elem>(x: &mut Exp<T>, what: &str, s: *mut [T], a: usize, b: usize) -> Res {
    let s = unsafe { &mut *s };
    x.same(what, s, a, b)?;
    for (k, e) in s.iter_mut().enumerate() {
        let new = x.fresh();
        x.model[a + k] = new.sig();
        *e = new;
    }
    Ok(())
}

fn write<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, x: &mut Exp<T>, ops: &[Op]) -> Res
where
    A: ContiguousMut<Item = T> + GetUncheckedMut,
{
    let len = x.model.len();
    write_at(c, x, ops)?;
    for op in ops {
        match *op {
            Op::At(_) | Op::Full => {}
            Op::Sub(a, b) => {
                let (a, b) = span(a, b, len);
                let r = rng(c, a, b)?;
                overwrite(x, &format!("mut [{}..{}]", a, b), &mut c[r], a, b)?;
            }
            Op::SubNe(a, b) => {
                let (a, b) = span(a, b, len);
                if let Ok(r) = rng(c, a, b)?.nonempty() {
                    overwrite(x, &format!("mut [{}..{}] (non-empty)", a, b), &mut c[r], a, b)?;
                }
            }
            Op::From(p, edge) => {
                if edge {
                    let n = p.at(len);
                    let i = rng(c, n, len)?.first();
                    overwrite(x, &format!("mut [{}..]", n), &mut c[i..], n, len)?;
                } else if len > 0 {
                    let (i, n) = ends(c, p, len)?;
                    overwrite(x, &format!("mut [{}..] (proven)", n), &mut c[i..], n, len)?;
                }
            }
            Op::To(p, edge) => {
                if edge {
                    let n = p.at(len);
                    let i = rng(c, 0, n)?.past_the_end();
                    overwrite(x, &format!("mut [..{}]", n), &mut c[..i], 0, n)?;
                } else if len > 0 {
                    let (i, n) = ends(c, p, len)?;
                    overwrite(x, &format!("mut [..{}] (proven)", n), &mut c[..i], 0, n)?;
                }
            }
        }
    }
    read(c, x, ops)
}

/// `&mut c[..]` exists outside of index-only mode.
fn write_full<'id, A, T: Elem>(c: &mut Container<'id, A>, x: &mut Exp<T>, ops: &[Op]) -> Res
where
    A: ContiguousMut<Item = T> + GetUncheckedMut,
{
    let len = x.model.len();
    if ops.iter().any(|o| matches!(o, Op::Full)) {
        overwrite(x, "mut [..]", &mut c[..], 0, len)?;
    }
    write(c, x, ops)
}

fn debug_is<D: Debug>(c: &D, want: String, want_alt: String) -> Res {
    ensure_eq!(format!("{:?}", c), want, "debug output");
    ensure_eq!(format!("{:#?}", c), want_alt, "alternate debug output");
    Ok(())
}

fn dbg<D: Debug + ?Sized>(d: &D) -> (String, String) {
    (format!("{:?}", d), format!("{:#?}", d))
}

fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let r = go_::<T>(case, st);
    r?;
    ledger_settled()
}

fn go_<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    let ops = &case.ops[..];
    let mut nid = 1000u32;
    let mut buf: Buf<T> = Buf::new(&case.keys, case.guards as usize);
    let mut model = sigs(buf.s());
    let full: Vec<u64> = model.clone();
    let mut vec: Vec<T> = elems(&case.keys);
    let (d, da) = dbg(&vec);
    let bbase = buf.s().as_ptr();
    let vbase = vec.as_ptr();
    macro_rules! exp {
        ($b:expr) => {
            Exp { model: &mut model, base: $b, next_id: &mut nid }
        };
    }
    macro_rules! shared {
        ($arr:expr, $b:expr) => {{
            let x = exp!($b);
            scope($arr, |c| {
                common(&c, &x, st)?;
                debug_is(&c, d.clone(), da.clone())?;
                read(&c, &x, ops)
            })?
        }};
    }
    macro_rules! mutable {
        ($arr:expr, $b:expr) => {{
            let mut x = exp!($b);
            scope($arr, |mut c| {
                common(&c, &x, st)?;
                debug_is(&c, d.clone(), da.clone())?;
                read(&c, &x, ops)?;
                write_full(&mut c, &mut x, ops)?;
                common(&c, &x, st)
            })?
        }};
    }
    match case.kind {
        Kind::Slice => shared!(buf.s(), bbase),
        Kind::VecRef => shared!(&vec, vbase),
        Kind::RefRef => shared!(&&buf.s(), bbase),
        Kind::RefMut => shared!(&&mut *buf.m(), bbase),
        Kind::MutRef => shared!(&mut &buf.s(), bbase),
        Kind::SliceMut => mutable!(buf.m(), bbase),
        Kind::Vec => {
            let v = std::mem::take(&mut vec);
            mutable!(v, vbase);
            st.label("owned");
        }
        Kind::VecMut => mutable!(&mut vec, vbase),
        Kind::MutMut => mutable!(&mut &mut *buf.m(), bbase),
        Kind::MutMutVec => mutable!(&mut &mut vec, vbase),
        Kind::Fixed => {
            let f = Fixed(std::mem::take(&mut vec).into_boxed_slice());
            let mut x = exp!(f.0.as_ptr());
            scope(f, |mut c| {
                common(&c, &x, st)?;
                write_full(&mut c, &mut x, ops)
            })?
        }
        Kind::Grow => {
            let mut f = Grow(std::mem::take(&mut vec));
            let mut x = exp!(vbase);
            scope(&mut f, |mut c| {
                common(&c, &x, st)?;
                write_full(&mut c, &mut x, ops)
            })?;
            vec = f.0;
        }
        Kind::Ring | Kind::RingMut => {
            let mut f = Ring::wrapped(std::mem::take(&mut vec));
            let mut x = exp!(std::ptr::null());
            if case.kind == Kind::Ring {
                scope(f, |mut c| {
                    common(&c, &x, st)?;
                    read_at(&c, &x, ops, false)?;
                    write_at(&mut c, &mut x, ops)?;
                    read_at(&c, &x, ops, false)
                })?;
            } else {
                scope(&mut &mut f, |mut c| {
                    common(&c, &x, st)?;
                    read_at(&c, &x, ops, false)?;
                    write_at(&mut c, &mut x, ops)?;
                    read_at(&c, &x, ops, false)
                })?;
                vec = f.0.into_iter().collect();
            }
        }
        Kind::OnlyIndex => {
            let x = exp!(bbase);
            scope(buf.s(), |c| {
                let c = c.only_index();
                common(&c, &x, st)?;
                debug_is(&c, d.clone(), da.clone())?;
                read(&c, &x, ops)
            })?
        }
        Kind::OnlyIndexMut => {
            let mut x = exp!(vbase);
            scope(&mut vec, |c| {
                let mut c = c.only_index();
                common(&c, &x, st)?;
                debug_is(&c, d.clone(), da.clone())?;
                read(&c, &x, ops)?;
                write(&mut c, &mut x, ops)
            })?
        }
        Kind::TwinMut => {
            let mut x = exp!(bbase);
            let unit = vec![(); case.keys.len()];
            scope(&unit[..], |c| {
                let mut t = c.make_twin(buf.m()).map_err(|_| "twin refused".to_string())?;
                common(&t, &x, st)?;
                debug_is(&t, d.clone(), da.clone())?;
                read(&t, &x, ops)?;
                write(&mut t, &mut x, ops)
            })?
        }
        Kind::Clone => {
            let x = exp!(bbase);
            scope(buf.s(), |c| {
                let e = c.clone();
                common(&e, &x, st)?;
                debug_is(&e, d.clone(), da.clone())?;
                read(&e, &x, ops)?;
                read(&c, &x, ops)
            })?
        }
    }
    // what the caller finds afterwards
    buf.guards_ok()?;
    match case.kind {
        Kind::SliceMut | Kind::MutMut | Kind::TwinMut => ensure_eq!(sigs(buf.s()), model, "data after the scope"),
        Kind::VecMut | Kind::MutMutVec | Kind::Grow | Kind::RingMut | Kind::OnlyIndexMut => {
            ensure_eq!(sigs(&vec), model, "vector after the scope");
            ensure_eq!(sigs(buf.s()), full, "unrelated data");
        }
        _ => ensure_eq!(sigs(buf.s()), full, "shared data after the scope"),
    }
    st.label_if(model != full, "written");
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty!(case.ty, go, case, st)
}

fn ops() -> impl Strategy<Value = Vec<Op>> {
    let op = prop_oneof![
        3 => pos().prop_map(Op::At),
        3 => (pos(), pos()).prop_map(|(a, b)| Op::Sub(a, b)),
        2 => (pos(), pos()).prop_map(|(a, b)| Op::SubNe(a, b)),
        3 => (pos(), any::<bool>()).prop_map(|(a, e)| Op::From(a, e)),
        3 => (pos(), any::<bool>()).prop_map(|(a, e)| Op::To(a, e)),
        1 => Just(Op::Full),
    ];
    prop::collection::vec(op, 1..12)
}

fn strat() -> impl Strategy<Value = Case> {
    from_keys(prop_oneof![4 => keys_small(12), 1 => keys_small(150)])
}
fn large() -> impl Strategy<Value = Case> {
    from_keys(big_keys(70000).prop_map(|k| k.get()))
}
fn far() -> impl Strategy<Value = Case> {
    from_keys((vast(), 2u32..300).prop_map(|(n, m)| (0..n as u32).map(|i| i % m).collect()))
}
fn from_keys(ks: impl Strategy<Value = Vec<u32>>) -> impl Strategy<Value = Case> {
    (proptest::sample::select(&KINDS[..]), ty(), ks, 0u8..3, ops())
        .prop_map(|(kind, ty, keys, guards, ops)| Case { kind, ty, keys, guards, ops })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 5u8 } else { 3 };
    let tys = [Ty::Kv, Ty::U8, Ty::B3, Ty::Trk, Ty::ZTrk, Ty::Str];
    Box::new(KINDS.into_iter().flat_map(move |kind| {
        tys.into_iter().flat_map(move |ty| {
            (0..=max).flat_map(move |len| {
                let mut ops = vec![Op::Full];
                for a in 0..=len {
                    for e in [true, false] {
                        ops.push(Op::From(Pos::Lo(a), e));
                        ops.push(Op::To(Pos::Lo(a), e));
                    }
                    ops.push(Op::At(Pos::Lo(a)));
                    for b in a..=len {
                        ops.push(Op::Sub(Pos::Lo(a), Pos::Lo(b)));
                        ops.push(Op::SubNe(Pos::Lo(a), Pos::Lo(b)));
                    }
                }
                // one at a time (a shared prefix cannot hide it), and all at once
                let all = ops.clone();
                ops.into_iter().map(|o| vec![o]).chain(std::iter::once(all)).map(move |ops| Case {
                    kind,
                    ty,
                    keys: (0..len as u32).map(|k| k * 3 + 1).collect(),
                    guards: (len % 2),
                    ops,
                })
            })
        })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every container kind and form of indexing up to length 3 (5 thorough); non-trivial: at least two elements", small, test),
        group("random", "container kind x element type x contents x indexing operations; non-trivial as above", 100000, strat, test),
        group("large", "the same up to 70000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 100, far, test),
        far::far::<10>(1000),
        zst::zst::<10>(20000),
        giant::giant::<10>(2000),
    ]);
}
