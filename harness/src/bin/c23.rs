//! C23: pointer ranges and slices mirror index ranges.
#![cfg_attr(not(feature = "ptr"), allow(unused))]
use indexing::container_traits::*;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use vh::data::*;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    /// the range a..b, formed from the whole by iteration
    Sub(Pos, Pos),
    /// pick an entry of the pool and derive from it
    Nonempty(u8),
    NoProof(u8),
    SplitInHalf(u8),
    Tail(u8),
    Init(u8),
    Advance(u8, u8),
    AdvanceBack(u8, u8),
    Iterate(u8, Pos, Pos),
    Convert(u8),
    /// pick a pointer of the pool
    First(u8),
    UpperMiddle(u8),
    PastTheEnd(u8),
    Last(u8),
    After(u8),
    From(u8),
    To(u8),
    SplitAt(u8),
    NonemptyRange(u8, u8),
    Write(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    ty: Ty,
    n: u32,
    guards: u8,
    ops: Vec<Op>,
}

#[cfg(feature = "ptr")]
mod on {
    use super::*;
    use indexing::pointer::{PIndex, PRange, PSlice};

    /// The three representations of one range, plus what they should be.
    pub struct Tri<'id, T, P> {
        pub a: usize,
        pub b: usize,
        pub r: Range<'id, P>,
        pub p: PRange<'id, T, P>,
        pub s: PSlice<'id, T, P>,
    }
    impl<'id, T, P> Clone for Tri<'id, T, P> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'id, T, P> Copy for Tri<'id, T, P> {}

    pub enum Rg<'id, T> {
        U(Tri<'id, T, Unknown>),
        N(Tri<'id, T, NonEmpty>),
    }
    impl<'id, T> Clone for Rg<'id, T> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'id, T> Copy for Rg<'id, T> {}
    /// A position as index and as pointer.
    pub enum Pt<'id, T> {
        U(usize, Index<'id, Unknown>, PIndex<'id, T, Unknown>),
        N(usize, Index<'id>, PIndex<'id, T>),
    }
    impl<'id, T> Clone for Pt<'id, T> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<'id, T> Copy for Pt<'id, T> {}
    impl<'id, T> Pt<'id, T> {
        fn pos(&self) -> usize {
            match self {
                Pt::U(n, ..) | Pt::N(n, ..) => *n,
            }
        }
        fn edge(&self) -> PIndex<'id, T, Unknown> {
            match self {
                Pt::U(_, _, p) => *p,
                Pt::N(_, _, p) => p.no_proof(),
            }
        }
    }

    pub struct Env<'e, T> {
        pub base: *const T,
        pub model: &'e [u64],
    }
    impl<'e, T: Elem> Env<'e, T> {
        fn addr(&self, n: usize) -> *const T {
            self.base.wrapping_add(n)
        }
        fn slice(&self, got: &[T], a: usize, b: usize, what: &str) -> Res {
            ensure_eq!(got.as_ptr(), self.addr(a), "address of {}", what);
            ensure_eq!(got.len(), b - a, "length of {}", what);
            ensure_eq!(sigs(got), self.model[a..b].to_vec(), "elements of {}", what);
            Ok(())
        }
    }

    pub fn point<'id, A, T: Elem, P>(c: &Container<'id, A>, e: &Env<T>, n: usize, p: PIndex<'id, T, P>, what: &str) -> Res
    where
        A: Contiguous<Item = T>,
    {
        ensure_eq!(p.ptr(), e.addr(n), "pointer of {} (position {})", what, n);
        ensure_eq!(p.ptr_mut() as *const T, e.addr(n), "mutable pointer of {} (position {})", what, n);
        ensure_eq!(c.distance_to(p), n, "distance to {}", what);
        ensure!(p == p.clone(), "{} equals itself", what);
        e.slice(&c[..p], 0, n, "[..p]")?;
        e.slice(&c[p..], n, e.model.len(), "[p..]")
    }

    /// Everything that can be asked of a range, whatever its proof.
    pub fn range<'id, A, T: Elem, P>(c: &Container<'id, A>, e: &Env<T>, t: &Tri<'id, T, P>) -> Res
    where
        A: Contiguous<Item = T>,
    {
        let (a, b, n) = (t.a, t.b, t.b - t.a);
        let Tri { r, p, s, .. } = *t;
        ensure_eq!((r.start(), r.end()), (a, b), "index range");
        ensure_eq!((p.len(), s.len(), r.len()), (n, n, n), "lengths of {}..{}", a, b);
        ensure_eq!((p.is_empty(), s.is_empty(), r.is_empty()), (n == 0, n == 0, n == 0), "emptiness of {}..{}", a, b);
        ensure_eq!((p.nonempty().is_ok(), s.nonempty().is_ok()), (n > 0, n > 0), "nonempty of {}..{}", a, b);
        for (at, p, what) in [(a, p.first(), "PRange::first"), (a, s.first(), "PSlice::first"),
            (a + n / 2, p.upper_middle(), "PRange::upper_middle"), (a + n / 2, s.upper_middle(), "PSlice::upper_middle")] {
            point(c, e, at, p, what)?;
        }
        point(c, e, b, p.past_the_end(), "PRange::past_the_end")?;
        point(c, e, b, s.past_the_end(), "PSlice::past_the_end")?;
        ensure_eq!((r.first().integer(), r.upper_middle().integer(), r.past_the_end().integer()), (a, a + n / 2, b), "ends of the index range");
        let (ps, sp): (PSlice<T, P>, PRange<T, P>) = (p.into(), s.into());
        ensure!(ps == s && sp == p, "conversions of {}..{} between the two representations", a, b);
        ensure!(p == p.no_proof() && s == s.no_proof(), "equality regardless of proof");
        // empty and other ranges are different
        let whole = c.pointer_range();
        ensure_eq!(p == whole, a == 0 && b == e.model.len(), "equality of {}..{} with the whole", a, b);
        ensure_eq!(s == c.pointer_slice(), a == 0 && b == e.model.len(), "equality of the slice {}..{} with the whole", a, b);
        e.slice(&c[p], a, b, "[PRange]")?;
        e.slice(&c[r], a, b, "[Range]")?;
        let got: Vec<usize> = p.into_iter().map(|q| c.distance_to(q)).collect();
        ensure_eq!(got, (a..b).collect::<Vec<_>>(), "iteration of {}..{}", a, b);
        let mut it = p.into_iter();
        ensure_eq!((it.len(), it.size_hint()), (n, (n, Some(n))), "reported size");
        ensure!(it.next_back().map(|q| c.distance_to(q)) == (a..b).next_back(), "next_back of {}..{}", a, b);
        Ok(())
    }

    pub fn range_ne<'id, A, T: Elem>(c: &Container<'id, A>, e: &Env<T>, t: &Tri<'id, T, NonEmpty>) -> Res
    where
        A: Contiguous<Item = T>,
    {
        range(c, e, t)?;
        let Tri { a, b, r, p, s } = *t;
        ensure!(a < b, "a non-empty proof was given for {}..{}", a, b);
        point(c, e, b - 1, p.last(), "PRange::last")?;
        point(c, e, b - 1, s.last(), "PSlice::last")?;
        for (q, what) in [(p.first(), "first"), (p.last(), "last"), (p.upper_middle(), "upper_middle"), (s.first(), "PSlice first"), (s.last(), "PSlice last")] {
            let n = c.distance_to(q);
            ensure_eq!(&c[q] as *const T, e.addr(n), "address of the element at {}", what);
            ensure_eq!(c[q].sig(), e.model[n], "element at {}", what);
        }
        ensure_eq!(r.last().integer(), b - 1, "Range::last");
        Ok(())
    }

    fn tri<'id, T, P>(a: usize, b: usize, r: Range<'id, P>, p: PRange<'id, T, P>, s: PSlice<'id, T, P>) -> Tri<'id, T, P> {
        Tri { a, b, r, p, s }
    }

    fn pick_at<X: Copy>(v: &[X], n: u8) -> X {
        // from the newest: keeps histories deep
        v[v.len() - 1 - (n as usize % v.len())]
    }

    pub fn step<'id, A, T: Elem>(
        c: &Container<'id, A>,
        e: &Env<T>,
        op: Op,
        rs: &mut Vec<Rg<'id, T>>,
        ps: &mut Vec<Pt<'id, T>>,
        st: &mut Stats,
    ) -> Res
    where
        A: Contiguous<Item = T>,
    {
        let len = e.model.len();
        let (r0, p0) = (rs.len(), ps.len());
        macro_rules! both {
            ($k:expr, $t:ident, $body:expr) => {
                match pick_at(rs, $k) {
                    Rg::U($t) => $body,
                    Rg::N($t) => $body,
                }
            };
        }
        macro_rules! put_u {
            ($a:expr, $b:expr, $r:expr, $p:expr, $s:expr) => {
                rs.push(Rg::U(tri($a, $b, $r, $p, $s)))
            };
        }
        match op {
            Op::Sub(x, y) => {
                let (a, b) = span(x, y, len);
                let mut it = c.pointer_range().into_iter();
                for _ in 0..a {
                    it.next();
                }
                for _ in b..len {
                    it.next_back();
                }
                let p = it.into_range();
                let r = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
                put_u!(a, b, r, p, p.into());
            }
            Op::Nonempty(k) => both!(k, t, {
                let (r, p, s) = (t.r.nonempty(), t.p.nonempty(), t.s.nonempty());
                ensure!(r.is_ok() == p.is_ok() && p.is_ok() == s.is_ok(), "nonempty disagrees on {}..{}", t.a, t.b);
                if let (Ok(r), Ok(p), Ok(s)) = (r, p, s) {
                    rs.push(Rg::N(tri(t.a, t.b, r, p, s)));
                }
            }),
            Op::NoProof(k) => both!(k, t, put_u!(t.a, t.b, t.r.no_proof(), t.p.no_proof(), t.s.no_proof())),
            Op::SplitInHalf(k) => {
                macro_rules! halves {
                    ($t:ident, $w:path) => {{
                        let m = $t.a + ($t.b - $t.a) / 2;
                        let ((r1, r2), (p1, p2), (s1, s2)) = ($t.r.split_in_half(), $t.p.split_in_half(), $t.s.split_in_half());
                        put_u!($t.a, m, r1, p1, s1);
                        rs.push($w(tri(m, $t.b, r2, p2, s2)));
                    }};
                }
                match pick_at(rs, k) {
                    Rg::U(t) => halves!(t, Rg::U),
                    Rg::N(t) => halves!(t, Rg::N),
                }
            }
            Op::Tail(k) => {
                if let Rg::N(t) = pick_at(rs, k) {
                    put_u!(t.a + 1, t.b, t.r.tail(), t.p.tail(), t.s.tail())
                }
            }
            Op::Init(k) => {
                if let Rg::N(t) = pick_at(rs, k) {
                    put_u!(t.a, t.b - 1, t.r.init(), t.p.init(), t.s.init())
                }
            }
            Op::Advance(k, times) | Op::AdvanceBack(k, times) => {
                if let Rg::N(mut t) = pick_at(rs, k) {
                    let fwd = matches!(op, Op::Advance(..));
                    for _ in 0..times % 8 {
                        let got = if fwd {
                            (t.r.advance(), t.p.advance(), t.s.advance())
                        } else {
                            (t.r.advance_back(), t.p.advance_back(), t.s.advance_back())
                        };
                        let want = t.b - t.a > 1;
                        ensure_eq!(got, (want, want, want), "advance{} of {}..{}", if fwd { "" } else { "_back" }, t.a, t.b);
                        if want {
                            if fwd {
                                t.a += 1
                            } else {
                                t.b -= 1
                            }
                        }
                    }
                    rs.push(Rg::N(t));
                }
            }
            Op::Iterate(k, x, y) => both!(k, t, {
                let n = t.b - t.a;
                let (f, g) = (x.at(n), y.at(n));
                let (mut ri, mut pi) = (t.r.into_iter(), t.p.into_iter());
                let (mut a, mut b) = (t.a, t.b);
                for turn in 0..(f + g) {
                    let front = if turn % 2 == 0 { turn / 2 < f } else { turn / 2 >= g };
                    let (i, p) = if front { (ri.next(), pi.next()) } else { (ri.next_back(), pi.next_back()) };
                    let want = if a == b {
                        None
                    } else if front {
                        a += 1;
                        Some(a - 1)
                    } else {
                        b -= 1;
                        Some(b)
                    };
                    ensure_eq!(i.map(|i| i.integer()), want, "index iteration");
                    ensure_eq!(p.map(|p| c.distance_to(p)), want, "pointer iteration");
                    ensure_eq!(pi.len(), b - a, "pointers left");
                    // every position kept is looked at in detail: not too many
                    let keep = turn < 16 || turn + 16 > f + g || turn % (1 + (f + g) / 16) == 0;
                    if let (true, Some(n), Some(i), Some(p)) = (keep, want, i, p) {
                        ps.push(Pt::N(n, i, p));
                    }
                }
                let p = pi.into_range();
                put_u!(a, b, ri.into_range(), p, p.into());
            }),
            Op::Convert(k) => match pick_at(rs, k) {
                Rg::U(t) => rs.push(Rg::U(tri(t.a, t.b, t.r, t.s.into(), t.p.into()))),
                Rg::N(t) => rs.push(Rg::N(tri(t.a, t.b, t.r, t.s.into(), t.p.into()))),
            },
            Op::First(k) => match pick_at(rs, k) {
                Rg::U(t) => ps.push(Pt::U(t.a, t.r.first(), t.s.first())),
                Rg::N(t) => ps.push(Pt::N(t.a, t.r.first(), t.p.first())),
            },
            Op::UpperMiddle(k) => match pick_at(rs, k) {
                Rg::U(t) => ps.push(Pt::U(t.a + (t.b - t.a) / 2, t.r.upper_middle(), t.p.upper_middle())),
                Rg::N(t) => ps.push(Pt::N(t.a + (t.b - t.a) / 2, t.r.upper_middle(), t.s.upper_middle())),
            },
            Op::PastTheEnd(k) => both!(k, t, ps.push(Pt::U(t.b, t.r.past_the_end(), t.p.past_the_end()))),
            Op::Last(k) => {
                if let Rg::N(t) = pick_at(rs, k) {
                    ps.push(Pt::N(t.b - 1, t.r.last(), t.p.last()));
                    ensure!(t.p.last() == t.s.last(), "last of {}..{}", t.a, t.b);
                }
            }
            Op::After(k) => {
                if let Some(Pt::N(n, i, p)) = (!ps.is_empty()).then(|| pick_at(ps, k)) {
                    ps.push(Pt::U(n + 1, i.after(), p.after()));
                }
            }
            Op::From(k) if !ps.is_empty() => {
                let (n, r, p) = match pick_at(ps, k) {
                    Pt::U(n, i, p) => (n, c.range_of(i..), c.pointer_range_of(p..)),
                    Pt::N(n, i, p) => (n, c.range_of(i..), c.pointer_range_of(p..)),
                };
                put_u!(n, len, r, p, p.into());
            }
            Op::To(k) if !ps.is_empty() => {
                let (n, r, p) = match pick_at(ps, k) {
                    Pt::U(n, i, p) => (n, c.range_of(..i), c.pointer_range_of(..p)),
                    Pt::N(n, i, p) => (n, c.range_of(..i), c.pointer_range_of(..p)),
                };
                put_u!(0, n, r, p, p.into());
            }
            Op::SplitAt(k) if !ps.is_empty() => match pick_at(ps, k) {
                Pt::U(n, i, p) => {
                    let ((r1, r2), (p1, p2)) = (c.split_at(i), c.split_at_pointer(p));
                    put_u!(0, n, r1, p1, p1.into());
                    put_u!(n, len, r2, p2, p2.into());
                }
                Pt::N(n, i, p) => {
                    let ((r1, r2), (p1, p2)) = (c.split_at(i), c.split_at_pointer(p));
                    put_u!(0, n, r1, p1, p1.into());
                    rs.push(Rg::N(tri(n, len, r2, p2, p2.into())));
                }
            },
            Op::NonemptyRange(j, k) if !ps.is_empty() => {
                let (x, y) = (pick_at(ps, j), pick_at(ps, k));
                let got = match (x, y) {
                    (Pt::U(_, _, x), Pt::U(_, _, y)) => c.nonempty_range(x, y),
                    (Pt::U(_, _, x), Pt::N(_, _, y)) => c.nonempty_range(x, y),
                    (Pt::N(_, _, x), Pt::U(_, _, y)) => c.nonempty_range(x, y),
                    (Pt::N(_, _, x), Pt::N(_, _, y)) => c.nonempty_range(x, y),
                };
                let (a, b) = (x.pos(), y.pos());
                ensure_eq!(got.is_ok(), a < b, "nonempty_range of positions {} and {}", a, b);
                ensure_eq!(x.edge() == y.edge(), a == b, "equality of the pointers to {} and {}", a, b);
                if let Ok(p) = got {
                    let r = c.vet_range(a..b).unwrap().nonempty().unwrap();
                    rs.push(Rg::N(tri(a, b, r, p, p.into())));
                }
            }
            _ => {}
        }
        // everything new agrees
        for r in &rs[r0..] {
            match r {
                Rg::U(t) => range(c, e, t)?,
                Rg::N(t) => range_ne(c, e, t)?,
            }
        }
        for p in &ps[p0..] {
            match p {
                Pt::U(n, i, p) => {
                    ensure_eq!(i.integer(), *n, "index");
                    point(c, e, *n, *p, "pointer")?;
                }
                Pt::N(n, i, p) => {
                    ensure_eq!(i.integer(), *n, "index");
                    point(c, e, *n, *p, "pointer")?;
                    ensure_eq!(&c[*p] as *const T, e.addr(*n), "element at position {}", n);
                }
            }
        }
        st.count("ranges and pointers compared", (rs.len() - r0 + ps.len() - p0) as u64);
        // bounded pools
        if rs.len() > 40 {
            rs.drain(..20);
        }
        if ps.len() > 60 {
            ps.drain(..30);
        }
        Ok(())
    }

    pub fn start<'id, A, T: Elem>(c: &Container<'id, A>, e: &Env<T>) -> Result<Vec<Rg<'id, T>>, String>
    where
        A: Contiguous<Item = T>,
    {
        let t = tri(0, e.model.len(), c.range(), c.pointer_range(), c.pointer_slice());
        range(c, e, &t)?;
        let mut f = c.pointer_range_of::<NonEmpty, _>(..);
        ensure!(f == t.p, "pointer_range_of(..) is the whole");
        f = c.pointer_range_of::<Unknown, _>(..);
        ensure!(f == t.p, "pointer_range_of(..) is the whole");
        Ok(vec![Rg::U(t)])
    }

    pub fn shared<'id, A, T: Elem>(c: Container<'id, A>, e: Env<T>, case: &Case, st: &mut Stats) -> Res
    where
        A: Contiguous<Item = T>,
    {
        let (mut rs, mut ps) = (start(&c, &e)?, vec![]);
        for op in &case.ops {
            step(&c, &e, *op, &mut rs, &mut ps, st)?;
        }
        st.nt(rs.len() + ps.len() > 4);
        Ok(())
    }

    pub fn mutable<'id, A, T: Elem>(mut c: Container<'id, A>, base: *const T, model: &mut Vec<u64>, case: &Case, st: &mut Stats) -> Res
    where
        A: ContiguousMut<Item = T>,
    {
        let (mut rs, mut ps) = (start(&c, &Env { base, model })?, vec![]);
        for (n, op) in case.ops.iter().enumerate() {
            if let Op::Write(k, form) = *op {
                // write through one of the mutable forms
                let new = |j: usize| T::make((n * 31 + j) as u32 % 251, 100 + j as u32);
                let (a, b, got): (usize, usize, &mut [T]) = if form % 3 == 0 || ps.is_empty() {
                    match pick_at(&rs, k) {
                        Rg::U(t) => (t.a, t.b, &mut c[t.p]),
                        Rg::N(t) => (t.a, t.b, &mut c[t.p]),
                    }
                } else {
                    let len = model.len();
                    match (pick_at(&ps, k), form % 3) {
                        (Pt::U(n, _, p), 1) => (0, n, &mut c[..p]),
                        (Pt::N(n, _, p), 1) => (0, n, &mut c[..p]),
                        (Pt::U(n, _, p), _) => (n, len, &mut c[p..]),
                        (Pt::N(n, _, p), _) => (n, len, &mut c[p..]),
                    }
                };
                let e = Env { base, model };
                e.slice(got, a, b, "mutable slice")?;
                for (j, x) in got.iter_mut().enumerate() {
                    *x = new(j);
                    model[a + j] = new(j).sig();
                }
                st.label("written");
            } else {
                step(&c, &Env { base, model }, *op, &mut rs, &mut ps, st)?;
            }
        }
        st.nt(rs.len() + ps.len() > 4);
        let e = Env { base, model };
        e.slice(&c[..], 0, e.model.len(), "container afterwards")
    }
}

#[cfg(feature = "ptr")]
fn go<T: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..case.n as u32).map(|k| k * 7 % 251).collect();
    {
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let mut model = sigs(buf.s());
        let base = buf.s().as_ptr();
        let mut v: Vec<T> = elems(&keys);
        let vb = v.as_ptr();
        match case.kind {
            0 => scope(buf.s(), |c| on::shared(c, on::Env { base, model: &model }, case, st))?,
            1 => scope(buf.m(), |c| on::mutable(c, base, &mut model, case, st))?,
            2 => scope(&v, |c| on::shared(c, on::Env { base: vb, model: &model }, case, st))?,
            3 => {
                let mut m2 = model.clone();
                scope(&mut v, |c| on::mutable(c, vb, &mut m2, case, st))?;
                ensure_eq!(sigs(&v), m2, "vector afterwards");
            }
            4 => {
                let mut m2 = model.clone();
                scope(v, |c| on::mutable(c, vb, &mut m2, case, st))?;
            }
            _ => {
                let f = Fixed(v.into_boxed_slice());
                let (fb, mut m2) = (f.0.as_ptr(), model.clone());
                scope(f, |c| on::mutable(c, fb, &mut m2, case, st))?;
            }
        }
        ensure_eq!(sigs(buf.s()), model, "slice afterwards");
        buf.guards_ok()?;
    }
    ledger_settled()
}
#[cfg(not(feature = "ptr"))]
fn go<T: Elem>(_: &Case, _: &mut Stats) -> Res {
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    with_ty_few!(case.ty, go, case, st)
}

fn op() -> impl Strategy<Value = Op> {
    let k = || prop_oneof![3 => 0u8..6, 1 => any::<u8>()];
    prop_oneof![
        2 => (pos(), pos()).prop_map(|(a, b)| Op::Sub(a, b)),
        3 => k().prop_map(Op::Nonempty),
        1 => k().prop_map(Op::NoProof),
        2 => k().prop_map(Op::SplitInHalf),
        2 => k().prop_map(Op::Tail),
        2 => k().prop_map(Op::Init),
        2 => (k(), any::<u8>()).prop_map(|(a, b)| Op::Advance(a, b)),
        2 => (k(), any::<u8>()).prop_map(|(a, b)| Op::AdvanceBack(a, b)),
        2 => (k(), pos(), pos()).prop_map(|(a, x, y)| Op::Iterate(a, x, y)),
        1 => k().prop_map(Op::Convert),
        1 => k().prop_map(Op::First),
        1 => k().prop_map(Op::UpperMiddle),
        1 => k().prop_map(Op::PastTheEnd),
        1 => k().prop_map(Op::Last),
        1 => k().prop_map(Op::After),
        1 => k().prop_map(Op::From),
        1 => k().prop_map(Op::To),
        1 => k().prop_map(Op::SplitAt),
        3 => (k(), k()).prop_map(|(a, b)| Op::NonemptyRange(a, b)),
        2 => (k(), any::<u8>()).prop_map(|(a, b)| Op::Write(a, b)),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![6 => 0u32..14, 1 => 0u32..90], 24)
}
fn large() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![3 => 200u32..1100, 1 => big().prop_map(|n| n.min(10000) as u32)], 12)
}
fn far() -> impl Strategy<Value = Case> {
    from_len(vast().prop_map(|n| n as u32), 10)
}
fn from_len(n: impl Strategy<Value = u32>, k: usize) -> impl Strategy<Value = Case> {
    (0u8..6, ty_nz(), n, 0u8..3, prop::collection::vec(op(), 1..k)).prop_map(|(kind, ty, n, guards, ops)| Case { kind, ty, n, guards, ops })
}

/// Every range of short containers, all derivations of it
fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 10u8 } else { 6 };
    let mut v = vec![];
    for n in 0..=max {
        for a in 0..=n {
            for b in a..=n {
                for kind in 0..6 {
                    let ty = [Ty::U8, Ty::Kv, Ty::B3, Ty::Big, Ty::Str, Ty::T12, Ty::W32][(a + b + n) as usize % 7];
                    let first = Op::Sub(Pos::Lo(a), Pos::Lo(b));
                    let lists = [
                        vec![Op::SplitInHalf(0), Op::SplitInHalf(0), Op::Nonempty(1), Op::Write(0, 0)],
                        vec![Op::Nonempty(0), Op::Tail(0), Op::Nonempty(0), Op::Init(0), Op::Write(0, 0)],
                        vec![Op::Nonempty(0), Op::Init(0), Op::First(0), Op::From(0), Op::To(0), Op::SplitAt(0)],
                        vec![Op::Nonempty(0), Op::Advance(0, 7), Op::AdvanceBack(1, 7), Op::Last(0), Op::After(0), Op::SplitAt(0), Op::SplitAt(1)],
                        vec![Op::Nonempty(0), Op::SplitInHalf(0), Op::SplitInHalf(0), Op::UpperMiddle(0), Op::Write(0, 1), Op::Write(0, 2)],
                        vec![Op::First(0), Op::PastTheEnd(0), Op::NonemptyRange(0, 1), Op::NonemptyRange(1, 0), Op::NonemptyRange(0, 0), Op::Write(0, 0)],
                        vec![Op::Nonempty(0), Op::First(0), Op::Last(0), Op::NonemptyRange(0, 1), Op::NonemptyRange(1, 0), Op::After(0), Op::NonemptyRange(2, 0)],
                        vec![Op::Convert(0), Op::Iterate(0, Pos::Lo(2), Pos::Lo(1)), Op::NoProof(0), Op::UpperMiddle(0), Op::From(0), Op::Write(0, 0)],
                    ];
                    for l in lists {
                        v.push(Case { kind, ty, n: n as u32, guards: (a + b) % 2, ops: [vec![first], l].concat() });
                    }
                }
            }
        }
    }
    Box::new(v.into_iter())
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every range of containers up to length 6 (10 thorough) through eight derivation chains; non-trivial: more than 4 ranges and pointers compared", small, test),
        group("histories", "chains of derivations over all container kinds and element types of non-zero size; non-trivial as above", 80000, strat, test),
        group("large", "the same up to 10000 elements; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 40, far, test),
        far::far::<23>(1000),
        giant::giant::<23>(2000),
    ]);
}
