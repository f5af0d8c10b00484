//! C24: pointer zips, copies, dot products, and splitting a container.
#![cfg_attr(not(feature = "ptr"), allow(unused))]
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::{scope, Container};
use vh::data::*;
use vh::hook::hook_tick;
use vh::*;

#[path = "../giant.rs"]
mod giant;
#[path = "../nest.rs"]
mod nest;
#[path = "../far.rs"]
mod far;
#[path = "../conts.rs"]
mod conts;
use conts::*;

#[cfg(feature = "ptr")]
use indexing::pointer::{zip, PIndex, PRange, PSlice};

#[cfg(feature = "ptr")]
fn sub<'id, A: Contiguous>(c: &Container<'id, A>, a: usize, b: usize) -> PRange<'id, A::Item> {
    let len = c.len();
    let mut it = c.pointer_range().into_iter();
    for _ in 0..a {
        it.next();
    }
    for _ in b..len {
        it.next_back();
    }
    it.into_range()
}

// ------------------------------------------------------------ zip

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zip {
    t1: Ty,
    t2: Ty,
    n: u32,
    m: u32,
    r1: (Pos, Pos),
    r2: (Pos, Pos),
    /// representation (PRange or PSlice) and proof of each side
    form1: u8,
    form2: u8,
    mut1: bool,
    mut2: bool,
    guards: u8,
}

#[cfg(feature = "ptr")]
fn zips<T: Elem, U: Elem>(case: &Zip, st: &mut Stats) -> Res {
    ledger_reset();
    {
        let key = |n: u32| (0..n as u32).map(|k| k * 7 % 251).collect::<Vec<_>>();
        let mut x: Buf<T> = Buf::new(&key(case.n), case.guards as usize);
        let mut y: Buf<U> = Buf::new_from(&key(case.m), case.guards as usize, 30000);
        let (mut mx, mut my) = (sigs(x.s()), sigs(y.s()));
        let (n, m) = (mx.len(), my.len());
        let ((a, b), (c, d)) = (span(case.r1.0, case.r1.1, n), span(case.r2.0, case.r2.1, m));
        let want = (b - a).min(d - c);
        let (bx, by) = (x.s().as_ptr(), y.s().as_ptr());
        let mut calls = 0usize;
        let mut bad: Res = Ok(());
        // what the function is given in call k
        let mut check = |p: *const T, q: *const U| -> Option<usize> {
            hook_tick();
            let k = calls;
            calls += 1;
            let r = (|| {
                ensure!(k < want, "call {} of the function, the shorter range has {} elements", k + 1, want);
                ensure_eq!(pos_of(bx, n, p)?, a + k, "left position in call {}", k);
                ensure_eq!(pos_of(by, m, q)?, c + k, "right position in call {}", k);
                Ok(())
            })();
            let ok = r.is_ok();
            if bad.is_ok() {
                bad = r;
            }
            ok.then_some(k)
        };
        let nt = |k: usize| T::make(k as u32 % 200, 200 + k as u32);
        let nu = |k: usize| U::make(k as u32 % 200, 300 + k as u32);
        macro_rules! go {
            ($v:ident, $u:ident, $cv:expr, $cu:expr, $f:expr) => {{
                let (r, s) = (sub(&$v, a, b), sub(&$u, c, d));
                let (rs, ss): (PSlice<T>, PSlice<U>) = (r.into(), s.into());
                match (case.form1 % 4, case.form2 % 4, r.nonempty(), s.nonempty()) {
                    (0, 0, _, _) => zip(r, $cv, s, $cu, $f),
                    (0, 1, _, _) => zip(r, $cv, ss, $cu, $f),
                    (1, 0, _, _) => zip(rs, $cv, s, $cu, $f),
                    (1, 1, _, _) => zip(rs, $cv, ss, $cu, $f),
                    (2, 2, Ok(r), Ok(s)) => zip(r, $cv, s, $cu, $f),
                    (2, _, Ok(r), _) => zip(r, $cv, ss, $cu, $f),
                    (3, _, Ok(_), _) => zip(rs.nonempty().unwrap(), $cv, s, $cu, $f),
                    (_, 2, _, Ok(s)) => zip(r, $cv, s, $cu, $f),
                    (_, 3, _, Ok(_)) => zip(rs, $cv, ss.nonempty().unwrap(), $cu, $f),
                    _ => zip(rs, $cv, s, $cu, $f),
                }
            }};
        }
        match (case.mut1, case.mut2) {
            (false, false) => scope(x.s(), |v| scope(y.s(), |u| go!(v, u, &v, &u, |p, q| { check(p, q); }))),
            (false, true) => scope(x.s(), |v| {
                scope(y.m(), |mut u| {
                    go!(v, u, &v, &mut u, |p, q| {
                        if let Some(k) = check(p, q) {
                            *q = nu(k)
                        }
                    })
                })
            }),
            (true, false) => scope(x.m(), |mut v| {
                scope(y.s(), |u| {
                    go!(v, u, &mut v, &u, |p, q| {
                        if let Some(k) = check(p, q) {
                            *p = nt(k)
                        }
                    })
                })
            }),
            (true, true) => scope(x.m(), |mut v| {
                scope(y.m(), |mut u| {
                    go!(v, u, &mut v, &mut u, |p, q| {
                        if let Some(k) = check(p, q) {
                            *p = nt(k);
                            *q = nu(k)
                        }
                    })
                })
            }),
        }
        bad?;
        ensure_eq!(calls, want, "calls of the function for {} and {} elements", b - a, d - c);
        for k in 0..want {
            if case.mut1 {
                mx[a + k] = nt(k).sig()
            }
            if case.mut2 {
                my[c + k] = nu(k).sig()
            }
        }
        ensure_eq!(sigs(x.s()), mx, "left data afterwards");
        ensure_eq!(sigs(y.s()), my, "right data afterwards");
        x.guards_ok()?;
        y.guards_ok()?;
        st.nt(want > 0 && (a, b, c, d) != (0, n, 0, m));
        st.label_if(b - a != d - c, "different lengths");
        st.label_if(want == 0, "nothing to zip");
    }
    ledger_settled()
}

fn test_zip(case: &Zip, st: &mut Stats) -> Res {
    #[cfg(feature = "ptr")]
    {
        fn first<T: Elem>(case: &Zip, st: &mut Stats) -> Res {
            match case.t2 {
                Ty::U8 => zips::<T, u8>(case, st),
                Ty::U16 | Ty::B3 => zips::<T, B3>(case, st),
                Ty::Big => zips::<T, Big>(case, st),
                Ty::T12 | Ty::W32 => zips::<T, W32>(case, st),
                Ty::Bx | Ty::Str => zips::<T, Str>(case, st),
                Ty::Trk => zips::<T, Trk>(case, st),
                _ => zips::<T, Kv>(case, st),
            }
        }
        return with_ty!(if case.t1.zst() { Ty::Kv } else { case.t1 }, first, case, st);
    }
    #[cfg(not(feature = "ptr"))]
    Ok(())
}

fn strat_zip() -> impl Strategy<Value = Zip> {
    zip_len(prop_oneof![1 => 0u32..3, 5 => 3u32..14, 1 => 0u32..100], prop_oneof![1 => 0u32..3, 5 => 3u32..14, 1 => 0u32..100])
}
fn large_zip() -> impl Strategy<Value = Zip> {
    let n = || big().prop_map(|n| n as u32);
    zip_len(n(), n())
}
fn vast_zip() -> impl Strategy<Value = Zip> {
    let n = || vast().prop_map(|n| n as u32);
    zip_len(n(), n())
}
fn zip_len(n: impl Strategy<Value = u32>, m: impl Strategy<Value = u32>) -> impl Strategy<Value = Zip> {
    ((ty_nz(), ty_nz(), n, m), ((pos(), pos()), (pos(), pos()), 0u8..4, 0u8..4), (any::<bool>(), any::<bool>(), 0u8..3)).prop_map(
        |((t1, t2, n, m), (r1, r2, form1, form2), (mut1, mut2, guards))| Zip { t1, t2, n, m, r1, r2, form1, form2, mut1, mut2, guards },
    )
}

// ------------------------------------------------------------ copy, dot

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat {
    fun: u8,
    ty: u8,
    n: u32,
    m: u32,
    seed: u32,
    guards: u8,
}

fn copies<T: Elem + Copy>(case: &Flat, st: &mut Stats) -> Res {
    let key = |n: u32, s: u32| (0..n as u32).map(|k| mix((s as u64) << 32 | k as u64) as u32 % 1000).collect::<Vec<_>>();
    let x: Buf<T> = Buf::new(&key(case.n, case.seed), case.guards as usize);
    let mut y: Buf<T> = Buf::new_from(&key(case.m, !case.seed), case.guards as usize, 30000);
    let (mx, mut my) = (sigs(x.s()), sigs(y.s()));
    let k = mx.len().min(my.len());
    match case.fun {
        0 => copy(x.s(), y.m()),
        #[cfg(feature = "ptr")]
        1 if std::mem::size_of::<T>() > 0 => copy_prange(x.s(), y.m()),
        _ => return Ok(()),
    }
    my[..k].copy_from_slice(&mx[..k]);
    ensure_eq!(sigs(y.s()), my, "target of copying {} elements to {}", mx.len(), my.len());
    ensure_eq!(sigs(x.s()), mx, "source");
    x.guards_ok()?;
    y.guards_ok()?;
    st.nt(k > 0);
    st.label_if(mx.len() < my.len(), "source shorter");
    st.label_if(mx.len() > my.len(), "source longer");
    Ok(())
}

fn dot(case: &Flat, st: &mut Stats) -> Res {
    // mostly small enough that no plain sum overflows; in builds where
    // arithmetic wraps (as shipped) also any values at all
    let wrap = case.ty >= 5 && !cfg!(debug_assertions);
    let val = |n: u32, s: u32| {
        (0..n as u32)
            .map(|k| {
                let z = mix((s as u64) << 32 | k as u64);
                match z >> 62 {
                    _ if !wrap => (z % 4001) as i32 - 2000,
                    0 => [i32::MAX, i32::MIN, 1, -1][z as usize % 4],
                    1 => z as i32 % 5,
                    _ => z as i32,
                }
            })
            .collect::<Vec<i32>>()
    };
    let mk = |v: &[i32], g: usize| {
        // poisoned neighbours
        let mut all = vec![i32::MAX; g];
        all.extend(v);
        all.extend(vec![i32::MAX; g]);
        all
    };
    let (a, b) = (val(case.n, case.seed), val(case.m, !case.seed));
    let g = case.guards as usize;
    let (x, y) = (mk(&a, g), mk(&b, g));
    let (x, y) = (&x[g..g + a.len()], &y[g..g + b.len()]);
    let want = a.iter().zip(&b).fold(0i32, |s, (p, q)| s.wrapping_add(p.wrapping_mul(*q)));
    #[cfg(feature = "ptr")]
    {
        let got = if case.fun == 2 { zip_dot_i32(x, y) } else { zip_dot_i32_prange(x, y) };
        ensure_eq!(got, want, "dot product of {} and {} elements", a.len(), b.len());
        st.nt(a.len().min(b.len()) > 1);
        st.label_if(wrap, "values that overflow");
    }
    let _ = (x, y, want, st);
    Ok(())
}

fn test_flat(case: &Flat, st: &mut Stats) -> Res {
    if case.fun >= 2 {
        return dot(case, st);
    }
    match case.ty {
        0 => copies::<u8>(case, st),
        1 => copies::<Kv>(case, st),
        2 => copies::<B3>(case, st),
        3 => copies::<u16>(case, st),
        4 => copies::<Big>(case, st),
        6 => copies::<T12>(case, st),
        7 => copies::<W32>(case, st),
        5 => copies::<i32>(case, st),
        _ => copies::<Z>(case, st),
    }
}

fn strat_flat() -> impl Strategy<Value = Flat> {
    let n = || prop_oneof![4 => 0u32..12, 1 => 0u32..140];
    flat_len(n(), n())
}
fn large_flat() -> impl Strategy<Value = Flat> {
    let n = || big().prop_map(|n| n as u32);
    flat_len(n(), n())
}
fn vast_flat() -> impl Strategy<Value = Flat> {
    let n = || vast().prop_map(|n| n as u32);
    flat_len(n(), n())
}
fn flat_len(n: impl Strategy<Value = u32>, m: impl Strategy<Value = u32>) -> impl Strategy<Value = Flat> {
    (0u8..4, 0u8..9, n, m, any::<u32>(), 0u8..3).prop_map(|(fun, ty, n, m, seed, guards)| Flat { fun, ty, n, m, seed, guards })
}

fn small_flat(thorough: bool) -> Box<dyn Iterator<Item = Flat>> {
    let max = if thorough { 20 } else { 9 };
    Box::new((0..=max).flat_map(move |n| {
        (0..=max).flat_map(move |m| (0..4).flat_map(move |fun| (0..9).map(move |ty| Flat { fun, ty, n, m, seed: (n * 31 + m) as u32, guards: (n % 2) as u8 })))
    }))
}

// ------------------------------------------------------------ split

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Split {
    kind: u8,
    ty: Ty,
    n: u32,
    at: Pos,
    /// pointer with a proof?
    proof: bool,
    guards: u8,
    ops: Vec<(bool, Pos, Pos, u8)>,
}

#[cfg(feature = "ptr")]
fn split_in<'id, A, T: Elem>(mut c: Container<'id, A>, base: *const T, model: &mut Vec<u64>, case: &Split, st: &mut Stats) -> Res
where
    A: ContiguousMut<Item = T>,
{
    let len = model.len();
    let proof = case.proof && len > 0;
    let n = if proof { case.at.idx(len) } else { case.at.at(len) };
    fn full<'x, T: Elem, P>(c: &Container<'x, &mut [T]>, r: PRange<'x, T, P>, base: *const T, want: &[u64], what: &str) -> Res {
        ensure_eq!(c.len(), want.len(), "length of the {} container", what);
        ensure_eq!(c[..].as_ptr(), base, "address of the {} container", what);
        ensure_eq!(sigs(&c[..]), want.to_vec(), "{} container", what);
        ensure_eq!(c[r].as_ptr(), base, "address of the {} range", what);
        ensure_eq!(sigs(&c[r]), want.to_vec(), "{} range", what);
        ensure!(c.pointer_range() == r, "the {} range is the full range of its container", what);
        Ok(())
    }
    macro_rules! inside {
        ($l:ident, $lr:ident, $r:ident, $rr:ident) => {{
            full(&$l, $lr, base, &model[..n], "left")?;
            full(&$r, $rr, base.wrapping_add(n), &model[n..], "right")?;
            for (left, a, b, how) in &case.ops {
                let part = if *left { &mut model[..n] } else { &mut model[n..] };
                let (x, y) = span(*a, *b, part.len());
                if x == y {
                    continue;
                }
                macro_rules! act {
                    ($c:ident) => {{
                        let r = $c.vet_range(x..y).unwrap();
                        match how % 3 {
                            0 => {
                                $c.rotate1_up(r);
                                part[x..y].rotate_right(1)
                            }
                            1 => {
                                let p = $c.pointer_range().into_iter().nth(x).unwrap();
                                let q = $c.pointer_range().into_iter().nth(y - 1).unwrap();
                                $c.swap_ptr(p, q);
                                part.swap(x, y - 1)
                            }
                            _ => {
                                let new = |j: usize| T::make(*how as u32 + j as u32, 400 + j as u32);
                                for (j, e) in $c[r].iter_mut().enumerate() {
                                    *e = new(j);
                                    part[x + j] = new(j).sig();
                                }
                            }
                        }
                    }};
                }
                if *left {
                    act!($l)
                } else {
                    act!($r)
                }
            }
            full(&$l, $lr, base, &model[..n], "left")?;
            full(&$r, $rr, base.wrapping_add(n), &model[n..], "right")?;
            Ok::<u32, String>(77)
        }};
    }
    let got = if proof {
        let p: PIndex<T> = c.pointer_range().into_iter().nth(n).unwrap();
        c.split_container_at_pointer(p, |l, lr, r, rr| {
            let (mut l, mut r) = (l, r);
            // a proven pointer proves the right half
            let _: PRange<'_, T, indexing::NonEmpty> = rr;
            ensure!(!rr.is_empty(), "the right range is proven non-empty and is empty");
            ensure_eq!(&r[rr.first()] as *const T, base.wrapping_add(n), "first element of the right half");
            inside!(l, lr, r, rr)
        })
    } else {
        let p = sub(&c, n, len).first();
        c.split_container_at_pointer(p, |l, lr, r, rr| {
            let (mut l, mut r) = (l, r);
            inside!(l, lr, r, rr)
        })
    };
    ensure_eq!(got?, 77, "the closure's result");
    ensure_eq!(sigs(&c[..]), *model, "container after the split");
    st.nt(n > 0 && n < len && !case.ops.is_empty());
    Ok(())
}

#[cfg(feature = "ptr")]
fn splits<T: Elem>(case: &Split, st: &mut Stats) -> Res {
    ledger_reset();
    {
        let keys: Vec<u32> = (0..case.n as u32).map(|k| k * 7 % 251).collect();
        let mut buf: Buf<T> = Buf::new(&keys, case.guards as usize);
        let mut model = sigs(buf.s());
        let base = buf.s().as_ptr();
        let mut v: Vec<T> = elems(&keys);
        let (vb, mut m2) = (v.as_ptr(), model.clone());
        match case.kind {
            0 => scope(buf.m(), |c| split_in(c, base, &mut model, case, st))?,
            1 => {
                scope(&mut v, |c| split_in(c, vb, &mut m2, case, st))?;
                ensure_eq!(sigs(&v), m2, "vector afterwards");
            }
            2 => scope(v, |c| split_in(c, vb, &mut m2, case, st))?,
            _ => scope(Fixed(v.into_boxed_slice()), |c| split_in(c, vb, &mut m2, case, st))?,
        }
        ensure_eq!(sigs(buf.s()), model, "slice afterwards");
        buf.guards_ok()?;
    }
    ledger_settled()
}
fn test_split(case: &Split, st: &mut Stats) -> Res {
    #[cfg(feature = "ptr")]
    return with_ty!(case.ty, splits, case, st);
    #[cfg(not(feature = "ptr"))]
    Ok(())
}

fn strat_split() -> impl Strategy<Value = Split> {
    split_len(prop_oneof![5 => 0u32..12, 1 => 0u32..120])
}
fn large_split() -> impl Strategy<Value = Split> {
    split_len(big().prop_map(|n| n as u32))
}
fn vast_split() -> impl Strategy<Value = Split> {
    split_len(vast().prop_map(|n| n as u32))
}
fn split_len(n: impl Strategy<Value = u32>) -> impl Strategy<Value = Split> {
    let ops = prop::collection::vec((any::<bool>(), pos(), pos(), any::<u8>()), 0..8);
    (0u8..4, ty_nz(), n, pos(), any::<bool>(), 0u8..3, ops)
        .prop_map(|(kind, ty, n, at, proof, guards, ops)| Split { kind, ty, n, at, proof, guards, ops })
}

fn small_split(thorough: bool) -> Box<dyn Iterator<Item = Split>> {
    let max = if thorough { 12u8 } else { 6 };
    let mut v = vec![];
    for n in 0..=max {
        for at in 0..=n {
            for kind in 0..4 {
                for proof in [false, true] {
                    for ty in [Ty::U8, Ty::Kv, Ty::Trk, Ty::B3] {
                        let all = |l, how| (l, Pos::Lo(0), Pos::Hi(0), how);
                        v.push(Split {
                            kind,
                            ty,
                            n: n as u32,
                            at: Pos::Lo(at),
                            proof,
                            guards: at % 2,
                            ops: vec![all(true, 0), all(false, 1), all(true, 1), all(false, 0), all(false, 2), all(true, 5)],
                        });
                    }
                }
            }
        }
    }
    Box::new(v.into_iter())
}

// ------------------------------------------------------------ zero-sized

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zst {
    probe: String,
    n: u8,
}
fn zst(_: bool) -> Box<dyn Iterator<Item = Zst>> {
    let mut v = vec![];
    if cfg!(feature = "ptr") {
        for f in ["copy_prange", "zip"] {
            for n in 0..4 {
                v.push(Zst { probe: format!("zst:{}", f), n });
            }
        }
    }
    Box::new(v.into_iter())
}
fn test_zst(case: &Zst, st: &mut Stats) -> Res {
    #[cfg(feature = "ptr")]
    {
        let x = vec![Z; case.n as usize];
        let mut y = x.clone();
        st.nt(case.n > 0);
        if case.probe == "zst:copy_prange" {
            if catch(|| copy_prange(&x, &mut y)).is_err() {
                st.label("known:zst:copy_prange");
            }
        } else {
            let mut calls = 0;
            let r = catch(|| scope(&x[..], |v| scope(&y[..], |u| zip(v.pointer_slice(), &v, u.pointer_slice(), &u, |_, _| calls += 1))));
            if r.is_err() || calls != case.n as usize {
                st.label("known:zst:zip");
            }
        }
    }
    let _ = (case, st);
    Ok(())
}

fn zip_nested(c: &Zip, st: &mut Stats) -> Res {
    nest::nested(test_zip, c, st)
}
fn zip_sequence(c: &Vec<(u32, Zip)>, st: &mut Stats) -> Res {
    nest::sequence(test_zip, c, st)
}
fn zip_storm(c: &(u32, Zip), st: &mut Stats) -> Res {
    nest::after_storm(test_zip, &[14, 13], c, st)
}

fn main() {
    vh::main(vec![
        group("zip", "ranges and slices of two containers, shared or mutable, any element types; non-trivial: something to zip, not both whole", 80000, strat_zip, test_zip),
        group("large_zip", "the same with up to 70000 elements; non-trivial as above", 2500, large_zip, test_zip),
        group("vast_zip", "the same beyond 65536 elements; non-trivial as above", 50, vast_zip, test_zip),
        exhaustive("small_flat", "copies and dot products of all lengths up to 9 (20 thorough); non-trivial: something to copy or sum", small_flat, test_flat),
        group("flat", "copies and dot products, any length; non-trivial as above", 40000, strat_flat, test_flat),
        group("large_flat", "the same with up to 70000 elements; non-trivial as above", 2500, large_flat, test_flat),
        group("vast_flat", "the same beyond 65536 elements; non-trivial as above", 60, vast_flat, test_flat),
        exhaustive("small_split", "every split of containers up to length 6 (12 thorough); non-trivial: two non-empty halves, both written", small_split, test_split),
        group("split", "any split, then operations on the halves; non-trivial: two non-empty halves, some operation", 40000, strat_split, test_split),
        group("large_split", "the same with up to 70000 elements; non-trivial as above", 2500, large_split, test_split),
        group("vast_split", "the same beyond 65536 elements; non-trivial as above", 50, vast_split, test_split),
        exhaustive("zst_pointers", "zip and copy of zero-sized elements; non-trivial: not empty", zst, test_zst),
        far::far::<24>(1000),
        group("zip_nested", "the same with other uses of the library inside the callbacks; non-trivial as above", 6000, strat_zip, zip_nested),
        group("zip_sequence", "sequences of such calls on one thread, with other uses of the library in between, some broken off by panics; non-trivial: one of them as above", 3000, || nest::seq(strat_zip()), zip_sequence),
        group("large_zip_storm", "one call after up to many thousand calls broken off by panics on the same thread; non-trivial as above", 400, || (any::<u32>(), strat_zip()), zip_storm),
        giant::giant::<24>(2000),
    ]);
}
