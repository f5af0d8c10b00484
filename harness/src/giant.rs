//! Elements of several thousand bytes: everything on a handful of them.

#![cfg_attr(not(feature = "ptr"), allow(unused))]
use indexing::algorithms::*;
use indexing::scope;
use std::cell::Cell;
use std::cmp::Ordering;
use vh::data::*;
use vh::*;

#[derive(Clone, Copy)]
pub struct G<const N: usize> {
    key: [u8; 4],
    id: [u8; 4],
    pad: [u8; N],
}
impl<const N: usize> G<N> {
    fn new(key: u32, id: u32) -> Self {
        let mut pad = [(key ^ id) as u8; N];
        pad[N / 2] = id as u8;
        pad[N - 1] = key as u8;
        G { key: key.to_ne_bytes(), id: id.to_ne_bytes(), pad }
    }
    fn key(&self) -> u32 {
        u32::from_ne_bytes(self.key)
    }
    fn id(&self) -> u32 {
        u32::from_ne_bytes(self.id)
    }
    /// Key and identity of an element that is in one piece
    fn sig(&self) -> (u32, u32) {
        let c = (self.key() ^ self.id()) as u8;
        let torn = |k: usize| self.pad[k] != c && k != N / 2 && k != N - 1;
        if (0..N).step_by(61).any(torn) || torn(1) || torn(N - 2) || self.pad[N / 2] != self.id() as u8 || self.pad[N - 1] != self.key() as u8 {
            return (u32::MAX, u32::MAX);
        }
        (self.key(), self.id())
    }
}
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAIL: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn count() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > FAIL.with(|c| c.get()) {
        std::panic::panic_any(Injected);
    }
}
impl<const N: usize> PartialEq for G<N> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl<const N: usize> Eq for G<N> {}
impl<const N: usize> PartialOrd for G<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for G<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        count();
        self.key().cmp(&o.key())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 131063 or 5003 bytes
    huge: bool,
    keys: Vec<u8>,
    what: u8,
    r: (Pos, Pos),
    s: (Pos, Pos),
    q: u8,
}

pub fn giant<const ID: u8>(n: u32) -> Box<dyn AnyGroup> {
    group(
        "large_elements",
        "the same on up to 50 elements of some 5000 or 130000 bytes; non-trivial: at least two elements",
        n,
        || {
            let keys = prop_oneof![3 => prop::collection::vec(0u8..8, 0..12), 1 => prop::collection::vec(any::<u8>(), 0..50)];
            (any::<bool>(), keys, any::<u8>(), (pos(), pos()), (pos(), pos()), 0u8..60)
                .prop_map(|(huge, keys, what, r, s, q)| Case { huge, keys, what, r, s, q })
        },
        |c, st| {
            st.nt(c.keys.len() > 1);
            if c.huge {
                run::<ID, 131063>(c)
            } else {
                run::<ID, 5003>(c)
            }
        },
    )
}

type M = Vec<(u32, u32)>;
fn sg<const N: usize>(v: &[G<N>]) -> M {
    v.iter().map(|x| x.sig()).collect()
}
fn sorted(m: &M) -> M {
    let mut m = m.clone();
    m.sort();
    m
}

fn run<const ID: u8, const N: usize>(c: &Case) -> Res {
    FAIL.with(|f| f.set(u64::MAX));
    CALLS.with(|f| f.set(0));
    let mut v: Vec<G<N>> = c.keys.iter().enumerate().map(|(i, k)| G::new(*k as u32, i as u32)).collect();
    let m = sg(&v);
    let n = v.len();
    let ((a, b), (d, e)) = (span(c.r.0, c.r.1, n), span(c.s.0, c.s.1, n));
    let q = c.q as u32;
    match ID {
        10 => elements(&mut v, m, a, b),
        11 => paired(&mut v, m, (a, b), (d, e)),
        12 => moves(&mut v, m, c.what, (a, b), (d, e)),
        13 => growth(v, m, &[(c.what, a), (c.q, d), (c.q / 2, e)]),
        15 => scans(&mut v, m, c.what, a, b, q % 9),
        17 | 18 | 22 => {
            if ID == 22 {
                FAIL.with(|f| f.set(c.q as u64 * 3));
            }
            // the last two are not stable
            let alg = if ID == 18 { c.what % 4 } else { c.what % 8 };
            let less = |a: &G<N>, b: &G<N>| a < b;
            let r = catch(|| match alg {
                0 => insertion_sort_indexes(&mut v, less),
                1 => insertion_sort_ranges(&mut v, less),
                2 => insertion_sort_rust(&mut v, less),
                #[cfg(feature = "ptr")]
                3 => insertion_sort_pointerindex(&mut v, less),
                4 => quicksort_range(&mut v),
                5 => quicksort_bounds(&mut v),
                #[cfg(feature = "ptr")]
                6 => quicksort_prange(&mut v),
                #[cfg(feature = "ptr")]
                7 => insertion_sort_prange_lower(&mut v, less),
                _ => insertion_sort_indexes(&mut v, less),
            });
            FAIL.with(|f| f.set(u64::MAX));
            let mut want = m.clone();
            want.sort_by_key(|x| x.0);
            match r {
                Ok(()) if alg < 4 => ensure_eq!(sg(&v), want, "sort {} of {:?}", alg, m),
                Ok(()) => {
                    ensure_eq!(sorted(&sg(&v)), sorted(&m), "elements after sort {} of {:?}", alg, m);
                    ensure!(v.windows(2).all(|w| w[0].key() <= w[1].key()), "sort {} of {:?} leaves {:?}", alg, m, sg(&v));
                }
                Err(p) if p.is::<Injected>() => ensure_eq!(sorted(&sg(&v)), sorted(&m), "elements after sort {} of {:?}, broken off by a panic", alg, m),
                Err(p) => std::panic::resume_unwind(p),
            }
            Ok(())
        }
        19 => {
            heapify(&mut v);
            ensure_eq!(sorted(&sg(&v)), sorted(&m), "elements after heapify of {:?}", m);
            ensure!((1..n).all(|k| v[(k - 1) / 2].key() <= v[k].key()), "heapify of {:?} leaves {:?}", m, sg(&v));
            Ok(())
        }
        20 => searches(v, q),
        21 => merge(v, c.what, a, q as usize),
        #[cfg(feature = "ptr")]
        23 => pointers(&mut v, m, (a, b), (d, e)),
        #[cfg(feature = "ptr")]
        24 => element_wise(&mut v, m, c.what, (a, b), (d, e)),
        _ => Ok(()),
    }
}

fn elements<const N: usize>(v: &mut [G<N>], mut m: M, a: usize, b: usize) -> Res {
    let n = m.len();
    scope(&mut v[..], |mut c| -> Res {
        let r = c.vet_range(a..b).map_err(|_| "range refused")?;
        ensure_eq!(sg(&c[r]), m[a..b].to_vec(), "slice {}..{}", a, b);
        ensure_eq!(sg(&mut c[r]), m[a..b].to_vec(), "mutable slice {}..{}", a, b);
        let (f, p) = (r.first(), r.past_the_end());
        for (i, k) in [(f, a), (p, b)] {
            ensure_eq!((sg(&c[..i]), sg(&c[i..])), (m[..k].to_vec(), m[k..].to_vec()), "slices at {}", k);
            ensure_eq!((sg(&mut c[..i]), sg(&mut c[i..])), (m[..k].to_vec(), m[k..].to_vec()), "mutable slices at {}", k);
        }
        for i in r {
            ensure_eq!(c[i].sig(), m[i.integer()], "element {}", i.integer());
        }
        if let Ok(r) = r.nonempty() {
            for i in [r.first(), r.last()] {
                c[i] = G::new(300, i.integer() as u32);
                m[i.integer()] = (300, i.integer() as u32);
            }
            ensure_eq!(sg(&c[..]), m, "written");
        }
        Ok(())
    })?;
    ensure_eq!((v.len(), sg(v)), (n, m), "after the scope");
    Ok(())
}

fn paired<const N: usize>(v: &mut [G<N>], m: M, (a, b): (usize, usize), (d, e): (usize, usize)) -> Res {
    scope(&mut v[..], |mut c| -> Res {
        let r = c.vet_range(a..b).map_err(|_| "range refused")?;
        let s = c.vet_range(d..e).map_err(|_| "range refused")?;
        let got = c.index_twice(r, s).map(|(x, y)| (sg(x), sg(y))).ok();
        ensure_eq!(got, (b <= d).then(|| (m[a..b].to_vec(), m[d..e].to_vec())), "index_twice({}..{}, {}..{})", a, b, d, e);
        let mut got = vec![];
        c.zip_mut_raw(r, s, |x, y| got.push(unsafe { ((*x).sig(), (*y).sig()) }));
        let want: Vec<_> = m[a..b].iter().copied().zip(m[d..e].iter().copied()).collect();
        ensure_eq!(got, want, "zip_mut_raw({}..{}, {}..{})", a, b, d, e);
        Ok(())
    })?;
    ensure_eq!(sg(v), m, "afterwards");
    Ok(())
}

fn moves<const N: usize>(v: &mut [G<N>], mut m: M, what: u8, (a, b): (usize, usize), (d, e): (usize, usize)) -> Res {
    scope(&mut v[..], |mut c| -> Res {
        for (k, (a, b)) in [(a, b), (d, e)].into_iter().enumerate() {
            let r = c.vet_range(a..b).map_err(|_| "range refused")?;
            match what / 8u8.pow(k as u32) % 5 {
                0 => {
                    c.rotate1_up(r);
                    m[a..b].rotate_right((b > a) as usize);
                }
                1 => {
                    c.rotate1_down(r);
                    m[a..b].rotate_left((b > a) as usize);
                }
                2 => {
                    if let Ok(r) = r.nonempty() {
                        c.swap(r.first(), r.last());
                        m.swap(a, b - 1);
                    }
                }
                #[cfg(feature = "ptr")]
                w => {
                    let mut it = c.pointer_range().into_iter();
                    for _ in 0..a {
                        it.next();
                    }
                    for _ in b..m.len() {
                        it.next_back();
                    }
                    if let Ok(p) = it.into_range().nonempty() {
                        if w == 3 {
                            c.rotate1_prange(p);
                            m[a..b].rotate_right(1);
                        } else {
                            c.swap_ptr(p.first(), p.last());
                            m.swap(a, b - 1);
                        }
                    }
                }
                #[cfg(not(feature = "ptr"))]
                _ => {}
            }
            ensure_eq!(sg(&c[..]), m, "after step {} on {}..{}", k, a, b);
        }
        Ok(())
    })?;
    ensure_eq!(sg(v), m, "after the scope");
    Ok(())
}

fn growth<const N: usize>(mut v: Vec<G<N>>, mut m: M, steps: &[(u8, usize)]) -> Res {
    v.reserve(steps[0].0 as usize % 4);
    scope(&mut v, |c| -> Res {
        let held = c.range();
        let mut c = c.only_index();
        for (k, (what, at)) in steps.iter().enumerate() {
            let x = (k as u32 + 400, k as u32 + 400);
            if what % 2 == 0 {
                let i = c.push(G::new(x.0, x.1));
                ensure_eq!((i.integer(), c[i].sig()), (m.len(), x), "pushed");
                m.push(x);
            } else {
                let i = c.vet_range(*at..*at).map_err(|_| "range refused")?.first();
                c.insert(i, G::new(x.0, x.1));
                m.insert(*at, x);
            }
            ensure_eq!((c.len(), sg(&c[..])), (m.len(), m.clone()), "after step {}", k);
            ensure_eq!(sg(&c[held]), m[held.as_range()].to_vec(), "range held");
        }
        Ok(())
    })?;
    ensure_eq!(sg(&v), m, "after the scope");
    Ok(())
}

fn scans<const N: usize>(v: &mut [G<N>], m: M, what: u8, a: usize, b: usize, q: u32) -> Res {
    let accept = |x: &(u32, u32)| x.0 < q;
    scope(&mut v[..], |c| -> Res {
        let r = c.vet_range(a..b).map_err(|_| "range refused")?;
        let mut seen = vec![];
        let run = m[a..b].iter().take_while(|x| accept(x)).count();
        let (x, y) = c.scan_range(r, |g| {
            seen.push(g.sig());
            accept(&g.sig())
        });
        ensure_eq!((x.as_range(), y.as_range()), (a..a + run, a + run..b), "scan_range({}..{}) of {:?}", a, b, m);
        ensure_eq!(seen, m[a..b.min(a + run + 1)].to_vec(), "visited by scan_range({}..{})", a, b);
        if let Ok(r) = r.nonempty() {
            let i = if what % 2 == 0 { r.first() } else { r.last() };
            let k = i.integer();
            let run = m[k + 1..].iter().take_while(|x| accept(x)).count();
            ensure_eq!(c.scan_from(i, |g| accept(&g.sig())).as_range(), k..k + 1 + run, "scan_from({}) of {:?}", k, m);
            let run = m[..k].iter().rev().take_while(|x| accept(x)).count();
            ensure_eq!(c.scan_from_rev(i, |g| accept(&g.sig())).as_range(), k - run..k + 1, "scan_from_rev({}) of {:?}", k, m);
        }
        #[cfg(feature = "ptr")]
        {
            let mut it = c.pointer_range().into_iter();
            for _ in 0..a {
                it.next();
            }
            for _ in b..m.len() {
                it.next_back();
            }
            let p = it.into_range();
            let (x, y) = c.scan_pointer_range(p, |g| accept(&g.sig()));
            ensure_eq!((sg(&c[x]), sg(&c[y])), (m[a..a + run].to_vec(), m[a + run..b].to_vec()), "scan_pointer_range({}..{})", a, b);
            let run = m[a..b].iter().rev().take_while(|x| accept(x)).count();
            let (x, y) = c.scan_pointer_range_rev(p, |g| accept(&g.sig()));
            ensure_eq!((sg(&c[x]), sg(&c[y])), (m[a..b - run].to_vec(), m[b - run..b].to_vec()), "scan_pointer_range_rev({}..{})", a, b);
            if let Ok(p) = p.nonempty() {
                let run = m[..b - 1].iter().rev().take_while(|x| accept(x)).count();
                ensure_eq!(sg(&c[c.scan_tail_(p.last(), |g| accept(&g.sig()))]), m[b - 1 - run..b].to_vec(), "scan_tail_({})", b - 1);
            }
        }
        Ok(())
    })
}

fn searches<const N: usize>(mut v: Vec<G<N>>, q: u32) -> Res {
    v.sort_by_key(|x| x.key());
    let g = G::<N>::new(q, 999);
    let at = v.iter().take_while(|x| x.key() < q).count();
    let keys: Vec<u32> = v.iter().map(|x| x.key()).collect();
    ensure_eq!((lower_bound(&v, &g), lower_bound_raw_ptr(&v, &g)), (at, at), "lower bound of {} in {:?}", q, keys);
    let found = |r: Result<usize, usize>| match r {
        Ok(i) => i < keys.len() && keys[i] == q,
        Err(i) => i == at && !keys.contains(&q),
    };
    let r = (binary_search(&v, &g), binary_search_by(&v, |x| x.cmp(&g)));
    ensure!(found(r.0) && found(r.1), "search for {} in {:?} is {:?}", q, keys, r);
    #[cfg(feature = "ptr")]
    {
        ensure_eq!((lower_bound_prange(&v, &g), lower_bound_pslice(&v, |x| *x < g)), (at, at), "lower bound of {} in {:?}", q, keys);
        let r = (binary_search_by_prange(&v, |x| x.cmp(&g)), binary_search_by_pslice(&v, |x| x.cmp(&g)));
        ensure!(found(r.0) && found(r.1), "pointer search for {} in {:?} is {:?}", q, keys, r);
    }
    Ok(())
}

fn merge<const N: usize>(mut v: Vec<G<N>>, what: u8, mid: usize, spare: usize) -> Res {
    v[..mid].sort_by_key(|x| x.key());
    v[mid..].sort_by_key(|x| x.key());
    if v.is_empty() {
        return Ok(());
    }
    let m = sg(&v);
    let size = (mid + spare % 3).saturating_sub(1);
    let mut buf: Vec<G<N>> = (0..size as u32).map(|k| G::new(k + 300, k + 300)).collect();
    let b = sg(&buf);
    let r = if what % 2 == 0 { merge_internal_ranges(&mut v, mid, &mut buf).is_ok() } else { merge_internal_indices(&mut v, mid, &mut buf).is_ok() };
    ensure_eq!(r, mid <= size, "merge at {} with a buffer of {}", mid, size);
    let mut want = m.clone();
    if r {
        want.sort_by_key(|x| x.0);
        ensure_eq!((sg(&v), sorted(&sg(&buf))), (want, b), "merge of {:?} at {}", m, mid);
    } else {
        ensure_eq!((sg(&v), sg(&buf)), (want, b), "refused merge");
    }
    Ok(())
}

#[cfg(feature = "ptr")]
fn pointers<const N: usize>(v: &mut [G<N>], m: M, (a, b): (usize, usize), (d, e): (usize, usize)) -> Res {
    use indexing::pointer::{PRange, PSlice};
    let n = m.len();
    scope(&mut v[..], |c| -> Res {
        let part = |a: usize, b: usize| {
            let mut it = c.pointer_range().into_iter();
            for _ in 0..a {
                it.next();
            }
            for _ in b..n {
                it.next_back();
            }
            it.into_range()
        };
        let p = part(a, b);
        let s = PSlice::from(p);
        macro_rules! at {
            ($p:expr) => {{
                let p = $p;
                (c.distance_to(p.first()), c.distance_to(p.past_the_end()))
            }};
        }
        ensure_eq!((p.len(), s.len(), at!(p), at!(s)), (b - a, b - a, (a, b), (a, b)), "range {}..{}", a, b);
        ensure!(PRange::from(s) == p, "conversion of {}..{}", a, b);
        ensure_eq!(sg(&c[p]), m[a..b].to_vec(), "slice {}..{}", a, b);
        ensure_eq!(p.into_iter().map(|i| c[i].sig()).collect::<Vec<_>>(), m[a..b].to_vec(), "elements {}..{}", a, b);
        ensure_eq!((sg(&c[..p.first()]), sg(&c[p.first()..])), (m[..a].to_vec(), m[a..].to_vec()), "slices at {}", a);
        let h = a + (b - a) / 2;
        let ((x, y), (z, w)) = (p.split_in_half(), s.split_in_half());
        ensure_eq!((at!(x), at!(y), at!(z), at!(w)), ((a, h), (h, b), (a, h), (h, b)), "halves of {}..{}", a, b);
        ensure_eq!((c.distance_to(p.upper_middle()), c.distance_to(s.upper_middle())), (h, h), "middle of {}..{}", a, b);
        ensure_eq!(p.nonempty().is_ok(), a < b, "proof for {}..{}", a, b);
        if let (Ok(mut p), Ok(mut s)) = (p.nonempty(), s.nonempty()) {
            ensure_eq!((c.distance_to(p.last()), c.distance_to(s.last())), (b - 1, b - 1), "last of {}..{}", a, b);
            ensure_eq!((at!(p.tail()), at!(p.init()), at!(s.tail()), at!(s.init())), ((a + 1, b), (a, b - 1), (a + 1, b), (a, b - 1)), "tail and init of {}..{}", a, b);
            let (mut l, mut h) = (a, b);
            for k in 0..6 {
                let ok = h - l > 1;
                let got = if k % 2 == 0 { (p.advance(), s.advance()) } else { (p.advance_back(), s.advance_back()) };
                ensure_eq!(got, (ok, ok), "advancing {}..{}", l, h);
                if ok {
                    l += 1 - k % 2;
                    h -= k % 2;
                }
                let (x, y) = (c.distance_to(p.first()), c.distance_to(p.past_the_end()));
                ensure_eq!((x, y, c.distance_to(s.first()), c.distance_to(s.past_the_end())), (l, h, l, h), "range advanced");
            }
        }
        let q = part(d, e);
        let got = c.nonempty_range(p.past_the_end(), q.first()).map(|r| (c.distance_to(r.first()), c.distance_to(r.past_the_end()))).ok();
        ensure_eq!(got, (b < d).then_some((b, d)), "nonempty_range({}, {})", b, d);
        Ok(())
    })
}

#[cfg(feature = "ptr")]
fn element_wise<const N: usize>(v: &mut [G<N>], mut m: M, what: u8, (a, b): (usize, usize), (d, e): (usize, usize)) -> Res {
    use indexing::pointer::zip;
    let n = m.len();
    match what % 3 {
        0 => {
            let mut w: Vec<G<N>> = (0..(n / 2 + d) as u32).map(|k| G::new(k + 300, k + 300)).collect();
            let mut want = sg(&w);
            let k = n.min(w.len());
            want[..k].copy_from_slice(&m[..k]);
            if what < 128 {
                copy_prange(v, &mut w);
            } else {
                copy(v, &mut w);
            }
            ensure_eq!(sg(&w), want, "copy of {:?}", m);
        }
        1 => {
            let w: Vec<G<N>> = m.iter().map(|x| G::new(x.0 + 300, x.1)).collect();
            let mut got = vec![];
            scope(&mut v[..], |mut x| {
                scope(&w[..], |y| {
                    let mut i = x.pointer_range().into_iter();
                    for _ in 0..a {
                        i.next();
                    }
                    for _ in b..n {
                        i.next_back();
                    }
                    let mut j = y.pointer_range().into_iter();
                    for _ in 0..d {
                        j.next();
                    }
                    for _ in e..n {
                        j.next_back();
                    }
                    zip(i.into_range(), &mut x, j.into_range(), &y, |x, y| {
                        got.push((x.sig(), y.sig()));
                        *x = G::new(y.key(), y.id());
                    });
                })
            });
            let k = (b - a).min(e - d);
            let want: Vec<_> = (0..k).map(|k| (m[a + k], sg(&w)[d + k])).collect();
            ensure_eq!(got, want, "zip of {}..{} and {}..{}", a, b, d, e);
            for k in 0..k {
                m[a + k] = w[d + k].sig();
            }
        }
        _ => {
            scope(&mut v[..], |mut c| -> Res {
                let mut it = c.pointer_range().into_iter();
                for _ in 0..a {
                    it.next();
                }
                let p = it.into_range().first();
                c.split_container_at_pointer(p, |mut x, xr, mut y, yr| -> Res {
                    ensure_eq!((sg(&x[xr]), sg(&y[yr])), (m[..a].to_vec(), m[a..].to_vec()), "parts at {}", a);
                    ensure_eq!((x.len(), y.len(), sg(&x[..]), sg(&y[..])), (a, n - a, m[..a].to_vec(), m[a..].to_vec()), "containers at {}", a);
                    for (s, at) in [(&mut x[..], 0), (&mut y[..], a)] {
                        if let Some(g) = s.last_mut() {
                            *g = G::new(350, 350);
                            let k = at + s.len() - 1;
                            m[k] = (350, 350);
                        }
                    }
                    Ok(())
                })
            })?;
        }
    }
    ensure_eq!(sg(v), m, "afterwards");
    Ok(())
}
