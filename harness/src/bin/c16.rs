//! C16: comparisons and hashes follow the integers.
use indexing::container_traits::*;
use indexing::{scope, Container, Index, Range};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    len: u64,
    i: (Pos, Pos),
    r: (Pos, Pos),
    s: (Pos, Pos),
    /// 1: equal ranges, 2: same start, 3: same end
    glue: u8,
}

/// Concatenates what is hashed.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
    }
}
fn h<X: Hash>(x: &X) -> (u64, Vec<u8>) {
    let mut a = DefaultHasher::new();
    x.hash(&mut a);
    let mut b = Bytes::default();
    x.hash(&mut b);
    (a.finish(), b.0)
}

/// All operators between two values, against the same on their keys.
fn partial<X, Y, K: Ord + Debug + Copy>(x: &X, y: &Y, kx: K, ky: K) -> Res
where
    X: PartialOrd<Y>,
{
    let w = format!("{:?} and {:?}", kx, ky);
    ensure_eq!(x == y, kx == ky, "== of {}", w);
    ensure_eq!(x != y, kx != ky, "!= of {}", w);
    ensure_eq!(x < y, kx < ky, "< of {}", w);
    ensure_eq!(x <= y, kx <= ky, "<= of {}", w);
    ensure_eq!(x > y, kx > ky, "> of {}", w);
    ensure_eq!(x >= y, kx >= ky, ">= of {}", w);
    ensure_eq!(x.partial_cmp(y), Some(kx.cmp(&ky)), "partial_cmp of {}", w);
    Ok(())
}

fn total<X: Ord + Hash + Copy, K: Ord + Hash + Debug + Copy>(x: X, y: X, kx: K, ky: K, key: impl Fn(X) -> K) -> Res {
    let w = format!("{:?} and {:?}", kx, ky);
    ensure_eq!(x.cmp(&y), kx.cmp(&ky), "cmp of {}", w);
    ensure_eq!(key(x.max(y)), kx.max(ky), "max of {}", w);
    ensure_eq!(key(x.min(y)), kx.min(ky), "min of {}", w);
    if kx <= ky {
        ensure_eq!(key(x.clamp(x, y)), kx, "clamp of {}", w);
        ensure_eq!(key(y.clamp(x, y)), ky, "clamp of {}", w);
    }
    let mut v = [y, x, y, x];
    v.sort();
    let mut kv = [ky, kx, ky, kx];
    kv.sort();
    ensure!(v.iter().map(|x| key(*x)).eq(kv), "sort of {}", w);
    Ok(())
}

fn hashes<X: Hash, Y: Hash, K: Hash + PartialEq + Debug>(x: &X, y: &Y, kx: K, ky: K) -> Res {
    ensure!(h(x) == h(&kx), "hash of {:?} differs from the hash of its integers", kx);
    ensure!(h(y) == h(&ky), "hash of {:?} differs from the hash of its integers", ky);
    ensure!(kx != ky || h(x) == h(y), "equal particles {:?} hash differently", kx);
    Ok(())
}

fn indices<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, case: &Case) -> Res {
    let e = |n: usize| c.vet_range(n..len).map(|r| r.first()).map_err(|_| "vet_range refused".to_string());
    let (a, b) = (case.i.0.at(len), case.i.1.at(len));
    let (ea, eb) = (e(a)?, e(b)?);
    partial(&ea, &eb, a, b)?;
    total(ea, eb, a, b, |x: Index<_>| x.integer())?;
    hashes(&ea, &eb, a, b)?;
    if let (Ok(pa), Ok(pb)) = (c.vet(a), c.vet(b)) {
        partial(&pa, &pb, a, b)?;
        partial(&pa, &eb, a, b)?;
        partial(&ea, &pb, a, b)?;
        total(pa, pb, a, b, |x: Index<_>| x.integer())?;
        hashes(&pa, &pb, a, b)?;
        hashes(&pa, &eb, a, b)?;
        ensure!(h(&[ea, eb, ea]) == h(&[pa, pb, pa]), "lists of equal indices {:?} hash differently", (a, b));
        // an edge index derived from a proven one
        let f = pa.after();
        partial(&f, &pb, a + 1, b)?;
        partial(&pb, &f, b, a + 1)?;
    }
    Ok(())
}

fn ranges<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, case: &Case, st: &mut Stats) -> Res {
    let (a, b) = span(case.r.0, case.r.1, len);
    let (mut d, mut e) = span(case.s.0, case.s.1, len);
    match case.glue {
        1 => (d, e) = (a, b),
        2 => (d, e) = (a, e.max(a)),
        3 => (d, e) = (d.min(b), b),
        _ => {}
    }
    let v = |a: usize, b: usize| c.vet_range(a..b).map_err(|_| "vet_range refused".to_string());
    let (r, s) = (v(a, b)?, v(d, e)?);
    let (kr, ks) = ((a, b), (d, e));
    fn key<'id, P>(x: Range<'id, P>) -> (usize, usize) {
        (x.start(), x.end())
    }
    partial(&r, &s, kr, ks)?;
    total(r, s, kr, ks, key)?;
    hashes(&r, &s, kr, ks)?;
    if let Ok(n) = r.nonempty() {
        partial(&n, &s, kr, ks)?;
        partial(&s, &n, ks, kr)?;
        partial(&n, &r, kr, kr)?;
        hashes(&n, &s, kr, ks)?;
        if let Ok(m) = s.nonempty() {
            partial(&n, &m, kr, ks)?;
            total(n, m, kr, ks, key)?;
            hashes(&n, &m, kr, ks)?;
            ensure!(h(&[r, s, r]) == h(&[n, m, n]), "lists of equal ranges {:?} hash differently", (kr, ks));
        }
    }
    let o = kr.cmp(&ks);
    st.nt(o != Ordering::Equal && a < b && d < e);
    st.label_if(o == Ordering::Equal, "equal ranges");
    st.label_if(a == d && b != e, "same start");
    st.label_if(a != d && b == e, "same end");
    Ok(())
}

#[cfg(feature = "ptr")]
fn pointers<T: Elem>(case: &Case) -> Res {
    use indexing::pointer::PSlice;
    let len = (case.len % 12) as usize;
    let buf: Buf<T> = Buf::new(&vec![1; len], 1);
    let (a, b) = span(case.r.0, case.r.1, len);
    let (mut d, mut e) = span(case.s.0, case.s.1, len);
    match case.glue {
        1 => (d, e) = (a, b),
        2 => (d, e) = (a, e.max(a)),
        3 => (d, e) = (d.min(b), b),
        _ => {}
    }
    scope(buf.s(), |c| -> Res {
        let sub = |a: usize, b: usize| {
            let mut it = c.pointer_range().into_iter();
            for _ in 0..a {
                it.next();
            }
            for _ in b..len {
                it.next_back();
            }
            it.into_range()
        };
        let (r, s) = (sub(a, b), sub(d, e));
        let want = (a, b) == (d, e);
        let w = format!("{}..{} and {}..{}", a, b, d, e);
        ensure_eq!((r == s, r != s), (want, !want), "pointer ranges {}", w);
        ensure_eq!((r.first() == s.first(), r.first() != s.first()), (a == d, a != d), "first pointers of {}", w);
        ensure_eq!((r.past_the_end() == s.past_the_end(), r.past_the_end() != s.past_the_end()), (b == e, b != e), "end pointers of {}", w);
        ensure_eq!(r.past_the_end() == s.first(), b == d, "end and first pointers of {}", w);
        let (x, y) = (PSlice::from(r), PSlice::from(s));
        ensure_eq!((x == y, x != y), (want, !want), "pointer slices {}", w);
        if let Ok(n) = r.nonempty() {
            ensure_eq!((n == s, s == n, n != s), (want, want, !want), "non-empty and plain pointer ranges {}", w);
            let m = PSlice::from(n);
            ensure_eq!((m == y, y == m, m != y), (want, want, !want), "non-empty and plain pointer slices {}", w);
            if let Ok(q) = s.nonempty() {
                ensure_eq!((n == q, n != q), (want, !want), "non-empty pointer ranges {}", w);
                ensure_eq!((n.first() == q.first(), n.last() == q.last()), (a == d, b == e), "ends of non-empty pointer ranges {}", w);
            }
        }
        Ok(())
    })
}

fn run<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, case: &Case, st: &mut Stats) -> Res {
    indices(c, len, case)?;
    ranges(c, len, case, st)
}

fn test(case: &Case, st: &mut Stats) -> Res {
    let len = case.len as usize;
    match case.kind {
        0 => scope(Virt(len), |c| run(&c, len, case, st))?,
        1 => scope(zst_slice(len), |c| run(&c, len, case, st))?,
        _ => scope(Virt(len), |c| run(&c.only_index(), len, case, st))?,
    }
    #[cfg(feature = "ptr")]
    match case.kind {
        0 => pointers::<u8>(case)?,
        1 => pointers::<B3>(case)?,
        _ => pointers::<u64>(case)?,
    }
    Ok(())
}

fn strat() -> impl Strategy<Value = Case> {
    (0u8..3, len_any(), (pos(), pos()), (pos(), pos()), (pos(), pos()), 0u8..7)
        .prop_map(|(kind, len, i, r, s, glue)| Case { kind, len, i, r, s, glue })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let len = if thorough { 7u8 } else { 4 };
    let mut v = vec![];
    for kind in 0..3 {
        for a in 0..=len {
            for b in a..=len {
                for d in 0..=len {
                    for e in d..=len {
                        v.push(Case {
                            kind,
                            len: len as u64,
                            i: (Pos::Lo(a), Pos::Lo(d)),
                            r: (Pos::Lo(a), Pos::Lo(b)),
                            s: (Pos::Lo(d), Pos::Lo(e)),
                            glue: 0,
                        });
                    }
                }
            }
        }
    }
    Box::new(v.into_iter())
}

fn main() {
    vh::main(vec![
        exhaustive("small", "all pairs of ranges of length 4 (7 thorough); non-trivial: different non-empty ranges", small, test),
        group("random", "pairs of indices and ranges of any length with every proof combination; non-trivial as above", 150000, strat, test),
    ]);
}
