//! C06: range algebra.
use indexing::container_traits::*;
use indexing::proof::{ProofAdd, Provable};
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

type R = (usize, usize);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    len: u64,
    r: (Pos, Pos),
    s: (Pos, Pos),
    /// glue `s` to an end of `r`
    glue: u8,
    i: Pos,
    k: Num,
}

fn ab<'id, P>(r: Range<'id, P>) -> R {
    (r.start(), r.end())
}

/// Everything that takes one range.
fn one<'id, A: Trustworthy, M, P>(c: &Container<'id, A, M>, len: usize, r: Range<'id, P>, (a, b): R, k: usize) -> Res {
    let n = b - a;
    ensure_eq!(ab(r), (a, b), "the range");
    ensure_eq!(r.as_range(), a..b, "as_range");
    ensure_eq!(r.len(), n, "len");
    ensure_eq!(r.is_empty(), n == 0, "is_empty");
    let (x, y) = r.split_in_half();
    ensure_eq!((ab(x), ab(y)), ((a, a + n / 2), (a + n / 2, b)), "split_in_half of {}..{}", a, b);
    let (x, y, ok) = r.split_at(k);
    let mid = if k > n { b } else { a + k };
    ensure_eq!((ab(x), ab(y), ok), ((a, mid), (mid, b), k <= n), "split_at({}) of {}..{}", k, a, b);
    let (x, y) = r.frontiers();
    ensure_eq!((ab(x), ab(y)), ((a, a), (b, b)), "frontiers of {}..{}", a, b);
    ensure_eq!(r.first().integer(), a, "first of {}..{}", a, b);
    ensure_eq!(r.upper_middle().integer(), a + n / 2, "upper_middle of {}..{}", a, b);
    ensure_eq!(r.past_the_end().integer(), b, "past_the_end of {}..{}", a, b);
    ensure_eq!(ab(r.no_proof()), (a, b), "no_proof");
    ensure_eq!(ab(Provable::no_proof(r)), (a, b), "Provable::no_proof");
    let (x, y) = c.split_around(r);
    ensure_eq!((ab(x), ab(y)), ((0, a), (b, len)), "split_around {}..{} of {}", a, b, len);
    edge(c, len, r.first(), a)?;
    edge(c, len, r.upper_middle(), a + n / 2)?;
    edge(c, len, r.past_the_end(), b)
}

/// Everything that takes an index which may be an edge index.
fn edge<'id, A: Trustworthy, M, P>(c: &Container<'id, A, M>, len: usize, i: Index<'id, P>, n: usize) -> Res {
    ensure_eq!(i.integer(), n, "the index");
    let (x, y) = c.split_at(i);
    ensure_eq!((ab(x), ab(y)), ((0, n), (n, len)), "container split_at {} of {}", n, len);
    ensure_eq!(ab(c.before(i)), (0, n), "before {}", n);
    ensure_eq!(ab(c.range_of(..i)), (0, n), "range_of(..{})", n);
    ensure_eq!(ab(c.range_of(i..)), (n, len), "range_of({}..)", n);
    ensure_eq!(Provable::no_proof(i).integer(), n, "no_proof of an index");
    Ok(())
}

/// Everything that takes two ranges.
fn two<'id, P, Q>(r: Range<'id, P>, s: Range<'id, Q>, (a, b): R, (c, d): R) -> Res
where
    (P, Q): ProofAdd,
{
    match r.join(s) {
        Ok(j) => {
            ensure!(b == c, "join of {}..{} and {}..{} accepted", a, b, c, d);
            ensure_eq!(ab(j), (a, d), "join of {}..{} and {}..{}", a, b, c, d);
        }
        Err(_) => ensure!(b != c, "join of {}..{} and {}..{} refused", a, b, c, d),
    }
    ensure_eq!(ab(r.join_cover(s)), (a, b.max(d)), "join_cover of {}..{} and {}..{}", a, b, c, d);
    ensure_eq!(ab(r.join_cover_both(s)), (a.min(c), b.max(d)), "join_cover_both of {}..{} and {}..{}", a, b, c, d);
    Ok(())
}

fn run<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, case: &Case, st: &mut Stats) -> Res {
    let (a, b) = span(case.r.0, case.r.1, len);
    let mut s = span(case.s.0, case.s.1, len);
    match case.glue {
        1 => s = (b, s.1.max(b)),
        2 => s = (s.0.min(a), a),
        3 => s = (a, b),
        _ => {}
    }
    ensure_eq!(ab(c.empty_range()), (0, 0), "empty_range");
    ensure_eq!(ab(c.range()), (0, len), "range");
    ensure_eq!(ab(c.range_of::<Unknown, _>(..)), (0, len), "range_of(..)");
    let vet = |x: R| c.vet_range(x.0..x.1).map_err(|_| format!("vet_range({:?}) refused", x));
    let (r, t) = (vet((a, b))?, vet(s)?);
    let k = case.k.at(b - a);
    one(c, len, r, (a, b), k)?;
    two(r, t, (a, b), s)?;
    two(t, r, s, (a, b))?;
    let (rn, tn) = (r.nonempty(), t.nonempty());
    if let Ok(rn) = rn {
        one(c, len, rn, (a, b), k)?;
        two(rn, t, (a, b), s)?;
        two(t, rn, s, (a, b))?;
        ne(rn, (a, b))?;
    }
    if let (Ok(rn), Ok(tn)) = (rn, tn) {
        two(rn, tn, (a, b), s)?;
        two(tn, rn, s, (a, b))?;
    }
    if len > 0 {
        let n = case.i.idx(len);
        let i = c.vet(n).map_err(|_| format!("vet({}) refused", n))?;
        edge(c, len, i, n)?;
        ensure_eq!(i.after().integer(), n + 1, "after of index {}", n);
        edge(c, len, i.after(), n + 1)?;
        let (x, y) = c.split_after(i);
        ensure_eq!((ab(x), ab(y)), ((0, n + 1), (n + 1, len)), "split_after {} of {}", n, len);
        ensure_eq!(ab(c.after(i)), (n + 1, len), "container after {}", n);
    }
    st.nt(b > a && s.1 > s.0 && (a, b) != (0, len));
    st.label_if(b == s.0, "touching");
    st.label_if(a == b, "empty range");
    st.label_if(len > isize::MAX as usize, "length above isize::MAX");
    Ok(())
}

fn ne<'id>(r: Range<'id, NonEmpty>, (a, b): R) -> Res {
    ensure_eq!(r.lower_middle().integer(), a + (b - a - 1) / 2, "lower_middle of {}..{}", a, b);
    ensure_eq!(r.last().integer(), b - 1, "last of {}..{}", a, b);
    ensure_eq!(ab(r.tail()), (a + 1, b), "tail of {}..{}", a, b);
    ensure_eq!(ab(r.init()), (a, b - 1), "init of {}..{}", a, b);
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    let len = case.len as usize;
    match case.kind {
        0 => scope(Virt(len), |c| run(&c, len, case, st)),
        1 => scope(zst_slice(len), |c| run(&c, len, case, st)),
        2 => {
            let len = len % 2000;
            let mut v = vec![1u8; len];
            scope(&mut v[..], |c| run(&c, len, case, st))
        }
        3 => {
            let len = len % 2000;
            scope(vec![1u64; len], |c| run(&c.only_index(), len, case, st))
        }
        _ => scope(Virt(len), |c| run(&c.make_twin(zst_slice(len)).map_err(|_| "twin refused".to_string())?, len, case, st)),
    }
}

fn strat() -> impl Strategy<Value = Case> {
    (0u8..5, len_any(), (pos(), pos()), (pos(), pos()), 0u8..6, pos(), num())
        .prop_map(|(kind, len, r, s, glue, i, k)| Case { kind, len, r, s, glue, i, k })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 8u8 } else { 5 };
    Box::new((0..=max).flat_map(move |len| {
        let all: Vec<(u8, u8)> = (0..=len).flat_map(|a| (a..=len).map(move |b| (a, b))).collect();
        let all2 = all.clone();
        all.into_iter().flat_map(move |(a, b)| {
            let all2 = all2.clone();
            (0..all2.len()).flat_map(move |j| {
                let (c, d) = all2[j];
                // offset and index vary with the pair; every value occurs
                (0..=(b - a + 2)).map(move |k| Case {
                    kind: (a + c) % 5,
                    len: len as u64,
                    r: (Pos::Lo(a), Pos::Lo(b)),
                    s: (Pos::Lo(c), Pos::Lo(d)),
                    glue: 0,
                    i: Pos::Lo((k + c) % len.max(1)),
                    k: if k == b - a + 2 { Num::UMax(c) } else { Num::Small(k) },
                })
            })
        })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "all pairs of ranges up to length 5 (8 thorough); non-trivial: both non-empty, not the full range", small, test),
        group("random", "two ranges, an index and an offset at any length; non-trivial as above", 200000, strat, test),
    ]);
}
