//! C07: subdivision.
use indexing::container_traits::*;
use indexing::{scope, Container, NonEmpty, Range};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    len: u64,
    r: (Pos, Pos),
    n: Num,
    /// after how many parts a copy of the iterator is taken
    copy: u8,
}

const FULL: usize = 12000;

fn parts<'id, P>(r: Range<'id, P>, a: usize, b: usize, n: usize, copy: usize) -> Res {
    let len = b - a;
    let mut it = r.subdivide(n);
    if n > len {
        for _ in 0..4 {
            ensure!(it.next().is_none(), "subdivide({}) of length {} yields a part", n, len);
        }
        return Ok(());
    }
    let (q, extra) = (len / n, len % n);
    let mut at = a;
    let mut longer = 0;
    let mut copied = None;
    let mut got: Vec<(usize, usize)> = vec![];
    for k in 0..n.min(FULL) {
        if k == copy {
            copied = Some((k, it));
        }
        let p: Range<'id, NonEmpty> = match it.next() {
            Some(p) => p,
            None => return Err(format!("subdivide({}) of {}..{} ended after {} parts", n, a, b, k)),
        };
        ensure!(p.start() == at, "part {} of subdivide({}) of {}..{} starts at {} instead of {}", k, n, a, b, p.start(), at);
        ensure!(p.end() > p.start() && p.end() <= b, "part {} of subdivide({}) of {}..{} is {:?}", k, n, a, b, p);
        let l = p.len();
        ensure!(l == q || (l == q + 1 && extra > 0), "part {} of subdivide({}) of {}..{} has length {}", k, n, a, b, l);
        longer += (l == q + 1) as usize;
        at = p.end();
        got.push((p.start(), p.end()));
    }
    if n <= FULL {
        ensure!(at == b, "subdivide({}) of {}..{} covers only up to {}", n, a, b, at);
        ensure!(longer == extra, "{} long parts instead of {}", longer, extra);
        for _ in 0..3 {
            ensure!(it.next().is_none(), "subdivide({}) of {}..{} yields more than {} parts", n, a, b, n);
        }
    }
    // a copy continues independently, through the iterator adaptors too
    if let Some((k, c)) = copied {
        let rest: Vec<(usize, usize)> = c.take(FULL - k).map(|p| (p.start(), p.end())).collect();
        ensure!(rest[..] == got[k..], "a copy of the subdivision taken after {} parts yields other parts", k);
        let (lo, hi) = c.size_hint();
        ensure!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "size_hint ({}, {:?}) with {} parts left", lo, hi, n - k);
        if n <= 50 {
            ensure_eq!(c.count(), n - k, "count()");
            ensure_eq!(c.last().map(|p| p.as_range()), Some(got[n - 1].0..got[n - 1].1), "last()");
            for j in 0..n - k + 2 {
                let mut d = c;
                ensure_eq!(d.nth(j).map(|p| (p.start(), p.end())), got.get(k + j).copied(), "nth({})", j);
                // what is left after it
                let rest: Vec<(usize, usize)> = d.map(|p| (p.start(), p.end())).collect();
                ensure!(rest[..] == got[(k + j + 1).min(n)..], "after nth({}) of {} parts: got {:?}", j, n - k, rest);
                let mut d = c;
                let mut seen = vec![];
                let stop = d.try_fold((), |(), p| {
                    seen.push((p.start(), p.end()));
                    if seen.len() > j { None } else { Some(()) }
                });
                ensure!(stop.is_none() == (k + j < n) && seen[..] == got[k..(k + j + 1).min(n)], "try_fold: visited {:?}", seen);
                let rest: Vec<(usize, usize)> = d.map(|p| (p.start(), p.end())).collect();
                ensure!(rest[..] == got[(k + j + 1).min(n)..], "after try_fold of {} parts: got {:?}", j + 1, rest);
            }
            let mut all = vec![];
            c.fold((), |(), p| all.push((p.start(), p.end())));
            ensure!(all[..] == got[k..], "fold: visited {:?}", all);
            all.clear();
            c.for_each(|p| all.push((p.start(), p.end())));
            ensure!(all[..] == got[k..], "for_each: visited {:?}", all);
            let step = 1 + k % 3;
            let some: Vec<(usize, usize)> = c.step_by(step).map(|p| (p.start(), p.end())).collect();
            ensure!(some.iter().eq(got[k..].iter().step_by(step)), "step_by({}): visited {:?}", step, some);
        }
    }
    Ok(())
}

fn run<'id, A: Trustworthy>(c: &Container<'id, A>, len: usize, case: &Case, st: &mut Stats) -> Res {
    let (a, b) = span(case.r.0, case.r.1, len);
    let n = case.n.at(b - a);
    if n == 0 {
        return Ok(()); // the statement is about n >= 1
    }
    let r = c.vet_range(a..b).map_err(|_| "vet_range refused".to_string())?;
    let copy = if n > FULL { 3 } else { pick(case.copy as u16 * 256, n) };
    parts(r, a, b, n, copy)?;
    if let Ok(r) = r.nonempty() {
        parts(r, a, b, n, copy)?;
    }
    st.nt(n > 1 && n <= b - a && (b - a) % n != 0);
    st.label_if(n > b - a, "more parts than elements");
    st.label_if(n == b - a, "single elements");
    st.label_if(n <= b - a && (b - a) % n == 0, "even");
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    let len = case.len as usize;
    match case.kind {
        0 => scope(Virt(len), |c| run(&c, len, case, st)),
        _ => scope(zst_slice(len), |c| run(&c, len, case, st)),
    }
}

fn strat() -> impl Strategy<Value = Case> {
    let n = prop_oneof![3 => num_in(), 2 => num(), 1 => (1u8..=255).prop_map(Num::Small)];
    (0u8..2, len_any(), (pos(), pos()), n, any::<u8>())
        .prop_map(|(kind, len, r, n, copy)| Case { kind, len, r, n, copy })
}

fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 300u64 } else { 90 };
    Box::new((0..=max).flat_map(move |len| {
        (1..=(len + 2)).flat_map(move |n| {
            (0..2u8).map(move |start| Case {
                kind: start,
                len: len + 7,
                r: (Pos::Lo(start * 3), Pos::Hi(7 - start * 3)),
                n: Num::Any(n),
                copy: (n * 37) as u8,
            })
        })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "every length up to 90 (300 thorough) and every n up to length + 2; non-trivial: uneven division into several parts", small, test),
        group("random", "any range of any length, any n >= 1 (first 12000 parts when n is larger); non-trivial as above", 60000, strat, test),
    ]);
}
