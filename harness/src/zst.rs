//! Containers of zero-sized elements of any length up to the maximum.

use indexing::algorithms::*;
use indexing::scope;
use std::cmp::Ordering;
use vh::data::*;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    len: u64,
    r: (Pos, Pos),
    s: (Pos, Pos),
    /// answers to callbacks, or the number of elements accepted
    k: u64,
}

pub fn zst<const ID: u8>(n: u32) -> Box<dyn AnyGroup> {
    group(
        "huge_zst",
        "the same on zero-sized elements, any length up to the maximum; non-trivial: a length above 2^32",
        n,
        || (len_any(), (pos(), pos()), (pos(), pos()), any::<u64>()).prop_map(|(len, r, s, k)| Case { len, r, s, k }),
        test::<ID>,
    )
}

fn data<'a>(n: usize) -> &'a mut [Z] {
    unsafe { std::slice::from_raw_parts_mut(std::ptr::NonNull::dangling().as_ptr(), n) }
}

thread_local!(static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// An element that is less than another as long as the answers say so.
#[derive(Clone, Copy)]
struct Q;
impl PartialEq for Q {
    fn eq(&self, _: &Q) -> bool {
        false
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, _: &Q) -> Option<Ordering> {
        let x = LEFT.with(|c| {
            let x = c.get();
            c.set(x.rotate_right(1));
            CALLS.with(|c| c.set(c.get() + 1));
            x
        });
        Some(if x & 1 == 1 { Ordering::Less } else { Ordering::Greater })
    }
}
thread_local!(static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

fn test<const ID: u8>(c: &Case, st: &mut Stats) -> Res {
    let n = c.len as usize;
    st.nt(n > 1 << 32);
    let ((a, b), (d, e)) = (span(c.r.0, c.r.1, n), span(c.s.0, c.s.1, n));
    match ID {
        10 => elements(n, (a, b)),
        11 => paired(n, (a, b), (d, e), st),
        15 => scans(n, (a, b), c.k, st),
        _ => searches(n, (a, b), c.k),
    }
}

fn elements(n: usize, (a, b): (usize, usize)) -> Res {
    scope(data(n), |mut v| -> Res {
        let base = v[..].as_ptr();
        ensure_eq!((v.len(), v[..].len(), v.range().as_range()), (n, n, 0..n), "length");
        let r = v.vet_range(a..b).map_err(|_| "range refused")?;
        let at = |s: &[Z]| (s.as_ptr() == base, s.len());
        ensure_eq!(at(&v[r]), (true, b - a), "slice {}..{} of {}", a, b, n);
        ensure_eq!(at(&mut v[r]), (true, b - a), "mutable slice {}..{} of {}", a, b, n);
        let (f, p) = (r.first(), r.past_the_end());
        for (i, k) in [(f, a), (p, b)] {
            ensure_eq!((at(&v[..i]), at(&v[i..])), ((true, k), (true, n - k)), "slices at {} of {}", k, n);
            ensure_eq!((at(&mut v[..i]), at(&mut v[i..])), ((true, k), (true, n - k)), "mutable slices at {} of {}", k, n);
        }
        if let Ok(r) = r.nonempty() {
            for i in [r.first(), r.last()] {
                ensure!(&v[i] as *const Z == base && &mut v[i] as *mut Z as *const Z == base, "element {} of {}", i.integer(), n);
            }
        }
        Ok(())
    })
}

fn paired(n: usize, (a, b): (usize, usize), (d, e): (usize, usize), st: &mut Stats) -> Res {
    scope(data(n), |mut v| -> Res {
        let r = v.vet_range(a..b).map_err(|_| "range refused")?;
        let s = v.vet_range(d..e).map_err(|_| "range refused")?;
        let got = v.index_twice(r, s).map(|(x, y)| (x.len(), y.len())).ok();
        ensure_eq!(got, (b <= d).then_some((b - a, e - d)), "index_twice({}..{}, {}..{}) of {}", a, b, d, e, n);
        let m = (b - a).min(e - d);
        if m < 5000 {
            let mut k = 0;
            v.zip_mut_raw(r, s, |_, _| k += 1);
            ensure_eq!(k, m, "pairs of {}..{} and {}..{}", a, b, d, e);
        } else {
            // broken off by a panic
            let mut k = 0;
            let e = catch(|| {
                v.zip_mut_raw(r, s, |_, _| {
                    k += 1;
                    if k == 500 {
                        std::panic::panic_any(Injected)
                    }
                })
            });
            ensure!(matches!(e, Err(e) if e.is::<Injected>()) && k == 500, "only {} pairs of {}..{} and {}..{}", k, a, b, d, s.end());
            st.label("broken off");
        }
        Ok(())
    })
}

fn scans(n: usize, (a, b): (usize, usize), k: u64, st: &mut Stats) -> Res {
    // up to this many accepted, then one rejected
    let k = k as usize % 40;
    scope(data(n), |v| -> Res {
        let r = v.vet_range(a..b).map_err(|_| "range refused")?;
        let calls = std::cell::Cell::new(0);
        let accept = |_: &Z| {
            calls.set(calls.get() + 1);
            calls.get() <= k
        };
        let m = k.min(b - a);
        let (p, q) = v.scan_range(r, accept);
        ensure_eq!((p.as_range(), q.as_range()), (a..a + m, a + m..b), "scan_range({}..{}) of {} accepting {}", a, b, n, k);
        ensure_eq!(calls.get(), (k + 1).min(b - a), "calls of scan_range({}..{}) accepting {}", a, b, k);
        if let Ok(r) = r.nonempty() {
            for i in [r.first(), r.upper_middle(), r.last()] {
                let x = i.integer();
                calls.set(0);
                let (s, left) = (v.scan_from(i, accept), n - x - 1);
                ensure_eq!(s.as_range(), x..x + 1 + k.min(left), "scan_from({}) of {} accepting {}", x, n, k);
                ensure_eq!(calls.get(), (k + 1).min(left), "calls of scan_from({}) of {} accepting {}", x, n, k);
                calls.set(0);
                let s = v.scan_from_rev(i, accept);
                ensure_eq!(s.as_range(), x - k.min(x)..x + 1, "scan_from_rev({}) of {} accepting {}", x, n, k);
                ensure_eq!(calls.get(), (k + 1).min(x), "calls of scan_from_rev({}) of {} accepting {}", x, n, k);
            }
            st.label("scans from an index");
        }
        Ok(())
    })
}

/// Which element is looked at cannot be told, only the course of the answers:
/// with the usual halving, or any other strategy, all less ends at the end, all
/// greater at the start, and in between the calls stay logarithmic.
fn searches(n: usize, (a, b): (usize, usize), k: u64) -> Res {
    let max = 2 + log2_ceil(n.saturating_add(1));
    let v: &[Z] = data(n);
    for k in [0, u64::MAX, k] {
        let at = if k == 0 { Some(0) } else if k == u64::MAX { Some(n) } else { None };
        let mut calls = 0;
        let r = binary_search_by(v, |_| {
            calls += 1;
            if k >> (calls % 64) & 1 == 1 { Ordering::Less } else { Ordering::Greater }
        });
        ensure!(matches!(r, Err(i) if i <= n && at.map_or(true, |x| x == i)), "binary_search_by on {} elements (answers {:x}) is {:?}", n, k, r);
        ensure!(calls <= max, "{} calls for {} elements", calls, n);
        let q: &[Q] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
        for (name, f) in [("lower_bound", lower_bound as fn(&[Q], &Q) -> usize), ("lower_bound_raw_ptr", lower_bound_raw_ptr)] {
            LEFT.with(|c| c.set(k));
            CALLS.with(|c| c.set(0));
            let i = f(q, &Q);
            let calls = CALLS.with(|c| c.get());
            ensure!(i <= n && at.map_or(true, |x| x == i), "{} on {} elements (answers {:x}) is {}", name, n, k, i);
            ensure!(calls <= max, "{}: {} comparisons for {} elements", name, calls, n);
        }
    }
    // a match ends the search
    let (mut calls, stop) = (0, 1 + k % 20);
    let r = binary_search_by(v, |_| {
        calls += 1;
        if calls == stop { Ordering::Equal } else if k >> calls & 1 == 1 { Ordering::Less } else { Ordering::Greater }
    });
    ensure!(if calls >= stop { matches!(r, Ok(i) if i < n) } else { matches!(r, Err(i) if i <= n) }, "binary_search_by on {} elements is {:?} after {} calls, the match in call {}", n, r, calls, stop);
    ensure!(a <= b, "positions");
    let r = binary_search(v, &Z);
    ensure!(if n > 0 { matches!(r, Ok(i) if i < n) } else { r == Err(0) }, "binary_search on {} elements is {:?}", n, r);
    Ok(())
}
