//! Use of the library in between and from inside callbacks: small pieces of
//! work with their own oracle, on data of their own.

use indexing::algorithms::*;
use indexing::scope;
use vh::data::*;
use vh::hook::*;
use vh::*;

/// Some piece of work chosen by `code`; some of it is broken off by a panic.
pub fn work(code: u32) -> Res {
    work_on(code).map_err(|m| format!("work {} inside or in between: {}", code, m))
}

fn work_on(code: u32) -> Res {
    let h = mix(code as u64);
    let fail = if h >> 40 & 3 == 0 { (h >> 42) % 60 } else { u64::MAX };
    work_of(h, (h >> 32) % 16, (h >> 8) as usize % 45, fail)
}

/// One of `kinds` of work, broken off by a panic at the same place again and
/// again (up to many thousand times), then done in full.
#[allow(dead_code)]
pub fn storm(kinds: &[u64], code: u32) -> Res {
    let h = mix(code as u64 ^ 0x5707);
    let what = kinds[(h >> 32) as usize % kinds.len()];
    let n = match h >> 20 & 3 {
        0 => 4 + (h >> 8) as usize % 12,
        1 => 16 + (h >> 8) as usize % 40,
        _ => 33 + (h >> 8) as usize % 130,
    };
    let fail = match h >> 22 & 3 {
        0 | 1 => (h >> 42) % 5,
        2 => (h >> 42) % 16,
        _ => (h >> 42) % 200,
    };
    let times = match (h >> 24) % 64 {
        0 => 66_000,
        1..=3 => 5_000,
        4..=40 => 1_100,
        _ => 5 + (h >> 50) % 300,
    };
    for k in 0..times {
        work_of(h, what, n, fail).map_err(|m| format!("work {} (code {}), {} panics before: {}", what, code, k, m))?;
    }
    for k in 0..4 {
        work_of(mix(h ^ k), what, n + k as usize, u64::MAX).map_err(|m| format!("work {} (code {}) after {} panics: {}", what, code, times, m))?;
    }
    Ok(())
}

fn work_of(h: u64, what: u64, n: usize, fail: u64) -> Res {
    let mut v: Vec<u32> = (0..n).map(|k| (mix(h ^ (k as u64 + 1)) % (1 + h % 50)) as u32).collect();
    let calls = std::cell::Cell::new(0u64);
    let count = || {
        calls.set(calls.get() + 1);
        if calls.get() > fail {
            std::panic::panic_any(Injected);
        }
    };
    let less = |a: &u32, b: &u32| {
        count();
        a < b
    };
    let mut want = v.clone();
    want.sort();
    let sorted = want.clone();
    let q = (h >> 20) as u32 % 50;
    let mut buf: Vec<u32> = vec![];
    let r = catch(|| -> Res {
        match what {
            0 => insertion_sort_indexes(&mut v, less),
            1 => insertion_sort_ranges(&mut v, less),
            2 => insertion_sort_rust(&mut v, less),
            #[cfg(feature = "ptr")]
            3 => insertion_sort_pointerindex(&mut v, less),
            #[cfg(feature = "ptr")]
            4 => insertion_sort_prange_lower(&mut v, less),
            5 | 6 => {
                let w: Vec<K> = v.iter().map(|x| K(*x, &calls, fail)).collect();
                let mut w = Put(w, &mut v);
                if what == 5 {
                    quicksort_range(&mut w.0)
                } else {
                    quicksort_bounds(&mut w.0)
                }
            }
            #[cfg(feature = "ptr")]
            7 => {
                let w: Vec<K> = v.iter().map(|x| K(*x, &calls, fail)).collect();
                let mut w = Put(w, &mut v);
                quicksort_prange(&mut w.0)
            }
            8 | 9 => {
                let mid = n / (2 + (h >> 16) as usize % 3);
                v[..mid].sort();
                v[mid..].sort();
                let w: Vec<K> = v.iter().map(|x| K(*x, &calls, fail)).collect();
                buf = (0..n as u32).map(|k| k + 1000).collect();
                let b = buf.clone();
                let r = {
                    let mut w = Put(w, &mut v);
                    let mut b = Put(b.iter().map(|x| K(*x, &calls, fail)).collect(), &mut buf);
                    if n == 0 {
                        Ok(())
                    } else if what == 8 {
                        merge_internal_ranges(&mut w.0, mid, &mut b.0).map_err(|_| ())
                    } else {
                        merge_internal_indices(&mut w.0, mid, &mut b.0).map_err(|_| ())
                    }
                };
                ensure!(r.is_ok(), "merging refused");
                buf.sort();
                ensure_eq!(buf, b, "buffer after merging");
            }
            10 => {
                {
                    let w: Vec<K> = v.iter().map(|x| K(*x, &calls, fail)).collect();
                    let mut w = Put(w, &mut v);
                    heapify(&mut w.0);
                }
                ensure!((1..n).all(|k| v[(k - 1) / 2] <= v[k]), "not a heap: {:?}", v);
                v.sort();
            }
            11 => {
                v.sort();
                let p = v.iter().take_while(|x| **x < q).count();
                ensure_eq!((lower_bound(&v, &q), lower_bound_raw_ptr(&v, &q)), (p, p), "lower bound of {} in {:?}", q, v);
                let r = binary_search_by(&v, |x| {
                    count();
                    x.cmp(&q)
                });
                ensure!(r.map_or_else(|e| e == p && !v.contains(&q), |i| v[i] == q), "binary_search_by({:?}, {}) is {:?}", v, q, r);
            }
            #[cfg(feature = "ptr")]
            12 => {
                v.sort();
                let p = v.iter().take_while(|x| **x < q).count();
                ensure_eq!(lower_bound_prange(&v, &q), p, "lower bound of {} in {:?}", q, v);
                let r = lower_bound_pslice(&v, |x| {
                    count();
                    *x < q
                });
                ensure_eq!(r, p, "lower bound of {} in {:?}", q, v);
                let r = binary_search_by_prange(&v, |x| {
                    count();
                    x.cmp(&q)
                });
                ensure!(r.map_or_else(|e| e == p && !v.contains(&q), |i| v[i] == q), "binary_search_by_prange({:?}, {}) is {:?}", v, q, r);
            }
            13 => {
                let w = v.clone();
                scope(&mut v[..], |mut c| -> Res {
                    let (p, q) = c.scan_range(c.range(), |x| {
                        count();
                        *x < 25
                    });
                    let k = w.iter().take_while(|x| **x < 25).count();
                    ensure_eq!((p.start(), p.end(), q.end()), (0, k, n), "scan_range of {:?}", w);
                    c.rotate1_up(p);
                    c.rotate1_down(q);
                    let r = c.range();
                    c.zip_mut_raw(r, q, |_, _| count());
                    Ok(())
                })?;
                v.sort();
            }
            #[cfg(feature = "ptr")]
            14 => {
                let w = v.clone();
                scope(&mut v[..], |mut c| -> Res {
                    let (p, q) = c.scan_pointer_range(c.pointer_range(), |x| {
                        count();
                        *x < 25
                    });
                    let k = w.iter().take_while(|x| **x < 25).count();
                    ensure_eq!((p.len(), q.len()), (k, n - k), "scan_pointer_range of {:?}", w);
                    let at = q.first();
                    c.split_container_at_pointer(at, |l, lr, r, rr| {
                        ensure_eq!((l[lr].to_vec(), r[rr].to_vec()), (w[..k].to_vec(), w[k..].to_vec()), "halves of {:?}", w);
                        let mut m = 0;
                        indexing::pointer::zip(lr, &l, rr, &r, |_, _| {
                            count();
                            m += 1;
                        });
                        ensure_eq!(m, k.min(n - k), "zip of {} and {}", k, n - k);
                        Ok(())
                    })
                })?;
                v.sort();
            }
            _ => {
                let m = 1 + (h >> 50) as usize % 6;
                scope(&mut v[..], |c| -> Res {
                    let r = c.range();
                    if m <= n {
                        let mut at = 0;
                        for s in r.subdivide(m) {
                            ensure_eq!(s.start(), at, "subdivide({}) of {}", m, n);
                            at = s.end();
                        }
                        ensure_eq!(at, n, "end of subdivide({}) of {}", m, n);
                    }
                    ensure_eq!(r.into_iter().map(|i| i.integer()).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "iteration");
                    Ok(())
                })?;
                v.sort();
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => {
            r?;
            ensure_eq!(v, sorted, "data after work {}", what);
        }
        Err(p) if p.is::<Injected>() => {
            // with what is in the buffer of a merge
            let mut sorted = sorted;
            sorted.extend((0..buf.len() as u32).map(|k| k + 1000));
            v.extend(buf);
            v.sort();
            ensure_eq!(v, sorted, "elements after a panic in work {}", what);
        }
        Err(p) => std::panic::resume_unwind(p),
    }
    Ok(())
}

/// A key whose comparison is counted and may panic
struct K<'a>(u32, &'a std::cell::Cell<u64>, u64);
impl Ord for K<'_> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.1.set(self.1.get() + 1);
        if self.1.get() > self.2 {
            std::panic::panic_any(Injected);
        }
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for K<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for K<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl Eq for K<'_> {}
/// Takes the keys back in the end, also when unwinding
struct Put<'p, 'a>(Vec<K<'a>>, &'p mut Vec<u32>);
impl Drop for Put<'_, '_> {
    fn drop(&mut self) {
        *self.1 = self.0.iter().map(|k| k.0).collect();
    }
}

/// `test` with work going on inside its callbacks.
#[allow(dead_code)]
pub fn nested<C: Serialize>(test: fn(&C, &mut Stats) -> Res, case: &C, st: &mut Stats) -> Res {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            hook_nest(None)
        }
    }
    let h = mix(case_hash(case, 1));
    let _off = Off;
    hook_nest(Some(Nest { at: h % 4, period: 1 + (h >> 8) % 20, code: (h >> 16) as u32, work }));
    test(case, st)?;
    st.count("pieces of work inside callbacks", hook_nested()?);
    Ok(())
}

/// `test` on one case after the other, with work in between.
pub fn sequence<C>(test: fn(&C, &mut Stats) -> Res, cases: &[(u32, C)], st: &mut Stats) -> Res {
    for (k, (code, c)) in cases.iter().enumerate() {
        if code % 3 > 0 {
            work(*code)?;
        }
        test(c, st).map_err(|m| format!("call {} of the sequence: {}", k, m))?;
    }
    Ok(())
}

#[allow(dead_code)]
pub fn seq<S: Strategy>(s: S) -> impl Strategy<Value = Vec<(u32, S::Value)>> {
    prop::collection::vec((any::<u32>(), s), 2..7)
}

/// `test` after a storm of panics
#[allow(dead_code)]
pub fn after_storm<C>(test: fn(&C, &mut Stats) -> Res, kinds: &[u64], case: &(u32, C), st: &mut Stats) -> Res {
    storm(kinds, case.0)?;
    test(&case.1, st)
}
