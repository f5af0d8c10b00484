//! C14: twins.
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::{scope, Container, Index, Range};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

/// One request for a twin, then an operation on the family.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    /// member to ask, member to use: index from one, access in the other
    Write(u8, u8, Pos),
    Swap(u8, u8, Pos, Pos),
    Rotate(u8, u8, Pos, Pos, bool),
    Slice(u8, u8, Pos, Pos),
    Twice(u8, u8, Pos, Pos, Pos, Pos),
    Scan(u8, u8, Pos),
    Walk(u8, u8),
    /// a particle kept from earlier, used in this member
    Held(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    tys: (Ty, Ty, Ty),
    n: u32,
    /// lengths of the three twins relative to n (0: equal)
    d: (i8, i8, i8),
    ask: (u8, u8),
    ops: Vec<Op>,
}

fn len_of(n: usize, d: i8) -> usize {
    (n as i64 + d as i64).max(0) as usize
}

/// What all members can do, by index, in a uniform way.
trait Member<'id> {
    fn n(&self) -> usize;
    fn range(&self) -> Range<'id>;
    fn vet(&self, i: usize) -> Option<Index<'id>>;
    fn get(&self, i: Index<'id>) -> u64;
    fn set(&mut self, i: Index<'id>, id: u32) -> Option<u64>;
    fn swap(&mut self, i: Index<'id>, j: Index<'id>) -> bool;
    fn rot(&mut self, r: Range<'id>, up: bool) -> bool;
    fn part(&self, r: Range<'id>) -> (Vec<u64>, usize);
    fn scan(&self, i: Index<'id>, odd: bool) -> (usize, usize);
    fn twice(&mut self, r: Range<'id>, s: Range<'id>) -> Option<Option<(Vec<u64>, Vec<u64>)>>;
    fn size(&self) -> usize;
}

impl<'id, 'a, T: Elem, M> Member<'id> for Container<'id, &'a mut [T], M> {
    fn n(&self) -> usize {
        self.len()
    }
    fn range(&self) -> Range<'id> {
        Container::range(self)
    }
    fn vet(&self, i: usize) -> Option<Index<'id>> {
        Container::vet(self, i).ok()
    }
    fn get(&self, i: Index<'id>) -> u64 {
        self[i].sig()
    }
    fn set(&mut self, i: Index<'id>, id: u32) -> Option<u64> {
        self[i] = T::make(id % 200, id);
        Some(T::make(id % 200, id).sig())
    }
    fn swap(&mut self, i: Index<'id>, j: Index<'id>) -> bool {
        Container::swap(self, i, j);
        true
    }
    fn rot(&mut self, r: Range<'id>, up: bool) -> bool {
        if up {
            self.rotate1_up(r)
        } else {
            self.rotate1_down(r)
        }
        true
    }
    fn part(&self, r: Range<'id>) -> (Vec<u64>, usize) {
        (sigs(&self[r]), self[r].as_ptr() as usize)
    }
    fn scan(&self, i: Index<'id>, odd: bool) -> (usize, usize) {
        let r = self.scan_from(i, |x| (x.sig() % 2 == 1) == odd);
        (r.start(), r.end())
    }
    fn twice(&mut self, r: Range<'id>, s: Range<'id>) -> Option<Option<(Vec<u64>, Vec<u64>)>> {
        Some(self.index_twice(r, s).ok().map(|(a, b)| (sigs(a), sigs(b))))
    }
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}

impl<'id, 'a, T: Elem, M> Member<'id> for Container<'id, &'a [T], M> {
    fn n(&self) -> usize {
        self.len()
    }
    fn range(&self) -> Range<'id> {
        Container::range(self)
    }
    fn vet(&self, i: usize) -> Option<Index<'id>> {
        Container::vet(self, i).ok()
    }
    fn get(&self, i: Index<'id>) -> u64 {
        self[i].sig()
    }
    fn set(&mut self, _: Index<'id>, _: u32) -> Option<u64> {
        None
    }
    fn swap(&mut self, _: Index<'id>, _: Index<'id>) -> bool {
        false
    }
    fn rot(&mut self, _: Range<'id>, _: bool) -> bool {
        false
    }
    fn part(&self, r: Range<'id>) -> (Vec<u64>, usize) {
        (sigs(&self[r]), self[r].as_ptr() as usize)
    }
    fn scan(&self, i: Index<'id>, odd: bool) -> (usize, usize) {
        let r = self.scan_from(i, |x| (x.sig() % 2 == 1) == odd);
        (r.start(), r.end())
    }
    fn twice(&mut self, _: Range<'id>, _: Range<'id>) -> Option<Option<(Vec<u64>, Vec<u64>)>> {
        None
    }
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}

fn family<'id>(mem: &mut [&mut dyn Member<'id>], models: &mut [Vec<u64>], bases: &[usize], n: usize, ops: &[Op], st: &mut Stats) -> Res {
    let m = mem.len();
    let mut held: Vec<(Index<'id>, usize)> = vec![];
    let mut cross = 0;
    let mut id = 3000u32;
    for (k, op) in ops.iter().enumerate() {
        id += 1;
        let fail = |what: &str| format!("step {}: {} ({:?}, {} members)", k, what, op, m);
        let pick2 = |a: u8, b: u8| (a as usize % m, b as usize % m);
        let index = |mem: &[&mut dyn Member<'id>], a: usize, p: Pos| -> Result<(Index<'id>, usize), String> {
            let i = p.idx(n);
            let x = mem[a].vet(i).ok_or(fail("vet refused"))?;
            if x.integer() != i {
                return Err(fail("vet gives another index"));
            }
            Ok((x, i))
        };
        let part = |mem: &[&mut dyn Member<'id>], a: usize, p: Pos, q: Pos| -> Result<(Range<'id>, usize, usize), String> {
            let (x, y) = span(p, q, n);
            let r = mem[a].range().split_at(y).0.split_at(x).1;
            Ok((r, x, y))
        };
        if n == 0 && !matches!(op, Op::Walk(..)) {
            continue;
        }
        match *op {
            Op::Write(a, b, p) => {
                let (a, b) = pick2(a, b);
                let (i, j) = index(mem, a, p)?;
                held.push((i, j));
                if let Some(s) = mem[b].set(i, id) {
                    models[b][j] = s;
                }
                cross += (a != b) as u32;
            }
            Op::Swap(a, b, p, q) => {
                let (a, b) = pick2(a, b);
                let (i, x) = index(mem, a, p)?;
                let (j, y) = index(mem, b, q)?;
                held.push((j, y));
                if mem[b].swap(i, j) {
                    models[b].swap(x, y);
                }
                cross += (a != b) as u32;
            }
            Op::Rotate(a, b, p, q, up) => {
                let (a, b) = pick2(a, b);
                let (r, x, y) = part(mem, a, p, q)?;
                if mem[b].rot(r, up) && x < y {
                    if up {
                        models[b][x..y].rotate_right(1)
                    } else {
                        models[b][x..y].rotate_left(1)
                    }
                }
                cross += (a != b) as u32;
            }
            Op::Slice(a, b, p, q) => {
                let (a, b) = pick2(a, b);
                let (r, x, y) = part(mem, a, p, q)?;
                let (got, at) = mem[b].part(r);
                ensure_eq!(got, models[b][x..y].to_vec(), "{}", fail("slice of a member"));
                ensure!(mem[b].size() == 0 || at == bases[b] + x * mem[b].size(), "{}", fail("slice at another address"));
                cross += (a != b) as u32;
            }
            Op::Twice(a, b, p, q, u, v) => {
                let (a, b) = pick2(a, b);
                let (r, x, y) = part(mem, a, p, q)?;
                let (s, w, z) = part(mem, b, u, v)?;
                if let Some(got) = mem[b].twice(r, s) {
                    let want = (y <= w).then(|| (models[b][x..y].to_vec(), models[b][w..z].to_vec()));
                    ensure_eq!(got, want, "{}", fail("index_twice"));
                }
            }
            Op::Scan(a, b, p) => {
                let (a, b) = pick2(a, b);
                let (i, x) = index(mem, a, p)?;
                let odd = id % 2 == 0;
                let run = models[b][x + 1..].iter().take_while(|s| (**s % 2 == 1) == odd).count();
                ensure_eq!(mem[b].scan(i, odd), (x, x + 1 + run), "{}", fail("scan of a member"));
            }
            Op::Walk(a, b) => {
                let (a, b) = pick2(a, b);
                let r = mem[a].range();
                ensure_eq!((r.start(), r.end()), (0, n), "{}", fail("range of a member"));
                let got: Vec<u64> = r.into_iter().map(|i| mem[b].get(i)).collect();
                ensure_eq!(got, models[b], "{}", fail("elements of a member by another's indices"));
                cross += (a != b) as u32;
            }
            Op::Held(b, f) => {
                let b = b as usize % m;
                if !held.is_empty() {
                    let (i, j) = held[pick(f, held.len())];
                    ensure_eq!(mem[b].get(i), models[b][j], "{}", fail("element at a held index"));
                }
            }
        }
        for (x, md) in mem.iter().zip(models.iter()) {
            ensure_eq!(x.n(), n, "{}", fail("length of a member"));
            let got: Vec<u64> = x.range().into_iter().map(|i| x.get(i)).collect();
            ensure_eq!(got, *md, "{}", fail("elements of a member"));
        }
    }
    st.nt(m > 1 && cross > 0 && n > 0);
    st.label_if(m > 2, "three members or more");
    Ok(())
}

fn expect<'id, A, B>(got: &Result<Container<'id, A, OnlyIndex>, indexing::IndexingError>, n: usize, other: usize, _: &B) -> Res {
    ensure!(got.is_ok() == (n == other), "a twin of length {} for a container of length {}: granted = {}", other, n, got.is_ok());
    Ok(())
}

fn go1<T1: Elem>(case: &Case, st: &mut Stats) -> Res {
    match case.tys.1 {
        Ty::U8 | Ty::I32 | Ty::B3 => go2::<T1, u8>(case, st),
        Ty::Trk | Ty::Kv => go2::<T1, Trk>(case, st),
        Ty::Z | Ty::ZTrk => go2::<T1, ZTrk>(case, st),
        _ => go2::<T1, Str>(case, st),
    }
}
fn go2<T1: Elem, T2: Elem>(case: &Case, st: &mut Stats) -> Res {
    match case.tys.2 {
        Ty::U8 | Ty::I32 | Ty::B3 => go3::<T1, T2, B3>(case, st),
        Ty::Z | Ty::ZTrk => go3::<T1, T2, Z>(case, st),
        _ => go3::<T1, T2, Kv>(case, st),
    }
}

fn go3<T1: Elem, T2: Elem, T3: Elem>(case: &Case, st: &mut Stats) -> Res {
    ledger_reset();
    {
        let n = case.n as usize;
        let (n1, n2, n3) = (len_of(n, case.d.0), len_of(n, case.d.1), len_of(n, case.d.2));
        let ks = |n: usize, s: u32| (0..n as u32).map(|k| (k * 5 + s) % 200).collect::<Vec<u32>>();
        let mut b0: Buf<T1> = Buf::new(&ks(n, 1), 1);
        let mut b1: Buf<T2> = Buf::new_from(&ks(n1, 2), 0, 300);
        let mut b2: Buf<T3> = Buf::new_from(&ks(n2, 3), 1, 600);
        let mut b3: Buf<T2> = Buf::new_from(&ks(n3, 4), 2, 900);
        let live0 = ledger().0;
        let before = (sigs(b0.s()), sigs(b1.s()), sigs(b2.s()), sigs(b3.s()));
        let (x0, x1, x2, x3) = before.clone();
        let mut models: Vec<Vec<u64>> = vec![x0];
        let mut bases = vec![b0.s().as_ptr() as usize];
        let (p1, p2, p3) = (b1.s().as_ptr() as usize, b2.s().as_ptr() as usize, b3.s().as_ptr() as usize);
        let mut tags = vec![0];
        if case.kind == 0 {
            // a mutable container, mutable and shared twins, a twin of a twin
            scope(b0.m(), |mut c| -> Res {
                let t1 = c.make_twin(b1.m());
                expect(&t1, n, n1, &0)?;
                let t2 = match (&t1, case.ask.0 % 2) {
                    (Ok(t), 1) => t.make_twin(b2.s()),
                    _ => c.make_twin(b2.s()),
                };
                expect(&t2, n, n2, &0)?;
                let t3 = match (&t2, &t1, case.ask.1 % 3) {
                    (Ok(t), _, 1) => t.make_twin(b3.m()),
                    (_, Ok(t), 2) => t.make_twin(b3.m()),
                    _ => c.make_twin(b3.m()),
                };
                expect(&t3, n, n3, &0)?;
                let (mut t1, mut t2, mut t3) = (t1.ok(), t2.ok(), t3.ok());
                let mut t2c = t2.clone();
                let mut mem: Vec<&mut dyn Member> = vec![&mut c];
                if let Some(t) = &mut t1 {
                    mem.push(t);
                    models.push(x1.clone());
                    bases.push(p1);
                    tags.push(1);
                }
                if let Some(t) = &mut t2 {
                    mem.push(t);
                    models.push(x2.clone());
                    bases.push(p2);
                    tags.push(2);
                }
                if let Some(t) = &mut t3 {
                    mem.push(t);
                    models.push(x3.clone());
                    bases.push(p3);
                    tags.push(3);
                }
                if let Some(t) = &mut t2c {
                    mem.push(t);
                    models.push(x2.clone());
                    bases.push(p2);
                    tags.push(2);
                }
                family(&mut mem, &mut models, &bases, n, &case.ops, st)
            })?;
        } else {
            // a shared container, its clone, twins of the clone, in index-only mode or not
            scope(b0.s(), |c| -> Res {
                let mut cl = c.clone();
                let mut oi = c.clone().only_index();
                let t1 = cl.make_twin(b1.m());
                expect(&t1, n, n1, &0)?;
                let t2 = oi.make_twin(b2.m());
                expect(&t2, n, n2, &0)?;
                // owned twins: a refused one is dropped with its elements
                let own = Fixed(elems::<T2>(&ks(n3, 9)).into_boxed_slice());
                let t3 = c.make_twin(own);
                expect(&t3, n, n3, &0)?;
                if let Ok(t) = &t3 {
                    let want: Vec<u64> = sigs(&elems::<T2>(&ks(n3, 9)));
                    let got: Vec<u64> = cl.range().into_iter().map(|i| t[i].sig()).collect();
                    ensure_eq!(got, want, "an owned twin read by the container's indices");
                }
                drop(t3);
                let live = ledger().0;
                ensure!(live == live0, "{} elements alive after an owned twin was dropped, expected {}", live, live0);
                let (mut t1, mut t2) = (t1.ok(), t2.ok());
                let mut c = c;
                let mut mem: Vec<&mut dyn Member> = vec![&mut c];
                let x0 = models[0].clone();
                let p0 = bases[0];
                for e in [&mut cl as &mut dyn Member, &mut oi] {
                    mem.push(e);
                    models.push(x0.clone());
                    bases.push(p0);
                    tags.push(0);
                }
                if let Some(t) = &mut t1 {
                    mem.push(t);
                    models.push(x1.clone());
                    bases.push(p1);
                    tags.push(1);
                }
                if let Some(t) = &mut t2 {
                    mem.push(t);
                    models.push(x2.clone());
                    bases.push(p2);
                    tags.push(2);
                }
                family(&mut mem, &mut models, &bases, n, &case.ops, st)
            })?;
        }
        // every member wrote only its own data
        let mut want = [before.0, before.1, before.2, before.3];
        for (t, m) in tags.iter().zip(models) {
            want[*t] = m;
        }
        ensure_eq!(sigs(b0.s()), want[0], "data of the container afterwards");
        ensure_eq!(sigs(b1.s()), want[1], "data of twin 1 afterwards");
        ensure_eq!(sigs(b2.s()), want[2], "data of twin 2 afterwards");
        ensure_eq!(sigs(b3.s()), want[3], "data of twin 3 afterwards");
        b0.guards_ok()?;
        b1.guards_ok()?;
        b2.guards_ok()?;
        b3.guards_ok()?;
    }
    ledger_settled()
}

fn test(case: &Case, st: &mut Stats) -> Res {
    match case.tys.0 {
        Ty::U8 | Ty::I32 | Ty::B3 => go1::<u8>(case, st),
        Ty::Trk => go1::<Trk>(case, st),
        Ty::Z | Ty::ZTrk => go1::<Z>(case, st),
        Ty::Big => go1::<Big>(case, st),
        Ty::W32 => go1::<W32>(case, st),
        _ => go1::<Kv>(case, st),
    }
}

/// Lengths beyond memory: which twins are granted.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lens {
    a: u64,
    b: Num,
}
fn lengths(c: &Lens, st: &mut Stats) -> Res {
    let a = c.a as usize;
    let b = c.b.at(a);
    let want = a == b;
    scope(Virt(a), |x| -> Res {
        ensure_eq!(x.make_twin(Virt(b)).is_ok(), want, "twin of length {} for {}", b, a);
        ensure_eq!(x.make_twin(zst_slice(b)).is_ok(), want, "zero-sized twin of length {} for {}", b, a);
        Ok(())
    })?;
    scope(zst_slice(a), |x| -> Res {
        ensure_eq!(x.make_twin(Virt(b)).is_ok(), want, "twin of length {} for zero-sized {}", b, a);
        ensure_eq!(x.clone().only_index().make_twin(zst_slice(b)).is_ok(), want, "twin of length {} for a clone of {}", b, a);
        Ok(())
    })?;
    st.nt(a > 0 && b > 0);
    st.label(if want { "granted" } else { "refused" });
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let m = || 0u8..5;
    prop_oneof![
        3 => (m(), m(), pos()).prop_map(|(a, b, p)| Op::Write(a, b, p)),
        2 => (m(), m(), pos(), pos()).prop_map(|(a, b, p, q)| Op::Swap(a, b, p, q)),
        2 => (m(), m(), pos(), pos(), any::<bool>()).prop_map(|(a, b, p, q, u)| Op::Rotate(a, b, p, q, u)),
        2 => (m(), m(), pos(), pos()).prop_map(|(a, b, p, q)| Op::Slice(a, b, p, q)),
        1 => (m(), m(), pos(), pos(), pos(), pos()).prop_map(|(a, b, p, q, u, v)| Op::Twice(a, b, p, q, u, v)),
        1 => (m(), m(), pos()).prop_map(|(a, b, p)| Op::Scan(a, b, p)),
        1 => (m(), m()).prop_map(|(a, b)| Op::Walk(a, b)),
        2 => (m(), any::<u16>()).prop_map(|(b, f)| Op::Held(b, f)),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![5 => 0u32..8, 1 => 0u32..60])
}
fn large() -> impl Strategy<Value = Case> {
    from_len(prop_oneof![4 => 100u32..1100, 1 => 1100u32..6000])
}
fn far() -> impl Strategy<Value = Case> {
    from_len(vast().prop_map(|n| n as u32))
}
fn from_len(n: impl Strategy<Value = u32>) -> impl Strategy<Value = Case> {
    let d = || prop_oneof![4 => Just(0i8), 1 => -3i8..4];
    (0u8..2, (ty(), ty(), ty()), n, (d(), d(), d()), (0u8..2, 0u8..3), prop::collection::vec(op(), 1..14))
        .prop_map(|(kind, tys, n, d, ask, ops)| Case { kind, tys, n, d, ask, ops })
}

fn main() {
    vh::main(vec![
        group("lengths", "any two lengths; non-trivial: neither is empty", 40000, || (len_any(), num()).prop_map(|(a, b)| Lens { a, b }), lengths),
        group("families", "families of containers, clones and twins (also refused ones) used through each other's particles; non-trivial: one member used by another's particle", 40000, strat, test),
        group("large", "the same with long members; non-trivial as above", 2500, large, test),
        group("vast", "the same beyond 65536 elements; non-trivial as above", 60, far, test),
    ]);
}
