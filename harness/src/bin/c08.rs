//! C08: cursor movement.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use vh::data::*;
use vh::*;

#[path = "../conts.rs"]
mod conts;
use conts::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Fwd,
    Back,
    FwdBy(Num),
    /// move the index limited by a range
    RFwdBy(Pos, Pos, Num),
    /// shift a range, clamped to the container / to a range
    CShift(Num),
    RShift(Pos, Pos, Num),
    /// the same on the non-empty cursor range
    CShiftNe(Num),
    RShiftNe(Pos, Pos, Num),
    Adv,
    AdvR,
    AdvBy(Num),
    AdvBack,
    /// set the cursors anew
    SetI(Pos),
    SetR(Pos, Pos),
    SetN(Pos, Pos),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: u8,
    len: u64,
    ops: Vec<Op>,
}

fn ab<'id, P>(r: Range<'id, P>) -> (usize, usize) {
    (r.start(), r.end())
}

fn run<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, len: usize, ops: &[Op], st: &mut Stats) -> Res {
    let vet = |a: usize, b: usize| c.vet_range(a..b).map_err(|_| format!("vet_range({}..{}) refused", a, b));
    let add = |x: usize, y: usize| x as u128 + y as u128;
    // the cursors and their models
    let mut i = c.vet(0).ok();
    let mut mi = 0usize;
    let mut r = c.range();
    let mut mr = (0usize, len);
    let mut n = c.range().nonempty().ok();
    let mut mn = (0usize, len);
    let (mut ok, mut no) = (0, 0);
    // moves of one step, as a huge length would otherwise never reach an end
    for (step, op) in ops.iter().enumerate() {
        let mut tell = |x: bool| if x { ok += 1 } else { no += 1 };
        match *op {
            Op::Fwd => {
                if let Some(i) = &mut i {
                    let want = add(mi, 1) < len as u128;
                    ensure_eq!(c.forward(i), want, "step {}: forward from {} of {}", step, mi, len);
                    if want {
                        mi += 1
                    }
                    tell(want);
                    ensure_eq!(i.integer(), mi, "step {}: index after forward", step);
                }
            }
            Op::Back => {
                if let Some(i) = &mut i {
                    let want = mi > 0;
                    ensure_eq!(c.backward(i), want, "step {}: backward from {}", step, mi);
                    if want {
                        mi -= 1
                    }
                    tell(want);
                    ensure_eq!(i.integer(), mi, "step {}: index after backward", step);
                }
            }
            Op::FwdBy(k) => {
                if let Some(i) = &mut i {
                    let k = k.at(len);
                    let want = add(mi, k) < len as u128;
                    ensure_eq!(c.forward_by(i, k), want, "step {}: forward_by({}) from {} of {}", step, k, mi, len);
                    if want {
                        mi += k
                    }
                    tell(want);
                    ensure_eq!(i.integer(), mi, "step {}: index after forward_by({})", step, k);
                }
            }
            Op::RFwdBy(a, b, k) => {
                let (a, b) = span(a, b, len);
                if let Some(i) = &mut i {
                    let k = k.at(b - a);
                    let want = add(mi, k) < b as u128;
                    let lim = vet(a, b)?;
                    let mut i2 = *i;
                    ensure_eq!(lim.forward_by(i, k), want, "step {}: forward_by({}) from {} limited by {}..{}", step, k, mi, a, b);
                    if let Ok(lim) = lim.nonempty() {
                        ensure_eq!(lim.forward_by(&mut i2, k), want, "step {}: the same, limited by a non-empty range", step);
                        ensure_eq!(i2.integer(), i.integer(), "step {}: the same, limited by a non-empty range", step);
                    }
                    if want {
                        mi += k
                    }
                    tell(want);
                    ensure_eq!(i.integer(), mi, "step {}: index after forward_by({}) limited by {}..{}", step, k, a, b);
                }
            }
            Op::CShift(k) => {
                let k = k.at(len);
                let m = |x: usize| add(x, k).min(len as u128) as usize;
                let want = (m(mr.0), m(mr.1));
                r = c.forward_range_by(r, k);
                ensure_eq!(ab(r), want, "step {}: forward_range_by({}) of {:?} in {}", step, k, mr, len);
                tell(add(mr.1, k) <= len as u128);
                mr = want;
            }
            Op::RShift(a, b, k) => {
                let (a, b) = span(a, b, len);
                let k = k.at(b - a);
                let m = |x: usize| add(x, k).min(b as u128) as usize;
                let want = (m(mr.0), m(mr.1));
                let lim = vet(a, b)?;
                let new = lim.forward_range_by(r, k);
                ensure_eq!(ab(new), want, "step {}: forward_range_by({}) of {:?} limited by {}..{}", step, k, mr, a, b);
                if let Ok(lim) = lim.nonempty() {
                    ensure_eq!(ab(lim.forward_range_by(r, k)), want, "step {}: the same, limited by a non-empty range", step);
                }
                r = new;
                tell(add(mr.1, k) <= b as u128);
                mr = want;
            }
            Op::CShiftNe(k) => {
                if let Some(n) = n {
                    let k = k.at(len);
                    let m = |x: usize| add(x, k).min(len as u128) as usize;
                    ensure_eq!(ab(c.forward_range_by(n, k)), (m(mn.0), m(mn.1)), "step {}: forward_range_by({}) of {:?} in {}", step, k, mn, len);
                }
            }
            Op::RShiftNe(a, b, k) => {
                let (a, b) = span(a, b, len);
                if let Some(n) = n {
                    let k = k.at(b - a);
                    let m = |x: usize| add(x, k).min(b as u128) as usize;
                    ensure_eq!(
                        ab(vet(a, b)?.forward_range_by(n, k)),
                        (m(mn.0), m(mn.1)),
                        "step {}: forward_range_by({}) of {:?} limited by {}..{}", step, k, mn, a, b
                    );
                }
            }
            Op::Adv | Op::AdvR | Op::AdvBy(_) => {
                if let Some(n) = &mut n {
                    let k = if let Op::AdvBy(k) = *op { k.at(mn.1 - mn.0) } else { 1 };
                    let want = add(mn.0, k) < mn.1 as u128;
                    let got = match *op {
                        Op::Adv => n.advance(),
                        Op::AdvR => match n.advance_() {
                            Ok(x) => {
                                ensure_eq!(ab(*n), mn, "step {}: the receiver of advance_", step);
                                *n = x;
                                true
                            }
                            Err(_) => false,
                        },
                        _ => n.advance_by(k),
                    };
                    ensure_eq!(got, want, "step {}: {:?} of {:?} by {}", step, op, mn, k);
                    if want {
                        mn.0 += k
                    }
                    tell(want);
                    ensure_eq!(ab(*n), mn, "step {}: range after {:?} by {}", step, op, k);
                }
            }
            Op::AdvBack => {
                if let Some(n) = &mut n {
                    let want = mn.1 - mn.0 > 1;
                    ensure_eq!(n.advance_back(), want, "step {}: advance_back of {:?}", step, mn);
                    if want {
                        mn.1 -= 1
                    }
                    tell(want);
                    ensure_eq!(ab(*n), mn, "step {}: range after advance_back", step);
                }
            }
            Op::SetI(p) => {
                if len > 0 {
                    mi = p.idx(len);
                    i = c.vet(mi).ok();
                    ensure!(i.is_some(), "vet({}) refused", mi);
                }
            }
            Op::SetR(a, b) => {
                mr = span(a, b, len);
                r = vet(mr.0, mr.1)?;
            }
            Op::SetN(a, b) => {
                let (a, b) = span(a, b, len);
                if a < b {
                    mn = (a, b);
                    n = vet(a, b)?.nonempty().ok();
                    ensure!(n.is_some(), "nonempty() of {}..{} refused", a, b);
                }
            }
        }
    }
    st.nt(ok > 0 && no > 0);
    st.count("moves accepted", ok);
    st.count("moves refused or clamped", no);
    st.label_if(len > isize::MAX as usize, "length above isize::MAX");
    Ok(())
}

fn test(case: &Case, st: &mut Stats) -> Res {
    let len = case.len as usize;
    match case.kind {
        0 => scope(Virt(len), |c| run(&c, len, &case.ops, st)),
        1 => scope(zst_slice(len), |c| run(&c, len, &case.ops, st)),
        2 => {
            let len = len % 500;
            scope(vec![0u16; len], |c| run(&c.only_index(), len, &case.ops, st))
        }
        _ => {
            let len = len % 500;
            let mut v = vec![0u16; len];
            scope(&mut v[..], |c| run(&c, len, &case.ops, st))
        }
    }
}

fn ops() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => Just(Op::Fwd),
        2 => Just(Op::Back),
        4 => num().prop_map(Op::FwdBy),
        4 => (pos(), pos(), num()).prop_map(|(a, b, k)| Op::RFwdBy(a, b, k)),
        4 => num().prop_map(Op::CShift),
        4 => (pos(), pos(), num()).prop_map(|(a, b, k)| Op::RShift(a, b, k)),
        2 => num().prop_map(Op::CShiftNe),
        2 => (pos(), pos(), num()).prop_map(|(a, b, k)| Op::RShiftNe(a, b, k)),
        2 => Just(Op::Adv),
        2 => Just(Op::AdvR),
        4 => num().prop_map(Op::AdvBy),
        2 => Just(Op::AdvBack),
        2 => pos().prop_map(Op::SetI),
        3 => (pos(), pos()).prop_map(|(a, b)| Op::SetR(a, b)),
        3 => (pos(), pos()).prop_map(|(a, b)| Op::SetN(a, b)),
    ]
}

fn strat() -> impl Strategy<Value = Case> {
    (0u8..4, len_any(), prop::collection::vec(ops(), 1..30)).prop_map(|(kind, len, ops)| Case { kind, len, ops })
}

/// Every start position and every offset, one move at a time.
fn small(thorough: bool) -> Box<dyn Iterator<Item = Case>> {
    let max = if thorough { 9u8 } else { 6 };
    let offs = move |len: u8| -> Vec<Num> {
        let mut v: Vec<Num> = (0..=len + 1).map(Num::Small).collect();
        v.extend((0..=len + 1).map(Num::UMax));
        v.extend([Num::IMax(0), Num::IMax(1)]);
        v
    };
    Box::new((0..=max).flat_map(move |len| {
        let mut v = vec![];
        for a in 0..=len {
            let (i, e) = (Pos::Lo(a), Pos::Hi(0));
            v.push(vec![Op::SetI(i), Op::Fwd, Op::SetI(i), Op::Back]);
            for k in offs(len) {
                v.push(vec![Op::SetI(i), Op::FwdBy(k)]);
                for b in a..=len {
                    let b = Pos::Lo(b);
                    v.push(vec![Op::SetR(i, b), Op::CShift(k), Op::SetN(i, b), Op::AdvBy(k), Op::SetN(i, b), Op::CShiftNe(k)]);
                    for s in 0..=len {
                        v.push(vec![Op::SetI(Pos::Lo(s)), Op::RFwdBy(i, b, k)]);
                        v.push(vec![Op::SetR(Pos::Lo(s), e), Op::RShift(i, b, k), Op::SetR(Pos::Lo(0), Pos::Lo(s)), Op::RShift(i, b, k)]);
                        v.push(vec![Op::SetN(Pos::Lo(s), e), Op::RShiftNe(i, b, k)]);
                    }
                }
            }
            for b in a..=len {
                for m in [Op::Adv, Op::AdvR, Op::AdvBack] {
                    v.push(vec![Op::SetN(i, Pos::Lo(b)), m, m, m]);
                }
            }
        }
        v.into_iter().enumerate().map(move |(k, ops)| Case { kind: (k % 4) as u8, len: len as u64, ops })
    }))
}

fn main() {
    vh::main(vec![
        exhaustive("small", "all positions, limits and offsets (also wrapping ones) up to length 6 (9 thorough); non-trivial: a move succeeds and a move is refused or clamped", small, test),
        group("random", "sequences of moves at any length with offsets of any size; non-trivial as above", 100000, strat, test),
    ]);
}
