//! Histories of safe operations inside one scope (C01, C02). Included by the
//! two binaries; the only difference is what is demanded of the particles.

use crate::conts::*;
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
#[cfg(feature = "ptr")]
use indexing::pointer::{zip, PIndex, PRange, PSlice};
#[cfg(feature = "ptr")]
use indexing::proof::Provable;
use indexing::{scope, Container, Index, IndexingError, NonEmpty, Range, Unknown};
use std::cell::RefCell;
use std::collections::HashMap;
use std::mem::size_of;
use std::rc::Rc;
use vh::data::*;
use vh::*;

/// Which property is decided.
#[derive(Clone, Copy, PartialEq)]
pub enum Prop {
    InBounds,
    Truthful,
}

/// The history cannot go on, and that is not this property's business.
pub const ABANDON: &str = "\u{1}abandoned";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Code {
    // any container
    Full, Empty, Vet, VetRange, CSplitAt, SplitAfter, SplitAround, Before, After, OfTo, OfFrom, OfFull, Forward,
    ForwardBy, Backward, CForwardRange,
    // ranges
    Nonempty, Half, RSplitAt, Contains, Subdivide, Join, JoinCover, JoinCoverBoth, Frontiers, RForwardBy,
    RForwardRange, NoProof, First, UpMid, PastEnd, LowMid, Last, Tail, Init, AdvanceR, Advance, AdvanceBy,
    AdvanceBack, Iter, IterPart, Checked,
    // indices
    IxAfter, IxNoProof,
    // reading
    Read, Slice, SliceFrom, SliceTo, SliceFull, ScanFrom, ScanRev, ScanRange,
    // writing
    Write, Swap, ZipRaw, SliceMut, SliceFromMut, SliceToMut, RotUp, RotDown, Twice,
    // pointers
    PFull, PSlic, POfTo, POfFrom, POfFull, PNonemptyRange, PScanTail, PScan, PScanRev, PSplitAt, PRead, PReadRange,
    PReadFrom, PReadTo, PNonempty, PHalf, PFirst, PUpMid, PPastEnd, PLast, PTail, PInit, PAdvance, PAdvanceBack,
    PIter, PIterPart, PConv, PNoProof, PAfter, PIxNoProof, PDistance, PSearch, PBound, PZip,
    // pointer slices
    SNonempty, SHalf, SFirst, SUpMid, SPastEnd, SLast, STail, SInit, SAdvance, SAdvanceBack, SConv, SNoProof,
    SSearch, SBound, SZip,
    // writing through pointers
    PSwap, PRot, PSliceMut, PFromMut, PToMut, PSplitCont,
    // growing, twinning
    Push, Insert, Twin, Copy,
}

pub const IX: &[Code] = {
    use Code::*;
    &[
        Full, Empty, Vet, VetRange, CSplitAt, SplitAfter, SplitAround, Before, After, OfTo, OfFrom, OfFull, Forward,
        ForwardBy, Backward, CForwardRange, Nonempty, Half, RSplitAt, Contains, Subdivide, Join, JoinCover,
        JoinCoverBoth, Frontiers, RForwardBy, RForwardRange, NoProof, First, UpMid, PastEnd, LowMid, Last, Tail, Init,
        AdvanceR, Advance, AdvanceBy, AdvanceBack, Iter, IterPart, Checked, IxAfter, IxNoProof,
    ]
};
pub const RD: &[Code] = {
    use Code::*;
    &[Read, Slice, SliceFrom, SliceTo, SliceFull, ScanFrom, ScanRev, ScanRange]
};
pub const WR: &[Code] = {
    use Code::*;
    &[Write, Swap, ZipRaw, SliceMut, SliceFromMut, SliceToMut, RotUp, RotDown, Twice]
};
pub const PT: &[Code] = {
    use Code::*;
    &[
        PFull, PSlic, POfTo, POfFrom, POfFull, PNonemptyRange, PScanTail, PScan, PScanRev, PSplitAt, PRead, PReadRange,
        PReadFrom, PReadTo, PNonempty, PHalf, PFirst, PUpMid, PPastEnd, PLast, PTail, PInit, PAdvance, PAdvanceBack,
        PIter, PIterPart, PConv, PNoProof, PAfter, PIxNoProof, PDistance, PSearch, PBound, PZip, SNonempty, SHalf,
        SFirst, SUpMid, SPastEnd, SLast, STail, SInit, SAdvance, SAdvanceBack, SConv, SNoProof, SSearch, SBound, SZip,
        PSwap, PRot, PSliceMut, PFromMut, PToMut, PSplitCont,
    ]
};
pub const GR: &[Code] = {
    use Code::*;
    &[Push, Insert, Twin, Copy]
};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub code: Code,
    /// which particles of the pool
    pub a: u16,
    pub b: u16,
    /// integer arguments
    pub n: Num,
    pub m: Num,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: u8,
    pub ty: u8,
    pub len: u64,
    pub guards: u8,
    pub spare: u8,
    /// the step at which the container becomes index-only
    pub switch: Option<u8>,
    pub ops: Vec<Op>,
}

pub const KINDS: u8 = 10;

// ------------------------------------------------------------ particles

pub enum Any<A, B> {
    U(A),
    N(B),
}
macro_rules! on {
    ($e:expr, $r:ident => $b:expr) => {
        match $e {
            Any::U($r) => $b,
            Any::N($r) => $b,
        }
    };
}

/// A proof marker with its pools.
pub trait Proof: Sized + 'static {
    const NE: bool;
    fn ix<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<Index<'id, Self>>;
    fn rg<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<Range<'id, Self>>;
    #[cfg(feature = "ptr")]
    fn pi<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PIndex<'id, T, Self>>;
    #[cfg(feature = "ptr")]
    fn pr<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PRange<'id, T, Self>>;
    #[cfg(feature = "ptr")]
    fn ps<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PSlice<'id, T, Self>>;
}
macro_rules! proof {
    ($t:ty, $ne:expr, $a:ident $b:ident $c:ident $d:ident $e:ident) => {
        impl Proof for $t {
            const NE: bool = $ne;
            fn ix<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<Index<'id, Self>> {
                &mut h.$a
            }
            fn rg<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<Range<'id, Self>> {
                &mut h.$b
            }
            #[cfg(feature = "ptr")]
            fn pi<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PIndex<'id, T, Self>> {
                &mut h.$c
            }
            #[cfg(feature = "ptr")]
            fn pr<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PRange<'id, T, Self>> {
                &mut h.$d
            }
            #[cfg(feature = "ptr")]
            fn ps<'p, 'id, T>(h: &'p mut H<'id, T>) -> &'p mut Vec<PSlice<'id, T, Self>> {
                &mut h.$e
            }
        }
    };
}
proof!(Unknown, false, iu ru pu pru psu);
proof!(NonEmpty, true, ine rn pn prn psn);

pub type Owned = Rc<RefCell<HashMap<u64, i32>>>;

/// The state of a history: every particle handed out so far (bounded), and
/// what is independently known about the container.
pub struct H<'id, T> {
    prop: Prop,
    len: usize,
    /// address of the first element, for contiguous containers
    base: Option<*const T>,
    /// signatures of the elements the container owns
    owned: Owned,
    ids: Rc<std::cell::Cell<u32>>,
    ops: Rc<Vec<Op>>,
    depth: u32,
    cap: usize,
    what: Code,
    /// exhaustive mode: picks are positions, results are not kept
    direct: bool,
    slot: usize,
    iu: Vec<Index<'id, Unknown>>,
    ine: Vec<Index<'id, NonEmpty>>,
    ru: Vec<Range<'id, Unknown>>,
    rn: Vec<Range<'id, NonEmpty>>,
    #[cfg(feature = "ptr")]
    pu: Vec<PIndex<'id, T, Unknown>>,
    #[cfg(feature = "ptr")]
    pn: Vec<PIndex<'id, T, NonEmpty>>,
    #[cfg(feature = "ptr")]
    pru: Vec<PRange<'id, T, Unknown>>,
    #[cfg(feature = "ptr")]
    prn: Vec<PRange<'id, T, NonEmpty>>,
    #[cfg(feature = "ptr")]
    psu: Vec<PSlice<'id, T, Unknown>>,
    #[cfg(feature = "ptr")]
    psn: Vec<PSlice<'id, T, NonEmpty>>,
    /// statistics
    pub handed: u64,
    pub proven: u64,
    pub accessed: u64,
    pub makers: u128,
}

fn keep<X>(cap: usize, slot: &mut usize, v: &mut Vec<X>, x: X) {
    if v.len() < cap {
        v.push(x)
    } else {
        *slot = (*slot + 7) % cap;
        v[*slot] = x;
    }
}

impl<'id, T> H<'id, T> {
    pub fn new(prop: Prop, len: usize, base: Option<*const T>, owned: Owned, ids: Rc<std::cell::Cell<u32>>) -> Self {
        H {
            prop,
            len,
            base,
            owned,
            ids,
            ops: Rc::default(),
            depth: 0,
            cap: 20,
            what: Code::Full,
            direct: false,
            slot: 0,
            iu: vec![],
            ine: vec![],
            ru: vec![],
            rn: vec![],
            #[cfg(feature = "ptr")]
            pu: vec![],
            #[cfg(feature = "ptr")]
            pn: vec![],
            #[cfg(feature = "ptr")]
            pru: vec![],
            #[cfg(feature = "ptr")]
            prn: vec![],
            #[cfg(feature = "ptr")]
            psu: vec![],
            #[cfg(feature = "ptr")]
            psn: vec![],
            handed: 0,
            proven: 0,
            accessed: 0,
            makers: 0,
        }
    }

    fn sel(&self, a: u16, n: usize) -> Option<usize> {
        if n == 0 {
            None
        } else if self.direct {
            Some(a as usize).filter(|x| *x < n)
        } else {
            Some(pick(a, n))
        }
    }

    /// in bounds, or the reason to stop
    fn demand(&self, ok: bool, m: impl FnOnce() -> String) -> Res {
        if ok {
            Ok(())
        } else if self.prop == Prop::InBounds {
            Err(format!("{:?}: {}", self.what, m()))
        } else {
            Err(ABANDON.into())
        }
    }

    fn ix_ok(&self, n: usize, ne: bool) -> Res {
        let len = self.len;
        if ne {
            if self.prop == Prop::Truthful {
                ensure!(n < len, "{:?}: an index typed as proven is {} in a container of length {}", self.what, n, len);
            }
            self.demand(n < len, || format!("dereferenceable index {} in a container of length {}", n, len))
        } else {
            self.demand(n <= len, || format!("edge index {} in a container of length {}", n, len))
        }
    }

    fn rg_ok(&self, a: usize, b: usize, ne: bool) -> Res {
        let len = self.len;
        if ne && self.prop == Prop::Truthful {
            ensure!(a < b, "{:?}: a range typed as non-empty is {}..{}", self.what, a, b);
        }
        self.demand(a <= b && b <= len, || format!("range {}..{} in a container of length {}", a, b, len))?;
        if ne {
            self.demand(a < b, || format!("range {}..{} typed as non-empty", a, b))?;
        }
        Ok(())
    }

    /// The position of a pointer: 0..=len, or the reason to stop
    fn at(&self, p: *const T, ne: bool) -> Result<usize, String> {
        let base = self.base.expect("contiguous") as usize;
        let sz = size_of::<T>();
        let d = (p as usize).wrapping_sub(base);
        let inside = d % sz == 0 && d / sz <= self.len;
        if ne && self.prop == Prop::Truthful {
            ensure!(inside && d / sz < self.len, "{:?}: a pointer typed as proven is at byte {} of {} elements of {} bytes",
                self.what, d as isize, self.len, sz);
        }
        self.demand(inside && (!ne || d / sz < self.len), || {
            format!("pointer at byte {} (proven: {}) of {} elements of {} bytes", d as isize, ne, self.len, sz)
        })?;
        Ok(d / sz)
    }

    fn note(&mut self, ne: bool) {
        self.handed += 1;
        self.proven += ne as u64;
        self.makers |= 1u128 << (self.what as u8 as u32 % 128);
    }
}

impl<'id, T: Elem> H<'id, T> {
    /// A reference to an element must be to one of the container.
    fn elem(&mut self, x: *const T) -> Res {
        self.accessed += 1;
        if let Some(b) = self.base {
            if let Err(m) = pos_of(b, self.len, x) {
                return self.demand(false, || m);
            }
        }
        // the address is known to be good (or the container checks it)
        let s = unsafe { (*x).sig() };
        let ok = self.owned.borrow().get(&s).map_or(false, |n| *n > 0);
        self.demand(ok, || format!("accessed something that is not an element of the container ({:#x})", s))
    }
    /// A slice must be `n` elements of the container.
    fn slice(&mut self, s: &[T], n: usize) -> Res {
        let l = s.len();
        self.demand(l == n, || format!("slice of {} elements for a range of {}", l, n))?;
        if let Some(b) = self.base {
            let sz = size_of::<T>();
            if sz > 0 {
                let d = (s.as_ptr() as usize).wrapping_sub(b as usize);
                let len = self.len;
                self.demand(d % sz == 0 && d / sz <= len && d / sz + l <= len, || {
                    format!("slice of {} elements at byte {} of {} elements of {} bytes", l, d as isize, len, sz)
                })?;
            }
        }
        for x in s.iter().take(40) {
            self.elem(x)?;
        }
        Ok(())
    }
    fn fresh(&mut self) -> T {
        self.ids.set(self.ids.get() + 1);
        let t = T::make(self.ids.get() % 200, self.ids.get());
        *self.owned.borrow_mut().entry(t.sig()).or_insert(0) += 1;
        t
    }
    /// Overwrite an element (its address was checked).
    fn overwrite(&mut self, x: &mut T) -> Res {
        self.elem(x)?;
        *self.owned.borrow_mut().get_mut(&x.sig()).unwrap() -= 1;
        *x = self.fresh();
        Ok(())
    }
    /// Everything handed out is still good (the length may have changed).
    fn recheck(&mut self) -> Res {
        for i in &self.iu {
            self.ix_ok(i.integer(), false)?;
        }
        for i in &self.ine {
            self.ix_ok(i.integer(), true)?;
        }
        for r in &self.ru {
            self.rg_ok(r.start(), r.end(), false)?;
        }
        for r in &self.rn {
            self.rg_ok(r.start(), r.end(), true)?;
        }
        Ok(())
    }
}

/// Everything an operation can return: checked by its static type, then kept.
pub trait Put<'id, T> {
    fn put(self, h: &mut H<'id, T>) -> Res;
}
impl<'id, T, P: Proof> Put<'id, T> for Index<'id, P> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        h.note(P::NE);
        h.ix_ok(self.integer(), P::NE)?;
        if !h.direct {
            let (mut s, cap) = (h.slot, h.cap);
            keep(cap, &mut s, P::ix(h), self);
            h.slot = s;
        }
        Ok(())
    }
}
impl<'id, T, P: Proof> Put<'id, T> for Range<'id, P> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        h.note(P::NE);
        let r = h.rg_ok(self.start(), self.end(), P::NE);
        if r == Err(ABANDON.into()) {
            // does it lead to a false proof?
            if let Ok(n) = self.nonempty() {
                n.first().put(h)?;
                n.last().put(h)?;
            }
        }
        r?;
        if !h.direct {
            let (mut s, cap) = (h.slot, h.cap);
            keep(cap, &mut s, P::rg(h), self);
            h.slot = s;
        }
        Ok(())
    }
}
#[cfg(feature = "ptr")]
impl<'id, T, P: Proof> Put<'id, T> for PIndex<'id, T, P> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        h.note(P::NE);
        h.at(self.ptr(), P::NE)?;
        if !h.direct {
            let (mut s, cap) = (h.slot, h.cap);
            keep(cap, &mut s, P::pi(h), self);
            h.slot = s;
        }
        Ok(())
    }
}
#[cfg(feature = "ptr")]
impl<'id, T, P: Proof> Put<'id, T> for PRange<'id, T, P> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        h.note(P::NE);
        let b = h.base.expect("contiguous") as usize;
        let pos = |p: *const T| (p as usize).wrapping_sub(b) as isize / size_of::<T>() as isize;
        let (x, y) = (self.first().ptr(), self.past_the_end().ptr());
        if P::NE && h.prop == Prop::Truthful {
            ensure!((x as usize) < y as usize, "{:?}: a pointer range typed as non-empty is {}..{}", h.what, pos(x), pos(y));
        }
        let r = (|| {
            h.at(x, false)?;
            h.at(y, false)?;
            h.demand(x as usize <= y as usize, || format!("pointer range {}..{}", pos(x), pos(y)))?;
            h.demand(!P::NE || (x as usize) < y as usize, || format!("pointer range {}..{} typed as non-empty", pos(x), pos(y)))
        })();
        if r == Err(ABANDON.into()) {
            if let Ok(n) = self.nonempty() {
                n.first().put(h)?;
                n.last().put(h)?;
            }
        }
        r?;
        if !h.direct {
            let (mut s, cap) = (h.slot, h.cap);
            keep(cap, &mut s, P::pr(h), self);
            h.slot = s;
        }
        Ok(())
    }
}
#[cfg(feature = "ptr")]
impl<'id, T, P: Proof> Put<'id, T> for PSlice<'id, T, P> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        h.note(P::NE);
        if P::NE && h.prop == Prop::Truthful {
            ensure!(self.len() > 0, "{:?}: a pointer slice typed as non-empty has length 0", h.what);
        }
        let (l, len) = (self.len(), h.len);
        let r = (|| {
            let x = h.at(self.first().ptr(), false)?;
            h.demand(l <= len - x, || format!("pointer slice of {} from {} in a container of length {}", l, x, len))?;
            h.demand(!P::NE || l > 0, || "pointer slice of length 0 typed as non-empty".into())
        })();
        if r == Err(ABANDON.into()) {
            if let Ok(n) = self.nonempty() {
                n.first().put(h)?;
                n.last().put(h)?;
            }
        }
        r?;
        if !h.direct {
            let (mut s, cap) = (h.slot, h.cap);
            keep(cap, &mut s, P::ps(h), self);
            h.slot = s;
        }
        Ok(())
    }
}
impl<'id, T, A: Put<'id, T>> Put<'id, T> for Option<A> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        self.map_or(Ok(()), |x| x.put(h))
    }
}
impl<'id, T, A: Put<'id, T>> Put<'id, T> for Result<A, IndexingError> {
    fn put(self, h: &mut H<'id, T>) -> Res {
        self.map_or(Ok(()), |x| x.put(h))
    }
}
impl<'id, T> Put<'id, T> for bool {
    fn put(self, _: &mut H<'id, T>) -> Res {
        Ok(())
    }
}
impl<'id, T, A: Put<'id, T>, B: Put<'id, T>> Put<'id, T> for (A, B) {
    fn put(self, h: &mut H<'id, T>) -> Res {
        self.0.put(h)?;
        self.1.put(h)
    }
}
impl<'id, T, A: Put<'id, T>, B: Put<'id, T>, C: Put<'id, T>> Put<'id, T> for (A, B, C) {
    fn put(self, h: &mut H<'id, T>) -> Res {
        self.0.put(h)?;
        self.1.put(h)?;
        self.2.put(h)
    }
}

// ------------------------------------------------------------ picking

macro_rules! picker {
    ($f:ident, $g:ident, $k:ident, $u:ident, $n:ident) => {
        impl<'id, T> H<'id, T> {
            /// any of the kind
            fn $f(&self, a: u16) -> Option<Any<$k!(Unknown), $k!(NonEmpty)>> {
                let s = self.sel(a, self.$u.len() + self.$n.len())?;
                Some(if s < self.$u.len() { Any::U(self.$u[s]) } else { Any::N(self.$n[s - self.$u.len()]) })
            }
            /// a proven one
            #[allow(dead_code)]
            fn $g(&self, a: u16) -> Option<$k!(NonEmpty)> {
                Some(self.$n[self.sel(a, self.$n.len())?])
            }
        }
    };
}
macro_rules! kix { ($p:ty) => { Index<'id, $p> }; }
macro_rules! krg { ($p:ty) => { Range<'id, $p> }; }
macro_rules! kpi { ($p:ty) => { PIndex<'id, T, $p> }; }
macro_rules! kpr { ($p:ty) => { PRange<'id, T, $p> }; }
macro_rules! kps { ($p:ty) => { PSlice<'id, T, $p> }; }
picker!(any_i, ne_i, kix, iu, ine);
picker!(any_r, ne_r, krg, ru, rn);
#[cfg(feature = "ptr")]
picker!(any_p, ne_p, kpi, pu, pn);
#[cfg(feature = "ptr")]
picker!(any_pr, ne_pr, kpr, pru, prn);
#[cfg(feature = "ptr")]
picker!(any_ps, ne_ps, kps, psu, psn);

macro_rules! or_done {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return Ok(()),
        }
    };
}

// ------------------------------------------------------------ operations

/// Operations of every container.
fn base<'id, A, M, T>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Trustworthy<Item = T>,
{
    let (a, b) = (op.a, op.b);
    let len = h.len;
    let (n, m) = (op.n.at(len), op.m.at(len));
    match op.code {
        Code::Full => c.range().put(h),
        Code::Empty => c.empty_range().put(h),
        Code::Vet => c.vet(n).put(h),
        Code::VetRange => c.vet_range(n..m).put(h),
        Code::CSplitAt => on!(or_done!(h.any_i(a)), i => c.split_at(i).put(h)),
        Code::SplitAfter => c.split_after(or_done!(h.ne_i(a))).put(h),
        Code::SplitAround => on!(or_done!(h.any_r(a)), r => c.split_around(r).put(h)),
        Code::Before => on!(or_done!(h.any_i(a)), i => c.before(i).put(h)),
        Code::After => c.after(or_done!(h.ne_i(a))).put(h),
        Code::OfTo => on!(or_done!(h.any_i(a)), i => c.range_of(..i).put(h)),
        Code::OfFrom => on!(or_done!(h.any_i(a)), i => c.range_of(i..).put(h)),
        Code::OfFull => c.range_of::<Unknown, _>(..).put(h),
        Code::Forward => {
            let mut i = or_done!(h.ne_i(a));
            c.forward(&mut i).put(h)?;
            i.put(h)
        }
        Code::ForwardBy => {
            let mut i = or_done!(h.ne_i(a));
            c.forward_by(&mut i, n).put(h)?;
            i.put(h)
        }
        Code::Backward => {
            let mut i = or_done!(h.ne_i(a));
            c.backward(&mut i).put(h)?;
            i.put(h)
        }
        Code::CForwardRange => on!(or_done!(h.any_r(a)), r => c.forward_range_by(r, n).put(h)),
        Code::Nonempty => on!(or_done!(h.any_r(a)), r => r.nonempty().put(h)),
        Code::Half => on!(or_done!(h.any_r(a)), r => r.split_in_half().put(h)),
        Code::RSplitAt => on!(or_done!(h.any_r(a)), r => r.split_at(n).put(h)),
        Code::Contains => on!(or_done!(h.any_r(a)), r => r.contains(n).put(h)),
        Code::Subdivide => on!(or_done!(h.any_r(a)), r => {
            for p in r.subdivide(n.max(1)).take(12) {
                p.put(h)?;
            }
            Ok(())
        }),
        Code::Join => on!(or_done!(h.any_r(a)), r => on!(or_done!(h.any_r(b)), s => r.join(s).put(h))),
        Code::JoinCover => on!(or_done!(h.any_r(a)), r => on!(or_done!(h.any_r(b)), s => r.join_cover(s).put(h))),
        Code::JoinCoverBoth => {
            on!(or_done!(h.any_r(a)), r => on!(or_done!(h.any_r(b)), s => r.join_cover_both(s).put(h)))
        }
        Code::Frontiers => on!(or_done!(h.any_r(a)), r => r.frontiers().put(h)),
        Code::RForwardBy => on!(or_done!(h.any_r(a)), r => {
            let mut i = or_done!(h.ne_i(b));
            r.forward_by(&mut i, n).put(h)?;
            i.put(h)
        }),
        Code::RForwardRange => {
            on!(or_done!(h.any_r(a)), r => on!(or_done!(h.any_r(b)), s => r.forward_range_by(s, n).put(h)))
        }
        Code::NoProof => on!(or_done!(h.any_r(a)), r => r.no_proof().put(h)),
        Code::First => on!(or_done!(h.any_r(a)), r => r.first().put(h)),
        Code::UpMid => on!(or_done!(h.any_r(a)), r => r.upper_middle().put(h)),
        Code::PastEnd => on!(or_done!(h.any_r(a)), r => r.past_the_end().put(h)),
        Code::LowMid => or_done!(h.ne_r(a)).lower_middle().put(h),
        Code::Last => or_done!(h.ne_r(a)).last().put(h),
        Code::Tail => or_done!(h.ne_r(a)).tail().put(h),
        Code::Init => or_done!(h.ne_r(a)).init().put(h),
        Code::AdvanceR => or_done!(h.ne_r(a)).advance_().put(h),
        Code::Advance => {
            let mut r = or_done!(h.ne_r(a));
            r.advance().put(h)?;
            r.put(h)
        }
        Code::AdvanceBy => {
            let mut r = or_done!(h.ne_r(a));
            r.advance_by(n).put(h)?;
            r.put(h)
        }
        Code::AdvanceBack => {
            let mut r = or_done!(h.ne_r(a));
            r.advance_back().put(h)?;
            r.put(h)
        }
        Code::Iter => on!(or_done!(h.any_r(a)), r => {
            for i in r.into_iter().take(12) {
                i.put(h)?;
            }
            for i in r.into_iter().rev().take(12) {
                i.put(h)?;
            }
            Ok(())
        }),
        Code::IterPart => on!(or_done!(h.any_r(a)), r => {
            let mut it = r.into_iter();
            for k in 0..n.min(30) {
                if b >> (k % 16) & 1 == 0 {
                    it.next().put(h)?;
                } else {
                    it.next_back().put(h)?;
                }
                if k % 3 == 2 {
                    let mut copy = it;
                    copy.nth(k / 3).put(h)?;
                    copy.into_range().put(h)?;
                }
            }
            it.into_range().put(h)?;
            it.last().put(h)
        }),
        Code::Checked => on!(or_done!(h.any_r(a)), r => IntoCheckedRange::into(r).put(h)),
        Code::IxAfter => or_done!(h.ne_i(a)).after().put(h),
        Code::IxNoProof => on!(or_done!(h.any_i(a)), i => indexing::proof::Provable::no_proof(i).put(h)),
        _ => Ok(()),
    }
}

fn read<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: GetUnchecked<Item = T>,
{
    match op.code {
        Code::Read => {
            let i = or_done!(h.ne_i(op.a));
            h.ix_ok(i.integer(), true)?;
            h.elem(&c[i])
        }
        _ => Ok(()),
    }
}

fn contig<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Contiguous<Item = T>,
{
    let mut left = op.n.at(h.len).min(60);
    let mut bad: Res = Ok(());
    match op.code {
        Code::Slice => on!(or_done!(h.any_r(op.a)), r => h.slice(&c[r], r.len())),
        Code::SliceFrom => on!(or_done!(h.any_i(op.a)), i => h.slice(&c[i..], h.len - i.integer())),
        Code::SliceTo => on!(or_done!(h.any_i(op.a)), i => h.slice(&c[..i], i.integer())),
        Code::SliceFull => h.slice(&c[..], h.len),
        Code::ScanFrom | Code::ScanRev | Code::ScanRange => {
            let rec = RefCell::new(&mut *h);
            let mut f = |x: &T| {
                bad = bad.clone().and_then(|_| rec.borrow_mut().elem(x));
                left = left.wrapping_sub(1);
                bad.is_ok() && left < 60
            };
            match op.code {
                Code::ScanFrom => {
                    let i = or_done!(rec.borrow().ne_i(op.a));
                    let r = c.scan_from(i, &mut f);
                    bad?;
                    r.put(h)
                }
                Code::ScanRev => {
                    let i = or_done!(rec.borrow().ne_i(op.a));
                    let r = c.scan_from_rev(i, &mut f);
                    bad?;
                    r.put(h)
                }
                _ => {
                    let r = or_done!(rec.borrow().any_r(op.a));
                    on!(r, r => {
                        let r = c.scan_range(r, &mut f);
                        bad?;
                        r.put(h)
                    })
                }
            }
        }
        _ => Ok(()),
    }
}

fn write<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: GetUncheckedMut<Item = T>,
{
    match op.code {
        Code::Write => {
            let i = or_done!(h.ne_i(op.a));
            h.ix_ok(i.integer(), true)?;
            h.overwrite(&mut c[i])
        }
        Code::Swap => {
            let (i, j) = (or_done!(h.ne_i(op.a)), or_done!(h.ne_i(op.b)));
            c.swap(i, j);
            Ok(())
        }
        Code::ZipRaw => on!(or_done!(h.any_r(op.a)), r => on!(or_done!(h.any_r(op.b)), s => {
            let (mut bad, mut n) = (Ok(()), 0);
            c.zip_mut_raw(r, s, |x, y| {
                n += 1;
                if bad.is_ok() {
                    bad = h.elem(x).and_then(|_| h.elem(y));
                }
                if bad.is_ok() {
                    unsafe { std::ptr::swap(x, y) }
                }
            });
            bad?;
            let most = r.len().min(s.len());
            h.demand(n <= most, || format!("{} pairs for ranges of {} and {}", n, r.len(), s.len()))
        })),
        _ => Ok(()),
    }
}

fn slice_mut<T: Elem>(s: &mut [T], n: usize, h: &mut H<T>) -> Res {
    h.slice(s, n)?;
    s.reverse();
    if let Some(x) = s.last_mut() {
        h.overwrite(x)?;
    }
    Ok(())
}

fn cmut<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: ContiguousMut<Item = T> + GetUncheckedMut<Item = T>,
{
    match op.code {
        Code::SliceMut => on!(or_done!(h.any_r(op.a)), r => slice_mut(&mut c[r], r.len(), h)),
        Code::SliceFromMut => on!(or_done!(h.any_i(op.a)), i => slice_mut(&mut c[i..], h.len - i.integer(), h)),
        Code::SliceToMut => on!(or_done!(h.any_i(op.a)), i => slice_mut(&mut c[..i], i.integer(), h)),
        Code::RotUp => on!(or_done!(h.any_r(op.a)), r => {
            c.rotate1_up(r);
            Ok(())
        }),
        Code::RotDown => on!(or_done!(h.any_r(op.a)), r => {
            c.rotate1_down(r);
            Ok(())
        }),
        Code::Twice => on!(or_done!(h.any_r(op.a)), r => on!(or_done!(h.any_r(op.b)), s => {
            if let Ok((x, y)) = c.index_twice(r, s) {
                h.slice(x, r.len())?;
                h.slice(y, s.len())?;
                let (xa, ya) = (x.as_ptr() as usize, y.as_ptr() as usize);
                let sz = size_of::<T>();
                let apart = sz == 0 || x.is_empty() || y.is_empty() || xa + x.len() * sz <= ya || ya + y.len() * sz <= xa;
                h.demand(apart, || "two mutable slices overlap".into())?;
                if let (Some(p), Some(q)) = (x.first_mut(), y.last_mut()) {
                    std::mem::swap(p, q);
                }
            }
            Ok(())
        })),
        _ => Ok(()),
    }
}

#[cfg(feature = "ptr")]
fn ptr<'id, A, T: Elem>(c: &mut Container<'id, A>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Contiguous<Item = T>,
{
    use indexing::algorithms as alg;
    use std::cmp::Ordering;
    if size_of::<T>() == 0 {
        return Ok(());
    }
    let (a, b) = (op.a, op.b);
    let n = op.n.at(h.len);
    match op.code {
        Code::PFull => c.pointer_range().put(h),
        Code::PSlic => c.pointer_slice().put(h),
        Code::POfTo => on!(or_done!(h.any_p(a)), p => c.pointer_range_of(..p).put(h)),
        Code::POfFrom => on!(or_done!(h.any_p(a)), p => c.pointer_range_of(p..).put(h)),
        Code::POfFull => c.pointer_range_of::<Unknown, _>(..).put(h),
        Code::PNonemptyRange => {
            on!(or_done!(h.any_p(a)), p => on!(or_done!(h.any_p(b)), q => c.nonempty_range(p, q).put(h)))
        }
        Code::PScanTail | Code::PScan | Code::PScanRev => {
            let mut bad: Res = Ok(());
            let mut left = n.min(60);
            let rec = RefCell::new(&mut *h);
            let mut f = |x: &T| {
                bad = bad.clone().and_then(|_| rec.borrow_mut().elem(x));
                left = left.wrapping_sub(1);
                bad.is_ok() && left < 60
            };
            if op.code == Code::PScanTail {
                let p = or_done!(rec.borrow().any_p(a));
                return on!(p, p => {
                    let r = c.scan_tail_(p, &mut f);
                    bad?;
                    r.put(h)
                });
            }
            let r = or_done!(rec.borrow().any_pr(a));
            on!(r, r => {
                let r = if op.code == Code::PScan {
                    c.scan_pointer_range(r, &mut f)
                } else {
                    c.scan_pointer_range_rev(r, &mut f)
                };
                bad?;
                r.put(h)
            })
        }
        Code::PSplitAt => on!(or_done!(h.any_p(a)), p => c.split_at_pointer(p).put(h)),
        Code::PRead => {
            let p = or_done!(h.ne_p(a));
            h.at(p.ptr(), true)?;
            h.elem(&c[p])
        }
        Code::PReadRange => on!(or_done!(h.any_pr(a)), r => h.slice(&c[r], r.len())),
        Code::PReadFrom => on!(or_done!(h.any_p(a)), p => h.slice(&c[p..], h.len - h.at(p.ptr(), false)?)),
        Code::PReadTo => on!(or_done!(h.any_p(a)), p => h.slice(&c[..p], h.at(p.ptr(), false)?)),
        Code::PNonempty => on!(or_done!(h.any_pr(a)), r => r.nonempty().put(h)),
        Code::PHalf => on!(or_done!(h.any_pr(a)), r => r.split_in_half().put(h)),
        Code::PFirst => on!(or_done!(h.any_pr(a)), r => r.first().put(h)),
        Code::PUpMid => on!(or_done!(h.any_pr(a)), r => r.upper_middle().put(h)),
        Code::PPastEnd => on!(or_done!(h.any_pr(a)), r => r.past_the_end().put(h)),
        Code::PLast => or_done!(h.ne_pr(a)).last().put(h),
        Code::PTail => or_done!(h.ne_pr(a)).tail().put(h),
        Code::PInit => or_done!(h.ne_pr(a)).init().put(h),
        Code::PAdvance => {
            let mut r = or_done!(h.ne_pr(a));
            r.advance().put(h)?;
            r.put(h)
        }
        Code::PAdvanceBack => {
            let mut r = or_done!(h.ne_pr(a));
            r.advance_back().put(h)?;
            r.put(h)
        }
        Code::PIter => on!(or_done!(h.any_pr(a)), r => {
            for p in r.into_iter().take(12) {
                p.put(h)?;
            }
            for p in r.into_iter().rev().take(12) {
                p.put(h)?;
            }
            Ok(())
        }),
        Code::PIterPart => on!(or_done!(h.any_pr(a)), r => {
            let mut it = r.into_iter();
            for k in 0..n.min(30) {
                if b >> (k % 16) & 1 == 0 {
                    it.next().put(h)?;
                } else {
                    it.next_back().put(h)?;
                }
                if k % 3 == 2 {
                    let mut copy = it;
                    copy.nth(k / 3).put(h)?;
                    copy.into_range().put(h)?;
                }
            }
            it.into_range().put(h)?;
            it.last().put(h)
        }),
        Code::PConv => on!(or_done!(h.any_pr(a)), r => PSlice::from(r).put(h)),
        Code::PNoProof => on!(or_done!(h.any_pr(a)), r => r.no_proof().put(h)),
        Code::PAfter => or_done!(h.ne_p(a)).after().put(h),
        Code::PIxNoProof => on!(or_done!(h.any_p(a)), p => p.no_proof().put(h)),
        Code::PDistance => on!(or_done!(h.any_p(a)), p => {
            let (d, len) = (c.distance_to(p), h.len);
            h.demand(d <= len, || format!("distance {} in a container of length {}", d, len))
        }),
        Code::PSearch | Code::PBound | Code::SSearch | Code::SBound => {
            // answers picked by the case, consistent or not
            let mut bad: Res = Ok(());
            let mut calls = 0u32;
            let rec = RefCell::new(&mut *h);
            let mut f = |x: &T| {
                bad = bad.clone().and_then(|_| rec.borrow_mut().elem(x));
                calls += 1;
                if calls > 200 {
                    std::panic::panic_any(Budget("search"));
                }
                let bits = mix((b as u64) << 32 | if n % 2 == 0 { x.key() as u64 } else { calls as u64 });
                match bits % 5 {
                    0 | 1 => Ordering::Less,
                    2 | 3 => Ordering::Greater,
                    _ => Ordering::Equal,
                }
            };
            match op.code {
                Code::PSearch => {
                    let r = or_done!(rec.borrow().any_pr(a));
                    on!(r, r => {
                        let x = alg::binary_search_by_prange_(r, &*c, &mut f);
                        bad?;
                        match x {
                            Ok(p) => p.put(h),
                            Err(p) => p.put(h),
                        }
                    })
                }
                Code::SSearch => {
                    let r = or_done!(rec.borrow().any_ps(a));
                    on!(r, r => {
                        let x = alg::binary_search_by_pslice_(r, &*c, &mut f);
                        bad?;
                        match x {
                            Ok(p) => p.put(h),
                            Err(p) => p.put(h),
                        }
                    })
                }
                Code::PBound => {
                    let r = or_done!(rec.borrow().any_pr(a));
                    on!(r, r => {
                        let x = alg::lower_bound_prange_(r, &*c, |x| f(x) == Ordering::Less);
                        bad?;
                        x.put(h)
                    })
                }
                _ => {
                    let r = or_done!(rec.borrow().any_ps(a));
                    on!(r, r => {
                        let x = alg::lower_bound_pslice_(r, &*c, |x| f(x) == Ordering::Less);
                        bad?;
                        x.put(h)
                    })
                }
            }
        }
        Code::PZip | Code::SZip => {
            let c = &*c;
            let (r, s) = (or_done!(h.any_pr(a)), or_done!(h.any_ps(b)));
            let mut k = 0;
            let mut f = |x: &T, y: &T| {
                k += 1;
                if h.elem(x).and_then(|_| h.elem(y)).is_err() || k > 100_000 {
                    std::panic::panic_any(Budget("zip left the container"));
                }
            };
            on!(r, r => on!(s, s => if op.code == Code::PZip {
                zip(r, c, s, c, &mut f)
            } else {
                zip(s, c, r, c, &mut f)
            }));
            Ok(())
        }
        Code::SNonempty => on!(or_done!(h.any_ps(a)), r => r.nonempty().put(h)),
        Code::SHalf => on!(or_done!(h.any_ps(a)), r => r.split_in_half().put(h)),
        Code::SFirst => on!(or_done!(h.any_ps(a)), r => r.first().put(h)),
        Code::SUpMid => on!(or_done!(h.any_ps(a)), r => r.upper_middle().put(h)),
        Code::SPastEnd => on!(or_done!(h.any_ps(a)), r => r.past_the_end().put(h)),
        Code::SLast => or_done!(h.ne_ps(a)).last().put(h),
        Code::STail => or_done!(h.ne_ps(a)).tail().put(h),
        Code::SInit => or_done!(h.ne_ps(a)).init().put(h),
        Code::SAdvance => {
            let mut r = or_done!(h.ne_ps(a));
            r.advance().put(h)?;
            r.put(h)
        }
        Code::SAdvanceBack => {
            let mut r = or_done!(h.ne_ps(a));
            r.advance_back().put(h)?;
            r.put(h)
        }
        Code::SConv => on!(or_done!(h.any_ps(a)), r => PRange::from(r).put(h)),
        Code::SNoProof => on!(or_done!(h.any_ps(a)), r => r.no_proof().put(h)),
        _ => Ok(()),
    }
}

#[cfg(feature = "ptr")]
fn pmut<'id, A, T: Elem>(c: &mut Container<'id, A>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: ContiguousMut<Item = T>,
{
    if size_of::<T>() == 0 {
        return Ok(());
    }
    match op.code {
        Code::PSwap => {
            let (p, q) = (or_done!(h.ne_p(op.a)), or_done!(h.ne_p(op.b)));
            c.swap_ptr(p, q);
            Ok(())
        }
        Code::PRot => {
            c.rotate1_prange(or_done!(h.ne_pr(op.a)));
            Ok(())
        }
        Code::PSliceMut => on!(or_done!(h.any_pr(op.a)), r => slice_mut(&mut c[r], r.len(), h)),
        Code::PFromMut => on!(or_done!(h.any_p(op.a)), p => {
            let n = h.len - h.at(p.ptr(), false)?;
            slice_mut(&mut c[p..], n, h)
        }),
        Code::PToMut => on!(or_done!(h.any_p(op.a)), p => {
            let n = h.at(p.ptr(), false)?;
            slice_mut(&mut c[..p], n, h)
        }),
        Code::PSplitCont => on!(or_done!(h.any_p(op.a)), p => {
            let mid = h.at(p.ptr(), false)?;
            let (len, base) = (h.len, h.base.unwrap());
            let (prop, owned, ids, ops, depth, direct) = (h.prop, h.owned.clone(), h.ids.clone(), h.ops.clone(), h.depth + 1, h.direct);
            let r = c.split_container_at_pointer(p, |mut c1, r1, mut c2, r2| -> Res {
                let mut h1 = H::new(prop, mid, Some(base), owned.clone(), ids.clone());
                let mut h2 = H::new(prop, len - mid, Some(base.wrapping_add(mid)), owned, ids);
                h1.what = Code::PSplitCont;
                h2.what = Code::PSplitCont;
                let (l1, l2) = (c1.len(), c2.len());
                h1.demand(l1 == mid && l2 == len - mid, || format!("halves of {} and {} of {} elements", l1, l2, len))?;
                r1.put(&mut h1)?;
                r2.put(&mut h2)?;
                h1.slice(&c1[r1], r1.len())?;
                h2.slice(&c2[r2], r2.len())?;
                let mut k = 0;
                zip(r1, &mut c1, r2, &mut c2, |x, y| {
                    k += 1;
                    if h1.elem(x).and_then(|_| h2.elem(y)).is_err() || k > 100_000 {
                        std::panic::panic_any(Budget("zip left the container"));
                    }
                    std::mem::swap(x, y);
                });
                if depth < 3 && !direct {
                    let k = op.m.at(len) % ops.len().max(1);
                    for (n, o) in ops[k..].iter().take(6).enumerate() {
                        h1.ops = ops.clone();
                        h2.ops = ops.clone();
                        h1.depth = depth;
                        h2.depth = depth;
                        if (op.b >> (n % 16)) & 1 == 0 {
                            step_slice_mut(&mut c1, o, &mut h1)?;
                        } else {
                            step_slice_mut(&mut c2, o, &mut h2)?;
                        }
                    }
                }
                h1.recheck()?;
                h2.recheck()
            });
            r
        }),
        _ => Ok(()),
    }
}

#[cfg(feature = "ptr")]
fn step_slice_mut<'id, T: Elem>(c: &mut Container<'id, &mut [T]>, op: &Op, h: &mut H<'id, T>) -> Res {
    h.what = op.code;
    base(c, op, h)?;
    read(c, op, h)?;
    contig(c, op, h)?;
    write(c, op, h)?;
    cmut(c, op, h)?;
    ptr(c, op, h)?;
    pmut(c, op, h)
}

fn grow<'id, A, T: Elem>(c: &mut Container<'id, A, OnlyIndex>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Pushable<Item = T>,
{
    match op.code {
        Code::Push => {
            let t = h.fresh();
            let i = c.push(t);
            h.len += 1;
            i.put(h)?;
        }
        Code::Insert => on!(or_done!(h.any_i(op.a)), i => {
            let t = h.fresh();
            c.insert(i, t);
            h.len += 1;
        }),
        _ => return Ok(()),
    }
    h.recheck()
}

/// Where the elements are after growth.
fn rebase<'id, A, T: Elem>(c: &mut Container<'id, A, OnlyIndex>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Contiguous<Item = T>,
{
    if matches!(op.code, Code::Push | Code::Insert) {
        h.base = Some(c[..].as_ptr());
        h.slice(&c[..], h.len)?;
    }
    Ok(())
}

fn twin<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: Trustworthy<Item = T> + FixedLength,
{
    if op.code != Code::Twin {
        return Ok(());
    }
    let n = match op.b % 6 {
        0 | 1 => h.len,
        2 => h.len.wrapping_add(1),
        3 => h.len.wrapping_sub(1),
        4 => op.n.at(h.len),
        _ => h.len / 2,
    };
    let admits = |h: &mut H<'id, T>, tl: usize| -> Res {
        h.demand(tl == n, || format!("a twin of {} elements has length {}", n, tl))?;
        // everything handed out so far is accepted by the twin
        let len = h.len;
        h.len = n;
        let r = h.recheck();
        h.len = len;
        r.map_err(|m| if m == ABANDON { m } else { format!("in a twin of a container of length {}: {}", len, m) })
    };
    if n > 4000 {
        if let Ok(t) = c.make_twin(Virt(n)) {
            admits(h, t.len())?;
            t.range().put(h)?;
            t.vet(op.m.at(n)).put(h)?;
        }
        if let Ok(t) = c.make_twin(zst_slice(n)) {
            admits(h, t.len())?;
            t.range().put(h)?;
            t.vet(op.m.at(n)).put(h)?;
        }
        return Ok(());
    }
    let mut v: Vec<u64> = (0..n as u64).collect::<Vec<_>>().into_boxed_slice().into_vec();
    let vb = v.as_ptr();
    macro_rules! check {
        ($t:expr) => {{
            let t = $t;
            admits(h, t.len())?;
            for i in h.ine.clone() {
                let p: *const u64 = &t[i];
                let d = (p as usize).wrapping_sub(vb as usize);
                h.demand(d % 8 == 0 && d / 8 < n, || format!("index {} of the twin leads to byte {}", i.integer(), d as isize))?;
                h.accessed += 1;
            }
            for r in h.ru.clone() {
                let s = &t[r];
                let d = (s.as_ptr() as usize).wrapping_sub(vb as usize);
                h.demand(d % 8 == 0 && d / 8 + s.len() <= n, || format!("range {:?} of the twin leads to byte {}", r, d as isize))?;
            }
            t.range().put(h)?;
            t.vet(op.m.at(n)).put(h)?;
        }};
    }
    if let Ok(t) = c.make_twin(&v[..]) {
        check!(&t);
    }
    if let Ok(mut t) = c.make_twin(&mut v[..]) {
        check!(&t);
        if let (Some(i), Some(j)) = (h.ne_i(op.a), h.ne_i(op.b)) {
            t.swap(i, j);
            let x = t[i];
            h.demand(x < n as u64, || "the twin has foreign contents".into())?;
        }
        if let Some(r) = h.any_r(op.a) {
            on!(r, r => t.rotate1_up(r));
        }
    }
    v.sort();
    h.demand(v.iter().enumerate().all(|(i, x)| i as u64 == *x), || "the twin's elements changed".into())
}

fn copy<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, op: &Op, h: &mut H<'id, T>) -> Res
where
    A: GetUnchecked<Item = T> + FixedLength + Clone,
{
    if op.code != Code::Copy {
        return Ok(());
    }
    let mut d = c.clone();
    let (l, len) = (d.len(), h.len);
    h.demand(l == len, || format!("a clone of {} elements has length {}", len, l))?;
    d.range().put(h)?;
    if let Some(i) = h.ne_i(op.a) {
        h.elem(&d[i])?;
    }
    base(&mut d, &Op { code: Code::VetRange, ..*op }, h)
}

/// All elements are still there, once each.
fn finish<'id, A, M, T: Elem>(c: &mut Container<'id, A, M>, h: &mut H<'id, T>) -> Res
where
    A: GetUnchecked<Item = T>,
{
    let l = c.len();
    let len = h.len;
    h.demand(l == len, || format!("length {} instead of {}", l, len))?;
    h.recheck()?;
    let mut left = h.owned.borrow().clone();
    for i in c.range() {
        *left.entry(c[i].sig()).or_insert(0) -= 1;
    }
    h.demand(left.values().all(|n| *n == 0), || "elements were lost or duplicated".into())
}

// ------------------------------------------------------------ drivers

/// Put everything that exists in the container into the pools.
fn fill<'id, A, M, T>(c: &Container<'id, A, M>, h: &mut H<'id, T>) -> Res
where
    A: Trustworthy<Item = T>,
{
    h.cap = usize::MAX;
    for a in 0..=h.len {
        c.vet(a).put(h)?;
        for b in a..=h.len {
            let r = c.vet_range(a..b);
            r.put(h)?;
            if let Ok(r) = r {
                r.nonempty().put(h)?;
                if a == b {
                    r.first().put(h)?;
                }
            }
        }
    }
    Ok(())
}
#[cfg(feature = "ptr")]
fn pfill<'id, A, T>(c: &Container<'id, A>, h: &mut H<'id, T>) -> Res
where
    A: Contiguous<Item = T>,
{
    if size_of::<T>() == 0 {
        return Ok(());
    }
    let all = c.pointer_range();
    let ps: Vec<_> = all.into_iter().take(h.len).collect();
    for p in &ps {
        p.put(h)?;
        p.no_proof().put(h)?;
        for q in &ps {
            if let Ok(r) = c.nonempty_range(*p, *q) {
                r.put(h)?;
                r.no_proof().put(h)?;
                let s = PSlice::from(r);
                s.put(h)?;
                s.no_proof().put(h)?;
            }
        }
        if let Ok(r) = c.nonempty_range(*p, all.past_the_end()) {
            r.put(h)?;
            r.no_proof().put(h)?;
            let s = PSlice::from(r);
            s.put(h)?;
            s.no_proof().put(h)?;
        }
        if let Ok(r) = c.nonempty_range(*p, p.after()) {
            let e = r.init();
            e.put(h)?;
            PSlice::from(e).put(h)?;
        }
    }
    all.past_the_end().put(h)?;
    let e = c.pointer_range_of(all.past_the_end()..);
    e.put(h)?;
    PSlice::from(e).put(h)
}

pub enum Plan<'a> {
    History(&'a [Op]),
    /// one step from every state
    Every(Code),
}

fn uses(c: Code) -> (bool, bool, bool) {
    use Code::*;
    let b = matches!(
        c,
        Join | JoinCover | JoinCoverBoth | RForwardBy | RForwardRange | ZipRaw | Twice | Swap | IterPart | PNonemptyRange
            | PIterPart | PSearch | PBound | SSearch | SBound | PZip | SZip | PSwap | Twin
    );
    let n = matches!(
        c,
        Vet | VetRange | ForwardBy | CForwardRange | RSplitAt | Contains | Subdivide | RForwardBy | RForwardRange
            | AdvanceBy | IterPart | ScanFrom | ScanRev | ScanRange | PScanTail | PScan | PScanRev | PIterPart
            | PSearch | PBound | SSearch | SBound
    );
    (b, n, c == VetRange)
}

fn nums(len: usize) -> Vec<Num> {
    let mut v: Vec<Num> = (0..len as u8 + 2).map(Num::Small).collect();
    v.extend([Num::IMax(0), Num::IMax(1), Num::UMaxLen(0), Num::UMax(1), Num::UMax(0)]);
    v
}

macro_rules! drive {
    ($c:expr, $h:expr, $ops:expr, $($layer:ident)*) => {
        for op in $ops.iter() {
            let op: &Op = op;
            $h.what = op.code;
            $( $layer(&mut $c, op, &mut $h)?; )*
            let (l, len) = ($c.len(), $h.len);
            $h.demand(l == len, || format!("length {} instead of {}", l, len))?;
        }
    };
}

/// In mode `()`, then index-only: the layers of either mode.
macro_rules! play {
    ($c:ident, $h:ident, $plan:expr, $switch:expr, $st:ident, [$($fin:ident)*] [$($pf:ident)*] [$($any:ident)*] [$($ptr:ident)*] [$($only:ident)*]) => {{
        let mut $c = $c;
        match $plan {
            Plan::History(ops) => {
                $h.ops = Rc::new(ops.to_vec());
                // something to start from
                $c.range().put(&mut $h)?;
                $c.range().nonempty().put(&mut $h)?;
                let k = $switch.map_or(ops.len(), |k| k.min(ops.len()));
                drive!($c, $h, ops[..k], $($any)* $($ptr)*);
                if $switch.is_some() {
                    let mut $c = $c.only_index();
                    $h.pointers_gone();
                    drive!($c, $h, ops[k..], $($any)* $($only)*);
                    $( $fin(&mut $c, &mut $h)?; )*
                } else {
                    $( $fin(&mut $c, &mut $h)?; )*
                }
            }
            Plan::Every(code) => {
                if $switch.is_some() {
                    let mut $c = $c.only_index();
                    fill(&$c, &mut $h)?;
                    $h.direct = true;
                    $h.what = code;
                    every!($c, $h, code, $($any)* $($only)*);
                    $( $fin(&mut $c, &mut $h)?; )*
                } else {
                    fill(&$c, &mut $h)?;
                    $( $pf(&$c, &mut $h)?; )*
                    $h.direct = true;
                    $h.what = code;
                    every!($c, $h, code, $($any)* $($ptr)*);
                    $( $fin(&mut $c, &mut $h)?; )*
                }
            }
        }
        $st.count("particles handed out", $h.handed);
        $st.count("with proof", $h.proven);
        $st.count("accesses", $h.accessed);
        $st.nt(match $h.prop {
            Prop::InBounds => $h.handed >= 6 && $h.makers.count_ones() >= 3 && ($h.accessed > 0 || !stringify!($($any)*).contains("read")),
            Prop::Truthful => $h.proven >= 3 && $h.makers.count_ones() >= 3,
        } || matches!($plan, Plan::Every(_)) && $h.handed + $h.accessed > 0);
        Ok(())
    }};
}
macro_rules! every {
    ($c:ident, $h:ident, $code:expr, $($layer:ident)*) => {{
        let (ub, un, um) = uses($code);
        let most = $h.biggest();
        let ns = nums($h.len);
        let (bs, nn, mm) = (if ub { most } else { 1 }, if un { ns.len() } else { 1 }, if um { ns.len() } else { 1 });
        for a in 0..most {
            for b in 0..bs {
                for n in 0..nn {
                    for m in 0..mm {
                        let op = Op { code: $code, a: a as u16, b: b as u16, n: ns[n], m: ns[m] };
                        let r: Res = (|| { $( $layer(&mut $c, &op, &mut $h)?; )* Ok(()) })();
                        r.map_err(|e| if e == ABANDON { e } else { format!("{} (with {:?})", e, op) })?;
                        let (l, len) = ($c.len(), $h.len);
                        $h.demand(l == len, || format!("length {} instead of {}", l, len))?;
                    }
                }
            }
        }
    }};
}

impl<'id, T> H<'id, T> {
    fn pointers_gone(&mut self) {
        #[cfg(feature = "ptr")]
        {
            self.pu.clear();
            self.pn.clear();
            self.pru.clear();
            self.prn.clear();
            self.psu.clear();
            self.psn.clear();
        }
    }
    fn biggest(&self) -> usize {
        let m = (self.iu.len() + self.ine.len()).max(self.ru.len() + self.rn.len()).max(1);
        #[cfg(feature = "ptr")]
        let m = m.max(self.pu.len() + self.pn.len()).max(self.pru.len() + self.prn.len()).max(self.psu.len() + self.psn.len());
        m
    }
}

#[cfg(not(feature = "ptr"))]
mod noptr {
    use super::*;
    pub fn ptr<'id, A, T>(_: &mut Container<'id, A>, _: &Op, _: &mut H<'id, T>) -> Res {
        Ok(())
    }
    pub fn pmut<'id, A, T>(_: &mut Container<'id, A>, _: &Op, _: &mut H<'id, T>) -> Res {
        Ok(())
    }
    pub fn pfill<'id, A, T>(_: &Container<'id, A>, _: &mut H<'id, T>) -> Res {
        Ok(())
    }
}
#[cfg(not(feature = "ptr"))]
use noptr::*;

pub struct Setup {
    pub kind: u8,
    pub len: usize,
    pub guards: usize,
    pub spare: usize,
    pub switch: Option<usize>,
}

fn with_kind<T: Elem>(prop: Prop, s: &Setup, plan: Plan, st: &mut Stats) -> Res {
    ledger_reset();
    let keys: Vec<u32> = (0..s.len as u32).map(|i| i * 7 % 100).collect();
    let ids = Rc::new(std::cell::Cell::new(1000u32));
    let owned: Owned = Rc::default();
    let own = |v: &[T]| {
        for x in v {
            *owned.borrow_mut().entry(x.sig()).or_insert(0) += 1;
        }
    };
    let sw = s.switch;
    let r: Res = match s.kind {
        0 | 1 => {
            let mut buf = Buf::<T>::new(&keys, s.guards);
            own(buf.s());
            let p = buf.s().as_ptr();
            let r: Res = if s.kind == 0 {
                scope(buf.m(), |c| {
                    let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut twin] [ptr pmut] [])
                })
            } else {
                scope(buf.s(), |c| {
                    let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [pfill] [base read contig twin copy] [ptr] [])
                })
            };
            r?;
            if prop == Prop::InBounds {
                buf.guards_ok()?;
                let mut left = owned.borrow().clone();
                for x in buf.s() {
                    *left.entry(x.sig()).or_insert(0) -= 1;
                }
                ensure!(left.values().all(|n| *n == 0), "elements were lost or duplicated");
                if T::TRACKED {
                    ledger_live(buf.total())?;
                }
            }
            Ok(())
        }
        k => {
            let mut v: Vec<T> = Vec::with_capacity(s.len + s.spare);
            v.extend(elems::<T>(&keys));
            own(&v);
            let p = v.as_ptr();
            let h0 = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
            let _ = h0;
            match k {
                #[cfg(feature = "std_cfg")]
                2 => scope(v, |c| {
                    let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut] [ptr pmut] [grow rebase])
                }),
                #[cfg(feature = "std_cfg")]
                3 => scope(&mut v, |c| {
                    let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut] [ptr pmut] [grow rebase])
                }),
                4 | 5 => {
                    let b = v.into_boxed_slice();
                    let p = b.as_ptr();
                    let mut f = Fixed(b);
                    if k == 4 {
                        scope(f, |c| {
                            let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                            play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut twin] [ptr pmut] [])
                        })
                    } else {
                        scope(&mut f, |c| {
                            let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                            play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut twin] [ptr pmut] [])
                        })
                    }
                }
                7 => scope(Ring::wrapped(v), |c| {
                    let mut h = H::new(prop, s.len, None, owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [] [base read write] [] [grow])
                }),
                _ => scope(Grow(v), |c| {
                    let mut h = H::new(prop, s.len, Some(p), owned.clone(), ids.clone());
                    play!(c, h, plan, sw, st, [finish] [pfill] [base read contig write cmut] [ptr pmut] [grow rebase])
                }),
            }
        }
    };
    r?;
    if prop == Prop::InBounds {
        ledger_settled()?;
    }
    Ok(())
}

/// Containers of any length (no memory behind them).
fn huge(prop: Prop, s: &Setup, plan: Plan, st: &mut Stats) -> Res {
    let ids = Rc::new(std::cell::Cell::new(1000u32));
    let owned: Owned = Rc::default();
    let sw = s.switch;
    if s.kind == 8 {
        scope(Virt(s.len), |c| {
            let mut h: H<u64> = H::new(prop, s.len, None, owned, ids);
            play!(c, h, plan, sw, st, [] [] [base twin] [] [])
        })
    } else {
        owned.borrow_mut().insert(0, 1);
        let z: &[Z] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), s.len) };
        scope(z, |c| {
            let mut h: H<Z> = H::new(prop, s.len, Some(z.as_ptr()), owned, ids);
            play!(c, h, plan, sw, st, [] [] [base read contig twin copy] [] [])
        })
    }
}

pub fn run(prop: Prop, ty: u8, s: &Setup, plan: Plan, st: &mut Stats) -> Res {
    if s.kind >= 8 {
        return huge(prop, s, plan, st);
    }
    match ty % 4 {
        0 => with_kind::<Kv>(prop, s, plan, st),
        1 => with_kind::<B3>(prop, s, plan, st),
        2 => with_kind::<Trk>(prop, s, plan, st),
        _ => with_kind::<ZTrk>(prop, s, plan, st),
    }
}

// ------------------------------------------------------------ generators

pub fn setup(c: &Case) -> Setup {
    Setup {
        kind: c.kind,
        len: if c.kind >= 8 { c.len as usize } else { c.len.min(1 << 14) as usize },
        guards: c.guards as usize,
        spare: c.spare as usize,
        switch: c.switch.map(|x| x as usize),
    }
}

fn code() -> impl Strategy<Value = Code> {
    prop_oneof![
        6 => proptest::sample::select(IX.to_vec()),
        2 => proptest::sample::select(RD.to_vec()),
        2 => proptest::sample::select(WR.to_vec()),
        5 => proptest::sample::select(PT.to_vec()),
        1 => Just(Code::PFull),
        1 => Just(Code::PNonempty),
        2 => proptest::sample::select(GR.to_vec()),
    ]
}

pub fn op() -> impl Strategy<Value = Op> {
    (code(), any::<u16>(), any::<u16>(), num_in(), num_in()).prop_map(|(code, a, b, n, m)| Op { code, a, b, n, m })
}

pub fn histories() -> impl Strategy<Value = Case> {
    let len = prop_oneof![8 => 0u64..10, 2 => 0u64..40];
    (0u8..8, 0u8..4, len, 0u8..3, 0u8..4, prop_oneof![1 => Just(None), 1 => (0u8..30).prop_map(Some)], prop::collection::vec(op(), 1..50))
        .prop_map(|(kind, ty, len, guards, spare, switch, ops)| Case { kind, ty, len, guards, spare, switch, ops })
}

/// Long containers of real elements
pub fn large_histories() -> impl Strategy<Value = Case> {
    let len = prop_oneof![
        2 => (5u32..13, -2i64..3).prop_map(|(k, d)| ((1i64 << k) + d) as u64),
        1 => (0u64..80).prop_map(|x| x * 64),
        2 => 0u64..3000,
    ];
    let op = (code(), any::<u16>(), any::<u16>(), num_long(), num_long()).prop_map(|(code, a, b, n, m)| Op { code, a, b, n, m });
    (0u8..8, 0u8..4, len, 0u8..3, 0u8..4, prop_oneof![1 => Just(None), 1 => (0u8..30).prop_map(Some)], prop::collection::vec(op, 1..40))
        .prop_map(|(kind, ty, len, guards, spare, switch, ops)| Case { kind, ty, len, guards, spare, switch, ops })
}

pub fn huge_histories() -> impl Strategy<Value = Case> {
    let code = prop_oneof![6 => proptest::sample::select(IX.to_vec()), 2 => proptest::sample::select(RD.to_vec()), 1 => proptest::sample::select(GR.to_vec())];
    let op = (code, any::<u16>(), any::<u16>(), num(), num()).prop_map(|(code, a, b, n, m)| Op { code, a, b, n, m });
    (8u8..10, len_any(), prop_oneof![2 => Just(None), 1 => (0u8..30).prop_map(Some)], prop::collection::vec(op, 1..40))
        .prop_map(|(kind, len, switch, ops)| Case { kind, ty: 0, len, guards: 0, spare: 0, switch, ops })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub kind: u8,
    pub ty: u8,
    pub len: u8,
    pub only: bool,
    pub code: Code,
}

/// Every operation from every state of short containers of every kind.
pub fn steps(thorough: bool) -> Box<dyn Iterator<Item = Step>> {
    let max = if thorough { 6u8 } else { 4 };
    Box::new((0..=max).flat_map(move |len| {
        let mut v = vec![];
        for kind in 0..KINDS {
            for ty in 0..4 {
                for only in [false, true] {
                    for list in [IX, RD, WR, PT, GR] {
                        for code in list {
                            let used = match code {
                                Code::Push | Code::Insert => only && matches!(kind, 2 | 3 | 6 | 7),
                                Code::Twin => matches!(kind, 0 | 1 | 4 | 5 | 8 | 9),
                                Code::Copy => matches!(kind, 1 | 9),
                                c if PT.contains(c) => !only && !matches!(kind, 7 | 8 | 9) && ty != 3,
                                c if WR.contains(c) => !matches!(kind, 1 | 8 | 9),
                                c if RD.contains(c) => !matches!(kind, 8),
                                // the same for every kind: not all of them
                                _ => ty == 0 || (ty == 3 && kind < 4),
                            };
                            if used && (kind < 8 || ty == 0) {
                                v.push(Step { kind, ty, len, only, code: *code });
                            }
                        }
                    }
                }
            }
        }
        v.into_iter()
    }))
}

pub fn run_step(prop: Prop, s: &Step, st: &mut Stats) -> Res {
    let set = Setup { kind: s.kind, len: s.len as usize, guards: 1, spare: 0, switch: if s.only { Some(0) } else { None } };
    run(prop, s.ty, &set, Plan::Every(s.code), st)
}
