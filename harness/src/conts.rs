//! Container kinds implemented by a user of the library, and ways to wrap
//! data in every kind of container. Included by the binaries that need it
//! (the library half of this crate never mentions `indexing`).

#![allow(dead_code)]
use indexing::container_traits::*;
use std::collections::VecDeque;

/// Only a length, of any size: no memory behind it.
pub struct Virt(pub usize);
unsafe impl Trustworthy for Virt {
    type Item = u64;
    fn base_len(&self) -> usize {
        self.0
    }
}
unsafe impl FixedLength for Virt {}

/// A user's contiguous container of fixed length.
pub struct Fixed<T>(pub Box<[T]>);
unsafe impl<T> Trustworthy for Fixed<T> {
    type Item = T;
    fn base_len(&self) -> usize {
        self.0.len()
    }
}
unsafe impl<T> FixedLength for Fixed<T> {}
unsafe impl<T> GetUnchecked for Fixed<T> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T {
        self.0.get_unchecked(i)
    }
}
unsafe impl<T> GetUncheckedMut for Fixed<T> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.0.get_unchecked_mut(i)
    }
}
unsafe impl<T> Contiguous for Fixed<T> {
    fn begin(&self) -> *const T {
        self.0.as_ptr()
    }
    fn end(&self) -> *const T {
        unsafe { self.0.as_ptr().add(self.0.len()) }
    }
    fn as_slice(&self) -> &[T] {
        &self.0
    }
}
unsafe impl<T> ContiguousMut for Fixed<T> {
    fn begin_mut(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn end_mut(&mut self) -> *mut T {
        unsafe { self.0.as_mut_ptr().add(self.0.len()) }
    }
    fn as_mut_slice(&mut self) -> &mut [T] {
        &mut self.0
    }
}

/// A user's growable container that is not contiguous.
pub struct Ring<T>(pub VecDeque<T>);
impl<T> Ring<T> {
    /// With the elements wrapped around the end of the buffer.
    pub fn wrapped(v: Vec<T>) -> Ring<T> {
        let n = v.len();
        let mut d = VecDeque::with_capacity(n + 1);
        let mut it = v.into_iter();
        let mut head: Vec<T> = it.by_ref().take(n / 2).collect();
        d.extend(it);
        while let Some(x) = head.pop() {
            d.push_front(x);
        }
        Ring(d)
    }
}
unsafe impl<T> Trustworthy for Ring<T> {
    type Item = T;
    fn base_len(&self) -> usize {
        self.0.len()
    }
}
unsafe impl<T> GetUnchecked for Ring<T> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T {
        &self.0[i]
    }
}
unsafe impl<T> GetUncheckedMut for Ring<T> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
}
unsafe impl<T> Pushable for Ring<T> {
    fn push(&mut self, t: T) -> usize {
        self.0.push_back(t);
        self.0.len() - 1
    }
    unsafe fn insert_unchecked(&mut self, i: usize, t: T) {
        self.0.insert(i, t)
    }
}

/// A user's growable contiguous container.
pub struct Grow<T>(pub Vec<T>);
unsafe impl<T> Trustworthy for Grow<T> {
    type Item = T;
    fn base_len(&self) -> usize {
        self.0.len()
    }
}
unsafe impl<T> GetUnchecked for Grow<T> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T {
        self.0.get_unchecked(i)
    }
}
unsafe impl<T> GetUncheckedMut for Grow<T> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.0.get_unchecked_mut(i)
    }
}
unsafe impl<T> Contiguous for Grow<T> {
    fn begin(&self) -> *const T {
        self.0.as_ptr()
    }
    fn end(&self) -> *const T {
        unsafe { self.0.as_ptr().add(self.0.len()) }
    }
    fn as_slice(&self) -> &[T] {
        &self.0
    }
}
unsafe impl<T> ContiguousMut for Grow<T> {
    fn begin_mut(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn end_mut(&mut self) -> *mut T {
        unsafe { self.0.as_mut_ptr().add(self.0.len()) }
    }
    fn as_mut_slice(&mut self) -> &mut [T] {
        &mut self.0
    }
}
unsafe impl<T> Pushable for Grow<T> {
    fn push(&mut self, t: T) -> usize {
        self.0.push(t);
        self.0.len() - 1
    }
    unsafe fn insert_unchecked(&mut self, i: usize, t: T) {
        self.0.insert(i, t)
    }
}
