//! Models of library functions whose own bodies work on raw pointers: a call of the library function is
//! analysed as a call of the model with the same generic arguments.
#![allow(clippy::all)]
use core::ops::ControlFlow;

pub fn m_iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn m_iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_x) = it.next() {
        n += 1;
    }
    n
}
pub fn m_iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}
pub fn m_iter_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
    None
}
pub fn m_iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn m_iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn m_iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn m_iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn m_iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn m_iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Trying<B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).split() {
            Ok(b) => acc = b,
            Err(r) => return r,
        }
    }
    R::wrap(acc)
}
pub fn m_iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Trying<()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).split() {
            Ok(()) => (),
            Err(r) => return r,
        }
    }
    R::wrap(())
}
/// The two ways a `Try` type can go, without the unstable trait.
pub trait Trying<B>: Sized {
    fn split(self) -> Result<B, Self>;
    fn wrap(b: B) -> Self;
}
impl<B, X> Trying<X> for ControlFlow<B, X> {
    fn split(self) -> Result<X, Self> {
        match self {
            ControlFlow::Continue(c) => Ok(c),
            ControlFlow::Break(b) => Err(ControlFlow::Break(b)),
        }
    }
    fn wrap(b: X) -> Self {
        ControlFlow::Continue(b)
    }
}
impl<X> Trying<X> for Option<X> {
    fn split(self) -> Result<X, Self> {
        match self {
            Some(c) => Ok(c),
            None => Err(None),
        }
    }
    fn wrap(b: X) -> Self {
        Some(b)
    }
}
impl<X, E> Trying<X> for Result<X, E> {
    fn split(self) -> Result<X, Self> {
        match self {
            Ok(c) => Ok(c),
            Err(e) => Err(Err(e)),
        }
    }
    fn wrap(b: X) -> Self {
        Ok(b)
    }
}
pub fn m_iter_collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B {
    B::from_iter(it)
}
pub fn m_iter_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (B, B) {
    let mut l = B::default();
    let mut r = B::default();
    while let Some(x) = it.next() {
        if f(&x) {
            l.extend(Some(x));
        } else {
            r.extend(Some(x));
        }
    }
    (l, r)
}
pub fn m_iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(mut acc) => {
            while let Some(x) = it.next() {
                acc = f(acc, x);
            }
            Some(acc)
        }
    }
}
pub fn m_dei_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_from_iter_vec<S, A, I: IntoIterator<Item = A>>(it: I) -> Vec<A> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn m_extend_vec<S, A, I: IntoIterator<Item = A>>(v: &mut Vec<A>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn m_from_iter_smallvec<S: PushPop<A>, A, I: IntoIterator<Item = A>>(it: I) -> S {
    let mut v = S::fresh();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.put(x);
    }
    v
}
pub fn m_extend_smallvec<S: PushPop<A>, A, I: IntoIterator<Item = A>>(v: &mut S, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.put(x);
    }
}
pub fn m_from_iter_binaryheap<S, A: Ord, I: IntoIterator<Item = A>>(it: I) -> std::collections::BinaryHeap<A> {
    let mut v = std::collections::BinaryHeap::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn m_extend_binaryheap<S, A: Ord, I: IntoIterator<Item = A>>(v: &mut std::collections::BinaryHeap<A>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub trait PushPop<A> {
    fn fresh() -> Self;
    fn put(&mut self, a: A);
}
impl<T: smallvec::Array> PushPop<T::Item> for smallvec::SmallVec<T> {
    fn fresh() -> Self {
        smallvec::SmallVec::new()
    }
    fn put(&mut self, a: T::Item) {
        self.push(a)
    }
}
pub fn m_fn_vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
/// Only for analysis: the elements of the vector as an array.
pub fn vec_into_array<T, const N: usize>(_: Vec<T>) -> [T; N] {
    loop {}
}
pub fn m_fn_array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut v = Vec::new();
    let mut it = a.into_iter();
    while let Some(x) = it.next() {
        v.push(f(x));
    }
    vec_into_array(v)
}
pub fn m_fn_array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    let mut i = 0;
    while i < N {
        v.push(f(i));
        i += 1;
    }
    vec_into_array(v)
}

/// Only for analysis: an arbitrary element of the heap is taken out; two more that look like it.
pub fn heap_take<T, H>(_: &mut H) -> Option<T> {
    loop {}
}
pub fn heap_like<T>(_: &T) -> T {
    loop {}
}
/// Only for analysis: how the heap of kind K orders two elements.
pub fn heap_order<T, K>(_: core::cmp::Ordering, _: T, _: T) {
    loop {}
}
pub fn m_fn_binaryheap_pop<T: Ord, A>(h: &mut std::collections::BinaryHeap<T>) -> Option<T> {
    match heap_take::<T, _>(h) {
        None => None,
        Some(x) => {
            let a = heap_like(&x);
            let b = heap_like(&x);
            heap_order::<T, heapless::binary_heap::Max>(a.cmp(&b), a, b);
            Some(x)
        }
    }
}
pub fn m_heapless_binaryheap_pop<T: Ord, K: heapless::binary_heap::Kind, const N: usize>(h: &mut heapless::BinaryHeap<T, K, N>) -> Option<T> {
    match heap_take::<T, _>(h) {
        None => None,
        Some(x) => {
            let a = heap_like(&x);
            let b = heap_like(&x);
            heap_order::<T, K>(a.cmp(&b), a, b);
            Some(x)
        }
    }
}
pub trait Copied {
    fn copied(&self) -> Self;
}
impl<T: Clone> Copied for Vec<T> {
    fn copied(&self) -> Self {
        let mut v = Vec::new();
        let mut it = self.iter();
        while let Some(x) = it.next() {
            v.push(x.clone());
        }
        v
    }
}
pub fn m_clone_vec<S: Copied>(v: &S) -> S {
    v.copied()
}
