//! Plain-loop equivalents of std functions whose real implementation works on raw memory. The
//! driver substitutes them for the originals before the analysis.
use std::ops::Try;

pub trait FromIterModel<A>: Sized {
    fn from_iter_model<I: Iterator<Item = A>>(it: I) -> Self;
}

/// Vec's real implementation allocates what the size hint promises.
#[inline(never)]
pub fn prealloc<I: Iterator>(_: &I) {}

impl<A> FromIterModel<A> for Vec<A> {
    fn from_iter_model<I: Iterator<Item = A>>(mut it: I) -> Self {
        prealloc(&it);
        let mut v = Vec::new();
        loop {
            match it.next() {
                Some(x) => v.push(x),
                None => return v,
            }
        }
    }
}

impl<A, E> FromIterModel<std::result::Result<A, E>> for std::result::Result<Vec<A>, E> {
    fn from_iter_model<I: Iterator<Item = std::result::Result<A, E>>>(mut it: I) -> Self {
        let mut v = Vec::new();
        loop {
            match it.next() {
                Some(Ok(x)) => v.push(x),
                Some(Err(e)) => return Err(e),
                None => return Ok(v),
            }
        }
    }
}

impl<E> FromIterModel<std::result::Result<(), E>> for std::result::Result<(), E> {
    fn from_iter_model<I: Iterator<Item = std::result::Result<(), E>>>(mut it: I) -> Self {
        loop {
            match it.next() {
                Some(Ok(())) => {}
                Some(Err(e)) => return Err(e),
                None => return Ok(()),
            }
        }
    }
}

impl<A> FromIterModel<Option<A>> for Option<Vec<A>> {
    fn from_iter_model<I: Iterator<Item = Option<A>>>(mut it: I) -> Self {
        let mut v = Vec::new();
        loop {
            match it.next() {
                Some(Some(x)) => v.push(x),
                Some(None) => return None,
                None => return Some(v),
            }
        }
    }
}

pub fn collect<I: Iterator, B: FromIterModel<I::Item>>(it: I) -> B {
    B::from_iter_model(it)
}

impl<A> FromIterModel<A> for () where A: IsUnit {
    fn from_iter_model<I: Iterator<Item = A>>(mut it: I) -> Self {
        loop {
            if it.next().is_none() {
                return;
            }
        }
    }
}
pub trait IsUnit {}
impl IsUnit for () {}

pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n: usize = 0;
    loop {
        if it.next().is_none() {
            return n;
        }
        // a source of more than usize::MAX items is out of reach
        n = unsafe { n.unchecked_add(1) };
    }
}

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => acc = f(acc, x),
            None => return acc,
        }
    }
}

pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => acc = f(acc, x)?,
            None => return R::from_output(acc),
        }
    }
}

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop {
        match it.next() {
            Some(x) => f(x),
            None => return,
        }
    }
}

pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    loop {
        match it.next() {
            Some(x) => f(x)?,
            None => return R::from_output(()),
        }
    }
}

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if f(x) {
                    return true;
                }
            }
            None => return false,
        }
    }
}

pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if !f(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}

pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    loop {
        match it.next() {
            Some(x) => {
                if f(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}

pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop {
        match it.next() {
            Some(x) => {
                if let Some(y) = f(x) {
                    return Some(y);
                }
            }
            None => return None,
        }
    }
}

pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut n: usize = 0;
    loop {
        match it.next() {
            Some(x) => {
                if f(x) {
                    return Some(n);
                }
            }
            None => return None,
        }
        n = unsafe { n.unchecked_add(1) };
    }
}

pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    loop {
        match it.next() {
            Some(x) => r = Some(x),
            None => return r,
        }
    }
}

pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i: usize = 0;
    loop {
        match it.next() {
            Some(x) => {
                if i == n {
                    return Some(x);
                }
            }
            None => return None,
        }
        i = unsafe { i.unchecked_add(1) };
    }
}

impl<A: std::hash::Hash + Eq> FromIterModel<A> for std::collections::HashSet<A> {
    fn from_iter_model<I: Iterator<Item = A>>(mut it: I) -> Self {
        let mut s = std::collections::HashSet::new();
        loop {
            match it.next() {
                Some(x) => s.insert(x),
                None => return s,
            };
        }
    }
}

impl<A: Ord> FromIterModel<A> for std::collections::BTreeSet<A> {
    fn from_iter_model<I: Iterator<Item = A>>(mut it: I) -> Self {
        let mut s = std::collections::BTreeSet::new();
        loop {
            match it.next() {
                Some(x) => s.insert(x),
                None => return s,
            };
        }
    }
}

pub trait ExtendModel<A> {
    fn extend_model<I: Iterator<Item = A>>(&mut self, it: I);
}
impl<A> ExtendModel<A> for Vec<A> {
    fn extend_model<I: Iterator<Item = A>>(&mut self, mut it: I) {
        loop {
            match it.next() {
                Some(x) => self.push(x),
                None => return,
            }
        }
    }
}
impl<'a, A: Copy> ExtendModel<&'a A> for Vec<A> {
    fn extend_model<I: Iterator<Item = &'a A>>(&mut self, mut it: I) {
        loop {
            match it.next() {
                Some(x) => self.push(*x),
                None => return,
            }
        }
    }
}
impl<A: std::hash::Hash + Eq> ExtendModel<A> for std::collections::HashSet<A> {
    fn extend_model<I: Iterator<Item = A>>(&mut self, mut it: I) {
        loop {
            match it.next() {
                Some(x) => self.insert(x),
                None => return,
            };
        }
    }
}
impl<A: Ord> ExtendModel<A> for std::collections::BTreeSet<A> {
    fn extend_model<I: Iterator<Item = A>>(&mut self, mut it: I) {
        loop {
            match it.next() {
                Some(x) => self.insert(x),
                None => return,
            };
        }
    }
}
pub fn extend<S: ExtendModel<A>, A, I: IntoIterator<Item = A>>(s: &mut S, it: I) {
    s.extend_model(it.into_iter())
}

/// vec![x; n] and Vec::resize
pub fn from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    let mut i: usize = 0;
    while i < n {
        v.push(x.clone());
        i = unsafe { i.unchecked_add(1) };
    }
    v
}
pub fn resize<T: Clone, A: std::alloc::Allocator>(v: &mut Vec<T, A>, n: usize, x: T) {
    if n <= v.len() {
        v.truncate(n);
        return;
    }
    let k = n - v.len();
    let mut i: usize = 0;
    while i < k {
        v.push(x.clone());
        i = unsafe { i.unchecked_add(1) };
    }
}

pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i: usize = 0;
    while i < s.len() {
        if s[i] == *x {
            return true;
        }
        i = unsafe { i.unchecked_add(1) };
    }
    false
}

/// Any position below n.
#[inline(never)]
pub fn any_index(n: usize) -> usize {
    n
}

/// Puts the elements into the order of a comparison, given by its result for the elements at i and j.
#[inline(never)]
pub fn arrange<T>(_: &mut [T], _i: usize, _j: usize, _o: std::cmp::Ordering) {}

pub fn sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
    if v.len() > 1 {
        let i = any_index(v.len());
        let j = any_index(v.len());
        let o = f(&v[i], &v[j]);
        arrange(v, i, j, o);
    }
}

pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    if v.len() > 1 {
        let i = any_index(v.len());
        let j = any_index(v.len());
        let a = f(&v[i]);
        let b = f(&v[j]);
        let o = a.cmp(&b);
        arrange(v, i, j, o);
    }
}
