//! A stand-in for indexmap: a set that keeps its values in insertion order.
use core::borrow::Borrow;
use core::marker::PhantomData;
pub trait Equivalent<K: ?Sized> {
    fn equivalent(&self, k: &K) -> bool;
}
impl<Q: ?Sized + Eq, K: ?Sized + Borrow<Q>> Equivalent<K> for Q {
    fn equivalent(&self, k: &K) -> bool {
        *self == *k.borrow()
    }
}
pub struct IndexSet<T, S = std::collections::hash_map::RandomState> {
    v: Vec<T>,
    p: PhantomData<fn() -> S>,
}
impl<T> IndexSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<T, S> Default for IndexSet<T, S> {
    fn default() -> Self {
        IndexSet { v: Vec::new(), p: PhantomData }
    }
}
impl<T, S> IndexSet<T, S> {
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.v.len() + 3
    }
    pub fn get_index(&self, i: usize) -> Option<&T> {
        self.v.get(i)
    }
    pub fn iter(&self) -> core::slice::Iter<'_, T> {
        self.v.iter()
    }
    pub fn first(&self) -> Option<&T> {
        self.v.first()
    }
    pub fn last(&self) -> Option<&T> {
        self.v.last()
    }
    pub fn get_index_of<Q: ?Sized + Equivalent<T>>(&self, q: &Q) -> Option<usize> {
        for (i, x) in self.v.iter().enumerate() {
            if q.equivalent(x) {
                return Some(i);
            }
        }
        None
    }
    pub fn get_full<Q: ?Sized + Equivalent<T>>(&self, q: &Q) -> Option<(usize, &T)> {
        let i = self.get_index_of(q)?;
        Some((i, &self.v[i]))
    }
    pub fn get<Q: ?Sized + Equivalent<T>>(&self, q: &Q) -> Option<&T> {
        Some(self.get_full(q)?.1)
    }
    pub fn contains<Q: ?Sized + Equivalent<T>>(&self, q: &Q) -> bool {
        self.get_index_of(q).is_some()
    }
}
impl<T: Eq, S> IndexSet<T, S> {
    pub fn insert(&mut self, x: T) -> bool {
        let new = self.get_index_of(&x).is_none();
        if new {
            self.v.push(x);
        }
        new
    }
}
impl<T: Eq, S> FromIterator<T> for IndexSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut r = Self::default();
        for x in i {
            r.insert(x);
        }
        r
    }
}
impl<T, S> core::ops::Index<usize> for IndexSet<T, S> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.v[i]
    }
}
