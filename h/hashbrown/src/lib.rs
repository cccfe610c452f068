//! Reference model of the part of hashbrown 0.14's `HashTable` API a sharded
//! map can use: a vector of `(stored hash, value)` pairs.  An element is found
//! by a lookup iff its *stored* hash equals the looked-up hash and the caller's
//! equality accepts it; stored hashes are recomputed with the caller's hasher
//! whenever the (modelled) capacity grows, exactly the observable contract of
//! the real table when caller and hasher agree, and the worst case when they
//! do not.  Iteration order is insertion order with swap-removal
//! (callers may not rely on it).
#![allow(clippy::all)]

pub mod hash_table {
    pub use crate::*;
}

use core::fmt;

/// Slots of the model; inserting more live elements than this ends the path
/// as out of bounds (the harnesses stay below it).
pub const SLOTS: usize = 3;

pub struct HashTable<T> {
    items: [Option<(u64, T)>; SLOTS],
    n: usize,
    cap: usize,
}

impl<T> Default for HashTable<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: fmt::Debug> fmt::Debug for HashTable<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("HashTable")
    }
}

impl<T: Clone> Clone for HashTable<T> {
    fn clone(&self) -> Self {
        Self { items: self.items.clone(), n: self.n, cap: self.cap }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TryReserveError {
    CapacityOverflow,
}

impl<T> HashTable<T> {
    const NONE: Option<(u64, T)> = None;
    pub const fn new() -> Self {
        Self { items: [Self::NONE; SLOTS], n: 0, cap: 0 }
    }
    pub fn with_capacity(c: usize) -> Self {
        let mut t = Self::new();
        while t.cap < c {
            t.grow();
        }
        t
    }
    fn grow(&mut self) {
        self.cap = match self.cap {
            0 => 3,
            3 => 7,
            c => c * 2,
        };
    }
    fn put(&mut self, hash: u64, value: T) {
        assert!(self.n < SLOTS, "table model is full");
        // the slot is vacant: nothing to drop (constant offsets keep the
        // encoding small)
        unsafe {
            if self.n == 0 {
                core::ptr::write(&mut self.items[0], Some((hash, value)))
            } else if self.n == 1 {
                core::ptr::write(&mut self.items[1], Some((hash, value)))
            } else {
                core::ptr::write(&mut self.items[2], Some((hash, value)))
            }
        }
        self.n += 1;
    }
    fn at(&self, i: usize) -> &(u64, T) {
        match &self.items[i] {
            Some(x) => x,
            None => unreachable!(),
        }
    }
    fn at_mut(&mut self, i: usize) -> &mut (u64, T) {
        match &mut self.items[i] {
            Some(x) => x,
            None => unreachable!(),
        }
    }
    fn take(&mut self, i: usize) -> T {
        self.n -= 1;
        let last = if self.n == 0 {
            self.items[0].take()
        } else if self.n == 1 {
            self.items[1].take()
        } else {
            self.items[2].take()
        };
        let x = if i == self.n {
            last
        } else if i == 0 {
            core::mem::replace(&mut self.items[0], last)
        } else {
            core::mem::replace(&mut self.items[1], last)
        };
        match x {
            Some((_, t)) => t,
            None => unreachable!(),
        }
    }
    fn pos(&self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<usize> {
        if let Some(e) = &self.items[0] {
            if e.0 == hash && eq(&e.1) {
                return Some(0);
            }
        }
        if let Some(e) = &self.items[1] {
            if e.0 == hash && eq(&e.1) {
                return Some(1);
            }
        }
        if let Some(e) = &self.items[2] {
            if e.0 == hash && eq(&e.1) {
                return Some(2);
            }
        }
        None
    }
    pub fn find(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&T> {
        match self.pos(hash, eq) {
            Some(i) => Some(&self.at(i).1),
            None => None,
        }
    }
    pub fn find_mut(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
        match self.pos(hash, eq) {
            Some(i) => Some(&mut self.at_mut(i).1),
            None => None,
        }
    }
    pub fn find_entry(
        &mut self,
        hash: u64,
        eq: impl FnMut(&T) -> bool,
    ) -> Result<OccupiedEntry<'_, T>, AbsentEntry<'_, T>> {
        match self.pos(hash, eq) {
            Some(index) => Ok(OccupiedEntry { hash, index, table: self }),
            None => Err(AbsentEntry { table: self }),
        }
    }
    pub fn entry(
        &mut self,
        hash: u64,
        eq: impl FnMut(&T) -> bool,
        hasher: impl Fn(&T) -> u64,
    ) -> Entry<'_, T> {
        match self.pos(hash, eq) {
            Some(index) => Entry::Occupied(OccupiedEntry { hash, index, table: self }),
            None => {
                self.reserve(1, hasher);
                Entry::Vacant(VacantEntry { hash, table: self })
            }
        }
    }
    pub fn insert_unique(
        &mut self,
        hash: u64,
        value: T,
        hasher: impl Fn(&T) -> u64,
    ) -> OccupiedEntry<'_, T> {
        self.reserve(1, hasher);
        self.put(hash, value);
        let index = self.n - 1;
        OccupiedEntry { hash, index, table: self }
    }
    fn rehash(&mut self, hasher: impl Fn(&T) -> u64) {
        if let Some(e) = &mut self.items[0] {
            e.0 = hasher(&e.1);
        }
        if let Some(e) = &mut self.items[1] {
            e.0 = hasher(&e.1);
        }
        if let Some(e) = &mut self.items[2] {
            e.0 = hasher(&e.1);
        }
    }
    pub fn reserve(&mut self, additional: usize, hasher: impl Fn(&T) -> u64) {
        if self.n + additional > self.cap {
            while self.n + additional > self.cap {
                self.grow();
            }
            self.rehash(hasher);
        }
    }
    pub fn try_reserve(
        &mut self,
        additional: usize,
        hasher: impl Fn(&T) -> u64,
    ) -> Result<(), TryReserveError> {
        self.reserve(additional, hasher);
        Ok(())
    }
    pub fn shrink_to_fit(&mut self, hasher: impl Fn(&T) -> u64) {
        self.shrink_to(0, hasher)
    }
    pub fn shrink_to(&mut self, min: usize, hasher: impl Fn(&T) -> u64) {
        let want = if self.n > min { self.n } else { min };
        self.cap = 0;
        while self.cap < want {
            self.grow();
        }
        self.rehash(hasher);
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn clear(&mut self) {
        while self.n > 0 {
            self.take(self.n - 1);
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { table: self, n: 0 }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
        IterMut { inner: self.items.iter_mut() }
    }
    pub fn retain(&mut self, mut f: impl FnMut(&mut T) -> bool) {
        let mut i = 0;
        while i < self.n {
            if f(&mut self.at_mut(i).1) {
                i += 1;
            } else {
                self.take(i);
            }
        }
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<T> {
        let mut v = Vec::new();
        while self.n > 0 {
            v.push(self.take(self.n - 1));
        }
        v.into_iter()
    }
}

impl<T> IntoIterator for HashTable<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(mut self) -> Self::IntoIter {
        self.drain()
    }
}
impl<'a, T> IntoIterator for &'a HashTable<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut HashTable<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

pub struct Iter<'a, T> {
    table: &'a HashTable<T>,
    n: usize,
}
impl<T> Clone for Iter<'_, T> {
    fn clone(&self) -> Self {
        Self { table: self.table, n: self.n }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.n >= SLOTS {
            return None;
        }
        // live slots are contiguous; the position advances on every path
        let i = self.n;
        self.n += 1;
        match &self.table.items[i] {
            Some(x) => Some(&x.1),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.table.n.saturating_sub(self.n);
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}

pub struct IterMut<'a, T> {
    inner: core::slice::IterMut<'a, Option<(u64, T)>>,
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        match self.inner.next() {
            Some(Some(x)) => Some(&mut x.1),
            _ => None,
        }
    }
}

pub enum Entry<'a, T> {
    Occupied(OccupiedEntry<'a, T>),
    Vacant(VacantEntry<'a, T>),
}
impl<'a, T> Entry<'a, T> {
    pub fn insert(self, value: T) -> OccupiedEntry<'a, T> {
        match self {
            Entry::Occupied(mut e) => {
                *e.get_mut() = value;
                e
            }
            Entry::Vacant(e) => e.insert(value),
        }
    }
    pub fn or_insert(self, default: T) -> OccupiedEntry<'a, T> {
        match self {
            Entry::Occupied(e) => e,
            Entry::Vacant(e) => e.insert(default),
        }
    }
    pub fn or_insert_with(self, default: impl FnOnce() -> T) -> OccupiedEntry<'a, T> {
        match self {
            Entry::Occupied(e) => e,
            Entry::Vacant(e) => e.insert(default()),
        }
    }
    pub fn and_modify(self, f: impl FnOnce(&mut T)) -> Self {
        match self {
            Entry::Occupied(mut e) => {
                f(e.get_mut());
                Entry::Occupied(e)
            }
            e => e,
        }
    }
}

pub struct OccupiedEntry<'a, T> {
    hash: u64,
    index: usize,
    table: &'a mut HashTable<T>,
}
impl<'a, T> OccupiedEntry<'a, T> {
    pub fn remove(self) -> (T, VacantEntry<'a, T>) {
        let t = self.table.take(self.index);
        (t, VacantEntry { hash: self.hash, table: self.table })
    }
    pub fn get(&self) -> &T {
        &self.table.at(self.index).1
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.table.at_mut(self.index).1
    }
    pub fn into_mut(self) -> &'a mut T {
        &mut self.table.at_mut(self.index).1
    }
    pub fn into_table(self) -> &'a mut HashTable<T> {
        self.table
    }
}

pub struct VacantEntry<'a, T> {
    hash: u64,
    table: &'a mut HashTable<T>,
}
impl<'a, T> VacantEntry<'a, T> {
    pub fn insert(self, value: T) -> OccupiedEntry<'a, T> {
        let hash = self.hash;
        if self.table.n + 1 > self.table.cap {
            self.table.grow();
        }
        self.table.put(hash, value);
        let index = self.table.n - 1;
        OccupiedEntry { hash, index, table: self.table }
    }
    pub fn into_table(self) -> &'a mut HashTable<T> {
        self.table
    }
}

pub struct AbsentEntry<'a, T> {
    table: &'a mut HashTable<T>,
}
impl<'a, T> AbsentEntry<'a, T> {
    pub fn into_table(self) -> &'a mut HashTable<T> {
        self.table
    }
}
