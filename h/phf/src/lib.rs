//! A stand-in for phf: an ordered set that compares with each member.
pub struct OrderedSet<T: 'static> {
    #[doc(hidden)]
    pub v: &'static [T],
}
#[macro_export]
macro_rules! phf_ordered_set {
    ($($x:expr),* $(,)?) => {
        $crate::OrderedSet { v: &[$($x),*] }
    };
}
pub trait PhfBorrow<B: ?Sized> {
    fn borrow(&self) -> &B;
}
impl PhfBorrow<str> for &'static str {
    fn borrow(&self) -> &str {
        self
    }
}
impl<T> OrderedSet<T> {
    pub const fn len(&self) -> usize {
        self.v.len()
    }
    pub const fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn get_index<Q: ?Sized + Eq>(&self, q: &Q) -> Option<usize>
    where
        T: PhfBorrow<Q>,
    {
        for (i, x) in self.v.iter().enumerate() {
            if *PhfBorrow::borrow(x) == *q {
                return Some(i);
            }
        }
        None
    }
    pub fn get_key<Q: ?Sized + Eq>(&self, q: &Q) -> Option<&T>
    where
        T: PhfBorrow<Q>,
    {
        Some(&self.v[self.get_index(q)?])
    }
    pub fn contains<Q: ?Sized + Eq>(&self, q: &Q) -> bool
    where
        T: PhfBorrow<Q>,
    {
        self.get_index(q).is_some()
    }
    pub fn index(&self, i: usize) -> Option<&T> {
        self.v.get(i)
    }
    pub fn iter(&self) -> core::slice::Iter<'_, T> {
        self.v.iter()
    }
}
