//! A stand-in for lasso: interners that keep their strings in a list.
use core::cell::UnsafeCell;
use core::marker::PhantomData;
pub type RandomState = std::collections::hash_map::RandomState;
type Empty<K, S> = PhantomData<fn() -> (K, S)>;

/// # Safety
/// conversions must be inverse to each other
pub unsafe trait Key: Copy + Eq {
    fn into_usize(self) -> usize;
    fn try_from_usize(int: usize) -> Option<Self>;
}
macro_rules! key {
    ($($n:ident $t:ty, $z:ty;)*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        pub struct $n($z);
        unsafe impl Key for $n {
            fn into_usize(self) -> usize {
                self.0.get() as usize - 1
            }
            fn try_from_usize(i: usize) -> Option<Self> {
                if i < <$t>::MAX as usize {
                    Some($n(<$z>::new(i as $t + 1).unwrap()))
                } else {
                    None
                }
            }
        }
    )*};
}
key! {
    Spur u32, core::num::NonZeroU32;
    MiniSpur u16, core::num::NonZeroU16;
    MicroSpur u8, core::num::NonZeroU8;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LassoError;
pub type LassoResult<T> = Result<T, LassoError>;

fn find<K: Key>(v: &[&'static str], s: &str) -> Option<K> {
    for (i, x) in v.iter().enumerate() {
        if *x == s {
            return K::try_from_usize(i);
        }
    }
    None
}
fn intern<K: Key>(v: &mut Vec<&'static str>, s: &str) -> LassoResult<K> {
    if let Some(k) = find(v, s) {
        return Ok(k);
    }
    let k = K::try_from_usize(v.len()).ok_or(LassoError)?;
    v.push(Box::leak(s.to_owned().into_boxed_str()));
    Ok(k)
}

pub struct Rodeo<K = Spur, S = RandomState> {
    v: Vec<&'static str>,
    p: Empty<K, S>,
}
pub struct RodeoReader<K = Spur, S = RandomState> {
    v: Vec<&'static str>,
    p: Empty<K, S>,
}
pub struct ThreadedRodeo<K = Spur, S = RandomState> {
    v: UnsafeCell<Vec<&'static str>>,
    p: Empty<K, S>,
}
unsafe impl<K, S> Sync for ThreadedRodeo<K, S> {}

impl<K: Key> Rodeo<K, RandomState> {
    pub fn new() -> Self {
        Rodeo { v: Vec::new(), p: PhantomData }
    }
}
impl<K: Key, S> Rodeo<K, S> {
    pub fn get_or_intern(&mut self, s: impl AsRef<str>) -> K {
        intern(&mut self.v, s.as_ref()).unwrap()
    }
    pub fn into_reader(self) -> RodeoReader<K, S> {
        RodeoReader { v: self.v, p: PhantomData }
    }
}
impl<T: AsRef<str>, K: Key, S> FromIterator<T> for Rodeo<K, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut r = Rodeo { v: Vec::new(), p: PhantomData };
        for s in i {
            r.get_or_intern(s);
        }
        r
    }
}
impl<K: Key> ThreadedRodeo<K, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<K, S> Default for ThreadedRodeo<K, S> {
    fn default() -> Self {
        ThreadedRodeo { v: UnsafeCell::new(Vec::new()), p: PhantomData }
    }
}
impl<K: Key, S> ThreadedRodeo<K, S> {
    #[allow(clippy::mut_from_ref)]
    fn strs(&self) -> &mut Vec<&'static str> {
        unsafe { &mut *self.v.get() }
    }
    pub fn get_or_intern<T: AsRef<str>>(&self, s: T) -> K {
        self.try_get_or_intern(s).unwrap()
    }
    pub fn try_get_or_intern<T: AsRef<str>>(&self, s: T) -> LassoResult<K> {
        intern(self.strs(), s.as_ref())
    }
}
macro_rules! lookup {
    ($($n:ident)*) => {$(
        impl<K: Key, S> $n<K, S> {
            pub fn get<T: AsRef<str>>(&self, s: T) -> Option<K> {
                find(self.strs(), s.as_ref())
            }
            pub fn contains<T: AsRef<str>>(&self, s: T) -> bool {
                self.get(s).is_some()
            }
            pub fn contains_key(&self, k: &K) -> bool {
                k.into_usize() < self.len()
            }
            pub fn resolve<'a>(&'a self, k: &K) -> &'a str {
                self.strs()[k.into_usize()]
            }
            pub fn try_resolve<'a>(&'a self, k: &K) -> Option<&'a str> {
                self.strs().get(k.into_usize()).copied()
            }
            pub fn len(&self) -> usize {
                self.strs().len()
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            /// more than asked for, as reported by the real one
            pub fn capacity(&self) -> usize {
                self.len() + 3
            }
        }
    )*};
}
impl<K: Key, S> RodeoReader<K, S> {
    fn strs(&self) -> &Vec<&'static str> {
        &self.v
    }
}
lookup! { RodeoReader ThreadedRodeo }
