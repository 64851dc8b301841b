//! Stand-in for ahash: a hasher that maps every key to the same value, so that map lookups are
//! decided by key equality alone (legal under the Hash contract; independent of any hash seed).
use std::borrow::Borrow;
use std::collections::{hash_map, hash_set, HashMap, HashSet};
use std::fmt::{self, Debug};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut, Index};

#[derive(Clone, Copy, Default, Debug)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct AHasher;
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_u128(&mut self, _: u128) {}
    fn write_usize(&mut self, _: usize) {}
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher
    }
}
#[derive(Clone)]
pub struct AHashMap<K, V, S = RandomState>(HashMap<K, V, S>);
impl<K, V> AHashMap<K, V, RandomState> {
    pub fn new() -> Self {
        AHashMap(HashMap::with_hasher(RandomState))
    }
    pub fn with_capacity(n: usize) -> Self {
        AHashMap(HashMap::with_capacity_and_hasher(n, RandomState))
    }
}
impl<K, V, S: Default> Default for AHashMap<K, V, S> {
    fn default() -> Self {
        AHashMap(HashMap::with_hasher(S::default()))
    }
}
impl<K, V, S> Deref for AHashMap<K, V, S> {
    type Target = HashMap<K, V, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V, S> DerefMut for AHashMap<K, V, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Debug, V: Debug, S: BuildHasher> Debug for AHashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for AHashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq(&o.0)
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for AHashMap<K, V, S> {}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for AHashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.0.index(k)
    }
}
impl<K, V, S> IntoIterator for AHashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a AHashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut AHashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for AHashMap<K, V, RandomState> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
        let mut m = Self::new();
        m.0.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for AHashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        Self::from_iter(a)
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for AHashMap<K, V, S> {
    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
        self.0.extend(it)
    }
}
#[derive(Clone)]
pub struct AHashSet<T, S = RandomState>(HashSet<T, S>);
impl<T> AHashSet<T, RandomState> {
    pub fn new() -> Self {
        AHashSet(HashSet::with_hasher(RandomState))
    }
    pub fn with_capacity(n: usize) -> Self {
        AHashSet(HashSet::with_capacity_and_hasher(n, RandomState))
    }
}
impl<T, S: Default> Default for AHashSet<T, S> {
    fn default() -> Self {
        AHashSet(HashSet::with_hasher(S::default()))
    }
}
impl<T, S> Deref for AHashSet<T, S> {
    type Target = HashSet<T, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T, S> DerefMut for AHashSet<T, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<T: Debug, S: BuildHasher> Debug for AHashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for AHashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq(&o.0)
    }
}
impl<T, S> IntoIterator for AHashSet<T, S> {
    type Item = T;
    type IntoIter = hash_set::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T, S> IntoIterator for &'a AHashSet<T, S> {
    type Item = &'a T;
    type IntoIter = hash_set::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: Eq + Hash> FromIterator<T> for AHashSet<T, RandomState> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut m = Self::new();
        m.0.extend(it);
        m
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for AHashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        Self::from_iter(a)
    }
}
