//! Hash collections with an iteration order the harness decides (a seed), not the process's
//! random state.
use std::borrow::Borrow;
use std::collections::{hash_map, hash_set};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut, Index};

#[derive(Clone, Debug)]
pub struct Det(u64);
impl Default for Det {
    fn default() -> Self {
        Det(crate::mc::hash_seed())
    }
}
#[derive(Clone)]
pub struct DetHasher(u64, bool);
impl BuildHasher for Det {
    type Hasher = DetHasher;
    fn build_hasher(&self) -> DetHasher {
        DetHasher(0x9e37_79b9_7f4a_7c15, self.0 != 0)
    }
}
impl Hasher for DetHasher {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32;
        // The complement: the opposite order of buckets.
        if self.1 {
            !x
        } else {
            x
        }
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 = (self.0.rotate_left(5) ^ c as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}

type M<K, V, S> = hash_map::HashMap<K, V, S>;
pub struct HashMap<K, V, S = Det>(M<K, V, S>);
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(M::with_hasher(Det::default()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(M::with_capacity_and_hasher(n, Det::default()))
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub const fn with_hasher(s: S) -> Self {
        HashMap(M::with_hasher(s))
    }
    pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
        HashMap(M::with_capacity_and_hasher(n, s))
    }
    pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap(M::with_hasher(S::default()))
    }
}
impl<K, V, S> Deref for HashMap<K, V, S> {
    type Target = M<K, V, S>;
    fn deref(&self) -> &M<K, V, S> {
        &self.0
    }
}
impl<K, V, S> DerefMut for HashMap<K, V, S> {
    fn deref_mut(&mut self) -> &mut M<K, V, S> {
        &mut self.0
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap(self.0.clone())
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = Self::default();
        m.0.extend(i);
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.0.get(k).expect("no entry found for key")
    }
}

type HS<K, S> = hash_set::HashSet<K, S>;
pub struct HashSet<K, S = Det>(HS<K, S>);
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(HS::with_hasher(Det::default()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(HS::with_capacity_and_hasher(n, Det::default()))
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, S> HashSet<K, S> {
    pub const fn with_hasher(s: S) -> Self {
        HashSet(HS::with_hasher(s))
    }
    pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
        HashSet(HS::with_capacity_and_hasher(n, s))
    }
}
impl<K, S: Default> Default for HashSet<K, S> {
    fn default() -> Self {
        HashSet(HS::with_hasher(S::default()))
    }
}
impl<K, S> Deref for HashSet<K, S> {
    type Target = HS<K, S>;
    fn deref(&self) -> &HS<K, S> {
        &self.0
    }
}
impl<K, S> DerefMut for HashSet<K, S> {
    fn deref_mut(&mut self) -> &mut HS<K, S> {
        &mut self.0
    }
}
impl<K: std::fmt::Debug, S> std::fmt::Debug for HashSet<K, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Clone, S: Clone> Clone for HashSet<K, S> {
    fn clone(&self) -> Self {
        HashSet(self.0.clone())
    }
}
impl<K: Eq + Hash, S: BuildHasher> PartialEq for HashSet<K, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, S: BuildHasher> Eq for HashSet<K, S> {}
impl<K: Eq + Hash, S: BuildHasher + Default> FromIterator<K> for HashSet<K, S> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut m = Self::default();
        m.0.extend(i);
        m
    }
}
impl<K: Eq + Hash, S: BuildHasher> Extend<K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K, S> IntoIterator for HashSet<K, S> {
    type Item = K;
    type IntoIter = hash_set::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> {
    type Item = &'a K;
    type IntoIter = hash_set::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
