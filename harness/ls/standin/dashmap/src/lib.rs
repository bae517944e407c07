//! A concurrent map of one shard: keys of one shard share a lock in dashmap, and any two may.
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::Hash;
pub struct DashMap<K, V> {
    res: u64,
    m: UnsafeCell<HashMap<K, V>>,
}
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}
pub mod mapref {
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
    pub mod entry {
        pub use crate::Entry;
    }
}
struct Held(u64);
impl Drop for Held {
    fn drop(&mut self) {
        vpsched::release(self.0)
    }
}
pub struct Ref<'a, K, V> {
    k: &'a K,
    v: &'a V,
    _h: Held,
}
impl<K, V> Ref<'_, K, V> {
    pub fn key(&self) -> &K {
        self.k
    }
    pub fn value(&self) -> &V {
        self.v
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.k, self.v)
    }
}
impl<K, V> std::ops::Deref for Ref<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.v
    }
}
pub struct RefMut<'a, K, V> {
    k: &'a K,
    v: &'a mut V,
    _h: Held,
}
impl<K, V> RefMut<'_, K, V> {
    pub fn key(&self) -> &K {
        self.k
    }
    pub fn value(&self) -> &V {
        self.v
    }
    pub fn value_mut(&mut self) -> &mut V {
        self.v
    }
}
impl<K, V> std::ops::Deref for RefMut<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.v
    }
}
impl<K, V> std::ops::DerefMut for RefMut<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.v
    }
}
pub struct Entry<'a, K, V> {
    e: std::collections::hash_map::Entry<'a, K, V>,
    h: Held,
}
impl<'a, K: Clone + Eq + Hash, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        let k = self.e.key().clone();
        let v = self.e.or_insert_with(f);
        RefMut { k: Box::leak(Box::new(k)), v, _h: self.h }
    }
    pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self {
        Entry { e: self.e.and_modify(f), h: self.h }
    }
    pub fn key(&self) -> &K {
        self.e.key()
    }
}
impl<K: Eq + Hash, V> DashMap<K, V> {
    pub fn new() -> Self {
        DashMap { res: vpsched::resource(), m: UnsafeCell::new(HashMap::new()) }
    }
    fn lock(&self, write: bool, what: &str) -> Held {
        vpsched::acquire(self.res, write, what);
        Held(self.res)
    }
    #[allow(clippy::mut_from_ref)]
    fn m(&self) -> &mut HashMap<K, V> {
        unsafe { &mut *self.m.get() }
    }
    pub fn get<Q>(&self, k: &Q) -> Option<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let h = self.lock(false, "map get");
        self.m().get_key_value(k).map(|(k, v)| Ref { k, v, _h: h })
    }
    pub fn get_mut<Q>(&self, k: &Q) -> Option<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let h = self.lock(true, "map get_mut");
        let k: &K = unsafe { &*(self.m().get_key_value(k)?.0 as *const K) };
        let v = self.m().get_mut(k.borrow())?;
        Some(RefMut { k, v, _h: h })
    }
    pub fn contains_key<Q>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let _h = self.lock(false, "map contains");
        self.m().contains_key(k)
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _h = self.lock(true, "map insert");
        self.m().insert(k, v)
    }
    pub fn remove<Q>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let _h = self.lock(true, "map remove");
        self.m().remove_entry(k)
    }
    pub fn entry(&self, k: K) -> Entry<'_, K, V> {
        let h = self.lock(true, "map entry");
        Entry { e: self.m().entry(k), h }
    }
    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) {
        let _h = self.lock(true, "map retain");
        self.m().retain(f)
    }
    pub fn clear(&self) {
        let _h = self.lock(true, "map clear");
        self.m().clear()
    }
    pub fn len(&self) -> usize {
        let _h = self.lock(false, "map len");
        self.m().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = Ref<'_, K, V>> + '_ {
        let v: Vec<Ref<'_, K, V>> = {
            let first = self.lock(false, "map iter");
            let v = self
                .m()
                .iter()
                .map(|(k, v)| {
                    vpsched::try_acquire(self.res, false);
                    Ref { k, v, _h: Held(self.res) }
                })
                .collect();
            drop(first);
            v
        };
        v.into_iter()
    }
}
impl<K: Eq + Hash, V> Default for DashMap<K, V> {
    fn default() -> Self {
        DashMap::new()
    }
}
