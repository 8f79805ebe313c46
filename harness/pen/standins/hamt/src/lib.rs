//! Stand-in for the git dependency `hamt` (persistent maps), which cannot be fetched here.
use std::{borrow::Borrow, collections::HashMap, hash::Hash, rc::Rc};

#[derive(Clone)]
pub struct Map<K, V>(Rc<HashMap<K, V>>);
impl<K: Clone + Eq + Hash, V: Clone> Default for Map<K, V> { fn default() -> Self { Self::new() } }
impl<K: Clone + Eq + Hash, V: Clone> Map<K, V> {
    pub fn new() -> Self { Self(Rc::new(HashMap::new())) }
    pub fn insert(&self, k: K, v: V) -> Self { let mut m = (*self.0).clone(); m.insert(k, v); Self(Rc::new(m)) }
    pub fn remove<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Self where K: Borrow<Q> { let mut m = (*self.0).clone(); m.remove(k); Self(Rc::new(m)) }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.0.get(k) }
}
