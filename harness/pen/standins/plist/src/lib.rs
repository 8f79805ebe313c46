//! Stand-in for the git dependency `plist` (persistent association lists), which cannot be fetched here.
use std::{borrow::Borrow, collections::HashMap, hash::{BuildHasher, Hash}, rc::Rc};

enum Node<K, V> { Nil, Cons(K, V, Map<K, V>) }
pub struct Map<K, V>(Rc<Node<K, V>>);
impl<K, V> Clone for Map<K, V> { fn clone(&self) -> Self { Self(self.0.clone()) } }
impl<K, V> Default for Map<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> Map<K, V> {
    pub fn new() -> Self { Self(Rc::new(Node::Nil)) }
    pub fn insert(&self, k: K, v: V) -> Self { Self(Rc::new(Node::Cons(k, v, self.clone()))) }
    pub fn insert_iter(&self, i: impl IntoIterator<Item = (K, V)>) -> Self { i.into_iter().fold(self.clone(), |m, (k, v)| m.insert(k, v)) }
    pub fn get<Q: Eq + ?Sized>(&self, key: &Q) -> Option<&V> where K: Borrow<Q> {
        let mut node = &*self.0;
        while let Node::Cons(k, v, rest) = node {
            if k.borrow() == key { return Some(v) }
            node = &*rest.0;
        }
        None
    }
}
impl<K, V> FromIterator<(K, V)> for Map<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { Self::new().insert_iter(i) } }

/// A map over a shared base.
pub struct FlailMap<K, V, S = fnv::FnvBuildHasher> { base: Rc<HashMap<K, V, S>>, map: Map<K, V> }
impl<K, V, S> Clone for FlailMap<K, V, S> { fn clone(&self) -> Self { Self { base: self.base.clone(), map: self.map.clone() } } }
impl<K: Eq + Hash, V> FlailMap<K, V> {
    pub fn new<S: BuildHasher>(base: HashMap<K, V, S>) -> Self { Self { base: Rc::new(base.into_iter().collect()), map: Map::new() } }
    pub fn insert(&self, k: K, v: V) -> Self { Self { base: self.base.clone(), map: self.map.insert(k, v) } }
    pub fn insert_iter(&self, i: impl IntoIterator<Item = (K, V)>) -> Self { Self { base: self.base.clone(), map: self.map.insert_iter(i) } }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> Option<&V> where K: Borrow<Q> { self.map.get(key).or_else(|| self.base.get(key)) }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> bool where K: Borrow<Q> { self.get(key).is_some() }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for FlailMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { Self { base: Rc::new(HashMap::default()), map: i.into_iter().collect() } } }
