//! Stand-in for hamt-sync (not available offline): a persistent map; inserting returns a new map.
use std::sync::Arc;

#[derive(Debug)]
pub struct Map<K, V>(Option<Arc<Node<K, V>>>);

#[derive(Debug)]
struct Node<K, V> {
    key: K,
    value: V,
    next: Map<K, V>,
}

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map(self.0.clone())
    }
}

impl<K: PartialEq, V> Map<K, V> {
    pub fn new() -> Self {
        Map(None)
    }

    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        Map(Some(Arc::new(Node { key, value, next: self.clone() })))
    }

    pub fn find(&self, key: &K) -> Option<&V> {
        let mut at = self;
        while let Some(n) = &at.0 {
            if n.key == *key {
                return Some(&n.value);
            }
            at = &n.next;
        }
        None
    }
}

impl<K: PartialEq, V> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
