//! Stand-in for sequence_trie (not available offline); children keep their insertion order.
#[derive(Debug, Clone)]
pub struct SequenceTrie<K, V> {
    value: Option<V>,
    children: Vec<(K, SequenceTrie<K, V>)>,
}

impl<K: Clone + PartialEq, V> SequenceTrie<K, V> {
    pub fn new() -> Self {
        SequenceTrie { value: None, children: vec![] }
    }

    pub fn insert<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I, value: V) -> Option<V>
    where
        K: 'k,
    {
        let mut at = self;
        for k in key {
            let i = match at.children.iter().position(|c| c.0 == *k) {
                Some(i) => i,
                None => {
                    at.children.push((k.clone(), Self::new()));
                    at.children.len() - 1
                }
            };
            at = &mut at.children[i].1;
        }
        at.value.replace(value)
    }

    pub fn get_node<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&Self>
    where
        K: 'k,
    {
        let mut at = self;
        for k in key {
            at = &at.children.iter().find(|c| c.0 == *k)?.1;
        }
        Some(at)
    }

    pub fn get<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&V>
    where
        K: 'k,
    {
        self.get_node(key)?.value.as_ref()
    }

    pub fn get_mut<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I) -> Option<&mut V>
    where
        K: 'k,
    {
        let mut at = self;
        for k in key {
            at = &mut at.children.iter_mut().find(|c| c.0 == *k)?.1;
        }
        at.value.as_mut()
    }

    pub fn iter(&self) -> std::vec::IntoIter<(Vec<&K>, &V)> {
        let mut out = vec![];
        self.collect(&mut vec![], &mut out);
        out.into_iter()
    }

    fn collect<'a>(&'a self, path: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
        if let Some(v) = &self.value {
            out.push((path.clone(), v));
        }
        for (k, c) in &self.children {
            path.push(k);
            c.collect(path, out);
            path.pop();
        }
    }
}

impl<K: Clone + PartialEq, V> Default for SequenceTrie<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
