//! Storages the trees run on: observable, shared, fault injecting.
use fuel_storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::rc::Rc;

pub struct Tab<K, V>(PhantomData<(K, V)>);
impl<K, V: Clone> Mappable for Tab<K, V> {
    type Key = K;
    type SetValue = V;
    type GetValue = V;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op<K> {
    Get(K),
    Has(K),
    Put(K),
    Del(K),
}

pub struct Inner<K, V> {
    pub map: BTreeMap<K, V>,
    /// answers for keys not in the map
    pub base: Option<Box<dyn Fn(&K) -> Option<V>>>,
    /// keys of `base` that were removed
    pub gone: BTreeSet<K>,
    /// calls made since `arm`
    pub calls: u64,
    /// the call number (from 1) that fails, and whether later ones fail too
    pub fail_at: u64,
    pub fail_on: bool,
    pub failed: u64,
    pub log: Vec<Op<K>>,
}

pub struct Store<K, V>(pub Rc<RefCell<Inner<K, V>>>);
impl<K, V> Clone for Store<K, V> {
    fn clone(&self) -> Self {
        Store(self.0.clone())
    }
}
impl<K: Ord + Clone, V: Clone> Store<K, V> {
    pub fn new() -> Self {
        Store(Rc::new(RefCell::new(Inner {
            map: BTreeMap::new(),
            base: None,
            gone: BTreeSet::new(),
            calls: 0,
            fail_at: 0,
            fail_on: false,
            failed: 0,
            log: vec![],
        })))
    }
    pub fn of(map: BTreeMap<K, V>) -> Self {
        let s = Self::new();
        s.0.borrow_mut().map = map;
        s
    }
    pub fn with_base(f: impl Fn(&K) -> Option<V> + 'static) -> Self {
        let s = Self::new();
        s.0.borrow_mut().base = Some(Box::new(f));
        s
    }
    pub fn map(&self) -> BTreeMap<K, V> {
        self.0.borrow().map.clone()
    }
    pub fn gone(&self) -> Option<K> {
        let i = self.0.borrow();
        i.gone.iter().find(|k| !i.map.contains_key(k)).cloned()
    }
    pub fn arm(&self, fail_at: u64, on: bool) {
        let mut i = self.0.borrow_mut();
        i.calls = 0;
        i.fail_at = fail_at;
        i.fail_on = on;
        i.failed = 0;
        i.log.clear();
    }
    pub fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
    pub fn failed(&self) -> u64 {
        self.0.borrow().failed
    }
    fn call(&self, op: Op<K>) -> Result<(), Injected> {
        let mut i = self.0.borrow_mut();
        i.calls += 1;
        if i.log.len() < 10_000 {
            i.log.push(op);
        }
        if i.fail_at != 0 && (i.calls == i.fail_at || (i.fail_on && i.calls > i.fail_at)) {
            i.failed += 1;
            return Err(Injected(i.calls));
        }
        Ok(())
    }
    fn look(&self, k: &K) -> Option<V> {
        let i = self.0.borrow();
        match i.map.get(k) {
            Some(v) => Some(v.clone()),
            None if i.gone.contains(k) => None,
            None => i.base.as_ref().and_then(|b| b(k)),
        }
    }
}
impl<K: Ord + Clone, V: Clone> StorageInspect<Tab<K, V>> for Store<K, V> {
    type Error = Injected;
    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Injected> {
        self.call(Op::Get(key.clone()))?;
        Ok(self.look(key).map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, Injected> {
        self.call(Op::Has(key.clone()))?;
        Ok(self.look(key).is_some())
    }
}
impl<K: Ord + Clone, V: Clone> StorageMutate<Tab<K, V>> for Store<K, V> {
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Injected> {
        self.call(Op::Put(key.clone()))?;
        let old = self.look(key);
        self.0.borrow_mut().map.insert(key.clone(), value.clone());
        Ok(old)
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, Injected> {
        self.call(Op::Del(key.clone()))?;
        let old = self.look(key);
        let mut i = self.0.borrow_mut();
        i.map.remove(key);
        if i.base.as_ref().is_some_and(|b| b(key).is_some()) {
            i.gone.insert(key.clone());
        }
        Ok(old)
    }
}
