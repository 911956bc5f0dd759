//! In-process stand-in for the part of the rocksdb API that omnipaxos_storage uses: a map per column
//! family, shared between all `DB`s opened on the same path, so that a reopened store sees what was
//! written before. A write batch is applied as a whole.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ops::Deref;
use std::rc::Rc;

type Cf = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct Inner {
    cfs: BTreeMap<String, Cf>,
}
thread_local! { static DBS: RefCell<HashMap<String, Rc<RefCell<Inner>>>> = RefCell::new(HashMap::new()); }

/// forget every database of this thread
pub fn mock_reset() {
    DBS.with(|d| d.borrow_mut().clear());
}

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Options;
impl Options {
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn create_if_missing(&mut self, _: bool) {}
}
#[derive(Default, Clone)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn new() -> Self {
        WriteOptions
    }
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, _: bool) {}
}
#[derive(Default, Clone)]
pub struct ReadOptions;
pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _o: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}
pub struct ColumnFamily {
    name: String,
}
pub type ColumnFamilyRef<'a> = &'a ColumnFamily;
pub trait AsColumnFamilyRef {
    fn name(&self) -> &str;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn name(&self) -> &str {
        &self.name
    }
}
impl<'a> AsColumnFamilyRef for &'a ColumnFamily {
    fn name(&self) -> &str {
        &self.name
    }
}

pub struct DBPinnableSlice(Vec<u8>);
impl Deref for DBPinnableSlice {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBPinnableSlice {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

enum Op {
    Put(String, Vec<u8>, Vec<u8>),
    Del(String, Vec<u8>),
    DelRange(String, Vec<u8>, Vec<u8>),
}
pub struct WriteBatchWithTransaction<const T: bool> {
    ops: Vec<Op>,
}
pub type WriteBatch = WriteBatchWithTransaction<false>;
impl<const T: bool> Default for WriteBatchWithTransaction<T> {
    fn default() -> Self {
        Self { ops: vec![] }
    }
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push(Op::Put(String::new(), k.as_ref().to_vec(), v.as_ref().to_vec()))
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K, v: V) {
        self.ops.push(Op::Put(cf.name().to_string(), k.as_ref().to_vec(), v.as_ref().to_vec()))
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push(Op::Del(String::new(), k.as_ref().to_vec()))
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K) {
        self.ops.push(Op::Del(cf.name().to_string(), k.as_ref().to_vec()))
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, a: K, b: K) {
        self.ops.push(Op::DelRange(cf.name().to_string(), a.as_ref().to_vec(), b.as_ref().to_vec()))
    }
}

pub struct DB {
    inner: Rc<RefCell<Inner>>,
    handles: Vec<ColumnFamily>,
}
impl DB {
    pub fn open_cf_descriptors<P: AsRef<std::path::Path>, I>(_o: &Options, path: P, cfs: I) -> Result<DB, Error>
    where
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let key = path.as_ref().to_string_lossy().to_string();
        let inner = DBS.with(|d| d.borrow_mut().entry(key).or_default().clone());
        let mut handles = vec![];
        for c in cfs {
            inner.borrow_mut().cfs.entry(c.name.clone()).or_default();
            handles.push(ColumnFamily { name: c.name });
        }
        Ok(DB { inner, handles })
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.handles.iter().find(|h| h.name == name)
    }
    fn apply(&self, op: Op) {
        let mut i = self.inner.borrow_mut();
        match op {
            Op::Put(c, k, v) => {
                i.cfs.entry(c).or_default().insert(k, v);
            }
            Op::Del(c, k) => {
                i.cfs.entry(c).or_default().remove(&k);
            }
            Op::DelRange(c, a, b) => {
                i.cfs.entry(c).or_default().retain(|k, _| !(k >= &a && k < &b));
            }
        }
    }
    pub fn write<const T: bool>(&self, b: WriteBatchWithTransaction<T>) -> Result<(), Error> {
        for o in b.ops {
            self.apply(o)
        }
        Ok(())
    }
    pub fn write_opt<const T: bool>(&self, b: WriteBatchWithTransaction<T>, _: &WriteOptions) -> Result<(), Error> {
        self.write(b)
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.apply(Op::Put(String::new(), k.as_ref().to_vec(), v.as_ref().to_vec()));
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, v: V) -> Result<(), Error> {
        self.apply(Op::Put(cf.name().to_string(), k.as_ref().to_vec(), v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.apply(Op::Del(String::new(), k.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<(), Error> {
        self.apply(Op::Del(cf.name().to_string(), k.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, a: K, b: K) -> Result<(), Error> {
        self.apply(Op::DelRange(cf.name().to_string(), a.as_ref().to_vec(), b.as_ref().to_vec()));
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.inner.borrow().cfs.get("").and_then(|c| c.get(k.as_ref()).cloned()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.inner.borrow().cfs.get(cf.name()).and_then(|c| c.get(k.as_ref()).cloned()))
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBPinnableSlice>, Error> {
        Ok(self.get(k)?.map(DBPinnableSlice))
    }
    pub fn get_pinned_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<DBPinnableSlice>, Error> {
        Ok(self.get_cf(cf, k)?.map(DBPinnableSlice))
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn raw_iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef) -> DBRawIterator<'a> {
        let items = self
            .inner
            .borrow()
            .cfs
            .get(cf.name())
            .map(|c| c.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
            .unwrap_or_default();
        DBRawIterator { items, pos: None, _p: std::marker::PhantomData }
    }
}
pub struct DBRawIterator<'a> {
    items: Vec<(Vec<u8>, Vec<u8>)>,
    pos: Option<usize>,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> DBRawIterator<'a> {
    pub fn valid(&self) -> bool {
        self.pos.is_some()
    }
    pub fn seek_to_last(&mut self) {
        self.pos = self.items.len().checked_sub(1);
    }
    pub fn seek_to_first(&mut self) {
        self.pos = if self.items.is_empty() { None } else { Some(0) };
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.pos = self.items.iter().position(|(x, _)| x.as_slice() >= k.as_ref());
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        self.pos = self.items.iter().rposition(|(x, _)| x.as_slice() <= k.as_ref());
    }
    pub fn next(&mut self) {
        self.pos = self.pos.map(|p| p + 1).filter(|p| *p < self.items.len());
    }
    pub fn prev(&mut self) {
        self.pos = self.pos.and_then(|p| p.checked_sub(1));
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.pos.map(|p| self.items[p].0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.pos.map(|p| self.items[p].1.as_slice())
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.pos.map(|p| (self.items[p].0.as_slice(), self.items[p].1.as_slice()))
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
}
