//! The durable store of a simulated server: a reference model of the `Storage` contract, which counts
//! writes (a crash can be armed before any write), survives the server, and runs in lockstep with a
//! storage backend of the repository, whose answers are compared with the model's.
use crate::types::SE;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, Storage, StorageOp, StorageResult};
use omnipaxos_storage::memory_storage::MemoryStorage;
#[cfg(feature = "pers")]
use omnipaxos_storage::persistent_storage::{PersistentStorage, PersistentStorageConfig};
use std::cell::RefCell;
use std::rc::Rc;

pub struct CrashToken;

#[derive(Clone)]
pub struct Model<T: SE> {
    pub log: Vec<T>, // entries from `trim` on
    pub trim: usize,
    pub promise: Option<Ballot>,
    pub acc_round: Option<Ballot>,
    pub decided: usize,
    pub compacted: usize,
    pub snapshot: Option<T::Snapshot>,
    pub stopsign: Option<StopSign>,
}
impl<T: SE> Model<T> {
    pub fn new() -> Self {
        Model { log: vec![], trim: 0, promise: None, acc_round: None, decided: 0, compacted: 0, snapshot: None, stopsign: None }
    }
    pub fn end(&self) -> usize {
        self.trim + self.log.len()
    }
    pub fn accepted(&self) -> usize {
        self.end() + self.stopsign.is_some() as usize
    }
    pub fn apply(&mut self, op: &StorageOp<T>) {
        match op {
            StorageOp::AppendEntry(e) => self.log.push(e.clone()),
            StorageOp::AppendEntries(es) => self.log.extend(es.iter().cloned()),
            StorageOp::AppendOnPrefix(f, es) => {
                self.log.truncate(f.saturating_sub(self.trim));
                self.log.extend(es.iter().cloned());
            }
            StorageOp::SetPromise(b) => self.promise = Some(*b),
            StorageOp::SetDecidedIndex(i) => self.decided = *i,
            StorageOp::SetAcceptedRound(b) => self.acc_round = Some(*b),
            StorageOp::SetCompactedIdx(i) => self.compacted = *i,
            StorageOp::Trim(i) => {
                let k = i.saturating_sub(self.trim).min(self.log.len());
                self.log.drain(0..k);
                self.trim = (*i).max(self.trim);
            }
            StorageOp::SetStopsign(s) => self.stopsign = s.clone(),
            StorageOp::SetSnapshot(s) => self.snapshot = s.clone(),
        }
    }
    pub fn get(&self, from: usize, to: usize) -> Vec<T> {
        if from < self.trim || to > self.end() || from >= to {
            return vec![];
        }
        self.log[from - self.trim..to - self.trim].to_vec()
    }
}

pub enum Backend<T: SE> {
    None,
    Mem(MemoryStorage<T>),
    #[cfg(feature = "pers")]
    Pers(PersistentStorage<T>),
}

pub fn open_backend<T: SE>(kind: u8, _path: &str) -> Backend<T> {
    match kind {
        1 => Backend::Mem(MemoryStorage::default()),
        #[cfg(feature = "pers")]
        2 => Backend::Pers(PersistentStorage::open(PersistentStorageConfig::with_path(_path.to_string()))),
        _ => Backend::None,
    }
}

pub struct Store<T: SE> {
    pub m: Model<T>,
    pub b: Backend<T>,
    pub kind: u8,
    pub path: String,
    pub armed: Option<u64>,
    pub writes: u64,
    pub reopened: bool,
    /// (property, what) found at a write or read
    pub viol: Vec<(&'static str, String)>,
}

#[derive(Clone)]
pub struct SimStore<T: SE>(pub Rc<RefCell<Store<T>>>);

fn dbg<X: std::fmt::Debug>(x: &X) -> String {
    format!("{:?}", x)
}

fn clone_op<T: SE>(op: &StorageOp<T>) -> StorageOp<T> {
    match op {
        StorageOp::AppendEntry(e) => StorageOp::AppendEntry(e.clone()),
        StorageOp::AppendEntries(e) => StorageOp::AppendEntries(e.clone()),
        StorageOp::AppendOnPrefix(i, e) => StorageOp::AppendOnPrefix(*i, e.clone()),
        StorageOp::SetPromise(b) => StorageOp::SetPromise(*b),
        StorageOp::SetDecidedIndex(b) => StorageOp::SetDecidedIndex(*b),
        StorageOp::SetAcceptedRound(b) => StorageOp::SetAcceptedRound(*b),
        StorageOp::SetCompactedIdx(b) => StorageOp::SetCompactedIdx(*b),
        StorageOp::Trim(b) => StorageOp::Trim(*b),
        StorageOp::SetStopsign(b) => StorageOp::SetStopsign(b.clone()),
        StorageOp::SetSnapshot(b) => StorageOp::SetSnapshot(b.clone()),
    }
}

macro_rules! on_backend {
    ($b:expr, $s:ident => $e:expr) => {
        match $b {
            Backend::None => None,
            Backend::Mem($s) => Some($e),
            #[cfg(feature = "pers")]
            Backend::Pers($s) => Some($e),
        }
    };
}

impl<T: SE> Store<T> {
    pub fn new(kind: u8, path: String) -> Self {
        Store { m: Model::new(), b: open_backend(kind, &path), kind, path, armed: None, writes: 0, reopened: false, viol: vec![] }
    }
    pub fn v(&mut self, p: &'static str, s: String) {
        if self.viol.len() < 8 {
            self.viol.push((p, s));
        }
    }
    fn backend_mismatch(&mut self, what: String) {
        let k = ["model", "MemoryStorage", "PersistentStorage"][self.kind as usize];
        if self.reopened {
            self.v("restart-recovery", format!("{} after reopening: {}", k, what));
        }
        self.v("storage-backends", format!("{}: {}", k, what));
        self.b = Backend::None; // reported once
    }
    /// the server restarts: a persistent backend is reopened
    pub fn reopen(&mut self) {
        #[cfg(feature = "pers")]
        if let Backend::Pers(_) = self.b {
            self.b = open_backend(2, &self.path);
            self.reopened = true;
        }
        self.armed = None;
        self.compare();
    }
    /// compare every answer of the backend with the model
    pub fn compare(&mut self) {
        let m = self.m.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            on_backend!(&self.b, s => {
                let mut bad = vec![];
                macro_rules! cmp { ($n:expr, $g:expr, $w:expr) => { match $g { Ok(g) => { let (g, w) = (dbg(&g), dbg(&$w)); if g != w { bad.push(format!("{} is {} but should be {}", $n, g, w)) } }, Err(e) => bad.push(format!("{} fails: {:?}", $n, e)) } } }
                cmp!("promise", s.get_promise(), m.promise);
                cmp!("accepted round", s.get_accepted_round(), m.acc_round);
                cmp!("decided index", s.get_decided_idx(), m.decided);
                cmp!("compacted index", s.get_compacted_idx(), m.compacted);
                cmp!("stopsign", s.get_stopsign(), m.stopsign);
                cmp!("snapshot", s.get_snapshot(), m.snapshot);
                if m.trim == m.compacted {
                    cmp!("log length", s.get_log_len(), m.log.len());
                    cmp!("suffix", s.get_suffix(m.compacted), m.get(m.compacted, m.end()));
                    let mid = m.compacted + m.log.len() / 2;
                    cmp!("entries", s.get_entries(m.compacted, mid), m.get(m.compacted, mid));
                    cmp!("entries", s.get_entries(mid, m.end()), m.get(mid, m.end()));
                    cmp!("entries beyond the end", s.get_entries(mid, m.end() + 1), m.get(mid, m.end() + 1));
                    cmp!("suffix", s.get_suffix(mid), m.get(mid, m.end()));
                }
                bad
            })
        }));
        match r {
            Ok(Some(bad)) => {
                if let Some(b) = bad.into_iter().next() {
                    self.backend_mismatch(b)
                }
            }
            Ok(None) => {}
            Err(_) => self.backend_mismatch("panics when read".into()),
        }
    }
    pub fn write(&mut self, ops: Vec<StorageOp<T>>, single: bool) {
        if let Some(k) = self.armed.as_mut() {
            if *k == 0 {
                std::panic::panic_any(CrashToken);
            }
            *k -= 1;
        }
        self.writes += 1;
        let old = self.m.clone();
        for o in &ops {
            self.m.apply(o);
        }
        self.check_write(&old);
        let cp: Vec<StorageOp<T>> = ops.iter().map(clone_op).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            on_backend!(&mut self.b, s => {
                let mut ops = ops;
                if !single { s.write_atomically(ops) } else {
                    match ops.pop().unwrap() {
                        StorageOp::AppendEntry(e) => s.append_entry(e),
                        StorageOp::AppendEntries(e) => s.append_entries(e),
                        StorageOp::AppendOnPrefix(i, e) => s.append_on_prefix(i, e),
                        StorageOp::SetPromise(b) => s.set_promise(b),
                        StorageOp::SetDecidedIndex(b) => s.set_decided_idx(b),
                        StorageOp::SetAcceptedRound(b) => s.set_accepted_round(b),
                        StorageOp::SetCompactedIdx(b) => s.set_compacted_idx(b),
                        StorageOp::Trim(b) => s.trim(b),
                        StorageOp::SetStopsign(b) => s.set_stopsign(b),
                        StorageOp::SetSnapshot(b) => s.set_snapshot(b),
                    }
                }
            })
        }));
        match r {
            Ok(Some(Err(e))) => self.backend_mismatch(format!("write of {:?} fails: {:?}", cp, e)),
            Err(_) => self.backend_mismatch(format!("write of {:?} panics", cp)),
            _ => {}
        }
    }
    /// an atomic write that fails because something in it cannot be serialized: nothing of it may ever take effect
    pub fn write_failing(&mut self, ops: Vec<StorageOp<T>>) {
        if self.kind != 2 {
            return;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| on_backend!(&mut self.b, s => s.write_atomically(ops))));
        match r {
            Ok(Some(Ok(()))) => self.backend_mismatch("a write that cannot be serialized succeeds".into()),
            Err(_) => self.backend_mismatch("a write that cannot be serialized panics".into()),
            _ => {}
        }
    }
    /// what must hold of every single durable write, whatever the schedule
    fn check_write(&mut self, old: &Model<T>) {
        let m = &self.m;
        let d = Ballot::default();
        let (p0, p1) = (old.promise.unwrap_or(d), m.promise.unwrap_or(d));
        let (a0, a1) = (old.acc_round.unwrap_or(d), m.acc_round.unwrap_or(d));
        let mut bad: Vec<(&'static str, String)> = vec![];
        if p1 < p0 {
            bad.push(("promise-durability", format!("stored promise goes back from {:?} to {:?}", p0, p1)));
        }
        if a1 < a0 {
            bad.push(("ballot-fencing", format!("stored accepted round goes back from {:?} to {:?}", a0, a1)));
        }
        if a1 > p1 {
            bad.push(("ballot-fencing", format!("accepted round {:?} above the stored promise {:?}", a1, p1)));
        }
        if m.decided < old.decided {
            bad.push(("decided-monotone", format!("stored decided index goes back from {} to {}", old.decided, m.decided)));
        }
        if m.decided > m.accepted() {
            bad.push(("decided-monotone", format!("stored decided index {} beyond the stored log of {}", m.decided, m.accepted())));
        }
        if m.compacted < old.compacted {
            bad.push(("compaction-safe", format!("compacted index goes back from {} to {}", old.compacted, m.compacted)));
        }
        if m.trim != m.compacted {
            bad.push(("compaction-safe", format!("a crash here leaves compacted index {} with entries removed up to {}", m.compacted, m.trim)));
            bad.push(("restart-recovery", format!("a crash here leaves compacted index {} with entries removed up to {}", m.compacted, m.trim)));
        }
        if m.compacted > m.decided {
            bad.push(("compaction-safe", format!("compacted index {} above the decided index {}", m.compacted, m.decided)));
        }
        // (what the log says) must only change in the promised round
        let ids = |x: &Model<T>| -> Vec<u64> { x.log.iter().map(|e| e.id()).collect() };
        let lo = old.trim.max(m.trim);
        let tail = |x: &Model<T>| -> Vec<u64> { ids(x).into_iter().skip(lo - x.trim.min(lo)).collect() };
        let grown = m.trim <= old.end() && (tail(old) != tail(m) || old.stopsign != m.stopsign);
        if (grown || m.trim > old.end()) && a1 != p1 {
            bad.push(("ballot-fencing", format!("log changed in round {:?} while {:?} is promised", a1, p1)));
        }
        if old.decided > lo && m.trim <= old.decided {
            let k = old.decided.min(old.end()).saturating_sub(lo);
            if tail(old)[..k.min(tail(old).len())] != tail(m)[..k.min(tail(m).len())] {
                bad.push(("decided-monotone", "a decided entry of this server is overwritten".to_string()));
            }
        }
        if let Some(ss) = &old.stopsign {
            if old.decided > old.end() && m.stopsign.as_ref() != Some(ss) {
                bad.push(("reconfig-seal", "a decided stopsign is removed or replaced".to_string()));
            }
        }
        if T::SNAP && m.compacted > 0 {
            match &m.snapshot {
                None => bad.push(("compaction-safe", format!("log compacted to {} without a snapshot", m.compacted))),
                Some(s) => {
                    let n = T::snap_ids(s).len();
                    if n != m.compacted {
                        bad.push(("compaction-safe", format!("stored snapshot covers {} entries, compacted index is {}", n, m.compacted)));
                        bad.push(("restart-recovery", format!("stored snapshot covers {} entries, compacted index is {}", n, m.compacted)));
                    }
                }
            }
        }
        for (p, s) in bad {
            self.v(p, s);
        }
    }
}

impl<T: SE> SimStore<T> {
    fn w(&self, op: StorageOp<T>) -> StorageResult<()> {
        self.0.borrow_mut().write(vec![op], true);
        Ok(())
    }
}

impl<T: SE> Storage<T> for SimStore<T> {
    fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
        self.0.borrow_mut().write(ops, false);
        Ok(())
    }
    fn append_entry(&mut self, entry: T) -> StorageResult<()> {
        self.w(StorageOp::AppendEntry(entry))
    }
    fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
        self.w(StorageOp::AppendEntries(entries))
    }
    fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
        self.w(StorageOp::AppendOnPrefix(from_idx, entries))
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w(StorageOp::SetPromise(n))
    }
    fn set_decided_idx(&mut self, ld: usize) -> StorageResult<()> {
        self.w(StorageOp::SetDecidedIndex(ld))
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        Ok(self.0.borrow().m.decided)
    }
    fn set_accepted_round(&mut self, na: Ballot) -> StorageResult<()> {
        self.w(StorageOp::SetAcceptedRound(na))
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        Ok(self.0.borrow().m.acc_round)
    }
    fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
        Ok(self.0.borrow().m.get(from, to))
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        let s = self.0.borrow();
        Ok(s.m.log.len())
    }
    fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
        let s = self.0.borrow();
        Ok(s.m.get(from, s.m.end()))
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        Ok(self.0.borrow().m.promise)
    }
    fn set_stopsign(&mut self, s: Option<StopSign>) -> StorageResult<()> {
        self.w(StorageOp::SetStopsign(s))
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        Ok(self.0.borrow().m.stopsign.clone())
    }
    fn trim(&mut self, idx: usize) -> StorageResult<()> {
        self.w(StorageOp::Trim(idx))
    }
    fn set_compacted_idx(&mut self, idx: usize) -> StorageResult<()> {
        self.w(StorageOp::SetCompactedIdx(idx))
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        Ok(self.0.borrow().m.compacted)
    }
    fn set_snapshot(&mut self, snapshot: Option<T::Snapshot>) -> StorageResult<()> {
        self.w(StorageOp::SetSnapshot(snapshot))
    }
    fn get_snapshot(&self) -> StorageResult<Option<T::Snapshot>> {
        Ok(self.0.borrow().m.snapshot.clone())
    }
}
