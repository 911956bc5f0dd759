//! A deterministic multi-server simulator that drives the real `OmniPaxos` through its public API and
//! judges every step against the properties. Every source of non-determinism is an explicit action, so a
//! run is its action list: it can be replayed and shrunk.
use crate::store::*;
use crate::types::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::messages::ballot_leader_election::HeartbeatMsg;
use omnipaxos::messages::sequence_paxos::{Compaction, PaxosMsg};
use omnipaxos::messages::Message;
use omnipaxos::storage::StopSign;
use omnipaxos::util::{FlexibleQuorum, LogEntry, SequenceNumber};
use omnipaxos::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub ty: String,
    pub n: usize,
    pub flex: Option<(usize, usize)>,
    pub batch: usize,
    pub backend: u8,
    pub lazy: bool,
    pub election: u64,
    pub resend: u64,
    pub flush: u64,
    pub sparse: bool,
    /// the user keeps an unsent message in the buffer it passes to take_outgoing_messages
    pub hold: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Deliver(u8, u8),
    Drop(u8, u8),
    Take(u8),
    Tick(u8),
    Append(u8),
    Lead(u8),
    Crash(u8),
    Arm(u8, u8),
    Recover(u8),
    Reconn(u8, u8),
    Cut(u8, u8),
    Heal(u8, u8),
    Trim(u8, u8),
    Snap(u8, u8, bool),
    Reconf(u8),
    Read(u8, u8, u8),
    Prio(u8, u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    E(u64),
    SS(u64),
}

fn ss_id(s: &StopSign) -> u64 {
    s.metadata.as_ref().map(|m| u64::from_le_bytes(m[..8].try_into().unwrap())).unwrap_or(0)
}

pub struct Violation {
    pub prop: &'static str,
    pub what: String,
    pub step: usize,
}

struct Node<T: SE> {
    op: Option<OmniPaxos<T, SimStore<T>>>,
    st: SimStore<T>,
    pid: u64,
    shadow: Vec<Item>,
    last: Model<T>,
    /// entries accepted into the batch of a leader in the Accept phase, not yet seen in the log
    pend: Vec<u64>,
    /// entries accepted from clients by a server that does not lead: neither seen in its log nor forwarded yet
    wait: Vec<u64>,
    /// those of them that must be, once the messages are taken, since the server has a leader now
    due: Vec<u64>,
    held: Vec<Message<T>>,
    takes: u64,
    hb_round: u32,
    replies: Vec<(Ballot, Ballot, bool)>,
    ballot: Ballot,
    leader_seen: Ballot,
    max_prep: Ballot,
    hb_ballot: Ballot,
    ld: usize,
    prio_changed: bool,
    tick_promise: Ballot,
}

pub struct Sim<T: SE> {
    pub cfg: Cfg,
    nodes: Vec<Node<T>>,
    links: HashMap<(u8, u8), VecDeque<Message<T>>>,
    cut: HashSet<(u8, u8)>,
    next_id: u64,
    proposed: HashSet<u64>,
    ss_proposed: HashSet<u64>,
    /// the decided log, as first decided by any server
    g: Vec<Item>,
    /// the longest prefix a write quorum has accepted in some round
    chosen: Vec<Item>,
    roundlog: BTreeMap<Bk, Vec<Item>>,
    accmax: HashMap<(Bk, u8), usize>,
    prep_owner: HashMap<Bk, u64>,
    seq: HashMap<(u8, u8), (Bk, SequenceNumber)>,
    syncs: HashMap<(Bk, u8, u64), Vec<Item>>,
    pub viol: Vec<Violation>,
    pub step: usize,
    pub dead: bool,
    wq: usize,
    rq: usize,
    pub stats: [u64; 8],
}
type Bk = (u32, u32, u64);
fn bk(b: &Ballot) -> Bk {
    (b.n, b.priority, b.pid)
}
fn is_prefix(a: &[Item], b: &[Item]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}
fn compat(a: &[Item], b: &[Item]) -> bool {
    let k = a.len().min(b.len());
    a[..k] == b[..k]
}

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

impl<T: SE> Sim<T> {
    pub fn new(cfg: &Cfg, uniq: u64) -> Self {
        let mut s = Sim {
            cfg: cfg.clone(),
            nodes: vec![],
            links: HashMap::new(),
            cut: HashSet::new(),
            next_id: 1,
            proposed: HashSet::new(),
            ss_proposed: HashSet::new(),
            g: vec![],
            chosen: vec![],
            roundlog: BTreeMap::new(),
            accmax: HashMap::new(),
            prep_owner: HashMap::new(),
            seq: HashMap::new(),
            syncs: HashMap::new(),
            viol: vec![],
            step: 0,
            dead: false,
            wq: cfg.flex.map(|x| x.1).unwrap_or(cfg.n / 2 + 1),
            rq: cfg.flex.map(|x| x.0).unwrap_or(cfg.n / 2 + 1),
            stats: [0; 8],
        };
        for i in 0..cfg.n {
            let store = SimStore(Rc::new(RefCell::new(Store::new(cfg.backend, format!("db-{}-{}", uniq, i)))));
            s.nodes.push(Node {
                op: None,
                st: store,
                pid: s.pid(i as u8),
                shadow: vec![],
                last: Model::new(),
                pend: vec![], wait: vec![], due: vec![],
                held: vec![],
                takes: 0,
                hb_round: 0,
                replies: vec![],
                ballot: Ballot::default(),
                leader_seen: Ballot::default(),
                max_prep: Ballot::default(),
                hb_ballot: Ballot::default(),
                ld: 0,
                prio_changed: false,
                tick_promise: Ballot::default(),
            });
        }
        for i in 0..cfg.n {
            s.build(i as u8);
            s.settle(i as u8);
        }
        s
    }
    pub fn pid(&self, i: u8) -> u64 {
        if self.cfg.sparse {
            (i as u64) * 2 + 2
        } else {
            i as u64 + 1
        }
    }
    fn idx(&self, pid: u64) -> Option<u8> {
        (0..self.cfg.n as u8).find(|i| self.pid(*i) == pid)
    }
    fn cluster(&self, id: u32) -> ClusterConfig {
        ClusterConfig {
            configuration_id: id,
            nodes: (0..self.cfg.n as u8).map(|i| self.pid(i)).collect(),
            flexible_quorum: self.cfg.flex.map(|(r, w)| FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
        }
    }
    pub fn v(&mut self, prop: &'static str, what: String) {
        if self.viol.len() < 64 {
            let step = self.step;
            self.viol.push(Violation { prop, what, step });
        }
    }
    fn build(&mut self, i: u8) {
        let sc = ServerConfig {
            pid: self.pid(i),
            election_tick_timeout: self.cfg.election,
            resend_message_tick_timeout: self.cfg.resend,
            flush_batch_tick_timeout: self.cfg.flush,
            batch_size: self.cfg.batch,
            buffer_size: 16,
            ..Default::default()
        };
        let cc = self.cluster(1);
        let st = self.nodes[i as usize].st.clone();
        st.0.borrow_mut().reopen();
        let before = st.0.borrow().m.clone();
        let r = catch_unwind(AssertUnwindSafe(|| cc.build_for_server(sc, st)));
        match r {
            Ok(Ok(op)) => {
                let now = self.nodes[i as usize].st.0.borrow().m.clone();
                let p0 = before.promise.unwrap_or_default();
                let mut bad = vec![];
                if op.get_promise() != p0 || now.promise.unwrap_or_default() != p0 {
                    bad.push(format!("promise {:?} became {:?}", p0, op.get_promise()));
                }
                if op.get_decided_idx() != before.decided || now.decided != before.decided {
                    bad.push(format!("decided index {} became {}", before.decided, op.get_decided_idx()));
                }
                if op.get_compacted_idx() != before.compacted {
                    bad.push(format!("compacted index {} became {}", before.compacted, op.get_compacted_idx()));
                }
                if now.log.iter().map(|e| e.id()).collect::<Vec<_>>() != before.log.iter().map(|e| e.id()).collect::<Vec<_>>() || now.acc_round != before.acc_round || now.stopsign != before.stopsign {
                    bad.push("the stored log changed".into());
                }
                for b in bad {
                    self.v("restart-recovery", format!("server {} after restart: {}", self.pid(i), b));
                }
                let n = &mut self.nodes[i as usize];
                n.op = Some(op);
                n.pend.clear();
                n.replies.clear();
                n.hb_round = 0;
                n.ballot = Ballot::default();
                n.leader_seen = Ballot::default();
                n.hb_ballot = Ballot::default();
                n.ld = before.decided;
                n.prio_changed = false;
                // what the server recovered is what a reader sees
                self.read_check(i, 0, usize::MAX, "restart-recovery");
                if before.promise.is_some() && self.nodes[i as usize].op.as_ref().map(|o| o.get_current_leader()) == Some(Some((self.pid(i), true))) {
                    self.v("restart-recovery", format!("server {} leads right after its restart", self.pid(i)));
                }
            }
            Ok(Err(e)) => self.v("quorum-config", format!("valid configuration refused: {:?}", e)),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                self.v("no-panic", format!("building server {} panics: {}", self.pid(i), m));
                self.v("restart-recovery", format!("building server {} panics: {}", self.pid(i), m));
                self.dead = true;
            }
        }
    }
    pub fn up(&self, i: u8) -> bool {
        self.nodes[i as usize].op.is_some()
    }
    pub fn busy_links(&self) -> Vec<(u8, u8)> {
        let mut v: Vec<_> = self.links.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect();
        v.sort();
        v
    }
    pub fn is_leader(&self, i: u8) -> bool {
        self.nodes[i as usize].op.as_ref().map(|o| o.get_current_leader().map(|x| x.0) == Some(self.pid(i))).unwrap_or(false)
    }
    /// run `f` on the server; a crash armed in its store kills it
    fn with<R>(&mut self, i: u8, f: impl FnOnce(&mut OmniPaxos<T, SimStore<T>>) -> R) -> Option<R> {
        let mut op = self.nodes[i as usize].op.take()?;
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut op)));
        match r {
            Ok(x) => {
                self.nodes[i as usize].op = Some(op);
                Some(x)
            }
            Err(e) => {
                std::mem::forget(op);
                if e.downcast_ref::<CrashToken>().is_some() {
                    self.nodes[i as usize].st.0.borrow_mut().armed = None;
                    self.crashed(i);
                } else {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    let p = self.pid(i);
                    self.v("no-panic", format!("server {} panics: {}", p, m));
                    if m.contains("unicache") {
                        self.v("unicache-roundtrip", format!("server {} panics: {}", p, m));
                    }
                    self.dead = true;
                }
                None
            }
        }
    }
    fn crashed(&mut self, i: u8) {
        let n = &mut self.nodes[i as usize];
        n.op = None;
        n.pend.clear();
        n.wait.clear();
        n.due.clear();
        n.held.clear();
        self.seq.retain(|k, _| k.0 != i);
    }

    pub fn exec(&mut self, a: Act) {
        self.step += 1;
        if self.dead {
            return;
        }
        let n = self.cfg.n as u8;
        let ok = |x: u8| x < n;
        let mut touched: Option<u8> = None;
        match a {
            Act::Deliver(f, t) if ok(f) && ok(t) && self.up(t) => {
                if let Some(m) = self.links.get_mut(&(f, t)).and_then(|q| q.pop_front()) {
                    self.before_deliver(t, &m);
                    self.stats[0] += 1;
                    self.with(t, |o| o.handle_incoming(m));
                    touched = Some(t);
                }
            }
            Act::Drop(f, t) if ok(f) && ok(t) => {
                self.links.get_mut(&(f, t)).and_then(|q| q.pop_front());
            }
            Act::Take(i) if ok(i) && self.up(i) => {
                self.take(i);
                touched = Some(i);
            }
            Act::Tick(i) if ok(i) && self.up(i) => {
                self.nodes[i as usize].tick_promise = self.nodes[i as usize].op.as_ref().unwrap().get_promise();
                self.with(i, |o| o.tick());
                if self.up(i) && !self.dead {
                    self.after_tick(i);
                }
                touched = Some(i);
            }
            Act::Append(i) if ok(i) && self.up(i) => {
                let id = self.next_id;
                self.next_id += 1;
                self.proposed.insert(id);
                let sealed = self.nodes[i as usize].st.0.borrow().m.stopsign.is_some();
                let acc_leader = self.nodes[i as usize].op.as_ref().unwrap().get_current_leader() == Some((self.pid(i), true));
                let r = self.with(i, |o| o.append(T::mk(id)));
                match r {
                    Some(Ok(())) => {
                        if sealed {
                            self.v("reconfig-seal", format!("server {} accepts an entry after the stopsign is in its log", self.pid(i)));
                        }
                        if acc_leader {
                            self.nodes[i as usize].pend.push(id);
                        } else {
                            self.nodes[i as usize].wait.push(id);
                        }
                    }
                    Some(Err(ProposeErr::PendingReconfigEntry(e))) => {
                        self.proposed.remove(&id);
                        if !sealed {
                            self.v("reconfig-seal", format!("server {} refuses an entry though it has no stopsign", self.pid(i)));
                        }
                        if e.id() != id {
                            self.v("reconfig-seal", "the refused entry is not handed back".into());
                        }
                    }
                    Some(Err(_)) => self.v("reconfig-seal", "append fails with the wrong error".into()),
                    None => {}
                }
                touched = Some(i);
            }
            Act::Lead(i) if ok(i) && self.up(i) => {
                self.with(i, |o| o.try_become_leader());
                touched = Some(i);
            }
            Act::Crash(i) if ok(i) && self.up(i) => {
                self.crashed(i);
                self.settle(i);
            }
            Act::Arm(i, k) if ok(i) && self.up(i) => {
                self.nodes[i as usize].st.0.borrow_mut().armed = Some(k as u64);
            }
            Act::Recover(i) if ok(i) && !self.up(i) => {
                self.build(i);
                touched = Some(i);
            }
            Act::Reconn(i, j) if ok(i) && ok(j) && i != j => {
                if self.up(i) {
                    let p = self.pid(j);
                    self.with(i, |o| o.reconnected(p));
                    touched = Some(i);
                }
            }
            Act::Cut(i, j) if ok(i) && ok(j) => {
                self.cut.insert((i, j));
                self.links.remove(&(i, j));
            }
            Act::Heal(i, j) if ok(i) && ok(j) => {
                self.cut.remove(&(i, j));
            }
            Act::Trim(i, k) if ok(i) && self.up(i) && !T::SNAP => {
                self.compact(i, k, None);
                touched = Some(i);
            }
            Act::Snap(i, k, local) if ok(i) && self.up(i) && T::SNAP => {
                self.compact(i, k, Some(local));
                touched = Some(i);
            }
            Act::Reconf(i) if ok(i) && self.up(i) => {
                let id = self.next_id;
                self.next_id += 1;
                self.ss_proposed.insert(id);
                let sealed = self.nodes[i as usize].st.0.borrow().m.stopsign.is_some();
                let cc = self.cluster(2);
                match self.with(i, |o| o.reconfigure(cc, Some(id.to_le_bytes().to_vec()))) {
                    Some(Ok(())) if sealed => self.v("reconfig-seal", "reconfiguration accepted after the stopsign".into()),
                    Some(Err(_)) => {
                        self.ss_proposed.remove(&id);
                        if !sealed {
                            self.v("reconfig-seal", "reconfiguration refused though there is no stopsign".into());
                        }
                    }
                    _ => {}
                }
                touched = Some(i);
            }
            Act::Read(i, a, b) if ok(i) && self.up(i) => {
                let acc = self.nodes[i as usize].st.0.borrow().m.accepted();
                let (a, b) = (a as usize % (acc + 2), b as usize % (acc + 3));
                if a <= b {
                    self.read_check(i, a, b, "read-correct");
                }
                self.read_misc(i, a);
                touched = Some(i);
            }
            Act::Prio(i, p) if ok(i) && self.up(i) => {
                self.nodes[i as usize].prio_changed = true;
                self.with(i, |o| o.set_priority(p as u32));
            }
            _ => {}
        }
        if let Some(i) = touched {
            if !self.dead {
                self.settle(i);
                if self.cfg.flush == 1 && matches!(a, Act::Tick(_)) {
                    self.pend_after_flush(i);
                }
                if !self.cfg.lazy && self.up(i) {
                    self.take(i);
                }
            }
        }
    }

    fn compact(&mut self, i: u8, k: u8, snap: Option<bool>) {
        let m0 = self.nodes[i as usize].st.0.borrow().m.clone();
        let idx = if k == 255 { None } else { Some(k as usize % (m0.accepted() + 2)) };
        let leader = self.is_leader(i);
        let pid = self.pid(i);
        let round = m0.promise.unwrap_or_default();
        let r = match snap {
            None => self.with(i, |o| o.trim(idx)),
            Some(local) => self.with(i, |o| o.snapshot(idx, local)),
        };
        let m1 = self.nodes[i as usize].st.0.borrow().m.clone();
        match r {
            Some(Ok(())) => {
                let dec_log = m0.decided - (m0.stopsign.is_some() && m0.decided > m0.end()) as usize;
                if let Some(x) = idx {
                    let want = if x == m0.decided { dec_log } else { x };
                    if x > m0.decided {
                        self.v("compaction-safe", format!("server {} compacts to {} beyond its decided index {}", pid, x, m0.decided));
                    } else if m1.compacted != want.max(m0.compacted) {
                        self.v("compaction-safe", format!("server {} asked to compact to {}, compacted index is {}", pid, x, m1.compacted));
                    }
                } else if snap.is_some() && m1.compacted != dec_log {
                    self.v("compaction-safe", format!("snapshot of all that is decided stops at {} instead of {}", m1.compacted, dec_log));
                }
                if snap.is_none() {
                    if !leader {
                        self.v("compaction-safe", format!("server {} trims though it does not lead", pid));
                    }
                    for j in 0..self.cfg.n as u8 {
                        let have = self.accmax.get(&(bk(&round), j)).copied().unwrap_or(0);
                        if have < m1.compacted && m1.compacted > m0.compacted {
                            self.v("compaction-safe", format!("leader {} trims to {} but server {} only accepted {} in this round", pid, m1.compacted, self.pid(j), have));
                        }
                    }
                }
            }
            Some(Err(e)) => {
                if m1.compacted != m0.compacted {
                    self.v("compaction-safe", "a refused compaction changes the log".into());
                }
                let want_ok = match snap {
                    Some(_) => idx.map(|x| x <= m0.decided).unwrap_or(true),
                    None => false,
                };
                if want_ok {
                    self.v("compaction-safe", format!("snapshot of decided entries ({:?}) refused with {:?}", idx, e));
                }
                if let CompactionErr::UndecidedIndex(d) = e {
                    if d != m0.decided {
                        self.v("compaction-safe", format!("UndecidedIndex({}) but decided index is {}", d, m0.decided));
                    }
                }
                if let CompactionErr::NotCurrentLeader(_) = e {
                    if leader {
                        let acc = self.nodes[i as usize].op.as_ref().map(|o| o.get_current_leader()) == Some(Some((pid, true)));
                        if acc {
                            self.v("compaction-safe", "trim refused at the leader".into());
                        }
                    }
                }
            }
            None => {}
        }
    }

    fn before_deliver(&mut self, t: u8, m: &Message<T>) {
        let n = &mut self.nodes[t as usize];
        match m {
            Message::BLE(b) => {
                if let HeartbeatMsg::Reply(r) = &b.msg {
                    if r.round == n.hb_round && r.ballot.config_id == 1 {
                        n.replies.push((r.ballot, r.leader, r.happy));
                    }
                }
            }
            Message::SequencePaxos(p) => {
                if let PaxosMsg::ProposalForward(es) = &p.msg {
                    let pid = n.pid;
                    let sealed = n.st.0.borrow().m.stopsign.is_some();
                    if !sealed && n.op.as_ref().unwrap().get_current_leader() == Some((pid, true)) {
                        n.pend.extend(es.iter().map(|e| e.id()));
                    }
                }
            }
        }
    }

    /// leader election: what the end of a heartbeat round may do
    fn after_tick(&mut self, i: u8) {
        let ui = match self.with(i, |o| o.get_ui_states()) {
            Some(u) => u,
            None => return,
        };
        let b = ui.current_ballot;
        let n = &self.nodes[i as usize];
        let (old, replies, prom, changed, pid) = (n.ballot, n.replies.clone(), n.tick_promise, n.prio_changed, n.pid);
        if b.pid != pid {
            self.v("leader-election", format!("server {} campaigns with the ballot {:?} of another server", pid, b));
        }
        if old != Ballot::default() && !changed && !self.cfg.lazy {
            if b < old {
                self.v("leader-election", format!("ballot of server {} goes back from {:?} to {:?}", pid, old, b));
            }
            if b > old && b != prom {
                // takeover
                if replies.len() + 1 < self.rq {
                    self.v("leader-election", format!("server {} campaigns with {:?} though only {} servers answered its heartbeats", pid, b, replies.len()));
                }
                if replies.iter().any(|r| r.2) {
                    self.v("leader-election", format!("server {} campaigns with {:?} though a server it is connected to has a leader", pid, b));
                }
                if let Some(x) = replies.iter().map(|r| r.0).max() {
                    if b <= x {
                        self.v("leader-election", format!("server {} campaigns with {:?}, not above the ballot {:?} it has seen", pid, b, x));
                    }
                }
            }
        }
        let n = &mut self.nodes[i as usize];
        n.ballot = b;
        n.prio_changed = false;
    }

    fn take(&mut self, i: u8) {
        let mut buf = std::mem::take(&mut self.nodes[i as usize].held);
        let kept: Vec<String> = buf.iter().map(|x| format!("{:?}", x)).collect();
        if self.with(i, |o| o.take_outgoing_messages(&mut buf)).is_none() {
            return;
        }
        let pid = self.pid(i);
        if buf.len() < kept.len() || kept.iter().zip(buf.iter()).any(|(a, b)| *a != format!("{:?}", b)) {
            self.v("no-panic", format!("server {} loses messages the user has not sent yet", pid));
        }
        let m = self.nodes[i as usize].st.0.borrow().m.clone();
        let hold = {
            let n = &mut self.nodes[i as usize];
            n.takes += 1;
            if self.cfg.hold && n.takes % 3 == 0 { buf.len().saturating_sub(1) } else { buf.len() }
        };
        for msg in &buf {
            if let Message::SequencePaxos(p) = msg {
                if let PaxosMsg::ProposalForward(es) = &p.msg {
                    self.nodes[i as usize].wait.retain(|x| !es.iter().any(|e| e.id() == *x));
                }
            }
        }
        let n = &mut self.nodes[i as usize];
        let due = std::mem::take(&mut n.due);
        let lost: Vec<u64> = due.into_iter().filter(|x| n.wait.contains(x)).collect();
        if !lost.is_empty() {
            n.wait.retain(|x| !lost.contains(x));
            self.v("leader-recovery", format!("server {} has a leader now, but the entries {:?} that clients had given it are neither forwarded nor in its log", pid, lost));
        }
        for (k, msg) in buf.into_iter().enumerate() {
            let to = msg.get_receiver();
            let j = match self.idx(to) {
                Some(j) if j != i => j,
                _ => {
                    self.v("no-panic", format!("server {} sends a message to {}", pid, to));
                    continue;
                }
            };
            if msg.get_sender() != pid {
                self.v("ballot-fencing", format!("server {} signs a message as {}", pid, msg.get_sender()));
            }
            if k >= kept.len() {
                self.check_msg(i, j, &msg, &m);
            }
            if k >= hold {
                self.nodes[i as usize].held.push(msg);
                continue;
            }
            if !self.cut.contains(&(i, j)) {
                self.links.entry((i, j)).or_default().push_back(msg);
            }
        }
    }

    fn check_msg(&mut self, i: u8, j: u8, msg: &Message<T>, m: &Model<T>) {
        let pid = self.pid(i);
        let prom = m.promise.unwrap_or_default();
        let acc = m.acc_round.unwrap_or_default();
        let eager = !self.cfg.lazy;
        let p = match msg {
            Message::BLE(b) => {
                match &b.msg {
                    HeartbeatMsg::Request(r) => {
                        let n = &mut self.nodes[i as usize];
                        if r.round != n.hb_round {
                            n.hb_round = r.round;
                            n.replies.clear();
                        }
                    }
                    HeartbeatMsg::Reply(r) => {
                        if r.ballot.pid != pid {
                            self.v("leader-election", format!("server {} answers heartbeats with the ballot {:?} of another server", pid, r.ballot));
                        }
                        let n = &mut self.nodes[i as usize];
                        if r.leader < n.leader_seen && !n.prio_changed {
                            let l = n.leader_seen;
                            self.v("leader-election", format!("the leader ballot server {} reports goes back from {:?} to {:?}", pid, l, r.leader));
                        }
                        let n = &mut self.nodes[i as usize];
                        n.leader_seen = n.leader_seen.max(r.leader);
                    }
                }
                return;
            }
            Message::SequencePaxos(p) => p,
        };
        let need_own = |s: &mut Self, n: &Ballot, what: &str| {
            if n.pid != pid {
                s.v("ballot-fencing", format!("server {} sends {} in round {:?} of another server", pid, what, n));
            }
            if *n > prom {
                s.v("promise-durability", format!("server {} sends {} in round {:?} but has only stored the promise {:?}", pid, what, n, prom));
            }
            if eager && *n < prom {
                s.v("ballot-fencing", format!("server {} sends {} in round {:?} after promising {:?}", pid, what, n, prom));
            }
        };
        match &p.msg {
            PaxosMsg::Prepare(x) => {
                need_own(self, &x.n, "Prepare");
                if let Some(o) = self.prep_owner.insert(bk(&x.n), pid) {
                    if o != pid {
                        self.v("leader-election", format!("servers {} and {} both lead round {:?}", o, pid, x.n));
                    }
                } else if x.n <= self.nodes[i as usize].max_prep {
                    self.v("leader-election", format!("server {} starts round {:?} after a higher one", pid, x.n));
                }
                let mp = self.nodes[i as usize].max_prep.max(x.n);
                self.nodes[i as usize].max_prep = mp;
                // (a Prepare sent again by the leader of the round may precede a flush in the same step)
                let again = x.n_accepted == x.n && acc == x.n && x.accepted_idx <= m.accepted() && x.decided_idx <= m.decided;
                if eager && !again && (x.n_accepted != acc || x.accepted_idx != m.accepted() || x.decided_idx != m.decided) {
                    self.v("leader-recovery", format!("server {} prepares with a wrong description of its log: {:?}", pid, x));
                }
            }
            PaxosMsg::Promise(x) => {
                if x.n > prom {
                    self.v("promise-durability", format!("server {} promises {:?} but has only stored {:?}", pid, x.n, prom));
                }
                if eager && x.n == prom && acc != prom && (x.n_accepted != acc || x.accepted_idx != m.accepted() || x.decided_idx != m.decided) {
                    self.v("promise-durability", format!("server {} promises with a description of its log that is not what it stored: {:?} / {:?} {} {}", pid, (x.n_accepted, x.accepted_idx, x.decided_idx), acc, m.accepted(), m.decided));
                    self.v("leader-recovery", format!("server {} promises with a wrong description of its log", pid));
                }
            }
            PaxosMsg::Accepted(x) => {
                if x.n > prom || x.n.pid != p.to {
                    self.v("promise-durability", format!("server {} acknowledges round {:?} with stored promise {:?}", pid, x.n, prom));
                }
                if eager && x.n < prom {
                    self.v("ballot-fencing", format!("server {} acknowledges round {:?} after promising {:?}", pid, x.n, prom));
                }
                let have = self.accmax.get(&(bk(&x.n), i)).copied().unwrap_or(0);
                if x.accepted_idx > have {
                    for q in ["promise-durability", "batching", "write-quorum"] {
                        self.v(q, format!("server {} acknowledges {} entries in round {:?}, of which {} are in its stored log", pid, x.accepted_idx, x.n, have));
                    }
                }
            }
            PaxosMsg::AcceptSync(x) => {
                need_own(self, &x.n, "AcceptSync");
                if eager && x.decided_idx > m.decided {
                    self.v("write-quorum", format!("leader {} tells {} entries are decided, knows of {}", pid, x.decided_idx, m.decided));
                }
                self.seq_check(i, j, &x.n, x.seq_num, true, false);
                if eager {
                    let sh = self.nodes[i as usize].shadow.clone();
                    self.syncs.insert((bk(&x.n), j, x.seq_num.session), sh);
                }
            }
            PaxosMsg::AcceptDecide(x) => {
                need_own(self, &x.n, "AcceptDecide");
                if x.decided_idx > m.decided {
                    self.v("write-quorum", format!("leader {} tells {} entries are decided, knows of {}", pid, x.decided_idx, m.decided));
                }
                self.seq_check(i, j, &x.n, x.seq_num, false, false);
            }
            PaxosMsg::Decide(x) => {
                need_own(self, &x.n, "Decide");
                if x.decided_idx > m.decided {
                    self.v("write-quorum", format!("leader {} tells {} entries are decided, knows of {}", pid, x.decided_idx, m.decided));
                }
                self.seq_check(i, j, &x.n, x.seq_num, false, true);
            }
            PaxosMsg::AcceptStopSign(x) => {
                need_own(self, &x.n, "AcceptStopSign");
                if eager && m.stopsign.as_ref() != Some(&x.ss) {
                    self.v("reconfig-seal", format!("leader {} replicates a stopsign that is not in its log", pid));
                }
                self.seq_check(i, j, &x.n, x.seq_num, false, true);
            }
            PaxosMsg::NotAccepted(x) => {
                if x.n > prom {
                    self.v("promise-durability", format!("server {} refuses for {:?} but has only stored {:?}", pid, x.n, prom));
                }
            }
            PaxosMsg::Compaction(Compaction::Trim(k)) => {
                if *k > m.decided {
                    self.v("compaction-safe", format!("server {} asks others to trim to {} with decided index {}", pid, k, m.decided));
                }
            }
            PaxosMsg::ProposalForward(es) => {
                for e in es {
                    if !self.proposed.contains(&e.id()) {
                        self.v("agreement", format!("server {} forwards the entry {} nobody proposed", pid, e.id()));
                    }
                }
            }
            _ => {}
        }
    }

    fn seq_check(&mut self, i: u8, j: u8, n: &Ballot, s: SequenceNumber, sync: bool, resend: bool) {
        let k = (i, j);
        let b = bk(n);
        let good = match self.seq.get(&k) {
            Some((b0, s0)) if *b0 == b => {
                if sync {
                    s.session > s0.session && s.counter == 1
                } else {
                    (s.session == s0.session && s.counter == s0.counter + 1) || (resend && s == *s0)
                }
            }
            _ => sync && s.counter == 1,
        };
        if !good {
            let prev = self.seq.get(&k).cloned();
            self.v("accept-order", format!("leader {} numbers a message to {} {:?} after {:?}", self.pid(i), self.pid(j), s, prev));
        }
        self.seq.insert(k, (b, s));
    }

    /// judge the state of server i after a step
    fn settle(&mut self, i: u8) {
        let sv: Vec<_> = self.nodes[i as usize].st.0.borrow_mut().viol.drain(..).collect();
        for (p, s) in sv {
            let pid = self.pid(i);
            self.v(p, format!("server {}: {}", pid, s));
        }
        if self.dead {
            return;
        }
        let pid = self.pid(i);
        if self.cfg.backend != 0 && (self.step % 4 == 0 || self.step < 2) {
            self.nodes[i as usize].st.0.borrow_mut().compare();
        }
        let m = self.nodes[i as usize].st.0.borrow().m.clone();
        let old = self.nodes[i as usize].last.clone();
        let osh = std::mem::take(&mut self.nodes[i as usize].shadow);
        // the logical log
        let mut sh: Vec<Item> = vec![];
        if m.trim > 0 {
            if let (true, Some(s)) = (T::SNAP, &m.snapshot) {
                sh.extend(T::snap_ids(s).into_iter().map(Item::E));
                sh.truncate(m.trim);
                if !is_prefix(&sh[..sh.len().min(m.decided)], &self.g) && m.decided <= self.g.len() {
                    self.v("compaction-safe", format!("the snapshot of server {} differs from the decided log: {:?} / {:?}", pid, sh, self.g));
                }
            } else {
                sh.extend(osh.iter().take(m.trim).cloned());
            }
            while sh.len() < m.trim {
                sh.push(Item::E(0));
            }
        }
        for e in &m.log {
            if !e.intact() {
                self.v("unicache-roundtrip", format!("server {} stores a corrupted entry {:?}", pid, e));
                self.v("agreement", format!("server {} stores a corrupted entry {:?}", pid, e));
            }
            sh.push(Item::E(e.id()));
        }
        if let Some(s) = &m.stopsign {
            sh.push(Item::SS(ss_id(s)));
        }
        let changed = sh != osh;
        let acc = m.acc_round.unwrap_or_default();
        let oacc = old.acc_round.unwrap_or_default();
        let synced = acc != oacc;
        let is_own = acc.pid == pid;
        if changed || synced {
            // nothing but what was proposed, at most once
            let mut seen = HashSet::new();
            for it in &sh {
                match it {
                    Item::E(x) => {
                        if !self.proposed.contains(x) {
                            self.v("agreement", format!("server {} has an entry {} nobody proposed", pid, x));
                        }
                        if !seen.insert(*x) {
                            self.v("agreement", format!("server {} has the entry {} twice", pid, x));
                        }
                    }
                    Item::SS(x) => {
                        if !self.ss_proposed.contains(x) {
                            self.v("reconfig-seal", format!("server {} has a stopsign nobody proposed", pid));
                        }
                    }
                }
            }
            if !is_prefix(&osh[..old.decided.min(osh.len())], &sh) {
                self.v("decided-monotone", format!("a decided entry of server {} changes or disappears: {:?} -> {:?} (decided {})", pid, osh, sh, old.decided));
            }
            if let (Some(Item::SS(_)), true) = (osh.last(), !synced) {
                if sh.len() > osh.len() {
                    self.v("reconfig-seal", format!("server {} appends after its stopsign", pid));
                }
            }
            if !synced && !is_prefix(&osh, &sh) && sh.len() >= 1 {
                self.v("accept-order", format!("server {} rewrites its log within round {:?}: {:?} -> {:?}", pid, acc, osh, sh));
            }
            let key = bk(&acc);
            if is_own {
                if synced {
                    // a leader takes over: everything chosen in lower rounds must be in its log
                    let lower: Vec<(Bk, Vec<Item>)> = self.roundlog.range(..key).map(|(k, v)| (*k, v.clone())).collect();
                    for (r, l) in lower {
                        let c = self.chosen_in(&r).min(l.len());
                        if !is_prefix(&l[..c], &sh) {
                            self.v("leader-recovery", format!("leader {} starts round {:?} without the entries chosen in round {:?}: has {:?}, chosen {:?}", pid, acc, r, sh, &l[..c]));
                        }
                    }
                }
                let rl = self.roundlog.entry(key).or_default();
                if is_prefix(rl, &sh) {
                    *rl = sh.clone();
                } else {
                    let rl = rl.clone();
                    self.v("accept-order", format!("leader {} rewrites the log of its round: {:?} -> {:?}", pid, rl, sh));
                }
            } else if acc != Ballot::default() {
                let rl = self.roundlog.get(&key).cloned().unwrap_or_default();
                if !is_prefix(&sh, &rl) {
                    let q = if synced { "log-sync" } else { "accept-order" };
                    self.v(q, format!("server {} follows round {:?} with log {:?}, its leader's is {:?}", pid, acc, sh, rl));
                }
            } else if !sh.is_empty() {
                self.v("ballot-fencing", format!("server {} accepts entries without a round", pid));
            }
            let have = self.accmax.entry((key, i)).or_default();
            *have = (*have).max(sh.len());
            let (have, rl) = (*have, self.roundlog.get(&key).cloned().unwrap_or_default());
            let _ = have;
            let c = self.chosen_in(&key).min(rl.len());
            if !compat(&rl[..c], &self.chosen) {
                let ch = self.chosen.clone();
                self.v("agreement", format!("two quorums accept different logs: {:?} and {:?}", &rl[..c], ch));
                self.v("leader-recovery", format!("two quorums accept different logs: {:?} and {:?}", &rl[..c], ch));
            }
            if c > self.chosen.len() {
                self.chosen = rl[..c].to_vec();
                let above: Vec<(Bk, Vec<Item>)> = self.roundlog.range(key..).skip(1).map(|(k, v)| (*k, v.clone())).collect();
                for (r, l) in above {
                    if !is_prefix(&self.chosen, &l) {
                        let ch = self.chosen.clone();
                        self.v("ballot-fencing", format!("{:?} gets chosen in round {:?} though round {:?} already has the log {:?}", ch, key, r, l));
                    }
                }
            }
        }
        // follower just synchronised: its log is what the leader sent
        if synced && !is_own && !self.cfg.lazy {
            let best = self.syncs.iter().filter(|((b, f, _), _)| *b == bk(&acc) && *f == i).max_by_key(|((_, _, s), _)| *s).map(|(_, l)| l.clone());
            let ok = self.syncs.iter().any(|((b, f, _), l)| *b == bk(&acc) && *f == i && *l == sh);
            if !ok {
                self.v("log-sync", format!("server {} synchronised to {:?}, its leader's log was {:?}", pid, sh, best));
            }
        }
        // decided
        if m.decided < old.decided {
            self.v("decided-monotone", format!("decided index of server {} goes back from {} to {}", pid, old.decided, m.decided));
        }
        if m.decided > sh.len() {
            self.v("decided-monotone", format!("server {} decided {} of a log of {}", pid, m.decided, sh.len()));
        }
        if m.decided > old.decided || changed {
            self.stats[1] += (m.decided > old.decided) as u64;
            let d = m.decided.min(sh.len());
            if !compat(&sh[..d], &self.g) {
                let g = self.g.clone();
                self.v("agreement", format!("server {} decides {:?}, another server decided {:?}", pid, &sh[..d], g));
            } else if d > self.g.len() {
                self.g = sh[..d].to_vec();
            }
            if m.decided > old.decided && !is_prefix(&sh[..d], &self.chosen) {
                let ch = self.chosen.clone();
                self.v("write-quorum", format!("server {} decides {:?}, a write quorum of {} only accepted {:?}", pid, &sh[..d], self.wq, ch));
            }
        }
        if let Some(o) = &self.nodes[i as usize].op {
            let (d, c, pr) = (o.get_decided_idx(), o.get_compacted_idx(), o.get_promise());
            let ld = self.nodes[i as usize].ld;
            let rec = o.is_reconfigured().map(|s| ss_id(&s));
            let lead = o.get_current_leader();
            if d < ld || d != m.decided {
                self.v("decided-monotone", format!("server {} reports decided index {} after {}, stored is {}", pid, d, ld, m.decided));
            }
            if c != m.compacted {
                self.v("compaction-safe", format!("server {} reports compacted index {}, stored is {}", pid, c, m.compacted));
            }
            if pr != m.promise.unwrap_or_default() {
                self.v("promise-durability", format!("server {} acts on promise {:?}, stored is {:?}", pid, pr, m.promise));
            }
            if let Some((_, true)) = lead {
                if acc != pr {
                    self.v("ballot-fencing", format!("server {} accepts in round {:?} but its log is of round {:?}", pid, pr, acc));
                }
            }
            let want = match sh.last() {
                Some(Item::SS(x)) if m.decided == sh.len() => Some(*x),
                _ => None,
            };
            if rec != want {
                self.v("reconfig-seal", format!("server {} reports reconfiguration {:?}, should be {:?}", pid, rec, want));
            }
            self.nodes[i as usize].ld = d;
            // the batch
            let in_log: HashSet<u64> = sh.iter().filter_map(|x| if let Item::E(e) = x { Some(*e) } else { None }).collect();
            let pend = std::mem::take(&mut self.nodes[i as usize].pend);
            let k = pend.iter().take_while(|e| in_log.contains(e)).count();
            let rest: Vec<u64> = pend[k..].to_vec();
            // flushed in the order they were appended
            let order: Vec<u64> = sh.iter().filter_map(|x| if let Item::E(e) = x { Some(*e) } else { None }).filter(|e| pend[..k].contains(e)).collect();
            if order != pend[..k] || rest.iter().any(|e| in_log.contains(e)) {
                self.v("batching", format!("server {} appends batched entries {:?} out of order: {:?}", pid, pend, sh));
            }
            if !rest.is_empty() {
                if pr != old.promise.unwrap_or_default() {
                    self.v("batching", format!("server {} loses its batch {:?} when it promises {:?}", pid, rest, pr));
                } else if rest.len() >= self.cfg.batch {
                    self.v("batching", format!("server {} holds back {} entries with batch size {}", pid, rest.len(), self.cfg.batch));
                } else if m.stopsign.is_some() && lead == Some((pid, true)) {
                    self.v("batching", format!("server {} loses its batch {:?} when the stopsign is appended", pid, rest));
                } else {
                    self.nodes[i as usize].pend = rest;
                }
            }
        }
        let n = &mut self.nodes[i as usize];
        if !n.wait.is_empty() {
            n.wait.retain(|x| !sh.contains(&Item::E(*x)));
            if synced && m.stopsign.is_none() {
                n.due = n.wait.clone();
            }
        }
        n.shadow = sh;
        n.last = m;
    }
    fn pend_after_flush(&mut self, i: u8) {
        // called right after a Tick with flush timeout 1
        let pid = self.pid(i);
        if let Some(o) = &self.nodes[i as usize].op {
            if o.get_current_leader() == Some((pid, true)) && !self.nodes[i as usize].pend.is_empty() {
                let p = self.nodes[i as usize].pend.clone();
                self.v("batching", format!("server {} does not flush its batch {:?} at the timeout", pid, p));
            }
        }
    }
    fn chosen_in(&self, r: &Bk) -> usize {
        let mut v: Vec<usize> = (0..self.cfg.n as u8).map(|j| self.accmax.get(&(*r, j)).copied().unwrap_or(0)).collect();
        v.sort();
        v.reverse();
        v[self.wq - 1]
    }

    /// what a read of [a, b) must return, from the stored state
    fn expect_read(&self, i: u8, a: usize, b: usize) -> Option<Vec<String>> {
        let m = self.nodes[i as usize].st.0.borrow().m.clone();
        let acc = m.accepted();
        if b == 0 || b > acc || a > b {
            return None;
        }
        let mut v = vec![];
        let comp = |v: &mut Vec<String>| match &m.snapshot {
            Some(s) => v.push(format!("snap {} {:?}", m.compacted, T::snap_ids(s))),
            None => v.push(format!("trim {}", m.compacted)),
        };
        if b <= m.compacted {
            comp(&mut v);
            return Some(v);
        }
        if a >= acc {
            return None;
        }
        if a < m.compacted {
            comp(&mut v);
        }
        for k in a.max(m.compacted)..b {
            if k < m.end() {
                let e = k.checked_sub(m.trim).and_then(|k| m.log.get(k)).map(|e| e.id()).unwrap_or(0);
                v.push(format!("{} {}", if k < m.decided { "dec" } else { "und" }, e));
            } else {
                v.push(format!("ss {} {}", m.decided == acc, ss_id(m.stopsign.as_ref().unwrap())));
            }
        }
        Some(v)
    }
    fn show(e: &LogEntry<T>) -> String {
        match e {
            LogEntry::Decided(x) => format!("dec {}", x.id()),
            LogEntry::Undecided(x) => format!("und {}", x.id()),
            LogEntry::Trimmed(k) => format!("trim {}", k),
            LogEntry::Snapshotted(s) => format!("snap {} {:?}", s.trimmed_idx, T::snap_ids(&s.snapshot)),
            LogEntry::StopSign(s, d) => format!("ss {} {}", d, ss_id(s)),
        }
    }
    fn read_check(&mut self, i: u8, a: usize, b: usize, prop: &'static str) {
        let b1 = if b == usize::MAX { self.nodes[i as usize].st.0.borrow().m.accepted() } else { b };
        let want = self.expect_read(i, a, b1);
        let got = if b == usize::MAX { self.with(i, |o| o.read_entries(..)) } else { self.with(i, |o| o.read_entries(a..b)) };
        if let Some(got) = got {
            let got = got.map(|v| v.iter().map(Self::show).collect::<Vec<_>>());
            if got != want {
                self.v(prop, format!("server {} reads {}..{} as {:?}, its log says {:?}", self.pid(i), a, b1, got, want));
                if prop != "read-correct" {
                    self.v("read-correct", format!("server {} reads {}..{} as {:?}, its log says {:?}", self.pid(i), a, b1, got, want));
                }
            }
        }
    }
    fn read_misc(&mut self, i: u8, a: usize) {
        let want = self.expect_read(i, a, a + 1).and_then(|v| v.last().cloned());
        if let Some(got) = self.with(i, |o| o.read(a)) {
            let got = got.as_ref().map(Self::show);
            if got != want {
                self.v("read-correct", format!("server {} reads entry {} as {:?}, its log says {:?}", self.pid(i), a, got, want));
            }
        }
        let d = self.nodes[i as usize].st.0.borrow().m.decided;
        let want = if a < d { self.expect_read(i, a, d) } else { None };
        if let Some(got) = self.with(i, |o| o.read_decided_suffix(a)) {
            let got = got.map(|v| v.iter().map(Self::show).collect::<Vec<_>>());
            if got != want {
                self.v("read-correct", format!("server {} reads the decided suffix from {} as {:?}, its log says {:?}", self.pid(i), a, got, want));
            }
        }
        if let Some(got) = self.with(i, |o| (o.read_entries(a..=a), o.read_entries(a..), o.read_entries(..=a), o.read_entries(..a))) {
            let acc = self.nodes[i as usize].st.0.borrow().m.accepted();
            let sh = |g: Option<Vec<LogEntry<T>>>| g.map(|v| v.iter().map(Self::show).collect::<Vec<_>>());
            let w = (self.expect_read(i, a, a + 1), self.expect_read(i, a, acc), self.expect_read(i, 0, a + 1), self.expect_read(i, 0, a));
            let g = (sh(got.0), sh(got.1), sh(got.2), sh(got.3));
            let g1 = if a <= acc { g.1 == w.1 } else { true };
            if g.0 != w.0 || !g1 || g.2 != w.2 || g.3 != w.3 {
                self.v("read-correct", format!("server {} reads around {} {:?}, its log says {:?}", self.pid(i), a, g, w));
            }
        }
    }
}
