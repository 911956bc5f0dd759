//! Direct checks of parts that need no cluster: configuration validation, storage backends, field caches.
use crate::gen::Rng;
use crate::store::*;
use crate::types::*;
use omnipaxos::ballot_leader_election::Ballot;
use omnipaxos::storage::{StopSign, StorageOp};
use omnipaxos::util::FlexibleQuorum;
use omnipaxos::*;
use std::time::{Duration, Instant};

pub struct Out {
    pub viol: Vec<(&'static str, String)>,
    pub cases: u64,
}

pub fn run(prop: &str, seed: u64, secs: Duration) -> Out {
    let mut o = Out { viol: vec![], cases: 0 };
    if prop == "quorum-config" || prop == "all" {
        config(&mut o);
        quorums(&mut o);
    }
    if prop == "storage-backends" || prop == "restart-recovery" || prop == "all" {
        backends::<P>(&mut o, seed, secs / 2);
        backends::<S>(&mut o, seed + 1, secs / 2);
    }
    #[cfg(feature = "unicache")]
    if prop == "unicache-roundtrip" || prop == "all" {
        caches(&mut o, seed, secs);
    }
    o
}

/// How many promises make a leader and how many acceptances make a decision, for every valid configuration.
fn quorums(o: &mut Out) {
    for n in 2usize..8 {
        for r in 0usize..=n {
            for w in 0usize..=n {
                let flex = r > 0 || w > 0;
                if flex && !(r + w > n && r >= 2 && w >= 2 && r >= w) {
                    continue;
                }
                let (rq, wq) = if flex { (r, w) } else { (n / 2 + 1, n / 2 + 1) };
                o.cases += 1;
                let res = std::panic::catch_unwind(|| quorum_case(n, if flex { Some((r, w)) } else { None }));
                match res {
                    Ok(Ok((p, a))) if p == rq && a == wq => {}
                    Ok(Ok((p, a))) => o.viol.push(("quorum-config", format!("{} servers, quorums {:?}: a leader starts with {} promises and decides with {} acceptances, should be {} and {}", n, if flex { Some((r, w)) } else { None }, p, a, rq, wq))),
                    Ok(Err(e)) => o.viol.push(("quorum-config", format!("{} servers, quorums {:?}: {}", n, (r, w), e))),
                    Err(_) => {}
                }
            }
        }
    }
}

fn quorum_case(n: usize, flex: Option<(usize, usize)>) -> Result<(usize, usize), String> {
    use omnipaxos::messages::{sequence_paxos::PaxosMsg, Message};
    let mut ops = vec![];
    for pid in 1..=n as u64 {
        let st = SimStore::<P>(std::rc::Rc::new(std::cell::RefCell::new(Store::new(0, "quo".into()))));
        let c = ClusterConfig {
            configuration_id: 1,
            nodes: (1..=n as u64).collect(),
            flexible_quorum: flex.map(|(r, w)| FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }),
        };
        ops.push(c.build_for_server(ServerConfig { pid, election_tick_timeout: 1_000_000, ..Default::default() }, st).map_err(|e| format!("{:?}", e))?);
    }
    ops[0].try_become_leader();
    // servers answer one after the other
    let mut promises = None;
    let mut accepts = None;
    let mut got = 1;
    let mut accepted: std::collections::HashSet<u64> = [1].into_iter().collect();
    let mut queue: std::collections::VecDeque<Message<P>> = Default::default();
    let mut prepared = std::collections::BTreeMap::new();
    let mut buf = vec![];
    ops[0].take_outgoing_messages(&mut buf);
    for m in buf.drain(..) {
        if matches!(m, Message::SequencePaxos(_)) {
            prepared.insert(m.get_receiver(), m);
        }
    }
    let phase = |op: &OmniPaxos<P, SimStore<P>>| op.get_current_leader().map(|x| x.1).unwrap_or(false);
    if phase(&ops[0]) {
        promises = Some(1);
    }
    for pid in 2..=n as u64 {
        if promises.is_some() {
            break;
        }
        if let Some(m) = prepared.remove(&pid) {
            ops[pid as usize - 1].handle_incoming(m);
            ops[pid as usize - 1].take_outgoing_messages(&mut buf);
            for m in buf.drain(..) {
                if m.get_receiver() == 1 {
                    if let Message::SequencePaxos(p) = &m {
                        if matches!(p.msg, PaxosMsg::Promise(_)) {
                            got += 1;
                        }
                    }
                    ops[0].handle_incoming(m);
                }
            }
            if phase(&ops[0]) {
                promises = Some(got);
            }
        }
    }
    let promises = promises.ok_or("never becomes a leader in the accept phase")?;
    // the remaining servers promise now
    for (pid, m) in prepared {
        ops[pid as usize - 1].handle_incoming(m);
        ops[pid as usize - 1].take_outgoing_messages(&mut buf);
        for m in buf.drain(..) {
            if m.get_receiver() == 1 {
                ops[0].handle_incoming(m);
            }
        }
    }
    let _ = ops[0].append(P::mk(1));
    ops[0].take_outgoing_messages(&mut buf);
    queue.extend(buf.drain(..));
    let mut per: std::collections::BTreeMap<u64, Vec<Message<P>>> = Default::default();
    for m in queue {
        per.entry(m.get_receiver()).or_default().push(m);
    }
    for (pid, ms) in per {
        for m in ms {
            ops[pid as usize - 1].handle_incoming(m);
        }
        ops[pid as usize - 1].take_outgoing_messages(&mut buf);
        for m in buf.drain(..) {
            if let Message::SequencePaxos(p) = &m {
                if matches!(&p.msg, PaxosMsg::Accepted(a) if a.accepted_idx > 0) {
                    accepted.insert(pid);
                }
            }
            if m.get_receiver() == 1 {
                ops[0].handle_incoming(m);
            }
        }
        if ops[0].get_decided_idx() > 0 {
            accepts = Some(accepted.len());
            break;
        }
    }
    Ok((promises, accepts.ok_or("never decides")?))
}

fn config(o: &mut Out) {
    for n in 0usize..8 {
        for id in [0u32, 1, 7] {
            for r in 0usize..10 {
                for w in 0usize..10 {
                    for flex in [false, true] {
                        if !flex && (r > 0 || w > 0) {
                            continue;
                        }
                        let c = ClusterConfig {
                            configuration_id: id,
                            nodes: (1..=n as u64).collect(),
                            flexible_quorum: if flex { Some(FlexibleQuorum { read_quorum_size: r, write_quorum_size: w }) } else { None },
                        };
                        let want = n > 1 && id != 0 && (!flex || (r + w > n && r >= 2 && w >= 2 && r <= n && w <= n && r >= w));
                        o.cases += 1;
                        let got = c.validate().is_ok();
                        if got != want {
                            o.viol.push(("quorum-config", format!("validate() of {:?} says {}", c, got)));
                        }
                        if n == 0 {
                            continue;
                        }
                        let st = SimStore::<P>(std::rc::Rc::new(std::cell::RefCell::new(Store::new(0, "cfg".into()))));
                        let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.clone().build_for_server(ServerConfig { pid: 1, buffer_size: 4, ..Default::default() }, st.clone()).is_ok()));
                        if b.as_ref().ok() != Some(&want) {
                            o.viol.push(("quorum-config", format!("build of {:?} gives {:?}", c, b.ok())));
                        }
                        // a server that is not part of the configuration, or has pid 0
                        for pid in [0u64, 99] {
                            let st = SimStore::<P>(std::rc::Rc::new(std::cell::RefCell::new(Store::new(0, "cfg".into()))));
                            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.clone().build_for_server(ServerConfig { pid, buffer_size: 4, ..Default::default() }, st.clone()).is_ok()));
                            if b.ok() != Some(false) {
                                o.viol.push(("quorum-config", format!("server {} can be built in {:?}", pid, c)));
                            }
                        }
                        // reconfigure() must refuse what validate() refuses
                        if id != 7 || want {
                            continue;
                        }
                        let st = SimStore::<P>(std::rc::Rc::new(std::cell::RefCell::new(Store::new(0, "cfg".into()))));
                        let good = ClusterConfig { configuration_id: 1, nodes: vec![1, 2, 3], flexible_quorum: None };
                        if let Ok(mut op) = good.build_for_server(ServerConfig { pid: 1, buffer_size: 4, ..Default::default() }, st) {
                            match op.reconfigure(c.clone(), None) {
                                Err(ProposeErr::ConfigError(..)) => {}
                                _ => o.viol.push(("quorum-config", format!("reconfigure accepts {:?}", c))),
                            }
                        }
                    }
                }
            }
        }
    }
    // pid 0 is not a server, and a server is a member once
    for nodes in [vec![0u64, 1], vec![1, 0, 2], vec![1, 2, 0], vec![1, 1], vec![2, 1, 2], vec![1, 2, 3, 3], vec![3, 1, 2, 1], vec![1, 2, 3, 4, 2]] {
        for flexible_quorum in [None, Some(FlexibleQuorum { read_quorum_size: nodes.len(), write_quorum_size: 2 })] {
            let c = ClusterConfig { configuration_id: 1, nodes: nodes.clone(), flexible_quorum };
            o.cases += 1;
            if c.validate().is_ok() {
                o.viol.push(("quorum-config", format!("validate() accepts {:?}", c)));
            }
            let st = SimStore::<P>(std::rc::Rc::new(std::cell::RefCell::new(Store::new(0, "cfg".into()))));
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.clone().build_for_server(ServerConfig { pid: 1, buffer_size: 4, ..Default::default() }, st.clone()).is_ok()));
            if b.as_ref().ok() != Some(&false) {
                o.viol.push(("quorum-config", format!("build of {:?} gives {:?}", c, b.ok())));
            }
        }
    }
    for (f, name) in [(0, "pid"), (1, "buffer_size"), (2, "batch_size"), (3, "election_tick_timeout"), (4, "resend_message_tick_timeout")] {
        let mut s = ServerConfig { pid: 1, ..Default::default() };
        match f {
            0 => s.pid = 0,
            1 => s.buffer_size = 0,
            2 => s.batch_size = 0,
            3 => s.election_tick_timeout = 0,
            _ => s.resend_message_tick_timeout = 0,
        }
        o.cases += 1;
        if s.validate().is_ok() {
            o.viol.push(("quorum-config", format!("{} 0 accepted", name)));
        }
    }
}

fn backends<T: SE>(o: &mut Out, seed: u64, secs: Duration) {
    let t0 = Instant::now();
    let mut r = Rng(seed ^ 0x5151);
    let mut run = 0u64;
    while t0.elapsed() < secs && o.viol.len() < 3 {
        run += 1;
        crate::reset_mock();
        let kind = 1 + (run % 2) as u8;
        let path = format!("unit-{}-{}-{}", T::NAME, seed, run);
        let mut s: Store<T> = Store::new(kind, path);
        let mut trace = vec![];
        for step in 0..r.below(25) + 1 {
            let k = r.below(15);
            let mk = |r: &mut Rng| -> Vec<T> { (0..r.below(4)).map(|_| T::mk(r.below(1000) + 1)).collect() };
            let bal = Ballot::with(1, r.below(9) as u32, r.below(3) as u32, r.below(5) + 1);
            let m = s.m.clone();
            let ss = StopSign::with(ClusterConfig { configuration_id: 2, nodes: vec![1, 2, r.below(9) + 3], flexible_quorum: None }, if r.chance(1, 2) { Some(vec![r.below(255) as u8]) } else { None });
            let to = m.trim + r.below(m.log.len() as u64 + 1) as usize;
            let trim_to = |r: &mut Rng| m.trim + r.below(m.log.len() as u64 + 1) as usize;
            let snap = |r: &mut Rng| -> Option<T::Snapshot> {
                if T::SNAP {
                    let ids: Vec<u64> = (0..r.below(3)).map(|_| r.below(99)).collect();
                    Some(T::snap_of(&ids))
                } else {
                    None
                }
            };
            let (ops, single): (Vec<StorageOp<T>>, bool) = match k {
                0 => (vec![StorageOp::AppendEntry(T::mk(r.below(1000)))], true),
                1 | 2 => (vec![StorageOp::AppendEntries(mk(&mut r))], true),
                3 => (vec![StorageOp::AppendOnPrefix(to, mk(&mut r))], true),
                4 => (vec![StorageOp::SetPromise(bal)], true),
                5 => (vec![StorageOp::SetAcceptedRound(bal)], true),
                6 => (vec![StorageOp::SetDecidedIndex(to)], true),
                7 => (vec![StorageOp::SetStopsign(if r.chance(1, 4) { None } else { Some(ss) })], true),
                8 => (vec![StorageOp::SetSnapshot(snap(&mut r))], true),
                9 | 10 => {
                    let t = trim_to(&mut r);
                    let mut v = vec![StorageOp::Trim(t), StorageOp::SetCompactedIdx(t)];
                    if r.chance(1, 3) {
                        v.swap(0, 1);
                    }
                    if r.chance(1, 2) {
                        v.push(StorageOp::SetSnapshot(snap(&mut r)));
                    }
                    (v, false)
                }
                11 => {
                    // a synchronisation: the log is cut, possibly behind a snapshot beyond its end
                    let t = if T::SNAP && r.chance(1, 2) { m.end() + r.below(3) as usize } else { trim_to(&mut r) };
                    let mut v = vec![StorageOp::SetAcceptedRound(bal), StorageOp::SetDecidedIndex(t)];
                    if t > m.trim && T::SNAP {
                        v.push(StorageOp::Trim(t));
                        v.push(StorageOp::SetCompactedIdx(t));
                        v.push(StorageOp::SetSnapshot(snap(&mut r)));
                        v.push(StorageOp::AppendOnPrefix(t, mk(&mut r)));
                    } else {
                        v.push(StorageOp::AppendOnPrefix(to, mk(&mut r)));
                    }
                    v.push(StorageOp::SetStopsign(if r.chance(1, 2) { None } else { Some(ss) }));
                    (v, false)
                }
                12 => (vec![StorageOp::AppendEntries(mk(&mut r)), StorageOp::AppendEntry(T::mk(r.below(1000))), StorageOp::SetPromise(bal)], false),
                13 => {
                    let t = trim_to(&mut r);
                    let bad = match r.below(3) {
                        0 if T::SNAP => vec![StorageOp::Trim(t), StorageOp::SetCompactedIdx(t), StorageOp::SetSnapshot(Some(T::snap_of(&[crate::types::BAD])))],
                        1 => vec![StorageOp::SetPromise(bal), StorageOp::AppendOnPrefix(to, mk(&mut r)), StorageOp::AppendEntry(T::mk(crate::types::BAD))],
                        _ => vec![StorageOp::AppendEntries(mk(&mut r)), StorageOp::SetDecidedIndex(to), StorageOp::AppendEntries(vec![T::mk(1), T::mk(crate::types::BAD)])],
                    };
                    trace.push(format!("failing {:?}", bad));
                    s.write_failing(bad);
                    (vec![], true)
                }
                _ => {
                    s.reopen();
                    trace.push("reopen".to_string());
                    (vec![], true)
                }
            };
            if !ops.is_empty() {
                trace.push(format!("{:?}", ops));
                s.write(ops, single);
            }
            s.viol.retain(|v| v.0 == "storage-backends" || v.1.contains("reopening"));
            s.compare();
            if step % 5 == 4 {
                s.reopen();
                trace.push("reopen".into());
            }
            o.cases += 1;
            s.viol.retain(|v| v.0 == "storage-backends" || v.1.contains("reopening"));
            if !s.viol.is_empty() {
                for (p, w) in s.viol.drain(..) {
                    o.viol.push((p, format!("{} after {}", w, trace.join("; "))));
                }
                break;
            }
        }
    }
}

#[cfg(feature = "unicache")]
fn caches(o: &mut Out, seed: u64, secs: Duration) {
    use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, FieldCache};
    let t0 = Instant::now();
    let mut r = Rng(seed ^ 0x77);
    fn lock<C: FieldCache<u64, u8> + Clone + serde::Serialize + serde::de::DeserializeOwned>(r: &mut Rng, name: &str) -> Option<String> {
        let size = 1 + r.below(4) as usize;
        let dom = 1 + r.below(8);
        let mut enc = C::new(size);
        // a decoder that starts empty with the encoder, and one that gets the leader's cache mid-way
        let mut d1 = C::new(size);
        let mut d2: Option<C> = None;
        let at = r.below(20);
        let wire = r.chance(1, 2);
        let mut hist = vec![];
        for k in 0..30 {
            if k == at {
                let c = enc.clone();
                d2 = Some(if wire {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bincode::deserialize::<C>(&bincode::serialize(&c).unwrap()).unwrap())) {
                        Ok(c) => c,
                        Err(_) => return Some(format!("{} of size {} copied at {}: the copy cannot be sent over the network after {:?}", name, size, at, hist)),
                    }
                } else {
                    c
                });
            }
            let x = if r.chance(1, 2) { r.below(dom) } else { r.below(2) };
            hist.push(x);
            let e = enc.try_encode(&x);
            let ds = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d1.decode(e.clone()), d2.as_mut().map(|d| d.decode(e.clone())))));
            match ds {
                Ok((a, b)) => {
                    if a != x {
                        return Some(format!("{} of size {}: {} decodes as {} after {:?}", name, size, x, a, hist));
                    }
                    if let Some(b) = b {
                        if b != x {
                            return Some(format!("{} of size {} copied at {}: {} decodes as {} after {:?}", name, size, at, x, b, hist));
                        }
                    }
                }
                Err(_) => return Some(format!("{} of size {} copied at {}: decode of {} panics after {:?}", name, size, at, x, hist)),
            }
        }
        None
    }
    // the UniCache the derive macro makes for an entry of several fields
    fn derived(r: &mut Rng, _name: &str) -> Option<String> {
        use derive_uc::D;
        use omnipaxos::{storage::Entry, unicache::UniCache};
        let mut enc = <<D as Entry>::UniCache as UniCache>::new();
        let mut d1 = <<D as Entry>::UniCache as UniCache>::new();
        let mut d2: Option<<D as Entry>::UniCache> = None;
        let at = r.below(20);
        let mut hist = vec![];
        for k in 0..30 {
            if k == at {
                let c = enc.clone();
                d2 = Some(bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap());
            }
            let x = D { id: r.below(3), a: r.below(4), c: r.below(3), b: r.below(4), d: r.below(4), e: r.below(3) };
            hist.push(x.clone());
            let e = enc.try_encode(&x);
            let ds = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d1.decode(e.clone()), d2.as_mut().map(|d| d.decode(e.clone())))));
            match ds {
                Ok((a, b)) => {
                    if a != x || b.as_ref().map_or(false, |b| *b != x) {
                        return Some(format!("derived UniCache copied at {}: decodes as {:?} / {:?} after {:?}", at, a, b, hist));
                    }
                }
                Err(_) => return Some(format!("derived UniCache copied at {}: decode panics after {:?}", at, hist)),
            }
        }
        None
    }
    while t0.elapsed() < secs && o.viol.len() < 2 {
        o.cases += 3;
        let cs: [(&str, fn(&mut Rng, &str) -> Option<String>); 3] = [("derived UniCache", derived), ("LRUniCache", lock::<LRUniCache<u64, u8>>), ("LFUniCache", lock::<LFUniCache<u64, u8>>)];
        for (name, f) in cs {
            let s0 = r.0;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, name))) {
                Ok(None) => {}
                Ok(Some(s)) => o.viol.push(("unicache-roundtrip", s)),
                Err(_) => o.viol.push(("unicache-roundtrip", format!("{}: encoding or copying panics (case seed {})", name, s0))),
            }
        }
    }
}

#[cfg(feature = "unicache")]
pub mod derive_uc {
    use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
    use serde::{Deserialize, Serialize};
    #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct D {
        pub id: u64,
        #[unicache(encoding(u8), size(2))]
        pub a: u64,
        pub c: u64,
        #[unicache(encoding(u16), size(3), cache(lfu))]
        pub b: u64,
        #[unicache(encoding(u8), size(2), cache(lru))]
        pub d: u64,
        pub e: u64,
    }
}
