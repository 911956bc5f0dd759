// ---- Sequence Paxos ----
@verus
// a message tells the truth about the server that sends it, at the moment it is written into the buffer
pub open spec fn s_says<T: Entry>(pid: NodeId, peers: Seq<NodeId>, st: (Role, Phase), v: SV<T>, m: Message<T>) -> bool {
    m is SequencePaxos && {
        let pm = m->SequencePaxos_0;
        &&& pm.from == pid
        &&& peers.contains(pm.to)
        &&& match pm.msg {
            PaxosMsg::PrepareReq(r) => r.n == s_bor(v.promise),
            PaxosMsg::Prepare(p) => st.0 == Role::Leader && p == (Prepare { n: s_bor(v.promise), decided_idx: v.decided as usize, n_accepted: s_bor(v.acc_round), accepted_idx: v.accepted() as usize }),
            PaxosMsg::Promise(p) => st == (Role::Follower, Phase::Prepare) && pm.to == p.n.pid && s_promise_says(v, p),
            PaxosMsg::AcceptSync(a) => st == (Role::Leader, Phase::Accept) && a.n == s_bor(v.promise) && a.n == s_bor(v.acc_round) && a.decided_idx == v.decided
                && a.log_sync.stopsign == v.stopsign && (exists|c: int, d: int| #[trigger] s_sync_is(v, c, d, a.log_sync)),
            PaxosMsg::AcceptDecide(a) => st == (Role::Leader, Phase::Accept) && a.n == s_bor(v.promise) && a.n == s_bor(v.acc_round) && a.decided_idx == v.decided,
            PaxosMsg::Accepted(a) => st == (Role::Follower, Phase::Accept) && pm.to == a.n.pid && a.n == s_bor(v.promise) && a.n == s_bor(v.acc_round) && a.accepted_idx == v.accepted(),
            PaxosMsg::NotAccepted(x) => x.n == s_bor(v.promise),
            PaxosMsg::Decide(d) => st == (Role::Leader, Phase::Accept) && d.n == s_bor(v.promise) && d.n == s_bor(v.acc_round) && d.decided_idx == v.decided,
            PaxosMsg::AcceptStopSign(a) => st == (Role::Leader, Phase::Accept) && a.n == s_bor(v.promise) && a.n == s_bor(v.acc_round) && v.stopsign == Some(a.ss),
            PaxosMsg::ProposalForward(_) => pm.to == s_bor(v.promise).pid,
            PaxosMsg::ForwardStopSign(_) => pm.to == s_bor(v.promise).pid,
            PaxosMsg::Compaction(_) => true,
        }
    }
}
pub open spec fn s_promise_says<T: Entry>(v: SV<T>, p: Promise<T>) -> bool {
    p.n == s_bor(v.promise) && p.n_accepted == s_bor(v.acc_round) && p.decided_idx == v.decided && p.accepted_idx == v.accepted()
}
// nothing but truthful messages is added to the buffer or put in place of an unsent one
pub open spec fn s_outs<T: Entry>(pid: NodeId, peers: Seq<NodeId>, st: (Role, Phase), v: SV<T>, o: Seq<Message<T>>, n: Seq<Message<T>>) -> bool {
    &&& o.len() <= n.len()
    &&& forall|i: int| 0 <= i < n.len() ==> (i < o.len() && n[i] == o[i]) || s_says(pid, peers, st, v, #[trigger] n[i])
}
// what create_log_sync has to produce from state v for a log that shares [0, c) with v and has decided d entries
pub open spec fn s_diff_snap<T: Entry>(v: SV<T>, d: int) -> Option<SnapshotType<T>> {
    if d > v.trim { Some(SnapshotType::Delta(s_sm_create::<T>(v.range(d, v.ldecided())))) }
    else if v.trim < v.ldecided() { Some(SnapshotType::Complete(s_snap_upto(v, v.ldecided()))) }
    else { match v.snapshot { Some(s) => Some(SnapshotType::Complete(s)), None => None } }
}
pub open spec fn s_clamp(x: int, lo: int, hi: int) -> int { let m = if x < lo { lo } else { x }; if m > hi { hi } else { m } }
pub open spec fn s_sync_is<T: Entry>(v: SV<T>, c: int, d: int, s: LogSync<T>) -> bool {
    &&& s.stopsign == v.stopsign
    &&& if s_sm_use::<T>() && v.decided > c {
            s.sync_idx == v.ldecided() && s.decided_snapshot == s_diff_snap(v, d) && s.suffix@ =~= v.range(v.ldecided(), v.end())
        } else {
            s.decided_snapshot is None && s.sync_idx == s_clamp(c, v.trim, v.end()) && s.suffix@ =~= v.range(s.sync_idx as int, v.end())
        }
}
pub open spec fn s_is_accepted<T: Entry>(m: Message<T>, pid: NodeId, n: Ballot) -> bool {
    m is SequencePaxos && m->SequencePaxos_0.msg is Accepted && m->SequencePaxos_0.from == pid && m->SequencePaxos_0.to == n.pid && m->SequencePaxos_0.msg->Accepted_0.n == n
}
pub open spec fn s_is_accdec<T: Entry>(m: Message<T>, pid: NodeId, to: NodeId, n: Ballot) -> bool {
    m is SequencePaxos && m->SequencePaxos_0.msg is AcceptDecide && m->SequencePaxos_0.from == pid && m->SequencePaxos_0.to == to && m->SequencePaxos_0.msg->AcceptDecide_0.n == n
}
pub open spec fn s_accdec<T: Entry>(m: Message<T>) -> AcceptDecide<T> { m->SequencePaxos_0.msg->AcceptDecide_0 }
pub open spec fn s_next_seq(c: SequenceNumber, s: SequenceNumber) -> bool { s.session == c.session && s.counter == c.counter + 1 }
pub open spec fn s_prom_at(ps: Seq<PromiseState>, me: NodeId, i: int) -> bool { 0 <= i < ps.len() && i + 1 != me && ps[i] is Promised }
pub open spec fn s_imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn s_imin(a: int, b: int) -> int { if a < b { a } else { b } }

impl<T: Entry, B: Storage<T>> SequencePaxos<T, B> {
    pub open spec fn sv(&self) -> SV<T> { self.internal_storage.sv() }
    pub open spec fn batch(&self) -> Seq<T> { self.internal_storage.batch() }
    pub open spec fn same_uc(&self, o: &Self) -> bool { self.internal_storage.same_uc(&o.internal_storage) }
    pub open spec fn prom(&self) -> Ballot { s_bor(self.sv().promise) }
    pub open spec fn accr(&self) -> Ballot { s_bor(self.sv().acc_round) }
    pub open spec fn says(&self, m: Message<T>) -> bool { s_says(self.pid, self.peers@, self.state, self.sv(), m) }
    pub open spec fn outs(&self, o: &Self) -> bool { s_outs(self.pid, self.peers@, self.state, self.sv(), o.outgoing@, self.outgoing@) }
    pub open spec fn same_id(&self, o: &Self) -> bool {
        self.pid == o.pid && self.peers@ == o.peers@ && self.leader_state.max_pid == o.leader_state.max_pid && self.leader_state.quorum == o.leader_state.quorum
        && self.internal_storage.same_cfg(&o.internal_storage)
    }
    pub open spec fn is_peer(&self, p: NodeId) -> bool { self.peers@.contains(p) }
    pub open spec fn same_bufs(&self, o: &Self) -> bool { self.buffered_proposals@ == o.buffered_proposals@ && self.buffered_stopsign == o.buffered_stopsign }
    // proposals of clients that wait for a leader go on waiting, are forwarded together, or (a leader's, once it has taken over) are in the log, see [adopted]
    pub open spec fn keeps(&self, o: &Self) -> bool {
        ||| self.buffered_proposals@ == o.buffered_proposals@
        ||| o.buffered_proposals@.is_prefix_of(self.buffered_proposals@)
        ||| exists|i: int| #[trigger] s_idx(i) && o.outgoing@.len() <= i < self.outgoing@.len() && s_forwards(self.outgoing@[i], o.buffered_proposals@)
        ||| o.lead(Phase::Prepare) && self.lead(Phase::Accept)
    }
    pub open spec fn lead(&self, ph: Phase) -> bool { self.state == (Role::Leader, ph) }
    pub open spec fn follow(&self, ph: Phase) -> bool { self.state == (Role::Follower, ph) }

    pub open spec fn ids_ok(&self) -> bool {
        &&& self.leader_state.pid_ok(self.pid)
        &&& forall|p: NodeId| #[trigger] self.peers@.contains(p) ==> self.leader_state.pid_ok(p) && p != self.pid
        &&& forall|i: int| 0 <= i < self.peers@.len() ==> self.leader_state.pid_ok(#[trigger] self.peers@[i])
        &&& (self.prom().pid == 0 || self.prom().pid == self.pid || self.is_peer(self.prom().pid))
    }
    pub open spec fn role_ok(&self) -> bool {
        let ls = self.leader_state;
        &&& s_ble(ls.n_leader, self.prom())
        &&& (self.state.0 == Role::Leader ==> ls.n_leader == self.prom() && ls.n_leader.pid == self.pid && (self.state.1 == Phase::Prepare || self.state.1 == Phase::Accept))
        &&& (self.state.1 == Phase::Accept || self.batch().len() > 0 ==> self.accr() == self.prom())
        &&& (self.state.1 == Phase::Prepare || self.state.1 == Phase::None ==> self.batch().len() == 0)
        &&& (self.follow(Phase::Prepare) ==> self.is_peer(self.prom().pid) && self.cached_promise_message is Some && s_promise_says(self.sv(), self.cached_promise_message->Some_0))
        &&& (self.follow(Phase::Accept) ==> self.is_peer(self.prom().pid))
        &&& (self.lead(Phase::Accept) ==> ls.accepted_indexes@[self.pid - 1] == self.sv().accepted())
    }
    // what the leader knows about the promises of its round
    pub open spec fn prom_ok(&self) -> bool {
        let ls = self.leader_state;
        &&& forall|i: int| 0 <= i < ls.max_pid && (#[trigger] ls.promises_meta@[i]) is Promised ==>
                (i + 1 == self.pid || self.is_peer((i + 1) as NodeId))
                && ls.promises_meta@[i]->Promised_0.decided_idx <= ls.promises_meta@[i]->Promised_0.accepted_idx
                && (ls.promises_meta@[i]->Promised_0.n_accepted == ls.max_promise_meta.n_accepted ==> ls.promises_meta@[i]->Promised_0.decided_idx <= ls.max_promise_meta.accepted_idx)
        &&& (self.state.0 == Role::Leader ==> ls.promises_meta@[self.pid - 1] is Promised)
        // while preparing, the log that will be adopted is at least as up to date as that of every promise
        &&& (self.lead(Phase::Prepare) ==> (forall|i: int| 0 <= i < ls.max_pid && (#[trigger] ls.promises_meta@[i]) is Promised ==> s_pm_cmp(ls.promises_meta@[i]->Promised_0, ls.max_promise_meta) != Ordering::Greater)
                && (forall|i: int| 0 <= i < ls.max_pid ==> (#[trigger] ls.latest_accept_meta@[i]) is None)
                && (forall|i: int| 0 <= i < ls.max_pid ==> (#[trigger] ls.follower_seq_nums@[i]).session == 0))
    }
    // the positions remembered in the outgoing buffer are the messages they are taken for
    pub open spec fn meta_ok(&self) -> bool {
        &&& (self.latest_accepted_meta is Some ==> self.latest_accepted_meta->Some_0.1 < self.outgoing@.len()
                && s_is_accepted(self.outgoing@[self.latest_accepted_meta->Some_0.1 as int], self.pid, self.latest_accepted_meta->Some_0.0))
        &&& forall|i: int| 0 <= i < self.leader_state.max_pid && (#[trigger] self.leader_state.latest_accept_meta@[i]) is Some ==> self.accdec_at(i)
    }
    pub open spec fn accdec_at(&self, i: int) -> bool {
        let m = self.leader_state.latest_accept_meta@[i]->Some_0;
        &&& m.0 == self.leader_state.n_leader
        &&& m.1 < self.outgoing@.len()
        &&& s_is_accdec(self.outgoing@[m.1 as int], self.pid, (i + 1) as NodeId, m.0)
    }
    // an AcceptDecide that may still be extended is the last message of its session
    pub open spec fn accdec_last(&self) -> bool {
        forall|i: int| 0 <= i < self.leader_state.max_pid && (#[trigger] self.leader_state.latest_accept_meta@[i]) is Some ==>
            s_accdec(self.outgoing@[self.leader_state.latest_accept_meta@[i]->Some_0.1 as int]).seq_num == self.leader_state.follower_seq_nums@[i]
    }
    // every promised follower has been sent an AcceptSync in this round
    pub open spec fn synced(&self) -> bool {
        forall|i: int| 0 <= i < self.leader_state.max_pid && i + 1 != self.pid && (#[trigger] self.leader_state.promises_meta@[i]) is Promised ==>
            self.leader_state.follower_seq_nums@[i].session >= 1 && self.leader_state.follower_seq_nums@[i].counter >= 1
    }
    pub open spec fn inv0(&self) -> bool {
        &&& self.internal_storage.inv()
        &&& self.leader_state.wf()
        &&& self.ids_ok()
        &&& self.role_ok()
        &&& self.prom_ok()
        &&& self.meta_ok()
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.inv0()
        &&& (self.lead(Phase::Accept) ==> self.synced())
        &&& (self.state.0 == Role::Leader && self.sv().stopsign is None ==> self.accdec_last())
    }
    // ballots of one configuration: those that compare equal are the same
    pub open spec fn env_ballot(&self, n: Ballot) -> bool { (s_bcmp(n, self.prom()) == Ordering::Equal ==> n == self.prom()) && (s_bcmp(n, self.accr()) == Ordering::Equal ==> n == self.accr()) }
    pub open spec fn only_out(&self, o: &Self) -> bool { *self == (SequencePaxos { outgoing: self.outgoing, ..*o }) }
    // a message of the leader that is the next one of the session we follow
    pub open spec fn expects(&self, n: Ballot, s: SequenceNumber) -> bool { n == self.prom() && self.follow(Phase::Accept) && s_next_seq(self.current_seq_num, s) }
}
@end

@verus
pub open spec fn s_idx(i: int) -> bool { true }
pub open spec fn s_forwards<T: Entry>(m: Message<T>, e: Seq<T>) -> bool { m is SequencePaxos && m->SequencePaxos_0.msg is ProposalForward && m->SequencePaxos_0.msg->ProposalForward_0@ == e }
@end
@fn SequencePaxos::get_state []
@ensures
* [value] *res == self.state
@end
@fn SequencePaxos::get_promise [promise-durability]
@ensures
* [value] res == self.internal_storage.state_cache.promise
@end
@fn SequencePaxos::get_decided_idx [read-correct, decided-monotone]
@ensures
* [value] res == self.internal_storage.state_cache.decided_idx
@end
@fn SequencePaxos::get_compacted_idx [compaction-safe]
@ensures
* [value] res == self.internal_storage.state_cache.compacted_idx
@end
@fn SequencePaxos::get_current_leader [leader-election]
@ensures
* [value] res == self.internal_storage.state_cache.promise.pid
@end
@fn SequencePaxos::get_leader_state []
@ensures
* [value] *res == self.leader_state
@end
@fn SequencePaxos::is_reconfigured [reconfig-seal]
@requires
* self.internal_storage.inv()
@ensures
* [iff-stopsign-decided] res == (if self.sv().ss_decided() { self.sv().stopsign } else { None })
@end
@fn SequencePaxos::accepted_reconfiguration [reconfig-seal]
@requires
* self.internal_storage.inv()
@ensures
* [iff-stopsign-accepted] res == (self.sv().stopsign is Some)
@end

@fn SequencePaxos::create_log_sync [log-sync, compaction-safe, agreement, leader-recovery]
@requires
* self.internal_storage.inv()
* [decided-within-prefix] $2 <= $1
@ensures
* [exact-sync] s_sync_is(self.sv(), $1 as int, $2 as int, res)
@end

// ---------------- follower ----------------
@fn SequencePaxos::handle_prepare [promise-durability, ballot-fencing, agreement, leader-recovery, batching, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($2) && $1.n.pid == $2 && old(self).env_ballot($1.n) && old(self).env_ballot($1.n_accepted) && $1.decided_idx <= $1.accepted_idx
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [lower-ballot-ignored] !(s_blt(old(self).prom(), $1.n) || (old(self).prom() == $1.n && old(self).state.1 == Phase::Recover)) ==> *final(self) == *old(self)
* [promise-durable-first] s_blt(old(self).prom(), $1.n) || (old(self).prom() == $1.n && old(self).state.1 == Phase::Recover) ==>
    final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), promise: Some($1.n), ..old(self).sv() }) && final(self).follow(Phase::Prepare)
* [truthful] final(self).outs(old(self))
* [promise-with-sync] s_blt(old(self).prom(), $1.n) || (old(self).prom() == $1.n && old(self).state.1 == Phase::Recover) ==> ({
    let p = final(self).cached_promise_message->Some_0; let v = final(self).sv();
    &&& final(self).cached_promise_message is Some && s_promise_says(v, p)
    &&& final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: $2, msg: PaxosMsg::Promise(p) }))
    &&& if s_blt($1.n_accepted, s_bor(v.acc_round)) { p.log_sync is Some && s_sync_is(v, $1.decided_idx as int, $1.decided_idx as int, p.log_sync->Some_0) }
        else if s_bor(v.acc_round) == $1.n_accepted && v.accepted() > $1.accepted_idx { p.log_sync is Some && s_sync_is(v, $1.accepted_idx as int, $1.decided_idx as int, p.log_sync->Some_0) }
        else { p.log_sync is None } })
@end
@fn SequencePaxos::handle_acceptsync [log-sync, ballot-fencing, agreement, accept-order, decided-monotone, leader-recovery, no-panic, unicache-roundtrip]
@requires
* old(self).inv()
* [env] old(self).is_peer($2) && $1.n.pid == $2 && old(self).env_ballot($1.n)
* [env-sync-fits] $1.n == old(self).prom() && old(self).follow(Phase::Prepare) ==> s_sync_ok(old(self).sv(), $1.n, $1.decided_idx as int, Some($1.log_sync))
* [env-unicache] s_uc_ok(s_asuc($1))
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [fenced] !($1.n == old(self).prom() && old(self).follow(Phase::Prepare)) ==> final(self).internal_storage == old(self).internal_storage && final(self).current_seq_num == old(self).current_seq_num
* [adopted] $1.n == old(self).prom() && old(self).follow(Phase::Prepare) ==>
    final(self).sv() == s_sync_apply(old(self).sv(), $1.n, $1.decided_idx as int, Some($1.log_sync))
    && final(self).follow(Phase::Accept) && final(self).current_seq_num == $1.seq_num
* [adopts-unicache] $1.n == old(self).prom() && old(self).follow(Phase::Prepare) ==> final(self).internal_storage.uc() == s_asuc($1)
* [truthful] final(self).outs(old(self))
* [acknowledged] $1.n == old(self).prom() && old(self).follow(Phase::Prepare) ==>
    final(self).outgoing@.last() == Message::<T>::SequencePaxos(PaxosMessage { from: old(self).pid, to: $2, msg: PaxosMsg::Accepted(Accepted { n: $1.n, accepted_idx: final(self).sv().accepted() as usize }) })
@end
@fn SequencePaxos::forward_buffered_proposals [leader-recovery, no-panic]
@requires
* old(self).internal_storage.inv() && old(self).ids_ok()
@ensures
* [forwarded] final(self).outs(old(self)) && *final(self) == (SequencePaxos { outgoing: final(self).outgoing, buffered_proposals: final(self).buffered_proposals, ..*old(self) })
* [prefix] old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [client-entries-kept] final(self).keeps(old(self))
* [to-the-leader] forall|i: int| old(self).outgoing@.len() <= i < final(self).outgoing@.len() ==> ({ let m = #[trigger] final(self).outgoing@[i];
    m is SequencePaxos && m->SequencePaxos_0.from == old(self).pid && m->SequencePaxos_0.to == old(self).prom().pid && m->SequencePaxos_0.to != old(self).pid && m->SequencePaxos_0.to > 0 && m->SequencePaxos_0.msg is ProposalForward })
@tail
proof {
    let o = old(self).outgoing@; let n = self.outgoing@; let b = old(self).buffered_proposals@;
    if n.len() > o.len() { assert(s_forwards(n[n.len() - 1], b)); assert(s_idx(n.len() - 1)); } else { assert(b =~= self.buffered_proposals@); }
}
@end
@fn SequencePaxos::forward_proposals [leader-recovery, no-panic]
@requires
* old(self).internal_storage.inv() && old(self).ids_ok()
@ensures
* [forwarded] final(self).outs(old(self)) && *final(self) == (SequencePaxos { outgoing: final(self).outgoing, buffered_proposals: final(self).buffered_proposals, ..*old(self) })
* [prefix] old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [none-lost] old(self).prom().pid > 0 && old(self).prom().pid != old(self).pid ==>
    final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: old(self).prom().pid, msg: PaxosMsg::ProposalForward($1) })) && final(self).buffered_proposals@ == old(self).buffered_proposals@
* [buffered] !(old(self).prom().pid > 0 && old(self).prom().pid != old(self).pid) ==> final(self).outgoing@ == old(self).outgoing@ && final(self).buffered_proposals@ == old(self).buffered_proposals@ + $1@
@end
@fn SequencePaxos::forward_stopsign [leader-recovery, no-panic, reconfig-seal]
@requires
* old(self).internal_storage.inv() && old(self).ids_ok()
@ensures
* [forwarded] final(self).outs(old(self)) && *final(self) == (SequencePaxos { outgoing: final(self).outgoing, buffered_stopsign: final(self).buffered_stopsign, ..*old(self) })
* [prefix] old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [none-lost] old(self).prom().pid > 0 && old(self).prom().pid != old(self).pid ==>
    final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: old(self).prom().pid, msg: PaxosMsg::ForwardStopSign($1) })) && final(self).buffered_stopsign == old(self).buffered_stopsign
* [buffered] !(old(self).prom().pid > 0 && old(self).prom().pid != old(self).pid) ==> final(self).outgoing@ == old(self).outgoing@ && final(self).buffered_stopsign == (if old(self).buffered_stopsign is Some { old(self).buffered_stopsign } else { Some($1) })
@end
@fn SequencePaxos::handle_acceptdecide [accept-order, ballot-fencing, decided-monotone, agreement, batching, write-quorum, leader-recovery, no-panic, unicache-roundtrip]
@requires
* old(self).inv()
* [env] old(self).is_peer($1.n.pid) && old(self).env_ballot($1.n)
* [env-nothing-after-stopsign] old(self).expects($1.n, $1.seq_num) ==> old(self).sv().stopsign is None || $1.entries@.len() == 0
* [env-decodable] old(self).expects($1.n, $1.seq_num) ==> s_can(old(self).internal_storage.uc(), $1.entries@)
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [only-in-order] !old(self).expects($1.n, $1.seq_num) ==> final(self).internal_storage == old(self).internal_storage && final(self).current_seq_num == old(self).current_seq_num
* [appended] old(self).expects($1.n, $1.seq_num) ==> final(self).current_seq_num == $1.seq_num && final(self).state == old(self).state
    && final(self).sv().log + final(self).batch() == old(self).sv().log + old(self).batch() + s_plain(old(self).internal_storage.uc(), $1.entries@)
    && final(self).internal_storage.uc() == s_plain_uc(old(self).internal_storage.uc(), $1.entries@)
    && final(self).sv() == (SV { log: final(self).sv().log, decided: final(self).sv().decided, ..old(self).sv() })
* [decided] old(self).expects($1.n, $1.seq_num) ==> final(self).sv().decided == s_imax(old(self).sv().decided, s_imin($1.decided_idx as int, final(self).sv().accepted()))
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_accept_stopsign [reconfig-seal, ballot-fencing, accept-order, agreement, batching, leader-recovery, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($1.n.pid) && old(self).env_ballot($1.n)
* [env-one-stopsign] old(self).expects($1.n, $1.seq_num) ==> old(self).sv().stopsign is None || old(self).sv().stopsign == Some($1.ss)
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [only-in-order] !old(self).expects($1.n, $1.seq_num) ==> final(self).internal_storage == old(self).internal_storage && final(self).current_seq_num == old(self).current_seq_num
* [unicache-kept] final(self).same_uc(old(self))
* [after-all-entries] old(self).expects($1.n, $1.seq_num) ==> final(self).current_seq_num == $1.seq_num && final(self).state == old(self).state
    && final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some($1.ss), ..old(self).sv() })
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_decide [decided-monotone, ballot-fencing, accept-order, agreement, batching, leader-recovery, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($1.n.pid) && old(self).env_ballot($1.n)
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [only-in-order] !old(self).expects($1.n, $1.seq_num) ==> final(self).internal_storage == old(self).internal_storage && final(self).current_seq_num == old(self).current_seq_num
* [unicache-kept] final(self).same_uc(old(self))
* [no-new-entries] old(self).expects($1.n, $1.seq_num) ==> final(self).current_seq_num == $1.seq_num && final(self).state == old(self).state
    && final(self).sv().log + final(self).batch() == old(self).sv().log + old(self).batch()
    && final(self).sv() == (SV { log: final(self).sv().log, decided: final(self).sv().decided, ..old(self).sv() })
* [decided] old(self).expects($1.n, $1.seq_num) ==> final(self).sv().decided == s_imax(old(self).sv().decided, s_imin($1.decided_idx as int, final(self).sv().accepted()))
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::update_decided_idx_and_get_accepted_idx [decided-monotone, batching, agreement]
@requires
* old(self).inv() && old(self).follow(Phase::Accept)
@ensures
* [inv] final(self).inv() && *final(self) == (SequencePaxos { internal_storage: final(self).internal_storage, ..*old(self) }) && final(self).same_id(old(self)) && final(self).same_uc(old(self))
* [flushed] res is Some ==> final(self).sv().log == old(self).sv().log + old(self).batch() && final(self).batch().len() == 0 && res->Some_0 == final(self).sv().accepted()
* [kept] res is None ==> final(self).sv().log == old(self).sv().log && final(self).batch() == old(self).batch()
* [frame] final(self).sv() == (SV { log: final(self).sv().log, decided: final(self).sv().decided, ..old(self).sv() })
* [decided] final(self).sv().decided == s_imax(old(self).sv().decided, s_imin($1 as int, final(self).sv().accepted()))
@end
@fn SequencePaxos::reply_accepted [write-quorum, batching, agreement, no-panic]
@requires
* old(self).inv() && old(self).follow(Phase::Accept)
* [acknowledges-durable-log] $1 == old(self).prom() && $2 == old(self).sv().accepted()
@ensures
* [inv] final(self).inv() && *final(self) == (SequencePaxos { outgoing: final(self).outgoing, latest_accepted_meta: final(self).latest_accepted_meta, ..*old(self) })
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::get_latest_accepted_message [no-panic]
@requires
* old(self).inv()
@ensures
* [none] !(old(self).latest_accepted_meta is Some && old(self).latest_accepted_meta->Some_0.0 == $1) ==> res is None && *final(self) == *old(self)
* [some] old(self).latest_accepted_meta is Some && old(self).latest_accepted_meta->Some_0.0 == $1 ==> res is Some && ({
    let i = old(self).latest_accepted_meta->Some_0.1 as int;
    &&& *res->Some_0 == old(self).outgoing@[i]->SequencePaxos_0.msg->Accepted_0
    &&& final(self).outgoing@ == old(self).outgoing@.update(i, Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::Accepted(*final(res->Some_0)), ..old(self).outgoing@[i]->SequencePaxos_0 }))
    &&& final(self).only_out(old(self)) })
@end
@fn SequencePaxos::check_valid_ballot [ballot-fencing, agreement, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($1.pid) && old(self).env_ballot($1)
@ensures
* [only-promised-ballot] res == ($1 == old(self).prom())
* [unchanged] res ==> *final(self) == *old(self)
* [refused] !res ==> *final(self) == (SequencePaxos { state: final(self).state, outgoing: final(self).outgoing, ..*old(self) }) && final(self).outs(old(self)) && final(self).inv()
    && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@end
@fn SequencePaxos::handle_sequence_num [accept-order, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).inv() && old(self).is_peer($2)
@ensures
* [expected-iff-next] res == MessageStatus::Expected <==> s_next_seq(old(self).current_seq_num, $1)
* [advanced] res == MessageStatus::Expected ==> *final(self) == (SequencePaxos { current_seq_num: $1, ..*old(self) })
* [gap-not-skipped] res != MessageStatus::Expected ==> *final(self) == (SequencePaxos { state: final(self).state, outgoing: final(self).outgoing, ..*old(self) }) && final(self).outs(old(self)) && final(self).inv()
    && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@end
@fn SequencePaxos::reconnected [accept-order, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($1) || $1 == old(self).pid
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && *final(self) == (SequencePaxos { state: final(self).state, outgoing: final(self).outgoing, ..*old(self) })
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [recovers] $1 != old(self).pid && $1 == old(self).prom().pid ==> final(self).follow(Phase::Recover)
* [else-kept] !($1 != old(self).pid && $1 == old(self).prom().pid) ==> final(self).state == old(self).state
@end
@fn SequencePaxos::resend_messages_follower [promise-durability, no-panic]
@requires
* old(self).inv() && old(self).state.0 == Role::Follower
@ensures
* [inv] final(self).inv() && *final(self) == (SequencePaxos { state: final(self).state, outgoing: final(self).outgoing, ..*old(self) })
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::send_preparereq_to_all_peers [no-panic]
@requires
* old(self).inv()
@ensures
* [inv] final(self).inv() && final(self).only_out(old(self))
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@loop self.peers
* self.inv() && self.only_out(old(self)) && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
@end
@fn SequencePaxos::flush_batch_follower [batching, write-quorum, agreement, no-panic]
@requires
* old(self).inv() && old(self).follow(Phase::Accept)
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).current_seq_num == old(self).current_seq_num
* [flushed] final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), ..old(self).sv() }) && final(self).batch().len() == 0
* [truthful] final(self).outs(old(self))
@end
