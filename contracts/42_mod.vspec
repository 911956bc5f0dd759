// ---- Sequence Paxos: user functions and dispatch ----
@verus
pub open spec fn s_prepreqs<T: Entry>(o: Vec<Message<T>>, pid: NodeId, peers: Seq<NodeId>, b: Ballot) -> bool {
    forall|i: int| 0 <= i < o@.len() ==> (#[trigger] o@[i]) is SequencePaxos && o@[i]->SequencePaxos_0.from == pid && peers.contains(o@[i]->SequencePaxos_0.to) && o@[i]->SequencePaxos_0.msg == PaxosMsg::<T>::PrepareReq(PrepareReq { n: b })
}
impl<T: Entry, B: Storage<T>> SequencePaxos<T, B> {
    // what a message from another correct server of the configuration satisfies (assumed of the network and of the peers)
    pub open spec fn env_promise(&self, p: Promise<T>, from: NodeId) -> bool {
        p.decided_idx <= p.accepted_idx
        && (self.lead(Phase::Prepare) && p.n == self.prom() ==> ({
            let ps = self.leader_state.promises_meta@.update(from - 1, PromiseState::Promised(s_pmeta(p, from)));
            let better = s_pm_cmp(s_pmeta(p, from), self.leader_state.max_promise_meta) == Ordering::Greater;
            let mx = if better { s_pmeta(p, from) } else { self.leader_state.max_promise_meta };
            let sy = if better { p.log_sync } else { self.leader_state.max_promise_sync };
            s_cnt_prom(ps) >= s_q_read(self.leader_state.quorum) ==> s_sync_ok(self.sv(), self.prom(), s_dec_max(ps, mx), sy) }))
        && (self.lead(Phase::Accept) && p.n == self.prom() && p.n_accepted == self.leader_state.max_promise_meta.n_accepted ==> p.decided_idx <= self.leader_state.max_promise_meta.accepted_idx)
    }
    pub open spec fn env(&self, m: PaxosMessage<T>) -> bool {
        self.is_peer(m.from) && match m.msg {
            PaxosMsg::Prepare(p) => p.n.pid == m.from && self.env_ballot(p.n) && self.env_ballot(p.n_accepted) && p.decided_idx <= p.accepted_idx,
            PaxosMsg::Promise(p) => self.env_promise(p, m.from),
            PaxosMsg::AcceptSync(a) => a.n.pid == m.from && self.env_ballot(a.n)
                && (a.n == self.prom() && self.follow(Phase::Prepare) ==> s_sync_ok(self.sv(), a.n, a.decided_idx as int, Some(a.log_sync))) && s_uc_ok(s_asuc(a)),
            PaxosMsg::AcceptDecide(a) => a.n.pid == m.from && self.env_ballot(a.n) && (self.expects(a.n, a.seq_num) ==> (self.sv().stopsign is None || a.entries@.len() == 0) && s_can(self.internal_storage.uc(), a.entries@)),
            PaxosMsg::AcceptStopSign(a) => a.n.pid == m.from && self.env_ballot(a.n) && (self.expects(a.n, a.seq_num) ==> self.sv().stopsign is None || self.sv().stopsign == Some(a.ss)),
            PaxosMsg::Decide(d) => d.n.pid == m.from && self.env_ballot(d.n),
            PaxosMsg::Accepted(a) => a.n == self.prom() && self.lead(Phase::Accept) ==> a.accepted_idx <= self.sv().accepted(),
            _ => true,
        }
    }
    // messages that may change the log, the decided index or the promise
    pub open spec fn fenced(&self, m: PaxosMessage<T>) -> bool {
        match m.msg {
            PaxosMsg::Prepare(p) => !(s_blt(self.prom(), p.n) || (self.prom() == p.n && self.state.1 == Phase::Recover)),
            PaxosMsg::Promise(p) => !(p.n == self.prom() && self.state.0 == Role::Leader),
            PaxosMsg::AcceptSync(a) => !(a.n == self.prom() && self.follow(Phase::Prepare)),
            PaxosMsg::AcceptDecide(a) => !self.expects(a.n, a.seq_num),
            PaxosMsg::AcceptStopSign(a) => !self.expects(a.n, a.seq_num),
            PaxosMsg::Decide(d) => !self.expects(d.n, d.seq_num),
            PaxosMsg::Accepted(a) => !(a.n == self.prom() && self.lead(Phase::Accept)),
            _ => false,
        }
    }
    pub open spec fn propose_res(&self, o: &Self, e: Seq<T>) -> bool {
        if o.lead(Phase::Prepare) { self.internal_storage == o.internal_storage && self.buffered_proposals@ =~= o.buffered_proposals@ + e && self.outgoing@ == o.outgoing@ }
        else if o.lead(Phase::Accept) { self.same_bufs(o) && self.sv().log + self.batch() =~= o.sv().log + o.batch() + e && self.sv() == (SV { log: self.sv().log, ..o.sv() }) && o.sv().log.is_prefix_of(self.sv().log) }
        else {
            self.internal_storage == o.internal_storage && (
                if o.prom().pid > 0 && o.prom().pid != o.pid {
                    self.buffered_proposals@ == o.buffered_proposals@ && self.outgoing@.len() == o.outgoing@.len() + 1 && o.outgoing@.is_prefix_of(self.outgoing@) && ({
                    let m = self.outgoing@.last(); m is SequencePaxos && m->SequencePaxos_0.msg is ProposalForward && m->SequencePaxos_0.to == o.prom().pid && m->SequencePaxos_0.msg->ProposalForward_0@ =~= e })
                } else { self.buffered_proposals@ =~= o.buffered_proposals@ + e && self.outgoing@ == o.outgoing@ })
        }
    }
}
@end

@fn SequencePaxos::with [restart-recovery, promise-durability, leader-recovery, quorum-config, no-panic]
@requires
* $2.swf() && $2.view().ok()
* [config] $1.pid >= 1 && $1.peers@.len() >= 1 && (forall|i: int| 0 <= i < $1.peers@.len() ==> #[trigger] $1.peers@[i] >= 1 && $1.peers@[i] != $1.pid)
* [own-storage] s_bor($2.view().promise).pid == 0 || s_bor($2.view().promise).pid == $1.pid || $1.peers@.contains(s_bor($2.view().promise).pid)
@ensures
* [inv] res.inv()
* [nothing-lost] res.sv() == (SV { promise: Some(s_bor($2.view().promise)), ..$2.view() }) && res.batch().len() == 0
* [recovers] $2.view().promise is Some ==> res.follow(Phase::Recover)
* [fresh] $2.view().promise is None ==> res.follow(Phase::None) && res.outgoing@.len() == 0
* [config-kept] res.pid == $1.pid && res.peers@ == $1.peers@ && res.internal_storage.state_cache.batch_size == $1.batch_size
* [quorums] ($1.flexible_quorum is Some ==> s_q_read(res.leader_state.quorum) == $1.flexible_quorum->Some_0.read_quorum_size && s_q_write(res.leader_state.quorum) == $1.flexible_quorum->Some_0.write_quorum_size)
    && ($1.flexible_quorum is None ==> s_q_read(res.leader_state.quorum) == ($1.peers@.len() + 1) / 2 + 1 && s_q_write(res.leader_state.quorum) == ($1.peers@.len() + 1) / 2 + 1)
* [truthful] forall|i: int| 0 <= i < res.outgoing@.len() ==> res.says(#[trigger] res.outgoing@[i])
@loop ::TY Option<&NodeId>
* $i > 0 ==> $acc is Some
* forall|i: int| 0 <= i < $i ==> $acc is Some && *$acc->Some_0 >= #[trigger] peers@[i]
* $acc is Some ==> (exists|i: int| 0 <= i < $i && *$acc->Some_0 == #[trigger] peers@[i])
@loop peers
* s_prepreqs::<T>(outgoing, pid, peers@, b)
@end
@fn SequencePaxos::trim [compaction-safe, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).batch() == old(self).batch()
* [leader-only] old(self).state.0 != Role::Leader ==> res == Err::<(), CompactionErr>(CompactionErr::NotCurrentLeader(old(self).prom().pid))
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv() && final(self).outgoing@ == old(self).outgoing@
* [only-trims] final(self).sv() == (SV { trim: final(self).sv().trim, compacted: final(self).sv().trim, log: old(self).sv().log.skip(final(self).sv().trim - old(self).sv().trim), ..old(self).sv() })
    && old(self).sv().trim <= final(self).sv().trim <= old(self).sv().ldecided()
* [accepted-by-all] final(self).sv().trim > old(self).sv().trim ==> (forall|i: int| 0 <= i < old(self).leader_state.max_pid ==> final(self).sv().trim <= #[trigger] old(self).leader_state.accepted_indexes@[i])
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [others-trim-no-more] forall|i: int| old(self).outgoing@.len() <= i < final(self).outgoing@.len() ==> ({ let m = #[trigger] final(self).outgoing@[i];
    m is SequencePaxos && m->SequencePaxos_0.msg is Compaction && m->SequencePaxos_0.msg->Compaction_0 is Trim
    && (forall|j: int| 0 <= j < old(self).leader_state.max_pid ==> m->SequencePaxos_0.msg->Compaction_0->Trim_0 <= #[trigger] old(self).leader_state.accepted_indexes@[j]) })
@loop self.peers
* self.inv() && *self == (SequencePaxos { outgoing: self.outgoing, internal_storage: self.internal_storage, ..*old(self) }) && self.same_id(old(self)) && self.batch() == old(self).batch()
* self.sv() == (SV { trim: self.sv().trim, compacted: self.sv().trim, log: old(self).sv().log.skip(self.sv().trim - old(self).sv().trim), ..old(self).sv() })
* old(self).sv().trim <= self.sv().trim <= old(self).sv().ldecided()
* self.sv().trim > old(self).sv().trim ==> (forall|j: int| 0 <= j < old(self).leader_state.max_pid ==> self.sv().trim <= #[trigger] old(self).leader_state.accepted_indexes@[j])
* self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* forall|i: int| old(self).outgoing@.len() <= i < self.outgoing@.len() ==> ({ let m = #[trigger] self.outgoing@[i];
    m is SequencePaxos && m->SequencePaxos_0.msg is Compaction && m->SequencePaxos_0.msg->Compaction_0 is Trim
    && (forall|j: int| 0 <= j < old(self).leader_state.max_pid ==> m->SequencePaxos_0.msg->Compaction_0->Trim_0 <= #[trigger] old(self).leader_state.accepted_indexes@[j]) })
@end
@fn SequencePaxos::snapshot [compaction-safe, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).batch() == old(self).batch()
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv() && final(self).outgoing@ == old(self).outgoing@
* [only-compacts] final(self).sv() == (SV { trim: final(self).sv().trim, compacted: final(self).sv().trim, log: old(self).sv().log.skip(final(self).sv().trim - old(self).sv().trim), snapshot: final(self).sv().snapshot, ..old(self).sv() })
    && old(self).sv().trim <= final(self).sv().trim <= old(self).sv().ldecided()
* [snapshot-covers] final(self).sv().snapshot == (if final(self).sv().trim > old(self).sv().trim { Some(s_snap_upto(old(self).sv(), final(self).sv().trim)) } else { old(self).sv().snapshot })
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
* [local] $2 ==> final(self).outgoing@ == old(self).outgoing@
@loop self.peers
* self.inv() && *self == (SequencePaxos { outgoing: self.outgoing, internal_storage: self.internal_storage, ..*old(self) }) && self.same_id(old(self)) && self.batch() == old(self).batch()
* self.sv() == (SV { trim: self.sv().trim, compacted: self.sv().trim, log: old(self).sv().log.skip(self.sv().trim - old(self).sv().trim), snapshot: self.sv().snapshot, ..old(self).sv() })
* old(self).sv().trim <= self.sv().trim <= old(self).sv().ldecided()
* self.sv().snapshot == (if self.sv().trim > old(self).sv().trim { Some(s_snap_upto(old(self).sv(), self.sv().trim)) } else { old(self).sv().snapshot })
* self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
@end
@fn SequencePaxos::handle_compaction [compaction-safe, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).batch() == old(self).batch() && final(self).outgoing@ == old(self).outgoing@
* [only-compacts] final(self).sv() == (SV { trim: final(self).sv().trim, compacted: final(self).sv().trim, log: old(self).sv().log.skip(final(self).sv().trim - old(self).sv().trim), snapshot: final(self).sv().snapshot, ..old(self).sv() })
    && old(self).sv().trim <= final(self).sv().trim <= old(self).sv().ldecided()
* [trim-keeps-snapshot] $1 is Trim ==> final(self).sv().snapshot == old(self).sv().snapshot
* [snapshot-covers] $1 is Snapshot ==> final(self).sv().snapshot == (if final(self).sv().trim > old(self).sv().trim { Some(s_snap_upto(old(self).sv(), final(self).sv().trim)) } else { old(self).sv().snapshot })
@end
@fn SequencePaxos::resend_message_timeout [no-panic, promise-durability]
@requires
* old(self).inv()
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).internal_storage == old(self).internal_storage
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::flush_batch_timeout [batching, no-panic]
@requires
* old(self).inv()
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [flushed] old(self).state.1 == Phase::Accept ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), ..old(self).sv() }) && final(self).batch().len() == 0
* [sent] old(self).lead(Phase::Accept) && old(self).batch().len() > 0 ==> final(self).sent_all(old(self), s_wire(old(self).internal_storage.uc(), old(self).batch())) && final(self).internal_storage.enc_uc(&old(self).internal_storage, old(self).batch())
* [else-nothing] old(self).state.1 != Phase::Accept ==> *final(self) == *old(self)
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::take_outgoing_msgs [accept-order, no-panic]
@requires
* old(self).inv()
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).internal_storage == old(self).internal_storage
* [each-once-in-order] final($1)@ == old($1)@ + old(self).outgoing@ && final(self).outgoing@.len() == 0
@end
@fn SequencePaxos::handle [agreement, ballot-fencing, decided-monotone, promise-durability, leader-recovery, no-panic]
@requires
* old(self).inv()
* [env] old(self).env($1)
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self))
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [fenced] old(self).fenced($1) ==> final(self).internal_storage == old(self).internal_storage
* [promise-of-another] final(self).prom() != old(self).prom() ==> final(self).prom().pid == $1.from && $1.from != old(self).pid
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::append [reconfig-seal, accept-order, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [sealed] old(self).sv().stopsign is Some ==> res == Err::<(), ProposeErr<T>>(ProposeErr::PendingReconfigEntry($1)) && *final(self) == *old(self)
* [proposed] old(self).sv().stopsign is None ==> res is Ok && final(self).propose_res(old(self), seq![$1])
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::propose_entry [accept-order, no-panic]
@requires
* old(self).inv() && old(self).sv().stopsign is None
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [proposed] final(self).propose_res(old(self), seq![$1])
* [truthful] final(self).outs(old(self))
@end
@fn StopSign::with [reconfig-seal]
@ensures
* [fields] res == (StopSign { next_config: $1, metadata: $2 })
@end
@fn SequencePaxos::reconfigure [reconfig-seal, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [sealed] old(self).sv().stopsign is Some ==> res == Err::<(), ProposeErr<T>>(ProposeErr::PendingReconfigConfig($1, $2)) && *final(self) == *old(self)
* [proposed] old(self).sv().stopsign is None ==> res is Ok
* [after-all-entries] old(self).sv().stopsign is None && old(self).lead(Phase::Accept) ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some(StopSign { next_config: $1, metadata: $2 }), ..old(self).sv() })
* [none-lost] old(self).sv().stopsign is None && !old(self).lead(Phase::Accept) ==> ({ let ss = StopSign { next_config: $1, metadata: $2 };
    if old(self).lead(Phase::Prepare) { final(self).buffered_stopsign == Some(ss) }
    else if old(self).prom().pid > 0 && old(self).prom().pid != old(self).pid { final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: old(self).prom().pid, msg: PaxosMsg::ForwardStopSign(ss) })) }
    else { final(self).buffered_stopsign is Some } })
* [else-nothing-durable] old(self).sv().stopsign is None && !old(self).lead(Phase::Accept) ==> final(self).internal_storage == old(self).internal_storage
* [truthful] final(self).outs(old(self))
@end
@verus
// the servers of a configuration other than this one, in the order given
pub open spec fn s_others(s: Seq<NodeId>, me: NodeId) -> Seq<NodeId> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last() != me { s_others(s.drop_last(), me).push(s.last()) } else { s_others(s.drop_last(), me) } }
pub proof fn lemma_others(s: Seq<NodeId>, me: NodeId)
    ensures
        forall|p: NodeId| #[trigger] s_others(s, me).contains(p) <==> s.contains(p) && p != me,
        s_others(s, me).len() <= s.len(),
        forall|i: int| 0 <= i < s_others(s, me).len() ==> s.contains(#[trigger] s_others(s, me)[i]) && s_others(s, me)[i] != me,
        s.no_duplicates() ==> s_others(s, me).no_duplicates() && s_others(s, me).len() == s.len() - (if s.contains(me) { 1int } else { 0int }),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_others(d, me);
        assert(s =~= d.push(s.last()));
        assert forall|p: NodeId| #[trigger] s_others(s, me).contains(p) <==> s.contains(p) && p != me by {
            if s.contains(p) && p != me {
                if p == s.last() { assert(s_others(s, me)[s_others(d, me).len() as int] == p); }
                else { let k = choose|k: int| 0 <= k < s.len() && s[k] == p; assert(d[k] == p); assert(s_others(d, me).contains(p));
                       let j = choose|j: int| 0 <= j < s_others(d, me).len() && s_others(d, me)[j] == p; assert(s_others(s, me)[j] == p); }
            }
            if s_others(s, me).contains(p) {
                let j = choose|j: int| 0 <= j < s_others(s, me).len() && s_others(s, me)[j] == p;
                if j < s_others(d, me).len() { assert(s_others(d, me)[j] == p); assert(s_others(d, me).contains(p)); let k = choose|k: int| 0 <= k < d.len() && d[k] == p; assert(s[k] == p); }
                else { assert(s[s.len() - 1] == p); }
            }
        }
        assert forall|i: int| 0 <= i < s_others(s, me).len() implies s.contains(#[trigger] s_others(s, me)[i]) && s_others(s, me)[i] != me by { assert(s_others(s, me).contains(s_others(s, me)[i])); }
        if s.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(s.last())) by { if d.contains(s.last()) { let k = choose|k: int| 0 <= k < d.len() && d[k] == s.last(); assert(s[k] == s[s.len() - 1]); } }
            if s.contains(me) && s.last() != me { let k = choose|k: int| 0 <= k < s.len() && s[k] == me; assert(d[k] == me); }
            if d.contains(me) { let k = choose|k: int| 0 <= k < d.len() && d[k] == me; assert(s[k] == me); }
            if s.last() == me { assert(s[s.len() - 1] == me); }
            if s.last() != me { assert(!s_others(d, me).contains(s.last())); }
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<OmniPaxosConfig> for SequencePaxosConfig {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: OmniPaxosConfig) -> Self { arbitrary() }
}
@end
@fn <SequencePaxosConfig as From>::from [quorum-config]
@ensures
* [kept] res.pid == $1.server_config.pid && res.flexible_quorum == $1.cluster_config.flexible_quorum && res.batch_size == $1.server_config.batch_size && res.buffer_size == $1.server_config.buffer_size
* [peers-are-the-others] res.peers@ == s_others($1.cluster_config.nodes@, $1.server_config.pid)
@head
    broadcast use group_lists;
@loop ::TY Vec<NodeId>
* $acc@ == s_others($it.seq().take($i), pid)
@end
