// ---- Sequence Paxos: leader ----
@verus
pub open spec fn s_prepare_msg<T: Entry>(pid: NodeId, to: NodeId, v: SV<T>) -> Message<T> {
    Message::SequencePaxos(PaxosMessage { from: pid, to: to, msg: PaxosMsg::Prepare(Prepare { n: s_bor(v.promise), decided_idx: v.decided as usize, n_accepted: s_bor(v.acc_round), accepted_idx: v.accepted() as usize }) })
}
// the index up to which the log of a promised follower is known to agree with the leader's
pub open spec fn s_valid_idx(n: Ballot, m: PromiseMetaData, max: PromiseMetaData) -> int {
    if m.n_accepted == n { m.accepted_idx as int }
    else if m.n_accepted == max.n_accepted { s_imin(max.accepted_idx as int, m.accepted_idx as int) }
    else { m.decided_idx as int }
}
pub open spec fn s_pmeta<T: Entry>(p: Promise<T>, from: NodeId) -> PromiseMetaData { PromiseMetaData { n_accepted: p.n_accepted, accepted_idx: p.accepted_idx, decided_idx: p.decided_idx, pid: from } }
pub open spec fn s_dec_max(s: Seq<PromiseState>, m: PromiseMetaData) -> int { s_imax(s_max_dec(s), m.decided_idx as int) }


pub broadcast proof fn bl_sync_fields<T: Entry>(v: SV<T>, n: Ballot, d: int, s: Option<LogSync<T>>)
    ensures (#[trigger] s_sync_apply(v, n, d, s)).acc_round == Some(n), s_sync_apply(v, n, d, s).promise == v.promise
{ }
impl<T: Entry, B: Storage<T>> SequencePaxos<T, B> {
    // a leader in the Accept phase, up to its own entry in accepted_indexes
    pub open spec fn leading(&self) -> bool {
        &&& self.internal_storage.inv() && self.leader_state.wf() && self.ids_ok() && self.prom_ok() && self.meta_ok()
        &&& self.lead(Phase::Accept) && self.leader_state.n_leader == self.prom() && self.leader_state.n_leader.pid == self.pid && self.accr() == self.prom()
    }
    pub open spec fn promised(&self, p: NodeId) -> bool { self.leader_state.pid_ok(p) && p != self.pid && self.leader_state.promises_meta@[p - 1] is Promised }
    // the state a new leader takes over with once it has a read quorum of promises
    pub open spec fn takeover(&self, ps: Seq<PromiseState>, mx: PromiseMetaData, sy: Option<LogSync<T>>) -> SV<T> {
        let w = s_sync_apply(self.sv(), self.prom(), s_dec_max(ps, mx), sy);
        if w.stopsign is Some { w } else { SV { log: w.log + self.buffered_proposals@, stopsign: self.buffered_stopsign, ..w } }
    }
    pub open spec fn fol(&self) -> Seq<NodeId> { s_followers(self.leader_state.promises_meta@, self.pid as int) }
    pub proof fn lemma_fol(&self)
        requires self.leader_state.wf(), self.prom_ok()
        ensures
            forall|k: int| 0 <= k < self.fol().len() ==> self.promised(#[trigger] self.fol()[k]) && self.is_peer(self.fol()[k]) && s_prom_at(self.leader_state.promises_meta@, self.pid, self.fol()[k] - 1),
            forall|k: int, l: int| 0 <= k < self.fol().len() && 0 <= l < self.fol().len() && k != l ==> #[trigger] self.fol()[k] != #[trigger] self.fol()[l],
            forall|i: int| #![trigger s_prom_at(self.leader_state.promises_meta@, self.pid, i)] #![trigger self.leader_state.promises_meta@[i]] s_prom_at(self.leader_state.promises_meta@, self.pid, i) ==> (exists|k: int| 0 <= k < self.fol().len() && #[trigger] self.fol()[k] == i + 1),
    {
        lemma_followers(self.leader_state.promises_meta@, self.pid as int);
        assert forall|k: int| 0 <= k < self.fol().len() implies self.promised(#[trigger] self.fol()[k]) && self.is_peer(self.fol()[k]) && s_prom_at(self.leader_state.promises_meta@, self.pid, self.fol()[k] - 1) by {
            assert(self.fol().contains(self.fol()[k]));
            let q = self.leader_state.promises_meta@[self.fol()[k] - 1];
        }
        assert forall|i: int| #[trigger] s_prom_at(self.leader_state.promises_meta@, self.pid, i) implies (exists|k: int| 0 <= k < self.fol().len() && #[trigger] self.fol()[k] == i + 1) by {
            assert(self.fol().contains((i + 1) as NodeId));
        }
    }
    pub open spec fn seq_of(&self, p: NodeId) -> SequenceNumber { self.leader_state.follower_seq_nums@[p - 1] }
    pub open spec fn meta_of(&self, p: NodeId) -> Option<(Ballot, usize)> { self.leader_state.latest_accept_meta@[p - 1] }
    // only the per-follower sending state and the buffer differ
    pub open spec fn only_sent(&self, o: &Self) -> bool {
        *self == (SequencePaxos { outgoing: self.outgoing, leader_state: self.leader_state, ..*o })
        && self.leader_state.same_cfg(&o.leader_state) && self.leader_state.same_prom(&o.leader_state) && self.leader_state.same_acc(&o.leader_state)
    }
    // entries e were sent to follower p after everything sent to it before in this session
    pub open spec fn sent_to(&self, o: &Self, p: NodeId, e: Seq<Wire<T>>) -> bool {
        if o.meta_of(p) is Some {
            let j = o.meta_of(p)->Some_0.1 as int;
            &&& self.meta_of(p) == o.meta_of(p) && self.seq_of(p) == o.seq_of(p)
            &&& s_is_accdec(self.outgoing@[j], self.pid, p, self.prom())
            &&& s_accdec(self.outgoing@[j]).entries@ == s_accdec(o.outgoing@[j]).entries@ + e
            &&& s_accdec(self.outgoing@[j]).seq_num == s_accdec(o.outgoing@[j]).seq_num
            &&& s_accdec(self.outgoing@[j]).decided_idx == self.sv().decided
        } else {
            &&& self.meta_of(p) is Some && self.meta_of(p)->Some_0.1 >= o.outgoing@.len() && self.meta_of(p)->Some_0.1 < self.outgoing@.len()
            &&& s_next_seq(o.seq_of(p), self.seq_of(p))
            &&& ({ let m = self.outgoing@[self.meta_of(p)->Some_0.1 as int];
                &&& s_is_accdec(m, self.pid, p, self.prom())
                &&& s_accdec(m).entries@ == e && s_accdec(m).seq_num == self.seq_of(p) && s_accdec(m).decided_idx == self.sv().decided })
        }
    }
    pub open spec fn untouched(&self, o: &Self, p: NodeId) -> bool {
        self.meta_of(p) == o.meta_of(p) && self.seq_of(p) == o.seq_of(p)
        && (o.meta_of(p) is Some ==> self.outgoing@[o.meta_of(p)->Some_0.1 as int] == o.outgoing@[o.meta_of(p)->Some_0.1 as int])
    }
    pub open spec fn sent_all(&self, o: &Self, e: Seq<Wire<T>>) -> bool { forall|i: int| #[trigger] s_prom_at(o.leader_state.promises_meta@, o.pid, i) ==> self.sent_to(o, (i + 1) as NodeId, e) }
    // entries e (if any were flushed) and then the stopsign were sent to follower p
    pub open spec fn sealed_to(&self, o: &Self, p: NodeId, e: Seq<Wire<T>>, flush: bool, ss: StopSign) -> bool {
        &&& s_next_seq(self.seq_before_ss(o, p, flush), self.seq_of(p))
        &&& exists|k: int| o.outgoing@.len() <= k < self.outgoing@.len() && (o.meta_of(p) is None && flush ==> k > self.meta_of(p)->Some_0.1)
            && #[trigger] self.outgoing@[k] == Message::<T>::SequencePaxos(PaxosMessage { from: self.pid, to: p, msg: PaxosMsg::AcceptStopSign(AcceptStopSign { seq_num: self.seq_of(p), n: self.prom(), ss }) })
        &&& flush ==> self.flushed_to(o, p, e)
        &&& !flush && o.meta_of(p) is Some ==> self.outgoing@[o.meta_of(p)->Some_0.1 as int] == o.outgoing@[o.meta_of(p)->Some_0.1 as int]
    }
    pub open spec fn seq_before_ss(&self, o: &Self, p: NodeId, flush: bool) -> SequenceNumber {
        if o.meta_of(p) is None && flush { s_accdec(self.outgoing@[self.meta_of(p)->Some_0.1 as int]).seq_num } else { o.seq_of(p) }
    }
    pub open spec fn flushed_to(&self, o: &Self, p: NodeId, e: Seq<Wire<T>>) -> bool {
        if o.meta_of(p) is Some {
            let j = o.meta_of(p)->Some_0.1 as int;
            s_is_accdec(self.outgoing@[j], self.pid, p, self.prom()) && s_accdec(self.outgoing@[j]).entries@ == s_accdec(o.outgoing@[j]).entries@ + e
                && s_accdec(self.outgoing@[j]).seq_num == s_accdec(o.outgoing@[j]).seq_num
        } else {
            let m = self.outgoing@[self.meta_of(p)->Some_0.1 as int];
            self.meta_of(p) is Some && self.meta_of(p)->Some_0.1 >= o.outgoing@.len() && s_is_accdec(m, self.pid, p, self.prom()) && s_accdec(m).entries@ == e && s_next_seq(o.seq_of(p), s_accdec(m).seq_num)
        }
    }
    pub open spec fn before_seal(&self, o: &Self, p: NodeId, e: Seq<Wire<T>>, flush: bool) -> bool { if flush { self.sent_to(o, p, e) } else { self.untouched(o, p) } }
    pub open spec fn sealed_all(&self, o: &Self, e: Seq<Wire<T>>, flush: bool, ss: StopSign) -> bool {
        forall|i: int| #[trigger] s_prom_at(o.leader_state.promises_meta@, o.pid, i) ==> self.sealed_to(o, (i + 1) as NodeId, e, flush, ss)
    }
    // follower p was told the new decided index in this session
    pub open spec fn told(&self, o: &Self, p: NodeId) -> bool {
        if o.meta_of(p) is Some {
            let j = o.meta_of(p)->Some_0.1 as int;
            &&& self.meta_of(p) == o.meta_of(p) && self.seq_of(p) == o.seq_of(p)
            &&& s_is_accdec(self.outgoing@[j], self.pid, p, self.prom())
            &&& s_accdec(self.outgoing@[j]) == (AcceptDecide { decided_idx: self.sv().decided as usize, ..s_accdec(o.outgoing@[j]) })
        } else {
            &&& self.meta_of(p) is None && s_next_seq(o.seq_of(p), self.seq_of(p))
            &&& exists|j: int| o.outgoing@.len() <= j < self.outgoing@.len() && #[trigger] self.outgoing@[j] == Message::<T>::SequencePaxos(PaxosMessage { from: self.pid, to: p,
                    msg: PaxosMsg::Decide(Decide { n: self.prom(), seq_num: self.seq_of(p), decided_idx: self.sv().decided as usize }) })
        }
    }
    // an AcceptSync that brings promised follower p to the leader's log
    pub open spec fn synced_to(&self, o: &Self, p: NodeId, m: Message<T>) -> bool {
        m is SequencePaxos && m->SequencePaxos_0.from == self.pid && m->SequencePaxos_0.to == p && m->SequencePaxos_0.msg is AcceptSync && ({
            let a = m->SequencePaxos_0.msg->AcceptSync_0;
            let pm = o.leader_state.promises_meta@[p - 1]->Promised_0;
            &&& a.n == self.prom() && a.decided_idx == self.sv().decided
            &&& a.seq_num.session == o.seq_of(p).session + 1 && a.seq_num.counter == 1 && self.seq_of(p) == a.seq_num
            &&& self.meta_of(p) is None
            &&& s_sync_is(self.sv(), s_valid_idx(self.prom(), pm, o.leader_state.max_promise_meta), if o.seq_of(p).session > 0 { 0 } else { pm.decided_idx as int }, a.log_sync)
            &&& s_uc_mirr(self.internal_storage.uc(), s_asuc(a)) && s_uc_ok(s_asuc(a))
        })
    }
}
// sealing one more follower keeps what was sent to the others
pub proof fn lemma_sealed_step<T: Entry, B: Storage<T>>(a: SequencePaxos<T, B>, b: SequencePaxos<T, B>, o: SequencePaxos<T, B>, f: Seq<NodeId>, i: int, e: Seq<Wire<T>>, flush: bool, ss: StopSign)
    requires a.leading(), b.leading(), o.leader_state.wf(), o.meta_ok(), b.only_sent(&a), b.leader_state.same_meta(&a.leader_state), 0 <= i < f.len(), o.outgoing@.len() <= a.outgoing@.len(),
        o.leader_state.max_pid == a.leader_state.max_pid,
        forall|k: int| 0 <= k < f.len() ==> a.promised(#[trigger] f[k]),
        forall|k: int, l: int| 0 <= k < f.len() && 0 <= l < f.len() && k != l ==> #[trigger] f[k] != #[trigger] f[l],
        forall|k: int| 0 <= k < i ==> a.sealed_to(&o, #[trigger] f[k], e, flush, ss),
        forall|k: int| i <= k < f.len() ==> a.before_seal(&o, #[trigger] f[k], e, flush),
        b.outgoing@ == a.outgoing@.push(Message::SequencePaxos(PaxosMessage { from: a.pid, to: f[i], msg: PaxosMsg::AcceptStopSign(AcceptStopSign { seq_num: b.seq_of(f[i]), n: a.prom(), ss }) })),
        s_next_seq(a.seq_of(f[i]), b.seq_of(f[i])),
        b.leader_state.follower_seq_nums@ == a.leader_state.follower_seq_nums@.update(f[i] - 1, b.seq_of(f[i])),
    ensures
        forall|k: int| 0 <= k < i + 1 ==> b.sealed_to(&o, #[trigger] f[k], e, flush, ss),
        forall|k: int| i + 1 <= k < f.len() ==> b.before_seal(&o, #[trigger] f[k], e, flush),
{
    assert forall|k: int| 0 <= k < i + 1 implies b.sealed_to(&o, #[trigger] f[k], e, flush, ss) by {
        let p = f[k];
        if k < i {
            assert(a.sealed_to(&o, p, e, flush, ss));
            let w = choose|w: int| o.outgoing@.len() <= w < a.outgoing@.len() && (o.meta_of(p) is None && flush ==> w > a.meta_of(p)->Some_0.1)
                && #[trigger] a.outgoing@[w] == Message::<T>::SequencePaxos(PaxosMessage { from: a.pid, to: p, msg: PaxosMsg::AcceptStopSign(AcceptStopSign { seq_num: a.seq_of(p), n: a.prom(), ss }) });
            assert(b.outgoing@[w] == a.outgoing@[w]);
            assert(f[k] != f[i]);
        } else {
            assert(a.before_seal(&o, p, e, flush));
            assert(b.outgoing@[b.outgoing@.len() - 1] == b.outgoing@.last());
        }
    }
    assert forall|k: int| i + 1 <= k < f.len() implies b.before_seal(&o, #[trigger] f[k], e, flush) by {
        assert(f[k] != f[i]);
        assert(a.before_seal(&o, f[k], e, flush));
    }
}
@end

@fn SequencePaxos::handle_leader [promise-durability, leader-recovery, leader-election, batching, agreement, no-panic]
@requires
* old(self).inv()
* [env] old(self).pid == $1.pid
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [lower-ballot-ignored] !(s_blt(old(self).leader_state.n_leader, $1) && s_blt(old(self).prom(), $1)) ==> *final(self) == *old(self)
* [promise-durable-first] s_blt(old(self).leader_state.n_leader, $1) && s_blt(old(self).prom(), $1) ==>
    final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), promise: Some($1), ..old(self).sv() })
* [prepares] s_blt(old(self).leader_state.n_leader, $1) && s_blt(old(self).prom(), $1) ==> final(self).lead(Phase::Prepare) && final(self).leader_state.n_leader == $1
    && (forall|p: NodeId| #[trigger] old(self).is_peer(p) ==> final(self).leader_state.promises_meta@[p - 1] is NotPromised)
    && (forall|i: int| 0 <= i < final(self).leader_state.max_pid ==> #[trigger] final(self).leader_state.accepted_indexes@[i] == 0)
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@loop self.peers
* self.inv() && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* self.sv() == (SV { log: old(self).sv().log + old(self).batch(), promise: Some($1), ..old(self).sv() }) && self.batch().len() == 0
* self.lead(Phase::Prepare)
* self.same_id(old(self)) && self.leader_state.n_leader == $1 && self.same_bufs(old(self))
* forall|p: NodeId| #[trigger] old(self).is_peer(p) ==> self.leader_state.promises_meta@[p - 1] is NotPromised
* forall|i: int| 0 <= i < self.leader_state.max_pid ==> #[trigger] self.leader_state.accepted_indexes@[i] == 0
@end
@fn SequencePaxos::become_follower []
@ensures
* [role] *final(self) == (SequencePaxos { state: (Role::Follower, old(self).state.1), ..*old(self) })
@end
@fn SequencePaxos::handle_preparereq [ballot-fencing, accept-order, leader-recovery, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($2)
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).internal_storage == old(self).internal_storage && final(self).state == old(self).state
* [higher-ballot-ignored] !(old(self).state.0 == Role::Leader && s_ble($1.n, old(self).leader_state.n_leader)) ==> *final(self) == *old(self)
* [prepared-again] old(self).state.0 == Role::Leader && s_ble($1.n, old(self).leader_state.n_leader) ==>
    final(self).outgoing@ == old(self).outgoing@.push(s_prepare_msg(old(self).pid, $2, old(self).sv()))
    && final(self).leader_state.promises_meta@ == old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::NotPromised)
    && final(self).leader_state.same_acc(&old(self).leader_state) && final(self).leader_state.same_seq(&old(self).leader_state)
    && final(self).leader_state.max_promise_meta == old(self).leader_state.max_promise_meta && final(self).leader_state.max_promise_sync == old(self).leader_state.max_promise_sync
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_forwarded_proposal [accept-order, reconfig-seal, batching, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [sealed] old(self).sv().stopsign is Some ==> *final(self) == *old(self)
* [buffered] old(self).sv().stopsign is None && old(self).lead(Phase::Prepare) ==> final(self).buffered_proposals@ == old(self).buffered_proposals@ + $1@ && final(self).internal_storage == old(self).internal_storage
* [appended] old(self).sv().stopsign is None && old(self).lead(Phase::Accept) ==> final(self).sv().log + final(self).batch() == old(self).sv().log + old(self).batch() + $1@
    && final(self).sv() == (SV { log: final(self).sv().log, ..old(self).sv() })
* [forwarded] old(self).sv().stopsign is None && old(self).state.0 != Role::Leader ==> final(self).internal_storage == old(self).internal_storage
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_forwarded_stopsign [reconfig-seal, leader-recovery, no-panic]
@requires
* old(self).inv()
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [sealed] old(self).sv().stopsign is Some ==> *final(self) == *old(self)
* [buffered] old(self).sv().stopsign is None && old(self).lead(Phase::Prepare) ==> final(self).buffered_stopsign == Some($1) && final(self).internal_storage == old(self).internal_storage
* [after-all-entries] old(self).sv().stopsign is None && old(self).lead(Phase::Accept) ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some($1), ..old(self).sv() })
* [forwarded] old(self).sv().stopsign is None && old(self).state.0 != Role::Leader ==> final(self).internal_storage == old(self).internal_storage
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::send_prepare [leader-recovery, no-panic]
@requires
* old(self).internal_storage.inv() && old(self).state.0 == Role::Leader && old(self).leader_state.n_leader == old(self).prom() && old(self).is_peer($1)
@ensures
* [truthful] final(self).outgoing@ == old(self).outgoing@.push(s_prepare_msg(old(self).pid, $1, old(self).sv())) && final(self).only_out(old(self)) && final(self).outs(old(self))
@end
@fn SequencePaxos::accept_entry_leader [accept-order, batching, write-quorum, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).inv() && old(self).lead(Phase::Accept) && old(self).sv().stopsign is None
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [appended] final(self).sv().log + final(self).batch() == (old(self).sv().log + old(self).batch()).push($1)
* [only-log] final(self).sv() == (SV { log: final(self).sv().log, ..old(self).sv() }) && old(self).sv().log.is_prefix_of(final(self).sv().log)
* [truthful] final(self).outs(old(self))
* [sent] final(self).sv().log != old(self).sv().log ==> final(self).sent_all(old(self), s_wire(old(self).internal_storage.uc(), old(self).batch().push($1))) && final(self).internal_storage.enc_uc(&old(self).internal_storage, old(self).batch().push($1)) && final(self).batch().len() == 0
* [not-sent-undurable] final(self).sv().log == old(self).sv().log ==> final(self).outgoing@ == old(self).outgoing@
* [frame] final(self).buffered_proposals@ == old(self).buffered_proposals@ && final(self).buffered_stopsign == old(self).buffered_stopsign && final(self).leader_state.same_prom(&old(self).leader_state) && final(self).leader_state.same_cfg(&old(self).leader_state)
@end
@fn SequencePaxos::accept_entries_leader [accept-order, batching, write-quorum, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).inv() && old(self).lead(Phase::Accept) && old(self).sv().stopsign is None
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [appended] final(self).sv().log + final(self).batch() == old(self).sv().log + old(self).batch() + $1@
* [only-log] final(self).sv() == (SV { log: final(self).sv().log, ..old(self).sv() }) && old(self).sv().log.is_prefix_of(final(self).sv().log)
* [truthful] final(self).outs(old(self))
* [sent] final(self).sv().log != old(self).sv().log ==> final(self).sent_all(old(self), s_wire(old(self).internal_storage.uc(), old(self).batch() + $1@)) && final(self).internal_storage.enc_uc(&old(self).internal_storage, old(self).batch() + $1@) && final(self).batch().len() == 0
* [frame] final(self).buffered_proposals@ == old(self).buffered_proposals@ && final(self).buffered_stopsign == old(self).buffered_stopsign && final(self).leader_state.same_prom(&old(self).leader_state) && final(self).leader_state.same_cfg(&old(self).leader_state)
@end
@fn SequencePaxos::accept_stopsign_leader [reconfig-seal, accept-order, batching, write-quorum, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).inv() && old(self).lead(Phase::Accept) && old(self).sv().stopsign is None
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [after-all-entries] final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some($1), ..old(self).sv() }) && final(self).batch().len() == 0
* [sent] final(self).sealed_all(old(self), s_wire(old(self).internal_storage.uc(), old(self).batch()), old(self).batch().len() > 0, $1)
* [frame] final(self).same_bufs(old(self))
* [truthful] final(self).outs(old(self))
@head
    proof { self.lemma_fol(); }
@loop get_promised_followers
* old(self).outgoing@.len() <= self.outgoing@.len() && self.same_bufs(old(self))
* forall|k: int| 0 <= k < $i ==> self.sealed_to(old(self), #[trigger] $it.seq()[k], s_wire(old(self).internal_storage.uc(), old(self).batch()), old(self).batch().len() > 0, $1)
* forall|k: int| $i <= k < $it.seq().len() ==> self.before_seal(old(self), #[trigger] $it.seq()[k], s_wire(old(self).internal_storage.uc(), old(self).batch()), old(self).batch().len() > 0)
* self.inv0() && self.synced() && self.same_id(old(self)) && self.state == old(self).state && self.outs(old(self)) && self.batch().len() == 0
* self.sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some($1), ..old(self).sv() })
* $it.seq() == old(self).fol() && self.fol() == old(self).fol() && self.leader_state.same_prom(&old(self).leader_state)
> let ghost pre = *self; proof { self.lemma_fol(); }
< proof { lemma_sealed_step(pre, *self, *old(self), $it.seq(), $i, s_wire(old(self).internal_storage.uc(), old(self).batch()), old(self).batch().len() > 0, $1); }
@end
@fn SequencePaxos::send_accsync [log-sync, accept-order, agreement, leader-recovery, no-panic, unicache-roundtrip]
@requires
* old(self).leading() && old(self).promised($1)
@ensures
* [inv] final(self).leading() && final(self).only_sent(old(self))
* [exact-sync] final(self).outgoing@ == old(self).outgoing@.push(final(self).outgoing@.last()) && final(self).synced_to(old(self), $1, final(self).outgoing@.last())
* [others-kept] final(self).leader_state.follower_seq_nums@ == old(self).leader_state.follower_seq_nums@.update($1 - 1, final(self).seq_of($1))
    && final(self).leader_state.latest_accept_meta@ == old(self).leader_state.latest_accept_meta@.update($1 - 1, None)
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::send_acceptdecide [accept-order, batching, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).leading() && old(self).accdec_last()
@ensures
* [inv] final(self).leading() && final(self).accdec_last() && final(self).only_sent(old(self))
* [sent] final(self).sent_all(old(self), $1.entries@)
* [no-session-skipped] old(self).synced() ==> final(self).synced()
* [truthful] final(self).outs(old(self))
@head
    proof { self.lemma_fol(); }
@loop get_promised_followers
* self.leading() && self.accdec_last() && self.only_sent(old(self)) && self.outs(old(self)) && (old(self).synced() ==> self.synced())
* $it.seq() == old(self).fol() && self.fol() == old(self).fol()
* forall|k: int| 0 <= k < $i ==> self.sent_to(old(self), #[trigger] $it.seq()[k], $1.entries@)
* forall|k: int| $i <= k < $it.seq().len() ==> self.untouched(old(self), #[trigger] $it.seq()[k])
> proof { self.lemma_fol(); }
@end
@fn SequencePaxos::send_accept_stopsign [reconfig-seal, accept-order, agreement, no-panic]
@requires
* old(self).leading() && old(self).promised($1)
* [accepted-first] old(self).sv().stopsign == Some($2)
@ensures
* [inv] final(self).leading() && final(self).only_sent(old(self)) && final(self).leader_state.same_meta(&old(self).leader_state)
* [truthful] final(self).outs(old(self)) && final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: $1,
    msg: PaxosMsg::AcceptStopSign(AcceptStopSign { seq_num: final(self).seq_of($1), n: old(self).prom(), ss: $2 }) }))
* [next] !$3 ==> s_next_seq(old(self).seq_of($1), final(self).seq_of($1))
* [resent] $3 ==> final(self).leader_state.same_seq(&old(self).leader_state)
* [others-kept] final(self).leader_state.follower_seq_nums@ == old(self).leader_state.follower_seq_nums@.update($1 - 1, final(self).seq_of($1))
@end
@fn SequencePaxos::send_decide [decided-monotone, accept-order, write-quorum, agreement, no-panic]
@requires
* old(self).leading() && old(self).promised($1)
* [decided-only] $2 == old(self).sv().decided
@ensures
* [inv] final(self).leading() && final(self).only_sent(old(self)) && final(self).leader_state.same_meta(&old(self).leader_state)
* [truthful] final(self).outs(old(self)) && final(self).outgoing@ == old(self).outgoing@.push(Message::SequencePaxos(PaxosMessage { from: old(self).pid, to: $1,
    msg: PaxosMsg::Decide(Decide { n: old(self).prom(), seq_num: final(self).seq_of($1), decided_idx: $2 }) }))
* [next] !$3 ==> s_next_seq(old(self).seq_of($1), final(self).seq_of($1))
* [resent] $3 ==> final(self).leader_state.same_seq(&old(self).leader_state)
* [others-kept] final(self).leader_state.follower_seq_nums@ == old(self).leader_state.follower_seq_nums@.update($1 - 1, final(self).seq_of($1))
@end
@fn SequencePaxos::handle_majority_promises [leader-recovery, log-sync, decided-monotone, reconfig-seal, accept-order, agreement, no-panic, unicache-roundtrip]
@attr #[verifier::rlimit(40)]
@requires
* old(self).inv() && old(self).lead(Phase::Prepare)
* [read-quorum] s_cnt_prom(old(self).leader_state.promises_meta@) >= s_q_read(old(self).leader_state.quorum)
* [sync-fits] s_sync_ok(old(self).sv(), old(self).prom(), s_dec_max(old(self).leader_state.promises_meta@, old(self).leader_state.max_promise_meta), old(self).leader_state.max_promise_sync)
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).lead(Phase::Accept)
* [adopted] final(self).sv() == old(self).takeover(old(self).leader_state.promises_meta@, old(self).leader_state.max_promise_meta, old(self).leader_state.max_promise_sync)
* [synced-all] forall|i: int| #[trigger] s_prom_at(old(self).leader_state.promises_meta@, old(self).pid, i) ==> (exists|j: int| old(self).outgoing@.len() <= j < final(self).outgoing@.len() && final(self).synced_to(old(self), (i + 1) as NodeId, #[trigger] final(self).outgoing@[j]))
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@head
    hide(s_sync_apply); hide(s_sync_ok); hide(s_sync_is); hide(s_max_dec); hide(s_followers); hide(s_cnt_prom);
    broadcast use bl_sync_fields;
    proof { self.lemma_fol(); lemma_max_dec_bounds(self.leader_state.promises_meta@); }
@loop get_promised_followers
* self.inv0() && self.same_id(old(self)) && self.lead(Phase::Accept) && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* $it.seq() == old(self).fol() && self.fol() == old(self).fol()
* self.leader_state.promises_meta@ == old(self).leader_state.promises_meta@ && self.leader_state.max_promise_meta == old(self).leader_state.max_promise_meta
* self.accdec_last() && self.sv() == old(self).takeover(old(self).leader_state.promises_meta@, old(self).leader_state.max_promise_meta, old(self).leader_state.max_promise_sync)
* forall|k: int| 0 <= k < $i ==> (exists|j: int| old(self).outgoing@.len() <= j < self.outgoing@.len() && self.synced_to(old(self), #[trigger] $it.seq()[k], #[trigger] self.outgoing@[j]))
* forall|k: int| $i <= k < $it.seq().len() ==> self.untouched(old(self), #[trigger] $it.seq()[k])
> proof { self.lemma_fol(); }
> let ghost pre = *self;
< proof { assert forall|k: int| 0 <= k < $i + 1 implies (exists|j: int| old(self).outgoing@.len() <= j < self.outgoing@.len() && self.synced_to(old(self), #[trigger] $it.seq()[k], #[trigger] self.outgoing@[j])) by {
<   if k < $i { let j = choose|j: int| old(self).outgoing@.len() <= j < pre.outgoing@.len() && pre.synced_to(old(self), $it.seq()[k], #[trigger] pre.outgoing@[j]); assert(self.outgoing@[j] == pre.outgoing@[j]); assert(self.synced_to(old(self), $it.seq()[k], self.outgoing@[j])); }
<   else { let j = self.outgoing@.len() - 1; assert(self.synced_to(old(self), $it.seq()[k], self.outgoing@[j])); } } }
@end
@fn SequencePaxos::handle_promise_prepare [leader-recovery, log-sync, ballot-fencing, agreement, no-panic]
@requires
* old(self).inv() && old(self).lead(Phase::Prepare)
* [env] old(self).is_peer($2) && $1.decided_idx <= $1.accepted_idx
* [env-sync-fits] $1.n == old(self).prom() ==> ({
    let ps = old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::Promised(s_pmeta($1, $2)));
    let better = s_pm_cmp(s_pmeta($1, $2), old(self).leader_state.max_promise_meta) == Ordering::Greater;
    let mx = if better { s_pmeta($1, $2) } else { old(self).leader_state.max_promise_meta };
    let sy = if better { $1.log_sync } else { old(self).leader_state.max_promise_sync };
    s_cnt_prom(ps) >= s_q_read(old(self).leader_state.quorum) ==> s_sync_ok(old(self).sv(), old(self).prom(), s_dec_max(ps, mx), sy) })
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self))
* [fenced] $1.n != old(self).prom() ==> *final(self) == *old(self)
* [waits-for-read-quorum] $1.n == old(self).prom() ==> ({
    let ps = old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::Promised(s_pmeta($1, $2)));
    (s_cnt_prom(ps) >= s_q_read(old(self).leader_state.quorum) <==> final(self).lead(Phase::Accept))
    && (s_cnt_prom(ps) < s_q_read(old(self).leader_state.quorum) ==> final(self).internal_storage == old(self).internal_storage && final(self).outgoing@ == old(self).outgoing@ && final(self).lead(Phase::Prepare)) })
* [adopts-most-recent] final(self).lead(Phase::Accept) ==> ({
    let ps = old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::Promised(s_pmeta($1, $2)));
    let better = s_pm_cmp(s_pmeta($1, $2), old(self).leader_state.max_promise_meta) == Ordering::Greater;
    let mx = if better { s_pmeta($1, $2) } else { old(self).leader_state.max_promise_meta };
    let sy = if better { $1.log_sync } else { old(self).leader_state.max_promise_sync };
    &&& (forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]) is Promised ==> s_pm_cmp(ps[i]->Promised_0, mx) != Ordering::Greater)
    &&& final(self).sv() == old(self).takeover(ps, mx, sy) })
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_promise_accept [log-sync, ballot-fencing, accept-order, agreement, no-panic]
@requires
* old(self).inv() && old(self).lead(Phase::Accept)
* [env] old(self).is_peer($2) && $1.decided_idx <= $1.accepted_idx
* [env-decided-adopted] $1.n == old(self).prom() && $1.n_accepted == old(self).leader_state.max_promise_meta.n_accepted ==> $1.decided_idx <= old(self).leader_state.max_promise_meta.accepted_idx
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).internal_storage == old(self).internal_storage && final(self).state == old(self).state
* [fenced] $1.n != old(self).prom() ==> *final(self) == *old(self)
* [synced] $1.n == old(self).prom() ==> final(self).outgoing@ == old(self).outgoing@.push(final(self).outgoing@.last()) && final(self).leader_state.promises_meta@ == old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::Promised(s_pmeta($1, $2)))
    && final(self).leader_state.same_acc(&old(self).leader_state) && final(self).leader_state.max_promise_meta == old(self).leader_state.max_promise_meta
    && ({ let m = final(self).outgoing@.last(); m is SequencePaxos && m->SequencePaxos_0.from == old(self).pid && m->SequencePaxos_0.to == $2 && m->SequencePaxos_0.msg is AcceptSync && ({
        let a = m->SequencePaxos_0.msg->AcceptSync_0;
        &&& a.n == old(self).prom() && a.decided_idx == old(self).sv().decided
        &&& a.seq_num.session == old(self).seq_of($2).session + 1 && a.seq_num.counter == 1 && final(self).seq_of($2) == a.seq_num
        &&& final(self).meta_of($2) is None
        &&& s_sync_is(old(self).sv(), s_valid_idx(old(self).prom(), s_pmeta($1, $2), old(self).leader_state.max_promise_meta), if old(self).seq_of($2).session > 0 { 0 } else { $1.decided_idx as int }, a.log_sync) }) })
* [truthful] final(self).outs(old(self))
@end
@fn SequencePaxos::handle_accepted [write-quorum, decided-monotone, ballot-fencing, agreement, leader-recovery, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($2) && ($1.n == old(self).prom() && old(self).lead(Phase::Accept) ==> $1.accepted_idx <= old(self).sv().accepted())
@ensures
* [durable-state-monotone] old(self).sv().step(final(self).sv())
* [accepts-promised-round] old(self).sv().accepts(final(self).sv())
* [client-entries-kept] final(self).keeps(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state && final(self).batch() == old(self).batch()
* [fenced] !($1.n == old(self).leader_state.n_leader && old(self).lead(Phase::Accept)) ==> *final(self) == *old(self)
* [recorded] $1.n == old(self).leader_state.n_leader && old(self).lead(Phase::Accept) ==> final(self).leader_state.accepted_indexes@ == old(self).leader_state.accepted_indexes@.update($2 - 1, $1.accepted_idx)
    && final(self).leader_state.same_prom(&old(self).leader_state) && final(self).leader_state.same_cfg(&old(self).leader_state)
* [decided-iff-write-quorum] $1.n == old(self).leader_state.n_leader && old(self).lead(Phase::Accept) ==> final(self).sv() == (SV { decided:
    if $1.accepted_idx > old(self).sv().decided && s_cnt_ge(old(self).leader_state.accepted_indexes@.update($2 - 1, $1.accepted_idx), $1.accepted_idx as int) >= s_q_write(old(self).leader_state.quorum) { $1.accepted_idx as int } else { old(self).sv().decided }, ..old(self).sv() })
* [told-all] final(self).sv().decided > old(self).sv().decided ==> (forall|i: int| #[trigger] s_prom_at(old(self).leader_state.promises_meta@, old(self).pid, i) ==> final(self).told(old(self), (i + 1) as NodeId))
* [quiet] final(self).sv().decided == old(self).sv().decided ==> final(self).outgoing@ == old(self).outgoing@
* [truthful] final(self).outs(old(self))
@head
    proof { self.lemma_fol(); }
@loop get_promised_followers
* self.inv() && self.lead(Phase::Accept) && self.same_id(old(self)) && self.batch() == old(self).batch() && self.outs(old(self))
* self.sv() == (SV { decided: $1.accepted_idx as int, ..old(self).sv() }) && self.same_bufs(old(self))
* self.leader_state.accepted_indexes@ == old(self).leader_state.accepted_indexes@.update($2 - 1, $1.accepted_idx)
* self.leader_state.same_prom(&old(self).leader_state) && self.leader_state.same_cfg(&old(self).leader_state)
* $it.seq() == old(self).fol() && self.fol() == old(self).fol()
* forall|k: int| 0 <= k < $i ==> self.told(old(self), #[trigger] $it.seq()[k])
* forall|k: int| $i <= k < $it.seq().len() ==> self.untouched(old(self), #[trigger] $it.seq()[k])
> proof { self.lemma_fol(); }
> let ghost pre = *self;
< proof { assert forall|k: int| 0 <= k < $i + 1 implies self.told(old(self), #[trigger] $it.seq()[k]) by {
<   let p = $it.seq()[k];
<   if old(self).meta_of(p) is None {
<     let m = Message::<T>::SequencePaxos(PaxosMessage { from: self.pid, to: p, msg: PaxosMsg::Decide(Decide { n: self.prom(), seq_num: self.seq_of(p), decided_idx: self.sv().decided as usize }) });
<     if k < $i { let j = choose|j: int| old(self).outgoing@.len() <= j < pre.outgoing@.len() && #[trigger] pre.outgoing@[j] == m; assert(self.outgoing@[j] == m); }
<     else { let j = self.outgoing@.len() - 1; assert(self.outgoing@[j] == m); } } } }
@end
@fn SequencePaxos::get_latest_accdec_message [accept-order, no-panic, unicache-roundtrip]
@requires
* old(self).leader_state.wf() && old(self).leader_state.pid_ok($1) && old(self).meta_ok()
@ensures
* [none] old(self).meta_of($1) is None ==> res is None && *final(self) == *old(self)
* [some] old(self).meta_of($1) is Some ==> res is Some && ({
    let i = old(self).meta_of($1)->Some_0.1 as int;
    &&& *res->Some_0 == s_accdec(old(self).outgoing@[i])
    &&& final(self).outgoing@ == old(self).outgoing@.update(i, Message::SequencePaxos(PaxosMessage { msg: PaxosMsg::AcceptDecide(*final(res->Some_0)), ..old(self).outgoing@[i]->SequencePaxos_0 }))
    &&& final(self).only_out(old(self)) })
@end
@fn SequencePaxos::handle_notaccepted [leader-recovery, ballot-fencing, no-panic]
@requires
* old(self).inv()
* [env] old(self).is_peer($2)
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).internal_storage == old(self).internal_storage && final(self).state == old(self).state && final(self).outgoing@ == old(self).outgoing@
* [lost] old(self).state.0 == Role::Leader && s_blt(old(self).leader_state.n_leader, $1.n) ==> final(self).leader_state.promises_meta@ == old(self).leader_state.promises_meta@.update($2 - 1, PromiseState::PromisedHigher)
* [stale] !(old(self).state.0 == Role::Leader && s_blt(old(self).leader_state.n_leader, $1.n)) ==> *final(self) == *old(self)
@end
@fn SequencePaxos::resend_messages_leader [accept-order, reconfig-seal, no-panic]
@requires
* old(self).inv() && old(self).state.0 == Role::Leader
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).only_sent(old(self)) && final(self).leader_state.same_seq(&old(self).leader_state) && final(self).leader_state.same_meta(&old(self).leader_state)
* [truthful] final(self).outs(old(self)) && old(self).outgoing@.is_prefix_of(final(self).outgoing@)
@head
    proof { self.lemma_fol(); }
@loop preparable_peers
* self.inv() && self.only_sent(old(self)) && self.state.0 == Role::Leader && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* self.leader_state.same_seq(&old(self).leader_state) && self.leader_state.same_meta(&old(self).leader_state)
* forall|k: int| 0 <= k < $it.seq().len() ==> self.is_peer(#[trigger] $it.seq()[k])
@loop get_promised_followers
* self.inv() && self.lead(Phase::Accept) && self.only_sent(old(self)) && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* self.leader_state.same_seq(&old(self).leader_state) && self.leader_state.same_meta(&old(self).leader_state)
* $it.seq() == old(self).fol() && self.fol() == old(self).fol()
> proof { self.lemma_fol(); }
@loop preparable_peers
* self.inv() && self.only_sent(old(self)) && self.state.0 == Role::Leader && self.outs(old(self)) && old(self).outgoing@.is_prefix_of(self.outgoing@)
* self.leader_state.same_seq(&old(self).leader_state) && self.leader_state.same_meta(&old(self).leader_state)
* forall|k: int| 0 <= k < $it.seq().len() ==> self.is_peer(#[trigger] $it.seq()[k])
@end
@fn SequencePaxos::flush_batch_leader [batching, accept-order, write-quorum, agreement, no-panic, unicache-roundtrip]
@requires
* old(self).inv() && old(self).lead(Phase::Accept)
@ensures
* [client-entries-kept] final(self).same_bufs(old(self))
* [inv] final(self).inv() && final(self).same_id(old(self)) && final(self).state == old(self).state
* [flushed] final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), ..old(self).sv() }) && final(self).batch().len() == 0
* [sent] old(self).batch().len() > 0 ==> final(self).sent_all(old(self), s_wire(old(self).internal_storage.uc(), old(self).batch())) && final(self).internal_storage.enc_uc(&old(self).internal_storage, old(self).batch())
* [truthful] final(self).outs(old(self))
@end
