// ---- configuration and the OmniPaxos server ----
@verus
impl ClusterConfig {
    pub open spec fn valid(&self) -> bool {
        &&& self.nodes@.len() > 1
        &&& self.configuration_id != 0
        &&& forall|i: int| 0 <= i < self.nodes@.len() ==> #[trigger] self.nodes@[i] != 0
        &&& self.nodes@.no_duplicates()
        &&& (self.flexible_quorum is Some ==> ({ let q = self.flexible_quorum->Some_0;
                q.read_quorum_size + q.write_quorum_size > self.nodes@.len()
                && 2 <= q.read_quorum_size <= self.nodes@.len() && 2 <= q.write_quorum_size <= self.nodes@.len()
                && q.read_quorum_size >= q.write_quorum_size }))
    }
}
impl ServerConfig {
    pub open spec fn valid(&self) -> bool { self.pid != 0 && self.buffer_size != 0 && self.batch_size != 0 && self.election_tick_timeout != 0 && self.resend_message_tick_timeout != 0 }
}
impl OmniPaxosConfig {
    pub open spec fn valid(&self) -> bool { self.cluster_config.valid() && self.server_config.valid() && self.cluster_config.nodes@.contains(self.server_config.pid) }
}
// every read quorum intersects every write quorum of an accepted configuration of n servers
pub open spec fn s_quorums_intersect(q: Quorum, n: int) -> bool { s_q_read(q) + s_q_write(q) > n && 1 <= s_q_write(q) <= n && 1 <= s_q_read(q) <= n }
pub proof fn lemma_quorum_intersection(r: Set<NodeId>, w: Set<NodeId>, all: Set<NodeId>, q: Quorum)
    requires all.finite(), r.subset_of(all), w.subset_of(all), s_quorums_intersect(q, all.len() as int), r.len() >= s_q_read(q), w.len() >= s_q_write(q)
    ensures exists|p: NodeId| r.contains(p) && w.contains(p)
{
    vstd::set_lib::lemma_len_subset(r, all); vstd::set_lib::lemma_len_subset(w, all);
    if r.disjoint(w) {
        vstd::set_lib::lemma_set_disjoint_lens(r, w);
        assert((r + w).subset_of(all));
        vstd::set_lib::lemma_len_subset(r + w, all);
        assert(false);
    }
}
impl<T: Entry, B: Storage<T>> OmniPaxos<T, B> {
    pub open spec fn inv(&self) -> bool {
        &&& self.seq_paxos.inv()
        &&& self.ble.inv()
        &&& self.ble.pid == self.seq_paxos.pid
        &&& (self.seq_paxos.prom().pid == self.seq_paxos.pid ==> self.seq_paxos.prom().config_id == self.ble.configuration_id)
    }
    pub open spec fn same_id(&self, o: &Self) -> bool { self.seq_paxos.same_id(&o.seq_paxos) && self.ble.same_id(&o.ble) }
    pub open spec fn sv(&self) -> SV<T> { self.seq_paxos.sv() }
    pub open spec fn step(&self, o: &Self) -> bool { o.sv().step(self.sv()) && o.sv().accepts(self.sv()) && self.inv() && self.same_id(o) }
}
@end
@fn ClusterConfig::validate [quorum-config]
@ensures
* [accepted-iff-valid] res is Ok <==> self.valid()
@loop self.nodes
* self.nodes@.len() > 1 && (forall|i: int| 0 <= i < self.nodes@.len() ==> #[trigger] self.nodes@[i] != 0)
* $n == $i
* forall|a: int, b: int| 0 <= a < b < $i ==> self.nodes@[a] != self.nodes@[b]
< proof { assert forall|a: int| 0 <= a < $i implies #[trigger] self.nodes@[a] != self.nodes@[$i] by { assert(self.nodes@.take($i)[a] == self.nodes@[a]); } }
@end
@fn ServerConfig::validate [quorum-config]
@ensures
* [accepted-iff-valid] res is Ok <==> self.valid()
@end
@fn OmniPaxosConfig::validate [quorum-config]
@ensures
* [accepted-iff-valid] res is Ok <==> self.valid()
@end
@fn OmniPaxosConfig::build [quorum-config, restart-recovery, leader-election, no-panic]
@requires
* $1.swf() && $1.view().ok()
* [own-storage] s_bor($1.view().promise).pid == 0 || self.cluster_config.nodes@.contains(s_bor($1.view().promise).pid)
* [own-storage-config] s_bor($1.view().promise).pid == self.server_config.pid ==> s_bor($1.view().promise).config_id == self.cluster_config.configuration_id
@ensures
* [refused-iff-invalid] res is Ok <==> self.valid()
* [inv] res is Ok ==> res->Ok_0.inv()
* [quorums-intersect] res is Ok ==> s_quorums_intersect(res->Ok_0.seq_paxos.leader_state.quorum, self.cluster_config.nodes@.len() as int) && s_quorums_intersect(res->Ok_0.ble.quorum, self.cluster_config.nodes@.len() as int)
* [majority-default] res is Ok && self.cluster_config.flexible_quorum is None ==> s_q_read(res->Ok_0.seq_paxos.leader_state.quorum) == self.cluster_config.nodes@.len() / 2 + 1
* [nothing-lost] res is Ok ==> res->Ok_0.sv() == (SV { promise: Some(s_bor($1.view().promise)), ..$1.view() })
* [does-not-lead] res is Ok ==> res->Ok_0.seq_paxos.state.0 == Role::Follower && ($1.view().promise is Some ==> res->Ok_0.seq_paxos.follow(Phase::Recover))
* [recovered-ballot] res is Ok && $1.view().promise is Some && $1.view().promise->Some_0 != s_bdefault() ==> res->Ok_0.ble.leader == $1.view().promise->Some_0 && res->Ok_0.ble.current_ballot.n == 0
@head
    proof { lemma_others(self.cluster_config.nodes@, self.server_config.pid); }
@end
@fn ClusterConfig::build_for_server [quorum-config, restart-recovery]
@requires
* $2.swf() && $2.view().ok()
* [own-storage] s_bor($2.view().promise).pid == 0 || self.nodes@.contains(s_bor($2.view().promise).pid)
* [own-storage-config] s_bor($2.view().promise).pid == $1.pid ==> s_bor($2.view().promise).config_id == self.configuration_id
@ensures
* [refused-iff-invalid] res is Ok <==> (self.valid() && $1.valid() && self.nodes@.contains($1.pid))
* [inv] res is Ok ==> res->Ok_0.inv()
* [nothing-lost] res is Ok ==> res->Ok_0.sv() == (SV { promise: Some(s_bor($2.view().promise)), ..$2.view() })
@end
@fn OmniPaxos::trim [compaction-safe, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [leader-only] old(self).seq_paxos.state.0 != Role::Leader ==> res == Err::<(), CompactionErr>(CompactionErr::NotCurrentLeader(old(self).seq_paxos.prom().pid))
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv()
* [accepted-by-all] final(self).sv().trim > old(self).sv().trim ==> (forall|i: int| 0 <= i < old(self).seq_paxos.leader_state.max_pid ==> final(self).sv().trim <= #[trigger] old(self).seq_paxos.leader_state.accepted_indexes@[i])
@end
@fn OmniPaxos::snapshot [compaction-safe, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv()
@end
@fn OmniPaxos::get_decided_idx [read-correct, decided-monotone]
@requires
* self.inv()
@ensures
* [value] res == self.sv().decided
@end
@fn OmniPaxos::get_compacted_idx [compaction-safe, read-correct]
@requires
* self.inv()
@ensures
* [value] res == self.sv().compacted
@end
@fn OmniPaxos::get_current_leader [leader-election]
@requires
* self.inv()
@ensures
* [promised-server] res == (if self.seq_paxos.prom().pid == 0 { None } else { Some((self.seq_paxos.prom().pid, self.seq_paxos.state.1 == Phase::Accept)) })
@end
@fn OmniPaxos::get_promise [promise-durability]
@requires
* self.inv()
@ensures
* [value] res == self.seq_paxos.prom()
@end
@fn OmniPaxos::take_outgoing_messages [accept-order, leader-election, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self)) && final(self).sv() == old(self).sv()
* [each-once-in-order] final($1)@ == old($1)@ + old(self).seq_paxos.outgoing@ + Seq::new(old(self).ble.outgoing@.len(), |i: int| Message::<T>::BLE(old(self).ble.outgoing@[i]))
    && final(self).seq_paxos.outgoing@.len() == 0 && final(self).ble.outgoing@.len() == 0
@loop ::TY Vec<Message<T>>
* $acc@ == Seq::new($i as nat, |i: int| Message::<T>::BLE(old(self).ble.outgoing@[i]))
* $it.seq() == old(self).ble.outgoing@
* self.seq_paxos.inv()
@end
@fn OmniPaxos::read [read-correct, no-panic]
@requires
* self.inv()
@ensures
* [compacted] $1 < self.sv().trim ==> res == Some(s_compacted_entry(self.sv()))
* [entry] self.sv().trim <= $1 < self.sv().end() ==> res == Some(if $1 < self.sv().decided { LogEntry::Decided(self.sv().log[$1 - self.sv().trim]) } else { LogEntry::Undecided(self.sv().log[$1 - self.sv().trim]) })
* [stopsign] self.sv().stopsign is Some && $1 == self.sv().end() ==> res == Some(LogEntry::<T>::StopSign(self.sv().stopsign->Some_0, self.sv().ss_decided()))
* [beyond] $1 >= self.sv().accepted() ==> res is None
@end
@fn OmniPaxos::read_entries [read-correct, no-panic]
@requires
* self.inv()
@ensures
* [read] s_rfrom($1.spec_start_bound()) <= s_rto($1.spec_end_bound(), self.sv().accepted()) ==> ({
    let r = s_read_spec(self.sv(), s_rfrom($1.spec_start_bound()), s_rto($1.spec_end_bound(), self.sv().accepted()));
    if r is None { res is None } else { res is Some && res->Some_0@ == r->Some_0 } })
@end
@fn OmniPaxos::read_decided_suffix [read-correct, no-panic]
@requires
* self.inv()
@ensures
* [suffix] $1 < self.sv().decided ==> s_read_spec(self.sv(), $1 as int, self.sv().decided) is Some
    && res is Some && res->Some_0@ == s_read_spec(self.sv(), $1 as int, self.sv().decided)->Some_0
* [nothing-new] $1 >= self.sv().decided ==> res is None
@end
@fn OmniPaxos::handle_incoming [agreement, ballot-fencing, decided-monotone, promise-durability, leader-election, no-panic]
@requires
* old(self).inv()
* [env] $1 is SequencePaxos ==> old(self).seq_paxos.env($1->SequencePaxos_0)
@ensures
* [step] final(self).step(old(self))
* [fenced] $1 is SequencePaxos && old(self).seq_paxos.fenced($1->SequencePaxos_0) ==> final(self).seq_paxos.internal_storage == old(self).seq_paxos.internal_storage
* [heartbeats-touch-no-log] $1 is BLE ==> final(self).seq_paxos == old(self).seq_paxos
@end
@fn OmniPaxos::is_reconfigured [reconfig-seal]
@requires
* self.inv()
@ensures
* [iff-decided] res == (if self.sv().ss_decided() { self.sv().stopsign } else { None })
@end
@fn OmniPaxos::append [reconfig-seal, accept-order, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [sealed] old(self).sv().stopsign is Some ==> res == Err::<(), ProposeErr<T>>(ProposeErr::PendingReconfigEntry($1)) && final(self).seq_paxos == old(self).seq_paxos
* [proposed] old(self).sv().stopsign is None ==> res is Ok && final(self).seq_paxos.propose_res(&old(self).seq_paxos, seq![$1])
@end
@fn OmniPaxos::reconfigure [reconfig-seal, quorum-config, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [invalid-refused] !$1.valid() ==> res is Err && res->Err_0 is ConfigError && res->Err_0->ConfigError_1 == $1 && res->Err_0->ConfigError_2 == $2 && *final(self) == *old(self)
* [sealed] $1.valid() && old(self).sv().stopsign is Some ==> res == Err::<(), ProposeErr<T>>(ProposeErr::PendingReconfigConfig($1, $2)) && *final(self) == *old(self)
* [proposed] $1.valid() && old(self).sv().stopsign is None ==> res is Ok
@end
@fn OmniPaxos::reconnected [accept-order, no-panic]
@requires
* old(self).inv()
* [env] old(self).seq_paxos.is_peer($1)
@ensures
* [step] final(self).step(old(self)) && final(self).sv() == old(self).sv()
@end
@fn OmniPaxos::tick [leader-election, batching, promise-durability, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
@end
@fn OmniPaxos::try_become_leader [leader-election, promise-durability, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [own-higher-ballot] final(self).seq_paxos.prom().pid == old(self).seq_paxos.pid && s_blt(old(self).seq_paxos.prom(), final(self).seq_paxos.prom())
@end
@fn OmniPaxos::set_priority [leader-election]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self)) && final(self).seq_paxos == old(self).seq_paxos && final(self).ble.leader == old(self).ble.leader
@end
@fn OmniPaxos::election_timeout [leader-election, promise-durability, no-panic]
@requires
* old(self).inv()
@ensures
* [step] final(self).step(old(self))
* [own-elected-ballot-only] final(self).seq_paxos.prom() != old(self).seq_paxos.prom() ==> final(self).seq_paxos.prom().pid == old(self).ble.pid && final(self).seq_paxos.prom() == final(self).ble.leader && final(self).ble.leader == final(self).ble.current_ballot
* [leader-monotone] s_ble(old(self).ble.leader, final(self).ble.leader)
@end
