// ---- ballot leader election ----
@verus
// the highest ballot among the replies and b
pub open spec fn s_top(b: Ballot, s: Seq<HeartbeatReply>) -> Ballot decreases s.len()
{ if s.len() == 0 { b } else { let t = s_top(b, s.drop_last()); if s_blt(t, s.last().ballot) { s.last().ballot } else { t } } }
// how many replies name a leader that is not above b
pub open spec fn s_cnt_followers(s: Seq<HeartbeatReply>, b: Ballot) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { s_cnt_followers(s.drop_last(), b) + (if s_ble(s.last().leader, b) { 1nat } else { 0nat }) } }
pub proof fn lemma_top(b: Ballot, s: Seq<HeartbeatReply>)
    ensures
        s_ble(b, s_top(b, s)),
        forall|i: int| 0 <= i < s.len() ==> s_ble(#[trigger] s[i].ballot, s_top(b, s)),
        s_top(b, s) == b || (exists|i: int| 0 <= i < s.len() && #[trigger] s[i].ballot == s_top(b, s)),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_top(b, s.drop_last());
        let t = s_top(b, s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies s_ble(#[trigger] s[i].ballot, s_top(b, s)) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
        if s_top(b, s) != b {
            if s_blt(t, s.last().ballot) { assert(s[s.len() - 1].ballot == s_top(b, s)); }
            else { let i = choose|i: int| 0 <= i < s.drop_last().len() && #[trigger] s.drop_last()[i].ballot == t; assert(s[i].ballot == t); }
        }
    }
}
pub open spec fn s_hb_req(pid: NodeId, to: NodeId, r: u32) -> BLEMessage { BLEMessage { from: pid, to: to, msg: HeartbeatMsg::Request(HeartbeatRequest { round: r }) } }
impl BallotLeaderElection {
    pub open spec fn inv(&self) -> bool {
        &&& self.current_ballot.pid == self.pid
        &&& self.current_ballot.config_id == self.configuration_id
        &&& forall|i: int| 0 <= i < self.heartbeat_replies@.len() ==> (#[trigger] self.heartbeat_replies@[i]).round == self.hb_round && self.heartbeat_replies@[i].ballot.config_id == self.configuration_id
    }
    pub open spec fn same_id(&self, o: &Self) -> bool { self.pid == o.pid && self.peers@ == o.peers@ && self.configuration_id == o.configuration_id && self.quorum == o.quorum }
    // the highest ballot this server has seen by the end of the round
    pub open spec fn seen(&self) -> Ballot { s_top(self.leader, self.heartbeat_replies@) }
    pub open spec fn sees_happy_leader(&self, l: Ballot) -> bool { exists|i: int| 0 <= i < self.heartbeat_replies@.len() && (#[trigger] self.heartbeat_replies@[i]).happy && self.heartbeat_replies@[i].ballot == l }
    pub open spec fn sees_larger_leader(&self) -> bool { exists|i: int| 0 <= i < self.heartbeat_replies@.len() && (#[trigger] self.heartbeat_replies@[i]).happy && s_blt(self.current_ballot, self.heartbeat_replies@[i].leader) }
    // the server can rely on leader l: it leads with enough followers, or a live leader is seen
    pub open spec fn content(&self, l: Ballot, st: (Role, Phase)) -> bool {
        if l == self.current_ballot {
            s_cnt_followers(self.heartbeat_replies@, self.current_ballot) + 1 >= (if st == (Role::Leader, Phase::Accept) { s_q_write(self.quorum) } else { s_q_read(self.quorum) })
            || self.sees_larger_leader()
        } else { self.sees_happy_leader(l) }
    }
    // nobody reachable has a leader, and the server is connected to a read quorum
    pub open spec fn may_take_over(&self) -> bool {
        (forall|i: int| 0 <= i < self.heartbeat_replies@.len() ==> !(#[trigger] self.heartbeat_replies@[i]).happy)
        && self.heartbeat_replies@.len() + 1 >= s_q_read(self.quorum)
    }
    pub open spec fn takes_over(&self, st: (Role, Phase)) -> bool { !self.content(self.seen(), st) && self.may_take_over() }
    pub open spec fn bumped(&self) -> Ballot { Ballot { n: (self.seen().n + 1) as u32, ..self.current_ballot } }
    // leader and own ballot after the round, before they are aligned with the promise of Sequence Paxos
    pub open spec fn elected(&self, st: (Role, Phase)) -> Ballot { if self.takes_over(st) { self.bumped() } else { self.seen() } }
}
impl vstd::std_specs::convert::FromSpecImpl<OmniPaxosConfig> for BLEConfig {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: OmniPaxosConfig) -> Self { arbitrary() }
}
@end
@fn BallotLeaderElection::with [leader-election, restart-recovery, quorum-config, no-panic]
@ensures
* [inv] res.inv() && res.pid == $1.pid && res.configuration_id == $1.configuration_id && res.peers@ == $1.peers@
* [quorums] ($1.flexible_quorum is Some ==> s_q_read(res.quorum) == $1.flexible_quorum->Some_0.read_quorum_size && s_q_write(res.quorum) == $1.flexible_quorum->Some_0.write_quorum_size)
    && ($1.flexible_quorum is None ==> s_q_read(res.quorum) == ($1.peers@.len() + 1) / 2 + 1 && s_q_write(res.quorum) == ($1.peers@.len() + 1) / 2 + 1)
* [recovered-server-does-not-lead] $2 is Some && $2->Some_0 != s_bdefault() ==> res.leader == $2->Some_0 && res.current_ballot.n == 0
* [fresh-server] $2 is None || $2->Some_0 == s_bdefault() ==> res.leader == res.current_ballot && res.current_ballot.n == 1
* [priority] res.current_ballot.priority == $1.priority
* [first-round] res.hb_round == 1 && res.heartbeat_replies@.len() == 0
@end
@fn BallotLeaderElection::set_priority [leader-election]
@ensures
* [only-priority] *final(self) == (BallotLeaderElection { current_ballot: Ballot { priority: $1, ..old(self).current_ballot }, ..*old(self) })
@end
@fn BallotLeaderElection::outgoing_mut [leader-election]
@ensures
* [buffer] *res == old(self).outgoing && *final(self) == (BallotLeaderElection { outgoing: *final(res), ..*old(self) })
@end
@fn BallotLeaderElection::handle [leader-election, no-panic]
@requires
* old(self).inv()
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self))
* [ballots-unchanged] final(self).leader == old(self).leader && final(self).current_ballot == old(self).current_ballot && final(self).happy == old(self).happy && final(self).hb_round == old(self).hb_round
* [only-this-round] final(self).heartbeat_replies@ == (if $1.msg is Reply && $1.msg->Reply_0.round == old(self).hb_round && $1.msg->Reply_0.ballot.config_id == old(self).configuration_id { old(self).heartbeat_replies@.push($1.msg->Reply_0) } else { old(self).heartbeat_replies@ })
* [answers] $1.msg is Request ==> final(self).outgoing@ == old(self).outgoing@.push(BLEMessage { from: old(self).pid, to: $1.from,
    msg: HeartbeatMsg::Reply(HeartbeatReply { round: $1.msg->Request_0.round, ballot: old(self).current_ballot, leader: old(self).leader, happy: old(self).happy }) })
* [no-other-messages] $1.msg is Reply ==> final(self).outgoing@ == old(self).outgoing@
@end
@fn BallotLeaderElection::new_hb_round [leader-election, no-panic]
@ensures
* [frame] *final(self) == (BallotLeaderElection { prev_replies: final(self).prev_replies, heartbeat_replies: final(self).heartbeat_replies, hb_round: final(self).hb_round, outgoing: final(self).outgoing, ..*old(self) })
* [forgets-old-replies] final(self).heartbeat_replies@.len() == 0 && final(self).hb_round == old(self).hb_round + 1
* [asks-everyone] final(self).outgoing@ == old(self).outgoing@ + Seq::new(old(self).peers@.len(), |i: int| s_hb_req(old(self).pid, old(self).peers@[i], final(self).hb_round))
@head
    broadcast use group_lists;
@loop self.peers
* *self == (BallotLeaderElection { prev_replies: self.prev_replies, heartbeat_replies: self.heartbeat_replies, hb_round: self.hb_round, outgoing: self.outgoing, ..*old(self) })
* self.heartbeat_replies@.len() == 0 && self.hb_round == old(self).hb_round + 1
* self.outgoing@ =~= old(self).outgoing@ + Seq::new($i as nat, |i: int| s_hb_req(old(self).pid, old(self).peers@[i], self.hb_round))
@end
@fn BallotLeaderElection::hb_timeout [leader-election, no-panic]
@requires
* old(self).inv()
* [own-promise] $2.pid == old(self).pid ==> $2.config_id == old(self).configuration_id
@ensures
* [inv] final(self).inv() && final(self).same_id(old(self))
* [own-ballot-only] res is Some ==> res->Some_0.pid == old(self).pid && res->Some_0 == final(self).current_ballot
* [reports-leadership] res is Some <==> final(self).leader == final(self).current_ballot
* [leader-monotone] s_ble(old(self).leader, final(self).leader) && s_ble($2, final(self).leader)
    && (forall|i: int| 0 <= i < old(self).heartbeat_replies@.len() ==> s_ble(#[trigger] old(self).heartbeat_replies@[i].ballot, final(self).leader))
* [leader] final(self).leader == (if s_blt(old(self).elected(*$1), $2) { $2 } else { old(self).elected(*$1) })
* [own-ballot] final(self).current_ballot == (if s_blt(old(self).elected(*$1), $2) && $2.pid == old(self).pid { $2 } else if old(self).takes_over(*$1) { old(self).bumped() } else { old(self).current_ballot })
* [happy] final(self).happy == (old(self).content(old(self).seen(), *$1) || old(self).takes_over(*$1) || s_blt(old(self).elected(*$1), $2))
* [new-round] final(self).heartbeat_replies@.len() == 0 && final(self).hb_round == old(self).hb_round + 1
    && final(self).outgoing@ == old(self).outgoing@ + Seq::new(old(self).peers@.len(), |i: int| s_hb_req(old(self).pid, old(self).peers@[i], final(self).hb_round))
@head
    proof { lemma_top(self.leader, self.heartbeat_replies@); }
@end
@fn BallotLeaderElection::update_leader [leader-election]
@requires
* old(self).inv()
@ensures
* [highest-seen] *final(self) == (BallotLeaderElection { leader: old(self).seen(), ..*old(self) })
@head
    broadcast use group_lists;
    proof { lemma_top(self.leader, self.heartbeat_replies@); }
@loop ::TY Option<Ballot>
* $i == 0 ==> $acc is None
* $i > 0 ==> $acc is Some
* $acc is Some ==> $acc->Some_0.config_id == self.configuration_id
* s_top(self.leader, self.heartbeat_replies@.take($i)) == (if $acc is Some && s_blt(self.leader, $acc->Some_0) { $acc->Some_0 } else { self.leader })
@end
@fn BallotLeaderElection::update_happiness [leader-election]
@ensures
* [content] *final(self) == (BallotLeaderElection { happy: old(self).content(old(self).leader, *$1), ..*old(self) })
@head
    broadcast use group_lists;
@loop
* $acc == s_cnt_followers(self.heartbeat_replies@.take($i), self.current_ballot)
@loop
* $acc <==> exists|i: int| 0 <= i < $i && (#[trigger] self.heartbeat_replies@[i]).happy && s_blt(self.current_ballot, self.heartbeat_replies@[i].leader)
< proof { assert(self.heartbeat_replies@[$i] == self.heartbeat_replies@[$i]); }
@loop
* $acc <==> exists|i: int| 0 <= i < $i && (#[trigger] self.heartbeat_replies@[i]).happy && self.heartbeat_replies@[i].ballot == self.leader
< proof { assert(self.heartbeat_replies@[$i] == self.heartbeat_replies@[$i]); }
@end
@fn BallotLeaderElection::check_takeover [leader-election]
@ensures
* [take-over-iff] *final(self) == (if !old(self).happy && old(self).may_take_over() {
        BallotLeaderElection { current_ballot: Ballot { n: (old(self).leader.n + 1) as u32, ..old(self).current_ballot }, leader: Ballot { n: (old(self).leader.n + 1) as u32, ..old(self).current_ballot }, happy: true, ..*old(self) }
    } else { *old(self) })
* [higher] !old(self).happy && old(self).may_take_over() ==> final(self).leader.n == old(self).leader.n + 1
@loop
* $acc <==> exists|i: int| 0 <= i < $i && (#[trigger] self.heartbeat_replies@[i]).happy
< proof { assert(self.heartbeat_replies@[$i] == self.heartbeat_replies@[$i]); }
@end
@fn BallotLeaderElection::handle_request [leader-election]
@ensures
* [truthful] final(self).outgoing@ == old(self).outgoing@.push(BLEMessage { from: old(self).pid, to: $1, msg: HeartbeatMsg::Reply(HeartbeatReply { round: $2.round, ballot: old(self).current_ballot, leader: old(self).leader, happy: old(self).happy }) })
    && *final(self) == (BallotLeaderElection { outgoing: final(self).outgoing, ..*old(self) })
@end
@fn BallotLeaderElection::handle_reply [leader-election]
@ensures
* [only-this-round] final(self).heartbeat_replies@ == (if $1.round == old(self).hb_round && $1.ballot.config_id == old(self).configuration_id { old(self).heartbeat_replies@.push($1) } else { old(self).heartbeat_replies@ })
    && *final(self) == (BallotLeaderElection { heartbeat_replies: final(self).heartbeat_replies, ..*old(self) })
@end
@fn BallotLeaderElection::get_current_ballot [leader-election]
@ensures
* [value] res == self.current_ballot
@end
@fn <BLEConfig as From>::from [quorum-config, leader-election]
@ensures
* [kept] res.pid == $1.server_config.pid && res.flexible_quorum == $1.cluster_config.flexible_quorum && res.configuration_id == $1.cluster_config.configuration_id && res.priority == $1.server_config.leader_priority
* [peers-are-the-others] res.peers@ == s_others($1.cluster_config.nodes@, $1.server_config.pid)
@head
    broadcast use group_lists;
@loop ::TY Vec<NodeId>
* $acc@ == s_others($it.seq().take($i), pid)
@end
