// ---- ballots, sequence numbers, quorums, leader state ----
@verus
pub open spec fn s_bcmp(a: Ballot, b: Ballot) -> Ordering {
    if a.n < b.n { Ordering::Less } else if a.n > b.n { Ordering::Greater }
    else if a.priority < b.priority { Ordering::Less } else if a.priority > b.priority { Ordering::Greater }
    else if a.pid < b.pid { Ordering::Less } else if a.pid > b.pid { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn s_blt(a: Ballot, b: Ballot) -> bool { s_bcmp(a, b) == Ordering::Less }
pub open spec fn s_ble(a: Ballot, b: Ballot) -> bool { s_bcmp(a, b) != Ordering::Greater }
impl OrdSpecImpl for Ballot {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { s_bcmp(*self, *other) }
}
impl PartialOrdSpecImpl for Ballot {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(s_bcmp(*self, *other)) }
}
pub open spec fn s_bdefault() -> Ballot { Ballot { config_id: 0, n: 0, priority: 0, pid: 0 } }
pub open spec fn s_bor(o: Option<Ballot>) -> Ballot { match o { Some(b) => b, None => s_bdefault() } }

// total order on ballots of one configuration; two different servers never hold the same ballot
pub proof fn lemma_ballot_total_order(a: Ballot, b: Ballot, c: Ballot)
    ensures
        s_ble(a, b) || s_ble(b, a),
        s_ble(a, b) && s_ble(b, c) ==> s_ble(a, c),
        s_ble(a, b) && s_ble(b, a) && a.config_id == b.config_id ==> a == b,
        !(s_blt(a, b) && s_blt(b, a)),
        a.pid != b.pid ==> s_blt(a, b) || s_blt(b, a),
{ }

// the more up-to-date relation on promises: higher accepted ballot, then longer log
pub open spec fn s_pm_gt(an: Ballot, ai: int, bn: Ballot, bi: int) -> bool { s_blt(bn, an) || (s_bcmp(an, bn) == Ordering::Equal && ai > bi) }
pub open spec fn s_pm_eq(a: PromiseMetaData, b: PromiseMetaData) -> bool { a.n_accepted == b.n_accepted && a.accepted_idx == b.accepted_idx && a.pid == b.pid }
impl PartialEqSpecImpl for PromiseMetaData {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { s_pm_eq(*self, *other) }
}
pub open spec fn s_pm_cmp(a: PromiseMetaData, b: PromiseMetaData) -> Ordering {
    if s_pm_eq(a, b) { Ordering::Equal }
    else if s_blt(b.n_accepted, a.n_accepted) || (a.n_accepted == b.n_accepted && a.accepted_idx > b.accepted_idx) { Ordering::Greater }
    else { Ordering::Less }
}
impl PartialOrdSpecImpl for PromiseMetaData {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(s_pm_cmp(*self, *other)) }
}

pub open spec fn s_q_read(q: Quorum) -> int { match q { Quorum::Majority(m) => m as int, Quorum::Flexible(f) => f.read_quorum_size as int } }
pub open spec fn s_q_write(q: Quorum) -> int { match q { Quorum::Majority(m) => m as int, Quorum::Flexible(f) => f.write_quorum_size as int } }

pub open spec fn s_cnt_ge(s: Seq<usize>, k: int) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { s_cnt_ge(s.drop_last(), k) + (if s.last() >= k { 1nat } else { 0nat }) } }
pub open spec fn s_cnt_prom(s: Seq<PromiseState>) -> nat decreases s.len()
{ if s.len() == 0 { 0 } else { s_cnt_prom(s.drop_last()) + (if s.last() is Promised { 1nat } else { 0nat }) } }

// follower list: the promised pids, ascending, without the leader
pub open spec fn s_followers(s: Seq<PromiseState>, me: int) -> Seq<NodeId> decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() is Promised && s.len() != me { s_followers(s.drop_last(), me).push(s.len() as NodeId) }
    else { s_followers(s.drop_last(), me) }
}
pub open spec fn s_max_dec(s: Seq<PromiseState>) -> int decreases s.len()
{
    if s.len() == 0 { -1 }
    else { let m = s_max_dec(s.drop_last()); match s.last() { PromiseState::Promised(p) => if m > p.decided_idx { m } else { p.decided_idx as int }, _ => m } }
}
pub proof fn lemma_max_dec_bounds(s: Seq<PromiseState>)
    ensures
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Promised ==> s[i]->Promised_0.decided_idx <= s_max_dec(s),
        s_max_dec(s) >= 0 ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Promised && s[i]->Promised_0.decided_idx == s_max_dec(s),
        s_max_dec(s) >= -1,
        s_max_dec(s) <= usize::MAX,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_max_dec_bounds(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Promised implies s[i]->Promised_0.decided_idx <= s_max_dec(s) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
        if s_max_dec(s) >= 0 {
            let m = s_max_dec(s.drop_last());
            if s.last() is Promised && !(m > s.last()->Promised_0.decided_idx) {
                assert(s[s.len() - 1] is Promised);
            } else {
                let j = choose|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]) is Promised && s.drop_last()[i]->Promised_0.decided_idx == m;
                assert(s.drop_last()[j] == s[j]);
            }
        }
    }
}
pub proof fn lemma_followers(s: Seq<PromiseState>, me: int)
    requires s.len() <= usize::MAX
    ensures
        forall|p: NodeId| s_followers(s, me).contains(p) <==> (1 <= p <= s.len() && p != me && s[p - 1] is Promised),
        forall|i: int, j: int| 0 <= i < j < s_followers(s, me).len() ==> s_followers(s, me)[i] < s_followers(s, me)[j],
        forall|i: int| 0 <= i < s_followers(s, me).len() ==> 1 <= #[trigger] s_followers(s, me)[i] <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_followers(d, me);
        let f = s_followers(s, me);
        let fd = s_followers(d, me);
        if s.last() is Promised && s.len() != me {
            assert(f == fd.push(s.len() as NodeId));
            assert forall|p: NodeId| f.contains(p) <==> (1 <= p <= s.len() && p != me && s[p - 1] is Promised) by {
                if f.contains(p) { let k = choose|k: int| 0 <= k < f.len() && f[k] == p; if k < fd.len() { assert(fd[k] == p); assert(fd.contains(p)); assert(d[p - 1] == s[p - 1]); } }
                if 1 <= p <= s.len() && p != me && s[p - 1] is Promised {
                    if p == s.len() { assert(f[fd.len() as int] == p); }
                    else { assert(d[p - 1] == s[p - 1]); assert(fd.contains(p)); let k = choose|k: int| 0 <= k < fd.len() && fd[k] == p; assert(f[k] == p); }
                }
            }
        } else {
            assert forall|p: NodeId| f.contains(p) <==> (1 <= p <= s.len() && p != me && s[p - 1] is Promised) by {
                if 1 <= p <= s.len() - 1 { assert(d[p - 1] == s[p - 1]); }
            }
        }
    }
}
pub proof fn lemma_cnt_ge_mono(s: Seq<usize>, a: int, b: int)
    requires a <= b
    ensures s_cnt_ge(s, b) <= s_cnt_ge(s, a)
    decreases s.len()
{ if s.len() > 0 { lemma_cnt_ge_mono(s.drop_last(), a, b); } }

impl<T: Entry> LeaderState<T> {
    // shape: one slot per pid 1..=max_pid in every vector
    pub open spec fn wf(&self) -> bool {
        &&& self.promises_meta@.len() == self.max_pid
        &&& self.follower_seq_nums@.len() == self.max_pid
        &&& self.accepted_indexes@.len() == self.max_pid
        &&& self.latest_accept_meta@.len() == self.max_pid
        &&& self.max_pid >= 1
        &&& forall|i: int| 0 <= i < self.max_pid && (#[trigger] self.promises_meta@[i]) is Promised ==> self.promises_meta@[i]->Promised_0.pid == i + 1
    }
    pub open spec fn pid_ok(&self, p: NodeId) -> bool { 1 <= p <= self.max_pid }
    // everything but the named part is untouched
    pub open spec fn same_cfg(&self, o: &Self) -> bool { self.n_leader == o.n_leader && self.max_pid == o.max_pid && self.quorum == o.quorum }
    pub open spec fn same_prom(&self, o: &Self) -> bool { self.promises_meta@ == o.promises_meta@ && self.max_promise_meta == o.max_promise_meta && self.max_promise_sync == o.max_promise_sync }
    pub open spec fn same_seq(&self, o: &Self) -> bool { self.follower_seq_nums@ == o.follower_seq_nums@ }
    pub open spec fn same_acc(&self, o: &Self) -> bool { self.accepted_indexes@ == o.accepted_indexes@ }
    pub open spec fn same_meta(&self, o: &Self) -> bool { self.latest_accept_meta@ == o.latest_accept_meta@ }
}
@end

@fn Message::get_sender [accept-order]
@ensures
* [value] res == (match *self { Message::SequencePaxos(p) => p.from, Message::BLE(b) => b.from })
@end
@fn Message::get_receiver [accept-order]
@ensures
* [value] res == (match *self { Message::SequencePaxos(p) => p.to, Message::BLE(b) => b.to })
@end
@fn <Ballot as Default>::default [promise-durability, leader-election]
@ensures
* [zero] res == s_bdefault()
@end
@fn <SequenceNumber as Default>::default [accept-order]
@ensures
* [zero] res == (SequenceNumber { session: 0, counter: 0 })
@end
@fn <PromiseMetaData as Default>::default [leader-recovery]
@ensures
* [zero] res == (PromiseMetaData { n_accepted: s_bdefault(), accepted_idx: 0, decided_idx: 0, pid: 0 })
@end
@fn Ballot::with [leader-election]
@ensures
* [fields] res == (Ballot { config_id: $1, n: $2, priority: $3, pid: $4 })
@end
@fn <Ballot as Ord>::cmp [leader-election, promise-durability, ballot-fencing, agreement]
@end
@fn <Ballot as PartialOrd>::partial_cmp [leader-election, promise-durability, ballot-fencing, agreement]
@end
@fn <PromiseMetaData as PartialOrd>::partial_cmp [leader-recovery, agreement]
@end
@fn <PromiseMetaData as PartialEq>::eq [leader-recovery, agreement]
@end

@fn SequenceNumber::check_msg_status [accept-order, agreement, unicache-roundtrip]
@ensures
* [expected-iff-next] res == MessageStatus::Expected <==> ($1.session == self.session && $1.counter == self.counter + 1)
* [outdated-iff-not-newer] res == MessageStatus::Outdated <==> ($1.session < self.session || ($1.session == self.session && $1.counter <= self.counter))
@end
@fn LogicalClock::with []
@ensures
* [fields] res.time == 0 && res.timeout == $1
@end
@fn LogicalClock::tick_and_check_timeout []
@ensures
* [tick] final(self).timeout == old(self).timeout
    && (res <==> old(self).time + 1 == old(self).timeout)
    && (res ==> final(self).time == 0) && (!res ==> final(self).time == old(self).time + 1)
@end

@fn Quorum::with [quorum-config, agreement]
@ensures
* [flexible-sizes-kept] $1 is Some ==> s_q_read(res) == $1->Some_0.read_quorum_size && s_q_write(res) == $1->Some_0.write_quorum_size
* [majority-default] $1 is None ==> s_q_read(res) == $2 / 2 + 1 && s_q_write(res) == $2 / 2 + 1
@end
@fn Quorum::is_prepare_quorum [quorum-config, leader-recovery, leader-election, agreement]
@ensures
* [read-quorum] res == ($1 >= s_q_read(*self))
@end
@fn Quorum::is_accept_quorum [quorum-config, write-quorum, leader-election, agreement]
@ensures
* [write-quorum] res == ($1 >= s_q_write(*self))
@end

@fn LeaderState::with [leader-recovery, write-quorum, accept-order, agreement]
@requires
* $2 >= 1
@ensures
* [wf] res.wf()
* [fresh] res.n_leader == $1 && res.max_pid == $2 && res.quorum == $3
    && res.promises_meta@ == Seq::new($2 as nat, |i: int| PromiseState::NotPromised)
    && res.accepted_indexes@ == Seq::new($2 as nat, |i: int| 0usize)
    && res.follower_seq_nums@ == Seq::new($2 as nat, |i: int| SequenceNumber { session: 0, counter: 0 })
    && res.latest_accept_meta@ == Seq::new($2 as nat, |i: int| None::<(Ballot, usize)>)
    && res.max_promise_meta == (PromiseMetaData { n_accepted: s_bdefault(), accepted_idx: 0, decided_idx: 0, pid: 0 })
    && res.max_promise_sync is None
@end
@fn LeaderState::pid_to_idx [write-quorum, leader-recovery, accept-order]
@requires
* $1 >= 1
@ensures
* [slot] res == $1 - 1
@end
@fn LeaderState::increment_seq_num_session [accept-order, agreement]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [new-session] final(self).follower_seq_nums@ == old(self).follower_seq_nums@.update($1 - 1, SequenceNumber { session: (old(self).follower_seq_nums@[$1 - 1].session + 1) as u64, counter: 0 })
    && final(self).follower_seq_nums@[$1 - 1].session == old(self).follower_seq_nums@[$1 - 1].session + 1
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_prom(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self))
@end
@fn LeaderState::next_seq_num [accept-order, agreement]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [next] res.session == old(self).follower_seq_nums@[$1 - 1].session && res.counter == old(self).follower_seq_nums@[$1 - 1].counter + 1
* [recorded] final(self).follower_seq_nums@ == old(self).follower_seq_nums@.update($1 - 1, res)
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_prom(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self))
@end
@fn LeaderState::get_seq_num [accept-order]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [current] res == old(self).follower_seq_nums@[$1 - 1]
* [frame] *final(self) == *old(self)
@end
@fn LeaderState::set_promise [leader-recovery, agreement]
@requires
* old(self).wf() && old(self).pid_ok($2)
@ensures
* [recorded] final(self).promises_meta@ == old(self).promises_meta@.update($2 - 1, PromiseState::Promised(PromiseMetaData { n_accepted: $1.n_accepted, accepted_idx: $1.accepted_idx, decided_idx: $1.decided_idx, pid: $2 }))
* [read-quorum-iff] res == (s_cnt_prom(final(self).promises_meta@) >= s_q_read(old(self).quorum))
* [max-promise-taken] $3 && s_pm_cmp(PromiseMetaData { n_accepted: $1.n_accepted, accepted_idx: $1.accepted_idx, decided_idx: $1.decided_idx, pid: $2 }, old(self).max_promise_meta) == Ordering::Greater
    ==> final(self).max_promise_meta == (PromiseMetaData { n_accepted: $1.n_accepted, accepted_idx: $1.accepted_idx, decided_idx: $1.decided_idx, pid: $2 }) && final(self).max_promise_sync == $1.log_sync
* [max-promise-kept] !($3 && s_pm_cmp(PromiseMetaData { n_accepted: $1.n_accepted, accepted_idx: $1.accepted_idx, decided_idx: $1.decided_idx, pid: $2 }, old(self).max_promise_meta) == Ordering::Greater)
    ==> final(self).max_promise_meta == old(self).max_promise_meta && final(self).max_promise_sync == old(self).max_promise_sync
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self))
@head
    broadcast use group_lists;
@loop self.promises_meta
* $acc == s_cnt_prom(self.promises_meta@.take($i))
@end
@fn LeaderState::reset_promise [leader-recovery]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [reset] final(self).promises_meta@ == old(self).promises_meta@.update($1 - 1, PromiseState::NotPromised) && final(self).max_promise_meta == old(self).max_promise_meta && final(self).max_promise_sync == old(self).max_promise_sync
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self))
@end
@fn LeaderState::lost_promise [leader-recovery]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [lost] final(self).promises_meta@ == old(self).promises_meta@.update($1 - 1, PromiseState::PromisedHigher) && final(self).max_promise_meta == old(self).max_promise_meta && final(self).max_promise_sync == old(self).max_promise_sync
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self))
@end
@fn LeaderState::take_max_promise_sync [leader-recovery]
@ensures
* [taken] res == old(self).max_promise_sync && final(self).max_promise_sync is None
* [frame] final(self).promises_meta@ == old(self).promises_meta@ && final(self).max_promise_meta == old(self).max_promise_meta && final(self).same_cfg(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self)) && final(self).same_meta(old(self)) && (old(self).wf() ==> final(self).wf())
@end
@fn LeaderState::get_max_promise_meta [leader-recovery, log-sync]
@ensures
* [value] *res == self.max_promise_meta
@end
@fn LeaderState::get_max_decided_idx [leader-recovery, decided-monotone, agreement]
@ensures
* [max-reported] s_max_dec(self.promises_meta@) <= res && self.max_promise_meta.decided_idx <= res
* [attained] res == self.max_promise_meta.decided_idx || res == s_max_dec(self.promises_meta@)
@head
    broadcast use group_lists;
@loop self.promises_meta ::TY Option<usize>
* s_max_dec(self.promises_meta@.take($i)) < 0 ==> $acc is None
* s_max_dec(self.promises_meta@.take($i)) >= 0 ==> $acc is Some && $acc->Some_0 == s_max_dec(self.promises_meta@.take($i))
@end
@fn LeaderState::get_promise_meta [log-sync, agreement]
@requires
* self.wf() && self.pid_ok($1) && self.promises_meta@[$1 - 1] is Promised
@ensures
* [value] *res == self.promises_meta@[$1 - 1]->Promised_0
@end
@fn LeaderState::get_min_all_accepted_idx [compaction-safe]
@requires
* self.wf()
@ensures
* [lower-bound] forall|i: int| 0 <= i < self.accepted_indexes@.len() ==> *res <= #[trigger] self.accepted_indexes@[i]
* [attained] exists|i: int| 0 <= i < self.accepted_indexes@.len() && *res == #[trigger] self.accepted_indexes@[i]
@loop self.accepted_indexes ::TY Option<&usize>
* $i == 0 ==> $acc is None
* $i > 0 ==> $acc is Some
* $acc is Some ==> (forall|j: int| 0 <= j < $i ==> *$acc->Some_0 <= #[trigger] self.accepted_indexes@[j])
* $acc is Some ==> (exists|j: int| 0 <= j < $i && *$acc->Some_0 == #[trigger] self.accepted_indexes@[j])
@end
@fn LeaderState::reset_latest_accept_meta [accept-order]
@ensures
* [cleared] final(self).latest_accept_meta@ == Seq::new(old(self).max_pid as nat, |i: int| None::<(Ballot, usize)>)
* [frame] final(self).same_cfg(old(self)) && final(self).same_prom(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self)) && (old(self).wf() ==> final(self).wf())
@end
@fn LeaderState::get_promised_followers [leader-recovery, accept-order, agreement]
@requires
* self.wf() && self.n_leader.pid >= 1
@ensures
* [exactly-promised] res@ == s_followers(self.promises_meta@, self.n_leader.pid as int)
@head
    broadcast use group_lists;
@loop self.promises_meta
* $acc@ == s_followers(self.promises_meta@.take($i), self.n_leader.pid as int)
* $n == $i
@end
@fn LeaderState::get_preparable_peers [leader-recovery]
@requires
* self.wf() && (forall|i: int| 0 <= i < $1@.len() ==> self.pid_ok(#[trigger] $1@[i]))
@ensures
* [only-unpromised-peers] forall|i: int| 0 <= i < res@.len() ==> $1@.contains(#[trigger] res@[i]) && self.promises_meta@[res@[i] - 1] is NotPromised
* [all-unpromised-peers] forall|i: int| 0 <= i < $1@.len() && self.promises_meta@[(#[trigger] $1@[i]) - 1] is NotPromised ==> res@.contains($1@[i])
@loop ::TY Vec<NodeId>
* forall|i: int| 0 <= i < $acc@.len() ==> $1@.contains(#[trigger] $acc@[i]) && self.promises_meta@[$acc@[i] - 1] is NotPromised
* forall|i: int| 0 <= i < $i && self.promises_meta@[(#[trigger] $1@[i]) - 1] is NotPromised ==> (exists|k: int| 0 <= k < $acc@.len() && #[trigger] $acc@[k] == $1@[i])
> let ghost acc0 = $acc@;
< proof { if $acc@.len() > acc0.len() { assert($acc@[acc0.len() as int] == $1@[$i]); } assert forall|i: int| 0 <= i < $i + 1 && self.promises_meta@[(#[trigger] $1@[i]) - 1] is NotPromised implies (exists|k: int| 0 <= k < $acc@.len() && #[trigger] $acc@[k] == $1@[i]) by { if i < $i { let k = choose|k: int| 0 <= k < acc0.len() && #[trigger] acc0[k] == $1@[i]; assert($acc@[k] == $1@[i]); } } }
@end
@fn LeaderState::set_latest_accept_meta [accept-order, agreement]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [set] final(self).latest_accept_meta@ == old(self).latest_accept_meta@.update($1 - 1, match $2 { Some(x) => Some((old(self).n_leader, x)), None => None })
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_prom(old(self)) && final(self).same_seq(old(self)) && final(self).same_acc(old(self))
@end
@fn LeaderState::set_accepted_idx [write-quorum, agreement, compaction-safe]
@requires
* old(self).wf() && old(self).pid_ok($1)
@ensures
* [set] final(self).accepted_indexes@ == old(self).accepted_indexes@.update($1 - 1, $2)
* [frame] final(self).wf() && final(self).same_cfg(old(self)) && final(self).same_prom(old(self)) && final(self).same_seq(old(self)) && final(self).same_meta(old(self))
@end
@fn LeaderState::get_latest_accept_meta [accept-order]
@requires
* self.wf() && self.pid_ok($1)
@ensures
* [value] res == self.latest_accept_meta@[$1 - 1]
@end
@fn LeaderState::get_decided_idx [log-sync]
@requires
* self.wf() && self.pid_ok($1)
@ensures
* [value] res == (match self.promises_meta@[$1 - 1] { PromiseState::Promised(m) => Some(m.decided_idx), _ => None })
@end
@fn LeaderState::get_accepted_idx [write-quorum]
@requires
* self.wf() && self.pid_ok($1)
@ensures
* [value] res == self.accepted_indexes@[$1 - 1]
@end
@fn LeaderState::is_chosen [write-quorum, agreement]
@ensures
* [write-quorum-of-acks] res == (s_cnt_ge(self.accepted_indexes@, $1 as int) >= s_q_write(self.quorum))
@head
    broadcast use group_lists;
@loop self.accepted_indexes
* $acc == s_cnt_ge(self.accepted_indexes@.take($i), $1 as int)
@end

@verus
pub broadcast proof fn bl_take_all<A>(s: Seq<A>)
    ensures #[trigger] s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn bl_take_step<A>(s: Seq<A>, i: int)
    requires 0 < i <= s.len()
    ensures #[trigger] s.take(i).drop_last() == s.take(i - 1)
{ assert(s.take(i).drop_last() =~= s.take(i - 1)); }
pub broadcast proof fn bl_take_last<A>(s: Seq<A>, i: int)
    requires 0 < i <= s.len()
    ensures #[trigger] s.take(i).last() == s[i - 1]
{ }
pub broadcast group group_lists { bl_take_all, bl_take_step, bl_take_last }
@end
