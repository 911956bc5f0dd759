// ---- StateCache and InternalStorage ----
@verus
pub open spec fn s_optlen<A>(o: Option<A>) -> int { if o is Some { 1 } else { 0 } }
impl<T: Entry> StateCache<T> {
    pub open spec fn same_but_batch(&self, o: &Self) -> bool { self.same_but_both(o) && self.uc() == o.uc() }
    pub open spec fn same_but_uc(&self, o: &Self) -> bool { self.same_but_both(o) && self.batched_entries@ == o.batched_entries@ }
    pub open spec fn same_but_both(&self, o: &Self) -> bool {
        self.batch_size == o.batch_size && self.promise == o.promise && self.accepted_round == o.accepted_round && self.decided_idx == o.decided_idx
        && self.accepted_idx == o.accepted_idx && self.compacted_idx == o.compacted_idx && self.stopsign == o.stopsign
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.same_but_batch(o) && self.batched_entries@ == o.batched_entries@ }
}
impl<I: Storage<T>, T: Entry> InternalStorage<I, T> {
    pub open spec fn sv(&self) -> SV<T> { self.storage.view() }
    pub open spec fn batch(&self) -> Seq<T> { self.state_cache.batched_entries@ }
    pub open spec fn same_uc(&self, o: &Self) -> bool { self.state_cache.uc() == o.state_cache.uc() }
    pub open spec fn enc_uc(&self, o: &Self, x: Seq<T>) -> bool { self.state_cache.uc() == s_wire_uc(o.state_cache.uc(), x) }
    // the cache tells what is durable, and what is durable is consistent
    pub open spec fn core(&self) -> bool {
        let c = self.state_cache; let v = self.sv();
        &&& self.storage.swf()
        &&& v.ok()
        &&& s_uc_ok(c.uc())
        &&& c.promise == s_bor(v.promise)
        &&& c.accepted_round == s_bor(v.acc_round)
        &&& c.decided_idx == v.decided
        &&& c.compacted_idx == v.compacted
        &&& c.accepted_idx == v.accepted()
    }
    // what the read side needs
    pub open spec fn rd(&self) -> bool {
        let c = self.state_cache; let v = self.sv();
        &&& self.storage.swf()
        &&& v.ok()
        &&& c.decided_idx == v.decided
        &&& c.compacted_idx == v.compacted
        &&& c.accepted_idx == v.accepted()
        &&& c.stopsign == v.stopsign
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.core()
        &&& self.state_cache.stopsign == self.sv().stopsign
        &&& (self.sv().stopsign is Some ==> self.batch().len() == 0)
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.sv() == o.sv() && self.state_cache.same(&o.state_cache) && (o.storage.swf() ==> self.storage.swf()) }
    pub open spec fn same_cfg(&self, o: &Self) -> bool { self.state_cache.batch_size == o.state_cache.batch_size }
}
pub open spec fn s_snap_upto<T: Entry>(v: SV<T>, upto: int) -> T::Snapshot {
    match v.snapshot { Some(s) => s_sm_merge(s, s_sm_create::<T>(v.range(v.trim, upto))), None => s_sm_create::<T>(v.range(v.trim, upto)) }
}
// the state after adopting `sync` in round n with leader's decided index d
pub open spec fn s_sync_decided(v_decided: int, d: int) -> int { if d < v_decided { v_decided } else { d } }
pub open spec fn s_sync_apply<T: Entry>(v: SV<T>, n: Ballot, d: int, sync: Option<LogSync<T>>) -> SV<T> {
    let b = SV { acc_round: Some(n), decided: s_sync_decided(v.decided, d), ..v };
    match sync {
        None => b,
        Some(s) => {
            let snap = match s.decided_snapshot {
                Some(SnapshotType::Complete(c)) => Some(c),
                Some(SnapshotType::Delta(e)) => Some(s_sm_merge(s_snap_upto(v, v.ldecided()), e)),
                None => v.snapshot,
            };
            if s.decided_snapshot is Some {
                SV { log: s.suffix@, trim: s.sync_idx as int, compacted: s.sync_idx as int, snapshot: snap, stopsign: s.stopsign, ..b }
            } else {
                SV { log: s_prefix_app(v.log, s.sync_idx - v.trim, s.suffix@), stopsign: s.stopsign, ..b }
            }
        }
    }
}
// what a synchronising message has to satisfy against the state it is applied to
pub open spec fn s_sync_ok<T: Entry>(v: SV<T>, n: Ballot, d: int, sync: Option<LogSync<T>>) -> bool {
    let w = s_sync_apply(v, n, d, sync);
    &&& s_ble(s_bor(v.acc_round), n)
    &&& s_ble(n, s_bor(v.promise))
    &&& w.ok()
    &&& v.step(w)
    &&& (sync is Some ==> v.trim <= sync->Some_0.sync_idx && (sync->Some_0.decided_snapshot is None ==> sync->Some_0.sync_idx <= v.end()))
}
// ---- reads ----
pub open spec fn s_compacted_entry<T: Entry>(v: SV<T>) -> LogEntry<T> {
    match v.snapshot { Some(s) => LogEntry::Snapshotted(SnapshottedEntry { trimmed_idx: v.trim as usize, snapshot: s, _p: PhantomData }), None => LogEntry::Trimmed(v.trim as usize) }
}
pub open spec fn s_labelled<T: Entry>(v: SV<T>, a: int, b: int) -> Seq<LogEntry<T>> {
    Seq::new((b - a) as nat, |i: int| if a + i < v.decided { LogEntry::Decided(v.log[a + i - v.trim]) } else { LogEntry::Undecided(v.log[a + i - v.trim]) })
}
pub open spec fn s_read_spec<T: Entry>(v: SV<T>, from: int, to: int) -> Option<Seq<LogEntry<T>>> {
    if to <= 0 { None }
    else if to - 1 < v.trim { Some(seq![s_compacted_entry(v)]) }
    else if to > v.accepted() || from >= v.accepted() { None }
    else {
        let head = if from < v.trim { seq![s_compacted_entry(v)] } else { Seq::empty() };
        let a = if from < v.trim { v.trim } else { from };
        let b = if to > v.end() { v.end() } else { to };
        let tail = if to > v.end() && from <= v.end() { seq![LogEntry::StopSign(v.stopsign->Some_0, v.ss_decided())] } else { Seq::empty() };
        Some(head + (if a < b { s_labelled(v, a, b) } else { Seq::empty() }) + tail)
    }
}
pub open spec fn s_rfrom(b: Bound<&usize>) -> int { match b { Bound::Included(i) => *i as int, Bound::Excluded(i) => *i + 1, Bound::Unbounded => 0 } }
pub open spec fn s_rto(b: Bound<&usize>, acc: int) -> int { match b { Bound::Included(i) => *i + 1, Bound::Excluded(i) => *i as int, Bound::Unbounded => acc } }
@end

@fn StateCache::new [restart-recovery, unicache-roundtrip]
@ensures
* [empty] res.batched_entries@.len() == 0 && res.batch_size == $1.batch_size && s_uc_ok(res.uc())
@end
@fn StateCache::append_entry [batching, accept-order, unicache-roundtrip]
@ensures
* [buffered] res is None ==> final(self).batched_entries@ == old(self).batched_entries@.push($1)
* [flushed-whole] res is Some ==> res->Some_0@ == old(self).batched_entries@.push($1) && final(self).batched_entries@.len() == 0
* [flush-when-full] res is Some <==> old(self).batched_entries@.len() + 1 >= old(self).batch_size
* [frame] final(self).same_but_batch(old(self))
@end
@fn StateCache::append_entries [batching, accept-order, unicache-roundtrip]
@ensures
* [buffered] res is None ==> final(self).batched_entries@ == old(self).batched_entries@ + $1@
* [flushed-whole] res is Some ==> res->Some_0@ == old(self).batched_entries@ + $1@ && final(self).batched_entries@.len() == 0
* [flush-when-full] res is Some <==> old(self).batched_entries@.len() + $1@.len() >= old(self).batch_size
* [frame] final(self).same_but_batch(old(self))
@end
@fn StateCache::append_stopsign [batching, reconfig-seal, unicache-roundtrip]
@ensures
* [stopsign] final(self).stopsign == Some($1) && final(self).batched_entries@.len() == 0
* [flushed-whole] old(self).batched_entries@.len() > 0 ==> res is Some && res->Some_0@ == old(self).batched_entries@
* [nothing-to-flush] old(self).batched_entries@.len() == 0 ==> res is None
* [frame] final(self).same_but_batch(&StateCache { stopsign: Some($1), ..*old(self) })
@end
@fn StateCache::take_entries_if_batch_is_full [batching]
@ensures
* [iff-full] res is Some <==> old(self).batched_entries@.len() >= old(self).batch_size
* [whole] res is Some ==> res->Some_0@ == old(self).batched_entries@ && final(self).batched_entries@.len() == 0
* [kept] res is None ==> final(self).batched_entries@ == old(self).batched_entries@
* [frame] final(self).same_but_batch(old(self))
@end
@fn StateCache::take_batched_entries [batching, unicache-roundtrip]
@ensures
* [whole] res@ == old(self).batched_entries@ && final(self).batched_entries@.len() == 0
* [frame] final(self).same_but_batch(old(self))
@end
@fn StateCache::stopsign_is_decided [reconfig-seal]
@ensures
* [value] res == (self.stopsign is Some && self.decided_idx == self.accepted_idx)
@end

@fn InternalStorage::with [restart-recovery]
@requires
* $1.swf() && $1.view().ok()
@ensures
* [recovered] res.inv() && res.sv() == $1.view() && res.batch().len() == 0 && res.state_cache.batch_size == $2.batch_size
@end
@fn InternalStorage::load_cache [restart-recovery, promise-durability]
@requires
* old(self).storage.swf() && old(self).sv().ok() && old(self).batch().len() == 0 && s_uc_ok(old(self).uc())
@ensures
* [cache-is-storage] final(self).inv() && final(self).sv() == old(self).sv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
@end
@fn InternalStorage::read_decided_suffix [read-correct, agreement]
@requires
* self.rd()
@ensures
* [suffix] res is Ok && $1 < self.sv().decided ==> s_read_spec(self.sv(), $1 as int, self.sv().decided) is Some
    && res->Ok_0 is Some && res->Ok_0->Some_0@ == s_read_spec(self.sv(), $1 as int, self.sv().decided)->Some_0
* [nothing-new] res is Ok && $1 >= self.sv().decided ==> res->Ok_0 is None
@end
@fn InternalStorage::read [read-correct, agreement, no-panic]
@requires
* self.rd()
@ensures
* [out-of-range] res is Ok && s_rfrom($1.spec_start_bound()) <= s_rto($1.spec_end_bound(), self.sv().accepted()) && s_read_spec(self.sv(), s_rfrom($1.spec_start_bound()), s_rto($1.spec_end_bound(), self.sv().accepted())) is None ==> res->Ok_0 is None
* [entries] res is Ok && s_rfrom($1.spec_start_bound()) <= s_rto($1.spec_end_bound(), self.sv().accepted()) && s_read_spec(self.sv(), s_rfrom($1.spec_start_bound()), s_rto($1.spec_end_bound(), self.sv().accepted())) is Some
    ==> res->Ok_0 is Some && res->Ok_0->Some_0@ == s_read_spec(self.sv(), s_rfrom($1.spec_start_bound()), s_rto($1.spec_end_bound(), self.sv().accepted()))->Some_0
@end
@fn InternalStorage::get_entry_type [read-correct]
@requires
* self.rd() && $2 == self.sv().trim && $3 == self.sv().accepted()
@ensures
* [ok] res is Ok
* [compacted] $1 < $2 ==> res->Ok_0 == Some(IndexEntry::Compacted)
* [entry] $2 <= $1 < self.sv().end() ==> res->Ok_0 == Some(IndexEntry::Entry)
* [stopsign] $2 <= $1 && $1 == self.sv().end() && self.sv().stopsign is Some ==> res->Ok_0 == Some(IndexEntry::StopSign(self.sv().stopsign->Some_0))
* [beyond] $1 >= self.sv().accepted() && $1 >= $2 ==> res->Ok_0 is None
@end
@fn InternalStorage::create_read_log_entries [read-correct, agreement]
@requires
* self.rd() && self.sv().trim <= $1 && self.sv().trim <= $2
@ensures
* [labelled] res is Ok && $1 <= $2 <= self.sv().end() ==> res->Ok_0@ == s_labelled(self.sv(), $1 as int, $2 as int)
@loop
* $acc@.len() == $i
* $n == $i
* $1 <= $2 <= self.sv().end() ==> $it.seq() == self.sv().range($1 as int, $2 as int)
* $1 <= $2 <= self.sv().end() ==> (forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == s_labelled(self.sv(), $1 as int, $2 as int)[j])
* self.sv().trim <= $1
@end
@fn InternalStorage::create_compacted_entry [read-correct]
@requires
* self.rd() && $1 == self.sv().trim
@ensures
* [value] res is Ok ==> res->Ok_0 == s_compacted_entry(self.sv())
@end
@fn SnapshottedEntry::with []
@ensures
* res.trimmed_idx == $1 && res.snapshot == $2
@end

@fn InternalStorage::append_entry_with_batching [batching, accept-order, write-quorum, unicache-roundtrip]
@requires
* old(self).inv() && old(self).sv().stopsign is None
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self))
* [buffered] res is Ok && res->Ok_0 is None ==> final(self).sv() == old(self).sv() && final(self).batch() == old(self).batch().push($1)
* [flushed] res is Ok && res->Ok_0 is Some ==> final(self).batch().len() == 0
    && final(self).sv() == (SV { log: old(self).sv().log + old(self).batch().push($1), ..old(self).sv() })
* [reported] res is Ok && res->Ok_0 is Some ==> res->Ok_0->Some_0.entries@ == s_wire(old(self).uc(), old(self).batch().push($1)) && final(self).enc_uc(old(self), old(self).batch().push($1)) && res->Ok_0->Some_0.accepted_idx == final(self).sv().accepted()
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
@end
@fn InternalStorage::append_entries_with_batching [batching, accept-order, write-quorum, unicache-roundtrip]
@requires
* old(self).inv() && old(self).sv().stopsign is None
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self))
* [buffered] res is Ok && res->Ok_0 is None ==> final(self).sv() == old(self).sv() && final(self).batch() == old(self).batch() + $1@
* [flushed] res is Ok && res->Ok_0 is Some ==> final(self).batch().len() == 0
    && final(self).sv() == (SV { log: old(self).sv().log + (old(self).batch() + $1@), ..old(self).sv() })
* [reported] res is Ok && res->Ok_0 is Some ==> res->Ok_0->Some_0.entries@ == s_wire(old(self).uc(), old(self).batch() + $1@) && final(self).enc_uc(old(self), old(self).batch() + $1@) && res->Ok_0->Some_0.accepted_idx == final(self).sv().accepted()
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
@end
@fn InternalStorage::append_stopsign [reconfig-seal, batching, restart-recovery, unicache-roundtrip]
@requires
* old(self).inv() && old(self).sv().stopsign is None
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self)) && final(self).batch().len() == 0
* [after-all-entries] res is Ok ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), stopsign: Some($1), ..old(self).sv() })
* [reported] res is Ok ==> (res->Ok_0 is Some <==> old(self).batch().len() > 0)
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
* [reported-entries] res is Ok && res->Ok_0 is Some ==> res->Ok_0->Some_0.entries@ == s_wire(old(self).uc(), old(self).batch()) && final(self).enc_uc(old(self), old(self).batch()) && res->Ok_0->Some_0.accepted_idx == final(self).sv().end()
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
@end
@fn InternalStorage::flush_if_full_batch [batching, unicache-roundtrip]
@requires
* old(self).core() && (old(self).sv().stopsign is None || $1 is None)
@ensures
* [nothing] $1 is None ==> res is Ok && res->Ok_0 is None && final(self).same(old(self))
* [appended] $1 is Some && res is Ok ==> res->Ok_0 is Some && final(self).core()
    && final(self).sv() == (SV { log: old(self).sv().log + $1->Some_0@, ..old(self).sv() })
    && final(self).state_cache.same_but_uc(&StateCache { accepted_idx: final(self).state_cache.accepted_idx, ..old(self).state_cache })
* [reported] $1 is Some && res is Ok && res->Ok_0 is Some ==> res->Ok_0->Some_0.entries@ == s_wire(old(self).uc(), $1->Some_0@) && final(self).enc_uc(old(self), $1->Some_0@) && res->Ok_0->Some_0.accepted_idx == final(self).sv().accepted()
@end
@fn InternalStorage::append_entries_and_get_accepted_idx [batching, accept-order, write-quorum, unicache-roundtrip]
@requires
* old(self).inv() && (old(self).sv().stopsign is None || $1@.len() == 0)
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
* [buffered] res is Ok && res->Ok_0 is None ==> final(self).sv() == old(self).sv() && final(self).batch() == old(self).batch() + $1@
* [flushed] res is Ok && res->Ok_0 is Some ==> final(self).batch().len() == 0
    && final(self).sv() == (SV { log: old(self).sv().log + (old(self).batch() + $1@), ..old(self).sv() })
    && res->Ok_0->Some_0 == final(self).sv().accepted()
@end
@fn InternalStorage::flush_batch [batching, accept-order, restart-recovery]
@requires
* old(self).inv()
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self)) && final(self).batch().len() == 0
* [flushed] res is Ok ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), ..old(self).sv() })
* [reported] res is Ok ==> res->Ok_0 == final(self).sv().accepted()
@end
@fn InternalStorage::flush_batch_and_get_entries [batching, accept-order, unicache-roundtrip]
@requires
* old(self).inv()
@ensures
* [inv] res is Ok ==> final(self).inv() && final(self).same_cfg(old(self)) && final(self).batch().len() == 0
* [flushed] res is Ok ==> final(self).sv() == (SV { log: old(self).sv().log + old(self).batch(), ..old(self).sv() })
* [reported] res is Ok ==> (res->Ok_0 is Some <==> old(self).batch().len() > 0)
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
* [reported-entries] res is Ok && res->Ok_0 is Some ==> res->Ok_0->Some_0.entries@ == s_wire(old(self).uc(), old(self).batch()) && final(self).enc_uc(old(self), old(self).batch()) && res->Ok_0->Some_0.accepted_idx == final(self).sv().accepted()
* [nothing-encoded] res is Ok && res->Ok_0 is None ==> final(self).same_uc(old(self))
@end
@fn InternalStorage::append_entries_without_batching [accept-order, batching, restart-recovery, unicache-roundtrip]
@requires
* old(self).core() && (old(self).sv().stopsign is None || $1@.len() == 0)
@ensures
* [appended] res is Ok ==> final(self).core() && final(self).sv() == (SV { log: old(self).sv().log + $1@, ..old(self).sv() })
* [frame] res is Ok ==> final(self).state_cache.same(&StateCache { accepted_idx: final(self).state_cache.accepted_idx, ..old(self).state_cache })
* [reported] res is Ok ==> res->Ok_0 == final(self).sv().accepted()
@end
@fn InternalStorage::sync_log [log-sync, agreement, decided-monotone, leader-recovery, restart-recovery, reconfig-seal, unicache-roundtrip]
@requires
* old(self).inv() && old(self).batch().len() == 0
* [sync-ok] s_sync_ok(old(self).sv(), $1, $2 as int, $3)
@ensures
* [adopted] res is Ok ==> final(self).sv() == s_sync_apply(old(self).sv(), $1, $2 as int, $3)
* [inv] res is Ok ==> final(self).inv() && final(self).batch().len() == 0 && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
* [reported] res is Ok ==> res->Ok_0 == final(self).sv().accepted()
@head
    hide(s_ops_apply); hide(s_ops_ok);
    broadcast use group_ops;
@end
@fn InternalStorage::create_decided_snapshot [log-sync, compaction-safe]
@requires
* old(self).rd()
@ensures
* [whole-decided-log] res is Ok ==> res->Ok_0 == s_snap_upto(old(self).sv(), old(self).sv().ldecided())
* [frame] *final(self) == *old(self)
@end
@fn InternalStorage::create_snapshot [compaction-safe, log-sync]
@requires
* self.rd() && $1 <= self.sv().end()
@ensures
* [value] res is Ok ==> $1 >= self.sv().trim && res->Ok_0 == s_snap_upto(self.sv(), $1 as int)
* [refused] $1 < self.sv().trim ==> res is Err && res->Err_0 == VErr::Compaction(CompactionErr::TrimmedIndex(self.sv().trim as usize))
@end
@fn InternalStorage::create_diff_snapshot [log-sync, compaction-safe]
@requires
* self.rd() && $1 <= self.sv().ldecided()
@ensures
* [upto] res is Ok ==> res->Ok_0.1 == self.sv().ldecided()
* [delta] res is Ok && $1 > self.sv().trim ==> res->Ok_0.0 == Some(SnapshotType::Delta::<T>(s_sm_create::<T>(self.sv().range($1 as int, self.sv().ldecided()))))
* [complete] res is Ok && $1 <= self.sv().trim && self.sv().trim < self.sv().ldecided()
    ==> res->Ok_0.0 == Some(SnapshotType::Complete::<T>(s_snap_upto(self.sv(), self.sv().ldecided())))
* [existing] res is Ok && $1 <= self.sv().trim && self.sv().trim == self.sv().ldecided()
    ==> res->Ok_0.0 == (match self.sv().snapshot { Some(s) => Some(SnapshotType::Complete::<T>(s)), None => None })
@end
@fn InternalStorage::try_trim [compaction-safe, decided-monotone]
@requires
* old(self).inv()
@ensures
* [inv] final(self).inv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
* [refused-undecided] $1 > old(self).sv().decided ==> res is Err && res->Err_0 == VErr::Compaction(CompactionErr::UndecidedIndex(old(self).sv().decided as usize))
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv()
* [only-trims] res is Ok ==> final(self).sv() == (SV { trim: final(self).sv().trim, compacted: final(self).sv().trim,
    log: old(self).sv().log.skip(final(self).sv().trim - old(self).sv().trim), ..old(self).sv() })
* [upto] res is Ok ==> ({ let t = if $1 < old(self).sv().decided { $1 as int } else { old(self).sv().ldecided() };
    final(self).sv().trim == if t > old(self).sv().trim { t } else { old(self).sv().trim } })
@head
    hide(s_ops_apply); hide(s_ops_ok);
    broadcast use group_ops;
@end
@fn InternalStorage::try_snapshot [compaction-safe, decided-monotone]
@requires
* old(self).inv()
@ensures
* [inv] final(self).inv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
* [refused-undecided] $1 is Some && $1->Some_0 > old(self).sv().decided ==> res is Err && res->Err_0 == VErr::Compaction(CompactionErr::UndecidedIndex(old(self).sv().decided as usize))
* [error-changes-nothing] res is Err ==> final(self).sv() == old(self).sv()
* [only-compacts] res is Ok ==> final(self).sv() == (SV { trim: final(self).sv().trim, compacted: final(self).sv().trim,
    log: old(self).sv().log.skip(final(self).sv().trim - old(self).sv().trim), snapshot: final(self).sv().snapshot, ..old(self).sv() })
* [upto] res is Ok ==> ({ let t = if $1 is Some && $1->Some_0 < old(self).sv().decided { $1->Some_0 as int } else { old(self).sv().ldecided() };
    final(self).sv().trim == if t > old(self).sv().trim { t } else { old(self).sv().trim } })
* [snapshot-covers] res is Ok ==> final(self).sv().snapshot == (if final(self).sv().trim > old(self).sv().trim { Some(s_snap_upto(old(self).sv(), final(self).sv().trim)) } else { old(self).sv().snapshot })
@head
    hide(s_ops_apply); hide(s_ops_ok);
    broadcast use group_ops;
@end
@fn InternalStorage::set_promise [promise-durability, agreement]
@requires
* old(self).inv()
* [promise-never-lowered] s_ble(s_bor(old(self).sv().promise), $1)
@ensures
* [durable] res is Ok ==> final(self).sv() == (SV { promise: Some($1), ..old(self).sv() })
* [inv] res is Ok ==> final(self).inv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
@end
@fn InternalStorage::set_decided_idx [decided-monotone, agreement]
@requires
* old(self).inv()
* [decided-never-lowered] old(self).sv().decided <= $1 <= old(self).sv().accepted()
@ensures
* [durable] res is Ok ==> final(self).sv() == (SV { decided: $1 as int, ..old(self).sv() })
* [inv] res is Ok ==> final(self).inv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
@end
@fn InternalStorage::get_decided_idx [read-correct]
@ensures
* [value] res == self.state_cache.decided_idx
@end
@fn InternalStorage::get_decided_idx_without_stopsign [compaction-safe]
@requires
* self.rd()
@ensures
* [value] res == self.sv().ldecided()
@end
@fn InternalStorage::get_accepted_round [promise-durability]
@ensures
* [value] res == self.state_cache.accepted_round
@end
@fn InternalStorage::get_entries [read-correct]
@requires
* self.rd() && self.sv().trim <= $1 && self.sv().trim <= $2
@ensures
* [value] res is Ok && $1 <= $2 <= self.sv().end() ==> res->Ok_0@ == self.sv().range($1 as int, $2 as int)
@end
@fn InternalStorage::get_accepted_idx [write-quorum]
@ensures
* [value] res == self.state_cache.accepted_idx
@end
@fn InternalStorage::get_suffix [log-sync]
@requires
* self.rd() && self.sv().trim <= $1
@ensures
* [value] res is Ok && $1 <= self.sv().end() ==> res->Ok_0@ == self.sv().range($1 as int, self.sv().end())
* [past-end] res is Ok && $1 > self.sv().end() ==> res->Ok_0@.len() == 0
@end
@fn InternalStorage::get_promise [promise-durability]
@ensures
* [value] res == self.state_cache.promise
@end
@fn InternalStorage::set_stopsign [reconfig-seal]
@requires
* old(self).inv() && old(self).batch().len() == 0 && (old(self).sv().ss_decided() ==> $1 == old(self).sv().stopsign)
    && ($1 is None ==> old(self).sv().decided <= old(self).sv().end())
@ensures
* [durable] res is Ok ==> final(self).sv() == (SV { stopsign: $1, ..old(self).sv() })
* [inv] res is Ok ==> final(self).inv() && final(self).batch() == old(self).batch() && final(self).same_cfg(old(self)) && final(self).same_uc(old(self))
* [reported] res is Ok ==> res->Ok_0 == final(self).sv().accepted()
@end
@fn InternalStorage::get_stopsign [reconfig-seal]
@ensures
* [value] res == self.state_cache.stopsign
@end
@fn InternalStorage::stopsign_is_decided [reconfig-seal]
@ensures
* [value] res == (self.state_cache.stopsign is Some && self.state_cache.decided_idx == self.state_cache.accepted_idx)
@end
@fn InternalStorage::get_snapshot [compaction-safe]
@requires
* self.rd()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.sv().snapshot
@end
@fn InternalStorage::get_compacted_idx [compaction-safe]
@ensures
* [value] res == self.state_cache.compacted_idx
@end
