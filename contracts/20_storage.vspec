// ---- the durable state, the Storage trait and MemoryStorage ----
@verus
// What a storage back end holds. `log[k]` is the entry with log index `trim + k`.
#[verifier::ext_equal]
pub struct SV<T: Entry> {
    pub log: Seq<T>, pub trim: int, pub compacted: int, pub decided: int,
    pub promise: Option<Ballot>, pub acc_round: Option<Ballot>,
    pub stopsign: Option<StopSign>, pub snapshot: Option<T::Snapshot>,
}
impl<T: Entry> SV<T> {
    pub open spec fn end(self) -> int { self.trim + self.log.len() }
    pub open spec fn accepted(self) -> int { self.end() + (if self.stopsign is Some { 1int } else { 0int }) }
    pub open spec fn ss_decided(self) -> bool { self.stopsign is Some && self.decided == self.accepted() }
    // decided index counting log entries only
    pub open spec fn ldecided(self) -> int { if self.ss_decided() { self.decided - 1 } else { self.decided } }
    pub open spec fn range(self, a: int, b: int) -> Seq<T> { self.log.subrange(a - self.trim, b - self.trim) }
    // consistent on-disk state: what a restarted server needs to find after a crash at any point
    pub open spec fn ok(self) -> bool {
        &&& self.trim == self.compacted
        &&& 0 <= self.trim <= self.ldecided() <= self.end()
        &&& self.decided <= self.accepted()
        &&& s_ble(s_bor(self.acc_round), s_bor(self.promise))
    }
    // a durable write never takes back a promise, an accepted round, a decision or a compaction,
    // and never changes or removes a decided entry other than by compacting it
    pub open spec fn step(self, n: SV<T>) -> bool {
        &&& s_ble(s_bor(self.promise), s_bor(n.promise))
        &&& s_ble(s_bor(self.acc_round), s_bor(n.acc_round))
        &&& self.decided <= n.decided
        &&& self.trim <= n.trim
        &&& n.end() >= self.ldecided()
        &&& forall|i: int| n.trim <= i < self.ldecided() ==> #[trigger] n.log[i - n.trim] == self.log[i - self.trim]
        &&& (self.ss_decided() ==> n.stopsign == self.stopsign && n.decided == self.decided)
    }
    // the same accepted log, possibly compacted further
    pub open spec fn same_log(self, n: SV<T>) -> bool {
        n.end() == self.end() && n.stopsign == self.stopsign && self.trim <= n.trim && forall|i: int| n.trim <= i < n.end() ==> #[trigger] n.log[i - n.trim] == self.log[i - self.trim]
    }
    // a server accepts only in the round it has promised: its accepted round becomes the promised one, and while the
    // accepted round stays, the accepted log changes only if no higher round was promised
    pub open spec fn accepts(self, n: SV<T>) -> bool {
        if s_bor(n.acc_round) == s_bor(self.acc_round) { self.same_log(n) || s_bor(self.acc_round) == s_bor(self.promise) } else { s_bor(n.acc_round) == s_bor(n.promise) }
    }
}
pub open spec fn s_prefix_app<A>(l: Seq<A>, k: int, e: Seq<A>) -> Seq<A> { l.take(k) + e }
pub broadcast proof fn bl_prefix_app_all<A>(l: Seq<A>, k: int, e: Seq<A>)
    requires k == 0
    ensures #[trigger] s_prefix_app(l, k, e) == e
{ assert(l.take(k) + e =~= e); }
pub open spec fn s_op_ok<T: Entry>(v: SV<T>, o: StorageOp<T>) -> bool {
    match o {
        StorageOp::AppendOnPrefix(from, e) => v.trim <= from <= v.end(),
        StorageOp::Trim(i) => v.trim <= i,
        _ => true,
    }
}
pub open spec fn s_op_apply<T: Entry>(v: SV<T>, o: StorageOp<T>) -> SV<T> {
    match o {
        StorageOp::AppendEntry(e) => SV { log: v.log.push(e), ..v },
        StorageOp::AppendEntries(es) => SV { log: v.log + es@, ..v },
        StorageOp::AppendOnPrefix(from, es) => SV { log: s_prefix_app(v.log, from - v.trim, es@), ..v },
        StorageOp::SetPromise(b) => SV { promise: Some(b), ..v },
        StorageOp::SetDecidedIndex(i) => SV { decided: i as int, ..v },
        StorageOp::SetAcceptedRound(b) => SV { acc_round: Some(b), ..v },
        StorageOp::SetCompactedIdx(i) => SV { compacted: i as int, ..v },
        StorageOp::Trim(i) => SV { log: v.log.skip(if i - v.trim < v.log.len() { i - v.trim } else { v.log.len() as int }), trim: i as int, ..v },
        StorageOp::SetStopsign(s) => SV { stopsign: s, ..v },
        StorageOp::SetSnapshot(s) => SV { snapshot: s, ..v },
    }
}
// trimming past the end leaves a gap that only an append to a prefix closes
pub open spec fn s_op_gap<T: Entry>(v: SV<T>, g: bool, o: StorageOp<T>) -> bool {
    match o { StorageOp::Trim(i) => g || i > v.end(), StorageOp::AppendOnPrefix(from, e) => false, _ => g }
}
pub open spec fn s_op_nogap<T: Entry>(g: bool, o: StorageOp<T>) -> bool {
    match o { StorageOp::AppendEntry(e) => !g, StorageOp::AppendEntries(e) => !g, _ => true }
}
pub open spec fn s_gap<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>) -> bool decreases ops.len()
{ if ops.len() == 0 { false } else { s_op_gap(s_ops_apply(v, ops.drop_last()), s_gap(v, ops.drop_last()), ops.last()) } }
pub open spec fn s_ops_ok<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>) -> bool decreases ops.len()
{ if ops.len() == 0 { true } else { s_ops_ok(v, ops.drop_last()) && s_op_ok(s_ops_apply(v, ops.drop_last()), ops.last()) && s_op_nogap(s_gap(v, ops.drop_last()), ops.last()) } }
pub open spec fn s_ops_apply<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>) -> SV<T> decreases ops.len()
{ if ops.len() == 0 { v } else { s_op_apply(s_ops_apply(v, ops.drop_last()), ops.last()) } }
pub broadcast proof fn bl_ops_push<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>, o: StorageOp<T>)
    ensures #[trigger] s_ops_apply(v, ops.push(o)) == s_op_apply(s_ops_apply(v, ops), o)
{ assert(ops.push(o).drop_last() =~= ops); }
pub broadcast proof fn bl_ops_ok_push<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>, o: StorageOp<T>)
    ensures #[trigger] s_ops_ok(v, ops.push(o)) == (s_ops_ok(v, ops) && s_op_ok(s_ops_apply(v, ops), o) && s_op_nogap(s_gap(v, ops), o))
{ assert(ops.push(o).drop_last() =~= ops); }
pub broadcast proof fn bl_ops_2<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 2
    ensures #[trigger] s_ops_apply(v, s) == s_op_apply(s_op_apply(v, s[0]), s[1])
{ reveal_with_fuel(s_ops_apply, 3); }
pub broadcast proof fn bl_ops_ok_2<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 2
    ensures #[trigger] s_ops_ok(v, s) == (s_op_ok(v, s[0]) && s_op_ok(s_op_apply(v, s[0]), s[1]) && s_op_nogap(s_op_gap(v, false, s[0]), s[1]))
{ reveal_with_fuel(s_ops_ok, 3); reveal_with_fuel(s_ops_apply, 3); reveal_with_fuel(s_gap, 3); }
pub broadcast proof fn bl_ops_3<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 3
    ensures #[trigger] s_ops_apply(v, s) == s_op_apply(s_op_apply(s_op_apply(v, s[0]), s[1]), s[2])
{ reveal_with_fuel(s_ops_apply, 4); }
pub broadcast proof fn bl_ops_ok_3<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 3
    ensures #[trigger] s_ops_ok(v, s) == (s_op_ok(v, s[0]) && s_op_ok(s_op_apply(v, s[0]), s[1]) && s_op_ok(s_op_apply(s_op_apply(v, s[0]), s[1]), s[2])
        && s_op_nogap(s_op_gap(v, false, s[0]), s[1]) && s_op_nogap(s_op_gap(s_op_apply(v, s[0]), s_op_gap(v, false, s[0]), s[1]), s[2]))
{ reveal_with_fuel(s_ops_ok, 4); reveal_with_fuel(s_ops_apply, 4); reveal_with_fuel(s_gap, 4); }
pub broadcast proof fn bl_gap_push<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>, o: StorageOp<T>)
    ensures #[trigger] s_gap(v, ops.push(o)) == s_op_gap(s_ops_apply(v, ops), s_gap(v, ops), o)
{ assert(ops.push(o).drop_last() =~= ops); }
pub broadcast proof fn bl_gap_2<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 2
    ensures #[trigger] s_gap(v, s) == s_op_gap(s_op_apply(v, s[0]), s_op_gap(v, false, s[0]), s[1])
{ reveal_with_fuel(s_ops_apply, 3); reveal_with_fuel(s_gap, 3); }
pub broadcast proof fn bl_gap_3<T: Entry>(v: SV<T>, s: Seq<StorageOp<T>>)
    requires s.len() == 3
    ensures #[trigger] s_gap(v, s) == s_op_gap(s_op_apply(s_op_apply(v, s[0]), s[1]), s_op_gap(s_op_apply(v, s[0]), s_op_gap(v, false, s[0]), s[1]), s[2])
{ reveal_with_fuel(s_ops_apply, 4); reveal_with_fuel(s_gap, 4); }
pub broadcast group group_ops { bl_ops_2, bl_ops_ok_2, bl_ops_3, bl_ops_ok_3, bl_ops_push, bl_ops_ok_push, bl_gap_push, bl_gap_2, bl_gap_3, bl_prefix_app_all }
pub proof fn lemma_ops_empty<T: Entry>(v: SV<T>)
    ensures s_ops_apply(v, Seq::<StorageOp<T>>::empty()) == v, s_ops_ok(v, Seq::<StorageOp<T>>::empty())
{ }
pub proof fn lemma_ops_prefix<T: Entry>(v: SV<T>, ops: Seq<StorageOp<T>>, k: int)
    requires 0 <= k <= ops.len(), s_ops_ok(v, ops)
    ensures s_ops_ok(v, ops.take(k))
    decreases ops.len()
{
    if k < ops.len() { lemma_ops_prefix(v, ops.drop_last(), k); assert(ops.drop_last().take(k) =~= ops.take(k)); }
    else { assert(ops.take(k) =~= ops); }
}
// every single durable write of the protocol code has to keep the on-disk state consistent
pub open spec fn s_wr<T: Entry>(guarded: bool, v: SV<T>, n: SV<T>) -> bool { guarded ==> n.ok() && v.step(n) }
@end

@trait Storage
    spec fn view(&self) -> SV<T>;
    spec fn swf(&self) -> bool;
    // true for the back end as the protocol code uses it; a back end's own implementation of one
    // operation through others is not itself a durable write of the protocol
    spec fn guarded() -> bool;
    // an in-memory back end does not fail
    spec fn infallible() -> bool;
    // trimming past the end of the log is fine on its own
    spec fn gap_ok() -> bool;
    // appending is defined in every state (append_on_prefix uses it half-way)
    spec fn loose() -> bool;
@end
@impl <MemoryStorage as Storage>
    open spec fn view(&self) -> SV<T> {
        SV { log: self.log@, trim: self.trimmed_idx as int, compacted: self.compacted_idx as int, decided: self.ld as int,
             promise: self.n_prom, acc_round: self.acc_round, stopsign: self.stopsign, snapshot: self.snapshot }
    }
    open spec fn swf(&self) -> bool { true }
    open spec fn guarded() -> bool { false }
    open spec fn infallible() -> bool { true }
    open spec fn gap_ok() -> bool { true }
    open spec fn loose() -> bool { false }
@end

@fn Storage::write_atomically [storage-backends, restart-recovery]
@requires
* old(self).swf() && s_ops_ok(old(self).view(), $1@) && !s_gap(old(self).view(), $1@)
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_ops_apply(old(self).view(), $1@))
@ensures
* [all-applied] res is Ok ==> final(self).view() == s_ops_apply(old(self).view(), $1@)
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::append_entry [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::AppendEntry($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::AppendEntry($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::append_entries [storage-backends]
@requires
* old(self).swf() || Self::loose()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::AppendEntries($1)))
@ensures
* [applied] res is Ok && old(self).swf() ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::AppendEntries($1))
* [wf] res is Ok && old(self).swf() ==> final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::append_on_prefix [storage-backends]
@requires
* old(self).swf() && s_op_ok(old(self).view(), StorageOp::AppendOnPrefix($1, $2))
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::AppendOnPrefix($1, $2)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::AppendOnPrefix($1, $2))
* [wf] res is Ok ==> final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_promise [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetPromise($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetPromise($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_decided_idx [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetDecidedIndex($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetDecidedIndex($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_accepted_round [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetAcceptedRound($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetAcceptedRound($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_stopsign [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetStopsign($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetStopsign($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::trim [storage-backends]
@requires
* old(self).swf() && s_op_ok(old(self).view(), StorageOp::Trim($1)) && (Self::gap_ok() || $1 <= old(self).view().end())
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::Trim($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::Trim($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_compacted_idx [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetCompactedIdx($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetCompactedIdx($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::set_snapshot [storage-backends]
@requires
* old(self).swf()
* [crash-consistent-write] s_wr(Self::guarded(), old(self).view(), s_op_apply(old(self).view(), StorageOp::SetSnapshot($1)))
@ensures
* [applied] res is Ok ==> final(self).view() == s_op_apply(old(self).view(), StorageOp::SetSnapshot($1))
* [none-applied] res is Err ==> final(self).view() == old(self).view()
* [wf] final(self).swf()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_decided_idx [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().decided
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_accepted_round [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().acc_round
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_entries [storage-backends]
@requires
* self.swf() && self.view().trim <= $1 && self.view().trim <= $2
@ensures
* [value] res is Ok && $1 <= $2 <= self.view().end() ==> res->Ok_0@ == self.view().range($1 as int, $2 as int)
* [empty] res is Ok && $1 >= $2 ==> res->Ok_0@.len() == 0
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_log_len [storage-backends]
@requires
* self.swf() && self.view().compacted == self.view().trim
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().log.len()
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_suffix [storage-backends]
@requires
* self.swf() && self.view().trim <= $1
@ensures
* [value] res is Ok && $1 <= self.view().end() ==> res->Ok_0@ == self.view().range($1 as int, self.view().end())
* [past-end] res is Ok && $1 > self.view().end() ==> res->Ok_0@.len() == 0
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_promise [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().promise
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_stopsign [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().stopsign
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_compacted_idx [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().compacted
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end
@fn Storage::get_snapshot [storage-backends]
@requires
* self.swf()
@ensures
* [value] res is Ok ==> res->Ok_0 == self.view().snapshot
* [not-user-error] (res is Err ==> res->Err_0 is Other) && (Self::infallible() ==> res is Ok)
@end

@fn <MemoryStorage as Storage>::write_atomically [storage-backends, restart-recovery]
@head
    broadcast use group_lists;
    broadcast use group_ops;
    let ghost v0 = self.view();
@loop
* s_ops_ok(v0, $it.seq())
* self.view() == s_ops_apply(v0, $it.seq().take($i))
> proof { lemma_ops_prefix(v0, $it.seq(), $i + 1); assert($it.seq().take($i + 1) =~= $it.seq().take($i).push($it.seq()[$i])); }
@end
@fn <MemoryStorage as Storage>::append_entry [storage-backends]
@end
@fn <MemoryStorage as Storage>::append_entries [storage-backends]
@end
@fn <MemoryStorage as Storage>::append_on_prefix [storage-backends]
@end
@fn <MemoryStorage as Storage>::set_promise [storage-backends]
@end
@fn <MemoryStorage as Storage>::set_decided_idx [storage-backends]
@end
@fn <MemoryStorage as Storage>::set_accepted_round [storage-backends]
@end
@fn <MemoryStorage as Storage>::set_stopsign [storage-backends]
@end
@fn <MemoryStorage as Storage>::trim [storage-backends, compaction-safe]
@end
@fn <MemoryStorage as Storage>::set_compacted_idx [storage-backends]
@end
@fn <MemoryStorage as Storage>::set_snapshot [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_decided_idx [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_accepted_round [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_entries [storage-backends, read-correct]
@end
@fn <MemoryStorage as Storage>::get_log_len [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_suffix [storage-backends, log-sync]
@end
@fn <MemoryStorage as Storage>::get_promise [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_stopsign [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_compacted_idx [storage-backends]
@end
@fn <MemoryStorage as Storage>::get_snapshot [storage-backends]
@end
@fn <MemoryStorage as Default>::default [storage-backends]
@ensures
* [empty] res.view() == (SV::<T> { log: Seq::empty(), trim: 0, compacted: 0, decided: 0, promise: None, acc_round: None, stopsign: None, snapshot: None })
* [consistent] res.view().ok()
@end
