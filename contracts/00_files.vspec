// Which sources are extracted and what is dropped.
@file omnipaxos/src/errors.rs
@file omnipaxos/src/ballot_leader_election.rs
@file omnipaxos/src/util.rs
@file omnipaxos/src/messages.rs
@file omnipaxos/src/storage/mod.rs
@file omnipaxos/src/storage/state_cache.rs
@file omnipaxos/src/storage/internal_storage.rs
@file omnipaxos/src/sequence_paxos/mod.rs
@file omnipaxos/src/sequence_paxos/follower.rs
@file omnipaxos/src/sequence_paxos/leader.rs
@file omnipaxos/src/omni_paxos.rs
@file omnipaxos_storage/src/memory_storage.rs
@structural Ballot SequenceNumber FlexibleQuorum Role Phase MessageStatus
// user-supplied traits: replaced by the opaque declarations below
@drop trait Entry
@drop trait Snapshot
@drop <NoSnapshot as Snapshot>
@drop NoSnapshot
// not needed by any property (equality of results in user code, UI)
@drop <LogEntry as PartialEq>
@drop <SnapshottedEntry as PartialEq>
@drop OmniPaxos::get_ui_states
@drop BallotLeaderElection::get_ballots
@drop ConfigError

@verus
// ---------- user-supplied code (trusted contracts) ----------
// An entry type; its snapshot type is opaque here, `create`/`merge` are given by uninterpreted
// functions with the algebraic law every Snapshot implementation has to satisfy.
pub trait Entry: Sized + Clone { type Snapshot: Clone; }
pub uninterp spec fn s_sm_create<T: Entry>(e: Seq<T>) -> T::Snapshot;
pub uninterp spec fn s_sm_merge<S>(a: S, b: S) -> S;
pub uninterp spec fn s_sm_use<T: Entry>() -> bool;
#[verifier::external_body]
pub fn snap_create<T: Entry>(e: &[T]) -> (r: T::Snapshot) ensures r == s_sm_create::<T>(e@) { unimplemented!() }
#[verifier::external_body]
pub fn snap_merge<S>(a: &mut S, b: S) ensures *final(a) == s_sm_merge(*old(a), b) { unimplemented!() }
#[verifier::external_body]
pub fn snap_use<T: Entry>() -> (r: bool) ensures r == s_sm_use::<T>() { unimplemented!() }
// ---------- UniCache off: entries travel as they are ----------
pub type Wire<T> = T;
impl<T: Entry> StateCache<T> { pub open spec fn uc(&self) -> () { () } }
impl<I: Storage<T>, T: Entry> InternalStorage<I, T> { pub open spec fn uc(&self) -> () { () } }
pub open spec fn s_uc_ok(a: ()) -> bool { true }
pub open spec fn s_uc_new(a: ()) -> bool { true }
pub open spec fn s_asuc<T: Entry>(a: AcceptSync<T>) -> () { () }
pub open spec fn s_uc_mirr(a: (), b: ()) -> bool { true }
pub open spec fn s_wire<T>(a: (), x: Seq<T>) -> Seq<T> { x }
pub open spec fn s_wire_uc<T>(a: (), x: Seq<T>) -> () { () }
pub open spec fn s_plain<T>(a: (), w: Seq<T>) -> Seq<T> { w }
pub open spec fn s_plain_uc<T>(a: (), w: Seq<T>) -> () { () }
pub open spec fn s_can<T>(a: (), w: Seq<T>) -> bool { true }
@end
