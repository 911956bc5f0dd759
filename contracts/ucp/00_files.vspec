// The protocol with the UniCache (feature "unicache"): which sources are extracted and what is dropped.
@feature unicache
@file omnipaxos/src/errors.rs
@file omnipaxos/src/ballot_leader_election.rs
@file omnipaxos/src/util.rs
@file omnipaxos/src/messages.rs
@file omnipaxos/src/storage/mod.rs
@file omnipaxos/src/storage/state_cache.rs
@file omnipaxos/src/storage/internal_storage.rs
@file omnipaxos/src/sequence_paxos/mod.rs
@file omnipaxos/src/sequence_paxos/follower.rs
@file omnipaxos/src/sequence_paxos/leader.rs
@file omnipaxos/src/omni_paxos.rs
@file omnipaxos_storage/src/memory_storage.rs
@structural Ballot SequenceNumber FlexibleQuorum Role Phase MessageStatus
// user-supplied traits: replaced by the opaque declarations below
@drop trait Entry
@drop trait Snapshot
@drop <NoSnapshot as Snapshot>
@drop NoSnapshot
// not needed by any property (equality of results in user code, UI)
@drop <LogEntry as PartialEq>
@drop <SnapshottedEntry as PartialEq>
@drop OmniPaxos::get_ui_states
@drop BallotLeaderElection::get_ballots
@drop ConfigError

@verus
// ---------- user-supplied code (trusted contracts) ----------
// An entry type; its snapshot type is opaque here, `create`/`merge` are given by uninterpreted
// functions with the algebraic law every Snapshot implementation has to satisfy.
pub trait Entry: Sized + Clone { type Snapshot: Clone; type EncodeResult: Clone; type UniCache: UniCacheOf<Self, Self::EncodeResult>; }
pub uninterp spec fn s_sm_create<T: Entry>(e: Seq<T>) -> T::Snapshot;
pub uninterp spec fn s_sm_merge<S>(a: S, b: S) -> S;
pub uninterp spec fn s_sm_use<T: Entry>() -> bool;
#[verifier::external_body]
pub fn snap_create<T: Entry>(e: &[T]) -> (r: T::Snapshot) ensures r == s_sm_create::<T>(e@) { unimplemented!() }
#[verifier::external_body]
pub fn snap_merge<S>(a: &mut S, b: S) ensures *final(a) == s_sm_merge(*old(a), b) { unimplemented!() }
#[verifier::external_body]
pub fn snap_use<T: Entry>() -> (r: bool) ensures r == s_sm_use::<T>() { unimplemented!() }
// ---------- UniCache on: entries travel encoded ----------
// The user's UniCache (made of the field caches of contracts/uc, whose round trip is proved there): what it
// encodes and decodes is determined by its state, and a mirrored cache decodes what was encoded.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UV<T> { t: PhantomData<T> }
pub uninterp spec fn u_ok<T>(a: UV<T>) -> bool;
pub uninterp spec fn u_new<T>(a: UV<T>) -> bool;
pub uninterp spec fn u_mirr<T>(e: UV<T>, d: UV<T>) -> bool;
pub uninterp spec fn u_enc<T, R>(a: UV<T>, x: T) -> R;
pub uninterp spec fn u_enc_next<T>(a: UV<T>, x: T) -> UV<T>;
pub uninterp spec fn u_can<T, R>(a: UV<T>, m: R) -> bool;
pub uninterp spec fn u_dec<T, R>(a: UV<T>, m: R) -> T;
pub uninterp spec fn u_dec_next<T, R>(a: UV<T>, m: R) -> UV<T>;
pub axiom fn axiom_uc<T, R>(e: UV<T>, d: UV<T>, x: T)
    requires u_ok(e), u_ok(d), u_mirr(e, d)
    ensures u_ok(u_enc_next(e, x)), u_can(d, u_enc::<T, R>(e, x)), u_dec(d, u_enc::<T, R>(e, x)) == x, u_ok(u_dec_next(d, u_enc::<T, R>(e, x))), u_mirr(u_enc_next(e, x), u_dec_next(d, u_enc::<T, R>(e, x)));
pub trait UniCacheOf<T, R>: Sized {
    spec fn uv(&self) -> UV<T>;
    fn new() -> (r: Self) ensures u_ok(r.uv()), u_new(r.uv());
    fn try_encode(&mut self, e: &T) -> (r: R) requires u_ok(old(self).uv()) ensures u_ok(final(self).uv()), r == u_enc::<T, R>(old(self).uv(), *e), final(self).uv() == u_enc_next(old(self).uv(), *e);
    fn decode(&mut self, m: R) -> (r: T) requires u_ok(old(self).uv()), u_can(old(self).uv(), m) ensures u_ok(final(self).uv()), r == u_dec(old(self).uv(), m), final(self).uv() == u_dec_next(old(self).uv(), m);
    // Clone: the decoding half of the result mirrors the encoding half
    fn uc_clone(&self) -> (r: Self) requires u_ok(self.uv()) ensures u_ok(r.uv()), u_mirr(self.uv(), r.uv());
}
pub type Wire<T> = <T as Entry>::EncodeResult;
impl<T: Entry> StateCache<T> { pub open spec fn uc(&self) -> UV<T> { self.unicache.uv() } }
impl<I: Storage<T>, T: Entry> InternalStorage<I, T> { pub open spec fn uc(&self) -> UV<T> { self.state_cache.uc() } }
pub open spec fn s_uc_ok<T>(a: UV<T>) -> bool { u_ok(a) }
pub open spec fn s_uc_new<T>(a: UV<T>) -> bool { u_new(a) }
pub open spec fn s_asuc<T: Entry>(a: AcceptSync<T>) -> UV<T> { a.unicache.uv() }
pub open spec fn s_uc_mirr<T>(a: UV<T>, b: UV<T>) -> bool { u_mirr(a, b) }
pub open spec fn s_wire<T: Entry>(a: UV<T>, x: Seq<T>) -> Seq<T::EncodeResult> decreases x.len() { if x.len() == 0 { Seq::empty() } else { s_wire(a, x.drop_last()).push(u_enc::<T, T::EncodeResult>(s_wire_uc(a, x.drop_last()), x.last())) } }
pub open spec fn s_wire_uc<T>(a: UV<T>, x: Seq<T>) -> UV<T> decreases x.len() { if x.len() == 0 { a } else { u_enc_next(s_wire_uc(a, x.drop_last()), x.last()) } }
pub open spec fn s_plain<T, R>(a: UV<T>, w: Seq<R>) -> Seq<T> decreases w.len() { if w.len() == 0 { Seq::empty() } else { s_plain(a, w.drop_last()).push(u_dec::<T, R>(s_plain_uc(a, w.drop_last()), w.last())) } }
pub open spec fn s_plain_uc<T, R>(a: UV<T>, w: Seq<R>) -> UV<T> decreases w.len() { if w.len() == 0 { a } else { u_dec_next(s_plain_uc(a, w.drop_last()), w.last()) } }
pub open spec fn s_can<T, R>(a: UV<T>, w: Seq<R>) -> bool decreases w.len() { w.len() == 0 || (s_can(a, w.drop_last()) && u_can(s_plain_uc(a, w.drop_last()), w.last())) }
proof fn lemma_can_prefix<T, R>(a: UV<T>, w: Seq<R>, n: int)
    requires s_can(a, w), 0 <= n <= w.len()
    ensures s_can(a, w.take(n))
    decreases w.len()
{ if n == w.len() { assert(w.take(n) =~= w); } else { lemma_can_prefix(a, w.drop_last(), n); assert(w.drop_last().take(n) =~= w.take(n)); } }
// a mirrored cache decodes what was encoded, and stays mirrored
pub proof fn lemma_wire_roundtrip<T: Entry>(e: UV<T>, d: UV<T>, x: Seq<T>)
    requires u_ok(e), u_ok(d), u_mirr(e, d)
    ensures s_can(d, s_wire(e, x)), s_plain(d, s_wire(e, x)) == x, u_mirr(s_wire_uc(e, x), s_plain_uc(d, s_wire(e, x))), u_ok(s_wire_uc(e, x)), u_ok(s_plain_uc(d, s_wire(e, x)))
    decreases x.len()
{
    if x.len() > 0 {
        let y = x.drop_last(); let w = s_wire(e, x);
        lemma_wire_roundtrip(e, d, y);
        axiom_uc::<T, T::EncodeResult>(s_wire_uc(e, y), s_plain_uc(d, s_wire(e, y)), x.last());
        assert(w.drop_last() =~= s_wire(e, y));
        assert(s_plain(d, w) =~= x);
    } else { assert(s_plain(d, s_wire(e, x)) =~= x); }
}
// consecutive flushes in one message decode like one
pub proof fn lemma_wire_concat<T: Entry>(e: UV<T>, x: Seq<T>, y: Seq<T>)
    ensures s_wire(e, x + y) == s_wire(e, x) + s_wire(s_wire_uc(e, x), y), s_wire_uc(e, x + y) == s_wire_uc(s_wire_uc(e, x), y)
    decreases y.len()
{
    if y.len() > 0 {
        lemma_wire_concat(e, x, y.drop_last());
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert(s_wire(e, x + y) =~= s_wire(e, x) + s_wire(s_wire_uc(e, x), y));
    } else { assert(x + y =~= x); assert(s_wire(e, x) + s_wire(s_wire_uc(e, x), y) =~= s_wire(e, x)); }
}
// the decoder of a follower across the messages of one session, taken in order: the AcceptSync starts it, message i
// carries the entries xs[i]
pub open spec fn s_sess_enc<T: Entry>(e: UV<T>, xs: Seq<Seq<T>>) -> UV<T> decreases xs.len() { if xs.len() == 0 { e } else { s_wire_uc(s_sess_enc(e, xs.drop_last()), xs.last()) } }
pub open spec fn s_sess_wire<T: Entry>(e: UV<T>, xs: Seq<Seq<T>>, i: int) -> Seq<T::EncodeResult> { s_wire(s_sess_enc(e, xs.take(i)), xs[i]) }
pub open spec fn s_sess_dec<T: Entry>(e: UV<T>, d: UV<T>, xs: Seq<Seq<T>>) -> UV<T> decreases xs.len() { if xs.len() == 0 { d } else { s_plain_uc(s_sess_dec(e, d, xs.drop_last()), s_wire(s_sess_enc(e, xs.drop_last()), xs.last())) } }
pub proof fn lemma_session<T: Entry>(e: UV<T>, d: UV<T>, xs: Seq<Seq<T>>)
    requires u_ok(e), u_ok(d), u_mirr(e, d)
    ensures u_ok(s_sess_enc(e, xs)), u_ok(s_sess_dec(e, d, xs)), u_mirr(s_sess_enc(e, xs), s_sess_dec(e, d, xs)),
        forall|i: int| 0 <= i < xs.len() ==> s_can(s_sess_dec(e, d, xs.take(i)), #[trigger] s_sess_wire(e, xs, i)) && s_plain(s_sess_dec(e, d, xs.take(i)), s_sess_wire(e, xs, i)) == xs[i]
    decreases xs.len()
{
    if xs.len() > 0 {
        let ys = xs.drop_last(); let n = ys.len() as int;
        lemma_session(e, d, ys);
        lemma_wire_roundtrip(s_sess_enc(e, ys), s_sess_dec(e, d, ys), xs.last());
        assert forall|i: int| 0 <= i < xs.len() implies s_can(s_sess_dec(e, d, xs.take(i)), #[trigger] s_sess_wire(e, xs, i)) && s_plain(s_sess_dec(e, d, xs.take(i)), s_sess_wire(e, xs, i)) == xs[i] by {
            if i < n { assert(ys.take(i) =~= xs.take(i)); assert(s_sess_wire(e, ys, i) == s_sess_wire(e, xs, i)); } else { assert(xs.take(i) =~= ys); }
        }
    }
}
@end
@fn StateCache::encode_entries [unicache-roundtrip]
@requires
* s_uc_ok(old(self).uc())
@ensures
* [in-order] res@ == s_wire(old(self).uc(), $1@)
* [cache] final(self).uc() == s_wire_uc(old(self).uc(), $1@) && s_uc_ok(final(self).uc())
* [frame] final(self).same_but_uc(old(self))
@head
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@loop
* s_uc_ok(self.uc()) && self.same_but_uc(old(self))
* self.uc() == s_wire_uc(old(self).uc(), $1@.take($i)) && $acc@ == s_wire(old(self).uc(), $1@.take($i))
> proof { assert($1@.take($i + 1).drop_last() =~= $1@.take($i)); }
@end
@fn InternalStorage::decode_entries [unicache-roundtrip]
@requires
* s_uc_ok(old(self).uc())
* [decodable] s_can(old(self).uc(), $1@)
@ensures
* [in-order] res@ == s_plain(old(self).uc(), $1@)
* [cache] final(self).uc() == s_plain_uc(old(self).uc(), $1@) && s_uc_ok(final(self).uc())
* [frame] final(self).storage == old(self).storage && final(self).state_cache.same_but_uc(&old(self).state_cache)
@head
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@loop
* s_uc_ok(self.uc()) && self.storage == old(self).storage && self.state_cache.same_but_uc(&old(self).state_cache)
* self.uc() == s_plain_uc(old(self).uc(), $1@.take($i)) && $acc@ == s_plain(old(self).uc(), $1@.take($i))
> proof { lemma_can_prefix(old(self).uc(), $1@, $i + 1); assert($1@.take($i + 1).drop_last() =~= $1@.take($i)); }
@end
@fn InternalStorage::get_unicache [unicache-roundtrip]
@requires
* s_uc_ok(self.uc())
@ensures
* [mirrors] s_uc_mirr(self.uc(), res.uv()) && u_ok(res.uv())
@end
@fn InternalStorage::set_unicache [unicache-roundtrip]
@ensures
* [adopted] final(self).uc() == $1.uv() && final(self).storage == old(self).storage && final(self).state_cache.same_but_uc(&old(self).state_cache)
@end
