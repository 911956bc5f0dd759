// ---- PersistentStorage over a trusted model of RocksDB ----
@file omnipaxos_storage/src/persistent_storage.rs
@drop <PersistentStorageConfig as Default>
@drop PersistentStorage::new
@drop DEFAULT
@verus
// What the database holds: the state column and the log column (keyed by the log index).
pub struct DbV { pub st: Map<u128, Seq<u8>>, pub log: Map<int, Seq<u8>> }
impl DbV {
    pub open spec fn put(self, k: u128, v: Seq<u8>) -> DbV { DbV { st: self.st.insert(k, v), ..self } }
    pub open spec fn put_log(self, k: int, v: Seq<u8>) -> DbV { DbV { log: self.log.insert(k, v), ..self } }
    pub open spec fn del_log(self, a: int, b: int) -> DbV { DbV { log: Map::new(self.log.dom().filter(|k: int| !(a <= k < b)), |k: int| self.log[k]), ..self } }
}
pub trait VpBytes { spec fn by(&self) -> Seq<u8>; fn as_bytes(&self) -> (r: VBytes) ensures r.vby() == self.by(); }
#[verifier::external_body]
pub struct VBytes {}
impl VBytes { pub uninterp spec fn vby(&self) -> Seq<u8>; }
impl VpBytes for VBytes { open spec fn by(&self) -> Seq<u8> { self.vby() } #[verifier::external_body] fn as_bytes(&self) -> (r: VBytes) { unimplemented!() } }
impl VpBytes for Vec<u8> { open spec fn by(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn as_bytes(&self) -> (r: VBytes) { unimplemented!() } }
impl<'a, A: VpBytes> VpBytes for &'a A { open spec fn by(&self) -> Seq<u8> { (**self).by() } #[verifier::external_body] fn as_bytes(&self) -> (r: VBytes) { unimplemented!() } }
// serialization: what is written can be read back
pub uninterp spec fn s_de<A>(b: Seq<u8>) -> A;
pub uninterp spec fn s_us(b: Seq<u8>) -> int;
pub mod bincode {
    use super::*;
    #[verifier::external_body]
    pub fn serialize<A>(x: &A) -> (r: Result<Vec<u8>, VErr>) ensures r is Ok ==> s_de::<A>(r->Ok_0@) == *x, r is Err ==> r->Err_0 is Other { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<A, B: VpBytes>(b: B) -> (r: Result<A, VErr>) ensures r is Ok ==> r->Ok_0 == s_de::<A>(b.by()), r is Err ==> r->Err_0 is Other { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_as_bytes(x: &usize) -> (r: VBytes) ensures s_us(r.by()) == *x { unimplemented!() }
#[verifier::external_body]
pub fn vp_read_from<B: VpBytes>(b: B) -> (r: Option<usize>) ensures r is Some && s_us(b.by()) == r->Some_0 { unimplemented!() }
pub struct VKey { pub k: Ghost<int> }
pub trait VpBe { fn vp_be(self) -> (r: VKey); }
impl VpBe for usize { fn vp_be(self) -> (r: VKey) ensures r.k@ == self { VKey { k: Ghost(self as int) } } }
pub open spec fn s_be(s: Seq<u8>) -> int {
    s[0] * 0x100000000000000 + s[1] * 0x1000000000000 + s[2] * 0x10000000000 + s[3] * 0x100000000 + s[4] * 0x1000000 + s[5] * 0x10000 + s[6] * 0x100 + s[7]
}
#[verifier::external_body]
pub fn vp_from_be(a: [u8; 8]) -> (r: usize) ensures r == s_be(a@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_drop<A>(a: A) { unimplemented!() }
impl VpErr<VErr> for ErrHelper {
    open spec fn vp_errs(self) -> VErr { VErr::Other }
    fn vp_err(self) -> (r: VErr) { VErr::Other }
}
#[derive(Clone, Copy)]
pub struct ColumnFamilyRef {}
#[verifier::external_body]
pub struct Options {}
impl Clone for Options { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct ColumnFamilyDescriptor {}
impl ColumnFamilyDescriptor { #[verifier::external_body] pub fn new(n: &str, o: Options) -> Self { unimplemented!() } }
pub uninterp spec fn s_disk(path: String) -> DbV;
#[verifier::external_body]
pub struct DB {}
pub mod rocksdb { pub use super::DB; }
impl DB {
    pub uninterp spec fn v(&self) -> DbV;
    #[verifier::external_body]
    pub fn open_cf_descriptors(o: &Options, path: String, c: Vec<ColumnFamilyDescriptor>) -> (r: Result<DB, VErr>) ensures r is Ok ==> r->Ok_0.v() == s_disk(path) { unimplemented!() }
    #[verifier::external_body]
    pub fn cf_handle(&self, n: &str) -> (r: Option<ColumnFamilyRef>) ensures r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: u128) -> (r: Result<Option<Vec<u8>>, VErr>)
        ensures r is Err ==> r->Err_0 is Other, r is Ok ==> (r->Ok_0 is Some <==> self.v().st.dom().contains(k)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0@ == self.v().st[k])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pinned(&self, k: u128) -> (r: Result<Option<VBytes>, VErr>)
        ensures r is Err ==> r->Err_0 is Other, r is Ok ==> (r->Ok_0 is Some <==> self.v().st.dom().contains(k)) && (r->Ok_0 is Some ==> r->Ok_0->Some_0.by() == self.v().st[k])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put<V: VpBytes>(&mut self, k: u128, v: V) -> (r: Result<(), VErr>)
        ensures r is Ok ==> final(self).v() == old(self).v().put(k, v.by()), r is Err ==> r->Err_0 is Other && final(self).v() == old(self).v()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_cf<V: VpBytes>(&mut self, c: ColumnFamilyRef, k: VKey, v: V) -> (r: Result<(), VErr>)
        ensures r is Ok ==> final(self).v() == old(self).v().put_log(k.k@, v.by()), r is Err ==> r->Err_0 is Other && final(self).v() == old(self).v()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_range_cf(&mut self, c: ColumnFamilyRef, a: VKey, b: VKey) -> (r: Result<(), VErr>)
        ensures r is Ok ==> final(self).v() == old(self).v().del_log(a.k@, b.k@), r is Err ==> r->Err_0 is Other && final(self).v() == old(self).v()
    { unimplemented!() }
    // RocksDB applies a batch atomically
    #[verifier::external_body]
    pub fn write(&mut self, b: WriteBatchWithTransaction<false>) -> (r: Result<(), VErr>)
        ensures r is Ok ==> final(self).v() == b.app(old(self).v()), r is Err ==> r->Err_0 is Other && final(self).v() == old(self).v()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_iterator_cf(&self, c: ColumnFamilyRef) -> (r: RawIter) ensures r.log() == self.v().log { unimplemented!() }
}
#[verifier::external_body]
pub struct WriteBatchWithTransaction<const B: bool> {}
impl<const B: bool> WriteBatchWithTransaction<B> {
    // the effect of writing the batch
    pub uninterp spec fn app(&self, d: DbV) -> DbV;
    pub open spec fn none(&self) -> bool { forall|d: DbV| #[trigger] self.app(d) == d }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.none() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).none() { unimplemented!() }
    #[verifier::external_body]
    pub fn put<V: VpBytes>(&mut self, k: u128, v: V) ensures forall|d: DbV| #[trigger] final(self).app(d) == old(self).app(d).put(k, v.by()) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_cf<V: VpBytes>(&mut self, c: ColumnFamilyRef, k: VKey, v: V) ensures forall|d: DbV| #[trigger] final(self).app(d) == old(self).app(d).put_log(k.k@, v.by()) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_range_cf(&mut self, c: ColumnFamilyRef, a: VKey, b: VKey) ensures forall|d: DbV| #[trigger] final(self).app(d) == old(self).app(d).del_log(a.k@, b.k@) { unimplemented!() }
}
impl<const B: bool> VpTake for WriteBatchWithTransaction<B> {
    open spec fn vp_empty(&self) -> bool { self.none() }
    #[verifier::external_body] fn vp_take_(&mut self) -> (r: Self) { unimplemented!() } }
// a raw iterator over the log column (of the state when it was made)
#[verifier::external_body]
pub struct RawIter {}
pub open spec fn s_ceil(log: Map<int, Seq<u8>>, k: int, p: Option<int>) -> bool {
    match p {
        Some(x) => (log.dom().contains(k) ==> x == k) && x >= k && log.dom().contains(x) && (forall|y: int| k <= y < x ==> !#[trigger] log.dom().contains(y)),
        None => !log.dom().contains(k) && forall|y: int| k <= y ==> !#[trigger] log.dom().contains(y),
    }
}
impl RawIter {
    pub uninterp spec fn log(&self) -> Map<int, Seq<u8>>;
    pub uninterp spec fn pos(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn seek(&mut self, k: VKey) ensures final(self).log() == old(self).log(), s_ceil(final(self).log(), k.k@, final(self).pos()) { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_to_last(&mut self) ensures final(self).log() == old(self).log(),
        final(self).pos() is None ==> (forall|y: int| !#[trigger] final(self).log().dom().contains(y)),
        final(self).pos() is Some ==> final(self).log().dom().contains(final(self).pos()->Some_0) && (forall|y: int| y > final(self).pos()->Some_0 ==> !#[trigger] final(self).log().dom().contains(y)) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) ensures final(self).log() == old(self).log(), old(self).pos() is Some ==> s_ceil(final(self).log(), old(self).pos()->Some_0 + 1, final(self).pos()) { unimplemented!() }
    #[verifier::external_body]
    pub fn valid(&self) -> (r: bool) ensures r == (self.pos() is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: Option<Vec<u8>>) ensures (r is Some) == (self.pos() is Some), r is Some ==> r->Some_0@.len() == 8 && s_be(r->Some_0@) == self.pos()->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: Option<VBytes>) ensures (r is Some) == (self.pos() is Some), r is Some ==> r->Some_0.by() == self.log()[self.pos()->Some_0] { unimplemented!() }
}
// ---- what the database says about the durable state ----
pub open spec fn s_stu(d: DbV, k: u128) -> int { if d.st.dom().contains(k) { s_us(d.st[k]) } else { 0 } }
pub open spec fn s_sto<A>(d: DbV, k: u128) -> Option<A> { if d.st.dom().contains(k) { Some(s_de::<A>(d.st[k])) } else { None } }
pub open spec fn s_stoo<A>(d: DbV, k: u128) -> Option<A> { if d.st.dom().contains(k) { s_de::<Option<A>>(d.st[k]) } else { None } }
pub open spec fn s_contig(d: DbV, t: int, next: int) -> bool { 0 <= t <= next && forall|k: int| #[trigger] d.log.dom().contains(k) <==> t <= k < next }
pub open spec fn s_some_contig(d: DbV, next: int) -> bool { exists|t: int| s_contig(d, t, next) }
pub open spec fn s_tr(d: DbV, next: int) -> int { choose|t: int| s_contig(d, t, next) }
pub open spec fn s_entries<T>(d: DbV, t: int, next: int) -> Seq<T> { Seq::new((next - t) as nat, |i: int| s_de::<T>(d.log[t + i])) }
pub open spec fn s_pv<T: Entry>(d: DbV, next: int) -> SV<T> {
    SV { log: s_entries::<T>(d, s_tr(d, next), next), trim: s_tr(d, next), compacted: s_stu(d, TRIM), decided: s_stu(d, DECIDE),
         promise: s_sto::<Ballot>(d, NPROM), acc_round: s_sto::<Ballot>(d, ACC), stopsign: s_stoo::<StopSign>(d, STOPSIGN), snapshot: s_stoo::<T::Snapshot>(d, SNAPSHOT) }
}
// v is what database d with next log key `next` stands for; gap: everything was trimmed past the end
pub open spec fn s_rel<T: Entry>(v: SV<T>, gap: bool, d: DbV, next: int) -> bool {
    &&& v.compacted == s_stu(d, TRIM) && v.decided == s_stu(d, DECIDE)
    &&& v.promise == s_sto::<Ballot>(d, NPROM) && v.acc_round == s_sto::<Ballot>(d, ACC)
    &&& v.stopsign == s_stoo::<StopSign>(d, STOPSIGN) && v.snapshot == s_stoo::<T::Snapshot>(d, SNAPSHOT)
    &&& (if gap { v.log.len() == 0 && 0 <= v.trim && forall|k: int| !#[trigger] d.log.dom().contains(k) }
         else { s_contig(d, v.trim, next) && v.log == s_entries::<T>(d, v.trim, next) })
}
// going from (d, n) to (d2, n2) is the effect of o on whatever (d, n) stands for
pub open spec fn s_batched<T: Entry>(o: StorageOp<T>, d: DbV, n: int, d2: DbV, n2: int) -> bool {
    forall|v: SV<T>, g: bool| #[trigger] s_rel::<T>(v, g, d, n) && s_op_ok(v, o) && s_op_nogap(g, o) ==> s_rel::<T>(s_op_apply(v, o), s_op_gap(v, g, o), d2, n2)
}
// d2 is d with the entries e under the keys n, n+1, ...
pub open spec fn s_puts<T>(d: DbV, n: int, e: Seq<T>, d2: DbV) -> bool {
    &&& d2.st == d.st
    &&& forall|k: int| #[trigger] d2.log.dom().contains(k) <==> d.log.dom().contains(k) || n <= k < n + e.len()
    &&& forall|k: int| d.log.dom().contains(k) && !(n <= k < n + e.len()) ==> #[trigger] d2.log[k] == d.log[k]
    &&& forall|k: int| n <= k < n + e.len() ==> s_de::<T>(#[trigger] d2.log[k]) == e[k - n]
}
pub broadcast proof fn bl_puts_step<T>(d: DbV, n: int, e: Seq<T>, d2: DbV, k: int, b: Seq<u8>)
    requires #[trigger] s_puts::<T>(d, n, e, d2), k == n + e.len()
    ensures s_puts::<T>(d, n, e.push(s_de::<T>(b)), #[trigger] d2.put_log(k, b))
{ }
pub broadcast proof fn bl_puts_app<T: Entry>(v: SV<T>, g: bool, d: DbV, n: int, e: Seq<T>, d2: DbV)
    requires #[trigger] s_rel::<T>(v, g, d, n), !g, #[trigger] s_puts::<T>(d, n, e, d2)
    ensures s_rel::<T>(SV { log: v.log + e, ..v }, false, d2, n + e.len())
{ assert(s_entries::<T>(d2, v.trim, n + e.len()) =~= v.log + e); }
pub broadcast proof fn bl_puts_prefix<T: Entry>(v: SV<T>, g: bool, d: DbV, n: int, d1: DbV, from: int, e: Seq<T>, d2: DbV)
    requires #[trigger] s_rel::<T>(v, g, d, n), #[trigger] s_puts::<T>(d1, from, e, d2), v.trim <= from <= v.end(),
        d1 == (if from + e.len() < n { d.del_log(from + e.len(), n) } else { d })
    ensures s_rel::<T>(SV { log: s_prefix_app(v.log, from - v.trim, e), ..v }, false, d2, from + e.len())
{
    let w = s_prefix_app(v.log, from - v.trim, e);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] s_de::<T>(d2.log[v.trim + i]) == w[i] by {
        if i < from - v.trim { assert(!g); assert(d.log.dom().contains(v.trim + i)); assert(d1.log.dom().contains(v.trim + i)); assert(d1.log[v.trim + i] == d.log[v.trim + i]); assert(s_entries::<T>(d, v.trim, n)[i] == s_de::<T>(d.log[v.trim + i])); }
    }
    assert(s_entries::<T>(d2, v.trim, from + e.len()) =~= w);
    assert(s_contig(d2, v.trim, from + e.len()));
}
pub broadcast proof fn bl_trim<T: Entry>(v: SV<T>, g: bool, d: DbV, n: int, i: int)
    requires #[trigger] s_rel::<T>(v, g, d, n), v.trim <= i
    ensures s_rel::<T>(SV { log: v.log.skip(if i - v.trim < v.log.len() { i - v.trim } else { v.log.len() as int }), trim: i, ..v }, g || i > v.end(), #[trigger] d.del_log(0, i), n)
{
    let d2 = d.del_log(0, i);
    let w = v.log.skip(if i - v.trim < v.log.len() { i - v.trim } else { v.log.len() as int });
    if !(g || i > v.end()) { assert(s_contig(d2, i, n)); assert(s_entries::<T>(d2, i, n) =~= w); }
}
// a database as a server leaves it behind
pub open spec fn s_disk_ok(d: DbV, n: int) -> bool { s_some_contig(d, n) && s_stu(d, TRIM) == s_tr(d, n) && n <= usize::MAX }
pub proof fn lemma_disk(d: DbV)
    ensures forall|n: int| #[trigger] s_disk_ok(d, n) ==> (forall|k: int| k >= n ==> !#[trigger] d.log.dom().contains(k))
        && (d.log.dom().contains(n - 1) || (n == s_stu(d, TRIM) && forall|k: int| !#[trigger] d.log.dom().contains(k)))
{
    assert forall|n: int| #[trigger] s_disk_ok(d, n) implies (forall|k: int| k >= n ==> !#[trigger] d.log.dom().contains(k))
        && (d.log.dom().contains(n - 1) || (n == s_stu(d, TRIM) && forall|k: int| !#[trigger] d.log.dom().contains(k))) by {
        let t = s_tr(d, n);
        assert(s_contig(d, t, n));
        if t < n { assert(d.log.dom().contains(n - 1)); }
    }
}
pub broadcast proof fn bl_put<T: Entry>(v: SV<T>, g: bool, d: DbV, n: int, k: u128, b: Seq<u8>)
    requires #[trigger] s_rel::<T>(v, g, d, n)
    ensures s_rel::<T>(SV {
        compacted: if k == TRIM { s_us(b) } else { v.compacted }, decided: if k == DECIDE { s_us(b) } else { v.decided },
        promise: if k == NPROM { Some(s_de::<Ballot>(b)) } else { v.promise }, acc_round: if k == ACC { Some(s_de::<Ballot>(b)) } else { v.acc_round },
        stopsign: if k == STOPSIGN { s_de::<Option<StopSign>>(b) } else { v.stopsign }, snapshot: if k == SNAPSHOT { s_de::<Option<T::Snapshot>>(b) } else { v.snapshot }, ..v },
        g, #[trigger] d.put(k, b), n)
{ if !g { assert(s_entries::<T>(d.put(k, b), v.trim, n) =~= s_entries::<T>(d, v.trim, n)); } }
pub broadcast proof fn bl_pv<T: Entry>(d: DbV, n: int)
    ensures s_some_contig(d, n) ==> s_rel::<T>(#[trigger] s_pv::<T>(d, n), false, d, n)
{ lemma_rel::<T>(d, n); }
pub broadcast proof fn bl_pv2<T: Entry>(v: SV<T>, g: bool, d: DbV, n: int)
    requires #[trigger] s_rel::<T>(v, g, d, n), !g
    ensures s_some_contig(d, n) && v == s_pv::<T>(d, n)
{ lemma_rel::<T>(d, n); }
pub broadcast group group_rel { bl_put, bl_pv, bl_pv2, bl_puts_step, bl_puts_app, bl_puts_prefix, bl_trim }
pub proof fn lemma_rel<T: Entry>(d: DbV, next: int)
    ensures s_some_contig(d, next) ==> s_rel::<T>(s_pv::<T>(d, next), false, d, next),
        forall|v: SV<T>| #[trigger] s_rel::<T>(v, false, d, next) ==> s_some_contig(d, next) && v == s_pv::<T>(d, next)
{
    assert forall|v: SV<T>| #[trigger] s_rel::<T>(v, false, d, next) implies s_some_contig(d, next) && v == s_pv::<T>(d, next) by {
        let t = s_tr(d, next);
        assert(s_contig(d, t, next));
        if t < v.trim { assert(d.log.dom().contains(t)); }
        if v.trim < t { assert(d.log.dom().contains(v.trim)); }
        assert(v =~= s_pv::<T>(d, next));
    }
}
impl<T: Entry> PersistentStorage<T> {
    pub open spec fn pend(&self) -> DbV { self.write_batch.app(self.db.v()) }
}
@end
@impl <PersistentStorage as Storage>
    open spec fn view(&self) -> SV<T> { s_pv::<T>(self.db.v(), self.next_log_key as int) }
    open spec fn swf(&self) -> bool { s_some_contig(self.db.v(), self.next_log_key as int) && self.write_batch.none() }
    open spec fn guarded() -> bool { false }
    open spec fn infallible() -> bool { false }
    open spec fn gap_ok() -> bool { false }
    open spec fn loose() -> bool { true }
@end
@fn PersistentStorage::open [storage-backends, restart-recovery]
@requires
* [disk] exists|n: int| s_disk_ok(s_disk($1.path), n)
@ensures
* [wf] res.swf()
* [same-as-before] forall|n: int| #[trigger] s_disk_ok(s_disk($1.path), n) ==> res.view() == s_pv::<T>(s_disk($1.path), n)
@head
    let ghost d = s_disk($1.path);
    proof { lemma_disk(d); }
    let ghost n0 = choose|n: int| s_disk_ok(d, n);
    proof { assert(s_disk_ok(d, n0)); }
@end
@fn PersistentStorage::get_log_handle [storage-backends]
@end
@fn PersistentStorage::batch_append_entry [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::AppendEntry($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [put] res is Ok ==> final(self).next_log_key == old(self).next_log_key + 1 && exists|b: Seq<u8>| #[trigger] s_de::<T>(b) == $1 && final(self).pend() == old(self).pend().put_log(old(self).next_log_key as int, b)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@head
    broadcast use group_rel;
    proof { assert(s_puts::<T>(self.pend(), self.next_log_key as int, Seq::<T>::empty(), self.pend())); }
@end
@fn PersistentStorage::batch_append_entries [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::AppendEntries($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [puts] res is Ok ==> s_puts::<T>(old(self).pend(), old(self).next_log_key as int, $1@, final(self).pend()) && final(self).next_log_key == old(self).next_log_key + $1@.len()
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@head
    broadcast use group_rel;
    broadcast use group_lists;
    let ghost d0 = self.pend(); let ghost n0 = self.next_log_key as int; let ghost db0 = self.db;
    proof { assert(s_puts::<T>(d0, n0, Seq::<T>::empty(), d0)); }
@loop
* self.db == db0 && self.next_log_key == n0 + $i
* s_puts::<T>(d0, n0, $it.seq().take($i), self.pend())
> proof { assert($it.seq().take($i + 1) =~= $it.seq().take($i).push($it.seq()[$i])); }
@end
@fn PersistentStorage::batch_append_on_prefix [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::AppendOnPrefix($1, $2), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@head
    broadcast use group_rel;
@end
@fn PersistentStorage::batch_set_promise [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetPromise($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::batch_set_decided_idx [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetDecidedIndex($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::batch_set_accepted_round [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetAcceptedRound($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::batch_set_compacted_idx [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetCompactedIdx($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::batch_trim [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::Trim($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@head
    broadcast use group_rel;
@end
@fn PersistentStorage::batch_set_stopsign [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetStopsign($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::batch_set_snapshot [storage-backends, restart-recovery]
@ensures
* [batched] res is Ok ==> s_batched::<T>(StorageOp::SetSnapshot($1), old(self).pend(), old(self).next_log_key as int, final(self).pend(), final(self).next_log_key as int)
* [not-written] final(self).db == old(self).db && (res is Err ==> res->Err_0 is Other)
@end
@fn PersistentStorage::write_batched_ops [storage-backends, restart-recovery]
@requires
* old(self).swf() && s_ops_ok(old(self).view(), $1@) && !s_gap(old(self).view(), $1@)
@ensures
* [all-applied] res is Ok ==> final(self).swf() && final(self).view() == s_ops_apply(old(self).view(), $1@)
* [none-written] res is Err ==> final(self).db.v() == old(self).db.v() && res->Err_0 is Other
@head
    broadcast use group_ops;
    broadcast use group_rel;
    broadcast use group_lists;
    let ghost v0 = self.view(); let ghost db0 = self.db;
    proof { lemma_rel::<T>(self.db.v(), self.next_log_key as int); }
@loop
* s_ops_ok(v0, $it.seq()) && self.db == db0
* s_rel::<T>(s_ops_apply(v0, $it.seq().take($i)), s_gap(v0, $it.seq().take($i)), self.pend(), self.next_log_key as int)
> proof { lemma_ops_prefix(v0, $it.seq(), $i + 1); assert($it.seq().take($i + 1) =~= $it.seq().take($i).push($it.seq()[$i])); }
@end
@fn <PersistentStorage as Storage>::write_atomically [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::append_entry [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
    proof { assert(s_puts::<T>(self.db.v(), self.next_log_key as int, Seq::<T>::empty(), self.db.v())); }
@end
@fn <PersistentStorage as Storage>::append_entries [storage-backends, restart-recovery]
@ensures
* [puts] res is Ok && old(self).write_batch.none() ==> s_puts::<T>(old(self).db.v(), old(self).next_log_key as int, $1@, final(self).db.v()) && final(self).next_log_key == old(self).next_log_key + $1@.len()
* [batch-untouched] final(self).write_batch == old(self).write_batch
@head
    broadcast use group_rel;
    broadcast use group_lists;
    let ghost d0 = self.db.v(); let ghost n0 = self.next_log_key as int; let ghost s0 = *self;
    proof { assert(s_puts::<T>(d0, n0, Seq::<T>::empty(), d0)); }
@loop
* self.db == s0.db && self.write_batch == s0.write_batch && self.next_log_key == n0 + $i
* s_puts::<T>(d0, n0, $it.seq().take($i), batch.app(d0))
> proof { assert($it.seq().take($i + 1) =~= $it.seq().take($i).push($it.seq()[$i])); }
@end
@fn <PersistentStorage as Storage>::append_on_prefix [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_promise [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_decided_idx [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_accepted_round [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_stopsign [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::trim [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_compacted_idx [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::set_snapshot [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::get_decided_idx [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_accepted_round [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_entries [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@loop
* s_contig(self.db.v(), self.view().trim, self.next_log_key as int) && self.view().trim <= from < to <= self.next_log_key
* iter.log() == self.db.v().log
* iter.pos() == (if from + $i < self.next_log_key { Some(from + $i) } else { None::<int> })
* entries@.len() == $i && forall|j: int| 0 <= j < $i ==> #[trigger] entries@[j] == s_de::<T>(self.db.v().log[from + j])
@end
@fn <PersistentStorage as Storage>::get_log_len [storage-backends, restart-recovery]
@head
    broadcast use group_rel;
@end
@fn <PersistentStorage as Storage>::get_suffix [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_promise [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_stopsign [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_compacted_idx [storage-backends, restart-recovery]
@end
@fn <PersistentStorage as Storage>::get_snapshot [storage-backends, restart-recovery]
@end
