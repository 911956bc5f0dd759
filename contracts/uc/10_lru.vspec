// ---- LRUniCache over a trusted model of the lru crate ----
// Clone of the caches has a precondition (their invariant), which the trait of std cannot state
@retrait Clone VpCloned
@drop <LruWrapper as Deref>
@drop <LruWrapper as DerefMut>
@verus
pub trait VpCloned: Sized { spec fn cl_inv(&self) -> bool; fn clone(&self) -> (r: Self) requires self.cl_inv(); }
impl<A: DefaultEncoded> VpTake for A {
    open spec fn vp_empty(&self) -> bool { self.idx() == 0 }
    #[verifier::external_body] fn vp_take_(&mut self) -> (r: Self) { unimplemented!() }
}
pub struct NonZeroUsize { pub n: usize }
impl Clone for NonZeroUsize { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for NonZeroUsize { }
impl NonZeroUsize {
    pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures n == 0 ==> r is None, n != 0 ==> r == Some(NonZeroUsize { n }) { if n == 0 { None } else { Some(NonZeroUsize { n }) } }
}
// lru::LruCache: the items, most recently used first
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct LruCache<K, V> { k: PhantomData<(K, V)> }
pub open spec fn s_hask<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn s_idxk<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn s_front<K, V>(s: Seq<(K, V)>, i: int) -> Seq<(K, V)> { seq![s[i]] + s.remove(i) }
pub open spec fn s_push<K, V>(s: Seq<(K, V)>, cap: int, k: K, v: V) -> Seq<(K, V)> {
    if s_hask(s, k) { seq![(k, v)] + s.remove(s_idxk(s, k)) }
    else if s.len() >= cap { seq![(k, v)] + s.drop_last() }
    else { seq![(k, v)] + s }
}
impl<K, V> LruCache<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    pub uninterp spec fn scap(&self) -> int;
    #[verifier::external_body]
    pub fn new(c: NonZeroUsize) -> (r: Self) ensures r@ == Seq::<(K, V)>::empty(), r.scap() == c.n { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&mut self, k: &K) -> (r: Option<&V>)
        ensures final(self).scap() == old(self).scap(),
            match r { Some(v) => s_hask(old(self)@, *k) && *v == old(self)@[s_idxk(old(self)@, *k)].1 && final(self)@ == s_front(old(self)@, s_idxk(old(self)@, *k)),
                None => !s_hask(old(self)@, *k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => s_hask(self@, *k) && *v == self@[s_idxk(self@, *k)].1, None => !s_hask(self@, *k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r <==> s_hask(self@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_lru(&mut self) -> (r: Option<(K, V)>)
        ensures final(self).scap() == old(self).scap(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, k: K, v: V) -> (r: Option<(K, V)>)
        ensures final(self).scap() == old(self).scap(), final(self)@ == s_push(old(self)@, old(self).scap(), k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).scap() == old(self).scap(), final(self)@ == s_push(old(self)@, old(self).scap(), k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter_rev(&self) -> (r: Vec<(&K, &V)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self@[self@.len() - 1 - i].0 && *r@[i].1 == self@[self@.len() - 1 - i].1 { unimplemented!() }
    // what the iterator yields, in its order
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self@[i].0 && *r@[i].1 == self@[i].1 { unimplemented!() }
}
// the wrapper dereferences to the cache
pub struct LruWrapper<K, V>(pub LruCache<K, V>);
impl<K, V> LruWrapper<K, V> {
    pub open spec fn view(&self) -> Seq<(K, V)> { self.0@ }
    pub fn get(&mut self, k: &K) -> (r: Option<&V>)
        ensures final(self).0.scap() == old(self).0.scap(),
            match r { Some(v) => s_hask(old(self)@, *k) && *v == old(self)@[s_idxk(old(self)@, *k)].1 && final(self)@ == s_front(old(self)@, s_idxk(old(self)@, *k)),
                None => !s_hask(old(self)@, *k) && final(self)@ == old(self)@ }
    { self.0.get(k) }
    pub fn peek(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => s_hask(self@, *k) && *v == self@[s_idxk(self@, *k)].1, None => !s_hask(self@, *k) } { self.0.peek(k) }
    pub fn contains(&self, k: &K) -> (r: bool) ensures r <==> s_hask(self@, *k) { self.0.contains(k) }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.0.len() }
    pub fn pop_lru(&mut self) -> (r: Option<(K, V)>)
        ensures final(self).0.scap() == old(self).0.scap(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()
    { self.0.pop_lru() }
    pub fn push(&mut self, k: K, v: V) -> (r: Option<(K, V)>)
        ensures final(self).0.scap() == old(self).0.scap(), final(self)@ == s_push(old(self)@, old(self).0.scap(), k, v) { self.0.push(k, v) }
    pub fn put(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).0.scap() == old(self).0.scap(), final(self)@ == s_push(old(self)@, old(self).0.scap(), k, v) { self.0.put(k, v) }
}

// ---- what encoding and decoding do to the two halves of the cache ----
pub open spec fn s_swap<K, V>(s: Seq<(K, V)>) -> Seq<(V, K)> { Seq::new(s.len(), |i: int| (s[i].1, s[i].0)) }
pub open spec fn s_distinct<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
// encodings in use were given out before
pub open spec fn s_used<V: DefaultEncoded, K>(s: Seq<(V, K)>, top: V) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.idx() <= top.idx() }
pub open spec fn s_half<K, V: DefaultEncoded>(s: Seq<(V, K)>, top: V, size: int) -> bool { s_distinct(s) && s_used(s, top) && s.len() <= size }
impl<Encodable: DefaultEncodable, Encoded: DefaultEncoded> LRUniCache<Encodable, Encoded> {
    pub open spec fn winv(&self) -> bool {
        // (deserialized halves are unbounded, the cache evicts by its own size)
        &&& self.size > 0 && self.size <= Encoded::top() && self.encoding.idx() <= self.lru_cache_encoder@.len() && self.decoding.idx() <= self.lru_cache_decoder@.len()
        &&& self.lru_cache_encoder.0.scap() >= self.size && self.lru_cache_decoder.0.scap() >= self.size
        &&& s_distinct(self.lru_cache_encoder@) && s_half(s_swap(self.lru_cache_encoder@), self.encoding, self.size as int)
        &&& s_half(self.lru_cache_decoder@, self.decoding, self.size as int)
    }
    // the decoding half of d is the mirror image of the encoding half of self
    pub open spec fn mirrored(&self, d: &Self) -> bool {
        d.lru_cache_decoder@ == s_swap(self.lru_cache_encoder@) && d.decoding.idx() == self.encoding.idx() && d.size == self.size
    }
    pub open spec fn same_dec(&self, o: &Self) -> bool { self.lru_cache_decoder == o.lru_cache_decoder && self.decoding == o.decoding && self.size == o.size }
    pub open spec fn same_enc(&self, o: &Self) -> bool { self.lru_cache_encoder == o.lru_cache_encoder && self.encoding == o.encoding && self.size == o.size }
}
pub open spec fn s_fresh<V: DefaultEncoded>(n: V, o: V) -> bool { n.idx() == o.idx() + 1 }
// encoding x turns the items s into t and yields m
pub open spec fn s_enc<K, V: DefaultEncoded>(s: Seq<(K, V)>, top: V, size: int, x: K, m: MaybeEncoded<K, V>, t: Seq<(K, V)>, top2: V) -> bool {
    if s_hask(s, x) { m == MaybeEncoded::<K, V>::Encoded(s[s_idxk(s, x)].1) && t == s_front(s, s_idxk(s, x)) && top2 == top }
    else if s.len() == size { m == MaybeEncoded::<K, V>::NotEncoded(x) && t == seq![(x, s.last().1)] + s.drop_last() && top2 == top }
    else { m == MaybeEncoded::<K, V>::NotEncoded(x) && t == seq![(x, top2)] + s && s_fresh(top2, top) }
}
// decoding m turns the items s into t and yields x
pub open spec fn s_dec<K, V: DefaultEncoded>(s: Seq<(V, K)>, top: V, size: int, m: MaybeEncoded<K, V>, x: K, t: Seq<(V, K)>, top2: V) -> bool {
    match m {
        MaybeEncoded::Encoded(e) => s_hask(s, e) && x == s[s_idxk(s, e)].1 && t == s_front(s, s_idxk(s, e)) && top2 == top,
        MaybeEncoded::NotEncoded(y) => x == y && (if s.len() == size { t == seq![(s.last().0, y)] + s.drop_last() && top2 == top } else { t == seq![(top2, y)] + s && s_fresh(top2, top) }),
    }
}
// an encoding is determined by its number
pub broadcast proof fn lemma_idx<V: DefaultEncoded>(a: V, b: V)
    ensures #[trigger] a.idx() == #[trigger] b.idx() ==> a == b
{ V::idx_eq(a, b); }
proof fn lemma_idxk<K, V>(s: Seq<(K, V)>, i: int)
    requires s_distinct(s), 0 <= i < s.len()
    ensures s_hask(s, s[i].0), s_idxk(s, s[i].0) == i
{
    let j = s_idxk(s, s[i].0);
    assert(s[i].0 == s[i].0);
    assert(0 <= j < s.len() && s[j].0 == s[i].0);
}
proof fn lemma_front<K, V: DefaultEncoded>(s: Seq<(V, K)>, i: int, top: V, size: int)
    requires s_half(s, top, size), 0 <= i < s.len()
    ensures s_half(s_front(s, i), top, size)
{ }
// a key that is not in s, or that belongs to the popped last item, can be put in front
proof fn lemma_prepend<K, V: DefaultEncoded>(s: Seq<(V, K)>, top: V, size: int, v: V, k: K, top2: V)
    requires s_half(s, top, size), !s_hask(s, v), s.len() < size, v.idx() <= top2.idx(), top.idx() <= top2.idx()
    ensures s_half(seq![(v, k)] + s, top2, size)
{
    let t = seq![(v, k)] + s;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
        assert(t[j] == s[j - 1]); if i > 0 { assert(t[i] == s[i - 1]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.idx() <= top2.idx() by { if i > 0 { assert(t[i] == s[i - 1]); } }
}
proof fn lemma_drop_last<K, V: DefaultEncoded>(s: Seq<(V, K)>, top: V, size: int)
    requires s_half(s, top, size), s.len() > 0
    ensures s_half(s.drop_last(), top, size), !s_hask(s.drop_last(), s.last().0)
{ }
pub proof fn lemma_enc_inv<K, V: DefaultEncoded>(s: Seq<(K, V)>, top: V, size: int, x: K, m: MaybeEncoded<K, V>, t: Seq<(K, V)>, top2: V)
    requires s_distinct(s), s_half(s_swap(s), top, size), size > 0, s_enc(s, top, size, x, m, t, top2)
    ensures s_distinct(t), s_half(s_swap(t), top2, size)
{
    let w = s_swap(s);
    assert(forall|i: int| 0 <= i < s.len() ==> w[i] == (s[i].1, s[i].0));
    if s_hask(s, x) {
        let i = s_idxk(s, x);
        assert(s_swap(t) =~= s_front(w, i));
        lemma_front(w, i, top, size);
    } else if s.len() == size {
        assert(s_swap(t) =~= seq![(s.last().1, x)] + w.drop_last());
        lemma_drop_last(w, top, size);
        lemma_prepend(w.drop_last(), top, size, s.last().1, x, top);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
            assert(t[j] == s[j - 1]); if i > 0 { assert(t[i] == s[i - 1]); }
        }
    } else {
        assert(s_swap(t) =~= seq![(top2, x)] + w);
        assert(!s_hask(w, top2));
        lemma_prepend(w, top, size, top2, x, top2);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
            assert(t[j] == s[j - 1]); if i > 0 { assert(t[i] == s[i - 1]); }
        }
    }
}
pub proof fn lemma_dec_inv<K, V: DefaultEncoded>(s: Seq<(V, K)>, top: V, size: int, x: K, m: MaybeEncoded<K, V>, t: Seq<(V, K)>, top2: V)
    requires s_half(s, top, size), size > 0, s_dec(s, top, size, m, x, t, top2)
    ensures s_half(t, top2, size)
{
    match m {
        MaybeEncoded::Encoded(e) => { lemma_front(s, s_idxk(s, e), top, size); },
        MaybeEncoded::NotEncoded(y) => {
            if s.len() == size { lemma_drop_last(s, top, size); lemma_prepend(s.drop_last(), top, size, s.last().0, y, top); }
            else { assert(!s_hask(s, top2)); lemma_prepend(s, top, size, top2, y, top2); }
        },
    }
}
// pushing the items of s onto an empty cache, oldest first
proof fn lemma_repush<K, V: DefaultEncoded>(s: Seq<(K, V)>, i: int, top: V, size: int, cap: int)
    requires s_half(s_swap(s), top, size), 0 <= i < s.len(), cap >= size
    ensures s_push(s_swap(s.skip(s.len() - i)), cap, s[s.len() - 1 - i].1, s[s.len() - 1 - i].0) == s_swap(s.skip(s.len() - i - 1))
{
    let w = s_swap(s); let n = s.len() - 1 - i; let t = s_swap(s.skip(n + 1));
    assert(forall|j: int| 0 <= j < t.len() ==> t[j] == w[n + 1 + j]);
    if s_hask(t, s[n].1) { let j = s_idxk(t, s[n].1); assert(w[n + 1 + j].0 == w[n].0); }
    assert(seq![(s[n].1, s[n].0)] + t =~= s_swap(s.skip(n)));
}
// decoding what was encoded with the mirrored half gives the value back, and the halves stay mirrored
pub proof fn lemma_lru_roundtrip<K: DefaultEncodable, V: DefaultEncoded>(e: LRUniCache<K, V>, e2: LRUniCache<K, V>, d: LRUniCache<K, V>, d2: LRUniCache<K, V>, x: K, y: K, m: MaybeEncoded<K, V>)
    requires e.winv(), d.winv(), e.mirrored(&d), d2.size == d.size, e2.size == e.size,
        s_enc(e.lru_cache_encoder@, e.encoding, e.size as int, x, m, e2.lru_cache_encoder@, e2.encoding),
        s_dec(d.lru_cache_decoder@, d.decoding, d.size as int, m, y, d2.lru_cache_decoder@, d2.decoding)
    ensures y == x, e2.mirrored(&d2)
{
    broadcast use lemma_idx;
    let s = e.lru_cache_encoder@; let w = d.lru_cache_decoder@;
    if s_hask(s, x) {
        let i = s_idxk(s, x);
        assert(w[i] == (s[i].1, s[i].0));
        lemma_idxk(w, i);
        assert(d2.lru_cache_decoder@ =~= s_swap(e2.lru_cache_encoder@));
    } else {
        assert(d2.lru_cache_decoder@ =~= s_swap(e2.lru_cache_encoder@));
    }
}
// and it can be decoded
pub proof fn lemma_lru_decodable<K: DefaultEncodable, V: DefaultEncoded>(e: LRUniCache<K, V>, e2: LRUniCache<K, V>, d: LRUniCache<K, V>, x: K, m: MaybeEncoded<K, V>)
    requires e.winv(), d.winv(), e.mirrored(&d), s_enc(e.lru_cache_encoder@, e.encoding, e.size as int, x, m, e2.lru_cache_encoder@, e2.encoding)
    ensures d.fc_can(m)
{
    let s = e.lru_cache_encoder@; let w = d.lru_cache_decoder@;
    if s_hask(s, x) { let i = s_idxk(s, x); assert(w[i] == (s[i].1, s[i].0)); }
}
@end
@trait FieldCache
    spec fn fc_top() -> nat;
    spec fn fc_inv(&self) -> bool;
    spec fn fc_can(&self, m: MaybeEncoded<Encodable, Encoded>) -> bool;
@end
@fn FieldCache::new [unicache-roundtrip]
@requires
* 0 < $1 <= Self::fc_top()
@ensures
* [inv] res.fc_inv()
@end
@fn FieldCache::try_encode [unicache-roundtrip]
@requires
* old(self).fc_inv()
@ensures
* [inv] final(self).fc_inv()
@end
@fn FieldCache::decode [unicache-roundtrip]
@requires
* old(self).fc_inv() && old(self).fc_can($1)
@ensures
* [inv] final(self).fc_inv()
@end
@impl <LRUniCache as FieldCache>
    open spec fn fc_top() -> nat { Encoded::top() }
    open spec fn fc_inv(&self) -> bool { self.winv() }
    open spec fn fc_can(&self, m: MaybeEncoded<Encodable, Encoded>) -> bool { m is Encoded ==> s_hask(self.lru_cache_decoder@, m->Encoded_0) }
@end
@fn <LRUniCache as FieldCache>::new [unicache-roundtrip]
@ensures
* [empty] res.lru_cache_encoder@.len() == 0 && res.lru_cache_decoder@.len() == 0 && res.encoding.idx() == 0 && res.decoding.idx() == 0 && res.size == $1
* [mirrored] res.mirrored(&res)
@tail
proof { assert(s_swap(__vp_r.lru_cache_encoder@) =~= __vp_r.lru_cache_decoder@); }
@end
@fn <LRUniCache as FieldCache>::try_encode [unicache-roundtrip]
@ensures
* [encoded] s_enc(old(self).lru_cache_encoder@, old(self).encoding, old(self).size as int, *$1, res, final(self).lru_cache_encoder@, final(self).encoding)
* [decoder-untouched] final(self).same_dec(old(self))
@tail
proof { lemma_enc_inv(old(self).lru_cache_encoder@, old(self).encoding, old(self).size as int, *$1, __vp_r, self.lru_cache_encoder@, self.encoding); }
@end
@fn <LRUniCache as FieldCache>::decode [unicache-roundtrip]
@ensures
* [decoded] s_dec(old(self).lru_cache_decoder@, old(self).decoding, old(self).size as int, $1, res, final(self).lru_cache_decoder@, final(self).decoding)
* [encoder-untouched] final(self).same_enc(old(self))
@end
@impl <LRUniCache as Clone>
    open spec fn cl_inv(&self) -> bool { self.winv() }
@end
@fn <LRUniCache as Clone>::clone [unicache-roundtrip]
@ensures
* [mirrored] self.mirrored(&res) && res.winv()
* [encoder-empty] res.lru_cache_encoder@.len() == 0 && res.encoding.idx() == 0
@head
proof { assert(self.lru_cache_encoder@.skip(0) =~= self.lru_cache_encoder@); }
@loop
* self.winv() && $acc.scap() >= self.size
* $acc@ == s_swap(self.lru_cache_encoder@.skip(self.lru_cache_encoder@.len() - $i))
> proof { lemma_repush(self.lru_cache_encoder@, $i, self.encoding, self.size as int, $acc.scap()); }
@end
