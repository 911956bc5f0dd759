// ---- LFUCache over the hash map and linked hash set of std and the linked_hash_set crate (trusted contracts) ----
@drop LfuIterator
@drop LfuConsumer
@drop <LfuIterator as Iterator>
@drop <LfuConsumer as Iterator>
@drop <LFUCache as IntoIterator>
@drop <LFUCache as Index>
@drop <LFUCache as Default>
@drop LFUCache::default
@drop <LinkedHashSetWrapper as Default>
@drop LFUCache::iter
// not called by the UniCache
@drop LFUCache::remove
@drop LFUCache::get_mut
@verus
// equality of keys is what == and the hash of the user's type decide
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: PhantomData<(K, V)> }
// s lists every item of m once
pub open spec fn s_listing<K, V>(m: Map<K, V>, s: Seq<(&K, &V)>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub trait VpDefault: Sized { spec fn vp_is_default(&self) -> bool; }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r <==> self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_at(&self, k: &K) -> (r: &V) requires self@.contains_key(*k), ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->Some_0 == old(self)@[*k] { unimplemented!() }
    // every item once, in some order
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>)
        ensures s_listing(self@, r@)
    { unimplemented!() }
}
impl<K, V: VpDefault> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vp_entry_or_default(&mut self, k: K) -> (r: &mut V)
        ensures old(self)@.contains_key(k) ==> *r == old(self)@[k], !old(self)@.contains_key(k) ==> r.vp_is_default(),
            final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
}
// linked_hash_set: the members in the order they were (last) inserted
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct LinkedHashSet<K> { k: PhantomData<K> }
impl<K> LinkedHashSet<K> {
    pub uninterp spec fn view(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures r <==> old(self)@.contains(*k), final(self)@ == s_without(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures r <==> !old(self)@.contains(k), final(self)@ == s_without(old(self)@, k).push(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<K>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<&K>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
impl<K: Hash + Eq + Clone> VpDefault for LinkedHashSetWrapper<K> { open spec fn vp_is_default(&self) -> bool { self.0@.len() == 0 } }
pub open spec fn s_without<K>(s: Seq<K>, k: K) -> Seq<K> { if s.contains(k) { s.remove(s.index_of(k)) } else { s } }
// collect(): into a map, or into a linked hash set; distinct items all end up in it
pub trait VpCollect<A>: Sized { spec fn vp_coll(s: Seq<A>, r: Self) -> bool; fn vp_collect_(v: Vec<A>) -> (r: Self) ensures Self::vp_coll(v@, r); }
pub fn vp_collect<A, C: VpCollect<A>>(v: Vec<A>) -> (r: C) ensures C::vp_coll(v@, r) { C::vp_collect_(v) }
impl<K, V> VpCollect<(K, V)> for HashMap<K, V> {
    open spec fn vp_coll(s: Seq<(K, V)>, r: Self) -> bool {
        s_distinct(s) ==> r@.dom().finite() && r@.len() == s.len() && (forall|k: K| #[trigger] r@.contains_key(k) <==> s_hask(s, k)) && (forall|i: int| 0 <= i < s.len() ==> r@[(#[trigger] s[i]).0] == s[i].1)
    }
    #[verifier::external_body] fn vp_collect_(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<K> VpCollect<K> for LinkedHashSet<K> {
    open spec fn vp_coll(s: Seq<K>, r: Self) -> bool { s.no_duplicates() ==> r@ == s }
    #[verifier::external_body] fn vp_collect_(v: Vec<K>) -> (r: Self) { unimplemented!() }
}

// ---- what an LFUCache holds ----
#[verifier::ext_equal]
pub struct LV<K, V> { pub vals: Map<K, ValueCounter<V>>, pub bins: spec_fn(int) -> Seq<K>, pub min: int }
impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
    pub open spec fn lv(&self) -> LV<K, V> { LV { vals: self.values@, bins: |c: int| if 0 <= c <= usize::MAX && self.frequency_bin@.contains_key(c as usize) { self.frequency_bin@[c as usize].0@ } else { Seq::empty() }, min: self.min_frequency as int } }
    pub open spec fn linv(&self) -> bool {
        s_lwf(self.lv()) && 0 < self.capacity && self.values@.len() <= self.capacity
    }
}
// keys and frequency bins agree
pub open spec fn s_lwf<K, V>(l: LV<K, V>) -> bool {
    &&& l.vals.dom().finite()
    &&& forall|k: K| #[trigger] l.vals.contains_key(k) ==> l.vals[k].count >= 1 && (l.bins)(l.vals[k].count as int).contains(k)
    &&& forall|c: int, i: int| 0 <= i < (l.bins)(c).len() ==> l.vals.contains_key(#[trigger] (l.bins)(c)[i]) && l.vals[(l.bins)(c)[i]].count == c
    &&& forall|c: int| (#[trigger] (l.bins)(c)).no_duplicates()
}
// the bin to evict from is the lowest and not empty
pub open spec fn s_lmin<K, V>(l: LV<K, V>) -> bool { l.vals.len() > 0 ==> (l.bins)(l.min).len() > 0 }
pub open spec fn s_touch<K, V>(l: LV<K, V>, k: K) -> LV<K, V> {
    if !l.vals.contains_key(k) { l } else {
        let c = l.vals[k].count as int;
        LV { vals: l.vals.insert(k, ValueCounter { value: l.vals[k].value, count: (c + 1) as usize }),
            bins: |f: int| if f == c { s_without((l.bins)(c), k) } else if f == c + 1 { (l.bins)(f).push(k) } else { (l.bins)(f) },
            min: if c == l.min && s_without((l.bins)(c), k).len() == 0 { l.min + 1 } else { l.min } }
    }
}
pub open spec fn s_evict<K, V>(l: LV<K, V>) -> LV<K, V> {
    LV { vals: l.vals.remove((l.bins)(l.min)[0]), bins: |f: int| if f == l.min { (l.bins)(f).skip(1) } else { (l.bins)(f) }, ..l }
}
pub open spec fn s_add<K, V>(l: LV<K, V>, k: K, v: V) -> LV<K, V> {
    LV { vals: l.vals.insert(k, ValueCounter { value: v, count: 1 }), bins: |f: int| if f == 1 { (l.bins)(f).push(k) } else { (l.bins)(f) }, min: 1 }
}
proof fn lemma_without<K>(s: Seq<K>, k: K)
    requires s.no_duplicates()
    ensures s_without(s, k).no_duplicates(), forall|x: K| #[trigger] s_without(s, k).contains(x) <==> s.contains(x) && x != k
{
    let t = s_without(s, k);
    if s.contains(k) {
        let n = s.index_of(k);
        assert(0 <= n < s.len() && s[n] == k);
        assert forall|x: K| #[trigger] t.contains(x) <==> s.contains(x) && x != k by {
            if t.contains(x) { let i = t.index_of(x); assert(t[i] == x); if i < n { assert(s[i] == x); } else { assert(s[i + 1] == x); } }
            if s.contains(x) && x != k { let i = s.index_of(x); assert(s[i] == x); if i < n { assert(t[i] == x); } else { assert(t[i - 1] == x); } }
        }
    }
}
proof fn lemma_push<K>(s: Seq<K>, k: K)
    requires s.no_duplicates(), !s.contains(k)
    ensures s.push(k).no_duplicates(), forall|x: K| #[trigger] s.push(k).contains(x) <==> s.contains(x) || x == k
{
    let t = s.push(k);
    assert forall|x: K| #[trigger] t.contains(x) <==> s.contains(x) || x == k by {
        if s.contains(x) { let i = s.index_of(x); assert(t[i] == x); }
        if x == k { assert(t[s.len() as int] == x); }
    }
}
proof fn lemma_touch<K, V>(l: LV<K, V>, k: K)
    requires s_lwf(l), l.vals.contains_key(k) ==> l.vals[k].count < usize::MAX
    ensures s_lwf(s_touch(l, k)), s_touch(l, k).vals.len() == l.vals.len(), s_lmin(l) ==> s_lmin(s_touch(l, k))
{
    if l.vals.contains_key(k) {
        let t = s_touch(l, k); let c = l.vals[k].count as int;
        lemma_without((l.bins)(c), k);
        assert(!(l.bins)(c + 1).contains(k));
        lemma_push((l.bins)(c + 1), k);
        assert forall|x: K| #[trigger] t.vals.contains_key(x) implies t.vals[x].count >= 1 && (t.bins)(t.vals[x].count as int).contains(x) by { assert(l.vals.contains_key(x)); }
        assert forall|f: int, i: int| 0 <= i < (t.bins)(f).len() implies t.vals.contains_key(#[trigger] (t.bins)(f)[i]) && t.vals[(t.bins)(f)[i]].count == f by {
            let x = (t.bins)(f)[i];
            assert((t.bins)(f).contains(x));
            if f != c + 1 || x != k { assert((l.bins)(f).contains(x)); let j = (l.bins)(f).index_of(x); assert((l.bins)(f)[j] == x); }
        }
        assert forall|f: int| (#[trigger] (t.bins)(f)).no_duplicates() by { assert((l.bins)(f).no_duplicates()); }
    }
}
proof fn lemma_evict<K, V>(l: LV<K, V>)
    requires s_lwf(l), (l.bins)(l.min).len() > 0
    ensures s_lwf(s_evict(l)), s_evict(l).vals.len() == l.vals.len() - 1, l.vals.contains_key((l.bins)(l.min)[0])
{
    let t = s_evict(l); let k = (l.bins)(l.min)[0];
    assert((l.bins)(l.min).no_duplicates());
    assert(l.vals.contains_key(k) && l.vals[k].count == l.min);
    assert forall|x: K| #[trigger] t.vals.contains_key(x) implies t.vals[x].count >= 1 && (t.bins)(t.vals[x].count as int).contains(x) by {
        assert(l.vals.contains_key(x));
        let c = l.vals[x].count as int;
        let i = (l.bins)(c).index_of(x);
        assert((l.bins)(c)[i] == x);
        if c == l.min { assert((t.bins)(c)[i - 1] == x); }
    }
    assert forall|f: int, i: int| 0 <= i < (t.bins)(f).len() implies t.vals.contains_key(#[trigger] (t.bins)(f)[i]) && t.vals[(t.bins)(f)[i]].count == f by {
        if f == l.min { assert((t.bins)(f)[i] == (l.bins)(f)[i + 1]); } else { assert((t.bins)(f)[i] == (l.bins)(f)[i]); }
    }
    assert forall|f: int| (#[trigger] (t.bins)(f)).no_duplicates() by { assert((l.bins)(f).no_duplicates()); }
}
proof fn lemma_add<K, V>(l: LV<K, V>, k: K, v: V)
    requires s_lwf(l), !l.vals.contains_key(k)
    ensures s_lwf(s_add(l, k, v)), s_add(l, k, v).vals.len() == l.vals.len() + 1, s_lmin(s_add(l, k, v)), !(l.bins)(1).contains(k)
{
    let t = s_add(l, k, v);
    assert(!(l.bins)(1).contains(k));
    lemma_push((l.bins)(1), k);
    assert forall|x: K| #[trigger] t.vals.contains_key(x) implies t.vals[x].count >= 1 && (t.bins)(t.vals[x].count as int).contains(x) by { if x != k { assert(l.vals.contains_key(x)); } }
    assert forall|f: int, i: int| 0 <= i < (t.bins)(f).len() implies t.vals.contains_key(#[trigger] (t.bins)(f)[i]) && t.vals[(t.bins)(f)[i]].count == f by {
        if f == 1 && i == (l.bins)(1).len() { } else { assert((t.bins)(f)[i] == (l.bins)(f)[i]); }
    }
    assert forall|f: int| (#[trigger] (t.bins)(f)).no_duplicates() by { assert((l.bins)(f).no_duplicates()); }
}
@end
@fn ValueCounter::inc [unicache-roundtrip]
@ensures
* [counted] final(self).value == old(self).value && final(self).count == old(self).count + 1
@end
@fn LFUCache::with_capacity [unicache-roundtrip]
@requires
* $1 > 0
@ensures
* [empty] res.lv() == (LV::<K, V> { vals: Map::empty(), bins: |c: int| Seq::<K>::empty(), min: 0 }) && res.linv() && res.capacity == $1
@end
@fn LFUCache::contains []
@ensures
* [value] res <==> self.values@.contains_key(*$1)
@end
@fn LFUCache::len [unicache-roundtrip]
@ensures
* [value] res == self.values@.len()
@end
@fn LFUCache::is_empty []
@ensures
* [value] res <==> self.values@.len() == 0
@end
@fn LFUCache::update_frequency_bin [unicache-roundtrip]
@requires
* old(self).linv()
@ensures
* [touched] final(self).lv() == s_touch(old(self).lv(), *$1)
* [inv] final(self).linv() && final(self).capacity == old(self).capacity
* [min] s_lmin(old(self).lv()) ==> s_lmin(final(self).lv())
@head
proof {
    if self.values@.contains_key(*$1) { let c = self.values@[*$1].count as int; assert((self.lv().bins)(c).contains(*$1)); assert(!(self.lv().bins)(c + 1).contains(*$1)); }
}
@tail
proof { lemma_touch(old(self).lv(), *$1); assert(self.lv() =~= s_touch(old(self).lv(), *$1)); }
@end
@fn LFUCache::get [unicache-roundtrip]
@requires
* old(self).linv()
@ensures
* [touched] final(self).lv() == s_touch(old(self).lv(), *$1)
* [inv] final(self).linv() && final(self).capacity == old(self).capacity
* [min] s_lmin(old(self).lv()) ==> s_lmin(final(self).lv())
* [value] res is Some <==> old(self).values@.contains_key(*$1), res is Some ==> *res->Some_0 == old(self).values@[*$1].value
@end
@fn LFUCache::evict [unicache-roundtrip]
@requires
* old(self).linv() && s_lmin(old(self).lv()) && old(self).values@.len() > 0
@ensures
* [evicted] final(self).lv() == s_evict(old(self).lv())
* [inv] final(self).linv() && final(self).capacity == old(self).capacity
@head
proof { lemma_evict(self.lv()); }
@end
@fn LFUCache::evict_and_return_key [unicache-roundtrip]
@requires
* old(self).linv() && s_lmin(old(self).lv()) && old(self).values@.len() > 0
@ensures
* [evicted] final(self).lv() == s_evict(old(self).lv())
* [inv] final(self).linv() && final(self).capacity == old(self).capacity
* [value] res == Some((old(self).lv().bins)(old(self).lv().min)[0])
@head
proof { lemma_evict(self.lv()); }
@end
@fn LFUCache::evict_and_return_value [unicache-roundtrip]
@requires
* old(self).linv() && s_lmin(old(self).lv()) && old(self).values@.len() > 0
@ensures
* [evicted] final(self).lv() == s_evict(old(self).lv())
* [inv] final(self).linv() && final(self).capacity == old(self).capacity
* [value] res == Some(old(self).values@[(old(self).lv().bins)(old(self).lv().min)[0]].value)
@head
proof { lemma_evict(self.lv()); }
@end
@fn LFUCache::set [unicache-roundtrip]
@requires
* old(self).linv() && !old(self).values@.contains_key($1) && old(self).values@.len() < old(self).capacity
@ensures
* [added] final(self).lv() == s_add(old(self).lv(), $1, $2)
* [inv] final(self).linv() && final(self).capacity == old(self).capacity && s_lmin(final(self).lv())
@head
proof { lemma_add(self.lv(), $1, $2); }
@end

@verus
// ---- the decoding half as the mirror image of the encoding half ----
pub open spec fn s_linj<K, V>(l: LV<K, V>) -> bool { forall|a: K, b: K| #[trigger] l.vals.contains_key(a) && #[trigger] l.vals.contains_key(b) && l.vals[a].value == l.vals[b].value ==> a == b }
pub open spec fn s_mirr<K, V>(e: LV<K, V>, d: LV<V, K>) -> bool {
    &&& e.min == d.min && e.vals.len() == d.vals.len()
    &&& forall|k: K| #[trigger] e.vals.contains_key(k) ==> d.vals.contains_key(e.vals[k].value) && d.vals[e.vals[k].value] == (ValueCounter { value: k, count: e.vals[k].count })
    &&& forall|v: V| #[trigger] d.vals.contains_key(v) ==> e.vals.contains_key(d.vals[v].value) && e.vals[d.vals[v].value].value == v
    &&& forall|c: int| (#[trigger] (e.bins)(c)).len() == (d.bins)(c).len()
    &&& forall|c: int, i: int| 0 <= i < (e.bins)(c).len() ==> (d.bins)(c)[i] == e.vals[#[trigger] (e.bins)(c)[i]].value
}
// encoding x turns the items l into t and yields m
pub open spec fn s_lenc<K, V: DefaultEncoded>(l: LV<K, V>, top: V, size: int, x: K, m: MaybeEncoded<K, V>, t: LV<K, V>, top2: V) -> bool {
    if l.vals.contains_key(x) { m == MaybeEncoded::<K, V>::Encoded(l.vals[x].value) && t == s_touch(l, x) && top2 == top }
    else if l.vals.len() == size { m == MaybeEncoded::<K, V>::NotEncoded(x) && t == s_add(s_evict(l), x, l.vals[(l.bins)(l.min)[0]].value) && top2 == top }
    else { m == MaybeEncoded::<K, V>::NotEncoded(x) && t == s_add(l, x, top2) && s_fresh(top2, top) }
}
// decoding m turns the items l into t and yields x
pub open spec fn s_ldec<K, V: DefaultEncoded>(l: LV<V, K>, top: V, size: int, m: MaybeEncoded<K, V>, x: K, t: LV<V, K>, top2: V) -> bool {
    match m {
        MaybeEncoded::Encoded(e) => l.vals.contains_key(e) && x == l.vals[e].value && t == s_touch(l, e) && top2 == top,
        MaybeEncoded::NotEncoded(y) => x == y && (if l.vals.len() == size { t == s_add(s_evict(l), (l.bins)(l.min)[0], y) && top2 == top } else { t == s_add(l, top2, y) && s_fresh(top2, top) }),
    }
}
impl<Encodable: DefaultEncodable, Encoded: DefaultEncoded> LFUniCache<Encodable, Encoded> {
    pub open spec fn e(&self) -> LV<Encodable, Encoded> { self.lfu_cache_encoder.lv() }
    pub open spec fn d(&self) -> LV<Encoded, Encodable> { self.lfu_cache_decoder.lv() }
    pub open spec fn winv(&self) -> bool {
        &&& self.size > 0 && self.size <= Encoded::top() && self.encoding.idx() <= self.e().vals.len() && self.decoding.idx() <= self.d().vals.len()
        &&& self.lfu_cache_encoder.capacity == self.size && self.lfu_cache_decoder.capacity == self.size
        &&& self.lfu_cache_encoder.linv() && s_lmin(self.e()) && s_linj(self.e()) && s_eused(self.e(), self.encoding)
        &&& self.lfu_cache_decoder.linv() && s_lmin(self.d()) && s_dused(self.d(), self.decoding)
    }
    pub open spec fn mirrored(&self, d: &Self) -> bool { s_mirr(self.e(), d.d()) && d.decoding.idx() == self.encoding.idx() && d.size == self.size }
    pub open spec fn same_dec(&self, o: &Self) -> bool { self.lfu_cache_decoder == o.lfu_cache_decoder && self.decoding == o.decoding && self.size == o.size }
    pub open spec fn same_enc(&self, o: &Self) -> bool { self.lfu_cache_encoder == o.lfu_cache_encoder && self.encoding == o.encoding && self.size == o.size }
}
// encodings in use were given out before
pub open spec fn s_eused<K, V: DefaultEncoded>(l: LV<K, V>, top: V) -> bool { forall|k: K| #[trigger] l.vals.contains_key(k) ==> l.vals[k].value.idx() <= top.idx() }
pub open spec fn s_dused<K, V: DefaultEncoded>(l: LV<V, K>, top: V) -> bool { forall|v: V| #[trigger] l.vals.contains_key(v) ==> v.idx() <= top.idx() }
pub proof fn lemma_mirr_touch<K, V>(e: LV<K, V>, d: LV<V, K>, x: K)
    requires s_lwf(e), s_lwf(d), s_mirr(e, d), e.vals.contains_key(x)
    ensures s_mirr(s_touch(e, x), s_touch(d, e.vals[x].value))
{
    let v = e.vals[x].value; let c = e.vals[x].count as int;
    let e2 = s_touch(e, x); let d2 = s_touch(d, v);
    assert(d.vals.contains_key(v) && d.vals[v].count == c);
    assert((e.bins)(c).contains(x) && (d.bins)(c).contains(v));
    assert((e.bins)(c).no_duplicates() && (d.bins)(c).no_duplicates());
    let i = (e.bins)(c).index_of(x);
    assert((e.bins)(c)[i] == x && (d.bins)(c)[i] == v);
    assert((d.bins)(c).index_of(v) == i);
    assert((e.bins)(c).len() == (d.bins)(c).len());
    assert((e.bins)(c + 1).len() == (d.bins)(c + 1).len());
    assert forall|k: K| #[trigger] e2.vals.contains_key(k) implies d2.vals.contains_key(e2.vals[k].value) && d2.vals[e2.vals[k].value] == (ValueCounter { value: k, count: e2.vals[k].count }) by { assert(e.vals.contains_key(k)); }
    assert forall|w: V| #[trigger] d2.vals.contains_key(w) implies e2.vals.contains_key(d2.vals[w].value) && e2.vals[d2.vals[w].value].value == w by { assert(d.vals.contains_key(w)); }
    assert forall|f: int| (#[trigger] (e2.bins)(f)).len() == (d2.bins)(f).len() by { assert((e.bins)(f).len() == (d.bins)(f).len()); }
    assert forall|f: int, j: int| 0 <= j < (e2.bins)(f).len() implies (d2.bins)(f)[j] == e2.vals[#[trigger] (e2.bins)(f)[j]].value by {
        assert((e.bins)(f).len() == (d.bins)(f).len());
        if f == c { let jj = if j < i { j } else { j + 1 }; assert((e2.bins)(f)[j] == (e.bins)(f)[jj]); assert((d2.bins)(f)[j] == (d.bins)(f)[jj]); }
        else if f == c + 1 && j == (e.bins)(f).len() { }
        else { assert((e2.bins)(f)[j] == (e.bins)(f)[j]); assert((d2.bins)(f)[j] == (d.bins)(f)[j]); }
    }
}
pub proof fn lemma_mirr_evict<K, V>(e: LV<K, V>, d: LV<V, K>)
    requires s_lwf(e), s_lwf(d), s_mirr(e, d), (e.bins)(e.min).len() > 0
    ensures s_mirr(s_evict(e), s_evict(d)), (d.bins)(d.min)[0] == e.vals[(e.bins)(e.min)[0]].value, !s_evict(d).vals.contains_key((d.bins)(d.min)[0])
{
    let x = (e.bins)(e.min)[0]; let v = (d.bins)(d.min)[0];
    let e2 = s_evict(e); let d2 = s_evict(d);
    assert(v == e.vals[x].value);
    lemma_evict(e); lemma_evict(d);
    assert forall|k: K| #[trigger] e2.vals.contains_key(k) implies d2.vals.contains_key(e2.vals[k].value) && d2.vals[e2.vals[k].value] == (ValueCounter { value: k, count: e2.vals[k].count }) by { assert(e.vals.contains_key(k)); }
    assert forall|w: V| #[trigger] d2.vals.contains_key(w) implies e2.vals.contains_key(d2.vals[w].value) && e2.vals[d2.vals[w].value].value == w by { assert(d.vals.contains_key(w)); }
    assert forall|f: int| (#[trigger] (e2.bins)(f)).len() == (d2.bins)(f).len() by { assert((e.bins)(f).len() == (d.bins)(f).len()); }
    assert forall|f: int, j: int| 0 <= j < (e2.bins)(f).len() implies (d2.bins)(f)[j] == e2.vals[#[trigger] (e2.bins)(f)[j]].value by {
        assert((e.bins)(f).len() == (d.bins)(f).len());
        assert(e2.vals.contains_key((e2.bins)(f)[j]));
        if f == e.min { assert((e2.bins)(f)[j] == (e.bins)(f)[j + 1]); assert((d2.bins)(f)[j] == (d.bins)(f)[j + 1]); }
        else { assert((e2.bins)(f)[j] == (e.bins)(f)[j]); assert((d2.bins)(f)[j] == (d.bins)(f)[j]); }
    }
}
pub proof fn lemma_mirr_add<K, V>(e: LV<K, V>, d: LV<V, K>, x: K, v: V)
    requires s_lwf(e), s_lwf(d), s_mirr(e, d), !e.vals.contains_key(x), !d.vals.contains_key(v)
    ensures s_mirr(s_add(e, x, v), s_add(d, v, x))
{
    let e2 = s_add(e, x, v); let d2 = s_add(d, v, x);
    assert((e.bins)(1).len() == (d.bins)(1).len());
    assert forall|k: K| #[trigger] e2.vals.contains_key(k) implies d2.vals.contains_key(e2.vals[k].value) && d2.vals[e2.vals[k].value] == (ValueCounter { value: k, count: e2.vals[k].count }) by { if k != x { assert(e.vals.contains_key(k)); } }
    assert forall|w: V| #[trigger] d2.vals.contains_key(w) implies e2.vals.contains_key(d2.vals[w].value) && e2.vals[d2.vals[w].value].value == w by { if w != v { assert(d.vals.contains_key(w)); } }
    assert forall|f: int| (#[trigger] (e2.bins)(f)).len() == (d2.bins)(f).len() by { assert((e.bins)(f).len() == (d.bins)(f).len()); }
    assert forall|f: int, j: int| 0 <= j < (e2.bins)(f).len() implies (d2.bins)(f)[j] == e2.vals[#[trigger] (e2.bins)(f)[j]].value by {
        assert((e.bins)(f).len() == (d.bins)(f).len());
        if f == 1 && j == (e.bins)(1).len() { } else { assert((e2.bins)(f)[j] == (e.bins)(f)[j]); assert((d2.bins)(f)[j] == (d.bins)(f)[j]); assert(e.vals.contains_key((e.bins)(f)[j])); }
    }
}
proof fn lemma_inj_add<K, V: DefaultEncoded>(l: LV<K, V>, x: K, v: V, top: V)
    requires s_linj(l), s_eused(l, top), v.idx() <= top.idx(), forall|k: K| #[trigger] l.vals.contains_key(k) ==> l.vals[k].value != v
    ensures s_linj(s_add(l, x, v)), s_eused(s_add(l, x, v), top)
{
    let t = s_add(l, x, v);
    assert forall|a: K, b: K| #[trigger] t.vals.contains_key(a) && #[trigger] t.vals.contains_key(b) && t.vals[a].value == t.vals[b].value implies a == b by {
        if a != x { assert(l.vals.contains_key(a)); } if b != x { assert(l.vals.contains_key(b)); }
    }
    assert forall|k: K| #[trigger] t.vals.contains_key(k) implies t.vals[k].value.idx() <= top.idx() by { if k != x { assert(l.vals.contains_key(k)); } }
}
pub proof fn lemma_lenc_inv<K, V: DefaultEncoded>(l: LV<K, V>, top: V, size: int, x: K, m: MaybeEncoded<K, V>, t: LV<K, V>, top2: V)
    requires s_lwf(l), s_lmin(l), s_linj(l), s_eused(l, top), size > 0, s_lenc(l, top, size, x, m, t, top2)
    ensures s_linj(t), s_eused(t, top2)
{
    if l.vals.contains_key(x) {
        assert forall|a: K, b: K| #[trigger] t.vals.contains_key(a) && #[trigger] t.vals.contains_key(b) && t.vals[a].value == t.vals[b].value implies a == b by { assert(l.vals.contains_key(a) && l.vals.contains_key(b)); }
        assert forall|k: K| #[trigger] t.vals.contains_key(k) implies t.vals[k].value.idx() <= top.idx() by { assert(l.vals.contains_key(k)); }
    } else if l.vals.len() == size {
        lemma_evict(l);
        let s = s_evict(l); let k0 = (l.bins)(l.min)[0];
        assert forall|k: K| #[trigger] s.vals.contains_key(k) implies s.vals[k].value != l.vals[k0].value by { assert(l.vals.contains_key(k) && l.vals.contains_key(k0)); }
        assert forall|k: K| #[trigger] s.vals.contains_key(k) implies s.vals[k].value.idx() <= top.idx() by { assert(l.vals.contains_key(k)); }
        assert forall|a: K, b: K| #[trigger] s.vals.contains_key(a) && #[trigger] s.vals.contains_key(b) && s.vals[a].value == s.vals[b].value implies a == b by { assert(l.vals.contains_key(a) && l.vals.contains_key(b)); }
        lemma_inj_add(s, x, l.vals[k0].value, top);
    } else {
        assert forall|k: K| #[trigger] l.vals.contains_key(k) implies l.vals[k].value.idx() <= top2.idx() && l.vals[k].value != top2 by { }
        lemma_inj_add(l, x, top2, top2);
    }
}
// decoding what was encoded with the mirrored half gives the value back, and the halves stay mirrored
pub proof fn lemma_lfu_roundtrip<K: DefaultEncodable, V: DefaultEncoded>(e: LFUniCache<K, V>, e2: LFUniCache<K, V>, d: LFUniCache<K, V>, d2: LFUniCache<K, V>, x: K, y: K, m: MaybeEncoded<K, V>)
    requires e.winv(), d.winv(), e.mirrored(&d), d2.size == d.size, e2.size == e.size,
        s_lenc(e.e(), e.encoding, e.size as int, x, m, e2.e(), e2.encoding),
        s_ldec(d.d(), d.decoding, d.size as int, m, y, d2.d(), d2.decoding)
    ensures y == x, e2.mirrored(&d2)
{
    broadcast use lemma_idx;
    let s = e.e(); let w = d.d();
    if s.vals.contains_key(x) { lemma_mirr_touch(s, w, x); }
    else if s.vals.len() == e.size {
        lemma_evict(s);
        assert((s.bins)(s.min).len() == (w.bins)(s.min).len());
        lemma_evict(w); lemma_mirr_evict(s, w);
        lemma_mirr_add(s_evict(s), s_evict(w), x, s.vals[(s.bins)(s.min)[0]].value);
    } else { lemma_mirr_add(s, w, x, e2.encoding); }
}
// and it can be decoded
pub proof fn lemma_lfu_decodable<K: DefaultEncodable, V: DefaultEncoded>(e: LFUniCache<K, V>, e2: LFUniCache<K, V>, d: LFUniCache<K, V>, x: K, m: MaybeEncoded<K, V>)
    requires e.winv(), d.winv(), e.mirrored(&d), s_lenc(e.e(), e.encoding, e.size as int, x, m, e2.e(), e2.encoding)
    ensures d.fc_can(m)
{ }
@end
@impl <LFUniCache as Clone>
    open spec fn cl_inv(&self) -> bool { self.winv() }
@end
@impl <LFUniCache as FieldCache>
    open spec fn fc_top() -> nat { Encoded::top() }
    open spec fn fc_inv(&self) -> bool { self.winv() }
    open spec fn fc_can(&self, m: MaybeEncoded<Encodable, Encoded>) -> bool { m is Encoded ==> self.d().vals.contains_key(m->Encoded_0) }
@end
@verus
// the inverted cache, as the loops build it
pub open spec fn s_bin<K, V>(m: Map<K, ValueCounter<V>>, b: Seq<K>) -> Seq<V> { Seq::new(b.len(), |i: int| m[b[i]].value) }
pub open spec fn s_vimg<K, V>(m: Map<K, ValueCounter<V>>, s: Seq<(&K, &ValueCounter<V>)>, a: Seq<(V, ValueCounter<K>)>, n: int) -> bool {
    s_listing(m, s) && a.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == ((*s[i].1).value, ValueCounter { value: *s[i].0, count: (*s[i].1).count })
}
pub open spec fn s_bimg<K, V>(m: Map<K, ValueCounter<V>>, s: Seq<&K>, a: Seq<V>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j])
    &&& forall|a: K, b: K| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a].value == m[b].value ==> a == b
    &&& a.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == m[*s[i]].value
}
pub open spec fn s_fimg<K: Hash + Eq + Clone, V: Hash + Eq + Clone>(m: Map<K, ValueCounter<V>>, f: Map<usize, LinkedHashSetWrapper<K>>, s: Seq<(&usize, &LinkedHashSetWrapper<K>)>, a: Seq<(usize, LinkedHashSetWrapper<V>)>, n: int) -> bool {
    s_listing(f, s) && a.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).0 == *s[i].0 && a[i].1.0@ == s_bin(m, (*s[i].1).0@)
}
broadcast proof fn lemma_bimg<K, V>(m: Map<K, ValueCounter<V>>, s: Seq<&K>, a: Seq<V>, n: int)
    requires #[trigger] s_bimg(m, s, a, n), n <= s.len()
    ensures a.no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        assert(a[i] == m[*s[i]].value && a[j] == m[*s[j]].value);
        assert(m.contains_key(*s[i]) && m.contains_key(*s[j]));
        if i < j { assert(*s[i] != *s[j]); } else { assert(*s[j] != *s[i]); }
    }
}
pub open spec fn s_inverse<K, V>(m: Map<K, ValueCounter<V>>, r: Map<V, ValueCounter<K>>) -> bool {
    &&& r.dom().finite() && r.len() == m.len()
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> r.contains_key(m[k].value) && r[m[k].value] == (ValueCounter { value: k, count: m[k].count })
    &&& forall|v: V| #[trigger] r.contains_key(v) ==> m.contains_key(r[v].value) && m[r[v].value].value == v
}
broadcast proof fn lemma_vimg<K, V>(m: Map<K, ValueCounter<V>>, s: Seq<(&K, &ValueCounter<V>)>, a: Seq<(V, ValueCounter<K>)>, n: int, r: HashMap<V, ValueCounter<K>>)
    requires #[trigger] s_vimg(m, s, a, n), n == s.len(), #[trigger] <HashMap<V, ValueCounter<K>> as VpCollect<(V, ValueCounter<K>)>>::vp_coll(a, r),
        forall|a: K, b: K| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a].value == m[b].value ==> a == b
    ensures s_inverse(m, r@)
{
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by {
        assert(*s[i].0 != *s[j].0); assert(m.contains_key(*s[i].0) && m.contains_key(*s[j].0));
    }
    assert forall|k: K| #[trigger] m.contains_key(k) implies r@.contains_key(m[k].value) && r@[m[k].value] == (ValueCounter { value: k, count: m[k].count }) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(a[i].0 == m[k].value);
        assert(s_hask(a, m[k].value));
    }
    assert forall|v: V| #[trigger] r@.contains_key(v) implies m.contains_key(r@[v].value) && m[r@[v].value].value == v by {
        let i = s_idxk(a, v);
        assert(a[i].0 == v && m.contains_key(*s[i].0));
    }
}
broadcast proof fn lemma_fimg<K: Hash + Eq + Clone, V: Hash + Eq + Clone>(m: Map<K, ValueCounter<V>>, f: Map<usize, LinkedHashSetWrapper<K>>, s: Seq<(&usize, &LinkedHashSetWrapper<K>)>, a: Seq<(usize, LinkedHashSetWrapper<V>)>, n: int, r: HashMap<usize, LinkedHashSetWrapper<V>>)
    requires #[trigger] s_fimg(m, f, s, a, n), n == s.len(), #[trigger] <HashMap<usize, LinkedHashSetWrapper<V>> as VpCollect<(usize, LinkedHashSetWrapper<V>)>>::vp_coll(a, r)
    ensures forall|c: usize| #[trigger] r@.contains_key(c) <==> f.contains_key(c), forall|c: usize| #[trigger] r@.contains_key(c) ==> r@[c].0@ == s_bin(m, f[c].0@)
{
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(*s[i].0 != *s[j].0); }
    assert forall|c: usize| #[trigger] r@.contains_key(c) <==> f.contains_key(c) by {
        if f.contains_key(c) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c; assert(a[i].0 == c); }
        if r@.contains_key(c) { let i = s_idxk(a, c); assert(a[i].0 == c); assert(f.contains_key(*s[i].0)); }
    }
    assert forall|c: usize| #[trigger] r@.contains_key(c) implies r@[c].0@ == s_bin(m, f[c].0@) by { let i = s_idxk(a, c); assert(a[i].0 == c); assert(*s[i].1 == f[c]); }
}
proof fn lemma_inverted<K, V>(e: LV<K, V>, d: LV<V, K>)
    requires s_lwf(e), s_linj(e), e.min == d.min, s_inverse(e.vals, d.vals), forall|c: int| #[trigger] (d.bins)(c) == s_bin(e.vals, (e.bins)(c))
    ensures s_mirr(e, d), s_lwf(d), s_lmin(e) ==> s_lmin(d)
{
    assert forall|c: int| (#[trigger] (e.bins)(c)).len() == (d.bins)(c).len() by { assert((d.bins)(c) == s_bin(e.vals, (e.bins)(c))); }
    assert forall|c: int, i: int| 0 <= i < (e.bins)(c).len() implies (d.bins)(c)[i] == e.vals[#[trigger] (e.bins)(c)[i]].value by { assert((d.bins)(c) == s_bin(e.vals, (e.bins)(c))); }
    assert forall|v: V| #[trigger] d.vals.contains_key(v) implies d.vals[v].count >= 1 && (d.bins)(d.vals[v].count as int).contains(v) by {
        let k = d.vals[v].value; let c = e.vals[k].count as int;
        assert(e.vals.contains_key(k)); let i = (e.bins)(c).index_of(k);
        assert((e.bins)(c)[i] == k); assert((d.bins)(c)[i] == v);
    }
    assert forall|c: int, i: int| 0 <= i < (d.bins)(c).len() implies d.vals.contains_key(#[trigger] (d.bins)(c)[i]) && d.vals[(d.bins)(c)[i]].count == c by {
        let k = (e.bins)(c)[i]; assert(e.vals.contains_key(k) && e.vals[k].count == c);
    }
    assert forall|c: int| (#[trigger] (d.bins)(c)).no_duplicates() by {
        assert((e.bins)(c).no_duplicates());
        assert forall|i: int, j: int| 0 <= i < (d.bins)(c).len() && 0 <= j < (d.bins)(c).len() && i != j implies #[trigger] (d.bins)(c)[i] != #[trigger] (d.bins)(c)[j] by {
            assert(e.vals.contains_key((e.bins)(c)[i]) && e.vals.contains_key((e.bins)(c)[j]));
        }
    }
}
@end
@fn LFUCache::inverted [unicache-roundtrip]
@requires
* self.linv() && s_linj(self.lv()) && $1 >= self.capacity
@ensures
* [mirrored] s_mirr(self.lv(), res.lv())
* [inv] res.linv() && res.capacity == $1 && (s_lmin(self.lv()) ==> s_lmin(res.lv()))
@collect
@head
broadcast use {lemma_bimg, lemma_vimg, lemma_fimg};
@tail
proof {
    assert forall|c: int| #[trigger] (__vp_r.lv().bins)(c) == s_bin(self.lv().vals, (self.lv().bins)(c)) by { assert((__vp_r.lv().bins)(c) =~= s_bin(self.lv().vals, (self.lv().bins)(c))); }
    lemma_inverted(self.lv(), __vp_r.lv());
}
@loop
* s_vimg(self.values@, $it.seq(), $acc@, $i)
@loop
* s_fimg(self.values@, self.frequency_bin@, $it.seq(), $acc@, $i)
> proof { let c = *$it.seq()[$i].0; let b = self.frequency_bin@[c].0@; assert((self.lv().bins)(c as int) == b); assert(b.no_duplicates()); assert forall|j: int| 0 <= j < b.len() implies self.values@.contains_key(#[trigger] b[j]) by { assert((self.lv().bins)(c as int)[j] == b[j]); } }
< proof { assert($acc@.last().1.0@ =~= s_bin(self.values@, (*$it.seq()[$i].1).0@)); }
@loop
* s_bimg(self.values@, $it.seq(), $acc@, $i)
@end
@fn <LFUniCache as Clone>::clone [unicache-roundtrip]
@ensures
* [mirrored] self.mirrored(&res) && res.winv()
* [encoder-empty] res.e().vals.len() == 0 && res.encoding.idx() == 0
@end
@fn <LFUniCache as FieldCache>::new [unicache-roundtrip]
@ensures
* [empty] res.e().vals.len() == 0 && res.d().vals.len() == 0 && res.encoding.idx() == 0 && res.decoding.idx() == 0 && res.size == $1
* [mirrored] res.mirrored(&res)
@end
@fn <LFUniCache as FieldCache>::try_encode [unicache-roundtrip]
@ensures
* [encoded] s_lenc(old(self).e(), old(self).encoding, old(self).size as int, *$1, res, final(self).e(), final(self).encoding)
* [decoder-untouched] final(self).same_dec(old(self))
@head
proof { if !self.e().vals.contains_key(*$1) && self.e().vals.len() > 0 { lemma_evict(self.e()); } }
@tail
proof { lemma_lenc_inv(old(self).e(), old(self).encoding, old(self).size as int, *$1, __vp_r, self.e(), self.encoding); }
@end
@fn <LFUniCache as FieldCache>::decode [unicache-roundtrip]
@ensures
* [decoded] s_ldec(old(self).d(), old(self).decoding, old(self).size as int, $1, res, final(self).d(), final(self).decoding)
* [encoder-untouched] final(self).same_enc(old(self))
@head
proof { if self.d().vals.len() > 0 { lemma_evict(self.d()); } }
@end
