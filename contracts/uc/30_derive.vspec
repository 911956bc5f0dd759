// ---- what the derive macro makes of an entry with fields of every kind (derive/src/lib.rs) ----
@file @derive
@drop <D as Clone>
@verus
pub struct NoSnapshot {}
pub trait Entry: Sized { type Snapshot; type Encoded; type Encodable; type NotEncodable; type EncodeResult; type UniCache; }
impl DefaultEncodable for u64 { }
impl DefaultEncodable for u32 { }
// the encodings: numbers counted up from 0
impl DefaultEncoded for u8 {
    open spec fn idx(self) -> nat { self as nat }
    open spec fn top() -> nat { u8::MAX as nat }
    proof fn idx_eq(a: Self, b: Self) { }
    fn one() -> (r: Self) { 1 }
    fn default() -> (r: Self) { 0 }
    fn add(self, o: Self) -> (r: Self) { self + o }
}
impl DefaultEncoded for u16 {
    open spec fn idx(self) -> nat { self as nat }
    open spec fn top() -> nat { u16::MAX as nat }
    proof fn idx_eq(a: Self, b: Self) { }
    fn one() -> (r: Self) { 1 }
    fn default() -> (r: Self) { 0 }
    fn add(self, o: Self) -> (r: Self) { self + o }
}
impl DefaultEncoded for u64 {
    open spec fn idx(self) -> nat { self as nat }
    open spec fn top() -> nat { u64::MAX as nat }
    proof fn idx_eq(a: Self, b: Self) { }
    fn one() -> (r: Self) { 1 }
    fn default() -> (r: Self) { 0 }
    fn add(self, o: Self) -> (r: Self) { self + o }
}
impl<K: DefaultEncodable, V: DefaultEncoded> LRUniCache<K, V> {
    pub open spec fn enc_step(&self, x: K, m: MaybeEncoded<K, V>, n: &Self) -> bool { n.winv() && n.same_dec(self) && s_enc(self.lru_cache_encoder@, self.encoding, self.size as int, x, m, n.lru_cache_encoder@, n.encoding) }
    pub open spec fn dec_step(&self, m: MaybeEncoded<K, V>, y: K, n: &Self) -> bool { n.winv() && n.same_enc(self) && s_dec(self.lru_cache_decoder@, self.decoding, self.size as int, m, y, n.lru_cache_decoder@, n.decoding) }
}
impl<K: DefaultEncodable, V: DefaultEncoded> LFUniCache<K, V> {
    pub open spec fn enc_step(&self, x: K, m: MaybeEncoded<K, V>, n: &Self) -> bool { n.winv() && n.same_dec(self) && s_lenc(self.e(), self.encoding, self.size as int, x, m, n.e(), n.encoding) }
    pub open spec fn dec_step(&self, m: MaybeEncoded<K, V>, y: K, n: &Self) -> bool { n.winv() && n.same_enc(self) && s_ldec(self.d(), self.decoding, self.size as int, m, y, n.d(), n.decoding) }
}
// axiom_uc of contracts/ucp for this UniCache: a mirrored cache decodes what was encoded, and stays mirrored
pub proof fn lemma_derived_roundtrip(e: DCache, e2: DCache, d: DCache, d2: DCache, x: D, y: D, m: <D as Entry>::EncodeResult)
    requires e.uc_inv(), d.uc_inv(), e.uc_mirr(&d), e.uc_enc(x, m, &e2), d.uc_can(m) ==> d.uc_dec(m, y, &d2)
    ensures d.uc_can(m), y == x, e2.uc_mirr(&d2), e2.uc_inv(), d2.uc_inv()
{
    lemma_lru_decodable(e.a, e2.a, d.a, x.a, m.1);
    lemma_lfu_decodable(e.b, e2.b, d.b, x.b, m.3);
    lemma_lru_decodable(e.d, e2.d, d.d, x.d, m.4);
    lemma_lru_decodable(e.f, e2.f, d.f, x.f, m.5);
    lemma_lru_roundtrip(e.a, e2.a, d.a, d2.a, x.a, y.a, m.1);
    lemma_lfu_roundtrip(e.b, e2.b, d.b, d2.b, x.b, y.b, m.3);
    lemma_lru_roundtrip(e.d, e2.d, d.d, d2.d, x.d, y.d, m.4);
    lemma_lru_roundtrip(e.f, e2.f, d.f, d2.f, x.f, y.f, m.5);
}
@end
@trait UniCache
    spec fn uc_inv(&self) -> bool;
    spec fn uc_mirr(&self, d: &Self) -> bool;
    spec fn uc_can(&self, m: <Self::T as Entry>::EncodeResult) -> bool;
    spec fn uc_enc(&self, x: Self::T, m: <Self::T as Entry>::EncodeResult, n: &Self) -> bool;
    spec fn uc_dec(&self, m: <Self::T as Entry>::EncodeResult, y: Self::T, n: &Self) -> bool;
@end
@fn UniCache::new [unicache-roundtrip]
@ensures
* [mirrored] res.uc_inv() && res.uc_mirr(&res)
@end
@fn UniCache::try_encode [unicache-roundtrip]
@requires
* old(self).uc_inv()
@ensures
* [encoded] final(self).uc_inv() && old(self).uc_enc(*$1, res, final(self))
@end
@fn UniCache::decode [unicache-roundtrip]
@requires
* old(self).uc_inv() && old(self).uc_can($1)
@ensures
* [decoded] final(self).uc_inv() && old(self).uc_dec($1, res, final(self))
@end
@impl <DCache as UniCache>
    open spec fn uc_inv(&self) -> bool { self.a.winv() && self.b.winv() && self.d.winv() && self.f.winv() }
    open spec fn uc_mirr(&self, d: &Self) -> bool { self.a.mirrored(&d.a) && self.b.mirrored(&d.b) && self.d.mirrored(&d.d) && self.f.mirrored(&d.f) }
    open spec fn uc_can(&self, m: <D as Entry>::EncodeResult) -> bool { self.a.fc_can(m.1) && self.b.fc_can(m.3) && self.d.fc_can(m.4) && self.f.fc_can(m.5) }
    open spec fn uc_enc(&self, x: D, m: <D as Entry>::EncodeResult, n: &Self) -> bool {
        m.0 == x.id && m.2 == x.c && m.6 == x.e && self.a.enc_step(x.a, m.1, &n.a) && self.b.enc_step(x.b, m.3, &n.b) && self.d.enc_step(x.d, m.4, &n.d) && self.f.enc_step(x.f, m.5, &n.f)
    }
    open spec fn uc_dec(&self, m: <D as Entry>::EncodeResult, y: D, n: &Self) -> bool {
        y.id == m.0 && y.c == m.2 && y.e == m.6 && self.a.dec_step(m.1, y.a, &n.a) && self.b.dec_step(m.3, y.b, &n.b) && self.d.dec_step(m.4, y.d, &n.d) && self.f.dec_step(m.5, y.f, &n.f)
    }
@end
@fn <DCache as UniCache>::new [unicache-roundtrip]
@end
@fn <DCache as UniCache>::try_encode [unicache-roundtrip]
@end
@fn <DCache as UniCache>::decode [unicache-roundtrip]
@end
@impl <DCache as Clone>
    open spec fn cl_inv(&self) -> bool { self.uc_inv() }
@end
@fn <DCache as Clone>::clone [unicache-roundtrip]
@ensures
* [mirrored] self.uc_mirr(&res) && res.uc_inv()
@end
