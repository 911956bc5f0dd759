// ---- UniCache (feature "unicache"): which sources are extracted and what is dropped ----
@feature unicache
@file omnipaxos/src/errors.rs
@file omnipaxos/src/unicache/mod.rs
@file omnipaxos/src/unicache/lru_cache.rs
@file omnipaxos/src/unicache/lfu/mod.rs
@file omnipaxos/src/unicache/lfu_cache.rs
@drop trait Encoded
@drop trait Encodable
@drop trait NotEncodable
@drop trait IncrementByOne
@drop trait DefaultEncodable
@drop trait DefaultEncoded
@drop LruWrapper
@drop ConfigError
@drop <T as Encoded>
@drop <T as Encodable>
@drop <T as NotEncodable>
@drop <T as IncrementByOne>
@drop <T as DefaultEncodable>
@drop <T as DefaultEncoded>
@verus
// ---------- user-supplied types (trusted contracts) ----------
// a value that may be replaced by its encoding: equality is what `==` (and the hash maps) decide
use std::hash::Hash;
#[derive(Clone, Copy)]
pub enum CompactionErr { Other }
pub trait DefaultEncodable: Sized + Hash + Eq + Clone { }
// an encoding: a number, counted up from its default
pub trait DefaultEncoded: Sized + Hash + Eq + Clone {
    spec fn idx(self) -> nat;
    // it is determined by its number
    proof fn idx_eq(a: Self, b: Self) ensures a.idx() == b.idx() ==> a == b;
    // the largest number the type has
    spec fn top() -> nat;
    fn one() -> (r: Self) ensures r.idx() == 1;
    fn default() -> (r: Self) ensures r.idx() == 0;
    fn add(self, o: Self) -> (r: Self) requires self.idx() + o.idx() <= Self::top(), ensures r.idx() == self.idx() + o.idx();
}
@end
