//! An entry whose UniCache the derive macro of /repo makes: the expansion is what is verified (contracts/uc/30_derive.vspec).
use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
#[derive(UniCacheEntry, Clone, Debug)]
pub struct D {
    pub id: u64,
    #[unicache(encoding(u8), size(2))]
    pub a: u64,
    pub c: u32,
    #[unicache(encoding(u16), size(3), cache(lfu))]
    pub b: u32,
    #[unicache(encoding(u64), cache(lru))]
    pub d: u64,
    #[unicache(size(4), cache(lru))]
    pub f: u64,
    pub e: u64,
}
