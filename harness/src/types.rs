//! Entry and snapshot types the simulated clusters replicate.
use omnipaxos::storage::{Entry, NoSnapshot, Snapshot};
#[cfg(feature = "unicache")]
use omnipaxos::unicache::{lfu_cache::LFUniCache, lru_cache::LRUniCache, *};
use serde::{Deserialize, Serialize};

pub trait SE: Entry + Serialize + for<'a> Deserialize<'a> + 'static {
    const SNAP: bool;
    const NAME: &'static str;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
    /// is the entry intact?
    fn intact(&self) -> bool {
        true
    }
    fn snap_ids(s: &Self::Snapshot) -> Vec<u64>;
    fn snap_of(ids: &[u64]) -> Self::Snapshot;
}

/// what the value of an entry is, given its id (few distinct values, so that caches hit)
pub fn field_of(id: u64) -> u64 {
    let h = id.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33;
    if h % 3 == 0 {
        h % 2
    } else {
        h % 6
    }
}

macro_rules! plain_unicache {
    ($t:ident) => {
        #[cfg(feature = "unicache")]
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $t;
    };
}
plain_unicache!(IdCacheP);
plain_unicache!(IdCacheS);

/// the entry (or part of a snapshot) that cannot be serialized
pub const BAD: u64 = u64::MAX;
fn ser<Z: serde::Serializer>(x: &u64, z: Z) -> Result<Z::Ok, Z::Error> {
    if *x == BAD {
        return Err(serde::ser::Error::custom("cannot be serialized"));
    }
    z.serialize_u64(*x)
}
fn ser_v<Z: serde::Serializer>(x: &Vec<u64>, z: Z) -> Result<Z::Ok, Z::Error> {
    if x.contains(&BAD) {
        return Err(serde::ser::Error::custom("cannot be serialized"));
    }
    x.serialize(z)
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct P(#[serde(serialize_with = "ser")] pub u64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct S(#[serde(serialize_with = "ser")] pub u64);
/// A snapshot that remembers every entry it covers, in order.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SnapV(#[serde(serialize_with = "ser_v")] pub Vec<u64>);
impl Snapshot<S> for SnapV {
    fn create(entries: &[S]) -> Self {
        SnapV(entries.iter().map(|e| e.0).collect())
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}

impl Entry for P {
    type Snapshot = NoSnapshot;
    #[cfg(feature = "unicache")]
    type Encoded = u8;
    #[cfg(feature = "unicache")]
    type Encodable = u64;
    #[cfg(feature = "unicache")]
    type NotEncodable = ();
    #[cfg(feature = "unicache")]
    type EncodeResult = P;
    #[cfg(feature = "unicache")]
    type UniCache = IdCacheP;
}
impl Entry for S {
    type Snapshot = SnapV;
    #[cfg(feature = "unicache")]
    type Encoded = u8;
    #[cfg(feature = "unicache")]
    type Encodable = u64;
    #[cfg(feature = "unicache")]
    type NotEncodable = ();
    #[cfg(feature = "unicache")]
    type EncodeResult = S;
    #[cfg(feature = "unicache")]
    type UniCache = IdCacheS;
}
#[cfg(feature = "unicache")]
impl UniCache for IdCacheP {
    type T = P;
    fn new() -> Self {
        IdCacheP
    }
    fn try_encode(&mut self, e: &P) -> P {
        e.clone()
    }
    fn decode(&mut self, r: P) -> P {
        r
    }
}
#[cfg(feature = "unicache")]
impl UniCache for IdCacheS {
    type T = S;
    fn new() -> Self {
        IdCacheS
    }
    fn try_encode(&mut self, e: &S) -> S {
        e.clone()
    }
    fn decode(&mut self, r: S) -> S {
        r
    }
}
impl SE for P {
    const SNAP: bool = false;
    const NAME: &'static str = "plain";
    fn mk(id: u64) -> Self {
        P(id)
    }
    fn id(&self) -> u64 {
        self.0
    }
    fn snap_ids(_: &NoSnapshot) -> Vec<u64> {
        vec![]
    }
    fn snap_of(_: &[u64]) -> NoSnapshot {
        NoSnapshot
    }
}
impl SE for S {
    const SNAP: bool = true;
    const NAME: &'static str = "snap";
    fn mk(id: u64) -> Self {
        S(id)
    }
    fn id(&self) -> u64 {
        self.0
    }
    fn snap_ids(s: &SnapV) -> Vec<u64> {
        s.0.clone()
    }
    fn snap_of(ids: &[u64]) -> SnapV {
        SnapV(ids.to_vec())
    }
}

#[cfg(feature = "unicache")]
macro_rules! cached {
    ($t:ident, $c:ident, $cache:ident, $name:expr) => {
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct $t {
            pub id: u64,
            pub field: u64,
        }
        impl Entry for $t {
            type Snapshot = NoSnapshot;
            type Encoded = u8;
            type Encodable = u64;
            type NotEncodable = u64;
            type EncodeResult = (u64, MaybeEncoded<u64, u8>);
            type UniCache = $c;
        }
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $c($cache<u64, u8>);
        impl UniCache for $c {
            type T = $t;
            fn new() -> Self {
                $c($cache::new(3))
            }
            fn try_encode(&mut self, e: &$t) -> (u64, MaybeEncoded<u64, u8>) {
                (e.id, self.0.try_encode(&e.field))
            }
            fn decode(&mut self, r: (u64, MaybeEncoded<u64, u8>)) -> $t {
                $t { id: r.0, field: self.0.decode(r.1) }
            }
        }
        impl SE for $t {
            const SNAP: bool = false;
            const NAME: &'static str = $name;
            fn mk(id: u64) -> Self {
                $t { id, field: field_of(id) }
            }
            fn id(&self) -> u64 {
                self.id
            }
            fn intact(&self) -> bool {
                self.field == field_of(self.id)
            }
            fn snap_ids(_: &NoSnapshot) -> Vec<u64> {
                vec![]
            }
            fn snap_of(_: &[u64]) -> NoSnapshot {
                NoSnapshot
            }
        }
    };
}
#[cfg(feature = "unicache")]
cached!(ULru, ULruCache, LRUniCache, "lru");
#[cfg(feature = "unicache")]
cached!(ULfu, ULfuCache, LFUniCache, "lfu");
