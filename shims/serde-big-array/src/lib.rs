//! Stand-in for the `serde-big-array` crate.
use std::fmt;
use std::marker::PhantomData;

use serde::de::{SeqAccess, Visitor};
use serde::ser::SerializeTuple;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub trait BigArray<'de>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<'de, T: Serialize + Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(N)?;
        for e in self {
            t.serialize_element(e)?;
        }
        t.end()
    }
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T, const N: usize>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
            type Value = [T; N];
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "an array of {N}") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<[T; N], A::Error> {
                let mut v = Vec::with_capacity(N);
                while v.len() < N {
                    match a.next_element()? {
                        Some(e) => v.push(e),
                        None => return Err(serde::de::Error::invalid_length(v.len(), &self)),
                    }
                }
                v.try_into().map_err(|_| serde::de::Error::custom("length"))
            }
        }
        d.deserialize_tuple(N, V::<T, N>(PhantomData))
    }
}
