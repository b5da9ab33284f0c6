//! Stand-in for the `serde-hex` crate: `SerHex` for byte arrays and `SerHexSeq`
//! for `Vec<u8>`, with the strict/prefixed configurations.
use std::borrow::Cow;
use std::marker::PhantomData;

use serde::{Deserialize, Deserializer, Serializer};

pub trait HexConf {
    const PREFIX: bool;
    const UPPER: bool = false;
}
macro_rules! conf { ($($n:ident $p:expr, $u:expr;)*) => { $(
    #[derive(Clone, Copy, Debug)] pub struct $n;
    impl HexConf for $n { const PREFIX: bool = $p; const UPPER: bool = $u; })* } }
conf! { Strict false, false; StrictPfx true, false; StrictCap false, true; StrictCapPfx true, true; }

fn enc<C: HexConf>(bytes: &[u8]) -> String {
    let body = if C::UPPER { hex::encode_upper(bytes) } else { hex::encode(bytes) };
    if C::PREFIX { format!("0x{body}") } else { body }
}
fn dec<'de, C: HexConf, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s: Cow<'de, str> = Cow::deserialize(d)?;
    let body = if C::PREFIX {
        s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing 0x prefix"))?
    } else {
        &s
    };
    hex::decode(body).map_err(serde::de::Error::custom)
}

pub trait SerHex<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc::<C>(self))
    }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        dec::<C, D>(d)?.try_into().map_err(|v: Vec<u8>| {
            serde::de::Error::custom(format!("expected {N} bytes, got {}", v.len()))
        })
    }
}
pub trait SerHexSeq<C: HexConf>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C: HexConf> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc::<C>(self))
    }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { dec::<C, D>(d) }
}
#[doc(hidden)]
pub struct Unused(PhantomData<()>);
