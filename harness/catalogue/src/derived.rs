//! Declarations that use the derive macros in every supported way.
//! Generated by tools/gen_derive.py.
#![allow(clippy::all)]
use oasis_cbor::{Decode, DecodeError, Encode, Value};

/// Helpers that attributes name.
pub fn is_zero(x: &u64) -> bool { *x == 0 }
pub fn is_odd(x: &u64) -> bool { *x % 2 == 1 }
pub fn enc_cap(x: &u64) -> u64 { if *x > 1000 { 1000 } else { *x } }
pub fn dec_small(x: u16) -> Result<u16, DecodeError> { if x < 1000 { Ok(x) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub fn enc_plus(x: &u64) -> u128 { *x as u128 + 1 }
pub fn dec_plus(x: u128) -> Result<u64, DecodeError> { if 1 <= x && x <= u64::MAX as u128 + 1 { Ok((x - 1) as u64) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub fn enc_not(x: &bool) -> bool { !*x }
pub fn dec_not(x: bool) -> Result<bool, DecodeError> { Ok(!x) }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Plain { pub zeta: u64, pub alpha: String, pub mid: Vec<u8> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct Opt { pub must: u64, #[cbor(optional)] pub n: u64, #[cbor(optional)] pub b: bool, #[cbor(optional)] pub s: String }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct OptMore { #[cbor(optional)] pub v: Vec<u16>, #[cbor(optional)] pub d: Value, #[cbor(optional)] pub t: (u64, bool) }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Renamed { #[cbor(rename = "b")] pub first: u64, #[cbor(rename = 300)] pub second: bool, #[cbor(rename = 7)] pub third: Option<bool>, pub plain: u8 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct AllOpt { #[cbor(optional)] pub x: u64, #[cbor(optional)] pub y: Option<bool> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Nested { pub inner: Plain, pub list: Vec<AllOpt>, pub maybe: Option<Plain> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct OptNested { #[cbor(optional)] pub inner: AllOpt, #[cbor(optional)] pub unit: Unit, #[cbor(optional)] pub plain: Plain }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Unit;
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct EmptyBraces {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct AsArr { pub a: u64, #[cbor(skip)] pub hidden: u64, pub z: Option<String> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct LooseArr { pub a: u64, pub b: bool }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Tup (pub u64, pub Option<bool>, pub String);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct NewT (pub u64);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(transparent)]
pub struct Trans (pub u64);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(transparent)]
pub struct TransOpt (pub Option<Plain>);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Loose { pub a: u64, #[cbor(optional)] pub z: Option<bool>, #[cbor(rename = 7)] pub k: u8 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct NoDef { pub a: [u64; 2] }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct HoldsNoDef { pub a: NoDef, pub o: Option<NoDef> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct Skips { pub a: u64, #[cbor(skip)] pub h: String, #[cbor(skip)] pub i: Option<u8>, pub z: bool }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct SkipIf { #[cbor(optional, skip_serializing_if = "is_zero")] pub a: u64, #[cbor(optional, skip_serializing_if = "is_odd")] pub b: u64, pub c: u64 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct With { #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub p: u64, #[cbor(optional, serialize_with = "enc_not", deserialize_with = "dec_not")] pub q: bool }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct LongNames { pub zeta_zeta_zeta_zeta_zeta: u64, #[cbor(optional)] pub alpha_alpha_alpha_alpha_alpha: u64, #[cbor(rename = "name of 23 bytes exactl")] pub mid: bool, #[cbor(rename = "")] pub e: u8 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct BigKeys { #[cbor(rename = 18446744073709551615)] pub e: u64, #[cbor(rename = 4294967296)] pub d: u8, #[cbor(rename = 65536)] pub c: bool, pub text: u64, #[cbor(rename = 256, optional)] pub b: u64, #[cbor(rename = 24)] pub a: Option<u64>, #[cbor(rename = 0)] pub z: u64 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct TupMix (pub u64, #[cbor(skip)] pub u8, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub u64, #[cbor(deserialize_with = "dec_small")] pub u16);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct ArrMix { #[cbor(skip)] pub h: u8, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub b: bool, #[cbor(optional)] pub a: Option<bool> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct Codecs { #[cbor(serialize_with = "enc_cap")] pub cap: u64, #[cbor(optional, deserialize_with = "dec_small")] pub small: u16, #[cbor(rename = 9, optional, skip_serializing_if = "is_zero", serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub both: u64 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct LooseCodecs { #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub b: bool, #[cbor(optional, deserialize_with = "dec_small")] pub a: u16, #[cbor(skip)] pub h: u8, #[cbor(optional, skip_serializing_if = "is_odd")] pub k: u64 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct LooseUnit;
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct EmptyTup ();
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct EmptyArr {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(transparent)]
pub struct TransBytes (pub Vec<u8>);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(transparent)]
pub struct TransOpt2 (pub AllOpt);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct HasTrans { #[cbor(optional)] pub b: TransBytes, #[cbor(optional)] pub o: TransOpt2, pub l: Vec<TransBytes>, pub m: Option<LooseUnit> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct ArrSkips { #[cbor(skip)] pub h: u8, pub a: u64, #[cbor(skip)] pub i: u64, pub b: u64 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct TupSkips (#[cbor(skip)] pub u8, pub u64, #[cbor(skip)] pub u64, pub Option<u64>);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct Gen<T: Encode + Decode> { pub one: T, pub o: Option<T> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Units {
    A,
    #[cbor(rename = "bee")] B,
    C,
    #[cbor(rename = 5)] D,
}
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(with_default)]
pub enum Disc {
    A = 0,
    B = -3,
    C = 300,
    #[default] D = 70000,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Mixed {
    Nothing,
    New(u64),
    Pair(u64, Option<bool>),
    #[cbor(rename = "r")] Rec { b: u64, #[cbor(optional)] a: Option<String> },
    #[cbor(skip)] Gone(u64),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Shapes {
    #[cbor(as_array)] Arr { x: u64, #[cbor(skip)] h: u8, y: bool },
    Braces {  },
    #[cbor(as_struct)] AsStruct,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum More {
    Hide { a: u64, #[cbor(skip)] h: u8 },
    Deep(Plain),
    #[cbor(allow_unknown)] Free { a: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Child {
    One,
    Two(u64),
    Three { n: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Parent {
    Own,
    Two(bool),
    #[cbor(embed)] Kid(Child),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum OnlyUnits {
    Own,
    #[cbor(embed)] Kid(Child),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum Tagged {
    Deep(Plain),
    #[cbor(rename = "r")] Rec { b: u64, #[cbor(optional)] a: Option<String> },
    Nothing,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum Fallback {
    #[cbor(allow_unknown)] Free { a: u64 },
    #[cbor(missing)] Rest { a: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 0)]
pub enum TagNum {
    #[cbor(rename = 1)] One { a: u64 },
    #[cbor(rename = 2)] Two(AllOpt),
}
#[derive(Clone, PartialEq, Debug, Encode)]
#[cbor(untagged)]
pub enum Bare {
    Num(u64),
    Rec { a: u64, #[cbor(optional)] b: bool },
    Nothing,
    #[cbor(skip)] Gone,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum LongVars {
    AVariantNameOfMoreThan23Bytes,
    AnotherVariantNameOfMoreThan23Bytes(u64),
    #[cbor(rename = 24)] Num(bool),
    #[cbor(rename = 4294967296)] Big,
    #[cbor(rename = "")] X(u8),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum DiscNames {
    #[cbor(rename = "a")] A = 24,
    B = -25,
    C = 23,
    #[cbor(rename = 7)] D = 256,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum VarMix {
    Tup(#[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] u64, #[cbor(skip)] u8, bool),
    #[cbor(as_array, allow_unknown)] Arr { #[cbor(deserialize_with = "dec_small")] x: u16, y: Option<u8> },
    EmptyTup(),
    #[cbor(as_struct, allow_unknown)] LooseUnit,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum VarRec {
    Rec { #[cbor(rename = 3, serialize_with = "enc_not", deserialize_with = "dec_not")] b: bool, #[cbor(optional, skip_serializing_if = "is_zero")] n: u64, #[cbor(optional)] o: u8 },
    #[cbor(allow_unknown)] Loose { #[cbor(optional, deserialize_with = "dec_small")] n: u16 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum Kids {
    #[cbor(rename = "o")] Own,
    #[cbor(embed)] Num(Units),
    #[cbor(embed)] Kid(Child),
    #[cbor(rename = "r")] Rec { a: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "t")]
pub enum TagDisc {
    A = 1,
    #[cbor(rename = "b")] B = 2,
    #[cbor(allow_unknown)] LooseC = 3,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "m")]
pub enum TagMid {
    Rec { a: u64, zz: u64 },
    Opt { #[cbor(rename = 3)] l: u64, #[cbor(optional)] yy: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum SkipShapes {
    Tup(#[cbor(skip)] u8, u64, #[cbor(skip)] u64, u64),
    #[cbor(as_array)] Arr { #[cbor(skip)] h: u8, x: u64, y: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "kind of tag that is longer")]
pub enum FallNew {
    One { a: u64 },
    #[cbor(missing)] Rest(Plain),
    #[cbor(skip)] Gone { a: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct HasEnums { pub u: Units, pub m: Option<Mixed>, pub t: Vec<Tagged>, #[cbor(optional)] pub c: Disc }
