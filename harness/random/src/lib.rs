//! Declarations drawn at random: only run, not part of the proof.
//! Generated by tools/gen_derive.py.
#![allow(clippy::all)]
use oasis_cbor::{Decode, Encode, Value};
use std::collections::BTreeMap;
use vx_catalogue::derived::*;

#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S0 (pub u16, #[cbor(serialize_with = "enc_cap")] pub u64, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, pub LooseUnit);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S1 { #[cbor(skip)] pub key: u64, #[cbor(rename = 65535)] pub a: S0, pub payload: AllOpt }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S2 { pub y: u64, #[cbor(skip)] pub mid: Vec<String>, pub second: Vec<u8>, #[cbor(rename = "a")] pub key: () }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S3 { pub b: LooseUnit, pub kind: AllOpt, pub first: Option<Plain>, pub mid: Option<String>, pub offset: String }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S4 {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S5 { #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub b: bool, #[cbor(serialize_with = "enc_cap")] pub y: u64, #[cbor(rename = 4294967295)] pub name: bool, #[cbor(skip)] pub foo: u64, #[cbor(skip)] pub field_name_of_23_bytes_x: bool, pub c: Option<String> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S6 (pub u8, #[cbor(serialize_with = "enc_cap")] pub u64, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub u64, pub (u64, bool));
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S7 (pub String, pub S4, pub Vec<u8>, pub Vec<u8>, #[cbor(skip)] pub S0);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S8 { #[cbor(optional)] pub foo: (u64, bool), pub n: Option<u64>, #[cbor(optional)] pub y: S0, pub value: BTreeMap<String, u8> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S9 { pub y: u16 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S10 { #[cbor(rename = 18446744073709551615, serialize_with = "enc_not", deserialize_with = "dec_not")] pub value: bool, pub n: bool, #[cbor(skip)] pub field_name_of_23_bytes_x: char }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S11 { pub name: S9, pub a_long_field_name: Vec<AllOpt>, #[cbor(skip)] pub ab: S9, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub aa: u64, pub id: [u8; 3] }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S12 (pub S9, pub u32, pub Option<S1>);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S13 { #[cbor(rename = 1)] pub n: Option<bool>, pub ba: String, #[cbor(rename = 24)] pub zz: Option<u64> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S14 { #[cbor(skip)] pub foo: AllOpt, pub payload: u64, #[cbor(skip)] pub another_field_name_longer_than_23: i64 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S15 { pub kind: u64, #[cbor(skip)] pub ab: String, #[cbor(rename = 10)] pub mid: u16, #[cbor(skip)] pub field_name_of_23_bytes_x: Unit, #[cbor(rename = "tag")] pub a: String, #[cbor(optional)] pub offset: Value }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S16 { pub mid: bool, pub another_field_name_longer_than_23: BTreeMap<String, u8> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S17 { #[cbor(deserialize_with = "dec_small")] pub y: u16, pub bar: char, pub field_name_of_23_bytes_x: S15, pub key: bool, pub value: Option<String> }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S18 { pub id: LooseUnit, #[cbor(skip)] pub foo: String }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S19 (pub S4, pub Vec<u8>, pub S1);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S20 { pub zz: i8 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S21 { #[cbor(rename = "longer")] pub first: S6, #[cbor(rename = 0, serialize_with = "enc_not", deserialize_with = "dec_not")] pub b: bool }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S22 {  }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S23 {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S24 { #[cbor(optional)] pub value: u16 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S25 (pub Option<S24>);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S26 { #[cbor(rename = "quite a long key with more than 23 bytes", optional, skip_serializing_if = "is_odd")] pub c: u64, pub foo: S9, #[cbor(optional)] pub mid: S0, pub a_long_field_name: bool }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S27 (#[cbor(skip)] pub Option<Plain>, pub u64, pub S26, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, #[cbor(skip)] pub u64);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S28 (pub Vec<u8>, pub Option<S1>, pub BTreeMap<u64, String>);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S29 { #[cbor(rename = "a")] pub offset: S20, #[cbor(rename = "aB", optional)] pub ab: [u8; 3] }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S30 { pub ab: Option<String>, pub first: S15 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S31 (pub TransBytes, #[cbor(skip)] pub Option<bool>);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S32 { pub aa: Option<S12>, pub m: u8 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S33 (#[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, pub S6, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub u64);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S34 { pub field_name_of_24_bytes_xy: S4, #[cbor(rename = 7)] pub id: String, pub m: Option<S25> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S35 { #[cbor(optional)] pub foo: S26, #[cbor(optional, serialize_with = "enc_not", deserialize_with = "dec_not")] pub m: bool, #[cbor(skip)] pub id: Option<bool>, pub aa: u128, pub mid: bool, #[cbor(rename = 4294967295, optional)] pub first: u64 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S36 { #[cbor(skip)] pub ab: Vec<AllOpt> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S37 (pub ());
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S38 (pub S20, #[cbor(skip)] pub u16, pub Vec<AllOpt>, pub S33, pub S21, pub S4);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S39 { #[cbor(optional)] pub a: Option<S25>, #[cbor(skip)] pub payload: Option<bool>, #[cbor(skip)] pub kind: LooseUnit }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S40 { pub z: LooseUnit, pub foo: S15, #[cbor(rename = 0)] pub zz: S19 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S41 { pub y: S28, #[cbor(optional)] pub m: bool }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S42 { pub first: S17, #[cbor(optional, skip_serializing_if = "is_odd")] pub mid: u64, #[cbor(skip)] pub aa: () }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S43 {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S44 (pub Option<bool>, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, #[cbor(skip)] pub u8);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S45 {  }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S46 (#[cbor(deserialize_with = "dec_small")] pub u16, pub TransBytes, pub Option<u64>);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S47 { #[cbor(rename = "A")] pub y: S30, #[cbor(rename = 65535)] pub ab: S17, #[cbor(rename = 24)] pub ba: String }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S48 { pub second: S17, #[cbor(skip)] pub a: u64, #[cbor(optional)] pub zz: S18 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S49 (pub String, pub Vec<AllOpt>, pub bool, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub u64, pub S48, #[cbor(skip)] pub S16);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S50 (pub Vec<u8>);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S51 { #[cbor(rename = "tag", optional, skip_serializing_if = "is_zero")] pub y: u64, pub a: [u8; 3], pub m: S21, pub foo: Unit }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S52 { #[cbor(optional)] pub name: Vec<u8> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S53 { pub name: Unit, #[cbor(rename = "", optional)] pub payload: [u8; 3], #[cbor(optional)] pub first: S0, #[cbor(optional)] pub z: i8, #[cbor(rename = 7)] pub y: S19, pub m: Option<u64> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S54 { pub first: S43, #[cbor(skip)] pub c: i32, pub n: Vec<AllOpt>, pub a_long_field_name: i8, #[cbor(serialize_with = "enc_cap")] pub second: u64, pub y: Unit }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S55 { pub n: i32, pub ba: Option<bool> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S56 { #[cbor(skip)] pub payload: S41, pub value: (), pub field_name_of_24_bytes_xy: Value, #[cbor(serialize_with = "enc_cap")] pub mid: u64 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S57 (#[cbor(skip)] pub (u64, bool), #[cbor(skip)] pub Option<S12>, pub Option<u64>, pub S50);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S58 { pub field_name_of_23_bytes_x: Option<S55>, #[cbor(optional, serialize_with = "enc_cap")] pub c: u64, #[cbor(rename = "A", optional, skip_serializing_if = "is_zero")] pub key: u64, pub n: S15 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S59 (pub u64, pub u64, #[cbor(skip)] pub i8, pub i8, #[cbor(skip)] pub String);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, allow_unknown, no_default)]
pub struct S60 { pub ba: S14, pub payload: S10, pub second: S6 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array)]
pub struct S61 { pub offset: Option<bool>, pub kind: Option<Plain> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S62 { #[cbor(skip)] pub n: S0, pub foo: S21, pub offset: S45, pub key: BTreeMap<u64, String> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S63 (pub S23);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S64 { pub field_name_of_23_bytes_x: (u64, bool), pub another_field_name_longer_than_23: AllOpt, #[cbor(skip)] pub ab: [u8; 3] }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S65 (pub i64, pub S60, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S66 (#[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] pub u64, pub i8, pub S17, pub S41, pub Option<S41>);
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S67 (pub (), #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub bool);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S68 { pub offset: S50, pub y: S15, pub m: Option<S25>, #[cbor(deserialize_with = "dec_small")] pub kind: u16 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S69 { pub m: u32, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] pub key: bool, pub foo: S63 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S70 {  }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S71 { pub kind: S38, #[cbor(rename = 1)] pub payload: i32, pub z: S25 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S72 { pub a_long_field_name: S0, #[cbor(optional)] pub field_name_of_24_bytes_xy: S43, #[cbor(rename = 18446744073709551615, optional)] pub b: i8, #[cbor(rename = "a", deserialize_with = "dec_small")] pub aa: u16, pub name: Vec<AllOpt>, pub mid: Option<S59> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S73 (pub S50);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S74 { #[cbor(rename = 4294967296)] pub second: S63, #[cbor(rename = 65536, serialize_with = "enc_cap")] pub b: u64, pub offset: S50, #[cbor(rename = 1)] pub field_name_of_24_bytes_xy: Option<S41> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S75 { #[cbor(skip)] pub c: Option<bool>, #[cbor(rename = 256)] pub value: AllOpt, #[cbor(skip)] pub ba: String, pub b: AllOpt }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S76 { #[cbor(skip)] pub zz: S41, #[cbor(optional)] pub ba: S0, pub key: S9 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
pub struct S77 (#[cbor(skip)] pub S61);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S78 { #[cbor(rename = "Z")] pub offset: BTreeMap<u64, String>, #[cbor(rename = 7)] pub a_long_field_name: S28, #[cbor(optional)] pub aa: u64, pub field_name_of_23_bytes_x: S28, #[cbor(rename = "ä", optional, skip_serializing_if = "is_zero")] pub id: u64, #[cbor(rename = 100, optional)] pub payload: S17 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S79 { pub foo: S71, pub ba: Option<bool>, pub field_name_of_24_bytes_xy: BTreeMap<String, u8> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S80 { pub key: S58, #[cbor(optional, skip_serializing_if = "is_odd")] pub aa: u64, #[cbor(rename = 2, optional)] pub name: S9 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct S81 { #[cbor(rename = 25)] pub key: S15, #[cbor(serialize_with = "enc_cap")] pub zz: u64, #[cbor(optional, serialize_with = "enc_not", deserialize_with = "dec_not")] pub kind: bool, #[cbor(rename = "x y", serialize_with = "enc_not", deserialize_with = "dec_not")] pub bar: bool, pub a_long_field_name: S16, pub field_name_of_23_bytes_x: Option<S25> }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S82 { #[cbor(skip)] pub a_long_field_name: S52, pub c: S50, pub y: S58 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S83 (pub S30, pub char);
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S84 { pub m: S60, pub b: [u8; 3], pub ab: (u64, bool) }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct S85 { pub ab: u128, #[cbor(serialize_with = "enc_cap")] pub bar: u64 }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct S86 {  }
#[derive(Clone, PartialEq, Debug, Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct S87 {  }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S88 { #[cbor(skip)] pub value: Vec<String>, #[cbor(skip)] pub bar: S52, #[cbor(optional)] pub ba: S6, pub a_long_field_name: u16, #[cbor(deserialize_with = "dec_small")] pub ab: u16 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(no_default)]
pub struct S89 { pub zz: S49, #[cbor(rename = "aB")] pub a_long_field_name: S6 }
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E0 {
    Z0(#[cbor(skip)] u64, Vec<AllOpt>, u16, bool),
    #[cbor(rename = 65535)] B1 { c: S49, value: S41, #[cbor(optional, skip_serializing_if = "is_odd")] a_long_field_name: u64 },
    Gone2 { m: S33 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 300)]
pub enum E1 {
    A0 { b: S66, #[cbor(rename = 65536, optional)] z: i8, #[cbor(rename = "quite a long key with more than 23 bytes", optional)] y: S23, mid: (u64, bool) },
    #[cbor(rename = 18446744073709551615)] A1(S75),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 0)]
pub enum E2 {
    #[cbor(rename = 25)] TheVariantNameOfMoreThan23Bytes0 { #[cbor(rename = "value")] z: S85, m: u64, #[cbor(rename = 256, serialize_with = "enc_not", deserialize_with = "dec_not")] value: bool },
    #[cbor(missing)] Num1 { #[cbor(rename = 24)] another_field_name_longer_than_23: S45 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum E3 {
    #[cbor(rename = "quite a long key with more than 23 bytes")] LongVariantNameHere0(S78),
    LongVariantNameHere1 { #[cbor(serialize_with = "enc_cap")] bar: u64, #[cbor(optional)] first: S10 },
    #[cbor(rename = "Z")] B2(S39),
    Rec3(S26),
    #[cbor(rename = 25)] Free4 { #[cbor(optional)] foo: i64, #[cbor(deserialize_with = "dec_small")] payload: u16 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E4 {
    #[cbor(rename = 4294967296, as_array)] Rec0 { id: S36, zz: S1 },
    #[cbor(rename = 1, as_struct)] Rec1,
    #[cbor(rename = "")] A2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E5 {
    #[cbor(rename = 3)] LongVariantNameHere0,
    Rec1,
    Tuple2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E6 {
    Z2 = -25,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E7 {
    Other0(S61, S33, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] bool, Option<S1>),
    #[cbor(rename = "A")] Z1(Option<Plain>, i64),
    A2,
    #[cbor(rename = "a", as_struct)] Gone3,
    #[cbor(rename = "Z", as_struct, allow_unknown)] LongVariantNameHere4,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 0)]
pub enum E8 {
    TheVariantNameOfMoreThan23Bytes0(S41),
    #[cbor(allow_unknown)] Num1 { zz: S23, #[cbor(rename = 25)] id: u8 },
    B2 { #[cbor(rename = 4294967296, optional)] n: S67 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "mm")]
pub enum E9 {
    #[cbor(rename = "quite a long key with more than 23 bytes")] Rec0(Plain),
    C1 { #[cbor(optional, skip_serializing_if = "is_zero")] kind: u64, #[cbor(rename = "A", serialize_with = "enc_plus", deserialize_with = "dec_plus")] a: u64, c: S36 },
    Num2 { #[cbor(rename = 4294967295, optional, deserialize_with = "dec_small")] foo: u16 },
    #[cbor(rename = 100, missing)] Z3 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E10 {
    #[cbor(embed)] Gone0(E5),
    Other1,
    #[cbor(rename = 4294967296, as_array)] Gone2 { offset: S49, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] kind: bool, y: bool },
    Gone3 { #[cbor(skip)] kind: S26, #[cbor(optional)] id: Vec<E3> },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum E11 {
    Rec0(S15),
    A1 { #[cbor(rename = 23, optional)] bar: Option<Plain> },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E12 {
    Z0(S43, S26),
    #[cbor(as_struct, allow_unknown)] Free1,
    #[cbor(rename = 25)] Gone2 { #[cbor(rename = "quite a long key with more than 23 bytes", optional)] zz: Option<S55> },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E13 {
    #[cbor(as_array)] Other0 { #[cbor(skip)] a_long_field_name: S9, aa: E1 },
    #[cbor(as_struct, allow_unknown)] Rec1,
    #[cbor(rename = 65536)] TheVariantNameOfMoreThan23Bytes2,
    C3(#[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] u64, i8),
    #[cbor(rename = 256)] Other4(u64, S70, S21),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 0)]
pub enum E14 {
    Gone0(S41),
    #[cbor(rename = 65536)] C1 { #[cbor(rename = "quite a long key with more than 23 bytes")] m: BTreeMap<String, u8>, field_name_of_23_bytes_x: E12, #[cbor(skip)] another_field_name_longer_than_23: Option<u64> },
    #[cbor(rename = 2)] Rec2 { zz: S83 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E15 {
    Free3 = -1,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "mode")]
pub enum E16 {
    #[cbor(missing)] Gone0 {  },
    C1 {  },
    TheVariantNameOfMoreThan23Bytes2 { #[cbor(serialize_with = "enc_cap")] ba: u64, #[cbor(optional, skip_serializing_if = "is_odd")] mid: u64, another_field_name_longer_than_23: String, #[cbor(skip)] second: Option<S55> },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E17 {
    #[cbor(rename = 65535, as_array, allow_unknown)] Tuple0 { second: Option<bool>, payload: String, foo: Option<String> },
    Rec1 { #[cbor(optional, skip_serializing_if = "is_odd")] payload: u64 },
    Gone2(S62, u64, Vec<u8>),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E18 {
    #[cbor(as_struct)] LongVariantNameHere0,
    #[cbor(rename = "x y")] Rec1 { n: S41, second: S0, #[cbor(rename = "zz")] payload: i64, value: S83 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E19 {
    Other0 { #[cbor(rename = "", optional)] mid: Vec<AllOpt>, #[cbor(rename = "B")] another_field_name_longer_than_23: Option<S59>, aa: Option<S41>, name: S52 },
    #[cbor(as_array)] A1 { name: Vec<E7>, bar: Value, z: S58 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E20 {
    #[cbor(as_array)] B0 { name: Vec<u16>, z: Option<S55> },
    Num1,
    #[cbor(as_struct)] Tuple2,
    Rec3(Vec<String>),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E21 {
    Num0 { a: S6, value: S45, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] ba: bool, #[cbor(deserialize_with = "dec_small")] field_name_of_23_bytes_x: u16 },
    Gone1(bool),
    #[cbor(rename = 65536, as_struct)] Gone2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E22 {
    A1 = 1,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E23 {
    Tuple2 = 24,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E24 {
    C0(S43),
    #[cbor(embed)] Z1(Child),
    Free2(S17, #[cbor(serialize_with = "enc_cap")] u64, Option<S59>),
    Num3(Vec<E7>),
    Other4,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E25 {
    #[cbor(allow_unknown)] Num0 { #[cbor(skip)] m: Vec<E17>, #[cbor(optional, serialize_with = "enc_not", deserialize_with = "dec_not")] payload: bool, #[cbor(rename = 2, optional, serialize_with = "enc_cap")] field_name_of_24_bytes_xy: u64, #[cbor(skip)] z: Unit },
    #[cbor(rename = "tag")] LongVariantNameHere1,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E26 {
    Other1 = 1,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E27 {
    #[cbor(rename = "")] A0,
    #[cbor(as_struct)] LongVariantNameHere1,
    #[cbor(rename = "a", as_struct, allow_unknown)] Z2,
    #[cbor(embed)] Num3(E17),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E28 {
    Free0 { #[cbor(rename = 255)] c: S62 },
    #[cbor(rename = "aB")] Z1 { name: Vec<E7>, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] b: u64 },
    Rec2 { #[cbor(rename = 4294967296, optional, serialize_with = "enc_cap")] another_field_name_longer_than_23: u64, z: bool, key: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E29 {
    #[cbor(rename = "aB")] Rec0(S6, Vec<AllOpt>),
    #[cbor(as_struct)] Num1,
    Tuple2,
    #[cbor(rename = 255)] TheVariantNameOfMoreThan23Bytes3 { #[cbor(rename = "value", optional)] id: S60, #[cbor(rename = 7)] mid: S66, #[cbor(rename = "A")] another_field_name_longer_than_23: Option<S55> },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E30 {
    #[cbor(as_array)] Free0 { #[cbor(skip)] zz: Option<E25>, mid: S6 },
    #[cbor(rename = 4294967296, as_array)] Z1 { #[cbor(skip)] y: String },
    Other2(TransBytes, S16),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E31 {
    #[cbor(embed)] Num0(Child),
    #[cbor(rename = 255)] C1 { #[cbor(rename = 3)] foo: S18 },
    TheVariantNameOfMoreThan23Bytes2(S67),
    Num3,
    LongVariantNameHere4,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E32 {
    Num0 {  },
    Gone1(#[cbor(skip)] Vec<String>, i8),
    #[cbor(rename = "Z")] A2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E33 {
    #[cbor(embed)] Num0(E18),
    Num1 { #[cbor(skip)] a_long_field_name: Vec<E17>, #[cbor(rename = 3)] foo: S49, #[cbor(rename = "quite a long key with more than 23 bytes", optional, skip_serializing_if = "is_odd")] another_field_name_longer_than_23: u64, #[cbor(rename = "A", optional)] ba: Option<S24> },
    #[cbor(as_struct, allow_unknown)] B2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E34 {
    #[cbor(as_array)] LongVariantNameHere0 { name: S62, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] key: u64 },
    #[cbor(as_struct)] Z1,
    #[cbor(embed)] Free2(E29),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 24)]
pub enum E35 {
    #[cbor(allow_unknown)] A0 { first: S49 },
    C1(S78),
    #[cbor(allow_unknown)] Other2 { bar: S19, #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] field_name_of_23_bytes_x: bool, #[cbor(skip)] aa: Option<S55>, n: Option<S12> },
    #[cbor(rename = "a")] Num3 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "tag")]
pub enum E36 {
    Gone0 { #[cbor(rename = 100, optional)] ab: E10 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E37 {
    #[cbor(rename = "ä", as_array)] TheVariantNameOfMoreThan23Bytes0 { #[cbor(serialize_with = "enc_not", deserialize_with = "dec_not")] a: bool, second: S6 },
    #[cbor(rename = 100)] A1 { #[cbor(optional)] offset: BTreeMap<u64, String> },
    Z2(S0, S85, Option<S55>, u64),
    #[cbor(rename = 255)] A3(bool),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E38 {
    C0(S57),
    Z1,
    #[cbor(rename = 255)] Num2 { #[cbor(skip)] zz: TransBytes, bar: Option<E34> },
    #[cbor(as_array, allow_unknown)] B3 { #[cbor(skip)] kind: S28, another_field_name_longer_than_23: S9 },
    A4 { z: Value },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E39 {
    #[cbor(rename = 255)] Rec0,
    #[cbor(as_array)] C1 { a_long_field_name: Option<E27>, kind: i64, #[cbor(skip)] a: u16 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E40 {
    #[cbor(as_array, allow_unknown)] Tuple0 { key: S14 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E41 {
    #[cbor(rename = 18446744073709551615)] Rec0,
    LongVariantNameHere1(#[cbor(skip)] S1, TransBytes, #[cbor(skip)] Vec<AllOpt>),
    #[cbor(rename = "x y")] Tuple2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E42 {
    Rec0(Option<E41>),
    #[cbor(as_struct)] LongVariantNameHere1,
    Free2(#[cbor(serialize_with = "enc_cap")] u64, S16, S35, S41),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E43 {
    #[cbor(embed)] TheVariantNameOfMoreThan23Bytes0(E41),
    Rec1,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "mode")]
pub enum E44 {
    Num0(S43),
    B1(S75),
    #[cbor(allow_unknown, missing)] Other2 { y: i32, #[cbor(rename = "ä", optional)] value: S70 },
    #[cbor(rename = "quite a long key with more than 23 bytes")] TheVariantNameOfMoreThan23Bytes3(S15),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E45 {
    Num0 { n: S38 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E46 {
    Free0,
    LongVariantNameHere1 { first: String, #[cbor(optional, skip_serializing_if = "is_zero")] foo: u64, value: S19, #[cbor(optional)] aa: S35 },
    C2,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E47 {
    #[cbor(as_array)] Z0 { #[cbor(skip)] ab: u64, another_field_name_longer_than_23: Option<E34>, #[cbor(skip)] aa: S59 },
    #[cbor(rename = "A")] C1,
    C2 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E48 {
    B0,
    Num1 { kind: Option<E34> },
    A2,
    #[cbor(embed)] Free3(E18),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E49 {
    #[cbor(rename = 65535)] C0,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "mode")]
pub enum E50 {
    Rec0 { a: S71, #[cbor(rename = "quite a long key with more than 23 bytes")] field_name_of_24_bytes_xy: AllOpt, #[cbor(rename = "longer", optional)] m: S4 },
    Z1 {  },
    Rec2 { #[cbor(optional)] bar: S45, #[cbor(optional)] field_name_of_24_bytes_xy: Value },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 24)]
pub enum E51 {
    #[cbor(rename = "Z")] Z0 {  },
    #[cbor(rename = 18446744073709551615)] Other1(S24),
    Rec2 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum E52 {
    #[cbor(rename = "Z")] Tuple0 {  },
    TheVariantNameOfMoreThan23Bytes1(S39),
    C2 { #[cbor(rename = "x y")] b: Vec<AllOpt>, another_field_name_longer_than_23: S26, #[cbor(rename = "aB", deserialize_with = "dec_small")] y: u16 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "t")]
pub enum E53 {
    #[cbor(rename = "Z")] B0(S42),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E54 {
    B0 {  },
    #[cbor(embed)] Other1(E41),
    #[cbor(rename = "tag")] Other2,
    Num3 { #[cbor(skip)] foo: Vec<E8> },
    Tuple4(S62, u64),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E55 {
    #[cbor(rename = "aB", as_array)] C0 { zz: E19, foo: u64, key: i64 },
    #[cbor(rename = "quite a long key with more than 23 bytes", as_array)] B1 { payload: Vec<E48>, y: Vec<String> },
    #[cbor(rename = "value", as_struct, allow_unknown)] Z2,
    #[cbor(rename = "zz", as_struct)] A3,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E56 {
    LongVariantNameHere0 { a: Option<E25>, #[cbor(optional)] first: (u64, bool), #[cbor(rename = 4294967295)] field_name_of_24_bytes_xy: Option<S41> },
    #[cbor(rename = "value")] Rec1 {  },
    #[cbor(rename = "tag")] B2(u64, (u64, bool)),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 5)]
pub enum E57 {
    #[cbor(allow_unknown)] Num0 { #[cbor(optional)] key: S45, #[cbor(rename = 18446744073709551615, optional)] field_name_of_23_bytes_x: S35, #[cbor(rename = 65536, optional)] a_long_field_name: u64 },
    C1 {  },
    #[cbor(rename = 10)] LongVariantNameHere2(S29),
    Free3 { m: S88, kind: S6, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] bar: u64 },
    LongVariantNameHere4(S72),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "mm")]
pub enum E58 {
    #[cbor(rename = 3)] B0 { #[cbor(rename = "zz")] m: S1, name: S78, #[cbor(rename = 25)] value: AllOpt, #[cbor(rename = 1, serialize_with = "enc_plus", deserialize_with = "dec_plus")] y: u64 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E59 {
    #[cbor(rename = 1, as_struct, allow_unknown)] Other0,
    Z1,
    #[cbor(embed)] A2(E37),
    Gone3,
    TheVariantNameOfMoreThan23Bytes4(Option<E38>),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E60 {
    #[cbor(as_struct)] Gone0,
    Gone1(Option<E27>, Option<E56>, S48),
    #[cbor(embed)] B2(E5),
    #[cbor(as_struct)] Gone3,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "tag")]
pub enum E61 {
    Z0 { kind: Option<S24> },
    #[cbor(rename = "Z")] Rec1 { another_field_name_longer_than_23: Option<S1> },
    #[cbor(missing)] Z2 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E62 {
    C0 = 24,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E63 {
    #[cbor(embed)] A0(E17),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "v")]
pub enum E64 {
    #[cbor(rename = "Z")] Gone0 { #[cbor(rename = "", serialize_with = "enc_not", deserialize_with = "dec_not")] z: bool, #[cbor(rename = 3)] field_name_of_23_bytes_x: i64, #[cbor(rename = 1)] bar: S63, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] c: u64 },
    #[cbor(rename = 23)] LongVariantNameHere1 { #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] key: u64, #[cbor(serialize_with = "enc_plus", deserialize_with = "dec_plus")] bar: u64 },
    Z2 {  },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "tag")]
pub enum E65 {
    #[cbor(rename = 65536, allow_unknown)] A0 { #[cbor(skip)] first: Vec<E7>, #[cbor(rename = 4294967296, optional)] z: E1 },
    #[cbor(rename = 2)] Gone1(S36),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E66 {
    Other0(AllOpt),
    #[cbor(rename = "Z")] Z1 { #[cbor(optional)] field_name_of_23_bytes_x: TransBytes, payload: Option<E26>, another_field_name_longer_than_23: i64 },
    B2(S61),
    #[cbor(rename = 4294967295)] Other3 { #[cbor(skip)] kind: Vec<E3>, #[cbor(rename = 255)] field_name_of_24_bytes_xy: S78, #[cbor(optional, skip_serializing_if = "is_zero")] aa: u64, #[cbor(skip)] y: i32 },
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = 24)]
pub enum E67 {
    #[cbor(allow_unknown, missing)] Z0 { #[cbor(skip)] payload: Vec<E17>, ab: S76, bar: Vec<E3> },
    Tuple1 { first: Option<S59> },
    #[cbor(rename = 1)] Free2 { #[cbor(optional, serialize_with = "enc_plus", deserialize_with = "dec_plus")] kind: u64, #[cbor(optional, deserialize_with = "dec_small")] b: u16, #[cbor(rename = 2, serialize_with = "enc_not", deserialize_with = "dec_not")] key: bool, a: u16 },
    Tuple3(S29),
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
pub enum E68 {
    #[cbor(rename = "value", as_struct)] Tuple0,
    #[cbor(as_struct)] A1,
    C2,
    #[cbor(rename = 7)] Gone3,
    #[cbor(as_struct)] Gone4,
}
#[derive(Clone, PartialEq, Debug, Encode, Decode)]
#[cbor(tag = "tag")]
pub enum E69 {
    #[cbor(allow_unknown)] Free0 { #[cbor(optional)] a_long_field_name: BTreeMap<String, u8>, #[cbor(optional, skip_serializing_if = "is_odd")] first: u64, #[cbor(optional)] y: Option<S41>, #[cbor(rename = "", serialize_with = "enc_cap")] second: u64 },
    #[cbor(allow_unknown, missing)] Free1 {  },
    #[cbor(rename = "Z")] LongVariantNameHere2 { #[cbor(rename = 7, optional, serialize_with = "enc_not", deserialize_with = "dec_not")] a_long_field_name: bool, #[cbor(rename = "Z")] field_name_of_23_bytes_x: E12 },
}
