// The traits of serde as this crate meets them, with what each method is for. The traits and the impls for other
// types are serde's: that they drive a serializer by their data, and read what a deserializer hands to them, is assumed.
use vstd::utf8::*;
use crate::spec::*;
use crate::stdspec::*;
use crate::typed::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor::serde::error::Error;
use crate::oasis_cbor::serde::ser::Serializer as S;
use crate::oasis_cbor::serde::de::Deserializer as De;
use crate::oasis_cbor_value::values::Value;

/// A value in the data model of serde.
#[verifier::ext_equal]
pub enum Data {
    Bool(bool),
    Int(int),
    U128(int),
    Float,
    Char(int),
    Str(Seq<char>),
    Bytes(Seq<u8>),
    None,
    Some(Box<Data>),
    /// The unit and unit structs.
    Unit,
    UnitVariant(Seq<char>),
    Newtype(Box<Data>),
    NewtypeVariant(Seq<char>, Box<Data>),
    /// Sequences, tuples and tuple structs.
    List(Seq<Data>),
    TupleVariant(Seq<char>, Seq<Data>),
    Map(Seq<(Data, Data)>),
    Struct(Seq<(Seq<char>, Data)>),
    StructVariant(Seq<char>, Seq<(Seq<char>, Data)>),
}
pub open spec fn one_of(k: V, x: V) -> V { V::M(seq![(k, x)]) }
pub open spec fn text(s: Seq<char>) -> V { V::T(encode_utf8(s)) }
/// The item that stands for a value; none if it holds a floating-point number.
pub open spec fn ser_v(d: Data) -> Option<V>
    decreases d
{
    match d {
        Data::Bool(b) => Some(V::S(if b { 21int } else { 20int })),
        Data::Int(i) => Some(v_int(i)),
        Data::U128(i) => Some(V::B(be_min(i))),
        Data::Float => None,
        Data::Char(c) => Some(V::U(c)),
        Data::Str(s) => Some(text(s)),
        Data::Bytes(b) => Some(V::B(b)),
        Data::None => Some(V::S(22)),
        Data::Some(x) => ser_v(*x),
        Data::Unit => Some(V::S(22)),
        Data::UnitVariant(n) => Some(text(n)),
        Data::Newtype(x) => match ser_v(*x) { Some(v) => Some(V::A(seq![v])), None => None },
        Data::NewtypeVariant(n, x) => match ser_v(*x) { Some(v) => Some(one_of(text(n), v)), None => None },
        Data::List(s) => match ser_list(s, s.len()) { Some(a) => Some(V::A(a)), None => None },
        Data::TupleVariant(n, s) => match ser_list(s, s.len()) { Some(a) => Some(one_of(text(n), V::A(a))), None => None },
        Data::Map(s) => match ser_map(s, s.len()) { Some(m) => Some(V::M(m)), None => None },
        Data::Struct(s) => match ser_fields(s, s.len()) { Some(m) => Some(V::M(m)), None => None },
        Data::StructVariant(n, s) => match ser_fields(s, s.len()) { Some(m) => Some(one_of(text(n), V::M(m))), None => None },
    }
}
/// The first n elements.
pub open spec fn ser_list(s: Seq<Data>, n: nat) -> Option<Seq<V>>
    decreases s, n
{
    if n == 0 || n > s.len() { Some(Seq::empty()) } else {
        match ser_list(s, (n - 1) as nat) { None => None, Some(a) => match ser_v(s[n - 1]) { None => None, Some(v) => Some(a.push(v)) } }
    }
}
pub open spec fn ser_map(s: Seq<(Data, Data)>, n: nat) -> Option<Seq<(V, V)>>
    decreases s, n
{
    if n == 0 || n > s.len() { Some(Seq::empty()) } else {
        match ser_map(s, (n - 1) as nat) {
            None => None,
            Some(m) => match ser_v(s[n - 1].0) { None => None, Some(k) => match ser_v(s[n - 1].1) { None => None, Some(v) => Some(m.push((k, v))) } },
        }
    }
}
pub open spec fn ser_fields(s: Seq<(Seq<char>, Data)>, n: nat) -> Option<Seq<(V, V)>>
    decreases s, n
{
    if n == 0 || n > s.len() { Some(Seq::empty()) } else {
        match ser_fields(s, (n - 1) as nat) { None => None, Some(m) => match ser_v(s[n - 1].1) { None => None, Some(v) => Some(m.push((text(s[n - 1].0), v))) } }
    }
}
/// The outcome of serializing: the item, or a refusal of floating point.
pub open spec fn served(d: Data, r: Result<Value, Error>) -> bool {
    match ser_v(d) { Some(v) => r is Ok && vw(r->Ok_0) == v, None => r is Err && r->Err_0 is UnsupportedType }
}
/// The outcome of adding one element to what has been collected.
pub open spec fn added(a: Seq<V>, b: Seq<V>, d: Data, r: Result<(), Error>) -> bool {
    match ser_v(d) { Some(v) => r is Ok && b == a.push(v), None => r is Err && r->Err_0 is UnsupportedType }
}
pub open spec fn added_field(a: Seq<(V, V)>, b: Seq<(V, V)>, k: Seq<char>, d: Data, r: Result<(), Error>) -> bool {
    match ser_v(d) { Some(v) => r is Ok && b == a.push((text(k), v)), None => r is Err && r->Err_0 is UnsupportedType }
}
pub open spec fn is_item(v: V, r: Result<Value, Error>) -> bool { r is Ok && vw(r->Ok_0) == v }

pub trait Serialize {
    spec fn data(&self) -> Data;
    fn serialize(&self, s: &mut S) -> (r: Result<Value, Error>) ensures served(self.data(), r);
}
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_element<T0: ?Sized + Serialize>(&mut self, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeTuple: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_element<T0: ?Sized + Serialize>(&mut self, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeTupleStruct: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T0: ?Sized + Serialize>(&mut self, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeTupleVariant: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T0: ?Sized + Serialize>(&mut self, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    /// A key waits for its value.
    spec fn ready(self) -> bool;
    spec fn took_key(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn took_value(a: Self, b: Self, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_key<T0: ?Sized + Serialize>(&mut self, key: &T0) -> (r: Result<(), Self::Error>) ensures Self::took_key(*old(self), *final(self), key.data(), r);
    fn serialize_value<T0: ?Sized + Serialize>(&mut self, value: &T0) -> (r: Result<(), Self::Error>)
        requires old(self).ready()
        ensures Self::took_value(*old(self), *final(self), value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, k: Seq<char>, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T0: ?Sized + Serialize>(&mut self, key: &'static str, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), key@, value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}
pub trait SerializeStructVariant: Sized {
    type Ok;
    type Error;
    spec fn took(a: Self, b: Self, k: Seq<char>, d: Data, r: Result<(), Self::Error>) -> bool;
    spec fn made(self, r: Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_field<T0: ?Sized + Serialize>(&mut self, key: &'static str, value: &T0) -> (r: Result<(), Self::Error>) ensures Self::took(*old(self), *final(self), key@, value.data(), r);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.made(r);
}

/// What a visitor is called with.
#[verifier::ext_equal]
pub enum Ev {
    Bool(bool),
    U64(int),
    I64(int),
    I128(int),
    U128(int),
    Char(int),
    Str(Seq<u8>),
    Bytes(Seq<u8>),
    None,
    Some(V),
    Unit,
    Seq(Seq<V>),
    Map(Seq<(V, V)>),
    /// A variant's name and content.
    Enum(V, V),
}
/// Why no visitor is called.
pub enum No { Unsupported, Mismatch, Decode(DecodeError) }
pub open spec fn any_ev(v: V) -> Result<Ev, No> {
    match v {
        V::U(n) => Ok(Ev::U64(n)),
        V::N(n) => if -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff { Ok(Ev::I64(n)) } else { Ok(Ev::I128(n)) },
        V::B(b) => Ok(Ev::Bytes(b)),
        V::T(t) => Ok(Ev::Str(t)),
        V::A(a) => Ok(Ev::Seq(a)),
        V::M(m) => Ok(Ev::Map(m)),
        V::Tag(..) => Err(No::Unsupported),
        V::S(s) => Ok(if s == 20 { Ev::Bool(false) } else if s == 21 { Ev::Bool(true) } else { Ev::Unit }),
    }
}
pub open spec fn u128_ev(v: V) -> Result<Ev, No> { match <u128 as crate::oasis_cbor::decode::Decode>::d_from(v) { Ok(n) => Ok(Ev::U128(n)), Err(e) => Err(No::Decode(e)) } }
pub open spec fn char_ev(v: V) -> Result<Ev, No> { match <char as crate::oasis_cbor::decode::Decode>::d_from(v) { Ok(n) => Ok(Ev::Char(n)), Err(e) => Err(No::Decode(e)) } }
pub open spec fn option_ev(v: V) -> Result<Ev, No> { if v == V::S(22) { Ok(Ev::None) } else { Ok(Ev::Some(v)) } }
pub open spec fn seq_ev(v: V) -> Result<Ev, No> { match v { V::A(a) => Ok(Ev::Seq(a)), _ => Err(No::Mismatch) } }
pub open spec fn map_ev(v: V) -> Result<Ev, No> { match v { V::M(m) => Ok(Ev::Map(m)), _ => Err(No::Mismatch) } }
pub open spec fn enum_ev(v: V) -> Result<Ev, No> {
    match v {
        V::M(m) => if m.len() == 1 { Ok(Ev::Enum(m[0].0, m[0].1)) } else { Err(No::Mismatch) },
        V::T(_) => Ok(Ev::Enum(v, V::S(22))),
        _ => Err(No::Mismatch),
    }
}
pub open spec fn refused(n: No, e: Error) -> bool {
    match n { No::Unsupported => e is UnsupportedType, No::Mismatch => e is Other, No::Decode(d) => e == Error::ValueDecoder(d) }
}
/// The visitor's answer to what it is called with; without a call, an error.
pub open spec fn delivered<'de, W: Visitor<'de>>(w: W, e: Result<Ev, No>, r: Result<W::Value, Error>) -> bool {
    match e { Ok(e) => w.takes(e, r), Err(n) => r is Err && refused(n, r->Err_0) }
}

pub trait Visitor<'de>: Sized {
    type Value;
    spec fn takes(self, e: Ev, r: Result<Self::Value, Error>) -> bool;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Bool(v), r);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::U64(v as int), r);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::I64(v as int), r);
    fn visit_i128(self, v: i128) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::I128(v as int), r);
    fn visit_u128(self, v: u128) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::U128(v as int), r);
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Char(v as int), r);
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Str(encode_utf8(v@)), r);
    fn visit_string(self, v: String) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Str(encode_utf8(v@)), r);
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Bytes(v@), r);
    fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Bytes(v@), r);
    fn visit_none(self) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::None, r);
    fn visit_some(self, d: De) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Some(vw(d.0)), r);
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Unit, r);
    fn visit_seq<T0: SeqAccess<'de>>(self, a: T0) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Seq(a.left()), r);
    fn visit_map<T0: MapAccess<'de>>(self, a: T0) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Map(a.left()), r);
    fn visit_enum<T0: EnumAccess<'de>>(self, a: T0) -> (r: Result<Self::Value, Error>) ensures self.takes(Ev::Enum(a.name(), a.content()), r);
}
pub trait DeserializeSeed<'de>: Sized {
    type Value;
    spec fn reads(self, v: V, r: Result<Self::Value, Error>) -> bool;
    fn deserialize(self, d: De) -> (r: Result<Self::Value, Error>) ensures self.reads(vw(d.0), r);
}
pub trait DeserializeOwned: Sized {
    spec fn reads(v: V, r: Result<Self, Error>) -> bool;
    fn deserialize(d: De) -> (r: Result<Self, Error>) ensures Self::reads(vw(d.0), r);
}
/// The next element read by a seed, or nothing.
pub open spec fn next_read<'de, T: DeserializeSeed<'de>>(seed: T, v: V, r: Result<Option<T::Value>, Error>) -> bool {
    match r { Ok(Some(x)) => seed.reads(v, Ok(x)), Ok(None) => false, Err(e) => seed.reads(v, Err(e)) }
}
pub trait SeqAccess<'de>: Sized {
    type Error;
    /// What is left to read.
    #[verifier::prophetic]
    spec fn left(&self) -> Seq<V>;
    spec fn error(e: Self::Error) -> Error;
    fn next_element_seed<T0: DeserializeSeed<'de>>(&mut self, seed: T0) -> (r: Result<Option<T0::Value>, Self::Error>)
        ensures
            old(self).left().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> final(self).left() == old(self).left().drop_first() && next_read(seed, old(self).left()[0], err_of(r, |e: Self::Error| Self::error(e)));
}
pub open spec fn err_of<T, E>(r: Result<T, E>, f: spec_fn(E) -> Error) -> Result<T, Error> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub trait MapAccess<'de>: Sized {
    type Error;
    spec fn left(&self) -> Seq<(V, V)>;
    spec fn error(e: Self::Error) -> Error;
    fn next_key_seed<T0: DeserializeSeed<'de>>(&mut self, seed: T0) -> (r: Result<Option<T0::Value>, Self::Error>)
        ensures
            old(self).left().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).left().len() == 0,
            old(self).left().len() > 0 ==> final(self).left().len() == old(self).left().len() && final(self).left()[0].1 == old(self).left()[0].1
                && final(self).left().drop_first() == old(self).left().drop_first() && next_read(seed, old(self).left()[0].0, err_of(r, |e: Self::Error| Self::error(e)));
    fn next_value_seed<T0: DeserializeSeed<'de>>(&mut self, seed: T0) -> (r: Result<T0::Value, Self::Error>)
        ensures
            old(self).left().len() == 0 ==> r is Err && Self::error(r->Err_0) is Other,
            old(self).left().len() > 0 ==> final(self).left() == old(self).left().drop_first() && seed.reads(old(self).left()[0].1, err_of(r, |e: Self::Error| Self::error(e)));
}
pub trait EnumAccess<'de>: Sized {
    type Error;
    type Variant;
    spec fn name(&self) -> V;
    spec fn content(&self) -> V;
    spec fn content_of(v: Self::Variant) -> V;
    spec fn error(e: Self::Error) -> Error;
    fn variant_seed<T0: DeserializeSeed<'de>>(self, seed: T0) -> (r: Result<(T0::Value, Self::Variant), Self::Error>)
        ensures match r { Ok(x) => seed.reads(self.name(), Ok(x.0)) && Self::content_of(x.1) == self.content(), Err(e) => seed.reads(self.name(), Err(Self::error(e))) };
}
pub trait VariantAccess<'de>: Sized {
    type Error;
    spec fn content(&self) -> V;
    spec fn error(e: Self::Error) -> Error;
    fn unit_variant(self) -> (r: Result<(), Self::Error>)
        ensures self.content() == V::S(22) ==> r is Ok, self.content() != V::S(22) ==> r is Err && Self::error(r->Err_0) is Other;
    fn newtype_variant_seed<T0: DeserializeSeed<'de>>(self, seed: T0) -> (r: Result<T0::Value, Self::Error>)
        ensures seed.reads(self.content(), err_of(r, |e: Self::Error| Self::error(e)));
    fn tuple_variant<T0: Visitor<'de>>(self, len: usize, visitor: T0) -> (r: Result<T0::Value, Self::Error>)
        ensures delivered(visitor, seq_ev(self.content()), err_of(r, |e: Self::Error| Self::error(e)));
    fn struct_variant<T0: Visitor<'de>>(self, fields: &'static [&'static str], visitor: T0) -> (r: Result<T0::Value, Self::Error>)
        ensures delivered(visitor, map_ev(self.content()), err_of(r, |e: Self::Error| Self::error(e)));
}
/// Imported under no name only.
pub trait Deserializer {}
pub trait SerError: Sized {
    spec fn other(self) -> bool;
    fn custom<T0: core::fmt::Display>(msg: T0) -> (r: Self) ensures r.other();
}
pub trait DeError: Sized {
    spec fn other(self) -> bool;
    fn custom<T0: core::fmt::Display>(msg: T0) -> (r: Self) ensures r.other();
    #[verifier::external_body]
    fn invalid_type(unexpected: Unexpected, expected: &&str) -> (r: Self) ensures r.other() { Self::custom("invalid type") }
}
pub enum Unexpected<'a> {
    Bool(bool),
    Unsigned(u64),
    Signed(i64),
    Float(f64),
    Char(char),
    Str(&'a str),
    Bytes(&'a [u8]),
    Unit,
    Option,
    NewtypeStruct,
    Seq,
    Map,
    Enum,
    UnitVariant,
    NewtypeVariant,
    TupleVariant,
    StructVariant,
    Other(&'a str),
}
/// Numbers are reported as they are or not as numbers.
pub open spec fn reported(v: V, u: Unexpected) -> bool {
    match u {
        Unexpected::Unsigned(n) => v == V::U(n as int),
        Unexpected::Signed(n) => v == V::N(n as int) || n >= 0 && v == V::U(n as int),
        Unexpected::Bool(b) => v == V::S(if b { 21int } else { 20int }),
        Unexpected::Str(s) => v == text(s@),
        Unexpected::Bytes(b) => v == V::B(b@),
        Unexpected::Seq => v is A,
        Unexpected::Map => v is M,
        Unexpected::Unit => is_null(v),
        Unexpected::Other(_) => true,
        _ => false,
    }
}
pub mod ser {
    pub use super::{Serialize, SerializeSeq, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, SerializeMap, SerializeStruct, SerializeStructVariant};
    pub use super::SerError as Error;
}
pub mod de {
    pub use super::{Visitor, DeserializeSeed, DeserializeOwned, SeqAccess, MapAccess, EnumAccess, VariantAccess, Deserializer, Unexpected};
    pub use super::DeError as Error;
}

// ---- what serde does with some types of its own
impl Serialize for str {
    open spec fn data(&self) -> Data { Data::Str(self@) }
    #[verifier::external_body]
    fn serialize(&self, s: &mut S) -> (r: Result<Value, Error>) { s.serialize_str(self) }
}
impl<T: ?Sized + Serialize> Serialize for &T {
    open spec fn data(&self) -> Data { (**self).data() }
    #[verifier::external_body]
    fn serialize(&self, s: &mut S) -> (r: Result<Value, Error>) { (**self).serialize(s) }
}
impl<T: Serialize, const N: usize> Serialize for [T; N] {
    open spec fn data(&self) -> Data { Data::List(Seq::new(N as nat, |i: int| self@[i].data())) }
    #[verifier::external_body]
    fn serialize(&self, s: &mut S) -> (r: Result<Value, Error>) { unimplemented!() }
}

// ---- lemmas
pub broadcast proof fn lemma_push_v(s: Seq<Value>, x: Value) ensures #[trigger] vseq(s.push(x)) == vseq(s).push(vw(x)) { assert(vseq(s.push(x)) =~= vseq(s).push(vw(x))); }
pub broadcast proof fn lemma_push_m(s: Seq<(Value, Value)>, x: (Value, Value)) ensures #[trigger] vmap(s.push(x)) == vmap(s).push((vw(x.0), vw(x.1))) { assert(vmap(s.push(x)) =~= vmap(s).push((vw(x.0), vw(x.1)))); }
pub broadcast proof fn lemma_none_v(s: Seq<Value>) ensures s.len() == 0 ==> #[trigger] vseq(s) == Seq::<V>::empty() { if s.len() == 0 { assert(vseq(s) =~= Seq::empty()); } }
pub broadcast proof fn lemma_none_m(s: Seq<(Value, Value)>) ensures s.len() == 0 ==> #[trigger] vmap(s) == Seq::<(V, V)>::empty() { if s.len() == 0 { assert(vmap(s) =~= Seq::empty()); } }
pub broadcast proof fn lemma_one_m(s: Seq<(Value, Value)>) ensures s.len() == 1 ==> #[trigger] vmap(s) == seq![(vw(s[0].0), vw(s[0].1))] { if s.len() == 1 { assert(vmap(s) =~= seq![(vw(s[0].0), vw(s[0].1))]); } }
pub broadcast proof fn lemma_rest_v(s: Seq<Value>) requires s.len() > 0 ensures #[trigger] vseq(s.drop_first()) == vseq(s).drop_first() { assert(vseq(s.drop_first()) =~= vseq(s).drop_first()); }
pub broadcast proof fn lemma_rest_m(s: Seq<(Value, Value)>) requires s.len() > 0 ensures #[trigger] vmap(s.drop_first()) == vmap(s).drop_first() { assert(vmap(s.drop_first()) =~= vmap(s).drop_first()); }
pub broadcast proof fn lemma_set_m(s: Seq<(Value, Value)>, x: (Value, Value)) requires s.len() > 0 ensures #[trigger] vmap(s.update(0, x)) == vmap(s).update(0, (vw(x.0), vw(x.1))) { assert(vmap(s.update(0, x)) =~= vmap(s).update(0, (vw(x.0), vw(x.1)))); }
pub broadcast proof fn lemma_set_rest(s: Seq<(V, V)>, x: (V, V)) requires s.len() > 0 ensures #[trigger] s.update(0, x).drop_first() == s.drop_first() { assert(s.update(0, x).drop_first() =~= s.drop_first()); }
pub broadcast proof fn lemma_single(s: Seq<Data>) requires s.len() == 1 ensures #[trigger] ser_v(Data::List(s)) == ser_v(Data::Newtype(Box::new(s[0]))) {
    reveal_with_fuel(ser_list, 3);
    if ser_v(s[0]) is Some { assert(ser_list(s, 1)->Some_0 =~= seq![ser_v(s[0])->Some_0]); }
}
pub broadcast proof fn lemma_vw_seq(a: Vec<Value>) ensures #[trigger] vw(Value::Array(a)) == V::A(vseq(a@)) { assert(vw(Value::Array(a))->A_0 =~= vseq(a@)); }
pub broadcast proof fn lemma_vw_map(a: Vec<(Value, Value)>) ensures #[trigger] vw(Value::Map(a)) == V::M(vmap(a@)) { assert(vw(Value::Map(a))->M_0 =~= vmap(a@)); }
pub broadcast group sd_facts { lemma_single, lemma_vw_seq, lemma_vw_map, lemma_push_v, lemma_push_m, lemma_none_v, lemma_none_m, lemma_one_m, lemma_rest_v, lemma_rest_m, lemma_set_m, lemma_set_rest }
