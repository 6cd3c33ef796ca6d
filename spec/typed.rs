// Typed values: what each type stands for, and what encoding and decoding it mean.
use crate::spec::*;
use crate::stdspec::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::Encode;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// Types that are encoded or decoded, with the mathematical value of each of their inhabitants.
pub trait Ty: Sized {
    type M;
    spec fn m(self) -> Self::M;
    /// `u8`, whose vectors and arrays are byte strings.
    spec fn is_byte() -> bool;
    spec fn byte(m: Self::M) -> u8;
    spec fn of_byte(b: u8) -> Self::M;
}
pub type R<M> = Result<M, DecodeError>;
pub open spec fn dm<T: Ty>(r: Result<T, DecodeError>) -> R<T::M> { match r { Ok(x) => Ok(x.m()), Err(e) => Err(e) } }
pub open spec fn seqm<T: Ty>(s: Seq<T>) -> Seq<T::M> { Seq::new(s.len(), |i: int| s[i].m()) }
pub open spec fn pairm<K: Ty, T: Ty>(s: Seq<(K, T)>) -> Seq<(K::M, T::M)> { Seq::new(s.len(), |i: int| (s[i].0.m(), s[i].1.m())) }
pub open spec fn bytesm<T: Ty>(b: Seq<u8>) -> Seq<T::M> { Seq::new(b.len(), |i: int| T::of_byte(b[i])) }
pub open spec fn is_null(v: V) -> bool { v == V::S(22) || v == V::S(23) }
/// A value at top level or in a field.
pub open spec fn d_top<T: Decode>(v: V) -> R<T::M> { if is_null(v) { T::d_def() } else { T::d_from(v) } }
/// The elements in order; the first failure is the result.
pub open spec fn d_seq<T: Decode>(a: Seq<V>) -> R<Seq<T::M>>
    decreases a.len()
{
    if a.len() == 0 { Ok(Seq::empty()) } else {
        match d_seq::<T>(a.drop_last()) { Err(e) => Err(e), Ok(s) => match T::d_from(a.last()) { Err(e) => Err(e), Ok(x) => Ok(s.push(x)) } }
    }
}
pub open spec fn d_pair<K: Decode, T: Decode>(k: V, v: V) -> R<(K::M, T::M)> {
    match K::d_from(k) { Err(e) => Err(e), Ok(x) => match T::d_from(v) { Err(e) => Err(e), Ok(y) => Ok((x, y)) } }
}
pub open spec fn d_pairs<K: Decode, T: Decode>(a: Seq<(V, V)>) -> R<Seq<(K::M, T::M)>>
    decreases a.len()
{
    if a.len() == 0 { Ok(Seq::empty()) } else {
        match d_pairs::<K, T>(a.drop_last()) { Err(e) => Err(e), Ok(s) => match d_pair::<K, T>(a.last().0, a.last().1) { Err(e) => Err(e), Ok(x) => Ok(s.push(x)) } }
    }
}
/// The i-th element of an array that must have one.
pub open spec fn slot<T: Decode>(a: Seq<V>, i: int) -> R<T::M> { if i < a.len() { T::d_from(a[i]) } else { Err(DecodeError::MissingField) } }
/// Entries inserted in order; later ones replace earlier ones.
pub open spec fn map_of<A, B>(s: Seq<(A, B)>) -> Map<A, B>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn e_seq<T: Encode>(s: Seq<T>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].e()) }
pub open spec fn e_pairs<K: Encode, T: Encode>(s: Seq<(K, T)>) -> Seq<(V, V)> { Seq::new(s.len(), |i: int| (s[i].0.e(), s[i].1.e())) }
pub open spec fn e_bytes<T: Ty>(s: Seq<T>) -> Seq<u8> { Seq::new(s.len(), |i: int| T::byte(s[i].m())) }
pub open spec fn d_uint(v: V, max: int) -> R<int> {
    match v { V::U(n) => if n <= max { Ok(n) } else { Err(DecodeError::UnexpectedIntegerSize) }, _ => Err(DecodeError::UnexpectedType) }
}
pub open spec fn d_int(v: V, min: int, max: int) -> R<int> {
    match v {
        V::U(n) => if n <= max { Ok(n) } else { Err(DecodeError::UnexpectedIntegerSize) },
        V::N(n) => if min <= n <= max { Ok(n) } else { Err(DecodeError::UnexpectedIntegerSize) },
        _ => Err(DecodeError::UnexpectedType),
    }
}
/// Bytes of the shortest big-endian form, none for zero.
pub open spec fn be_len(n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { be_len(n / 256) + 1 }
}
pub open spec fn be_min(n: int) -> Seq<u8> { be(n, be_len(n)) }
pub open spec fn d_doc<T: Decode>(d: Result<V, crate::oasis_cbor_value::reader::DecoderError>) -> R<T::M> { match d { Ok(v) => d_top::<T>(v), Err(_) => Err(DecodeError::ParsingFailed) } }
pub open spec fn pair_res<K: Ty, T: Ty>(r: Result<(K, T), DecodeError>) -> R<(K::M, T::M)> { match r { Ok(x) => Ok((x.0.m(), x.1.m())), Err(e) => Err(e) } }
