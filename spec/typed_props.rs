// The typed properties as functions over the real entry points, proved from their contracts alone.
use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_limit::*; use crate::lemmas_code::*; use crate::lemmas_order::*;
use crate::theorems::lemma_noteq;
use crate::map_access::*;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*; use crate::typed_theorems::*;
use crate::oasis_cbor::{DecodeError, from_slice, from_slice_non_strict, from_value, to_vec, to_value};
use crate::oasis_cbor::macros::{destructure_cbor_map_peek_value_strict};
use crate::oasis_cbor_value::macros::destructure_cbor_map_peek_value;
use crate::oasis_cbor_value::values::{Value, SimpleValue, IntoCborValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::{Encode, EncodeAsMap};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vstd::utf8::*;

// ------------------------------------------------------------------ C09 (integers: typed_props_gen)

pub fn c09_u128(x: u128, w: Value) {
    let v = to_value(x);
    let ghost z = vw(w);
    proof { lemma_u128_zeros(x); lemma_be_min(x as int); lemma_be_len(x as int, be_len(x as int)); }
    assert(vw(v) is B && be_val(vw(v)->B_0) == x && vw(v)->B_0.len() <= 16);
    let r = from_value::<u128>(w);
    assert(z is B && z->B_0.len() <= 16 ==> r is Ok && r->Ok_0 as int == be_val(z->B_0));
    assert(z is B && z->B_0.len() > 16 ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is B) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
}
/// The encoding of a big integer has no leading zero byte.
pub fn c09_u128_minimal(x: u128) {
    let v = to_value(x);
    proof {
        lemma_u128_zeros(x);
        let n = x as int;
        if n > 0 { lemma_be_first(n); }
        reveal_with_fuel(be_len, 1);
    }
    assert(vw(v) is B && (vw(v)->B_0.len() > 0 ==> vw(v)->B_0[0] != 0));
    assert(x == 0 ==> vw(v)->B_0.len() == 0);
}
pub proof fn lemma_be_first(n: int)
    requires n > 0
    ensures be_min(n).len() > 0, be_min(n)[0] != 0
    decreases n
{
    let l = be_len(n);
    assert(l == be_len(n / 256) + 1);
    if n < 256 { assert(be_len(n / 256) == 0); assert(be(n, 1)[0] == n as u8) by { reveal_with_fuel(be, 2); } }
    else {
        lemma_be_first(n / 256);
        assert(be(n, l) == be(n / 256, (l - 1) as nat).push((n % 256) as u8)) by { reveal_with_fuel(be, 1); }
    }
}
pub fn c09_bool(x: bool, w: Value) {
    let v = to_value(x);
    let ghost z = vw(w);
    assert(vw(v) == V::S(if x { 21int } else { 20int }));
    let r = from_value::<bool>(w);
    assert(z == V::S(20) ==> r == Ok::<bool, DecodeError>(false));
    assert(z == V::S(21) ==> r == Ok::<bool, DecodeError>(true));
    assert(z != V::S(20) && z != V::S(21) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
}
pub fn c09_char(x: char, w: Value) {
    let v = to_value(x);
    let ghost z = vw(w);
    assert(vw(v) == V::U(x as int));
    let r = from_value::<char>(w);
    assert(z is U && usv(z->U_0) ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(!(z is U && usv(z->U_0)) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
}
pub fn c09_string(x: String, w: Value) {
    let ghost s = x@;
    let v = to_value(x);
    let ghost z = vw(w);
    assert(vw(v) == V::T(encode_utf8(s)));
    let r = from_value::<String>(w);
    assert(z is T ==> r is Ok && r->Ok_0@ == decode_utf8(z->T_0));
    assert(!(z is T) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
}
pub fn c09_str(x: &str) {
    let v = to_value(x);
    assert(vw(v) == V::T(encode_utf8(x@)));
}

// ------------------------------------------------------------------ C10

pub fn c10_value<T: Codec>(x: T) requires x.rt_top() {
    let ghost m = x.m();
    proof { x.back_top(); if x.rt() { x.back(); } }
    let v = to_value(x);
    let r = from_value::<T>(v);
    assert(dm(r) == Ok::<T::M, DecodeError>(m));
}
/// Inside a container.
pub fn c10_element<T: Codec>(x: T) requires x.rt() {
    let ghost m = x.m();
    proof { x.back(); }
    let v = x.into_cbor_value();
    let r = T::try_from_cbor_value(v);
    assert(dm(r) == Ok::<T::M, DecodeError>(m));
}
pub proof fn lemma_norm_null(v: V) requires wf(v), !has_dup(v) ensures is_null(norm(v)) <==> is_null(v) { lemma_norm_unfold(v); }
pub fn c10_bytes<T: Codec>(x: T) requires x.rt_top(), depth(x.e()) <= 64 {
    let ghost m = x.m();
    let ghost e = x.e();
    proof {
        x.back_top();
        if x.rt() { x.back(); } else { assert(wf(e) && !has_dup(e)) by { reveal_with_fuel(has_dup, 1); } }
        lemma_norm(e);
        lemma_norm_null(e);
        lemma_dec_enc(norm(e), Seq::<u8>::empty(), Some(64int), true);
        lemma_noteq();
    }
    let b = to_vec(x);
    let s = b.as_slice();
    assert(s@ == enc(norm(e)));
    proof { lemma_dec_lenient(s@, Some(64int)); }
    let r = from_slice::<T>(s);
    assert(dm(r) == Ok::<T::M, DecodeError>(m));
    let l = from_slice_non_strict::<T>(s);
    assert(dm(l) == Ok::<T::M, DecodeError>(m));
}
/// Vectors and arrays of bytes are byte strings with the same content.
pub fn c10_byte_strings<const N: usize>(x: Vec<u8>, y: [u8; N]) {
    let ghost p = x@;
    let ghost q = y@;
    let v = to_value(x);
    let w = to_value(y);
    assert(vw(v)->B_0 =~= p && vw(v) is B);
    assert(vw(w)->B_0 =~= q && vw(w) is B);
}
/// A vector keeps length and order.
pub fn c10_vec<T: Codec>(x: Vec<T>) requires !T::is_byte() {
    let ghost s = x@;
    let v = to_value(x);
    assert(vw(v) is A && vw(v)->A_0.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> vw(v)->A_0[i] == (#[trigger] s[i]).e());
}

// ------------------------------------------------------------------ C11

/// Every element decodes.
pub open spec fn all_ok<T: Decode>(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> T::d_from(#[trigger] a[i]) is Ok }
/// The i-th is the first that does not.
pub open spec fn first_bad<T: Decode>(a: Seq<V>, i: int) -> bool { 0 <= i < a.len() && T::d_from(a[i]) is Err && forall|j: int| 0 <= j < i ==> T::d_from(#[trigger] a[j]) is Ok }
pub proof fn lemma_d_seq<T: Decode>(a: Seq<V>)
    ensures
        all_ok::<T>(a) <==> d_seq::<T>(a) is Ok,
        d_seq::<T>(a) is Ok ==> d_seq::<T>(a)->Ok_0.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> Ok::<T::M, DecodeError>(#[trigger] d_seq::<T>(a)->Ok_0[i]) == T::d_from(a[i]),
        forall|i: int| first_bad::<T>(a, i) ==> d_seq::<T>(a) is Err && d_seq::<T>(a)->Err_0 == #[trigger] T::d_from(a[i])->Err_0,
    decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last();
        lemma_d_seq::<T>(d);
        assert(all_ok::<T>(a) <==> all_ok::<T>(d) && T::d_from(a.last()) is Ok) by {
            if all_ok::<T>(a) { assert forall|i: int| 0 <= i < d.len() implies T::d_from(#[trigger] d[i]) is Ok by { assert(T::d_from(a[i]) is Ok); } }
            if all_ok::<T>(d) && T::d_from(a.last()) is Ok { assert forall|i: int| 0 <= i < a.len() implies T::d_from(#[trigger] a[i]) is Ok by { if i < d.len() { assert(T::d_from(d[i]) is Ok); } } }
        }
        assert forall|i: int| first_bad::<T>(a, i) implies d_seq::<T>(a) is Err && d_seq::<T>(a)->Err_0 == #[trigger] T::d_from(a[i])->Err_0 by {
            if i < d.len() {
                assert forall|j: int| 0 <= j < i implies T::d_from(#[trigger] d[j]) is Ok by { assert(T::d_from(a[j]) is Ok); }
                assert(first_bad::<T>(d, i));
                assert(T::d_from(d[i])->Err_0 == T::d_from(a[i])->Err_0);
            } else {
                assert forall|j: int| 0 <= j < d.len() implies T::d_from(#[trigger] d[j]) is Ok by { assert(T::d_from(a[j]) is Ok); }
                assert(all_ok::<T>(d));
            }
        }
    }
}
/// Accepted exactly when it is an array whose elements all decode; the first that does not gives the error.
pub fn c11_vec<T: Decode>(v: Value, Ghost(i): Ghost<int>) requires !T::is_byte(), !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<Vec<T>>(v);
    proof { if z is A { lemma_d_seq::<T>(z->A_0); } }
    assert(r is Ok <==> z is A && all_ok::<T>(z->A_0));
    assert(r is Ok ==> r->Ok_0@.len() == z->A_0.len() && forall|i: int| 0 <= i < z->A_0.len() ==> Ok::<T::M, DecodeError>(#[trigger] seqm(r->Ok_0@)[i]) == T::d_from(z->A_0[i]));
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is A && first_bad::<T>(z->A_0, i) ==> r is Err && r->Err_0 == T::d_from(z->A_0[i])->Err_0);
}
/// Also exactly as many as there must be.
pub fn c11_array<T: Decode, const N: usize>(v: Value, Ghost(i): Ghost<int>) requires !T::is_byte(), !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<[T; N]>(v);
    proof { if z is A { lemma_d_seq::<T>(z->A_0); } }
    assert(r is Ok <==> z is A && z->A_0.len() == N && all_ok::<T>(z->A_0));
    assert(r is Ok ==> forall|i: int| 0 <= i < N ==> Ok::<T::M, DecodeError>(#[trigger] seqm(r->Ok_0@)[i]) == T::d_from(z->A_0[i]));
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is A && first_bad::<T>(z->A_0, i) ==> r is Err && r->Err_0 == T::d_from(z->A_0[i])->Err_0);
}
pub fn c11_bytes<const N: usize>(v: Value, w: Value) requires !is_null(vw(v)), !is_null(vw(w)) {
    let ghost z = vw(v);
    let ghost y = vw(w);
    let r = from_value::<Vec<u8>>(v);
    assert(r is Ok <==> z is B);
    assert(r is Ok ==> r->Ok_0@ =~= z->B_0) by { if r is Ok { lemma_bytes_same(r->Ok_0@, z->B_0); } }
    assert(r is Err ==> r->Err_0 is UnexpectedType);
    let s = from_value::<[u8; N]>(w);
    assert(s is Ok <==> y is B && y->B_0.len() == N);
    assert(s is Ok ==> s->Ok_0@ =~= y->B_0) by { if s is Ok { lemma_bytes_same(s->Ok_0@, y->B_0); } }
    assert(s is Err ==> s->Err_0 is UnexpectedType);
}
pub proof fn lemma_bytes_same(a: Seq<u8>, b: Seq<u8>) requires seqm::<u8>(a) == bytesm::<u8>(b) ensures a == b {
    let (s, t) = (seqm::<u8>(a), bytesm::<u8>(b));
    assert(a.len() == s.len() && b.len() == t.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x: int = s[i];
        let y: int = t[i];
        assert(x == a[i].m()); assert(y == <u8 as Ty>::of_byte(b[i]));
        assert(x == a[i] as int); assert(y == b[i] as int); assert(x == y);
    }
    assert(a =~= b);
}
pub fn c11_option<T: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<Option<T>>(v);
    assert(r is Ok <==> T::d_from(z) is Ok);
    assert(r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0.m() == T::d_from(z)->Ok_0);
    assert(r is Err ==> r->Err_0 == T::d_from(z)->Err_0);
}
pub proof fn lemma_d_pairs<K: Decode, T: Decode>(a: Seq<(V, V)>)
    ensures
        d_pairs::<K, T>(a) is Ok <==> forall|i: int| 0 <= i < a.len() ==> K::d_from((#[trigger] a[i]).0) is Ok && T::d_from(a[i].1) is Ok,
        d_pairs::<K, T>(a) is Ok ==> d_pairs::<K, T>(a)->Ok_0.len() == a.len()
            && forall|i: int| 0 <= i < a.len() ==> Ok::<(K::M, T::M), DecodeError>(#[trigger] d_pairs::<K, T>(a)->Ok_0[i]) == d_pair::<K, T>(a[i].0, a[i].1),
    decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_last();
        lemma_d_pairs::<K, T>(d);
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == a[i]);
        if forall|i: int| 0 <= i < a.len() ==> K::d_from((#[trigger] a[i]).0) is Ok && T::d_from(a[i].1) is Ok {
            assert forall|i: int| 0 <= i < d.len() implies K::d_from((#[trigger] d[i]).0) is Ok && T::d_from(d[i].1) is Ok by { assert(K::d_from(a[i].0) is Ok); }
            assert(K::d_from(a[a.len() - 1].0) is Ok);
        }
        if d_pairs::<K, T>(a) is Ok {
            assert forall|i: int| 0 <= i < a.len() implies K::d_from((#[trigger] a[i]).0) is Ok && T::d_from(a[i].1) is Ok by { if i < d.len() { assert(K::d_from(d[i].0) is Ok); } }
        }
    }
}
pub open spec fn pairs_ok<K: Decode, T: Decode>(a: Seq<(V, V)>) -> bool { forall|i: int| 0 <= i < a.len() ==> K::d_from((#[trigger] a[i]).0) is Ok && T::d_from(a[i].1) is Ok }
pub fn c11_maps<K: Decode + Ord + Eq + std::hash::Hash, T: Decode>(v: Value, w: Value) requires !is_null(vw(v)), !is_null(vw(w)) {
    let ghost z = vw(v);
    let ghost y = vw(w);
    proof { if z is M { lemma_d_pairs::<K, T>(z->M_0); } if y is M { lemma_d_pairs::<K, T>(y->M_0); } }
    let r = from_value::<BTreeMap<K, T>>(v);
    assert(r is Ok <==> z is M && pairs_ok::<K, T>(z->M_0));
    assert(!(z is M) ==> r is Err && r->Err_0 is UnexpectedType);
    let s = from_value::<HashMap<K, T>>(w);
    assert(s is Ok <==> y is M && pairs_ok::<K, T>(y->M_0));
    assert(!(y is M) ==> s is Err && s->Err_0 is UnexpectedType);
}
pub fn c11_sets<T: Decode + Ord + Eq + std::hash::Hash>(v: Value, w: Value, Ghost(i): Ghost<int>) requires !is_null(vw(v)), !is_null(vw(w)) {
    let ghost z = vw(v);
    let ghost y = vw(w);
    proof { if z is A { lemma_d_seq::<T>(z->A_0); } if y is A { lemma_d_seq::<T>(y->A_0); } }
    let r = from_value::<BTreeSet<T>>(v);
    assert(r is Ok <==> z is A && all_ok::<T>(z->A_0));
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is A && first_bad::<T>(z->A_0, i) ==> r is Err && r->Err_0 == T::d_from(z->A_0[i])->Err_0);
    let s = from_value::<HashSet<T>>(w);
    assert(s is Ok <==> y is A && all_ok::<T>(y->A_0));
    assert(!(y is A) ==> s is Err && s->Err_0 is UnexpectedType);
    assert(y is A && first_bad::<T>(y->A_0, i) ==> s is Err && s->Err_0 == T::d_from(y->A_0[i])->Err_0);
}
/// Malformed bytes are refused, whatever the type.
pub fn c11_parse<T: Decode>(b: &[u8]) {
    let r = from_slice::<T>(b);
    assert(dec_doc(b@, Some(64)) is Err ==> r is Err && r->Err_0 is ParsingFailed);
    let l = from_slice_non_strict::<T>(b);
    assert(dec_lenient(b@, Some(64)) is Err ==> l is Err && l->Err_0 is ParsingFailed);
}

// ------------------------------------------------------------------ C12

/// At top level null and undefined give the default.
pub fn c12_top<T: Decode>(v: Value) requires is_null(vw(v)) {
    let d = T::try_default();
    let r = from_value::<T>(v);
    assert(dm(r) == dm(d));
}
/// The same for bytes: f6 and f7.
pub fn c12_bytes<T: Decode>(Ghost(n): Ghost<int>) {
    let a: [u8; 1] = [0xf6];
    let b: [u8; 1] = [0xf7];
    let d = T::try_default();
    proof {
        broadcast use vstd::slice::group_slice_axioms;
        let none = Seq::<u8>::empty();
        lemma_dec_enc(V::S(22), none, Some(64int), true);
        lemma_dec_enc(V::S(23), none, Some(64int), true);
        lemma_noteq();
        assert(enc(V::S(22)) =~= seq![0xf6u8] && enc(V::S(23)) =~= seq![0xf7u8]) by { lemma_head_s(); }
    }
    let r = from_slice::<T>(vx_as_slice(&a));
    assert(a@ =~= seq![0xf6u8]);
    assert(dm(r) == dm(d));
    let r = from_slice::<T>(vx_as_slice(&b));
    assert(b@ =~= seq![0xf7u8]);
    assert(dm(r) == dm(d));
}
pub proof fn lemma_head_s() ensures enc(V::S(22)) == seq![0xf6u8], enc(V::S(23)) == seq![0xf7u8] { assert(enc(V::S(22)) =~= seq![0xf6u8]); assert(enc(V::S(23)) =~= seq![0xf7u8]); }
/// The defaults.
pub fn c12_defaults<T: Decode, K: Decode + Ord + Eq + std::hash::Hash, const N: usize>() {
    let a = u128::try_default(); assert(a == Ok::<u128, DecodeError>(0));
    let a = bool::try_default(); assert(a == Ok::<bool, DecodeError>(false));
    let a = char::try_default(); assert(a is Ok && a->Ok_0 as int == 0);
    let a = String::try_default(); assert(a is Ok && a->Ok_0@.len() == 0);
    let a = <Vec<T> as Decode>::try_default(); assert(a is Ok) by { assert(dm(a) is Ok); } assert(seqm(a->Ok_0@).len() == 0);
    let a = <Option<T> as Decode>::try_default(); assert(a is Ok && a->Ok_0 is None) by { assert(dm(a) is Ok); }
    let a = <Value as Decode>::try_default(); assert(a is Ok && vw(a->Ok_0) == V::S(22));
    let a = <() as Decode>::try_default(); assert(a is Ok);
    let a = <BTreeMap<K, T> as Decode>::try_default(); assert(dm(a) == Ok::<Map<K::M, T::M>, DecodeError>(Map::empty()));
    let a = <HashMap<K, T> as Decode>::try_default(); assert(dm(a) == Ok::<Map<K::M, T::M>, DecodeError>(Map::empty()));
    let a = <BTreeSet<K> as Decode>::try_default(); assert(dm(a) == Ok::<Set<K::M>, DecodeError>(Set::empty()));
    let a = <HashSet<K> as Decode>::try_default(); assert(dm(a) == Ok::<Set<K::M>, DecodeError>(Set::empty()));
    let a = <[u8; N] as Decode>::try_default(); assert(a is Ok) by { assert(dm(a) is Ok); }
    assert forall|i: int| 0 <= i < N implies (#[trigger] a->Ok_0@[i]) == 0 by { assert(seqm(a->Ok_0@)[i] == 0); }
}
pub fn c12_no_default<T: Decode, const N: usize>() requires !T::is_byte() {
    let a = <[T; N] as Decode>::try_default();
    assert(a is Err && a->Err_0 is MissingField) by { assert(dm(a) is Err); }
}
/// Elements are not defaulted.
pub fn c12_elements<T: Decode, const N: usize>(v: Value, Ghost(i): Ghost<int>)
    requires vw(v) is A, 0 <= i < vw(v)->A_0.len(), is_null(vw(v)->A_0[i]), T::d_from(vw(v)->A_0[i]) is Err, !T::is_byte()
{
    let ghost z = vw(v);
    let r = from_value::<Vec<T>>(v);
    proof { lemma_d_seq::<T>(z->A_0); }
    assert(r is Err) by { assert(!all_ok::<T>(z->A_0)); }
}
pub proof fn c12_element_types<T: Decode>(v: V)
    requires is_null(v)
    ensures
        u8::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType), u64::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType),
        i8::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType), i64::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType),
        u128::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType), bool::d_from(v) == Err::<bool, DecodeError>(DecodeError::UnexpectedType),
        char::d_from(v) == Err::<int, DecodeError>(DecodeError::UnexpectedType), String::d_from(v) == Err::<Seq<char>, DecodeError>(DecodeError::UnexpectedType),
        <Vec<T> as Decode>::d_from(v) == Err::<Seq<T::M>, DecodeError>(DecodeError::UnexpectedType),
        <Option<T> as Decode>::d_from(V::S(22)) == Ok::<Option<T::M>, DecodeError>(None),
        <Value as Decode>::d_from(v) == Ok::<V, DecodeError>(v), <() as Decode>::d_from(v) == Ok::<(), DecodeError>(()),
{}

// ------------------------------------------------------------------ C15

pub fn c15_meaning<T: Encode, K: Encode, const N: usize>(
    a: u128, b: bool, c: char, s: String, t: &str, v: Vec<T>, o: Option<T>, d: Value, m: BTreeMap<K, T>, h: HashMap<K, T>, p: BTreeSet<K>, q: HashSet<K>, x: [T; N], y: (T, K)
) {
    let r = a.is_empty(); assert(r == (a == 0));
    let r = Encode::is_empty(&b); assert(r == !b);
    let r = Encode::is_empty(&c); assert(r == (c as int == 0));
    let r = Encode::is_empty(&s); assert(r == (s@.len() == 0));
    let r = Encode::is_empty(&t); assert(r == (t@.len() == 0));
    let r = Encode::is_empty(&v); assert(r == (v@.len() == 0));
    let r = Encode::is_empty(&o); assert(r == (o is None));
    let r = Encode::is_empty(&d); assert(r == is_null(vw(d)));
    let r = Encode::is_empty(&m); assert(r == (vx_items::<(K, T), BTreeMap<K, T>>(m).len() == 0));
    let r = Encode::is_empty(&h); assert(r == (vx_items::<(K, T), HashMap<K, T>>(h).len() == 0));
    let r = Encode::is_empty(&p); assert(r == (vx_items::<K, BTreeSet<K>>(p).len() == 0));
    let r = Encode::is_empty(&q); assert(r == (vx_items::<K, HashSet<K>>(q).len() == 0));
    let r = Encode::is_empty(&x); assert(!r);
    let r = Encode::is_empty(&()); assert(r);
    let r = Encode::is_empty(&y); assert(r == (y.0.empty() && y.1.empty()));
}
/// For the types of the library, what is omitted is what is empty.
pub fn c15_omitted<T: Encode, K: Encode, const N: usize>(
    a: u128, b: bool, c: char, s: String, t: &str, v: Vec<T>, o: Option<T>, d: Value, m: BTreeMap<K, T>, h: HashMap<K, T>, p: BTreeSet<K>, q: HashSet<K>, x: [T; N], y: (T, K), n: u64, i: i8
) {
    let e = n.is_empty(); let r = n.into_optional_cbor_value(); assert((r is None) == e);
    let e = i.is_empty(); let r = i.into_optional_cbor_value(); assert((r is None) == e);
    let e = a.is_empty(); let r = a.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&b); let r = b.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&c); let r = c.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&s); let r = s.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&t); let r = t.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&v); let r = v.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&o); let r = o.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&d); let r = d.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&m); let r = m.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&h); let r = h.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&p); let r = p.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&q); let r = q.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&x); let r = x.into_optional_cbor_value(); assert((r is None) == e);
    let e = Encode::is_empty(&y); let r = y.into_optional_cbor_value(); assert((r is None) == e);
    let r = ().into_optional_cbor_value(); assert(r is None);
}
pub fn c15_optional<T: Encode>(x: T) {
    let ghost y = x;
    let r = x.into_optional_cbor_value();
    assert(r is None <==> y.omit());
    assert(r is Some ==> vw(r->Some_0) == y.e());
}
/// What is left out comes back as the default.
pub fn c15_restored<T: Codec>(x: T) requires !x.lost() {
    let ghost m = x.m();
    proof { if x.empty() || x.omit() { x.empty_law(); } }
    let e = x.is_empty();
    let d = T::try_default();
    assert(e ==> dm(d) == Ok::<T::M, DecodeError>(m));
    let r = x.into_optional_cbor_value();
    assert(r is None ==> dm(d) == Ok::<T::M, DecodeError>(m));
}

// ------------------------------------------------------------------ C18

pub open spec fn keys_up(s: Seq<(V, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord((#[trigger] s[i]).0, (#[trigger] s[j]).0) is Less }
pub open spec fn up(s: Seq<V>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord(#[trigger] s[i], #[trigger] s[j]) is Less }
/// The value that belongs to a key.
pub open spec fn lookup(s: Seq<(V, V)>, k: V) -> Option<V> { if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { Some(s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k].1) } else { None } }
pub proof fn lemma_lookup(s: Seq<(V, V)>, i: int) requires keys_up(s), 0 <= i < s.len() ensures lookup(s, s[i].0) == Some(s[i].1) {
    let k = s[i].0;
    assert(exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k);
    let j = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
    lemma_ord_refl(k);
    if j < i { assert(ord(s[j].0, s[i].0) is Less); } else if j > i { assert(ord(s[i].0, s[j].0) is Less); }
}
/// One extraction: the entry of the key, and exactly the entries after it are left.
pub proof fn lemma_take(s: Seq<(V, V)>, k: V)
    requires keys_up(s)
    ensures
        pv_take(s, k).0 == lookup(s, k), keys_up(pv_take(s, k).1),
        exists|n: int| 0 <= n <= s.len() && pv_take(s, k).1 == #[trigger] s.skip(n) && (forall|i: int| 0 <= i < n ==> !(ord((#[trigger] s[i]).0, k) is Greater)) && (forall|i: int| n <= i < s.len() ==> ord((#[trigger] s[i]).0, k) is Greater),
        forall|l: V| ord(k, l) is Less ==> #[trigger] lookup(pv_take(s, k).1, l) == lookup(s, l),
{
    hide(ord); hide(pv_skip);
    lemma_pv_skip(s, k);
    let m = pv_skip(s, k) as int;
    let found = m < s.len() && ord(s[m].0, k) is Equal;
    let n = if found { m + 1 } else { m };
    let r = pv_take(s, k).1;
    assert(r == s.skip(n));
    assert forall|i: int| n <= i < s.len() implies ord((#[trigger] s[i]).0, k) is Greater by {
        if i == m { } else {
            // k is not above s[m], which is below s[i]
            assert(ord(s[m].0, s[i].0) is Less);
            lemma_ord_rev(s[m].0, k); lemma_ord_rev(k, s[i].0);
            if found { lemma_ord_eq(s[m].0, k); } else { lemma_ord_chains(k, s[m].0, s[i].0); }
        }
    }
    assert forall|i: int| 0 <= i < n implies !(ord((#[trigger] s[i]).0, k) is Greater) by { if i < m { assert(ord(s[i].0, k) is Less); } }
    assert(exists|n: int| 0 <= n <= s.len() && r == #[trigger] s.skip(n) && (forall|i: int| 0 <= i < n ==> !(ord((#[trigger] s[i]).0, k) is Greater)) && (forall|i: int| n <= i < s.len() ==> ord((#[trigger] s[i]).0, k) is Greater));
    assert(keys_up(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies ord((#[trigger] r[i]).0, (#[trigger] r[j]).0) is Less by { assert(r[i] == s[i + n] && r[j] == s[j + n]); } }
    lemma_ord_refl(k);
    if found { lemma_ord_eq(s[m].0, k); lemma_lookup(s, m); }
    else if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        if i < m { assert(ord(s[i].0, k) is Less); } else { assert(ord(s[i].0, k) is Greater); }
    }
    assert forall|l: V| ord(k, l) is Less implies #[trigger] lookup(r, l) == lookup(s, l) by {
        lemma_ord_rev(k, l);
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == l {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == l;
            lemma_lookup(s, i);
            if i < n { assert(!(ord(s[i].0, k) is Greater)); } else { assert(r[i - n] == s[i]); lemma_lookup(r, i - n); }
        } else if exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == l {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == l;
            assert(s[i + n].0 == l);
        }
    }
}
/// Requested in increasing order, every key gets the value it has.
pub fn c18_extract(it: &mut std::iter::Peekable<std::vec::IntoIter<(Value, Value)>>, keys: Vec<Value>) -> (out: Vec<Option<Value>>)
    requires keys_up(vmap(pk_rem(*old(it)))), up(vseq(keys@))
    ensures out@.len() == keys@.len(), forall|i: int| 0 <= i < keys@.len() ==> ov(#[trigger] out@[i]) == lookup(vmap(pk_rem(*old(it))), vw(keys@[i]))
{
    let ghost s = vmap(pk_rem(*it));
    let ghost ks = vseq(keys@);
    let mut out = Vec::new();
    let mut todo = keys;
    let n = todo.len();
    let mut i = 0;
    while i < n
        invariant
            n == ks.len(), i <= n, todo@.len() == n - i, vseq(todo@) == ks.skip(i as int), keys_up(s), up(ks), out@.len() == i,
            keys_up(vmap(pk_rem(*it))), forall|j: int| i <= j < n ==> #[trigger] lookup(vmap(pk_rem(*it)), ks[j]) == lookup(s, ks[j]),
            forall|j: int| 0 <= j < i ==> ov(#[trigger] out@[j]) == lookup(s, ks[j]),
        decreases n - i
    {
        let ghost r = vmap(pk_rem(*it));
        let ghost t = todo@;
        let k = todo.remove(0);
        proof {
            assert(vw(k) == ks[i as int]) by { assert(vseq(t)[0] == ks.skip(i as int)[0]); }
            assert(vseq(todo@) =~= ks.skip(i + 1)) by { assert forall|j: int| 0 <= j < todo@.len() implies vseq(todo@)[j] == ks.skip(i + 1)[j] by { assert(todo@[j] == t[j + 1]); assert(vseq(t)[j + 1] == ks.skip(i as int)[j + 1]); } }
            lemma_take(r, vw(k));
        }
        let v = destructure_cbor_map_peek_value(it, k);
        assert(ov(v) == lookup(s, ks[i as int])) by { assert(lookup(r, ks[i as int]) == lookup(s, ks[i as int])); }
        out.push(v);
        assert forall|j: int| i + 1 <= j < n implies #[trigger] lookup(vmap(pk_rem(*it)), ks[j]) == lookup(s, ks[j]) by { assert(ord(ks[i as int], ks[j]) is Less); assert(lookup(r, ks[j]) == lookup(s, ks[j])); }
        i += 1;
    }
    out
}
proof fn lemma_lowest(s: Seq<(V, V)>, q: V) requires keys_up(s)
    ensures (s.len() > 0 && ord(s[0].0, q) is Less) <==> exists|i: int| 0 <= i < s.len() && ord((#[trigger] s[i]).0, q) is Less
{
    if exists|i: int| 0 <= i < s.len() && ord((#[trigger] s[i]).0, q) is Less {
        let i = choose|i: int| 0 <= i < s.len() && ord((#[trigger] s[i]).0, q) is Less;
        if i > 0 { assert(ord(s[0].0, s[i].0) is Less); lemma_ord_chains(s[0].0, s[i].0, q); }
    }
}
proof fn lemma_strict_take(s: Seq<(V, V)>, q: V, l: V) requires keys_up(s)
    ensures
        pv_strict(s, q) is Err <==> exists|i: int| 0 <= i < s.len() && ord((#[trigger] s[i]).0, q) is Less,
        pv_strict(s, q) is Ok ==> pv_strict(s, q)->Ok_0.0 == lookup(s, q) && pv_strict(s, q)->Ok_0.1 == pv_take(s, q).1,
        pv_strict(s, q) is Ok && ord(q, l) is Less ==> lookup(pv_strict(s, q)->Ok_0.1, l) == lookup(s, l),
{
    lemma_take(s, q); lemma_lowest(s, q); lemma_pv_skip(s, q);
    if s.len() > 0 && !(ord(s[0].0, q) is Less) {
        assert(pv_skip(s, q) == 0); assert(s.skip(0) =~= s); assert(s.skip(1) =~= s.drop_first());
    }
}
/// The strict one: an error exactly when some key lower than the one requested is there.
pub fn c18_strict(it: &mut std::iter::Peekable<std::vec::IntoIter<(Value, Value)>>, k: Value, Ghost(l): Ghost<V>)
    requires keys_up(vmap(pk_rem(*old(it))))
{
    hide(ord); hide(pv_skip); hide(pv_take); hide(lookup); hide(keys_up); hide(pv_strict);
    let ghost s = vmap(pk_rem(*it));
    let ghost q = vw(k);
    let r = destructure_cbor_map_peek_value_strict(it, k);
    let ghost t = vmap(pk_rem(*it));
    proof { lemma_strict_take(s, q, l); }
    assert(r is Err <==> exists|i: int| 0 <= i < s.len() && ord((#[trigger] s[i]).0, q) is Less);
    assert(r is Err ==> r->Err_0 is UnknownField);
    assert(r is Ok ==> ov(r->Ok_0) == lookup(s, q) && t == pv_take(s, q).1);
    assert(r is Ok && ord(q, l) is Less ==> lookup(t, l) == lookup(s, l));
}

// ------------------------------------------------------------------ C19

pub fn c19_conversions(a: u64, b: i64, c: i32, x: Vec<u8>, y: &[u8], s: String, t: &str, v: Vec<Value>, m: Vec<(Value, Value)>, f: bool, d: Value) {
    broadcast use {axiom_self_from0, axiom_self_from};
    let ghost (gx, gs, gv, gm, gd) = (x@, s@, vseq(v@), vmap(m@), vw(d));
    let r = Value::from(a); assert(vw(r) == V::U(a as int));
    let r = Value::from(b); assert(vw(r) == (if b >= 0 { V::U(b as int) } else { V::N(b as int) }));
    let r = Value::from(c); assert(vw(r) == (if c >= 0 { V::U(c as int) } else { V::N(c as int) }));
    let r = Value::from(x); assert(vw(r) == V::B(gx));
    let r = Value::from(y); assert(vw(r) == V::B(y@));
    let r = Value::from(s); assert(vw(r) == V::T(encode_utf8(gs)));
    let r = Value::from(t); assert(vw(r) == V::T(encode_utf8(t@)));
    let r = Value::from(v); assert(vw(r) is A && vw(r)->A_0 =~= gv);
    let r = Value::from(m); assert(vw(r) is M && vw(r)->M_0 =~= gm);
    let r = Value::from(f); assert(vw(r) == V::S(if f { 21int } else { 20int }));
    let r = IntoCborValue::into_cbor_value(d); assert(vw(r) == gd);
    let r = Value::integer(b); assert(vw(r) == v_int(b as int));
    let r = Value::bool_value(f); assert(vw(r) == V::S(if f { 21int } else { 20int }));
}
pub fn c19_simple(n: u64) {
    let r = SimpleValue::from_integer(n);
    assert(r is Some <==> 20 <= n <= 23);
    assert(n == 20 ==> r == Some(SimpleValue::FalseValue));
    assert(n == 21 ==> r == Some(SimpleValue::TrueValue));
    assert(n == 22 ==> r == Some(SimpleValue::NullValue));
    assert(n == 23 ==> r == Some(SimpleValue::Undefined));
    assert(r is Some ==> sv(r->Some_0) == n);
}
