// What collecting decoded elements gives, and the arithmetic of big integers.
use crate::spec::*;
use crate::lemmas::*;
use crate::lemmas_code::*;
use crate::stdspec::*;
use crate::typed::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::Encode;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::utf8::*;

pub proof fn lemma_d_seq_ok<T: Decode>(x: Seq<V>, t: Seq<T>)
    requires x.len() == t.len(), forall|i: int| 0 <= i < x.len() ==> T::d_from(#[trigger] x[i]) == Ok::<T::M, DecodeError>(t[i].m())
    ensures d_seq::<T>(x) == Ok::<Seq<T::M>, DecodeError>(seqm(t))
    decreases x.len()
{
    if x.len() == 0 { assert(seqm(t) =~= Seq::empty()); } else {
        lemma_d_seq_ok::<T>(x.drop_last(), t.drop_last());
        assert(x.last() == x[x.len() - 1]);
        assert(seqm(t) =~= seqm(t.drop_last()).push(t.last().m()));
    }
}
pub proof fn lemma_d_seq_err<T: Decode>(x: Seq<V>, k: int, e: DecodeError)
    requires 0 <= k < x.len(), T::d_from(x[k]) == Err::<T::M, DecodeError>(e), forall|i: int| 0 <= i < k ==> T::d_from(#[trigger] x[i]) is Ok
    ensures d_seq::<T>(x) == Err::<Seq<T::M>, DecodeError>(e)
    decreases x.len()
{
    if k < x.len() - 1 { lemma_d_seq_err::<T>(x.drop_last(), k, e); } else { lemma_d_seq_is_ok::<T>(x.drop_last()); assert(x.last() == x[k]); }
}
pub proof fn lemma_d_seq_is_ok<T: Decode>(x: Seq<V>)
    requires forall|i: int| 0 <= i < x.len() ==> T::d_from(#[trigger] x[i]) is Ok
    ensures d_seq::<T>(x) is Ok
    decreases x.len()
{
    if x.len() > 0 { lemma_d_seq_is_ok::<T>(x.drop_last()); assert(x.last() == x[x.len() - 1]); }
}
pub proof fn lemma_d_pairs_ok<K: Decode, T: Decode>(x: Seq<(V, V)>, t: Seq<(K, T)>)
    requires x.len() == t.len(), forall|i: int| 0 <= i < x.len() ==> d_pair::<K, T>((#[trigger] x[i]).0, x[i].1) == Ok::<(K::M, T::M), DecodeError>((t[i].0.m(), t[i].1.m()))
    ensures d_pairs::<K, T>(x) == Ok::<Seq<(K::M, T::M)>, DecodeError>(pairm(t))
    decreases x.len()
{
    if x.len() == 0 { assert(pairm(t) =~= Seq::empty()); } else {
        lemma_d_pairs_ok::<K, T>(x.drop_last(), t.drop_last());
        assert(x.last() == x[x.len() - 1]);
        assert(pairm(t) =~= pairm(t.drop_last()).push((t.last().0.m(), t.last().1.m())));
    }
}
pub proof fn lemma_d_pairs_err<K: Decode, T: Decode>(x: Seq<(V, V)>, k: int, e: DecodeError)
    requires 0 <= k < x.len(), d_pair::<K, T>(x[k].0, x[k].1) == Err::<(K::M, T::M), DecodeError>(e), forall|i: int| 0 <= i < k ==> d_pair::<K, T>((#[trigger] x[i]).0, x[i].1) is Ok
    ensures d_pairs::<K, T>(x) == Err::<Seq<(K::M, T::M)>, DecodeError>(e)
    decreases x.len()
{
    if k < x.len() - 1 { lemma_d_pairs_err::<K, T>(x.drop_last(), k, e); } else { lemma_d_pairs_is_ok::<K, T>(x.drop_last()); assert(x.last() == x[k]); }
}
pub proof fn lemma_d_pairs_is_ok<K: Decode, T: Decode>(x: Seq<(V, V)>)
    requires forall|i: int| 0 <= i < x.len() ==> d_pair::<K, T>((#[trigger] x[i]).0, x[i].1) is Ok
    ensures d_pairs::<K, T>(x) is Ok
    decreases x.len()
{
    if x.len() > 0 { lemma_d_pairs_is_ok::<K, T>(x.drop_last()); assert(x.last() == x[x.len() - 1]); }
}
/// Collecting decoded elements into any collection.
pub broadcast proof fn lemma_gather_seq<T: Decode, C: Collected<T>>(s: Seq<Result<T, DecodeError>>, r: Result<C, DecodeError>, x: Seq<V>)
    requires
        #[trigger] <Result<C, DecodeError> as Collected<Result<T, DecodeError>>>::gathered(s, r),
        x.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> dm(#[trigger] s[i]) == T::d_from(x[i]),
    ensures
        match r {
            Ok(c) => exists|t: Seq<T>| #[trigger] C::gathered(t, c) && d_seq::<T>(x) == Ok::<Seq<T::M>, DecodeError>(seqm(t)),
            Err(e) => (#[trigger] d_seq::<T>(x)) == Err::<Seq<T::M>, DecodeError>(e),
        },
{
    match r {
        Ok(c) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(C::gathered(t, c));
            assert forall|i: int| 0 <= i < x.len() implies T::d_from(#[trigger] x[i]) == Ok::<T::M, DecodeError>(t[i].m()) by { assert(s[i] is Ok); assert(dm(s[i]) == T::d_from(x[i])); }
            lemma_d_seq_ok::<T>(x, t);
        }
        Err(e) => {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Err && s[k]->Err_0 == e && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok;
            assert(dm(s[k]) == T::d_from(x[k]));
            assert forall|i: int| 0 <= i < k implies T::d_from(#[trigger] x[i]) is Ok by { assert(s[i] is Ok); assert(dm(s[i]) == T::d_from(x[i])); }
            lemma_d_seq_err::<T>(x, k, e);
        }
    }
}
pub broadcast proof fn lemma_gather_pairs<K: Decode, T: Decode, C: Collected<(K, T)>>(s: Seq<Result<(K, T), DecodeError>>, r: Result<C, DecodeError>, x: Seq<(V, V)>)
    requires
        #[trigger] <Result<C, DecodeError> as Collected<Result<(K, T), DecodeError>>>::gathered(s, r),
        x.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> pair_res(#[trigger] s[i]) == d_pair::<K, T>(x[i].0, x[i].1),
    ensures
        match r {
            Ok(c) => exists|t: Seq<(K, T)>| #[trigger] C::gathered(t, c) && d_pairs::<K, T>(x) == Ok::<Seq<(K::M, T::M)>, DecodeError>(pairm(t)),
            Err(e) => (#[trigger] d_pairs::<K, T>(x)) == Err::<Seq<(K::M, T::M)>, DecodeError>(e),
        },
{
    match r {
        Ok(c) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(C::gathered(t, c));
            assert forall|i: int| 0 <= i < x.len() implies d_pair::<K, T>((#[trigger] x[i]).0, x[i].1) == Ok::<(K::M, T::M), DecodeError>((t[i].0.m(), t[i].1.m())) by { assert(s[i] is Ok); assert(pair_res(s[i]) == d_pair::<K, T>(x[i].0, x[i].1)); }
            lemma_d_pairs_ok::<K, T>(x, t);
        }
        Err(e) => {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Err && s[k]->Err_0 == e && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok;
            assert(pair_res(s[k]) == d_pair::<K, T>(x[k].0, x[k].1));
            assert forall|i: int| 0 <= i < k implies d_pair::<K, T>((#[trigger] x[i]).0, x[i].1) is Ok by { assert(s[i] is Ok); assert(pair_res(s[i]) == d_pair::<K, T>(x[i].0, x[i].1)); }
            lemma_d_pairs_err::<K, T>(x, k, e);
        }
    }
}
/// Encoded elements.
pub broadcast proof fn lemma_enc_seq<T: Encode>(a: Seq<T>, s: Seq<Value>)
    requires s.len() == a.len(), forall|i: int| 0 <= i < s.len() ==> vw(#[trigger] s[i]) == a[i].e()
    ensures #[trigger] vseq(s) == #[trigger] e_seq(a)
{ assert(vseq(s) =~= e_seq(a)); }
pub broadcast proof fn lemma_enc_pairs<K: Encode, T: Encode>(a: Seq<(K, T)>, s: Seq<(Value, Value)>)
    requires s.len() == a.len(), forall|i: int| 0 <= i < s.len() ==> vw((#[trigger] s[i]).0) == a[i].0.e() && vw(s[i].1) == a[i].1.e()
    ensures #[trigger] vmap(s) == #[trigger] e_pairs(a)
{ assert(vmap(s) =~= e_pairs(a)); }
pub broadcast proof fn lemma_vw_array(a: Vec<Value>) ensures #[trigger] vw(Value::Array(a)) == V::A(vseq(a@)) { lemma_vw_arr(Value::Array(a)); }
pub broadcast proof fn lemma_vw_mapping(m: Vec<(Value, Value)>) ensures #[trigger] vw(Value::Map(m)) == V::M(vmap(m@)) { lemma_vw_map(Value::Map(m)); }
/// Text.
pub broadcast proof fn lemma_utf8(s: Seq<char>) ensures #[trigger] decode_utf8(#[trigger] encode_utf8(s)) == s { encode_utf8_decode_utf8(s); }
/// Bytes as elements.
pub broadcast proof fn lemma_bytes_u8(b: Seq<u8>)
    ensures #[trigger] bytesm::<u8>(b) == seqm::<u8>(b)
{ assert(bytesm::<u8>(b) =~= seqm::<u8>(b)); }
pub broadcast proof fn lemma_bytes_e_u8(b: Seq<u8>)
    ensures #[trigger] e_bytes::<u8>(b) == b
{ assert(e_bytes::<u8>(b) =~= b); }

pub broadcast proof fn lemma_bytes_same(b: Seq<u8>, s: Seq<u8>)
    requires b.len() == s.len(), forall|i: int| 0 <= i < b.len() ==> b[i] == s[i]
    ensures #[trigger] bytesm::<u8>(b) == #[trigger] seqm::<u8>(s)
{ assert(bytesm::<u8>(b) =~= seqm::<u8>(s)); }
pub broadcast proof fn lemma_seqm_empty<T: Ty>(s: Seq<T>)
    requires s.len() == 0
    ensures #[trigger] seqm::<T>(s) == Seq::<T::M>::empty()
{ assert(seqm::<T>(s) =~= Seq::empty()); }
pub broadcast proof fn lemma_set_empty<A>()
    ensures #[trigger] Seq::<A>::empty().to_set() == Set::<A>::empty()
{ assert(Seq::<A>::empty().to_set() =~= Set::empty()); }
/// Big integers.
pub proof fn lemma_be_len_pow(n: int, l: nat)
    requires l > 0, pow(256, (l - 1) as nat) <= n < pow(256, l)
    ensures be_len(n) == l
    decreases l
{
    lemma_pow_positive(256, (l - 1) as nat);
    if l == 1 {
        assert(pow(256, 0) == 1 && pow(256, 1) == 256) by { reveal(pow); }
        assert(be_len(n / 256) == 0);
        assert(be_len(n) == be_len(n / 256) + 1);
    } else {
        let p = pow(256, (l - 2) as nat);
        let q = pow(256, (l - 1) as nat);
        assert(q == 256 * p) by { reveal(pow); }
        assert(pow(256, l) == 256 * q) by { reveal(pow); }
        assert(p <= n / 256 < q) by (nonlinear_arith) requires q == 256 * p, q <= n < 256 * q {}
        lemma_be_len_pow(n / 256, (l - 1) as nat);
    }
}
pub proof fn lemma_pow2_256(k: nat) ensures pow2(8 * k) as int == pow(256, k) {
    lemma_pow2(8 * k);
    lemma_pow_multiplies(2, 8, k);
    assert(pow(2, 8) == 256) by { lemma_pow2(8); lemma2_to64(); }
}
/// The number of leading zero bytes.
pub proof fn lemma_zero_bytes(n: int, r: nat)
    requires 0 <= n, r <= 128, n == 0 <==> r == 128, n > 0 ==> pow2((127 - r) as nat) <= n < pow2((128 - r) as nat)
    ensures be_len(n) == 16 - r / 8
{
    if n > 0 {
        let l = (16 - r / 8) as nat;
        lemma_pow2_256(l);
        lemma_pow2_256((l - 1) as nat);
        if 128 - r < 8 * l { lemma_pow2_strictly_increases((128 - r) as nat, 8 * l); }
        if 8 * (l - 1) < 127 - r { lemma_pow2_strictly_increases(8 * (l - 1) as nat, (127 - r) as nat); }
        lemma_be_len_pow(n, l);
    }
}
/// Leading zero bytes cut off.
pub proof fn lemma_be_cut(n: int, k: nat)
    requires n >= 0, be_len(n) <= k
    ensures be(n, k).subrange(k - be_len(n), k as int) == be_min(n)
    decreases k
{
    lemma_be_len(n, k);
    if n == 0 || k == 0 { assert(be(n, k).subrange(k - be_len(n), k as int) =~= be_min(n)); } else {
        lemma_be_len(n / 256, (k - 1) as nat);
        lemma_be_cut(n / 256, (k - 1) as nat);
        assert(be(n, k).subrange(k - be_len(n), k as int) =~= be(n / 256, (k - 1) as nat).subrange(k - be_len(n), k - 1).push((n % 256) as u8));
    }
}
pub broadcast proof fn lemma_u128_bytes(n: int, i: int)
    requires n >= 0, i == 16 - be_len(n), i >= 0
    ensures #[trigger] be(n, 16).subrange(i, 16) == be_min(n)
{ lemma_be_cut(n, 16); }
pub broadcast proof fn lemma_u128_zeros(n: u128)
    ensures be_len(n as int) == 16 - #[trigger] vx_lz(n) / 8, vx_lz(n) <= 128
{ axiom_lz(n); lemma_zero_bytes(n as int, vx_lz(n)); }
/// Leading zero bytes put in front.
pub proof fn lemma_be_val_zeros(z: Seq<u8>, b: Seq<u8>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0
    ensures be_val(z + b) == be_val(b)
    decreases b.len(), z.len()
{
    if b.len() > 0 {
        assert((z + b).drop_last() =~= z + b.drop_last());
        lemma_be_val_zeros(z, b.drop_last());
    } else if z.len() > 0 {
        assert((z + b).drop_last() =~= z.drop_last() + b);
        lemma_be_val_zeros(z.drop_last(), b);
    } else { assert(z + b =~= b); }
}
pub broadcast proof fn lemma_pad(a: Seq<u8>, n: int, b: Seq<u8>)
    requires 0 <= n <= a.len(), forall|i: int| 0 <= i < n ==> a[i] == 0
    ensures #[trigger] be_val(a.subrange(0, n) + b) == be_val(b)
{ lemma_be_val_zeros(a.subrange(0, n), b); }
pub broadcast group typed_facts {
    lemma_gather_seq, lemma_gather_pairs, lemma_enc_seq, lemma_enc_pairs, lemma_vw_array, lemma_vw_mapping, lemma_utf8,
    lemma_bytes_u8, lemma_bytes_e_u8, lemma_u128_bytes, lemma_u128_zeros, lemma_pad,
    lemma_bytes_same, lemma_seqm_empty, lemma_set_empty,
}
