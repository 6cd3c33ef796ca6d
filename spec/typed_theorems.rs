// Typed round trips: what encoding then decoding gives, for every type that has both.
use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_code::*;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*;
use crate::oasis_cbor::{DecodeError, from_slice, from_slice_non_strict, from_value, to_vec, to_value};
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::{Encode, EncodeAsMap};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vstd::utf8::*;

/// Decoding `v`, or `v` with its maps in canonical order, gives `m`.
pub open spec fn comes_back<T: Decode>(v: V, m: T::M) -> bool {
    &&& T::d_from(v) == Ok::<T::M, DecodeError>(m)
    &&& T::d_from(norm(v)) == Ok::<T::M, DecodeError>(m)
    &&& wf(v)
    &&& !has_dup(v)
}
/// Types whose values come back from their encoding.
pub trait Codec: Encode + Decode {
    /// The values that do. False only for what the property exempts: options whose present content encodes as null, and dynamic values that are not canonical items.
    spec fn rt(&self) -> bool;
    proof fn back(&self)
        requires self.rt()
        ensures comes_back::<Self>(self.e(), self.m());
    proof fn byte_law(&self)
        requires Self::is_byte()
        ensures Self::of_byte(Self::byte(self.m())) == self.m();
    /// The same where null stands for the default.
    spec fn rt_top(&self) -> bool;
    proof fn back_top(&self)
        requires self.rt_top()
        ensures self.rt() || is_null(self.e()), is_null(self.e()) ==> Self::d_def() == Ok::<Self::M, DecodeError>(self.m());
    /// Undefined is empty, but the default is null.
    spec fn lost(&self) -> bool;
    /// What is left out as empty is the default.
    proof fn empty_law(&self)
        requires self.empty() || self.omit(), !self.lost()
        ensures Self::d_def() == Ok::<Self::M, DecodeError>(self.m());
}

pub proof fn lemma_wf_all_arr(a: Seq<V>, n: nat)
    requires n <= a.len(), forall|i: int| 0 <= i < n ==> wf(#[trigger] a[i]) && !has_dup(a[i])
    ensures wf_arr(a, n), !dup_arr(a, n)
    decreases n
{ if n > 0 { lemma_wf_all_arr(a, (n - 1) as nat); assert(wf(a[n - 1])); } }
pub proof fn lemma_wf_all_map(m: Seq<(V, V)>, n: nat)
    requires n <= m.len(), forall|i: int| 0 <= i < n ==> wf((#[trigger] m[i]).0) && wf(m[i].1) && !has_dup(m[i].0) && !has_dup(m[i].1)
    ensures wf_map(m, n), !dup_map(m, n)
    decreases n
{ if n > 0 { lemma_wf_all_map(m, (n - 1) as nat); assert(wf(m[n - 1].0)); } }
pub proof fn lemma_enc_inj(a: V, b: V)
    requires wf(a), wf(b), canon(a), canon(b), enc(a) == enc(b)
    ensures a == b
{
    let none: Option<int> = None;
    lemma_dec_enc(a, Seq::<u8>::empty(), none, true);
    lemma_dec_enc(b, Seq::<u8>::empty(), none, true);
}
pub proof fn lemma_seq_back<T: Codec>(s: Seq<T>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).rt()
    ensures
        d_seq::<T>(e_seq(s)) == Ok::<Seq<T::M>, DecodeError>(seqm(s)),
        d_seq::<T>(norms(e_seq(s))) == Ok::<Seq<T::M>, DecodeError>(seqm(s)),
        wf_arr(e_seq(s), s.len()), !dup_arr(e_seq(s), s.len()),
{
    let e = e_seq(s);
    assert forall|i: int| 0 <= i < s.len() implies comes_back::<T>(#[trigger] e[i], s[i].m()) by { s[i].back(); }
    lemma_d_seq_ok::<T>(e, s);
    assert forall|i: int| 0 <= i < s.len() implies T::d_from(#[trigger] norms(e)[i]) == Ok::<T::M, DecodeError>(s[i].m()) by { assert(comes_back::<T>(e[i], s[i].m())); }
    lemma_d_seq_ok::<T>(norms(e), s);
    assert forall|i: int| 0 <= i < s.len() implies wf(#[trigger] e[i]) && !has_dup(e[i]) by { assert(comes_back::<T>(e[i], s[i].m())); }
    lemma_wf_all_arr(e, s.len());
}
/// Entries with different keys, as maps yield them.
pub open spec fn diff_keys<K: Ty, T: Ty>(s: Seq<(K, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.m() != (#[trigger] s[j]).0.m() }
pub open spec fn functional<A, B>(s: Seq<(A, B)>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> s[i].1 == s[j].1 }
pub proof fn lemma_map_of<A, B>(s: Seq<(A, B)>)
    requires functional(s)
    ensures
        forall|i: int| 0 <= i < s.len() ==> map_of(s).dom().contains((#[trigger] s[i]).0) && map_of(s)[s[i].0] == s[i].1,
        forall|k: A| #[trigger] map_of(s).dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_map_of(d);
        assert forall|i: int| 0 <= i < s.len() implies map_of(s).dom().contains((#[trigger] s[i]).0) && map_of(s)[s[i].0] == s[i].1 by {
            if i < s.len() - 1 { assert(d[i] == s[i]); }
            assert(s.last() == s[s.len() - 1]);
        }
        assert forall|k: A| #[trigger] map_of(s).dom().contains(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if map_of(d).dom().contains(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); } else { assert(s[s.len() - 1].0 == k); }
        }
    }
}
pub proof fn lemma_map_of_same<A, B>(s: Seq<(A, B)>, t: Seq<(A, B)>)
    requires functional(s), forall|x: (A, B)| s.contains(x) <==> t.contains(x)
    ensures map_of(s) == map_of(t)
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 implies t[i].1 == t[j].1 by {
        assert(t.contains(t[i]) && t.contains(t[j]));
        assert(s.contains(t[i]) && s.contains(t[j]));
        let a = choose|a: int| 0 <= a < s.len() && s[a] == t[i];
        let b = choose|b: int| 0 <= b < s.len() && s[b] == t[j];
        assert(s[a].0 == s[b].0);
    }
    lemma_map_of(s);
    lemma_map_of(t);
    assert forall|k: A| map_of(s).dom().contains(k) <==> map_of(t).dom().contains(k) by {
        if map_of(s).dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(t[j].0 == k); }
        if map_of(t).dom().contains(k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(t.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(s[j].0 == k); }
    }
    assert forall|k: A| map_of(s).dom().contains(k) implies map_of(s)[k] == map_of(t)[k] by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(s.contains(s[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
        assert(t[j].0 == k);
    }
    assert(map_of(s) =~= map_of(t));
}
pub open spec fn rt_pairs<K: Codec, T: Codec>(s: Seq<(K, T)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.rt() && s[i].1.rt() }
pub proof fn lemma_map_back<K: Codec, T: Codec>(s: Seq<(K, T)>)
    requires rt_pairs(s), diff_keys(s)
    ensures
        d_pairs::<K, T>(e_pairs(s)) == Ok::<Seq<(K::M, T::M)>, DecodeError>(pairm(s)),
        d_pairs::<K, T>(nsort(normm(e_pairs(s)))) is Ok,
        map_of(d_pairs::<K, T>(nsort(normm(e_pairs(s))))->Ok_0) == map_of(pairm(s)),
        wf_map(e_pairs(s), s.len()), !has_dup(V::M(e_pairs(s))),
{
    hide(norm); hide(wf); hide(has_dup); hide(map_of); hide(nsort);
    let e = e_pairs(s);
    let p = pairm(s);
    assert forall|i: int| 0 <= i < s.len() implies comes_back::<K>((#[trigger] e[i]).0, s[i].0.m()) && comes_back::<T>(e[i].1, s[i].1.m()) by { assert(s[i].0.rt()); s[i].0.back(); s[i].1.back(); }
    assert forall|i: int| 0 <= i < s.len() implies d_pair::<K, T>((#[trigger] e[i]).0, e[i].1) == Ok::<(K::M, T::M), DecodeError>((s[i].0.m(), s[i].1.m())) by {}
    lemma_d_pairs_ok::<K, T>(e, s);
    // in canonical order
    let ne = normm(e);
    let n = nsort(ne);
    lemma_nsort(ne);
    let at = |x: (V, V)| choose|j: int| 0 <= j < s.len() && ne[j] == x;
    let t = Seq::new(n.len(), |i: int| s[at(n[i])]);
    assert forall|i: int| 0 <= i < n.len() implies 0 <= at(#[trigger] n[i]) < s.len() && ne[at(n[i])] == n[i] by {
        assert(n.contains(n[i]));
        assert(ne.contains(n[i]));
        let j = choose|j: int| 0 <= j < ne.len() && ne[j] == n[i];
        assert(ne[j] == n[i]);
    }
    assert forall|i: int| 0 <= i < s.len() implies d_pair::<K, T>((#[trigger] ne[i]).0, ne[i].1) == Ok::<(K::M, T::M), DecodeError>(p[i]) by { assert(comes_back::<K>(e[i].0, s[i].0.m()) && comes_back::<T>(e[i].1, s[i].1.m())); }
    assert forall|i: int| 0 <= i < n.len() implies d_pair::<K, T>((#[trigger] n[i]).0, n[i].1) == Ok::<(K::M, T::M), DecodeError>((t[i].0.m(), t[i].1.m())) by { let j = at(n[i]); assert(ne[j] == n[i]); assert(p[j] == (t[i].0.m(), t[i].1.m())); }
    lemma_d_pairs_ok::<K, T>(n, t);
    let q = pairm(t);
    assert forall|x: (K::M, T::M)| p.contains(x) <==> q.contains(x) by {
        if p.contains(x) {
            let j = choose|j: int| 0 <= j < p.len() && p[j] == x;
            assert(ne.contains(ne[j]));
            assert(n.contains(ne[j]));
            let i = choose|i: int| 0 <= i < n.len() && n[i] == ne[j];
            let k = at(n[i]);
            assert(ne[k] == ne[j]);
            assert(d_pair::<K, T>(ne[k].0, ne[k].1) == Ok::<(K::M, T::M), DecodeError>(p[k]));
            assert(p[k] == p[j]);
            assert(q[i] == p[k]);
        }
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; let k = at(n[i]); assert(p[k] == q[i]); }
    }
    assert(functional(p));
    lemma_map_of_same(p, q);
    // well formed, keys distinct
    assert forall|i: int| 0 <= i < e.len() implies wf((#[trigger] e[i]).0) && wf(e[i].1) && !has_dup(e[i].0) && !has_dup(e[i].1) by { assert(comes_back::<K>(e[i].0, s[i].0.m()) && comes_back::<T>(e[i].1, s[i].1.m())); }
    lemma_wf_all_map(e, s.len());
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies cenc((#[trigger] e[i]).0) != cenc((#[trigger] e[j]).0) by {
        let a = e[i].0; let b = e[j].0;
        assert(comes_back::<K>(a, s[i].0.m()) && comes_back::<K>(b, s[j].0.m()));
        lemma_norm(a); lemma_norm(b);
        if cenc(a) == cenc(b) { lemma_enc_inj(norm(a), norm(b)); assert(s[i].0.m() == s[j].0.m()); }
    }
    assert(!has_dup(V::M(e))) by { reveal(has_dup); assert(!dup_keys(e)); }
}
pub proof fn lemma_be_min(n: int)
    requires n >= 0
    ensures n < p256(be_len(n)), be_val(be_min(n)) == n
    decreases n
{
    if n == 0 { assert(p256(0) >= 1) by { lemma_p256(); }; lemma_be_val_be(0, 0); } else {
        lemma_be_min(n / 256);
        assert(p256(be_len(n)) == 256 * p256(be_len(n / 256)));
        lemma_be_val_be(n, be_len(n));
    }
}
impl Codec for u128 {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) { lemma_u128_zeros(*self); lemma_be_min(*self as int); lemma_be_len(*self as int, be_len(*self as int)); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for bool {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for char {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl Codec for String {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) { broadcast use axiom_len_string; encode_utf8_valid_utf8(self@); encode_utf8_decode_utf8(self@); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { assert(self@ =~= Seq::<char>::empty()); }
}
impl Codec for () {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
/// Dynamic values that are canonical items; undefined at top level reads as null.
impl Codec for Value {
    open spec fn rt(&self) -> bool { wf(vw(*self)) && canon(vw(*self)) }
    proof fn back(&self) { lemma_canon_norm(vw(*self)); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && vw(*self) != V::S(23) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { vw(*self) == V::S(23) }
    proof fn empty_law(&self) {}
}
impl<T: Codec> Codec for Option<T> {
    open spec fn rt(&self) -> bool { match *self { Some(x) => x.rt() && x.e() != V::S(22), None => true } }
    proof fn back(&self) { if let Some(x) = *self { x.back(); } }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { match *self { Some(x) => x.rt() && !is_null(x.e()), None => true } }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
impl<T: Codec> Codec for Vec<T> {
    open spec fn rt(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).rt() }
    proof fn back(&self) {
        broadcast use {axiom_cap_vec, axiom_cap_max};
        let s = self@;
        if T::is_byte() {
            assert forall|i: int| 0 <= i < s.len() implies T::of_byte(T::byte(s[i].m())) == s[i].m() by { s[i].byte_law(); }
            assert(bytesm::<T>(e_bytes(s)) =~= seqm(s));
        } else { lemma_seq_back(s); lemma_norm_unfold(self.e()); }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { assert(seqm(self@) =~= Seq::<T::M>::empty()); }
}
impl<T: Codec, const N: usize> Codec for [T; N] {
    open spec fn rt(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).rt() }
    proof fn back(&self) {
        let s = self@;
        if T::is_byte() {
            assert forall|i: int| 0 <= i < s.len() implies T::of_byte(T::byte(s[i].m())) == s[i].m() by { s[i].byte_law(); }
            assert(bytesm::<T>(e_bytes(s)) =~= seqm(s));
        } else { lemma_seq_back(s); lemma_norm_unfold(self.e()); }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}
