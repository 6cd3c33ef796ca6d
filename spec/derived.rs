// Structs and enums as derived code treats them: fields in maps and arrays, in declaration or canonical order.
use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_order::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_code::*; use crate::map_access::*;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*; use crate::typed_theorems::*; use crate::typed_props::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::Encode;
use vstd::seq_lib::*; use vstd::multiset::*; use vstd::relations::*;
use vstd::utf8::*;
use std::cmp::Ordering;

pub type KV = (V, V);
pub type KO = (V, Option<V>);
pub open spec fn null() -> V { V::S(22) }
pub open spec fn or_null(o: Option<V>) -> V { match o { Some(v) => v, None => null() } }

// ------------------------------------------------------------------ keys

proof fn lemma_ascii(s: Seq<char>, b: Seq<u8>)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 == b[i] && b[i] < 128
    ensures encode_utf8(s) == b
    decreases s.len()
{
    if s.len() == 0 { assert(encode_utf8(s) =~= b); } else {
        lemma_ascii(s.drop_first(), b.drop_first());
        let c = s[0] as u32;
        assert(c < 128 ==> (c & 0x7F) == c) by (bit_vector);
        assert(encode_utf8(s) =~= b);
    }
}
pub proof fn lemma_key(s: &str, b: Seq<u8>)
    requires s@.len() == b.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) as u32 == b[i] && b[i] < 128
    ensures V::T(encode_utf8(s@)) == V::T(b), decode_utf8(b) == s@, valid_utf8(b)
{
    lemma_ascii(s@, b);
    encode_utf8_valid_utf8(s@);
    encode_utf8_decode_utf8(s@);
}
pub proof fn lemma_lex_at(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i < a.len(), i < b.len(), a[i] < b[i], forall|j: int| 0 <= j < i ==> a[j] == b[j]
    ensures lex(a, b) is Less
    decreases i
{ if i > 0 { lemma_lex_at(a.drop_first(), b.drop_first(), i - 1); } }
/// Text keys in canonical order: the shorter first, then byte by byte.
pub proof fn lemma_text_less(a: Seq<u8>, b: Seq<u8>, i: int)
    requires a.len() < b.len() || (a.len() == b.len() && 0 <= i < a.len() && a[i] < b[i] && forall|j: int| 0 <= j < i ==> a[j] == b[j])
    ensures ord(V::T(a), V::T(b)) is Less
{ if a.len() == b.len() { lemma_lex_at(a, b, i); } }
pub broadcast proof fn lemma_ord_same(a: V, b: V) ensures (#[trigger] ord(a, b) is Equal) <==> a == b { if ord(a, b) is Equal { lemma_ord_eq(a, b); } lemma_ord_refl(a); }

// ------------------------------------------------------------------ sorting entries

/// Entries by key, then by value, as the library compares them.
pub open spec fn tleq() -> spec_fn(KV, KV) -> bool { |x: KV, y: KV| !(then(ord(x.0, y.0), ord(x.1, y.1)) is Greater) }
pub proof fn lemma_tleq() ensures total_ordering(tleq())
{ reveal(tsort);
    let f = tleq();
    assert forall|x: KV| #[trigger] f(x, x) by { lemma_ord_refl(x.0); lemma_ord_refl(x.1); }
    assert forall|x: KV, y: KV| #[trigger] f(x, y) && #[trigger] f(y, x) implies x == y by {
        lemma_ord_rev(x.0, y.0); lemma_ord_rev(x.1, y.1);
        if ord(x.0, y.0) is Equal { lemma_ord_eq(x.0, y.0); if ord(x.1, y.1) is Equal { lemma_ord_eq(x.1, y.1); } }
    }
    assert forall|x: KV, y: KV, z: KV| #[trigger] f(x, y) && #[trigger] f(y, z) implies f(x, z) by {
        lemma_ord_chains(x.0, y.0, z.0); lemma_ord_chains(x.1, y.1, z.1);
        lemma_ord_rev(x.0, y.0); lemma_ord_rev(y.0, z.0); lemma_ord_rev(x.1, y.1); lemma_ord_rev(y.1, z.1);
        lemma_ord_chains(z.0, y.0, x.0); lemma_ord_rev(x.0, z.0);
        lemma_ord_chains(z.1, y.1, x.1); lemma_ord_rev(x.1, z.1);
    }
    assert forall|x: KV, y: KV| #[trigger] f(x, y) || #[trigger] f(y, x) by { lemma_ord_rev(x.0, y.0); lemma_ord_rev(x.1, y.1); }
    assert(reflexive(f)); assert(antisymmetric(f)); assert(transitive(f)); assert(strongly_connected(f));
}
#[verifier::opaque]
pub open spec fn tsort(s: Seq<KV>) -> Seq<KV> { s.sort_by(tleq()) }
pub open spec fn tsorted(s: Seq<KV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tleq()(#[trigger] s[i], #[trigger] s[j]) }
pub proof fn lemma_tsort(s: Seq<KV>)
    ensures tsorted(tsort(s)), tsort(s).to_multiset() == s.to_multiset(), tsort(s).len() == s.len()
{ reveal(tsort);
    lemma_tleq();
    s.lemma_sort_by_ensures(tleq());
    assert(sorted_by(tsort(s), tleq()));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(tsort(s).to_multiset().len() == s.to_multiset().len());
}
/// What is sorted and has the same entries is the result of sorting.
pub proof fn lemma_tsort_is(s: Seq<KV>, t: Seq<KV>)
    requires tsorted(t), s.to_multiset() == t.to_multiset()
    ensures tsort(s) == t
{ reveal(tsort);
    lemma_tsort(s);
    lemma_tleq();
    assert(sorted_by(t, tleq()));
    assert(sorted_by(tsort(s), tleq()));
    lemma_sorted_unique(tsort(s), t, tleq());
}
/// Order does not matter.
pub proof fn lemma_tsort_same(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures tsort(s) == tsort(t)
{ reveal(tsort); lemma_tsort(t); lemma_tsort_is(s, tsort(t)); }
/// A rearrangement: `t[i] == s[p[i]]`, with q the inverse of p.
pub open spec fn rearranged<A>(s: Seq<A>, t: Seq<A>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& s.len() == t.len() == p.len() == q.len()
    &&& forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] p[i] < s.len() && q[p[i]] == i && t[i] == s[p[i]]
}
pub proof fn lemma_rearranged<A>(s: Seq<A>, t: Seq<A>, p: Seq<int>, q: Seq<int>)
    requires rearranged(s, t, p, q)
    ensures s.to_multiset() == t.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(s =~= t); } else {
        let n = t.len() - 1;
        let k = p[n];
        let s1 = s.remove(k);
        let t1 = t.drop_last();
        let p1 = Seq::new(n as nat, |i: int| if p[i] < k { p[i] } else { p[i] - 1 });
        let q1 = Seq::new(n as nat, |j: int| if j < k { q[j] } else { q[j + 1] });
        assert forall|i: int| 0 <= i < t1.len() implies 0 <= #[trigger] p1[i] < s1.len() && q1[p1[i]] == i && t1[i] == s1[p1[i]] by {
            assert(q[p[i]] == i && q[p[n]] == n);
            assert(p[i] != k);
        }
        lemma_rearranged(s1, t1, p1, q1);
        assert(t =~= t1.push(t[n]));
        assert(s =~= s1.insert(k, s[k]));
        assert(s.to_multiset() =~= s1.to_multiset().insert(s[k]));
    }
}
/// `Vec::sort` of map entries: std sorts slices by the order of their elements, and pairs by their first component, then their second.
#[verifier::external_body]
pub fn vx_sort(s: &mut Vec<(Value, Value)>)
    ensures
        exists|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(old(s)@, final(s)@, p, q),
        tsorted(vmap(final(s)@)),
{ s.sort() }
pub broadcast proof fn lemma_vx_sorted(a: Seq<(Value, Value)>, b: Seq<(Value, Value)>, p: Seq<int>, q: Seq<int>)
    requires #[trigger] rearranged(a, b, p, q), tsorted(vmap(b))
    ensures vmap(b) == tsort(vmap(a))
{ reveal_with_fuel(ents, 1); reveal(tsort);
    assert(rearranged(vmap(a), vmap(b), p, q));
    lemma_rearranged(vmap(a), vmap(b), p, q);
    lemma_tsort_is(vmap(a), vmap(b));
}

// ------------------------------------------------------------------ fields as map entries

/// The entries that are there.
#[verifier::opaque]
pub open spec fn ents(l: Seq<KO>) -> Seq<KV>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { put(ents(l.drop_last()), l.last().0, l.last().1) }
}
pub open spec fn put(s: Seq<KV>, k: V, o: Option<V>) -> Seq<KV> { match o { Some(v) => s.push((k, v)), None => s } }
pub open spec fn normo(l: Seq<KO>) -> Seq<KO> { Seq::new(l.len(), |i: int| (l[i].0, no(l[i].1))) }
pub open spec fn no(o: Option<V>) -> Option<V> { match o { Some(v) => Some(norm(v)), None => None } }
pub broadcast proof fn lemma_ents_push(l: Seq<KO>, x: KO) ensures #[trigger] ents(l.push(x)) == put(ents(l), x.0, x.1) { reveal_with_fuel(ents, 1); assert(l.push(x).drop_last() =~= l); }
pub broadcast proof fn lemma_ents_empty() ensures #[trigger] ents(Seq::<KO>::empty()) == Seq::<KV>::empty() { reveal_with_fuel(ents, 1); reveal(rising);}
/// Keys in strictly increasing canonical order.
#[verifier::opaque]
pub open spec fn rising(l: Seq<KO>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> ord((#[trigger] l[i]).0, (#[trigger] l[j]).0) is Less }
pub proof fn lemma_ents_at(l: Seq<KO>)
    ensures
        forall|a: int| 0 <= a < ents(l).len() ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == (#[trigger] ents(l)[a]).0 && l[i].1 == Some(ents(l)[a].1),
        forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 is Some ==> exists|a: int| 0 <= a < ents(l).len() && #[trigger] ents(l)[a] == (l[i].0, l[i].1->Some_0),
        ents(l).len() <= l.len(),
    decreases l.len()
{ reveal_with_fuel(ents, 1);
    if l.len() > 0 {
        let d = l.drop_last();
        lemma_ents_at(d);
        assert forall|a: int| 0 <= a < ents(l).len() implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == (#[trigger] ents(l)[a]).0 && l[i].1 == Some(ents(l)[a].1) by {
            if a < ents(d).len() {
                assert(ents(l)[a] == ents(d)[a]);
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == ents(d)[a].0 && d[i].1 == Some(ents(d)[a].1);
                assert(l[i] == d[i]);
            } else { assert(l[l.len() - 1] == l.last()); }
        }
        assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 is Some implies exists|a: int| 0 <= a < ents(l).len() && #[trigger] ents(l)[a] == (l[i].0, l[i].1->Some_0) by {
            if i < d.len() {
                assert(d[i] == l[i]);
                let a = choose|a: int| 0 <= a < ents(d).len() && #[trigger] ents(d)[a] == (d[i].0, d[i].1->Some_0);
                assert(ents(l)[a] == ents(d)[a]);
            } else { assert(ents(l)[ents(l).len() - 1] == (l[i].0, l[i].1->Some_0)); }
        }
    }
}
pub proof fn lemma_ents_sorted(l: Seq<KO>)
    requires rising(l)
    ensures tsorted(ents(l)), keys_up(ents(l))
    decreases l.len()
{ reveal_with_fuel(ents, 1); reveal(rising);
    if l.len() > 0 {
        let d = l.drop_last();
        assert(rising(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies ord((#[trigger] d[i]).0, (#[trigger] d[j]).0) is Less by { assert(d[i] == l[i] && d[j] == l[j]); } }
        lemma_ents_sorted(d);
        let e = ents(l);
        assert(keys_up(e)) by {
            assert forall|i: int, j: int| 0 <= i < j < e.len() implies ord((#[trigger] e[i]).0, (#[trigger] e[j]).0) is Less by {
                if j < ents(d).len() { assert(e[i] == ents(d)[i] && e[j] == ents(d)[j]); } else {
                    assert(e[i] == ents(d)[i]);
                    lemma_ents_at(d);
                    let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == ents(d)[i].0 && d[k].1 == Some(ents(d)[i].1);
                    assert(l[k] == d[k] && l[l.len() - 1] == l.last());
                }
            }
        }
        assert(tsorted(e));
    }
}
pub proof fn lemma_ents_count(l: Seq<KO>, x: KV)
    ensures ents(l).to_multiset().count(x) == l.to_multiset().count((x.0, Some(x.1)))
    decreases l.len()
{ reveal_with_fuel(ents, 1);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if l.len() > 0 {
        let d = l.drop_last();
        lemma_ents_count(d, x);
        assert(l =~= d.push(l.last()));
        assert(l.to_multiset() =~= d.to_multiset().insert(l.last()));
        match l.last().1 { Some(v) => { assert(ents(l).to_multiset() =~= ents(d).to_multiset().insert((l.last().0, v))); } None => {} }
    } else { assert(ents(l) =~= Seq::empty()); }
}
pub proof fn lemma_ents_multi(d: Seq<KO>, l: Seq<KO>)
    requires d.to_multiset() == l.to_multiset()
    ensures ents(d).to_multiset() == ents(l).to_multiset()
{ reveal_with_fuel(ents, 1);
    assert forall|x: KV| ents(d).to_multiset().count(x) == ents(l).to_multiset().count(x) by { lemma_ents_count(d, x); lemma_ents_count(l, x); }
    assert(ents(d).to_multiset() =~= ents(l).to_multiset());
}
pub proof fn lemma_normo(l: Seq<KO>)
    requires forall|i: int| 0 <= i < l.len() ==> norm((#[trigger] l[i]).0) == l[i].0
    ensures normm(ents(l)) == ents(normo(l))
    decreases l.len()
{ reveal_with_fuel(ents, 1);
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies norm((#[trigger] d[i]).0) == d[i].0 by { assert(d[i] == l[i]); }
        lemma_normo(d);
        assert(normo(l).drop_last() =~= normo(d));
        assert(l[l.len() - 1] == l.last());
        assert(normo(l).last() == (l.last().0, no(l.last().1)));
        assert(normm(ents(l)) =~= ents(normo(l)));
    } else { assert(normm(ents(l)) =~= ents(normo(l))); }
}
/// Sorting into canonical order rearranges entries whose keys differ.
pub proof fn lemma_nsort_multi(s: Seq<KV>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
    ensures nsort(s).to_multiset() == s.to_multiset()
{
    lemma_nsort(s);
    lemma_nsort_count(s);
}
pub proof fn lemma_insv_multi(e: KV, s: Seq<KV>)
    ensures insv(e, s).to_multiset() == s.to_multiset().insert(e)
    decreases s.len()
{
    hide(lex); hide(enc);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 { assert(insv(e, s) =~= s.push(e)); } else if lex(enc(s.last().0), enc(e.0)) is Greater {
        let d = s.drop_last();
        lemma_insv_multi(e, d);
        assert(s =~= d.push(s.last()));
        assert(insv(e, s) == insv(e, d).push(s.last()));
        assert(insv(e, s).to_multiset() =~= s.to_multiset().insert(e));
    }
}
pub proof fn lemma_nsort_count(s: Seq<KV>)
    ensures nsort(s).to_multiset() == s.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_nsort_count(s.drop_last());
        lemma_insv_multi(s.last(), nsort(s.drop_last()));
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// Keys that derived code uses: text and integers.
pub open spec fn plain(k: V) -> bool { wf(k) && (k is T || k is U || k is N) }
pub open spec fn fine(o: Option<V>) -> bool { match o { Some(v) => wf(v) && !has_dup(v), None => true } }
pub open spec fn all_fine(l: Seq<KO>) -> bool { forall|i: int| 0 <= i < l.len() ==> plain((#[trigger] l[i]).0) && fine(l[i].1) }
pub open spec fn keys_of(l: Seq<KO>) -> Seq<V> { Seq::new(l.len(), |i: int| l[i].0) }
/// Declared in the order d, found in the order l.
pub proof fn lemma_map_fields(d: Seq<KO>, l: Seq<KO>)
    requires d.to_multiset() == l.to_multiset(), rising(l), all_fine(d), d.len() < 1000
    ensures
        tsort(ents(d)) == ents(l),
        norm(V::M(ents(d))) is M,
        tsort(norm(V::M(ents(d)))->M_0) == ents(normo(l)),
        rising(normo(l)),
        wf(V::M(ents(d))), !has_dup(V::M(ents(d))),
{
    hide(ord); hide(norm); hide(has_dup); hide(wf);
    reveal_with_fuel(ents, 1); reveal(tsort); reveal(rising);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_ents_multi(d, l);
    lemma_ents_sorted(l);
    lemma_tsort_is(ents(d), ents(l));
    let e = ents(d);
    lemma_norm_unfold(V::M(e));
    assert forall|i: int| 0 <= i < d.len() implies norm((#[trigger] d[i]).0) == d[i].0 by { reveal(norm); assert(plain(d[i].0)); }
    assert forall|i: int| 0 <= i < l.len() implies norm((#[trigger] l[i]).0) == l[i].0 && plain(l[i].0) by {
        assert(l.to_multiset().contains(l[i]));
        assert(d.to_multiset().contains(l[i]));
        let j = choose|j: int| 0 <= j < d.len() && d[j] == l[i];
        assert(d[j].0 == l[i].0);
    }
    lemma_normo(d);
    lemma_nsort_count(ents(normo(d)));
    lemma_normo_multi(d, l);
    lemma_ents_multi(normo(d), normo(l));
    assert(rising(normo(l))) by { assert forall|i: int, j: int| 0 <= i < j < normo(l).len() implies ord((#[trigger] normo(l)[i]).0, (#[trigger] normo(l)[j]).0) is Less by { assert(ord(l[i].0, l[j].0) is Less); } }
    lemma_ents_sorted(normo(l));
    lemma_tsort_is(nsort(ents(normo(d))), ents(normo(l)));
    // well formed
    lemma_ents_at(d);
    lemma_ents_at(l);
    assert forall|a: int| 0 <= a < e.len() implies wf((#[trigger] e[a]).0) && wf(e[a].1) && !has_dup(e[a].0) && !has_dup(e[a].1) by {
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == e[a].0 && d[i].1 == Some(e[a].1);
        assert(plain(d[i].0) && fine(d[i].1));
        reveal(has_dup);
    }
    lemma_wf_all_map(e, e.len());
    assert(wf(V::M(e))) by { reveal(wf); }
    // keys differ
    lemma_tsort(e);
    assert forall|a: int, b: int| 0 <= a < b < e.len() implies cenc((#[trigger] e[a]).0) != cenc((#[trigger] e[b]).0) by {
        let x = e[a].0; let y = e[b].0;
        lemma_diff_keys(e, ents(l), a, b);
        reveal(norm);
        assert(norm(x) == x && norm(y) == y);
        lemma_norm(x); lemma_norm(y);
        if cenc(x) == cenc(y) { lemma_enc_inj(x, y); }
    }
    assert(!has_dup(V::M(e))) by { reveal(has_dup); assert(!dup_keys(e)); }
}
pub proof fn lemma_normo_multi(d: Seq<KO>, l: Seq<KO>)
    requires d.to_multiset() == l.to_multiset()
    ensures normo(d).to_multiset() == normo(l).to_multiset()
    decreases d.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(d.to_multiset().len() == d.len()); assert(l.to_multiset().len() == l.len()); assert(d.len() == l.len());
    if d.len() == 0 { assert(normo(d) =~= normo(l)); } else {
        let x = d.last();
        assert(d.to_multiset().contains(x)) by { assert(d.contains(d[d.len() - 1])); }
        assert(l.contains(x));
        let k = choose|k: int| 0 <= k < l.len() && l[k] == x;
        let d1 = d.drop_last(); let l1 = l.remove(k);
        assert(d =~= d1.push(x));
        assert(d1.to_multiset() =~= d.to_multiset().remove(x));
        assert(l1.to_multiset() =~= l.to_multiset().remove(x));
        lemma_normo_multi(d1, l1);
        let nx = (x.0, no(x.1));
        assert(normo(d) =~= normo(d1).push(nx));
        assert(normo(l) =~= normo(l1).insert(k, nx));
        assert(normo(l).to_multiset() =~= normo(l1).to_multiset().insert(nx));
        assert(normo(d).to_multiset() =~= normo(d1).to_multiset().insert(nx));
    }
}
/// Keys that differ in one order differ in every order.
pub proof fn lemma_diff_keys(s: Seq<KV>, t: Seq<KV>, a: int, b: int)
    requires s.to_multiset() == t.to_multiset(), keys_up(t), 0 <= a < b < s.len()
    ensures s[a].0 != s[b].0
{
    hide(ord);
    reveal(f_strict); reveal(f_loose); reveal(f_next);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s[a].0 == s[b].0 {
        let x = s[a]; let y = s[b];
        assert(t.to_multiset().contains(x) && t.to_multiset().contains(y)) by { assert(s.contains(s[a]) && s.contains(s[b])); }
        assert(t.contains(x) && t.contains(y));
        let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
        let j = choose|j: int| 0 <= j < t.len() && t[j] == y;
        lemma_ord_refl(x.0);
        if i < j { assert(ord(t[i].0, t[j].0) is Less); } else if j < i { assert(ord(t[j].0, t[i].0) is Less); } else {
            // the same entry twice
            let s1 = s.remove(b);
            assert(s1[a] == x);
            assert(s.to_multiset() =~= s1.to_multiset().insert(y)) by { assert(s =~= s1.insert(b, y)); }
            let t1 = t.remove(i);
            assert(t1.to_multiset() =~= t.to_multiset().remove(x));
            assert(s1.to_multiset().contains(x)) by { assert(s1.contains(s1[a])); }
            assert(t1.to_multiset().count(x) >= 1);
            assert(t1.contains(x));
            let k = choose|k: int| 0 <= k < t1.len() && t1[k] == x;
            let k1 = if k < i { k } else { k + 1 };
            assert(t[k1] == x && k1 != i);
            if k1 < i { assert(ord(t[k1].0, t[i].0) is Less); } else { assert(ord(t[i].0, t[k1].0) is Less); }
        }
    }
}

// ------------------------------------------------------------------ looking fields up

/// A field of a declaration that allows no unknown fields.
#[verifier::opaque]
pub open spec fn f_strict<T: Decode>(s: Seq<KV>, k: V) -> R<(T::M, Seq<KV>)> {
    match pv_strict(s, k) {
        Err(_) => Err(DecodeError::UnknownField),
        Ok((o, rest)) => match d_top::<T>(or_null(o)) { Ok(m) => Ok((m, rest)), Err(e) => Err(e) },
    }
}
/// A field of a declaration that allows unknown fields.
#[verifier::opaque]
pub open spec fn f_loose<T: Decode>(s: Seq<KV>, k: V) -> R<(T::M, Seq<KV>)> {
    let (o, rest) = pv_take(s, k);
    match d_top::<T>(or_null(o)) { Ok(m) => Ok((m, rest)), Err(e) => Err(e) }
}
/// A field in an array.
#[verifier::opaque]
pub open spec fn f_next<T: Decode>(s: Seq<V>) -> R<(T::M, Seq<V>)> {
    if s.len() == 0 { Err(DecodeError::MissingField) } else { match d_top::<T>(s[0]) { Ok(m) => Ok((m, s.drop_first())), Err(e) => Err(e) } }
}
pub proof fn lemma_ents_front(l: Seq<KO>)
    requires l.len() > 0
    ensures ents(l) == (match l[0].1 { Some(v) => seq![(l[0].0, v)] + ents(l.drop_first()), None => ents(l.drop_first()) })
    decreases l.len()
{ reveal_with_fuel(ents, 1);
    if l.len() == 1 {
        assert(l.drop_last() =~= Seq::<KO>::empty()); assert(l.drop_first() =~= Seq::<KO>::empty());
        assert(l.last() == l[0]);
        assert(ents(l) =~= (match l[0].1 { Some(v) => seq![(l[0].0, v)] + ents(l.drop_first()), None => ents(l.drop_first()) }));
    } else {
        let d = l.drop_last();
        lemma_ents_front(d);
        assert(l.drop_first().drop_last() =~= d.drop_first());
        assert(l.drop_first().last() == l.last());
        assert(d[0] == l[0]);
        assert(ents(l) =~= (match l[0].1 { Some(v) => seq![(l[0].0, v)] + ents(l.drop_first()), None => ents(l.drop_first()) }));
    }
}
proof fn lemma_first(l: Seq<KO>)
    requires rising(l), l.len() > 0
    ensures
        pv_strict(ents(l), l[0].0) == Ok::<(Option<V>, Seq<KV>), ()>((l[0].1, ents(l.drop_first()))),
        pv_take(ents(l), l[0].0) == (l[0].1, ents(l.drop_first())),
        rising(l.drop_first()),
{
    hide(ord); hide(pv_skip);
    reveal_with_fuel(ents, 1); reveal(rising);
    let k = l[0].0;
    let s = ents(l);
    let r = l.drop_first();
    assert(rising(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies ord((#[trigger] r[i]).0, (#[trigger] r[j]).0) is Less by { assert(r[i] == l[i + 1] && r[j] == l[j + 1]); } }
    lemma_ents_front(l);
    lemma_ord_refl(k);
    match l[0].1 {
        Some(v) => { assert(s[0] == (k, v)); assert(s.drop_first() =~= ents(r)); assert(pv_skip(s, k) == 0) by { reveal_with_fuel(pv_skip, 1); } assert(s.skip(1) =~= ents(r)); }
        None => {
            assert(s == ents(r));
            assert(s.skip(0) =~= s);
            if s.len() > 0 {
                lemma_first_above(l);
                lemma_ord_rev(k, s[0].0);
            }
            assert(pv_skip(s, k) == 0) by { reveal_with_fuel(pv_skip, 1); }
        }
    }
}
proof fn lemma_first_above(l: Seq<KO>)
    requires rising(l), l.len() > 0, ents(l.drop_first()).len() > 0
    ensures ord(l[0].0, ents(l.drop_first())[0].0) is Less
{
    hide(ord);
    reveal_with_fuel(ents, 1); reveal(rising);
    let r = l.drop_first();
    lemma_ents_at(r);
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == ents(r)[0].0 && r[i].1 == Some(ents(r)[0].1);
    assert(r[i] == l[i + 1]);
}
pub proof fn lemma_field_step<T: Decode>(l: Seq<KO>, m: T::M)
    requires rising(l), l.len() > 0, d_top::<T>(or_null(l[0].1)) == Ok::<T::M, DecodeError>(m)
    ensures
        f_strict::<T>(ents(l), l[0].0) == Ok::<(T::M, Seq<KV>), DecodeError>((m, ents(l.drop_first()))),
        f_loose::<T>(ents(l), l[0].0) == Ok::<(T::M, Seq<KV>), DecodeError>((m, ents(l.drop_first()))),
        rising(l.drop_first()),
{
    hide(ord); hide(pv_skip); hide(pv_strict); hide(pv_take);
    reveal(f_strict); reveal(f_loose); reveal(rising);
    lemma_first(l);
}
/// A field that is always written.
pub proof fn lemma_required<T: Codec>(x: T)
    requires x.rt_top()
    ensures d_top::<T>(x.e()) == Ok::<T::M, DecodeError>(x.m()), d_top::<T>(norm(x.e())) == Ok::<T::M, DecodeError>(x.m()), wf(x.e()), !has_dup(x.e())
{
    x.back_top();
    if x.rt() { x.back(); }
    let e = x.e();
    if is_null(e) { assert(norm(e) == e); } else {
        if is_null(norm(e)) { lemma_norm_unfold(e); }
    }
}
/// A field that is left out when it is empty.
pub proof fn lemma_optional<T: Codec>(x: T)
    requires x.rt_top(), !x.lost()
    ensures
        x.omit() ==> d_top::<T>(null()) == Ok::<T::M, DecodeError>(x.m()),
        d_top::<T>(x.e()) == Ok::<T::M, DecodeError>(x.m()), d_top::<T>(norm(x.e())) == Ok::<T::M, DecodeError>(x.m()), wf(x.e()), !has_dup(x.e())
{
    lemma_required(x);
    if x.omit() { x.empty_law(); }
}
pub proof fn lemma_next_step<T: Decode>(s: Seq<V>, m: T::M)
    requires s.len() > 0, d_top::<T>(s[0]) == Ok::<T::M, DecodeError>(m)
    ensures f_next::<T>(s) == Ok::<(T::M, Seq<V>), DecodeError>((m, s.drop_first()))
{ reveal(f_next);}
pub proof fn lemma_arr_fields(s: Seq<V>)
    requires s.len() < 1000, forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) && !has_dup(s[i])
    ensures wf(V::A(s)), !has_dup(V::A(s)), norm(V::A(s)) == V::A(norms(s))
{ lemma_wf_all_arr(s, s.len()); lemma_norm_unfold(V::A(s)); }
/// One entry: an enum variant.
pub proof fn lemma_single(k: V, v: V)
    requires plain(k), wf(v), !has_dup(v)
    ensures wf(V::M(seq![(k, v)])), !has_dup(V::M(seq![(k, v)])), norm(V::M(seq![(k, v)])) == V::M(seq![(k, norm(v))])
{
    let s = seq![(k, v)];
    lemma_wf_all_map(s, 1);
    assert(!dup_keys(s));
    lemma_norm_unfold(V::M(s));
    assert(norm(k) == k);
    assert(normm(s) =~= seq![(k, norm(v))]);
    lemma_nsort_count(normm(s));
    lemma_nsort(normm(s));
    assert(nsort(normm(s)).contains(normm(s)[0]));
    assert(nsort(normm(s)) =~= normm(s));
}

// ------------------------------------------------------------------ the code

pub broadcast proof fn lemma_vmap_push(s: Seq<(Value, Value)>, x: (Value, Value)) ensures #[trigger] vmap(s.push(x)) == vmap(s).push((vw(x.0), vw(x.1))) { assert(vmap(s.push(x)) =~= vmap(s).push((vw(x.0), vw(x.1)))); }
pub broadcast proof fn lemma_vseq_push(s: Seq<Value>, x: Value) ensures #[trigger] vseq(s.push(x)) == vseq(s).push(vw(x)) { assert(vseq(s.push(x)) =~= vseq(s).push(vw(x))); }
pub broadcast proof fn lemma_vmap_none(s: Seq<(Value, Value)>) ensures s.len() == 0 ==> #[trigger] vmap(s) == Seq::<KV>::empty() { if s.len() == 0 { assert(vmap(s) =~= Seq::empty()); } }
pub broadcast proof fn lemma_vseq_none(s: Seq<Value>) ensures s.len() == 0 ==> #[trigger] vseq(s) == Seq::<V>::empty() { if s.len() == 0 { assert(vseq(s) =~= Seq::empty()); } }
pub broadcast proof fn lemma_vseq_rest(s: Seq<Value>) requires s.len() > 0 ensures #[trigger] vseq(s.drop_first()) == vseq(s).drop_first() { assert(vseq(s.drop_first()) =~= vseq(s).drop_first()); }
pub broadcast proof fn lemma_vmap_rest(s: Seq<(Value, Value)>) requires s.len() > 0 ensures #[trigger] vmap(s.drop_first()) == vmap(s).drop_first() { assert(vmap(s.drop_first()) =~= vmap(s).drop_first()); }
/// `X.iter().enumerate().find(f)`: the first element for which f holds.
#[verifier::external_body]
pub fn vx_enumerate_find<'a, T, F: FnMut(&(usize, &'a T)) -> bool>(s: &'a Vec<T>, f: F) -> (r: Option<(usize, &'a T)>)
    requires forall|i: usize| 0 <= i < s@.len() ==> f.requires((&(i, &#[trigger] s@[i as int]),)),
    ensures match r {
        Some((i, x)) => i < s@.len() && *x == s@[i as int] && f.ensures((&(i, x),), true) && forall|j: int| 0 <= j < i ==> f.ensures((&(j as usize, &#[trigger] s@[j]),), false),
        None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((&(j as usize, &#[trigger] s@[j]),), false),
    }
{ s.iter().enumerate().find(f) }
pub proof fn lemma_vw_any(v: Value) ensures match v { Value::Map(m) => vw(v) == V::M(vmap(m@)), Value::Array(a) => vw(v) == V::A(vseq(a@)), _ => !(vw(v) is M) && !(vw(v) is A) } {
    match v { Value::Map(m) => { crate::typed_lemmas::lemma_vw_mapping(m); } Value::Array(a) => { crate::typed_lemmas::lemma_vw_array(a); } _ => {} }
}
pub open spec fn no_items(v: V) -> bool { match v { V::M(s) => s.len() == 0, _ => false } }
pub broadcast proof fn lemma_vmap_one(s: Seq<(Value, Value)>) ensures s.len() == 1 ==> #[trigger] vmap(s) == one(vw(s[0].0), vw(s[0].1)) { if s.len() == 1 { assert(vmap(s) =~= one(vw(s[0].0), vw(s[0].1))); } }
pub broadcast proof fn lemma_vmap_remove(s: Seq<(Value, Value)>, i: int) requires 0 <= i < s.len() ensures #[trigger] vmap(s.remove(i)) == vmap(s).remove(i) { assert(vmap(s.remove(i)) =~= vmap(s).remove(i)); }
pub broadcast group derived_facts { lemma_vmap_one, lemma_vmap_remove, lemma_tag_found, lemma_tag_none, crate::typed_lemmas::lemma_vw_array, crate::typed_lemmas::lemma_vw_mapping,  lemma_ord_same, lemma_vx_sorted, lemma_ents_push, lemma_ents_empty, lemma_vmap_push, lemma_vseq_push, lemma_vmap_none, lemma_vseq_none, lemma_vseq_rest, lemma_vmap_rest }

// ------------------------------------------------------------------ strictness

/// Keys that are declared, each at most once.
#[verifier::opaque]
pub open spec fn declared(s: Seq<KV>, ks: Seq<V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> ks.contains((#[trigger] s[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub proof fn lemma_declared_none(s: Seq<KV>, ks: Seq<V>) requires s.len() == 0 ensures declared(s, ks) { reveal(declared);}
/// A lookup that succeeds takes nothing but the entry of its key.
pub proof fn lemma_declared_step<T: Decode>(s: Seq<KV>, ks: Seq<V>)
    requires
        ks.len() > 0, f_strict::<T>(s, ks[0]) is Ok, declared(f_strict::<T>(s, ks[0])->Ok_0.1, ks.drop_first()),
        forall|i: int| 1 <= i < ks.len() ==> ord(ks[0], #[trigger] ks[i]) is Less,
    ensures declared(s, ks)
{
    hide(ord);
    reveal(f_strict); reveal(declared);
    let k = ks[0];
    let r = f_strict::<T>(s, k)->Ok_0.1;
    let ds = ks.drop_first();
    lemma_ord_refl(k);
    assert(!ds.contains(k)) by { if ds.contains(k) { let i = choose|i: int| 0 <= i < ds.len() && ds[i] == k; assert(ks[i + 1] == k); } }
    assert forall|x: V| ds.contains(x) implies ks.contains(x) by { let i = choose|i: int| 0 <= i < ds.len() && ds[i] == x; assert(ks[i + 1] == x); }
    if s.len() > 0 && ord(s[0].0, k) is Equal {
        lemma_ord_eq(s[0].0, k);
        assert(r == s.drop_first());
        assert forall|i: int| 0 <= i < s.len() implies ks.contains((#[trigger] s[i]).0) by { if i > 0 { assert(r[i - 1] == s[i]); } else { assert(ks[0] == k); } }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(r[j - 1] == s[j]); if i > 0 { assert(r[i - 1] == s[i]); } else { assert(ds.contains(r[j - 1].0)); } }
    } else { assert(r == s); }
}
/// The order of the entries plays no role in that.
pub proof fn lemma_declared_any(s: Seq<KV>, ks: Seq<V>)
    requires declared(tsort(s), ks)
    ensures declared(s, ks)
{ reveal(tsort); reveal(declared);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_tsort(s);
    let t = tsort(s);
    assert forall|i: int| 0 <= i < s.len() implies ks.contains((#[trigger] s[i]).0) by {
        assert(s.contains(s[i])); assert(t.to_multiset().contains(s[i])); assert(t.contains(s[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
        assert(ks.contains(t[j].0));
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
        if s[i].0 == s[j].0 { lemma_twice(s, t, i, j); }
    }
}
pub proof fn lemma_twice(s: Seq<KV>, t: Seq<KV>, a: int, b: int)
    requires s.to_multiset() == t.to_multiset(), 0 <= a < b < s.len(), s[a].0 == s[b].0, forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0
    ensures false
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = s[a]; let y = s[b];
    assert(s.contains(x) && s.contains(y));
    assert(t.to_multiset().contains(x) && t.to_multiset().contains(y));
    assert(t.contains(x) && t.contains(y));
    let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
    let j = choose|j: int| 0 <= j < t.len() && t[j] == y;
    if i < j { assert(t[i].0 != t[j].0); } else if j < i { assert(t[j].0 != t[i].0); } else {
        let s1 = s.remove(b);
        assert(s1[a] == x);
        assert(s.to_multiset() =~= s1.to_multiset().insert(y)) by { assert(s =~= s1.insert(b, y)); }
        let t1 = t.remove(i);
        assert(t1.to_multiset() =~= t.to_multiset().remove(x));
        assert(s1.to_multiset().contains(x)) by { assert(s1.contains(s1[a])); }
        assert(t1.to_multiset().count(x) >= 1);
        assert(t1.contains(x));
        let k = choose|k: int| 0 <= k < t1.len() && t1[k] == x;
        let k1 = if k < i { k } else { k + 1 };
        assert(t[k1] == x && k1 != i);
        if k1 < i { assert(t[k1].0 != t[i].0); } else { assert(t[i].0 != t[k1].0); }
    }
}
/// Where unknown fields are allowed, a lookup finds the entry of its key wherever unknown keys sort.
pub proof fn lemma_loose_step<T: Decode>(s: Seq<KV>, k: V)
    requires keys_up(s)
    ensures
        f_loose::<T>(s, k) is Ok <==> d_top::<T>(or_null(lookup(s, k))) is Ok,
        f_loose::<T>(s, k) is Ok ==> {
            &&& Ok::<T::M, DecodeError>(f_loose::<T>(s, k)->Ok_0.0) == d_top::<T>(or_null(lookup(s, k)))
            &&& keys_up(f_loose::<T>(s, k)->Ok_0.1)
            &&& forall|l: V| ord(k, l) is Less ==> #[trigger] lookup(f_loose::<T>(s, k)->Ok_0.1, l) == lookup(s, l)
        },
{ reveal(f_loose); lemma_take(s, k); }
pub open spec fn distinct_keys(s: Seq<KV>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
/// Sorting entries with different keys: the same lookups, increasing keys.
pub proof fn lemma_sort_lookup(s: Seq<KV>)
    requires distinct_keys(s)
    ensures keys_up(tsort(s)), forall|k: V| #[trigger] lookup(tsort(s), k) == lookup(s, k)
{
    hide(ord);
    reveal(tsort);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_tsort(s);
    let t = tsort(s);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { if t[i].0 == t[j].0 { lemma_twice(t, s, i, j); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies ord((#[trigger] t[i]).0, (#[trigger] t[j]).0) is Less by {
        assert(tleq()(t[i], t[j]));
        if ord(t[i].0, t[j].0) is Equal { lemma_ord_eq(t[i].0, t[j].0); }
    }
    assert forall|k: V| #[trigger] lookup(t, k) == lookup(s, k) by {
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            assert(s.contains(s[i])); assert(t.to_multiset().contains(s[i])); assert(t.contains(s[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
            assert(t[j].0 == k);
            let i2 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            let j2 = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k;
            if j2 < j { assert(t[j2].0 != t[j].0); } else if j < j2 { assert(t[j].0 != t[j2].0); }
        } else if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k;
            assert(t.contains(t[i])); assert(s.to_multiset().contains(t[i])); assert(s.contains(t[i]));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i];
            assert(s[j].0 == k);
        }
    }
}
/// Null, undefined and an absent entry are the same.
pub proof fn lemma_absent<T: Decode>(s: Seq<KV>, k: V)
    requires s.len() == 0 || ord(k, s[0].0) is Less
    ensures
        f_strict::<T>(seq![(k, V::S(22))] + s, k) == f_strict::<T>(s, k), f_strict::<T>(seq![(k, V::S(23))] + s, k) == f_strict::<T>(s, k),
        f_loose::<T>(seq![(k, V::S(22))] + s, k) == f_loose::<T>(s, k), f_loose::<T>(seq![(k, V::S(23))] + s, k) == f_loose::<T>(s, k),
{
    hide(ord);
    reveal(f_strict); reveal(f_loose);
    lemma_ord_refl(k);
    if s.len() > 0 { lemma_ord_rev(k, s[0].0); }
    assert(s.skip(0) =~= s);
    assert(pv_skip(s, k) == 0);
    let a = seq![(k, V::S(22))] + s; let b = seq![(k, V::S(23))] + s;
    assert(a.drop_first() =~= s && b.drop_first() =~= s && a.skip(1) =~= s && b.skip(1) =~= s);
    assert(pv_skip(a, k) == 0 && pv_skip(b, k) == 0);
}

pub proof fn lemma_declared_distinct(s: Seq<KV>, ks: Seq<V>) requires declared(s, ks) ensures distinct_keys(s) { reveal(declared);}
pub proof fn lemma_strict_loose<T: Decode>(s: Seq<KV>, k: V)
    requires f_strict::<T>(s, k) is Ok
    ensures f_loose::<T>(s, k) == f_strict::<T>(s, k)
{
    hide(ord);
    reveal(f_strict); reveal(f_loose);
    assert(s.skip(0) =~= s);
    if s.len() > 0 { assert(s.skip(1) =~= s.drop_first()); }
    assert(pv_skip(s, k) == 0);
}
/// Different keys.
pub open spec fn apart(d: Seq<KO>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0 }
pub proof fn lemma_lookup_ents(d: Seq<KO>, i: int)
    requires apart(d), 0 <= i < d.len()
    ensures lookup(ents(d), d[i].0) == d[i].1
{ reveal_with_fuel(ents, 1);
    let e = ents(d);
    let k = d[i].0;
    lemma_ents_at(d);
    if exists|a: int| 0 <= a < e.len() && (#[trigger] e[a]).0 == k {
        let a = choose|a: int| 0 <= a < e.len() && (#[trigger] e[a]).0 == k;
        let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == e[a].0 && d[j].1 == Some(e[a].1);
        if i < j { assert(d[i].0 != d[j].0); } else if j < i { assert(d[j].0 != d[i].0); }
    } else if d[i].1 is Some {
        let a = choose|a: int| 0 <= a < e.len() && #[trigger] e[a] == (d[i].0, d[i].1->Some_0);
        assert(e[a].0 == k);
    }
}
pub proof fn lemma_no_entries()
    ensures norm(V::M(Seq::empty())) == V::M(Seq::empty()), wf(V::M(Seq::empty())), !has_dup(V::M(Seq::empty())), tsort(Seq::empty()) == Seq::<KV>::empty(), ents(Seq::empty()) == Seq::<KV>::empty()
{ reveal_with_fuel(ents, 1); reveal(tsort);
    let s = Seq::<KV>::empty();
    lemma_tsort(s);
    assert(tsort(s) =~= s);
    lemma_wf_all_map(s, 0);
    assert(!dup_keys(s));
    lemma_norm_unfold(V::M(s));
    assert(normm(s) =~= s);
    assert(nsort(normm(s)) =~= s);
    assert(!dup_keys(s));
}

// ------------------------------------------------------------------ enums

/// The map with one entry that stands for a variant.
pub open spec fn one(k: V, v: V) -> Seq<KV> { Seq::empty().push((k, v)) }
pub proof fn lemma_one(k: V, v: V)
    requires plain(k), wf(v), !has_dup(v)
    ensures wf(V::M(one(k, v))), !has_dup(V::M(one(k, v))), norm(V::M(one(k, v))) == V::M(one(k, norm(v))), one(k, v).len() == 1, one(k, v)[0] == (k, v)
{
    lemma_single(k, v);
    assert(one(k, v) =~= seq![(k, v)]);
    assert(one(k, norm(v)) =~= seq![(k, norm(v))]);
}
pub proof fn lemma_texts_differ(a: Seq<u8>, b: Seq<u8>, i: int)
    requires a.len() != b.len() || (0 <= i < a.len() && a[i] != b[i])
    ensures V::T(a) != V::T(b)
{}
/// Where the tag is.
pub open spec fn tag_at(s: Seq<KV>, tag: V, i: int) -> bool { 0 <= i < s.len() && s[i].0 == tag && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != tag }
/// The tag of an internally tagged variant (undefined if there is none) and the other entries.
#[verifier::opaque]
pub open spec fn untag(s: Seq<KV>, tag: V) -> (V, Seq<KV>) {
    if exists|i: int| tag_at(s, tag, i) { let i = choose|i: int| tag_at(s, tag, i); (s[i].1, s.remove(i)) } else { (V::S(23), s) }
}
pub broadcast proof fn lemma_first_tag(s: Seq<KV>, tag: V, i: int)
    requires #[trigger] tag_at(s, tag, i)
    ensures untag(s, tag) == (s[i].1, s.remove(i))
{
    reveal(untag);
    let j = choose|j: int| tag_at(s, tag, j);
    if i < j { assert(s[i].0 != tag); } else if j < i { assert(s[j].0 != tag); }
}
pub proof fn lemma_no_tag(s: Seq<KV>, tag: V)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != tag
    ensures untag(s, tag) == (V::S(23), s)
{ reveal(untag); if exists|i: int| tag_at(s, tag, i) { let i = choose|i: int| tag_at(s, tag, i); assert(s[i].0 == tag); } }
pub open spec fn tagged(s: Seq<KV>, tag: V, key: V) -> Seq<KV> { s.push((tag, key)) }
pub open spec fn tag_free(s: Seq<KV>, tag: V) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != tag }
proof fn lemma_norm_plain(k: V, t: V) requires plain(t), norm(k) == t ensures k == t { }
proof fn lemma_insv_tag(e: KV, s: Seq<KV>)
    requires tag_free(s, e.0)
    ensures untag(insv(e, s), e.0) == (e.1, s)
    decreases s.len()
{
    let t = insv(e, s);
    if s.len() == 0 { assert(t.remove(0) =~= s); assert(tag_at(t, e.0, 0)); lemma_first_tag(t, e.0, 0); }
    else if lex(enc(s.last().0), enc(e.0)) is Greater {
        let d = s.drop_last();
        assert(tag_free(d, e.0)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != e.0 by { assert(d[i] == s[i]); } }
        lemma_insv_tag(e, d);
        let u = insv(e, d);
        lemma_insv_has(e, d);
        reveal(untag);
        let i = choose|i: int| tag_at(u, e.0, i);
        assert(t == u.push(s.last()));
        assert(tag_at(t, e.0, i)) by { assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).0 != e.0 by { assert(t[j] == u[j]); } }
        lemma_first_tag(t, e.0, i); lemma_first_tag(u, e.0, i);
        assert(t.remove(i) =~= u.remove(i).push(s.last()));
        assert(t.remove(i) =~= s);
    } else {
        let i = s.len() as int;
        assert(tag_at(t, e.0, i)) by { assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).0 != e.0 by { assert(t[j] == s[j]); } }
        lemma_first_tag(t, e.0, i);
        assert(t.remove(i) =~= s);
    }
}
proof fn lemma_insv_has(e: KV, s: Seq<KV>)
    requires tag_free(s, e.0)
    ensures exists|i: int| tag_at(insv(e, s), e.0, i)
    decreases s.len()
{
    let t = insv(e, s);
    if s.len() == 0 { assert(tag_at(t, e.0, 0)); }
    else if lex(enc(s.last().0), enc(e.0)) is Greater {
        let d = s.drop_last();
        assert(tag_free(d, e.0)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != e.0 by { assert(d[i] == s[i]); } }
        lemma_insv_has(e, d);
        let i = choose|i: int| tag_at(insv(e, d), e.0, i);
        assert(tag_at(t, e.0, i)) by { assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).0 != e.0 by { assert(t[j] == insv(e, d)[j]); } }
    } else {
        let i = s.len() as int;
        assert(tag_at(t, e.0, i)) by { assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).0 != e.0 by { assert(t[j] == s[j]); } }
    }
}
/// Adding a tag and taking it away again.
pub proof fn lemma_tagged(s: Seq<KV>, tag: V, key: V)
    requires plain(tag), plain(key), wf(V::M(s)), !has_dup(V::M(s)), tag_free(s, tag), s.len() + 1 < two64()
    ensures
        wf(V::M(tagged(s, tag, key))), !has_dup(V::M(tagged(s, tag, key))),
        untag(tagged(s, tag, key), tag) == (key, s),
        norm(V::M(tagged(s, tag, key))) is M, norm(V::M(s)) is M,
        untag(norm(V::M(tagged(s, tag, key)))->M_0, tag) == (key, norm(V::M(s))->M_0),
{
    let t = tagged(s, tag, key);
    let n = s.len() as int;
    assert(tag_at(t, tag, n)) by { assert forall|j: int| 0 <= j < n implies (#[trigger] t[j]).0 != tag by { assert(t[j] == s[j]); } }
    lemma_first_tag(t, tag, n);
    assert(t.remove(n) =~= s);
    lemma_norm_unfold(V::M(s)); lemma_norm_unfold(V::M(t));
    assert(norm(tag) == tag && norm(key) == key);
    let ms = normm(s); let mt = normm(t);
    assert(mt =~= ms.push((tag, key)));
    assert(mt.drop_last() =~= ms);
    assert(nsort(mt) == insv((tag, key), nsort(ms)));
    lemma_nsort(ms);
    let z = nsort(ms);
    assert(tag_free(z, tag)) by {
        assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).0 != tag by {
            assert(z.contains(z[i]));
            assert(ms.contains(z[i]));
            let j = choose|j: int| 0 <= j < ms.len() && ms[j] == z[i];
            assert(ms[j].0 == norm(s[j].0));
            if z[i].0 == tag { lemma_norm_plain(s[j].0, tag); assert(s[j].0 != tag); }
        }
    }
    lemma_insv_tag((tag, key), z);
    lemma_map_parts(s);
    assert forall|i: int| 0 <= i < t.len() implies wf((#[trigger] t[i]).0) && wf(t[i].1) && !has_dup(t[i].0) && !has_dup(t[i].1) by { if i < n { assert(t[i] == s[i]); } }
    lemma_wf_all_map(t, t.len());
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies cenc((#[trigger] t[a]).0) != cenc((#[trigger] t[b]).0) by {
        assert(t[a] == s[a]);
        if b < n { assert(t[b] == s[b]); assert(!dup_keys(s)); } else {
            let k = s[a].0;
            assert(k != tag);
            lemma_norm(k); lemma_norm(tag);
            if cenc(k) == cenc(tag) { lemma_enc_inj(norm(k), norm(tag)); lemma_norm_plain(k, tag); }
        }
    }
    assert(!dup_keys(t));
}
proof fn lemma_map_parts(s: Seq<KV>)
    requires wf(V::M(s)), !has_dup(V::M(s))
    ensures forall|i: int| 0 <= i < s.len() ==> wf((#[trigger] s[i]).0) && wf(s[i].1) && !has_dup(s[i].0) && !has_dup(s[i].1)
{
    assert forall|i: int| 0 <= i < s.len() implies wf((#[trigger] s[i]).0) && wf(s[i].1) && !has_dup(s[i].0) && !has_dup(s[i].1) by { lemma_map_part(s, s.len(), i); }
}
proof fn lemma_map_part(s: Seq<KV>, n: nat, i: int)
    requires 0 <= i < n <= s.len(), wf_map(s, n), !dup_map(s, n)
    ensures wf(s[i].0), wf(s[i].1), !has_dup(s[i].0), !has_dup(s[i].1)
    decreases n
{ if i < n - 1 { lemma_map_part(s, (n - 1) as nat, i); } }
/// Entries of fields that are not the tag.
pub proof fn lemma_tag_free(l: Seq<KO>, tag: V)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 != tag
    ensures tag_free(ents(l), tag), ents(l).len() <= l.len()
{
    lemma_ents_at(l);
    let e = ents(l);
    assert forall|a: int| 0 <= a < e.len() implies (#[trigger] e[a]).0 != tag by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == e[a].0 && l[i].1 == Some(e[a].1); assert(l[i].0 != tag); }
}
pub proof fn lemma_only(v: V) ensures v is M && v->M_0.len() == 1 ==> v == V::M(one(v->M_0[0].0, v->M_0[0].1)) { if let V::M(s) = v { if s.len() == 1 { assert(s =~= one(s[0].0, s[0].1)); } } }
pub proof fn lemma_still_free(s: Seq<KV>, tag: V)
    requires plain(tag), tag_free(s, tag)
    ensures norm(V::M(s)) is M, tag_free(norm(V::M(s))->M_0, tag)
{
    lemma_norm_unfold(V::M(s));
    let ms = normm(s);
    let z = nsort(ms);
    lemma_nsort(ms);
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).0 != tag by {
        assert(z.contains(z[i]));
        assert(ms.contains(z[i]));
        let j = choose|j: int| 0 <= j < ms.len() && ms[j] == z[i];
        assert(ms[j].0 == norm(s[j].0));
        if z[i].0 == tag { lemma_norm_plain(s[j].0, tag); assert(s[j].0 != tag); }
    }
}
pub broadcast proof fn lemma_tag_found(m: Seq<(Value, Value)>, tag: V, i: int)
    requires 0 <= i < m.len(), vw(m[i].0) == tag, forall|j: int| 0 <= j < i ==> vw((#[trigger] m[j]).0) != tag
    ensures #![trigger untag(vmap(m), tag), m.remove(i)] untag(vmap(m), tag) == (vw(m[i].1), vmap(m.remove(i)))
{
    let s = vmap(m);
    assert(tag_at(s, tag, i)) by { assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]).0 != tag by { assert(vw(m[j].0) != tag); } }
    lemma_first_tag(s, tag, i);
    lemma_vmap_remove(m, i);
}
pub broadcast proof fn lemma_tag_none(m: Seq<(Value, Value)>, tag: V)
    requires forall|j: int| 0 <= j < m.len() ==> vw((#[trigger] m[j]).0) != tag
    ensures #[trigger] untag(vmap(m), tag) == (V::S(23), vmap(m))
{
    let s = vmap(m);
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 != tag by { assert(vw(m[j].0) != tag); }
    lemma_no_tag(s, tag);
}

// ------------------------------------------------------------------ C12
/// A field or an enum payload that is null, undefined or absent is the default; anything else is decoded.
pub proof fn c12_field<T: Decode>(s: Seq<KV>, k: V)
    ensures
        lookup(s, k) is None ==> d_top::<T>(or_null(lookup(s, k))) == T::d_def(),
        lookup(s, k) is Some && is_null(lookup(s, k)->Some_0) ==> d_top::<T>(or_null(lookup(s, k))) == T::d_def(),
        lookup(s, k) is Some && !is_null(lookup(s, k)->Some_0) ==> d_top::<T>(or_null(lookup(s, k))) == T::d_from(lookup(s, k)->Some_0),
{}
