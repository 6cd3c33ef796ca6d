use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Taking entries from the front of a decoded map.

/// How many entries come before the first whose key is not below k.
pub open spec fn pv_skip(s: Seq<(V, V)>, k: V) -> nat
    decreases s.len()
{
    if s.len() == 0 || !(ord(s[0].0, k) is Less) { 0 } else { 1 + pv_skip(s.drop_first(), k) }
}
/// Extraction of the entry with key k from a sorted rest of a map that skips lower keys: what is found and what is left.
pub open spec fn pv_take(s: Seq<(V, V)>, k: V) -> (Option<V>, Seq<(V, V)>) {
    let n = pv_skip(s, k) as int;
    if n < s.len() && ord(s[n].0, k) is Equal { (Some(s[n].1), s.skip(n + 1)) } else { (None, s.skip(n)) }
}
/// The same that refuses lower keys.
pub open spec fn pv_strict(s: Seq<(V, V)>, k: V) -> Result<(Option<V>, Seq<(V, V)>), ()> {
    if s.len() == 0 { Ok((None, s)) } else {
        match ord(s[0].0, k) { Ordering::Less => Err(()), Ordering::Equal => Ok((Some(s[0].1), s.drop_first())), Ordering::Greater => Ok((None, s)) }
    }
}
pub proof fn lemma_pv_skip(s: Seq<(V, V)>, k: V)
    ensures
        pv_skip(s, k) <= s.len(),
        forall|i: int| 0 <= i < pv_skip(s, k) ==> ord((#[trigger] s[i]).0, k) is Less,
        pv_skip(s, k) < s.len() ==> !(ord(s[pv_skip(s, k) as int].0, k) is Less),
    decreases s.len()
{
    if s.len() > 0 && ord(s[0].0, k) is Less {
        lemma_pv_skip(s.drop_first(), k);
        assert forall|i: int| 0 <= i < pv_skip(s, k) implies ord((#[trigger] s[i]).0, k) is Less by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
    }
}
pub open spec fn ov(o: Option<Value>) -> Option<V> { match o { Some(v) => Some(vw(v)), None => None } }
pub proof fn lemma_vmap_drop(s: Seq<(Value, Value)>)
    requires s.len() > 0
    ensures vmap(s).drop_first() == vmap(s.drop_first()), vmap(s)[0] == (vw(s[0].0), vw(s[0].1)), vmap(s).skip(0) == vmap(s), vmap(s).skip(1) == vmap(s).drop_first(),
        forall|n: int| 0 <= n < s.len() ==> #[trigger] vmap(s).drop_first().skip(n) == vmap(s).skip(n + 1)
{
    assert(vmap(s).drop_first() =~= vmap(s.drop_first()));
    assert(vmap(s).skip(0) =~= vmap(s));
    assert(vmap(s).skip(1) =~= vmap(s).drop_first());
    assert forall|n: int| 0 <= n < s.len() implies #[trigger] vmap(s).drop_first().skip(n) == vmap(s).skip(n + 1) by { assert(vmap(s).drop_first().skip(n) =~= vmap(s).skip(n + 1)); }
}
/// One entry skipped.
pub proof fn lemma_pv_step(s: Seq<(V, V)>, k: V)
    requires s.len() > 0
    ensures
        ord(s[0].0, k) is Less ==> pv_take(s, k) == pv_take(s.drop_first(), k),
        !(ord(s[0].0, k) is Less) ==> pv_take(s, k) == (if ord(s[0].0, k) is Equal { (Some(s[0].1), s.drop_first()) } else { (None, s) })
{
    let d = s.drop_first();
    assert(s.skip(0) =~= s);
    assert(s.skip(1) =~= d);
    let n = pv_skip(d, k) as int;
    lemma_pv_skip(d, k);
    assert(d.skip(n) =~= s.skip(n + 1));
    if n < d.len() { assert(d[n] == s[n + 1]); assert(d.skip(n + 1) =~= s.skip(n + 2)); }
}
