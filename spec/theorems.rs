// The properties as functions over the real entry points, proved from their contracts alone.
use crate::spec::*;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor_value::reader::{read, read_nested, read_nested_non_strict, DecoderError};
use crate::oasis_cbor_value::writer::{write, write_nested, EncoderError};
use std::cmp::Ordering;

// ------------------------------------------------------------------ C01

/// What strict decoding accepts is canonical, and is what encoding the value gives.
pub fn c01_reencode(b: &[u8], nest: Option<i8>) {
    if let Ok(v) = read_nested(b, nest) {
        let ghost x = vw(v);
        proof { lemma_dec_sound(b@, lim(nest), true); lemma_canon_norm(x); lemma_noteq(); assert(Seq::<u8>::empty() + cenc(x) =~= cenc(x)); assert(enc(x) + Seq::<u8>::empty() =~= enc(x)); }
        let mut out = Vec::new();
        let r = write_nested(v, &mut out, nest);
        assert(r is Ok);
        assert(out@ =~= b@);
        assert(canon(x) && b@ == enc(x));
    }
}
/// No two byte strings decode to the same value.
pub fn c01_unique(a: &[u8], b: &[u8], n: Option<i8>, m: Option<i8>) {
    let x = read_nested(a, n);
    let y = read_nested(b, m);
    proof { lemma_dec_sound(a@, lim(n), true); lemma_dec_sound(b@, lim(m), true); lemma_noteq(); }
    assert(x is Ok && y is Ok && vw(x->Ok_0) == vw(y->Ok_0) ==> a@ =~= b@);
}
pub proof fn lemma_noteq() ensures forall|s: Seq<u8>, r: Seq<u8>| r.len() == 0 ==> #[trigger] (s + r) == s {
    assert forall|s: Seq<u8>, r: Seq<u8>| r.len() == 0 implies #[trigger] (s + r) == s by { assert(s + r =~= s); }
}

// ------------------------------------------------------------------ C02, C03, C06

/// What was written reads back as the normal form; a canonical value comes back as it was.
pub fn c02_roundtrip(v: Value, nest: Option<i8>)
    requires wf(vw(v))
{
    let ghost x = vw(v);
    let mut out = Vec::new();
    let r = write_nested(v, &mut out, nest);
    proof { assert(Seq::<u8>::empty() + cenc(x) =~= cenc(x)); lemma_noteq(); }
    if r.is_ok() {
        proof {
            assert(out@ == cenc(x));
            lemma_norm(x);
            let none = Seq::<u8>::empty();
            lemma_dec_enc(norm(x), none, lim(nest), true);
            assert(enc(norm(x)) + none =~= cenc(x));
        }
        let w = read_nested(out.as_slice(), nest);
        assert(w is Ok);
        assert(vw(w->Ok_0) == norm(x));
        assert(canon(x) ==> vw(w->Ok_0) == x) by { if canon(x) { lemma_canon_norm(x); } }
    }
}
/// Encoding succeeds exactly when no map repeats a key and the nesting fits; the output is canonical.
pub fn c03_canonical(v: Value, nest: Option<i8>)
    requires wf(vw(v))
{
    let ghost x = vw(v);
    let mut out = Vec::new();
    let r = write_nested(v, &mut out, nest);
    proof { assert(Seq::<u8>::empty() + cenc(x) =~= cenc(x)); if !has_dup(x) { lemma_norm(x); } }
    assert(r is Ok <==> (!has_dup(x) && within(x, lim(nest))));
    assert(r is Ok ==> out@ == enc(norm(x)) && canon(norm(x)));
    assert(within(x, lim(nest)) && has_dup(x) ==> r == Result::<(), EncoderError>::Err(EncoderError::DuplicateMapKey));
}
/// Maps with the same entries in another order encode to the same bytes.
pub fn c03_entry_order(v: Value, w: Value, nest: Option<i8>, Ghost(p): Ghost<Seq<int>>, Ghost(q): Ghost<Seq<int>>)
    requires
        wf(vw(v)), wf(vw(w)), vw(v) is M, vw(w) is M, vw(v)->M_0.len() == vw(w)->M_0.len(),
        perm(p, q, vw(v)->M_0.len()), forall|i: int| 0 <= i < vw(v)->M_0.len() ==> #[trigger] vw(w)->M_0[i] == vw(v)->M_0[p[i]],
{
    let ghost m = vw(v)->M_0;
    let ghost k = vw(w)->M_0;
    let mut a = Vec::new();
    let x = write_nested(v, &mut a, nest);
    let mut b = Vec::new();
    let y = write_nested(w, &mut b, nest);
    proof {
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == k[q[i]] by { assert(p[q[i]] == i); assert(k[q[i]] == m[p[q[i]]]); }
        assert(perm(q, p, m.len()));
        if !has_dup(V::M(m)) { lemma_entry_order(m, k, p, q); }
        if !has_dup(V::M(k)) { lemma_entry_order(k, m, q, p); }
        lemma_depth_perm(m, k, p, q);
        assert(Seq::<u8>::empty() + cenc(vw(v)) =~= cenc(vw(v)));
        assert(Seq::<u8>::empty() + cenc(vw(w)) =~= cenc(vw(w)));
    }
    assert(x is Ok == y is Ok);
    assert(x is Ok ==> a@ == b@);
}
/// Decoding refuses for nesting exactly what is too deep.
pub fn c06_decode(b: &[u8], n: i8) {
    let free = read_nested(b, None);
    let r = read_nested(b, Some(n));
    proof { lemma_dec_limit(b@, n as int, true); let none: Option<int> = None; assert(lim(None) == none); lemma_dec_limit(b@, 0, true); }
    assert(free is Ok && depth(vw(free->Ok_0)) <= n ==> r is Ok && vw(r->Ok_0) == vw(free->Ok_0));
    assert(free is Ok && depth(vw(free->Ok_0)) > n ==> r is Err && r->Err_0 is TooMuchNesting);
    assert(free is Err ==> !(free->Err_0 is TooMuchNesting));
}
/// Default limits.
pub fn c06_default(b: &[u8], v: Value)
    requires wf(vw(v))
{
    let x = read(b);
    let y = read_nested(b, Some(127));
    assert(rv(x) == rv(y));
    let ghost z = vw(v);
    let mut out = Vec::new();
    let r = write(v, &mut out);
    assert(r is Ok ==> depth(z) <= 127);
    assert(r is Err && r->Err_0 is TooMuchNesting ==> depth(z) > 127);
}

// ------------------------------------------------------------------ C07

pub fn c07_extends(b: &[u8], n: Option<i8>) {
    let s = read_nested(b, n);
    let l = read_nested_non_strict(b, n);
    proof { lemma_dec_lenient(b@, lim(n)); }
    assert(s is Ok ==> l is Ok && vw(l->Ok_0) == vw(s->Ok_0));
    assert(s is Err && !strict_only(s->Err_0) && !(s->Err_0 is ExtraneousData) ==> l is Err && l->Err_0 == s->Err_0);
    assert(l is Err ==> !strict_only(l->Err_0));
}

// ------------------------------------------------------------------ C08

pub fn c08_total(a: &Value, b: &Value, c: &Value) {
    let x = a.cmp(b);
    let y = b.cmp(a);
    let e = a == b;
    let p = a.partial_cmp(b);
    let z = b.cmp(c);
    let w = a.cmp(c);
    proof { lemma_ord_refl(vw(*a)); if ord(vw(*a), vw(*b)) is Equal { lemma_ord_eq(vw(*a), vw(*b)); } lemma_ord_rev(vw(*a), vw(*b)); lemma_ord_chains(vw(*a), vw(*b), vw(*c)); if vw(*a) == vw(*b) { lemma_ord_refl(vw(*a)); } }
    assert(y == rev(x));
    assert(e == (x is Equal));
    assert(e <==> vw(*a) == vw(*b));
    assert(p == Some(x));
    assert(x is Less && z is Less ==> w is Less);
    assert(x is Equal ==> w == z);
}
/// Among canonical values it is the order of the encodings.
pub fn c08_bytes(a: Value, b: Value)
    requires wf(vw(a)), wf(vw(b)), canon(vw(a)), canon(vw(b)), depth(vw(a)) <= 127, depth(vw(b)) <= 127,
{
    let ghost x = vw(a); let ghost y = vw(b);
    let o = a.cmp(&b);
    let mut p = Vec::new();
    let r = write(a, &mut p);
    let mut q = Vec::new();
    let s = write(b, &mut q);
    proof { lemma_ord_is_lex(x, y); lemma_canon_norm(x); lemma_canon_norm(y); assert(Seq::<u8>::empty() + cenc(x) =~= cenc(x)); assert(Seq::<u8>::empty() + cenc(y) =~= cenc(y)); }
    assert(r is Ok && s is Ok);
    assert(o == lex(p@, q@));
}

// ------------------------------------------------------------------ C05

/// Every canonical encoding is accepted.
pub fn c05_complete(b: &[u8], n: Option<i8>, Ghost(v): Ghost<V>)
    requires wf(v), canon(v), within(v, lim(n)), b@ == enc(v)
{
    let r = read_nested(b, n);
    proof { lemma_dec_enc(v, Seq::<u8>::empty(), lim(n), true); assert(enc(v) + Seq::<u8>::empty() =~= enc(v)); }
    assert(r is Ok && vw(r->Ok_0) == v);
}
/// Bytes after a complete item are refused as such.
pub fn c05_trailing(b: &[u8], n: Option<i8>, Ghost(v): Ghost<V>, Ghost(x): Ghost<Seq<u8>>)
    requires wf(v), canon(v), within(v, lim(n)), b@ == enc(v) + x, x.len() > 0
{
    let r = read_nested(b, n);
    proof { lemma_dec_enc(v, x, lim(n), true); }
    assert(r is Err && r->Err_0 is ExtraneousData);
}
