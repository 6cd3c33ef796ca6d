use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Lemmas over the model. Every one is proved; nothing here is assumed.

pub open spec fn p256(k: nat) -> int
    decreases k
{
    if k == 0 { 1 } else { p256((k - 1) as nat) * 256 }
}

pub proof fn lemma_p256()
    ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(3) == 0x100_0000, p256(4) == 0x1_0000_0000,
        p256(5) == 0x100_0000_0000, p256(6) == 0x1_0000_0000_0000, p256(7) == 0x100_0000_0000_0000, p256(8) == two64(),
{
    reveal_with_fuel(p256, 9);
}

pub broadcast proof fn lemma_be_len(n: int, k: nat)
    ensures (#[trigger] be(n, k)).len() == k
    decreases k
{
    if k > 0 { lemma_be_len(n / 256, (k - 1) as nat); }
}

pub proof fn lemma_be_val_be(n: int, k: nat)
    requires 0 <= n < p256(k)
    ensures be_val(be(n, k)) == n
    decreases k
{
    lemma_be_len(n, k);
    if k > 0 {
        assert(0 <= n / 256 < p256((k - 1) as nat)) by (nonlinear_arith) requires 0 <= n < p256((k - 1) as nat) * 256;
        lemma_be_val_be(n / 256, (k - 1) as nat);
        assert(be(n, k).drop_last() =~= be(n / 256, (k - 1) as nat));
    }
}

pub proof fn lemma_be_val_bound(b: Seq<u8>)
    ensures 0 <= be_val(b) < p256(b.len())
    decreases b.len()
{
    if b.len() > 0 { lemma_be_val_bound(b.drop_last()); }
}

pub proof fn lemma_be_be_val(b: Seq<u8>)
    ensures be(be_val(b), b.len()) =~= b
    decreases b.len()
{
    if b.len() > 0 {
        lemma_be_be_val(b.drop_last());
        lemma_be_val_bound(b.drop_last());
        let n = be_val(b);
        assert(n / 256 == be_val(b.drop_last()) && n % 256 == b.last() as int);
        assert(b.drop_last().push(b.last()) =~= b);
    }
}

// ------------------------------------------------------------------ heads

pub proof fn lemma_head_props(m: int, n: int)
    requires 0 <= m < 8, 0 <= n < two64()
    ensures
        head(m, n).len() == 1 + ai_bytes(head_ai(n)),
        head(m, n)[0] as int == m * 32 + head_ai(n),
        head(m, n)[0] as int / 32 == m,
        head(m, n)[0] as int % 32 == head_ai(n),
        head(m, n).drop_first() =~= be(n, ai_bytes(head_ai(n))),
        0 <= head_ai(n) < 28,
        head_ai(n) >= 24 ==> n < p256(ai_bytes(head_ai(n))),
{
    lemma_p256();
    lemma_be_len(n, ai_bytes(head_ai(n)));
}

/// Reading back a head that was just written.
pub proof fn lemma_dec_arg_head(m: int, n: int, rest: Seq<u8>, strict: bool)
    requires 0 <= m < 8, 0 <= n < two64()
    ensures ({
        let b = head(m, n) + rest;
        &&& b.len() > rest.len()
        &&& b[0] as int / 32 == m
        &&& b[0] as int % 32 == head_ai(n)
        &&& dec_arg(head_ai(n), b.drop_first(), strict) == Ok::<(int, Seq<u8>), DecoderError>((n, rest))
    })
{
    lemma_head_props(m, n);
    let b = head(m, n) + rest;
    let k = ai_bytes(head_ai(n));
    assert(b.drop_first() =~= be(n, k) + rest);
    assert(b[0] == head(m, n)[0]);
    if head_ai(n) >= 24 {
        assert(b.drop_first().subrange(0, k as int) =~= be(n, k));
        assert(b.drop_first().subrange(k as int, b.drop_first().len() as int) =~= rest);
        lemma_be_val_be(n, k);
    } else {
        assert(b.drop_first() =~= rest);
    }
}

/// What a strictly accepted head looks like.
pub proof fn lemma_dec_arg_sound(b: Seq<u8>, strict: bool)
    requires b.len() > 0, dec_arg(b[0] as int % 32, b.drop_first(), strict) is Ok
    ensures ({
        let (n, r) = dec_arg(b[0] as int % 32, b.drop_first(), strict)->Ok_0;
        &&& 0 <= n < two64()
        &&& r.len() < b.len()
        &&& 0 <= b[0] as int / 32 < 8
        &&& r =~= b.subrange(b.len() - r.len(), b.len() as int)
        &&& strict ==> head_ai(n) == b[0] as int % 32 && b =~= head(b[0] as int / 32, n) + r
    })
{
    let ai = b[0] as int % 32;
    let (n, r) = dec_arg(ai, b.drop_first(), strict)->Ok_0;
    lemma_p256();
    if ai < 24 {
        assert(b =~= seq![b[0]] + r);
        if strict { assert(head(b[0] as int / 32, n) =~= seq![b[0]]); }
    } else {
        let k = ai_bytes(ai);
        let s = b.drop_first().subrange(0, k as int);
        lemma_be_val_bound(s);
        lemma_be_be_val(s);
        if strict {
            assert(b =~= seq![b[0]] + s + r);
            assert(head(b[0] as int / 32, n) =~= seq![b[0]] + s);
        }
    }
}

// ------------------------------------------------------------------ depth of prefixes

pub proof fn lemma_depth_arr_mono(a: Seq<V>, i: nat, n: nat)
    requires i <= n <= a.len()
    ensures depth_arr(a, i) <= depth_arr(a, n)
    decreases n
{
    if i < n { lemma_depth_arr_mono(a, i, (n - 1) as nat); }
}

pub proof fn lemma_depth_map_mono(m: Seq<(V, V)>, i: nat, n: nat)
    requires i <= n <= m.len()
    ensures depth_map(m, i) <= depth_map(m, n)
    decreases n
{
    if i < n { lemma_depth_map_mono(m, i, (n - 1) as nat); }
}

/// Within a limit that children see, i.e. one less than the container's.
pub open spec fn fits(d: nat, limit: Option<int>) -> bool {
    match limit { None => true, Some(n) => d <= n + 1 }
}

// Prefix functions only look at the prefix.

pub open spec fn agree<T>(a: Seq<T>, b: Seq<T>, n: nat) -> bool {
    n <= a.len() && n <= b.len() && forall|i: int| 0 <= i < n ==> a[i] == b[i]
}

pub proof fn lemma_arr_prefix(a: Seq<V>, b: Seq<V>, n: nat)
    requires agree(a, b, n)
    ensures enc_arr(a, n) == enc_arr(b, n), wf_arr(a, n) == wf_arr(b, n), canon_arr(a, n) == canon_arr(b, n),
        depth_arr(a, n) == depth_arr(b, n), dup_arr(a, n) == dup_arr(b, n), cenc_arr(a, n) == cenc_arr(b, n),
    decreases n
{
    if n > 0 { lemma_arr_prefix(a, b, (n - 1) as nat); }
}

pub proof fn lemma_map_prefix(a: Seq<(V, V)>, b: Seq<(V, V)>, n: nat)
    requires agree(a, b, n)
    ensures enc_map(a, n) == enc_map(b, n), wf_map(a, n) == wf_map(b, n), canon_map(a, n) == canon_map(b, n),
        depth_map(a, n) == depth_map(b, n), dup_map(a, n) == dup_map(b, n),
    decreases n
{
    if n > 0 { lemma_map_prefix(a, b, (n - 1) as nat); }
}

// ------------------------------------------------------------------ decoding is sound

/// r is what is left of b after a prefix.
pub open spec fn suffix(r: Seq<u8>, b: Seq<u8>) -> bool {
    r.len() <= b.len() && r == b.subrange(b.len() - r.len(), b.len() as int)
}

pub proof fn lemma_suffix_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires suffix(a, b), suffix(b, c)
    ensures suffix(a, c)
{
    assert(a =~= c.subrange(c.len() - a.len(), c.len() as int));
}

/// All that decoding promises about an accepted item.
pub open spec fn dec_post(b: Seq<u8>, limit: Option<int>, strict: bool, v: V, r: Seq<u8>) -> bool {
    &&& r.len() < b.len()
    &&& suffix(r, b)
    &&& wf(v)
    &&& within(v, limit)
    &&& strict ==> canon(v) && b == enc(v) + r
}

#[verifier::spinoff_prover]
pub proof fn lemma_dec_sound(b: Seq<u8>, limit: Option<int>, strict: bool)
    ensures dec(b, limit, strict) is Ok ==> dec_post(b, limit, strict, dec(b, limit, strict)->Ok_0.0, dec(b, limit, strict)->Ok_0.1)
    decreases b.len(), 0nat
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    if dec(b, limit, strict) is Ok {
        let (v, rr) = dec(b, limit, strict)->Ok_0;
        let mt = b[0] as int / 32;
        let ai = b[0] as int % 32;
        lemma_dec_arg_sound(b, strict);
        let (n, r) = dec_arg(ai, b.drop_first(), strict)->Ok_0;
        assert(suffix(r, b));
        if mt == 2 || mt == 3 {
            let s = r.subrange(0, n);
            assert(r =~= s + rr);
            assert(rr =~= b.subrange(b.len() - rr.len(), b.len() as int));
            if strict { assert(b =~= (head(mt, n) + s) + rr); }
            assert(dec_post(b, limit, strict, v, rr));
        } else if mt == 4 {
            lemma_dec_arr_sound(r, n as nat, down(limit), strict);
            let (a, r2) = dec_arr(r, n as nat, down(limit), strict)->Ok_0;
            lemma_suffix_trans(r2, r, b);
            if strict { assert(b =~= (head(4, n) + enc_arr(a, a.len())) + r2); }
            assert(dec_post(b, limit, strict, v, rr));
        } else if mt == 5 {
            lemma_dec_map_sound(r, n as nat, down(limit), strict);
            let (m, r2) = dec_map(r, n as nat, down(limit), strict)->Ok_0;
            lemma_suffix_trans(r2, r, b);
            if strict { assert(b =~= (head(5, n) + enc_map(m, m.len())) + r2); }
            assert(dec_post(b, limit, strict, v, rr));
        } else if mt == 6 {
            lemma_dec_sound(r, down(limit), strict);
            let (x, r2) = dec(r, down(limit), strict)->Ok_0;
            lemma_suffix_trans(r2, r, b);
            if strict { assert(b =~= (head(6, n) + enc(x)) + r2); }
            assert(dec_post(b, limit, strict, v, rr));
        } else if mt == 0 {
            assert(v == V::U(n));
            assert(enc(v) == head(0, n));
            assert(dec_post(b, limit, strict, v, rr));
        } else if mt == 1 {
            assert(v == V::N(-1 - n));
            assert(enc(v) == head(1, n));
            assert(dec_post(b, limit, strict, v, rr));
        } else if strict {
            assert(v == V::S(n));
            assert(enc(v) == head(7, n));
            assert(dec_post(b, limit, strict, v, rr));
        } else {
            assert(v is S);
            assert(dec_post(b, limit, strict, v, rr));
        }
    }
}

pub proof fn lemma_dec_arr_sound(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool)
    ensures dec_arr(b, n, limit, strict) is Ok ==> ({
        let (a, r) = dec_arr(b, n, limit, strict)->Ok_0;
        &&& suffix(r, b)
        &&& a.len() == n
        &&& wf_arr(a, n)
        &&& fits(depth_arr(a, n), limit) || n == 0
        &&& strict ==> canon_arr(a, n) && b == enc_arr(a, n) + r
    })
    decreases b.len(), n + 1
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    if dec_arr(b, n, limit, strict) is Ok {
        if n == 0 {
            assert(b =~= b.subrange(0, b.len() as int));
            assert(b =~= Seq::<u8>::empty() + b);
        } else {
            lemma_dec_arr_sound(b, (n - 1) as nat, limit, strict);
            let (a, r) = dec_arr(b, (n - 1) as nat, limit, strict)->Ok_0;
            lemma_dec_sound(r, limit, strict);
            let (v, r2) = dec(r, limit, strict)->Ok_0;
            lemma_suffix_trans(r2, r, b);
            let a2 = a.push(v);
            lemma_arr_prefix(a, a2, (n - 1) as nat);
            if strict { assert(b =~= enc_arr(a2, n) + r2); }
        }
    }
}

pub proof fn lemma_dec_map_sound(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool)
    ensures dec_map(b, n, limit, strict) is Ok ==> ({
        let (m, r) = dec_map(b, n, limit, strict)->Ok_0;
        &&& suffix(r, b)
        &&& m.len() == n
        &&& wf_map(m, n)
        &&& fits(depth_map(m, n), limit) || n == 0
        &&& strict ==> canon_map(m, n) && b == enc_map(m, n) + r
    })
    decreases b.len(), n + 1
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    if dec_map(b, n, limit, strict) is Ok {
        if n == 0 {
            assert(b =~= b.subrange(0, b.len() as int));
            assert(b =~= Seq::<u8>::empty() + b);
        } else {
            lemma_dec_map_sound(b, (n - 1) as nat, limit, strict);
            let (m, r) = dec_map(b, (n - 1) as nat, limit, strict)->Ok_0;
            lemma_dec_sound(r, limit, strict);
            let (k, r2) = dec(r, limit, strict)->Ok_0;
            lemma_dec_sound(r2, limit, strict);
            let (v, r3) = dec(r2, limit, strict)->Ok_0;
            lemma_suffix_trans(r2, r, b);
            lemma_suffix_trans(r3, r2, b);
            let m2 = m.push((k, v));
            lemma_map_prefix(m, m2, (n - 1) as nat);
            if strict { assert(b =~= enc_map(m2, n) + r3); }
        }
    }
}

// ------------------------------------------------------------------ decoding is complete on encodings

/// Strictly (and leniently) decoding the encoding of a canonical item gives it back.
#[verifier::rlimit(60)]
pub proof fn lemma_dec_enc(v: V, rest: Seq<u8>, limit: Option<int>, strict: bool)
    requires wf(v), strict ==> canon(v), within(v, limit)
    ensures dec(enc(v) + rest, limit, strict) == Ok::<(V, Seq<u8>), DecoderError>((v, rest))
    decreases v
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    let b = enc(v) + rest;
    match v {
        V::U(n) => { lemma_dec_arg_head(0, n, rest, strict); }
        V::N(n) => { lemma_dec_arg_head(1, -1 - n, rest, strict); }
        V::B(s) => {
            let n = s.len() as int;
            lemma_dec_arg_head(2, n, s + rest, strict);
            assert(b =~= head(2, n) + (s + rest));
            assert((s + rest).subrange(0, n) =~= s);
            assert((s + rest).subrange(n, (s + rest).len() as int) =~= rest);
        }
        V::T(s) => {
            let n = s.len() as int;
            lemma_dec_arg_head(3, n, s + rest, strict);
            assert(b =~= head(3, n) + (s + rest));
            assert((s + rest).subrange(0, n) =~= s);
            assert((s + rest).subrange(n, (s + rest).len() as int) =~= rest);
        }
        V::A(a) => {
            let n = a.len() as int;
            let r = enc_arr(a, a.len()) + rest;
            lemma_dec_arg_head(4, n, r, strict);
            assert(b =~= head(4, n) + r);
            lemma_dec_enc_arr(a, a.len(), rest, down(limit), strict);
            assert(a.subrange(0, n) =~= a);
        }
        V::M(m) => {
            let n = m.len() as int;
            let r = enc_map(m, m.len()) + rest;
            lemma_dec_arg_head(5, n, r, strict);
            assert(b =~= head(5, n) + r);
            lemma_dec_enc_map(m, m.len(), rest, down(limit), strict);
            assert(m.subrange(0, n) =~= m);
        }
        V::Tag(t, x) => {
            lemma_dec_arg_head(6, t, enc(*x) + rest, strict);
            assert(b =~= head(6, t) + (enc(*x) + rest));
            lemma_dec_enc(*x, rest, down(limit), strict);
        }
        V::S(n) => { lemma_dec_arg_head(7, n, rest, strict); }
    }
}

pub proof fn lemma_dec_enc_arr(a: Seq<V>, n: nat, rest: Seq<u8>, limit: Option<int>, strict: bool)
    requires n <= a.len(), wf_arr(a, n), strict ==> canon_arr(a, n), n > 0 ==> fits(depth_arr(a, n), limit)
    ensures dec_arr(enc_arr(a, n) + rest, n, limit, strict) == Ok::<(Seq<V>, Seq<u8>), DecoderError>((a.subrange(0, n as int), rest))
    decreases a, n
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    if n == 0 {
        assert(enc_arr(a, n) + rest =~= rest);
        assert(a.subrange(0, 0) =~= Seq::empty());
    } else {
        let e = enc(a[n - 1]);
        assert(enc_arr(a, n) + rest =~= enc_arr(a, (n - 1) as nat) + (e + rest));
        lemma_dec_enc_arr(a, (n - 1) as nat, e + rest, limit, strict);
        lemma_dec_enc(a[n - 1], rest, limit, strict);
        assert(a.subrange(0, n - 1).push(a[n - 1]) =~= a.subrange(0, n as int));
    }
}

pub proof fn lemma_dec_enc_map(m: Seq<(V, V)>, n: nat, rest: Seq<u8>, limit: Option<int>, strict: bool)
    requires n <= m.len(), wf_map(m, n), strict ==> canon_map(m, n), n > 0 ==> fits(depth_map(m, n), limit)
    ensures dec_map(enc_map(m, n) + rest, n, limit, strict) == Ok::<(Seq<(V, V)>, Seq<u8>), DecoderError>((m.subrange(0, n as int), rest))
    decreases m, n
{
    hide(head);
    hide(dec_arg);
    hide(be);
    hide(be_val);
    hide(ord);
    hide(lex);
    if n == 0 {
        assert(enc_map(m, n) + rest =~= rest);
        assert(m.subrange(0, 0) =~= Seq::empty());
    } else {
        let k = enc(m[n - 1].0);
        let e = enc(m[n - 1].1);
        assert(enc_map(m, n) + rest =~= enc_map(m, (n - 1) as nat) + (k + (e + rest)));
        lemma_dec_enc_map(m, (n - 1) as nat, k + (e + rest), limit, strict);
        lemma_dec_enc(m[n - 1].0, e + rest, limit, strict);
        lemma_dec_enc(m[n - 1].1, rest, limit, strict);
        assert((k + (e + rest)).len() >= (e + rest).len());
        let p = m.subrange(0, n - 1);
        assert(p.push(m[n - 1]) =~= m.subrange(0, n as int));
    }
}
