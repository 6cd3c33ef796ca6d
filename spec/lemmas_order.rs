use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Order laws: lexicographic order of bytes, order of items, and how they agree.

pub proof fn lemma_lex_refl(a: Seq<u8>)
    ensures lex(a, a) is Equal
    decreases a.len()
{
    if a.len() > 0 { lemma_lex_refl(a.drop_first()); }
}

pub proof fn lemma_lex_eq(a: Seq<u8>, b: Seq<u8>)
    requires lex(a, b) is Equal
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_eq(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
    assert(a =~= b);
}

pub proof fn lemma_lex_rev(a: Seq<u8>, b: Seq<u8>)
    ensures lex(b, a) == rev(lex(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_lex_rev(a.drop_first(), b.drop_first()); }
}

pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires !(lex(a, b) is Greater), !(lex(b, c) is Greater)
    ensures !(lex(a, c) is Greater), (lex(a, b) is Less || lex(b, c) is Less) ==> lex(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first());
    }
}

/// Equal-length prefixes are compared first.
pub proof fn lemma_lex_same_len(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>, t: Seq<u8>)
    requires a.len() == b.len()
    ensures lex(a + s, b + t) == then(lex(a, b), lex(s, t))
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + s =~= s);
        assert(b + t =~= t);
    } else {
        assert((a + s).drop_first() =~= a.drop_first() + s);
        assert((b + t).drop_first() =~= b.drop_first() + t);
        assert((a + s)[0] == a[0] && (b + t)[0] == b[0]);
        lemma_lex_same_len(a.drop_first(), b.drop_first(), s, t);
    }
}

pub proof fn lemma_lex_single(x: u8, y: u8)
    ensures lex(seq![x], seq![y]) == int_ord(x as int, y as int)
{
    assert(seq![x].drop_first() =~= Seq::<u8>::empty());
    assert(seq![y].drop_first() =~= Seq::<u8>::empty());
    reveal_with_fuel(lex, 2);
}

/// Big-endian strings of the same width compare as numbers.
pub proof fn lemma_be_lex(x: int, y: int, k: nat)
    requires 0 <= x < p256(k), 0 <= y < p256(k)
    ensures lex(be(x, k), be(y, k)) == int_ord(x, y)
    decreases k
{
    if k == 0 {
        lemma_lex_refl(be(x, k));
    } else {
        assert(0 <= x / 256 < p256((k - 1) as nat)) by (nonlinear_arith) requires 0 <= x < p256((k - 1) as nat) * 256;
        assert(0 <= y / 256 < p256((k - 1) as nat)) by (nonlinear_arith) requires 0 <= y < p256((k - 1) as nat) * 256;
        lemma_be_lex(x / 256, y / 256, (k - 1) as nat);
        lemma_be_len(x / 256, (k - 1) as nat);
        lemma_be_len(y / 256, (k - 1) as nat);
        let a = be(x / 256, (k - 1) as nat);
        let b = be(y / 256, (k - 1) as nat);
        assert(be(x, k) =~= a + seq![(x % 256) as u8]);
        assert(be(y, k) =~= b + seq![(y % 256) as u8]);
        lemma_lex_same_len(a, b, seq![(x % 256) as u8], seq![(y % 256) as u8]);
        lemma_lex_single((x % 256) as u8, (y % 256) as u8);
    }
}

/// Heads compare by major type, then argument.
pub proof fn lemma_head_lex(m1: int, n1: int, s: Seq<u8>, m2: int, n2: int, t: Seq<u8>)
    requires 0 <= m1 < 8, 0 <= m2 < 8, 0 <= n1 < two64(), 0 <= n2 < two64()
    ensures lex(head(m1, n1) + s, head(m2, n2) + t) == then(int_ord(m1, m2), then(int_ord(n1, n2), lex(s, t)))
{
    lemma_head_props(m1, n1);
    lemma_head_props(m2, n2);
    let a = head(m1, n1) + s;
    let b = head(m2, n2) + t;
    assert(a[0] == head(m1, n1)[0] && b[0] == head(m2, n2)[0]);
    if m1 == m2 && head_ai(n1) == head_ai(n2) {
        let k = ai_bytes(head_ai(n1));
        lemma_lex_same_len(head(m1, n1), head(m2, n2), s, t);
        let x = seq![(m1 * 32 + head_ai(n1)) as u8];
        lemma_be_len(n1, k);
        lemma_be_len(n2, k);
        lemma_lex_same_len(x, x, be(n1, k), be(n2, k));
        lemma_lex_refl(x);
        if k > 0 { lemma_be_lex(n1, n2, k); } else { lemma_lex_refl(be(n1, k)); assert(be(n1, k) =~= be(n2, k)); }
    }
}

// ------------------------------------------------------------------ the order on items

pub proof fn lemma_ord_refl(a: V)
    ensures ord(a, a) is Equal
    decreases a
{
    match a {
        V::B(x) => { lemma_lex_refl(x); }
        V::T(x) => { lemma_lex_refl(x); }
        V::A(x) => { lemma_ord_arr_refl(x, x.len()); }
        V::M(x) => { lemma_ord_map_refl(x, x.len()); }
        V::Tag(t, x) => { lemma_ord_refl(*x); }
        _ => {}
    }
}

pub proof fn lemma_ord_arr_refl(a: Seq<V>, n: nat)
    ensures ord_arr(a, a, n) is Equal
    decreases a, n
{
    if n > 0 && n <= a.len() { lemma_ord_arr_refl(a, (n - 1) as nat); lemma_ord_refl(a[n - 1]); }
}

pub proof fn lemma_ord_map_refl(a: Seq<(V, V)>, n: nat)
    ensures ord_map(a, a, n) is Equal
    decreases a, n
{
    if n > 0 && n <= a.len() { lemma_ord_map_refl(a, (n - 1) as nat); lemma_ord_refl(a[n - 1].0); lemma_ord_refl(a[n - 1].1); }
}

pub proof fn lemma_ord_eq(a: V, b: V)
    requires ord(a, b) is Equal
    ensures a == b
    decreases a
{
    match (a, b) {
        (V::B(x), V::B(y)) => { lemma_lex_eq(x, y); }
        (V::T(x), V::T(y)) => { lemma_lex_eq(x, y); }
        (V::A(x), V::A(y)) => { lemma_ord_arr_eq(x, y, x.len()); assert(x =~= y); }
        (V::M(x), V::M(y)) => { lemma_ord_map_eq(x, y, x.len()); assert(x =~= y); }
        (V::Tag(s, x), V::Tag(t, y)) => { lemma_ord_eq(*x, *y); }
        _ => {}
    }
}

pub proof fn lemma_ord_arr_eq(a: Seq<V>, b: Seq<V>, n: nat)
    requires n <= a.len(), n <= b.len(), ord_arr(a, b, n) is Equal
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i]
    decreases a, n
{
    if n > 0 { lemma_ord_arr_eq(a, b, (n - 1) as nat); lemma_ord_eq(a[n - 1], b[n - 1]); }
}

pub proof fn lemma_ord_map_eq(a: Seq<(V, V)>, b: Seq<(V, V)>, n: nat)
    requires n <= a.len(), n <= b.len(), ord_map(a, b, n) is Equal
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i]
    decreases a, n
{
    if n > 0 {
        lemma_ord_map_eq(a, b, (n - 1) as nat);
        lemma_ord_eq(a[n - 1].0, b[n - 1].0);
        lemma_ord_eq(a[n - 1].1, b[n - 1].1);
    }
}

pub proof fn lemma_ord_rev(a: V, b: V)
    ensures ord(b, a) == rev(ord(a, b))
    decreases a
{
    match (a, b) {
        (V::B(x), V::B(y)) => { lemma_lex_rev(x, y); }
        (V::T(x), V::T(y)) => { lemma_lex_rev(x, y); }
        (V::A(x), V::A(y)) => { lemma_ord_arr_rev(x, y, x.len()); }
        (V::M(x), V::M(y)) => { lemma_ord_map_rev(x, y, x.len()); }
        (V::Tag(s, x), V::Tag(t, y)) => { lemma_ord_rev(*x, *y); }
        _ => {}
    }
}

pub proof fn lemma_ord_arr_rev(a: Seq<V>, b: Seq<V>, n: nat)
    ensures ord_arr(b, a, n) == rev(ord_arr(a, b, n))
    decreases a, n
{
    if n > 0 && n <= a.len() && n <= b.len() { lemma_ord_arr_rev(a, b, (n - 1) as nat); lemma_ord_rev(a[n - 1], b[n - 1]); }
}

pub proof fn lemma_ord_map_rev(a: Seq<(V, V)>, b: Seq<(V, V)>, n: nat)
    ensures ord_map(b, a, n) == rev(ord_map(a, b, n))
    decreases a, n
{
    if n > 0 && n <= a.len() && n <= b.len() {
        lemma_ord_map_rev(a, b, (n - 1) as nat);
        lemma_ord_rev(a[n - 1].0, b[n - 1].0);
        lemma_ord_rev(a[n - 1].1, b[n - 1].1);
    }
}

/// o3 is what transitivity demands of o1 and o2.
pub open spec fn chains(o1: Ordering, o2: Ordering, o3: Ordering) -> bool {
    &&& (o1 is Equal ==> o3 == o2)
    &&& (o2 is Equal ==> o3 == o1)
    &&& (o1 == o2 ==> o3 == o1)
}

pub proof fn lemma_lex_chains(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures chains(lex(a, b), lex(b, c), lex(a, c))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_lex_chains(a.drop_first(), b.drop_first(), c.drop_first());
    } else {
        if lex(a, b) is Equal { lemma_lex_eq(a, b); }
        if lex(b, c) is Equal { lemma_lex_eq(b, c); }
    }
}

pub proof fn lemma_ord_chains(a: V, b: V, c: V)
    ensures chains(ord(a, b), ord(b, c), ord(a, c))
    decreases a
{
    match (a, b, c) {
        (V::B(x), V::B(y), V::B(z)) => { lemma_lex_chains(x, y, z); }
        (V::T(x), V::T(y), V::T(z)) => { lemma_lex_chains(x, y, z); }
        (V::A(x), V::A(y), V::A(z)) => { if x.len() == y.len() && y.len() == z.len() { lemma_ord_arr_chains(x, y, z, x.len()); } }
        (V::M(x), V::M(y), V::M(z)) => { if x.len() == y.len() && y.len() == z.len() { lemma_ord_map_chains(x, y, z, x.len()); } }
        (V::Tag(r, x), V::Tag(s, y), V::Tag(t, z)) => { lemma_ord_chains(*x, *y, *z); }
        _ => {}
    }
}

pub proof fn lemma_ord_arr_chains(a: Seq<V>, b: Seq<V>, c: Seq<V>, n: nat)
    requires n <= a.len(), n <= b.len(), n <= c.len()
    ensures chains(ord_arr(a, b, n), ord_arr(b, c, n), ord_arr(a, c, n))
    decreases a, n
{
    if n > 0 {
        lemma_ord_arr_chains(a, b, c, (n - 1) as nat);
        lemma_ord_chains(a[n - 1], b[n - 1], c[n - 1]);
    }
}

pub proof fn lemma_ord_map_chains(a: Seq<(V, V)>, b: Seq<(V, V)>, c: Seq<(V, V)>, n: nat)
    requires n <= a.len(), n <= b.len(), n <= c.len()
    ensures chains(ord_map(a, b, n), ord_map(b, c, n), ord_map(a, c, n))
    decreases a, n
{
    if n > 0 {
        lemma_ord_map_chains(a, b, c, (n - 1) as nat);
        lemma_ord_chains(a[n - 1].0, b[n - 1].0, c[n - 1].0);
        lemma_ord_chains(a[n - 1].1, b[n - 1].1, c[n - 1].1);
    }
}

/// The order on items is the bytewise order of their encodings, whatever follows.
pub proof fn lemma_ord_lex(a: V, b: V, s: Seq<u8>, t: Seq<u8>)
    requires wf(a), wf(b)
    ensures lex(enc(a) + s, enc(b) + t) == then(ord(a, b), lex(s, t))
    decreases a
{
    hide(head);
    hide(lex);
    lemma_enc_split(a, s);
    lemma_enc_split(b, t);
    let (m1, n1, x1) = split(a);
    let (m2, n2, x2) = split(b);
    lemma_head_lex(m1, n1, x1 + s, m2, n2, x2 + t);
    if m1 == m2 && n1 == n2 {
        match (a, b) {
            (V::B(x), V::B(y)) => { lemma_lex_same_len(x, y, s, t); }
            (V::T(x), V::T(y)) => { lemma_lex_same_len(x, y, s, t); }
            (V::A(x), V::A(y)) => { lemma_ord_lex_arr(x, y, x.len(), s, t); }
            (V::M(x), V::M(y)) => { lemma_ord_lex_map(x, y, x.len(), s, t); }
            (V::Tag(_, x), V::Tag(_, y)) => { lemma_ord_lex(*x, *y, s, t); }
            _ => { assert(x1 + s =~= s); assert(x2 + t =~= t); }
        }
    }
}

/// Major type, argument and content of an item's encoding.
pub open spec fn split(v: V) -> (int, int, Seq<u8>) {
    match v {
        V::U(n) => (0, n, Seq::empty()),
        V::N(n) => (1, -1 - n, Seq::empty()),
        V::B(b) => (2, b.len() as int, b),
        V::T(b) => (3, b.len() as int, b),
        V::A(a) => (4, a.len() as int, enc_arr(a, a.len())),
        V::M(m) => (5, m.len() as int, enc_map(m, m.len())),
        V::Tag(t, x) => (6, t, enc(*x)),
        V::S(n) => (7, n, Seq::empty()),
    }
}

pub proof fn lemma_enc_split(v: V, s: Seq<u8>)
    requires wf(v)
    ensures ({
        let (m, n, x) = split(v);
        &&& 0 <= m < 8 && m == major(v)
        &&& 0 <= n < two64()
        &&& enc(v) + s == head(m, n) + (x + s)
    })
{
    let (m, n, x) = split(v);
    assert(enc(v) =~= head(m, n) + x);
    assert(enc(v) + s =~= head(m, n) + (x + s));
}

pub proof fn lemma_ord_lex_arr(a: Seq<V>, b: Seq<V>, n: nat, s: Seq<u8>, t: Seq<u8>)
    requires n <= a.len(), n <= b.len(), wf_arr(a, n), wf_arr(b, n)
    ensures lex(enc_arr(a, n) + s, enc_arr(b, n) + t) == then(ord_arr(a, b, n), lex(s, t))
    decreases a, n
{
    hide(lex);
    if n == 0 {
        assert(enc_arr(a, n) + s =~= s);
        assert(enc_arr(b, n) + t =~= t);
    } else {
        let (x, y) = (enc(a[n - 1]), enc(b[n - 1]));
        assert(enc_arr(a, n) + s =~= enc_arr(a, (n - 1) as nat) + (x + s));
        assert(enc_arr(b, n) + t =~= enc_arr(b, (n - 1) as nat) + (y + t));
        lemma_ord_lex_arr(a, b, (n - 1) as nat, x + s, y + t);
        lemma_ord_lex(a[n - 1], b[n - 1], s, t);
    }
}

pub proof fn lemma_ord_lex_map(a: Seq<(V, V)>, b: Seq<(V, V)>, n: nat, s: Seq<u8>, t: Seq<u8>)
    requires n <= a.len(), n <= b.len(), wf_map(a, n), wf_map(b, n)
    ensures lex(enc_map(a, n) + s, enc_map(b, n) + t) == then(ord_map(a, b, n), lex(s, t))
    decreases a, n
{
    hide(lex);
    if n == 0 {
        assert(enc_map(a, n) + s =~= s);
        assert(enc_map(b, n) + t =~= t);
    } else {
        let (k, x) = (enc(a[n - 1].0), enc(a[n - 1].1));
        let (l, y) = (enc(b[n - 1].0), enc(b[n - 1].1));
        assert(enc_map(a, n) + s =~= enc_map(a, (n - 1) as nat) + (k + (x + s)));
        assert(enc_map(b, n) + t =~= enc_map(b, (n - 1) as nat) + (l + (y + t)));
        lemma_ord_lex_map(a, b, (n - 1) as nat, k + (x + s), l + (y + t));
        lemma_ord_lex(a[n - 1].0, b[n - 1].0, x + s, y + t);
        lemma_ord_lex(a[n - 1].1, b[n - 1].1, s, t);
    }
}

/// C08, second sentence.
pub proof fn lemma_ord_is_lex(a: V, b: V)
    requires wf(a), wf(b)
    ensures lex(enc(a), enc(b)) == ord(a, b), enc(a) == enc(b) <==> a == b
{
    lemma_ord_lex(a, b, Seq::empty(), Seq::empty());
    assert(enc(a) + Seq::<u8>::empty() =~= enc(a));
    assert(enc(b) + Seq::<u8>::empty() =~= enc(b));
    lemma_lex_refl(Seq::empty());
    if enc(a) == enc(b) { lemma_lex_refl(enc(a)); lemma_ord_eq(a, b); }
}

/// Once a difference is found, later elements do not matter.
pub proof fn lemma_ord_arr_stable(a: Seq<V>, b: Seq<V>, k: nat, n: nat)
    requires k <= n, n <= a.len(), n <= b.len(),
    ensures !(ord_arr(a, b, k) is Equal) ==> ord_arr(a, b, n) == ord_arr(a, b, k),
    decreases n - k,
{
    if k < n { lemma_ord_arr_stable(a, b, k, (n - 1) as nat); }
}

pub proof fn lemma_ord_map_stable(a: Seq<(V, V)>, b: Seq<(V, V)>, k: nat, n: nat)
    requires k <= n, n <= a.len(), n <= b.len(),
    ensures !(ord_map(a, b, k) is Equal) ==> ord_map(a, b, n) == ord_map(a, b, k),
    decreases n - k,
{
    if k < n { lemma_ord_map_stable(a, b, k, (n - 1) as nat); }
}
