use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Lemmas for the writer: sorting of encoded entries.

/// q is the inverse of p, both on 0..n.
pub open spec fn perm(p: Seq<int>, q: Seq<int>, n: nat) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| #![trigger p[i]] 0 <= i < n ==> 0 <= p[i] < n && q[p[i]] == i
    &&& forall|i: int| #![trigger q[i]] 0 <= i < n ==> 0 <= q[i] < n && p[q[i]] == i
}

pub open spec fn key_lt(a: E2, b: E2) -> bool { lex(a.0, b.0) is Less }

pub open spec fn strict_sorted(s: Seq<E2>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt(#[trigger] s[i], #[trigger] s[j])
}

pub open spec fn keys_distinct(s: Seq<E2>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}

pub proof fn lemma_ins(e: E2, s: Seq<E2>)
    requires strict_sorted(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != e.0
    ensures
        strict_sorted(ins(e, s)),
        ins(e, s).len() == s.len() + 1,
        forall|x: E2| #![trigger ins(e, s).contains(x)] ins(e, s).contains(x) <==> (x == e || s.contains(x)),
        s.len() > 0 && key_lt(s.last(), e) ==> ins(e, s) == s.push(e),
    decreases s.len()
{
    let r = ins(e, s);
    if s.len() == 0 {
        assert(r[0] == e);
        assert forall|x: E2| r.contains(x) <==> (x == e || s.contains(x)) by { if x == e { assert(r[0] == x); } }
    } else {
        lemma_lex_rev(s.last().0, e.0);
        if lex(s.last().0, e.0) is Equal { lemma_lex_eq(s.last().0, e.0); assert(s[s.len() - 1].0 != e.0); }
        if lex(s.last().0, e.0) is Greater {
            let d = s.drop_last();
            lemma_ins(e, d);
            let rd = ins(e, d);
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies key_lt(#[trigger] r[i], #[trigger] r[j]) by {
                if j == r.len() - 1 {
                    assert(rd.contains(rd[i]));
                    if rd[i] != e { let k = choose|k: int| 0 <= k < d.len() && d[k] == rd[i]; assert(key_lt(s[k], s[s.len() - 1])); }
                }
            }
            assert forall|x: E2| r.contains(x) <==> (x == e || s.contains(x)) by {
                if r.contains(x) {
                    let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
                    if k < r.len() - 1 { assert(rd.contains(rd[k])); if x != e { let l = choose|l: int| 0 <= l < d.len() && d[l] == x; assert(s[l] == x); } } else { assert(s[s.len() - 1] == x); }
                }
                if x == e { assert(rd.contains(e)); let k = choose|k: int| 0 <= k < rd.len() && rd[k] == e; assert(r[k] == e); }
                if s.contains(x) {
                    let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
                    if k < s.len() - 1 { assert(d[k] == x); assert(rd.contains(x)); let l = choose|l: int| 0 <= l < rd.len() && rd[l] == x; assert(r[l] == x); } else { assert(r[r.len() - 1] == x); }
                }
            }
        } else {
            assert(key_lt(s.last(), e));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies key_lt(#[trigger] r[i], #[trigger] r[j]) by {
                if j == r.len() - 1 && i < s.len() - 1 { assert(key_lt(s[i], s[s.len() - 1])); lemma_lex_trans(s[i].0, s.last().0, e.0); }
            }
            assert forall|x: E2| r.contains(x) <==> (x == e || s.contains(x)) by {
                if x == e { assert(r[r.len() - 1] == e); }
                if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(r[k] == x); }
                if r.contains(x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x; if k < s.len() { assert(s[k] == x); } }
            }
        }
    }
}

pub proof fn lemma_isort(s: Seq<E2>)
    requires keys_distinct(s)
    ensures
        strict_sorted(isort(s)),
        isort(s).len() == s.len(),
        forall|x: E2| #![trigger isort(s).contains(x)] isort(s).contains(x) <==> s.contains(x),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let e = s.last();
        assert(keys_distinct(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i].0 != s[j].0); } }
        lemma_isort(d);
        let t = isort(d);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != e.0 by {
            assert(t.contains(t[i]));
            let k = choose|k: int| 0 <= k < d.len() && d[k] == t[i];
            assert(s[k].0 != s[s.len() - 1].0);
        }
        lemma_ins(e, t);
        assert forall|x: E2| isort(s).contains(x) <==> s.contains(x) by {
            if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; if k < s.len() - 1 { assert(d[k] == x); assert(t.contains(x)); } }
            if isort(s).contains(x) { if x == e { assert(s[s.len() - 1] == x); } else { assert(t.contains(x)); let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(s[k] == x); } }
        }
    }
}

/// A strictly sorted sequence is determined by its entries.
pub proof fn lemma_strict_unique(a: Seq<E2>, b: Seq<E2>)
    requires strict_sorted(a), strict_sorted(b), forall|x: E2| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0])); assert(b.contains(a[0]));
        assert(b.len() > 0);
        let x = a.last(); let y = b.last();
        assert(a.contains(a[a.len() - 1])); assert(b.contains(b[b.len() - 1]));
        assert(b.contains(x)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        if i < a.len() - 1 && j < b.len() - 1 {
            assert(key_lt(a[i], a[a.len() - 1]));
            assert(key_lt(b[j], b[b.len() - 1]));
            lemma_lex_rev(x.0, y.0);
        }
        assert(x == y);
        let c = a.drop_last(); let d = b.drop_last();
        assert(strict_sorted(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies key_lt(#[trigger] c[i], #[trigger] c[j]) by { assert(key_lt(a[i], a[j])); } }
        assert(strict_sorted(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies key_lt(#[trigger] d[i], #[trigger] d[j]) by { assert(key_lt(b[i], b[j])); } }
        assert forall|z: E2| #![trigger c.contains(z)] #![trigger d.contains(z)] c.contains(z) <==> d.contains(z) by {
            lemma_lex_refl(z.0);
            if c.contains(z) { let k = choose|k: int| 0 <= k < c.len() && c[k] == z; assert(a[k] == z); assert(a.contains(z)); assert(b.contains(z));
                let l = choose|l: int| 0 <= l < b.len() && b[l] == z; assert(key_lt(a[k], a[a.len() - 1])); if l == b.len() - 1 { assert(false); } assert(d[l] == z); }
            if d.contains(z) { let k = choose|k: int| 0 <= k < d.len() && d[k] == z; assert(b[k] == z); assert(b.contains(z)); assert(a.contains(z));
                let l = choose|l: int| 0 <= l < a.len() && a[l] == z; assert(key_lt(b[k], b[b.len() - 1])); if l == a.len() - 1 { assert(false); } assert(c[l] == z); }
        }
        lemma_strict_unique(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}

/// A strictly sorted permutation is what `isort` yields.
pub proof fn lemma_perm_isort(s: Seq<E2>, t: Seq<E2>, p: Seq<int>, q: Seq<int>)
    requires perm(p, q, s.len()), t.len() == s.len(), strict_sorted(t), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == s[p[i]]
    ensures keys_distinct(s), t == isort(s)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
        assert(t[q[i]] == s[p[q[i]]]); assert(t[q[j]] == s[p[q[j]]]);
        assert(q[i] != q[j]);
        lemma_lex_refl(s[i].0);
        if q[i] < q[j] { assert(key_lt(t[q[i]], t[q[j]])); } else { assert(key_lt(t[q[j]], t[q[i]])); }
    }
    lemma_isort(s);
    assert forall|x: E2| #![trigger t.contains(x)] #![trigger isort(s).contains(x)] t.contains(x) <==> isort(s).contains(x) by {
        if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s[p[k]] == x); assert(s.contains(x)); }
        if isort(s).contains(x) { assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(t[q[k]] == s[p[q[k]]]); }
    }
    lemma_strict_unique(t, isort(s));
}

// ------------------------------------------------------------------ duplicates and depth, entry by entry

pub proof fn lemma_dup_arr_at(a: Seq<V>, i: nat, n: nat)
    requires i < n <= a.len()
    ensures has_dup(a[i as int]) ==> dup_arr(a, n), 
    decreases n
{
    if i + 1 < n { lemma_dup_arr_at(a, i, (n - 1) as nat); }
}
pub proof fn lemma_dup_map_at(m: Seq<(V, V)>, i: nat, n: nat)
    requires i < n <= m.len()
    ensures has_dup(m[i as int].0) || has_dup(m[i as int].1) ==> dup_map(m, n)
    decreases n
{
    if i + 1 < n { lemma_dup_map_at(m, i, (n - 1) as nat); }
}
pub proof fn lemma_dup_map_none(m: Seq<(V, V)>, n: nat)
    requires n <= m.len(), forall|j: int| 0 <= j < n ==> !has_dup((#[trigger] m[j]).0) && !has_dup(m[j].1)
    ensures !dup_map(m, n)
    decreases n
{
    if n > 0 { lemma_dup_map_none(m, (n - 1) as nat); assert(!has_dup(m[n - 1].0)); }
}
pub proof fn lemma_depth_map_bound(m: Seq<(V, V)>, n: nat, d: nat)
    requires n <= m.len(), forall|j: int| 0 <= j < n ==> depth((#[trigger] m[j]).0) + 1 <= d && depth(m[j].1) + 1 <= d
    ensures depth_map(m, n) <= d
    decreases n
{
    if n > 0 { lemma_depth_map_bound(m, (n - 1) as nat, d); assert(depth(m[n - 1].0) + 1 <= d); }
}
pub proof fn lemma_wf_map_at(m: Seq<(V, V)>, i: nat, n: nat)
    requires i < n <= m.len(), wf_map(m, n)
    ensures wf(m[i as int].0), wf(m[i as int].1)
    decreases n
{
    if i + 1 < n { lemma_wf_map_at(m, i, (n - 1) as nat); }
}
pub proof fn lemma_wf_arr_at(m: Seq<V>, i: nat, n: nat)
    requires i < n <= m.len(), wf_arr(m, n)
    ensures wf(m[i as int])
    decreases n
{
    if i + 1 < n { lemma_wf_arr_at(m, i, (n - 1) as nat); }
}

// ------------------------------------------------------------------ heads
pub open spec fn i32_int(n: i32) -> int { n as int }
/// The number without its j lowest bytes.
pub open spec fn sh8(n: u64, j: int) -> int { if j >= 8 || j < 0 { 0 } else { (n >> ((j * 8) as u64)) as int } }
pub proof fn lemma_sh8(n: u64, j: int)
    requires 0 <= j < 8
    ensures sh8(n, j) / 256 == sh8(n, j + 1), (sh8(n, j) % 256) as u8 == (n >> ((j * 8) as u64)) as u8, sh8(n, 0) == n
{
    let k = (j * 8) as u64;
    assert(k <= 56 ==> (n >> k) as u8 == ((n >> k) % 256) as u8) by (bit_vector);
    assert(n >> 0u64 == n) by (bit_vector);
    assert(k <= 48 ==> (n >> k) / 256 == n >> ((k + 8) as u64)) by (bit_vector);
    assert((n >> 56u64) / 256 == 0) by (bit_vector);
}
pub proof fn lemma_label(l: u8)
    requires l < 8
    ensures forall|a: u8| a < 32 ==> #[trigger] (a | (l << 5u8)) == l * 32 + a
{
    assert forall|a: u8| a < 32 implies #[trigger] (a | (l << 5u8)) == l * 32 + a by {
        assert(a < 32 && l < 8 ==> a | (l << 5u8) == add(mul(l, 32), a)) by (bit_vector);
    }
}

// ------------------------------------------------------------------ containers
pub proof fn lemma_adjacent(t: Seq<E2>)
    requires
        forall|i: int, j: int| 0 <= i < j < t.len() ==> !(lex((#[trigger] t[i]).0, (#[trigger] t[j]).0) is Greater),
        forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]).0 != t[i + 1].0
    ensures strict_sorted(t)
{
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_lt(#[trigger] t[i], #[trigger] t[j]) by {
        assert(t[i].0 != t[i + 1].0);
        if lex(t[i].0, t[i + 1].0) is Equal { lemma_lex_eq(t[i].0, t[i + 1].0); }
        if i + 1 < j {
            assert(!(lex(t[i + 1].0, t[j].0) is Greater));
            if lex(t[i + 1].0, t[j].0) is Equal { lemma_lex_eq(t[i + 1].0, t[j].0); } else { lemma_lex_trans(t[i].0, t[i + 1].0, t[j].0); }
        }
    }
}
/// What an element says about its array.
pub proof fn lemma_elem(a: Seq<V>, i: int, limit: Option<int>)
    requires 0 <= i < a.len()
    ensures
        has_dup(a[i]) ==> has_dup(V::A(a)),
        !within(a[i], down(limit)) ==> !within(V::A(a), limit),
        wf(V::A(a)) ==> wf(a[i]),
{
    lemma_dup_arr_at(a, i as nat, a.len());
    lemma_depth_arr_mono(a, (i + 1) as nat, a.len());
    if wf(V::A(a)) { lemma_wf_arr_at(a, i as nat, a.len()); }
}
/// What an entry says about its map.
pub proof fn lemma_entry(m: Seq<(V, V)>, i: int, limit: Option<int>)
    requires 0 <= i < m.len()
    ensures
        has_dup(m[i].0) || has_dup(m[i].1) ==> has_dup(V::M(m)),
        !within(m[i].0, down(limit)) || !within(m[i].1, down(limit)) ==> !within(V::M(m), limit),
        wf(V::M(m)) ==> wf(m[i].0) && wf(m[i].1),
{
    lemma_dup_map_at(m, i as nat, m.len());
    lemma_depth_map_mono(m, (i + 1) as nat, m.len());
    if wf(V::M(m)) { lemma_wf_map_at(m, i as nat, m.len()); }
}
/// Sorted entries, all of them fine: the map is encoded.
pub proof fn lemma_map_done(m: Seq<(V, V)>, t: Seq<E2>, p: Seq<int>, q: Seq<int>, limit: Option<int>)
    requires
        perm(p, q, m.len()), t.len() == m.len(), strict_sorted(t),
        forall|i: int| 0 <= i < m.len() ==> #[trigger] t[i] == centries(m)[p[i]],
        forall|j: int| 0 <= j < m.len() ==> !has_dup((#[trigger] m[j]).0) && !has_dup(m[j].1),
        forall|j: int| 0 <= j < m.len() ==> within((#[trigger] m[j]).0, down(limit)) && within(m[j].1, down(limit)),
        limit is Some ==> limit->0 >= 0,
    ensures
        !has_dup(V::M(m)), within(V::M(m), limit), t == isort(centries(m)),
        cenc(V::M(m)) == head(5, m.len() as int) + flat2(t, m.len()),
{
    let s = centries(m);
    lemma_perm_isort(s, t, p, q);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies cenc((#[trigger] m[i]).0) != cenc((#[trigger] m[j]).0) by { assert(s[i].0 != s[j].0); }
    lemma_dup_map_none(m, m.len());
    if let Some(n) = limit {
        assert forall|j: int| 0 <= j < m.len() implies depth((#[trigger] m[j]).0) + 1 <= n && depth(m[j].1) + 1 <= n by { assert(within(m[j].0, down(limit))); }
        lemma_depth_map_bound(m, m.len(), n as nat);
    }
}
pub proof fn lemma_arr_done(a: Seq<V>, n: nat, limit: Option<int>)
    requires
        n <= a.len(),
        forall|j: int| 0 <= j < n ==> !has_dup(#[trigger] a[j]) && within(a[j], down(limit)),
        limit is Some ==> limit->0 >= 0,
    ensures
        !dup_arr(a, n), limit is Some ==> depth_arr(a, n) <= limit->0,
    decreases n
{
    if n > 0 { lemma_arr_done(a, (n - 1) as nat, limit); assert(!has_dup(a[n - 1])); }
}
pub proof fn lemma_unfold_arr(a: Seq<V>, limit: Option<int>)
    ensures has_dup(V::A(a)) == dup_arr(a, a.len()), limit is Some ==> within(V::A(a), limit) == (depth_arr(a, a.len()) <= limit->0), cenc(V::A(a)) == head(4, a.len() as int) + cenc_arr(a, a.len()),
        cenc_arr(a, 0) == Seq::<u8>::empty()
{}
pub proof fn lemma_same_key(m: Seq<(V, V)>, i: int, j: int)
    requires 0 <= i < m.len(), 0 <= j < m.len(), i != j, cenc(m[i].0) == cenc(m[j].0)
    ensures has_dup(V::M(m))
{
    if i < j { assert(dup_keys(m)); } else { assert(dup_keys(m)) by { assert(cenc(m[j].0) == cenc(m[i].0)); } }
}
/// Values that hold no other values, and tags.
pub proof fn lemma_leaf(v: V, limit: Option<int>)
    ensures
        limit is Some && limit->0 < 0 ==> !within(v, limit),
        limit is None ==> within(v, limit),
        !(limit is Some && limit->0 < 0) ==> (match v {
            V::A(a) => true,
            V::M(m) => true,
            V::Tag(t, x) => has_dup(v) == has_dup(*x) && within(v, limit) == within(*x, down(limit)) && (wf(v) ==> wf(*x) && 0 <= t < two64()) && cenc(v) == head(6, t) + cenc(*x),
            _ => !has_dup(v) && within(v, limit),
        }),
        match v { V::U(n) => cenc(v) == head(0, n), V::N(n) => cenc(v) == head(1, -1 - n), V::B(b) => cenc(v) == head(2, b.len() as int) + b, V::T(b) => cenc(v) == head(3, b.len() as int) + b, V::S(n) => cenc(v) == head(7, n), _ => true },
        wf(v) ==> (match v { V::U(n) => 0 <= n < two64(), V::N(n) => -two64() <= n < 0, V::S(n) => 20 <= n < 24, V::A(a) => a.len() < two64(), V::M(m) => m.len() < two64(), V::B(b) => b.len() < two64(), V::T(b) => b.len() < two64(), _ => true }),
{}
pub proof fn lemma_vw(v: Value)
    ensures match v {
        Value::Unsigned(n) => vw(v) == V::U(n as int),
        Value::Negative(n) => vw(v) == V::N(n as int),
        Value::ByteString(b) => vw(v) == V::B(b@),
        Value::TextString(t) => vw(v) == V::T(encode_utf8(t@)),
        Value::Array(a) => vw(v) == V::A(vseq(a@)),
        Value::Map(m) => vw(v) == V::M(vmap(m@)),
        Value::Tag(t, x) => vw(v) == V::Tag(t as int, Box::new(vw(*x))),
        Value::Simple(s) => vw(v) == V::S(sv(s)),
    }
{ lemma_vw_arr(v); lemma_vw_map(v); }
pub proof fn lemma_grow(b: Seq<u8>)
    ensures forall|x: Seq<u8>| b.is_prefix_of(#[trigger] (b + x)), b.is_prefix_of(b),
        forall|c: Seq<u8>, x: Seq<u8>| b.is_prefix_of(c) ==> b.is_prefix_of(#[trigger] (c + x)),
        forall|c: Seq<u8>, d: Seq<u8>| #[trigger] b.is_prefix_of(c) && #[trigger] c.is_prefix_of(d) ==> b.is_prefix_of(d),
{}
pub proof fn lemma_cenc_arr_step(a: Seq<V>, n: nat) requires n < a.len() ensures cenc_arr(a, n + 1) == cenc_arr(a, n) + cenc(a[n as int]) {}
pub proof fn lemma_flat2_step(a: Seq<E2>, n: nat) requires n < a.len() ensures flat2(a, n + 1) == flat2(a, n) + a[n as int].0 + a[n as int].1 {}
pub proof fn lemma_flat2_zero(a: Seq<E2>) ensures flat2(a, 0) == Seq::<u8>::empty() {}
pub open spec fn kv(v: Vec<(Vec<u8>, Value)>) -> Seq<(Vec<u8>, Value)> { v@ }
pub proof fn lemma_centries(m: Seq<(V, V)>, i: int) requires 0 <= i < m.len() ensures centries(m).len() == m.len(), centries(m)[i] == (cenc(m[i].0), cenc(m[i].1)) {}
