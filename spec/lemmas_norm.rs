use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Normal forms: what decoding the encoding of a value gives.

pub open spec fn ev(p: (V, V)) -> E2 { (enc(p.0), enc(p.1)) }
pub open spec fn evs(s: Seq<(V, V)>) -> Seq<E2> { Seq::new(s.len(), |i: int| ev(s[i])) }

/// Insert keeping keys in the order of their encodings.
pub open spec fn insv(e: (V, V), s: Seq<(V, V)>) -> Seq<(V, V)>
    decreases s.len()
{
    if s.len() == 0 { seq![e] }
    else if lex(enc(s.last().0), enc(e.0)) is Greater { insv(e, s.drop_last()).push(s.last()) }
    else { s.push(e) }
}
pub open spec fn nsort(s: Seq<(V, V)>) -> Seq<(V, V)>
    decreases s.len()
{
    if s.len() == 0 { s } else { insv(s.last(), nsort(s.drop_last())) }
}

/// The same item with all maps in canonical order.
pub open spec fn norm(v: V) -> V
    decreases v
{
    match v {
        V::A(a) => V::A(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { norm(a[i]) } else { arbitrary() })),
        V::M(m) => V::M(nsort(nmap(m))),
        V::Tag(t, x) => V::Tag(t, Box::new(norm(*x))),
        _ => v,
    }
}
pub open spec fn nmap(m: Seq<(V, V)>) -> Seq<(V, V)>
    decreases m
{
    Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (norm(m[i].0), norm(m[i].1)) } else { arbitrary() })
}
pub open spec fn norms(a: Seq<V>) -> Seq<V> { Seq::new(a.len(), |i: int| norm(a[i])) }
pub open spec fn normm(m: Seq<(V, V)>) -> Seq<(V, V)> { Seq::new(m.len(), |i: int| (norm(m[i].0), norm(m[i].1))) }

pub proof fn lemma_norm_unfold(v: V)
    ensures
        v is A ==> norm(v) == V::A(norms(v->A_0)),
        v is M ==> norm(v) == V::M(nsort(normm(v->M_0))),
{
    if let V::A(a) = v { assert(norm(v)->A_0 =~= norms(a)); }
    if let V::M(m) = v { assert(nmap(m) =~= normm(m)); }
}

pub proof fn lemma_insv(e: (V, V), s: Seq<(V, V)>)
    ensures
        evs(insv(e, s)) == ins(ev(e), evs(s)),
        insv(e, s).len() == s.len() + 1,
        forall|x: (V, V)| #![trigger insv(e, s).contains(x)] insv(e, s).contains(x) <==> (x == e || s.contains(x)),
    decreases s.len()
{
    let r = insv(e, s);
    if s.len() == 0 {
        assert(evs(r) =~= ins(ev(e), evs(s)));
        assert(r[0] == e);
        assert forall|x: (V, V)| r.contains(x) <==> (x == e || s.contains(x)) by { if x == e { assert(r[0] == x); } }
    } else if lex(enc(s.last().0), enc(e.0)) is Greater {
        let d = s.drop_last();
        lemma_insv(e, d);
        let rd = insv(e, d);
        assert(evs(s).drop_last() =~= evs(d));
        assert(evs(r) =~= evs(rd).push(ev(s.last())));
        assert forall|x: (V, V)| r.contains(x) <==> (x == e || s.contains(x)) by {
            if r.contains(x) {
                let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
                if k < r.len() - 1 { assert(rd.contains(rd[k])); if x != e { let l = choose|l: int| 0 <= l < d.len() && d[l] == x; assert(s[l] == x); } } else { assert(s[s.len() - 1] == x); }
            }
            if x == e { assert(rd.contains(e)); let k = choose|k: int| 0 <= k < rd.len() && rd[k] == e; assert(r[k] == e); }
            if s.contains(x) {
                let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
                if k < s.len() - 1 { assert(d[k] == x); assert(rd.contains(x)); let l = choose|l: int| 0 <= l < rd.len() && rd[l] == x; assert(r[l] == x); } else { assert(r[r.len() - 1] == x); }
            }
        }
    } else {
        assert(evs(r) =~= evs(s).push(ev(e)));
        assert forall|x: (V, V)| r.contains(x) <==> (x == e || s.contains(x)) by {
            if x == e { assert(r[r.len() - 1] == e); }
            if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(r[k] == x); }
            if r.contains(x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x; if k < s.len() { assert(s[k] == x); } }
        }
    }
}

pub proof fn lemma_nsort(s: Seq<(V, V)>)
    ensures
        evs(nsort(s)) == isort(evs(s)),
        nsort(s).len() == s.len(),
        forall|x: (V, V)| #![trigger nsort(s).contains(x)] nsort(s).contains(x) <==> s.contains(x),
    decreases s.len()
{
    if s.len() == 0 {
        assert(evs(s) =~= isort(evs(s)));
    } else {
        let d = s.drop_last();
        lemma_nsort(d);
        lemma_insv(s.last(), nsort(d));
        assert(evs(s).drop_last() =~= evs(d));
        assert forall|x: (V, V)| nsort(s).contains(x) <==> s.contains(x) by {
            if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; if k < s.len() - 1 { assert(d[k] == x); assert(nsort(d).contains(x)); } }
            if nsort(s).contains(x) { if x == s.last() { assert(s[s.len() - 1] == x); } else { assert(nsort(d).contains(x)); let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(s[k] == x); } }
        }
    }
}

pub proof fn lemma_enc_map_flat(m: Seq<(V, V)>, n: nat)
    requires n <= m.len()
    ensures enc_map(m, n) == flat2(evs(m), n)
    decreases n
{
    if n > 0 { lemma_enc_map_flat(m, (n - 1) as nat); }
}

pub proof fn lemma_each_arr(a: Seq<V>, n: nat)
    requires n <= a.len(), forall|i: int| 0 <= i < n ==> wf(#[trigger] a[i]) && canon(a[i])
    ensures wf_arr(a, n), canon_arr(a, n)
    decreases n
{
    if n > 0 { lemma_each_arr(a, (n - 1) as nat); assert(wf(a[n - 1])); }
}
pub proof fn lemma_each_map(m: Seq<(V, V)>, n: nat)
    requires
        n <= m.len(),
        forall|i: int| 0 <= i < n ==> wf((#[trigger] m[i]).0) && canon(m[i].0) && wf(m[i].1) && canon(m[i].1),
        strict_sorted(evs(m)),
    ensures wf_map(m, n), canon_map(m, n)
    decreases n
{
    if n > 0 {
        lemma_each_map(m, (n - 1) as nat);
        assert(wf(m[n - 1].0));
        if n > 1 {
            assert(wf(m[n - 2].0));
            assert(key_lt(evs(m)[n - 2], evs(m)[n - 1]));
            lemma_ord_is_lex(m[n - 2].0, m[n - 1].0);
        }
    }
}
pub proof fn lemma_depth_arr_same(a: Seq<V>, b: Seq<V>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> depth(#[trigger] a[i]) == depth(b[i])
    ensures depth_arr(a, n) == depth_arr(b, n)
    decreases n
{
    if n > 0 { lemma_depth_arr_same(a, b, (n - 1) as nat); assert(depth(a[n - 1]) == depth(b[n - 1])); }
}
pub proof fn lemma_enc_arr_same(a: Seq<V>, b: Seq<V>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> enc(#[trigger] a[i]) == cenc(b[i])
    ensures enc_arr(a, n) == cenc_arr(b, n)
    decreases n
{
    if n > 0 { lemma_enc_arr_same(a, b, (n - 1) as nat); assert(enc(a[n - 1]) == cenc(b[n - 1])); }
}
pub proof fn lemma_depth_entry(m: Seq<(V, V)>, i: int)
    requires 0 <= i < m.len()
    ensures depth(m[i].0) + 1 <= depth_map(m, m.len()), depth(m[i].1) + 1 <= depth_map(m, m.len())
{
    lemma_depth_map_mono(m, (i + 1) as nat, m.len());
}
/// Some entry is as deep.
pub open spec fn dmatch(b: Seq<(V, V)>, x: (V, V)) -> bool {
    exists|j: int| 0 <= j < b.len() && depth((#[trigger] b[j]).0) == depth(x.0) && depth(b[j].1) == depth(x.1)
}
pub proof fn lemma_depth_map_same(a: Seq<(V, V)>, b: Seq<(V, V)>)
    requires
        forall|i: int| 0 <= i < a.len() ==> dmatch(b, #[trigger] a[i]),
        forall|j: int| 0 <= j < b.len() ==> dmatch(a, #[trigger] b[j]),
    ensures depth_map(a, a.len()) == depth_map(b, b.len())
{
    assert forall|i: int| 0 <= i < a.len() implies depth((#[trigger] a[i]).0) + 1 <= depth_map(b, b.len()) && depth(a[i].1) + 1 <= depth_map(b, b.len()) by {
        let j = choose|j: int| 0 <= j < b.len() && depth((#[trigger] b[j]).0) == depth(a[i].0) && depth(b[j].1) == depth(a[i].1);
        lemma_depth_entry(b, j);
    }
    assert forall|j: int| 0 <= j < b.len() implies depth((#[trigger] b[j]).0) + 1 <= depth_map(a, a.len()) && depth(b[j].1) + 1 <= depth_map(a, a.len()) by {
        let i = choose|i: int| 0 <= i < a.len() && depth((#[trigger] a[i]).0) == depth(b[j].0) && depth(a[i].1) == depth(b[j].1);
        lemma_depth_entry(a, i);
    }
    lemma_depth_map_bound(a, a.len(), depth_map(b, b.len()));
    lemma_depth_map_bound(b, b.len(), depth_map(a, a.len()));
}

/// The map case, given its entries.
pub proof fn lemma_norm_map(m: Seq<(V, V)>, b: Seq<(V, V)>)
    requires
        b.len() == m.len(), !dup_keys(m),
        forall|i: int| 0 <= i < m.len() ==> wf((#[trigger] b[i]).0) && canon(b[i].0) && enc(b[i].0) == cenc(m[i].0) && depth(b[i].0) == depth(m[i].0)
                && wf(b[i].1) && canon(b[i].1) && enc(b[i].1) == cenc(m[i].1) && depth(b[i].1) == depth(m[i].1),
    ensures
        wf_map(nsort(b), b.len()), canon_map(nsort(b), b.len()), enc_map(nsort(b), b.len()) == flat2(isort(centries(m)), m.len()),
        depth_map(nsort(b), b.len()) == depth_map(m, m.len()), nsort(b).len() == b.len(),
{
    hide(head); hide(be); hide(lex); hide(ord); hide(wf); hide(canon); hide(enc); hide(cenc); hide(depth);
    hide(isort); hide(nsort); hide(flat2); hide(enc_map); hide(wf_map); hide(canon_map); hide(depth_map);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] centries(m)[i] == (cenc(m[i].0), cenc(m[i].1)) by { lemma_centries(m, i); }
    if m.len() > 0 { lemma_centries(m, 0); } else { lemma_centries_len(m); }
    let r = nsort(b);
            lemma_nsort(b);
            assert(evs(b) =~= centries(m));
            assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] centries(m)[i]).0 != (#[trigger] centries(m)[j]).0 by { assert(cenc(m[i].0) != cenc(m[j].0)); }
            lemma_isort(centries(m));
            assert forall|i: int| 0 <= i < r.len() implies wf((#[trigger] r[i]).0) && canon(r[i].0) && wf(r[i].1) && canon(r[i].1) by {
                assert(r.contains(r[i]));
                let j = choose|j: int| 0 <= j < b.len() && b[j] == r[i];
                assert(wf(b[j].0));
            }
            lemma_each_map(r, r.len());
            lemma_enc_map_flat(r, r.len());
            assert forall|i: int| 0 <= i < r.len() implies dmatch(m, #[trigger] r[i]) by {
                assert(r.contains(r[i]));
                let j = choose|j: int| 0 <= j < b.len() && b[j] == r[i];
                assert(depth(b[j].0) == depth(m[j].0));
            }
            assert forall|j: int| 0 <= j < m.len() implies dmatch(r, #[trigger] m[j]) by {
                assert(b.contains(b[j]));
                assert(r.contains(b[j]));
                let i = choose|i: int| 0 <= i < r.len() && r[i] == b[j];
                assert(depth(r[i].0) == depth(m[j].0));
            }
            lemma_depth_map_same(r, m);
}
pub proof fn lemma_centries_len(m: Seq<(V, V)>) ensures centries(m).len() == m.len() {}

/// The canonical encoding of a value is the encoding of its normal form, which is canonical.
pub proof fn lemma_norm(v: V)
    requires wf(v), !has_dup(v)
    ensures wf(norm(v)), canon(norm(v)), enc(norm(v)) == cenc(v), depth(norm(v)) == depth(v)
    decreases v
{
    hide(head); hide(be); hide(lex); hide(ord);
    lemma_norm_unfold(v);
    match v {
        V::A(a) => {
            let b = norms(a);
            assert forall|i: int| 0 <= i < a.len() implies wf(#[trigger] b[i]) && canon(b[i]) && enc(b[i]) == cenc(a[i]) && depth(b[i]) == depth(a[i]) by {
                lemma_wf_arr_at(a, i as nat, a.len());
                lemma_dup_arr_at(a, i as nat, a.len());
                lemma_norm(a[i]);
            }
            lemma_each_arr(b, b.len());
            lemma_depth_arr_same(b, a, a.len());
            lemma_enc_arr_same(b, a, a.len());
        }
        V::M(m) => {
            let b = normm(m);
            assert forall|i: int| 0 <= i < m.len() implies wf((#[trigger] b[i]).0) && canon(b[i].0) && enc(b[i].0) == cenc(m[i].0) && depth(b[i].0) == depth(m[i].0)
                && wf(b[i].1) && canon(b[i].1) && enc(b[i].1) == cenc(m[i].1) && depth(b[i].1) == depth(m[i].1) by {
                lemma_wf_map_at(m, i as nat, m.len());
                lemma_dup_map_at(m, i as nat, m.len());
                lemma_norm(m[i].0);
                lemma_norm(m[i].1);
            }
            lemma_norm_map(m, b);
        }
        V::Tag(t, x) => { lemma_norm(*x); }
        _ => {}
    }
}

// ------------------------------------------------------------------ canonical items are their own normal form

pub proof fn lemma_canon_sorted(m: Seq<(V, V)>, n: nat)
    requires n <= m.len(), wf_map(m, n), canon_map(m, n)
    ensures forall|i: int, j: int| 0 <= i < j < n ==> lex(enc((#[trigger] m[i]).0), enc((#[trigger] m[j]).0)) is Less
    decreases n
{
    hide(head); hide(be); hide(lex); hide(ord);
    if n > 0 {
        lemma_canon_sorted(m, (n - 1) as nat);
        if n > 1 {
            lemma_ord_is_lex(m[n - 2].0, m[n - 1].0);
            assert forall|i: int, j: int| 0 <= i < j < n implies lex(enc((#[trigger] m[i]).0), enc((#[trigger] m[j]).0)) is Less by {
                if j == n - 1 && i < n - 2 { lemma_lex_trans(enc(m[i].0), enc(m[n - 2].0), enc(m[n - 1].0)); }
            }
        }
    }
}
pub proof fn lemma_canon_map_at(m: Seq<(V, V)>, i: nat, n: nat)
    requires i < n <= m.len(), canon_map(m, n)
    ensures canon(m[i as int].0), canon(m[i as int].1)
    decreases n
{
    if i + 1 < n { lemma_canon_map_at(m, i, (n - 1) as nat); }
}
pub proof fn lemma_canon_arr_at(m: Seq<V>, i: nat, n: nat)
    requires i < n <= m.len(), canon_arr(m, n)
    ensures canon(m[i as int])
    decreases n
{
    if i + 1 < n { lemma_canon_arr_at(m, i, (n - 1) as nat); }
}
pub proof fn lemma_nsort_sorted(m: Seq<(V, V)>)
    requires strict_sorted(evs(m))
    ensures nsort(m) == m
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        assert(evs(d) =~= evs(m).drop_last());
        assert(strict_sorted(evs(d))) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies key_lt(#[trigger] evs(d)[i], #[trigger] evs(d)[j]) by { assert(key_lt(evs(m)[i], evs(m)[j])); } }
        lemma_nsort_sorted(d);
        if d.len() > 0 { assert(key_lt(evs(m)[m.len() - 2], evs(m)[m.len() - 1])); }
        assert(nsort(m) =~= m);
    }
}
pub proof fn lemma_dup_arr_none(a: Seq<V>, n: nat)
    requires n <= a.len(), forall|j: int| 0 <= j < n ==> !has_dup(#[trigger] a[j])
    ensures !dup_arr(a, n)
    decreases n
{
    if n > 0 { lemma_dup_arr_none(a, (n - 1) as nat); assert(!has_dup(a[n - 1])); }
}
pub proof fn lemma_canon_norm(v: V)
    requires wf(v), canon(v)
    ensures norm(v) == v, !has_dup(v), cenc(v) == enc(v)
    decreases v
{
    hide(head); hide(be); hide(lex); hide(ord);
    lemma_norm_unfold(v);
    match v {
        V::A(a) => {
            assert forall|i: int| 0 <= i < a.len() implies norm(#[trigger] a[i]) == a[i] && !has_dup(a[i]) && cenc(a[i]) == enc(a[i]) by {
                lemma_wf_arr_at(a, i as nat, a.len());
                lemma_canon_arr_at(a, i as nat, a.len());
                lemma_canon_norm(a[i]);
            }
            assert(norms(a) =~= a);
            lemma_dup_arr_none(a, a.len());
            lemma_enc_arr_same(a, a, a.len());
        }
        V::M(m) => {
            assert forall|i: int| 0 <= i < m.len() implies norm((#[trigger] m[i]).0) == m[i].0 && !has_dup(m[i].0) && cenc(m[i].0) == enc(m[i].0) && norm(m[i].1) == m[i].1 && !has_dup(m[i].1) && cenc(m[i].1) == enc(m[i].1) by {
                lemma_wf_map_at(m, i as nat, m.len());
                lemma_canon_map_at(m, i as nat, m.len());
                lemma_canon_norm(m[i].0);
                lemma_canon_norm(m[i].1);
            }
            assert(normm(m) =~= m);
            lemma_canon_sorted(m, m.len());
            assert(strict_sorted(evs(m)));
            lemma_nsort_sorted(m);
            lemma_dup_map_none(m, m.len());
            assert forall|i: int, j: int| 0 <= i < j < m.len() implies cenc((#[trigger] m[i]).0) != cenc((#[trigger] m[j]).0) by { lemma_lex_refl(enc(m[i].0)); }
            assert(centries(m) =~= evs(m));
            lemma_nsort(m);
            lemma_enc_map_flat(m, m.len());
        }
        V::Tag(t, x) => { lemma_canon_norm(*x); assert(norm(v) == v); }
        _ => {}
    }
}

/// The order of a map's entries does not matter to its encoding.
pub proof fn lemma_entry_order(m: Seq<(V, V)>, w: Seq<(V, V)>, p: Seq<int>, q: Seq<int>)
    requires perm(p, q, m.len()), w.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] w[i] == m[p[i]], !has_dup(V::M(m))
    ensures !has_dup(V::M(w)), cenc(V::M(w)) == cenc(V::M(m)), depth(V::M(w)) == depth(V::M(m))
{
    hide(head); hide(be); hide(lex); hide(ord);
    assert forall|i: int| 0 <= i < w.len() implies !has_dup((#[trigger] w[i]).0) && !has_dup(w[i].1) by { lemma_dup_map_at(m, p[i] as nat, m.len()); }
    lemma_dup_map_none(w, w.len());
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies cenc((#[trigger] w[i]).0) != cenc((#[trigger] w[j]).0) by {
        assert(w[i] == m[p[i]] && w[j] == m[p[j]]);
        assert(q[p[i]] == i && q[p[j]] == j);
        if p[i] < p[j] { assert(cenc(m[p[i]].0) != cenc(m[p[j]].0)); } else { assert(cenc(m[p[j]].0) != cenc(m[p[i]].0)); }
    }
    let s = centries(m); let t = centries(w);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(cenc(m[i].0) != cenc(m[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(cenc(w[i].0) != cenc(w[j].0)); }
    lemma_isort(s); lemma_isort(t);
    assert forall|x: E2| #![trigger isort(s).contains(x)] #![trigger isort(t).contains(x)] isort(s).contains(x) <==> isort(t).contains(x) by {
        if isort(t).contains(x) { assert(t.contains(x)); let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(w[k] == m[p[k]]); assert(s[p[k]] == x); assert(s.contains(x)); }
        if isort(s).contains(x) { assert(s.contains(x)); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(w[q[k]] == m[p[q[k]]]); assert(t[q[k]] == x); assert(t.contains(x)); }
    }
    lemma_strict_unique(isort(s), isort(t));
    lemma_depth_perm(m, w, p, q);
}
pub proof fn lemma_depth_perm(m: Seq<(V, V)>, w: Seq<(V, V)>, p: Seq<int>, q: Seq<int>)
    requires perm(p, q, m.len()), w.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] w[i] == m[p[i]]
    ensures depth_map(w, w.len()) == depth_map(m, m.len())
{
    hide(depth); hide(depth_map);
    assert forall|i: int| 0 <= i < w.len() implies dmatch(m, #[trigger] w[i]) by { let j = p[i]; assert(0 <= j < m.len()); assert(w[i] == m[j]); }
    assert forall|j: int| 0 <= j < m.len() implies dmatch(w, #[trigger] m[j]) by { let i = q[j]; assert(w[i] == m[p[i]]); assert(w[i] == m[j]); }
    lemma_depth_map_same(w, m);
}
