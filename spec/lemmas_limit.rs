use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Nesting limits and lenient decoding.

pub open spec fn is_nest<T>(r: Result<T, DecoderError>) -> bool { r is Err && r->Err_0 is TooMuchNesting }

/// Decoding under a limit, against decoding without one.
pub proof fn lemma_dec_limit(b: Seq<u8>, n: int, strict: bool)
    ensures
        !is_nest(dec(b, None, strict)),
        dec(b, None, strict) is Ok && depth(dec(b, None, strict)->Ok_0.0) <= n ==> dec(b, Some(n), strict) == dec(b, None, strict),
        dec(b, None, strict) is Ok && depth(dec(b, None, strict)->Ok_0.0) > n ==> is_nest(dec(b, Some(n), strict)),
        dec(b, None, strict) is Err ==> dec(b, Some(n), strict) is Err
            && (is_nest(dec(b, Some(n), strict)) || dec(b, Some(n), strict) == dec(b, None, strict)),
    decreases b.len(), 0nat
{
    hide(head);
    hide(be_val);
    hide(ord);
    let none: Option<int> = None;
    assert(down(none) == none);
    if b.len() > 0 && n >= 0 {
        let ai = b[0] as int % 32;
        if dec_arg(ai, b.drop_first(), strict) is Ok {
            lemma_dec_arg_sound(b, strict);
            let (k, r) = dec_arg(ai, b.drop_first(), strict)->Ok_0;
            let mt = b[0] as int / 32;
            if mt == 4 { lemma_dec_arr_limit(r, k as nat, n - 1, strict); lemma_dec_arr_sound(r, k as nat, None, strict); }
            else if mt == 5 { lemma_dec_map_limit(r, k as nat, n - 1, strict); lemma_dec_map_sound(r, k as nat, None, strict); }
            else if mt == 6 { lemma_dec_limit(r, n - 1, strict); }
        }
    } else if b.len() > 0 {
        let ai = b[0] as int % 32;
        if dec_arg(ai, b.drop_first(), strict) is Ok {
            lemma_dec_arg_sound(b, strict);
            let (k, r) = dec_arg(ai, b.drop_first(), strict)->Ok_0;
            let mt = b[0] as int / 32;
            if mt == 4 { lemma_dec_arr_limit(r, k as nat, n, strict); }
            else if mt == 5 { lemma_dec_map_limit(r, k as nat, n, strict); }
            else if mt == 6 { lemma_dec_limit(r, n, strict); }
        }
    }
}

pub proof fn lemma_dec_arr_limit(b: Seq<u8>, k: nat, n: int, strict: bool)
    ensures
        !is_nest(dec_arr(b, k, None, strict)),
        dec_arr(b, k, None, strict) is Ok && (k == 0 || depth_arr(dec_arr(b, k, None, strict)->Ok_0.0, k) <= n + 1)
            ==> dec_arr(b, k, Some(n), strict) == dec_arr(b, k, None, strict),
        dec_arr(b, k, None, strict) is Ok && !(k == 0 || depth_arr(dec_arr(b, k, None, strict)->Ok_0.0, k) <= n + 1)
            ==> is_nest(dec_arr(b, k, Some(n), strict)),
        dec_arr(b, k, None, strict) is Err ==> dec_arr(b, k, Some(n), strict) is Err
            && (is_nest(dec_arr(b, k, Some(n), strict)) || dec_arr(b, k, Some(n), strict) == dec_arr(b, k, None, strict)),
    decreases b.len(), k + 1
{
    hide(head);
    hide(be_val);
    hide(ord);
    hide(dec_arg);
    if k > 0 {
        lemma_dec_arr_limit(b, (k - 1) as nat, n, strict);
        lemma_dec_arr_sound(b, (k - 1) as nat, None, strict);
        if dec_arr(b, (k - 1) as nat, None, strict) is Ok {
            let (a, r) = dec_arr(b, (k - 1) as nat, None, strict)->Ok_0;
            lemma_dec_limit(r, n, strict);
            if dec(r, None, strict) is Ok { lemma_arr_prefix(a, a.push(dec(r, None, strict)->Ok_0.0), (k - 1) as nat); }
        }
    }
}

pub proof fn lemma_dec_map_limit(b: Seq<u8>, k: nat, n: int, strict: bool)
    ensures
        !is_nest(dec_map(b, k, None, strict)),
        dec_map(b, k, None, strict) is Ok && (k == 0 || depth_map(dec_map(b, k, None, strict)->Ok_0.0, k) <= n + 1)
            ==> dec_map(b, k, Some(n), strict) == dec_map(b, k, None, strict),
        dec_map(b, k, None, strict) is Ok && !(k == 0 || depth_map(dec_map(b, k, None, strict)->Ok_0.0, k) <= n + 1)
            ==> is_nest(dec_map(b, k, Some(n), strict)),
        dec_map(b, k, None, strict) is Err ==> dec_map(b, k, Some(n), strict) is Err
            && (is_nest(dec_map(b, k, Some(n), strict)) || dec_map(b, k, Some(n), strict) == dec_map(b, k, None, strict)),
    decreases b.len(), k + 1
{
    hide(head);
    hide(be_val);
    hide(ord);
    hide(dec_arg);
    if k > 0 {
        lemma_dec_map_limit(b, (k - 1) as nat, n, strict);
        lemma_dec_map_sound(b, (k - 1) as nat, None, strict);
        if dec_map(b, (k - 1) as nat, None, strict) is Ok {
            let (m, r) = dec_map(b, (k - 1) as nat, None, strict)->Ok_0;
            lemma_dec_limit(r, n, strict);
            lemma_dec_sound(r, None, strict);
            if dec(r, None, strict) is Ok {
                let (kv, r2) = dec(r, None, strict)->Ok_0;
                lemma_dec_limit(r2, n, strict);
                if dec(r2, None, strict) is Ok { lemma_map_prefix(m, m.push((kv, dec(r2, None, strict)->Ok_0.0)), (k - 1) as nat); }
            }
        }
    }
}

/// Errors that lenient decoding never reports.
pub open spec fn strict_only(e: DecoderError) -> bool {
    e is NonMinimalCborEncoding || e is OutOfOrderKey || e is UnsupportedSimpleValue || e is UnsupportedFloatingPointValue || e is ExtraneousData
}

pub open spec fn lenient_extends<T>(s: Result<T, DecoderError>, l: Result<T, DecoderError>) -> bool {
    &&& s is Ok ==> l == s
    &&& s is Err && !strict_only(s->Err_0) ==> l == s
    &&& l is Err ==> !strict_only(l->Err_0)
}

pub proof fn lemma_dec_lenient(b: Seq<u8>, limit: Option<int>)
    ensures lenient_extends(dec(b, limit, true), dec(b, limit, false))
    decreases b.len(), 0nat
{
    hide(head);
    hide(be_val);
    hide(ord);
    if b.len() > 0 && !(limit is Some && limit->0 < 0) {
        let ai = b[0] as int % 32;
        if dec_arg(ai, b.drop_first(), false) is Ok {
            lemma_dec_arg_sound(b, false);
            let (k, r) = dec_arg(ai, b.drop_first(), false)->Ok_0;
            let mt = b[0] as int / 32;
            if mt == 4 { lemma_dec_arr_lenient(r, k as nat, down(limit)); }
            else if mt == 5 { lemma_dec_map_lenient(r, k as nat, down(limit)); }
            else if mt == 6 { lemma_dec_lenient(r, down(limit)); }
        }
    }
}

pub proof fn lemma_dec_arr_lenient(b: Seq<u8>, k: nat, limit: Option<int>)
    ensures lenient_extends(dec_arr(b, k, limit, true), dec_arr(b, k, limit, false))
    decreases b.len(), k + 1
{
    hide(head);
    hide(be_val);
    hide(ord);
    hide(dec_arg);
    if k > 0 {
        lemma_dec_arr_lenient(b, (k - 1) as nat, limit);
        lemma_dec_arr_sound(b, (k - 1) as nat, limit, false);
        if dec_arr(b, (k - 1) as nat, limit, false) is Ok {
            lemma_dec_lenient(dec_arr(b, (k - 1) as nat, limit, false)->Ok_0.1, limit);
        }
    }
}

pub proof fn lemma_dec_map_lenient(b: Seq<u8>, k: nat, limit: Option<int>)
    ensures lenient_extends(dec_map(b, k, limit, true), dec_map(b, k, limit, false))
    decreases b.len(), k + 1
{
    hide(head);
    hide(be_val);
    hide(ord);
    hide(dec_arg);
    if k > 0 {
        lemma_dec_map_lenient(b, (k - 1) as nat, limit);
        lemma_dec_map_sound(b, (k - 1) as nat, limit, false);
        if dec_map(b, (k - 1) as nat, limit, false) is Ok {
            let r = dec_map(b, (k - 1) as nat, limit, false)->Ok_0.1;
            lemma_dec_lenient(r, limit);
            lemma_dec_sound(r, limit, false);
            if dec(r, limit, false) is Ok { lemma_dec_lenient(dec(r, limit, false)->Ok_0.1, limit); }
        }
    }
}
