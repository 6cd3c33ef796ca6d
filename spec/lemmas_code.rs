use crate::spec::*; use std::cmp::Ordering; use crate::oasis_cbor_value::{reader::DecoderError, writer::EncoderError, values::{Value, SimpleValue}};
// Facts that connect machine operations to the model.

pub broadcast proof fn lemma_shr5(x: u8) ensures #[trigger] (x >> 5u8) == x / 32 { assert(x >> 5u8 == x / 32) by (bit_vector); }
pub broadcast proof fn lemma_and31(x: u8) ensures #[trigger] (x & 31u8) == x % 32 { assert(x & 31u8 == x % 32) by (bit_vector); }
pub broadcast proof fn lemma_shl8(x: u64) requires x < 0x100_0000_0000_0000 ensures #[trigger] (x << 8u64) == x * 256 {
    assert(x < 0x100_0000_0000_0000 ==> x << 8u64 == x * 256) by (bit_vector);
}
pub proof fn lemma_shl_consts()
    ensures
        1u64 << 0usize == 1, 1u64 << 8usize == 0x100, 1u64 << 16usize == 0x1_0000, 1u64 << 32usize == 0x1_0000_0000,
        1usize >> 1usize == 0, 2usize >> 1usize == 1, 4usize >> 1usize == 2, 8usize >> 1usize == 4,
{
    assert(1u64 << 0usize == 1 && 1u64 << 8usize == 0x100 && 1u64 << 16usize == 0x1_0000 && 1u64 << 32usize == 0x1_0000_0000) by (bit_vector);
    assert(1usize >> 1usize == 0 && 2usize >> 1usize == 1 && 4usize >> 1usize == 2 && 8usize >> 1usize == 4) by (bit_vector);
}
pub broadcast group machine_facts { lemma_shr5, lemma_and31, lemma_shl8 }

/// One more byte of a big-endian number.
pub proof fn lemma_be_val_step(b: Seq<u8>, i: int)
    requires 0 <= i < b.len() <= 8
    ensures
        be_val(b.take(i + 1)) == be_val(b.take(i)) * 256 + b[i],
        0 <= be_val(b.take(i)) < p256(i as nat),
        be_val(b.take(i)) < 0x100_0000_0000_0000,
{
    assert(b.take(i + 1).drop_last() == b.take(i));
    lemma_be_val_bound(b.take(i));
    lemma_p256();
}

pub proof fn lemma_dec_arr_stable(b: Seq<u8>, k: nat, n: nat, limit: Option<int>, strict: bool)
    requires k <= n
    ensures dec_arr(b, k, limit, strict) is Err ==> dec_arr(b, n, limit, strict) == dec_arr(b, k, limit, strict)
    decreases n
{
    if k < n { lemma_dec_arr_stable(b, k, (n - 1) as nat, limit, strict); }
}
pub proof fn lemma_dec_map_stable(b: Seq<u8>, k: nat, n: nat, limit: Option<int>, strict: bool)
    requires k <= n
    ensures dec_map(b, k, limit, strict) is Err ==> dec_map(b, n, limit, strict) == dec_map(b, k, limit, strict)
    decreases n
{
    if k < n { lemma_dec_map_stable(b, k, (n - 1) as nat, limit, strict); }
}
pub proof fn lemma_vw_arr(v: Value) ensures v is Array ==> vw(v) == V::A(vseq(v->Array_0@)) {
    if let Value::Array(a) = v { assert(vw(v)->A_0 =~= vseq(a@)); }
}
pub proof fn lemma_vw_map(v: Value) ensures v is Map ==> vw(v) == V::M(vmap(v->Map_0@)) {
    if let Value::Map(a) = v { assert(vw(v)->M_0 =~= vmap(a@)); }
}

pub proof fn lemma_dec_map_zero(b: Seq<u8>, limit: Option<int>, strict: bool)
    ensures dec_map(b, 0, limit, strict) == Result::<(Seq<(V, V)>, Seq<u8>), DecoderError>::Ok((Seq::<(V, V)>::empty(), b))
{
}
/// One step of decoding entries.
pub proof fn lemma_dec_map_unfold(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool)
    requires n > 0
    ensures
        dec_map(b, n, limit, strict) == (match dec_map(b, (n - 1) as nat, limit, strict) {
            Err(e) => Result::<(Seq<(V, V)>, Seq<u8>), DecoderError>::Err(e),
            Ok((m, r)) => if r.len() > b.len() { arbitrary() } else {
                match dec(r, limit, strict) {
                    Err(e) => Err(e),
                    Ok((k, r2)) =>
                        if r2.len() > r.len() { arbitrary() }
                        else if strict && m.len() > 0 && !(ord(m.last().0, k) is Less) { Err(DecoderError::OutOfOrderKey) }
                        else {
                            match dec(r2, limit, strict) { Err(e) => Err(e), Ok((v, r3)) => Ok((m.push((k, v)), r3)) }
                        },
                }
            },
        })
{
}
pub proof fn lemma_seqs()
    ensures vseq(Seq::<Value>::empty()) == Seq::<V>::empty(), vmap(Seq::<(Value, Value)>::empty()) == Seq::<(V, V)>::empty()
{
    assert(vseq(Seq::<Value>::empty()) =~= Seq::<V>::empty());
    assert(vmap(Seq::<(Value, Value)>::empty()) =~= Seq::<(V, V)>::empty());
}
pub proof fn lemma_dec_arr_zero(b: Seq<u8>, limit: Option<int>, strict: bool)
    ensures dec_arr(b, 0, limit, strict) == Result::<(Seq<V>, Seq<u8>), DecoderError>::Ok((Seq::<V>::empty(), b))
{
}
/// One step of decoding elements.
pub proof fn lemma_dec_arr_unfold(b: Seq<u8>, n: nat, limit: Option<int>, strict: bool)
    requires n > 0
    ensures
        dec_arr(b, n, limit, strict) == (match dec_arr(b, (n - 1) as nat, limit, strict) {
            Err(e) => Result::<(Seq<V>, Seq<u8>), DecoderError>::Err(e),
            Ok((a, r)) => if r.len() > b.len() { arbitrary() } else {
                match dec(r, limit, strict) { Err(e) => Err(e), Ok((v, r2)) => Ok((a.push(v), r2)) }
            },
        })
{
}
pub proof fn lemma_tail(b: Seq<u8>)
    ensures b.len() > 0 ==> b.subrange(1, b.len() as int) == b.drop_first() && b.subrange(0, 1)[0] == b[0]
{
    if b.len() > 0 { assert(b.subrange(1, b.len() as int) =~= b.drop_first()); }
}
/// Decoding arrays and maps, with the callees hidden.
pub proof fn lemma_dec_containers(b: Seq<u8>, limit: Option<int>, strict: bool)
    ensures
        !(limit is Some && limit->0 < 0) && b.len() > 0 ==> (match dec_arg(b[0] as int % 32, b.drop_first(), strict) {
            Err(e) => true,
            Ok((n, r)) => r.len() < b.len() ==> {
                &&& b[0] as int / 32 == 4 ==> dec(b, limit, strict) == (match dec_arr(r, n as nat, down(limit), strict) { Err(e) => D::Err(e), Ok((a, r2)) => D::Ok((V::A(a), r2)) })
                &&& b[0] as int / 32 == 5 ==> dec(b, limit, strict) == (match dec_map(r, n as nat, down(limit), strict) { Err(e) => D::Err(e), Ok((m, r2)) => D::Ok((V::M(m), r2)) })
            },
        })
{
}
