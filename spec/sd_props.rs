// Serde: what serializing then deserializing gives, over the shapes that derived code has.
use vstd::utf8::*;
use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_code::*;
use crate::theorems::lemma_noteq;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*; use crate::typed_theorems::*;
use crate::sd::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::Encode;
use crate::oasis_cbor::serde::{from_value, from_slice, to_value, to_vec};
use crate::oasis_cbor::serde::error::{Error, unexpected};
use crate::oasis_cbor::serde::ser::Serializer as Ser;
use crate::oasis_cbor::serde::de::Deserializer as De;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use std::collections::BTreeMap;

/// A type, by the methods that derived and built-in impls call for it.
pub enum Sh {
    Bool,
    Int(int, int),
    U128,
    Char,
    Str,
    Bytes,
    Unit,
    Opt(Box<Sh>),
    New(Box<Sh>),
    Seq(Box<Sh>),
    Tuple(Seq<Sh>),
    Map(Box<Kt>),
    Struct(Seq<(Seq<char>, Sh)>),
    Enum(Seq<(Seq<char>, Vs)>),
}
pub struct Kt { pub k: Sh, pub t: Sh }
pub enum Vs { Unit, New(Box<Sh>), Tuple(Seq<Sh>), Struct(Seq<(Seq<char>, Sh)>) }
/// A value of the type. Excluded are present values that are written as null.
pub open spec fn fits(s: Sh, d: Data) -> bool
    decreases s, 0nat, 0nat
{
    match (s, d) {
        (Sh::Bool, Data::Bool(_)) => true,
        (Sh::Int(lo, hi), Data::Int(n)) => lo <= n <= hi && -0x8000_0000_0000_0000 <= n < two64(),
        (Sh::U128, Data::U128(n)) => 0 <= n <= u128::MAX,
        (Sh::Char, Data::Char(c)) => usv(c),
        (Sh::Str, Data::Str(_)) => true,
        (Sh::Bytes, Data::Bytes(_)) => true,
        (Sh::Unit, Data::Unit) => true,
        (Sh::Opt(_), Data::None) => true,
        (Sh::Opt(t), Data::Some(x)) => fits(*t, *x) && ser_v(*x) != Some(V::S(22)),
        (Sh::New(t), Data::Newtype(x)) => fits(*t, *x),
        (Sh::Seq(t), Data::List(l)) => fits_all(*t, l, l.len()),
        (Sh::Tuple(ts), Data::List(l)) => ts.len() == l.len() && fits_each(ts, l, l.len()),
        (Sh::Map(p), Data::Map(l)) => fits_map(*p, l, l.len()),
        (Sh::Struct(fs), Data::Struct(l)) => distinct(fs) && fs.len() == l.len() && fits_fields(fs, l, l.len()),
        (Sh::Enum(vs), Data::UnitVariant(n)) => 0 <= vidx(vs, n) < vs.len() && vs[vidx(vs, n)].1 is Unit,
        (Sh::Enum(vs), Data::NewtypeVariant(n, x)) => 0 <= vidx(vs, n) < vs.len() && match vs[vidx(vs, n)].1 { Vs::New(t) => fits(*t, *x), _ => false },
        (Sh::Enum(vs), Data::TupleVariant(n, l)) => 0 <= vidx(vs, n) < vs.len() && match vs[vidx(vs, n)].1 { Vs::Tuple(ts) => ts.len() == l.len() && fits_each(ts, l, l.len()), _ => false },
        (Sh::Enum(vs), Data::StructVariant(n, l)) => 0 <= vidx(vs, n) < vs.len() && match vs[vidx(vs, n)].1 { Vs::Struct(fs) => distinct(fs) && fs.len() == l.len() && fits_fields(fs, l, l.len()), _ => false },
        _ => false,
    }
}
pub open spec fn fits_all(t: Sh, l: Seq<Data>, n: nat) -> bool
    decreases t, 1nat, n
{
    n == 0 || n > l.len() || fits_all(t, l, (n - 1) as nat) && fits(t, l[n - 1])
}
pub open spec fn fits_each(ts: Seq<Sh>, l: Seq<Data>, n: nat) -> bool
    decreases ts, 1nat, n
{
    n == 0 || n > l.len() || n > ts.len() || fits_each(ts, l, (n - 1) as nat) && fits(ts[n - 1], l[n - 1])
}
pub open spec fn fits_map(p: Kt, l: Seq<(Data, Data)>, n: nat) -> bool
    decreases p, 1nat, n
{
    n == 0 || n > l.len() || fits_map(p, l, (n - 1) as nat) && fits(p.k, l[n - 1].0) && fits(p.t, l[n - 1].1)
}
pub open spec fn fits_fields(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>, n: nat) -> bool
    decreases fs, 1nat, n
{
    n == 0 || n > l.len() || n > fs.len() || fits_fields(fs, l, (n - 1) as nat) && fs[n - 1].0 == l[n - 1].0 && fits(fs[n - 1].1, l[n - 1].1)
}
/// Where a variant is declared.
pub open spec fn vidx(vs: Seq<(Seq<char>, Vs)>, n: Seq<char>) -> int { nidx(vnames(vs), encode_utf8(n)) }
pub open spec fn vnames(vs: Seq<(Seq<char>, Vs)>) -> Seq<Seq<char>> { Seq::new(vs.len(), |i: int| vs[i].0) }
pub open spec fn fnames(fs: Seq<(Seq<char>, Sh)>) -> Seq<Seq<char>> { Seq::new(fs.len(), |i: int| fs[i].0) }
/// The position of a name, -1 for none.
pub open spec fn nidx(ns: Seq<Seq<char>>, b: Seq<u8>) -> int
    decreases ns.len()
{
    if ns.len() == 0 { -1 } else if encode_utf8(ns.last()) == b { ns.len() - 1 } else { nidx(ns.drop_last(), b) }
}
#[verifier::opaque]
pub open spec fn small(a: Seq<V>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is U && a[i]->U_0 < 256 }
/// What a key names: derived code takes names, as text or bytes, and positions. -1: something unknown. -2: it is no key.
pub open spec fn named(ns: Seq<Seq<char>>, k: V) -> int {
    match k { V::U(n) => if 0 <= n < ns.len() { n } else { -1 }, V::T(b) => nidx(ns, b), V::B(b) => nidx(ns, b), _ => -2 }
}
pub open spec fn distinct(fs: Seq<(Seq<char>, Sh)>) -> bool { forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).0 != (#[trigger] fs[j]).0 }
/// What can be passed over: anything without a tag.
pub open spec fn passes(v: V) -> bool
    decreases v, 0nat
{
    match v { V::Tag(..) => false, V::A(a) => pass_arr(a, a.len()), V::M(m) => pass_map(m, m.len()), _ => true }
}
pub open spec fn pass_arr(a: Seq<V>, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.len() || pass_arr(a, (n - 1) as nat) && passes(a[n - 1]) }
pub open spec fn pass_map(m: Seq<(V, V)>, n: nat) -> bool
    decreases m, n
{ n == 0 || n > m.len() || pass_map(m, (n - 1) as nat) && passes(m[n - 1].0) && passes(m[n - 1].1) }
/// The entries of a struct: every key is one, no field is named twice, and what is unknown can be passed over.
#[verifier::opaque]
pub open spec fn entries_ok(ns: Seq<Seq<char>>, m: Seq<(V, V)>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> named(ns, (#[trigger] m[i]).0) >= -1 && (named(ns, m[i].0) == -1 ==> passes(m[i].1))
    &&& forall|i: int, j: int| 0 <= i < j < m.len() && named(ns, (#[trigger] m[i]).0) >= 0 ==> named(ns, m[i].0) != named(ns, (#[trigger] m[j]).0)
}
/// The content of the entry that names field i.
pub open spec fn at(ns: Seq<Seq<char>>, m: Seq<(V, V)>, i: int) -> Option<V>
    decreases m.len()
{
    if m.len() == 0 { None } else if named(ns, m.last().0) == i { Some(m.last().1) } else { at(ns, m.drop_last(), i) }
}
/// What serde's own and derived code makes of an item, by what the deserializer tells it.
pub open spec fn read(s: Sh, v: V) -> Option<Data>
    decreases s, 0nat, 0nat
{
    match s {
        Sh::Bool => match any_ev(v) { Ok(Ev::Bool(b)) => Some(Data::Bool(b)), _ => None },
        Sh::Int(lo, hi) => match any_ev(v) {
            Ok(Ev::U64(n)) => if lo <= n <= hi { Some(Data::Int(n)) } else { None },
            Ok(Ev::I64(n)) => if lo <= n <= hi { Some(Data::Int(n)) } else { None },
            Ok(Ev::I128(n)) => if lo <= n <= hi { Some(Data::Int(n)) } else { None },
            _ => None,
        },
        Sh::U128 => match u128_ev(v) { Ok(Ev::U128(n)) => Some(Data::U128(n)), _ => None },
        Sh::Char => match char_ev(v) { Ok(Ev::Char(n)) => Some(Data::Char(n)), _ => None },
        Sh::Str => match any_ev(v) { Ok(Ev::Str(b)) => Some(Data::Str(decode_utf8(b))), Ok(Ev::Bytes(b)) => if valid_utf8(b) { Some(Data::Str(decode_utf8(b))) } else { None }, _ => None },
        Sh::Bytes => match any_ev(v) {
            Ok(Ev::Bytes(b)) => Some(Data::Bytes(b)),
            Ok(Ev::Str(b)) => Some(Data::Bytes(b)),
            Ok(Ev::Seq(a)) => if small(a) { Some(Data::Bytes(Seq::new(a.len(), |i: int| a[i]->U_0 as u8))) } else { None },
            _ => None,
        },
        Sh::Unit => match any_ev(v) { Ok(Ev::Unit) => Some(Data::Unit), _ => None },
        Sh::Opt(t) => match option_ev(v) { Ok(Ev::None) => Some(Data::None), Ok(Ev::Some(x)) => match read(*t, x) { Some(d) => Some(Data::Some(Box::new(d))), None => None }, _ => None },
        Sh::New(t) => match any_ev(v) { Ok(Ev::Seq(a)) => if a.len() == 0 { None } else { match read(*t, a[0]) { Some(d) => Some(Data::Newtype(Box::new(d))), None => None } }, _ => None },
        Sh::Seq(t) => match seq_ev(v) { Ok(Ev::Seq(a)) => match read_all(*t, a, a.len()) { Some(l) => Some(Data::List(l)), None => None }, _ => None },
        Sh::Tuple(ts) => match any_ev(v) { Ok(Ev::Seq(a)) => match read_each(ts, a, ts.len()) { Some(l) => Some(Data::List(l)), None => None }, _ => None },
        Sh::Map(p) => match map_ev(v) { Ok(Ev::Map(m)) => match read_map(*p, m, m.len()) { Some(l) => Some(Data::Map(l)), None => None }, _ => None },
        Sh::Struct(fs) => match map_ev(v) { Ok(Ev::Map(m)) => match read_struct(fs, m) { Some(l) => Some(Data::Struct(l)), None => None }, _ => None },
        Sh::Enum(vs) => match enum_ev(v) { Ok(Ev::Enum(n, x)) => read_variant(vs, named(vnames(vs), n), x), _ => None },
    }
}
pub open spec fn read_variant(vs: Seq<(Seq<char>, Vs)>, i: int, x: V) -> Option<Data>
    decreases vs, 3nat, 0nat
{
    if 0 <= i < vs.len() {
        match vs[i].1 {
            Vs::Unit => if x == V::S(22) { Some(Data::UnitVariant(vs[i].0)) } else { None },
            Vs::New(t) => match read(*t, x) { Some(d) => Some(Data::NewtypeVariant(vs[i].0, Box::new(d))), None => None },
            Vs::Tuple(ts) => match seq_ev(x) { Ok(Ev::Seq(a)) => match read_each(ts, a, ts.len()) { Some(l) => Some(Data::TupleVariant(vs[i].0, l)), None => None }, _ => None },
            Vs::Struct(fs) => match map_ev(x) { Ok(Ev::Map(m)) => match read_struct(fs, m) { Some(l) => Some(Data::StructVariant(vs[i].0, l)), None => None }, _ => None },
        }
    } else { None }
}
pub open spec fn read_struct(fs: Seq<(Seq<char>, Sh)>, m: Seq<(V, V)>) -> Option<Seq<(Seq<char>, Data)>>
    decreases fs, 2nat, 0nat
{
    if entries_ok(fnames(fs), m) { read_fields(fs, m, fs.len()) } else { None }
}
pub open spec fn read_all(t: Sh, a: Seq<V>, n: nat) -> Option<Seq<Data>>
    decreases t, 1nat, n
{
    if n == 0 || n > a.len() { Some(Seq::empty()) } else {
        match read_all(t, a, (n - 1) as nat) { None => None, Some(l) => match read(t, a[n - 1]) { None => None, Some(d) => Some(l.push(d)) } }
    }
}
pub open spec fn read_each(ts: Seq<Sh>, a: Seq<V>, n: nat) -> Option<Seq<Data>>
    decreases ts, 1nat, n
{
    if n == 0 || n > ts.len() { Some(Seq::empty()) } else if n > a.len() { None } else {
        match read_each(ts, a, (n - 1) as nat) { None => None, Some(l) => match read(ts[n - 1], a[n - 1]) { None => None, Some(d) => Some(l.push(d)) } }
    }
}
pub open spec fn read_map(p: Kt, m: Seq<(V, V)>, n: nat) -> Option<Seq<(Data, Data)>>
    decreases p, 1nat, n
{
    if n == 0 || n > m.len() { Some(Seq::empty()) } else {
        match read_map(p, m, (n - 1) as nat) { None => None, Some(l) => match (read(p.k, m[n - 1].0), read(p.t, m[n - 1].1)) { (Some(a), Some(b)) => Some(l.push((a, b))), _ => None } }
    }
}
pub open spec fn read_fields(fs: Seq<(Seq<char>, Sh)>, m: Seq<(V, V)>, n: nat) -> Option<Seq<(Seq<char>, Data)>>
    decreases fs, 1nat, n
{
    if n == 0 || n > fs.len() { Some(Seq::empty()) } else {
        match read_fields(fs, m, (n - 1) as nat) { None => None, Some(l) => match at(fnames(fs), m, n - 1) { None => if fs[n - 1].1 is Opt { Some(l.push((fs[n - 1].0, Data::None))) } else { None }, Some(v) => match read(fs[n - 1].1, v) { None => None, Some(d) => Some(l.push((fs[n - 1].0, d))) } } }
    }
}

// ------------------------------------------------------------------ C16

pub proof fn lemma_text(s: Seq<char>) ensures valid_utf8(encode_utf8(s)), decode_utf8(encode_utf8(s)) == s { lemma_utf8(s); encode_utf8_valid_utf8(s); }
pub proof fn lemma_text_inj(a: Seq<char>, b: Seq<char>) requires text(a) == text(b) ensures a == b { lemma_text(a); lemma_text(b); assert(text(a)->T_0 == text(b)->T_0); }
pub proof fn lemma_at(ns: Seq<Seq<char>>, m: Seq<(V, V)>, i: int)
    requires 0 <= i < m.len(), named(ns, m[i].0) >= 0, entries_ok(ns, m)
    ensures at(ns, m, named(ns, m[i].0)) == Some(m[i].1)
    decreases m.len()
{
    reveal(entries_ok);
    if i < m.len() - 1 {
        let d = m.drop_last();
        assert(d[i] == m[i]);
        assert(m.last() == m[m.len() - 1]);
        assert(named(ns, m[i].0) != named(ns, m[m.len() - 1].0));
        assert(entries_ok(ns, d)) by {
            assert forall|i: int| 0 <= i < d.len() implies named(ns, (#[trigger] d[i]).0) >= -1 && (named(ns, d[i].0) == -1 ==> passes(d[i].1)) by { assert(d[i] == m[i]); }
            assert forall|i: int, j: int| 0 <= i < j < d.len() && named(ns, (#[trigger] d[i]).0) >= 0 implies named(ns, d[i].0) != named(ns, (#[trigger] d[j]).0) by { assert(d[i] == m[i] && d[j] == m[j]); }
        }
        lemma_at(ns, d, i);
    }
}
pub proof fn lemma_enc_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b { lemma_text(a); lemma_text(b); }
/// The name at a position, when no later one is the same, has that position.
pub proof fn lemma_nidx(ns: Seq<Seq<char>>, i: int)
    requires 0 <= i < ns.len(), forall|j: int| i < j < ns.len() ==> #[trigger] ns[j] != ns[i]
    ensures nidx(ns, encode_utf8(ns[i])) == i
    decreases ns.len()
{
    if i < ns.len() - 1 {
        assert(ns.last() == ns[ns.len() - 1]);
        if encode_utf8(ns.last()) == encode_utf8(ns[i]) { lemma_enc_inj(ns.last(), ns[i]); }
        assert(ns.drop_last()[i] == ns[i]);
        assert forall|j: int| i < j < ns.drop_last().len() implies #[trigger] ns.drop_last()[j] != ns[i] by { assert(ns[j] != ns[i]); }
        lemma_nidx(ns.drop_last(), i);
    }
}
/// A name that is found is the one at that position.
pub proof fn lemma_nidx_name(ns: Seq<Seq<char>>, n: Seq<char>)
    ensures -1 <= nidx(ns, encode_utf8(n)) < ns.len(), nidx(ns, encode_utf8(n)) >= 0 ==> ns[nidx(ns, encode_utf8(n))] == n
    decreases ns.len()
{
    if ns.len() > 0 {
        if encode_utf8(ns.last()) == encode_utf8(n) { lemma_enc_inj(ns.last(), n); } else { lemma_nidx_name(ns.drop_last(), n); let i = nidx(ns.drop_last(), encode_utf8(n)); if i >= 0 { assert(ns[i] == ns.drop_last()[i]); } }
    }
}
pub proof fn lemma_whole_list(l: Seq<Data>)
    ensures ser_list(l, l.len()) is Some ==> ser_list(l, l.len())->Some_0.len() == l.len() && ser_list(l, l.len())->Some_0.subrange(0, l.len() as int) == ser_list(l, l.len())->Some_0, l.subrange(0, l.len() as int) == l
{ lemma_list_len(l, l.len()); assert(l.subrange(0, l.len() as int) =~= l); let a = ser_list(l, l.len()); if a is Some { assert(a->Some_0.subrange(0, l.len() as int) =~= a->Some_0); } }
pub proof fn lemma_whole_map(l: Seq<(Data, Data)>)
    ensures ser_map(l, l.len()) is Some ==> ser_map(l, l.len())->Some_0.len() == l.len() && ser_map(l, l.len())->Some_0.subrange(0, l.len() as int) == ser_map(l, l.len())->Some_0, l.subrange(0, l.len() as int) == l
{ lemma_map_len(l, l.len()); assert(l.subrange(0, l.len() as int) =~= l); let a = ser_map(l, l.len()); if a is Some { assert(a->Some_0.subrange(0, l.len() as int) =~= a->Some_0); } }
pub proof fn lemma_whole_fields(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>)
    requires distinct(fs), fs.len() == l.len(), fits_fields(fs, l, l.len())
    ensures
        ser_fields(l, l.len()) is Some ==> {
            let m = ser_fields(l, l.len())->Some_0;
            m.len() == fs.len() && entries_ok(fnames(fs), m)
                && (forall|i: int| 0 <= i < l.len() ==> named(fnames(fs), (#[trigger] m[i]).0) == i && m[i].1 == ser_v(l[i].1)->Some_0)
        },
        l.subrange(0, l.len() as int) == l,
{
    assert(l.subrange(0, l.len() as int) =~= l);
    lemma_names(fs, l, l.len());
    if ser_fields(l, l.len()) is Some {
        lemma_fields_at(l, l.len());
        let m = ser_fields(l, l.len())->Some_0;
        let ns = fnames(fs);
        assert forall|i: int| 0 <= i < l.len() implies named(ns, (#[trigger] m[i]).0) == i && m[i].1 == ser_v(l[i].1)->Some_0 by {
            assert(field_ok(l, m, i));
            assert(fs[i].0 == l[i].0);
            assert(ns[i] == fs[i].0);
            assert(m[i].0 == text(ns[i]));
            assert forall|j: int| i < j < ns.len() implies #[trigger] ns[j] != ns[i] by { assert(fs[i].0 != fs[j].0); }
            lemma_nidx(ns, i);
        }
        reveal(entries_ok);
    }
}
pub proof fn lemma_names(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>, n: nat)
    requires n <= l.len(), n <= fs.len(), fits_fields(fs, l, n)
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] fs[i]).0 == l[i].0
    decreases n
{ if n > 0 { lemma_names(fs, l, (n - 1) as nat); } }
/// Where the serializer writes an item, reading gives the value back.
pub proof fn lemma_back(s: Sh, d: Data)
    requires fits(s, d)
    ensures ser_v(d) is Some, read(s, ser_v(d)->Some_0) == Some(d)
    decreases s, 0nat, 0nat
{
    match (s, d) {
        (Sh::Str, Data::Str(x)) => { lemma_text(x); }
        (Sh::U128, Data::U128(n)) => { lemma_be_min(n); lemma_u128_zeros(n as u128); lemma_be_len(n, be_len(n)); }
        (Sh::Opt(t), Data::Some(x)) => { lemma_fits_inner(s, d); lemma_back(*t, *x); lemma_back_inner(*t, *x); }
        (Sh::New(t), Data::Newtype(x)) => { lemma_fits_inner(s, d); lemma_back(*t, *x); lemma_back_inner(*t, *x); }
        (Sh::Seq(t), Data::List(l)) => { lemma_whole_list(l); lemma_back_all(*t, l, l.len(), ser_list(l, l.len())->Some_0); }
        (Sh::Tuple(ts), Data::List(l)) => { lemma_whole_list(l); lemma_back_each(ts, l, l.len(), ser_list(l, l.len())->Some_0); }
        (Sh::Map(p), Data::Map(l)) => { lemma_whole_map(l); lemma_back_map(*p, l, l.len(), ser_map(l, l.len())->Some_0); }
        (Sh::Struct(fs), Data::Struct(l)) => { lemma_fits_struct(fs, l); lemma_back_fields(fs, l, l.len(), ser_fields(l, l.len())->Some_0); lemma_back_struct(fs, l); }
        (Sh::Enum(vs), _) => { lemma_back_enum(vs, d); }
        _ => {}
    }
}
pub proof fn lemma_one_of(vs: Seq<(Seq<char>, Vs)>, n: Seq<char>, x: V)
    ensures
        read(Sh::Enum(vs), one_of(text(n), x)) == read_variant(vs, vidx(vs, n), x),
        read(Sh::Enum(vs), text(n)) == read_variant(vs, vidx(vs, n), V::S(22)),
        0 <= vidx(vs, n) < vs.len() ==> vs[vidx(vs, n)].0 == n,
{
    lemma_nidx_name(vnames(vs), n);
    assert(enum_ev(one_of(text(n), x)) == Ok::<Ev, No>(Ev::Enum(text(n), x)));
}
pub proof fn lemma_fits_new(vs: Seq<(Seq<char>, Vs)>, n: Seq<char>, x: Data)
    requires fits(Sh::Enum(vs), Data::NewtypeVariant(n, Box::new(x)))
    ensures 0 <= vidx(vs, n) < vs.len(), vs[vidx(vs, n)].1 is New, fits(*vs[vidx(vs, n)].1->New_0, x)
{}
pub proof fn lemma_back_new(vs: Seq<(Seq<char>, Vs)>, n: Seq<char>, t: Sh, x: Data)
    requires 0 <= vidx(vs, n) < vs.len(), vs[vidx(vs, n)].1 == Vs::New(Box::new(t)), ser_v(x) is Some, read(t, ser_v(x)->Some_0) == Some(x)
    ensures ser_v(Data::NewtypeVariant(n, Box::new(x))) is Some, read(Sh::Enum(vs), ser_v(Data::NewtypeVariant(n, Box::new(x)))->Some_0) == Some(Data::NewtypeVariant(n, Box::new(x)))
{
    let v = ser_v(x)->Some_0;
    let d = Data::NewtypeVariant(n, Box::new(x));
    lemma_one_of(vs, n, v);
    assert(ser_v(d) == Some(one_of(text(n), v)));
}
pub proof fn lemma_fits_struct(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>)
    requires fits(Sh::Struct(fs), Data::Struct(l))
    ensures
        fs.len() == l.len(), fits_fields(fs, l, l.len()),
        ser_fields(l, l.len()) is Some ==> {
            let m = ser_fields(l, l.len())->Some_0;
            m.len() == fs.len() && entries_ok(fnames(fs), m)
                && (forall|i: int| 0 <= i < l.len() ==> named(fnames(fs), (#[trigger] m[i]).0) == i && m[i].1 == ser_v(l[i].1)->Some_0)
        },
{ lemma_whole_fields(fs, l); }
pub proof fn lemma_back_struct(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>)
    requires fs.len() == l.len(), ser_fields(l, l.len()) is Some, entries_ok(fnames(fs), ser_fields(l, l.len())->Some_0), read_fields(fs, ser_fields(l, l.len())->Some_0, l.len()) == Some(l.subrange(0, l.len() as int))
    ensures ser_v(Data::Struct(l)) is Some, read(Sh::Struct(fs), ser_v(Data::Struct(l))->Some_0) == Some(Data::Struct(l))
{
    assert(l.subrange(0, l.len() as int) =~= l);
    let m = ser_fields(l, l.len())->Some_0;
    assert(ser_v(Data::Struct(l)) == Some(V::M(m)));
    assert(read_struct(fs, m) == Some(l));
    assert(map_ev(V::M(m)) == Ok::<Ev, No>(Ev::Map(m)));
    assert(read(Sh::Struct(fs), V::M(m)) == Some(Data::Struct(l)));
}
pub proof fn lemma_fits_inner(s: Sh, d: Data)
    requires fits(s, d)
    ensures match (s, d) { (Sh::Opt(t), Data::Some(x)) => fits(*t, *x) && ser_v(*x) != Some(V::S(22)), (Sh::New(t), Data::Newtype(x)) => fits(*t, *x), _ => true }
{}
pub proof fn lemma_back_inner(t: Sh, x: Data)
    requires ser_v(x) is Some, read(t, ser_v(x)->Some_0) == Some(x)
    ensures
        ser_v(Data::Newtype(Box::new(x))) is Some, read(Sh::New(Box::new(t)), ser_v(Data::Newtype(Box::new(x)))->Some_0) == Some(Data::Newtype(Box::new(x))),
        ser_v(x) != Some(V::S(22)) ==> read(Sh::Opt(Box::new(t)), ser_v(Data::Some(Box::new(x)))->Some_0) == Some(Data::Some(Box::new(x))),
{
    let v = ser_v(x)->Some_0;
    assert(ser_v(Data::Newtype(Box::new(x))) == Some(V::A(seq![v])));
    assert(ser_v(Data::Some(Box::new(x))) == Some(v));
}
pub proof fn lemma_back_enum(vs: Seq<(Seq<char>, Vs)>, d: Data)
    requires fits(Sh::Enum(vs), d)
    ensures ser_v(d) is Some, read(Sh::Enum(vs), ser_v(d)->Some_0) == Some(d)
    decreases vs, 3nat, 0nat
{
    match d {
        Data::UnitVariant(n) => { lemma_one_of(vs, n, V::S(22)); }
        Data::NewtypeVariant(n, x) => { lemma_fits_new(vs, n, *x); let t = vs[vidx(vs, n)].1->New_0; lemma_back(*t, *x); lemma_back_new(vs, n, *t, *x); }
        Data::TupleVariant(n, l) => { match vs[vidx(vs, n)].1 { Vs::Tuple(ts) => { lemma_whole_list(l); lemma_back_each(ts, l, l.len(), ser_list(l, l.len())->Some_0); lemma_one_of(vs, n, V::A(ser_list(l, l.len())->Some_0)); }, _ => {} } }
        Data::StructVariant(n, l) => { match vs[vidx(vs, n)].1 { Vs::Struct(fs) => { lemma_whole_fields(fs, l); lemma_back_fields(fs, l, l.len(), ser_fields(l, l.len())->Some_0); lemma_one_of(vs, n, V::M(ser_fields(l, l.len())->Some_0)); }, _ => {} } }
        _ => {}
    }
}
pub proof fn lemma_back_all(t: Sh, l: Seq<Data>, n: nat, a: Seq<V>)
    requires n <= l.len(), fits_all(t, l, n), ser_list(l, n) is Some ==> a.len() >= n && a.subrange(0, n as int) == ser_list(l, n)->Some_0
    ensures ser_list(l, n) is Some, ser_list(l, n)->Some_0.len() == n, read_all(t, a, n) == Some(l.subrange(0, n as int))
    decreases t, 1nat, n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_back(t, l[m as int]);
        lemma_list_prefix(l, n, a);
        lemma_back_all(t, l, m, a);
        assert(a[m as int] == a.subrange(0, n as int)[m as int]);
        assert(l.subrange(0, n as int) =~= l.subrange(0, m as int).push(l[m as int]));
    } else { assert(l.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_list_prefix(l: Seq<Data>, n: nat, a: Seq<V>)
    requires 0 < n <= l.len(), ser_v(l[n - 1]) is Some, ser_list(l, n) is Some ==> a.len() >= n && a.subrange(0, n as int) == ser_list(l, n)->Some_0
    ensures ser_list(l, (n - 1) as nat) is Some ==> a.len() >= n - 1 && a.subrange(0, n - 1) == ser_list(l, (n - 1) as nat)->Some_0
{
    lemma_list_len(l, (n - 1) as nat);
    if ser_list(l, (n - 1) as nat) is Some { assert(a.subrange(0, n - 1) =~= a.subrange(0, n as int).drop_last()); assert(ser_list(l, (n - 1) as nat)->Some_0 =~= ser_list(l, n)->Some_0.drop_last()); }
}
pub proof fn lemma_list_len(l: Seq<Data>, n: nat) requires n <= l.len() ensures ser_list(l, n) is Some ==> ser_list(l, n)->Some_0.len() == n decreases n { if n > 0 { lemma_list_len(l, (n - 1) as nat); } }
pub proof fn lemma_map_len(l: Seq<(Data, Data)>, n: nat) requires n <= l.len() ensures ser_map(l, n) is Some ==> ser_map(l, n)->Some_0.len() == n decreases n { if n > 0 { lemma_map_len(l, (n - 1) as nat); } }
pub proof fn lemma_back_each(ts: Seq<Sh>, l: Seq<Data>, n: nat, a: Seq<V>)
    requires n <= l.len(), n <= ts.len(), fits_each(ts, l, n), ser_list(l, n) is Some ==> a.len() >= n && a.subrange(0, n as int) == ser_list(l, n)->Some_0
    ensures ser_list(l, n) is Some, ser_list(l, n)->Some_0.len() == n, read_each(ts, a, n) == Some(l.subrange(0, n as int))
    decreases ts, 1nat, n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_back(ts[m as int], l[m as int]);
        lemma_list_prefix(l, n, a);
        lemma_back_each(ts, l, m, a);
        assert(a[m as int] == a.subrange(0, n as int)[m as int]);
        assert(l.subrange(0, n as int) =~= l.subrange(0, m as int).push(l[m as int]));
    } else { assert(l.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_back_map(p: Kt, l: Seq<(Data, Data)>, n: nat, a: Seq<(V, V)>)
    requires n <= l.len(), fits_map(p, l, n), ser_map(l, n) is Some ==> a.len() >= n && a.subrange(0, n as int) == ser_map(l, n)->Some_0
    ensures ser_map(l, n) is Some, ser_map(l, n)->Some_0.len() == n, read_map(p, a, n) == Some(l.subrange(0, n as int))
    decreases p, 1nat, n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_back(p.k, l[m as int].0);
        lemma_back(p.t, l[m as int].1);
        lemma_map_len(l, m);
        if ser_map(l, m) is Some { assert(a.subrange(0, n - 1) =~= a.subrange(0, n as int).drop_last()); assert(ser_map(l, m)->Some_0 =~= ser_map(l, n)->Some_0.drop_last()); }
        lemma_back_map(p, l, m, a);
        assert(a[m as int] == a.subrange(0, n as int)[m as int]);
        assert(l.subrange(0, n as int) =~= l.subrange(0, m as int).push(l[m as int]));
    } else { assert(l.subrange(0, 0) =~= Seq::empty()); }
}
pub open spec fn field_ok(l: Seq<(Seq<char>, Data)>, b: Seq<(V, V)>, i: int) -> bool { ser_v(l[i].1) is Some && b[i] == (text(l[i].0), ser_v(l[i].1)->Some_0) }
pub proof fn lemma_fields_at(l: Seq<(Seq<char>, Data)>, n: nat)
    requires n <= l.len(), ser_fields(l, n) is Some
    ensures ser_fields(l, n)->Some_0.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] field_ok(l, ser_fields(l, n)->Some_0, i)
    decreases n
{
    if n > 0 {
        lemma_fields_at(l, (n - 1) as nat);
        let a = ser_fields(l, (n - 1) as nat)->Some_0;
        let b = ser_fields(l, n)->Some_0;
        assert(b == a.push((text(l[n - 1].0), ser_v(l[n - 1].1)->Some_0)));
        assert forall|i: int| 0 <= i < n implies #[trigger] field_ok(l, b, i) by { if i < n - 1 { assert(field_ok(l, a, i)); assert(a[i] == b[i]); } }
    }
}
pub proof fn lemma_fields_some(l: Seq<(Seq<char>, Data)>, n: nat)
    requires n <= l.len(), forall|i: int| 0 <= i < n ==> ser_v((#[trigger] l[i]).1) is Some
    ensures ser_fields(l, n) is Some
    decreases n
{ if n > 0 { lemma_fields_some(l, (n - 1) as nat); assert(ser_v(l[n - 1].1) is Some); } }
pub proof fn lemma_back_fields(fs: Seq<(Seq<char>, Sh)>, l: Seq<(Seq<char>, Data)>, n: nat, m: Seq<(V, V)>)
    requires
        n <= l.len(), n <= fs.len(), fits_fields(fs, l, n),
        ser_fields(l, l.len()) is Some ==> entries_ok(fnames(fs), m) && l.len() <= m.len() && forall|i: int| 0 <= i < l.len() ==> named(fnames(fs), (#[trigger] m[i]).0) == i && m[i].1 == ser_v(l[i].1)->Some_0,
    ensures
        ser_fields(l, n) is Some,
        ser_fields(l, l.len()) is Some ==> read_fields(fs, m, n) == Some(l.subrange(0, n as int)),
    decreases fs, 1nat, n
{
    if n > 0 {
        let k = (n - 1) as nat;
        lemma_back(fs[k as int].1, l[k as int].1);
        lemma_back_fields(fs, l, k, m);
        if ser_fields(l, l.len()) is Some { assert(named(fnames(fs), m[k as int].0) == k); lemma_at(fnames(fs), m, k as int); }
        assert(l.subrange(0, n as int) =~= l.subrange(0, k as int).push(l[k as int]));
    } else { assert(l.subrange(0, 0) =~= Seq::empty()); }
}
/// A type whose impls of serde's traits are derived or built in. That derived code drives a serializer by its fields
/// and reads as `read` says is assumed.
pub trait Derived: Serialize + DeserializeOwned {
    spec fn shape() -> Sh;
    proof fn law(v: V, r: Result<Self, Error>)
        requires Self::reads(v, r)
        ensures match read(Self::shape(), v) { Some(d) => r is Ok && r->Ok_0.data() == d, None => r is Err };
}
/// Serializing and deserializing gives an equal value.
pub fn c16_roundtrip<T: Derived>(x: &T)
    requires fits(T::shape(), x.data())
{
    proof { lemma_back(T::shape(), x.data()); }
    let v = to_value(x);
    assert(v is Ok);
    if let Ok(v) = v {
        let ghost w = vw(v);
        let r = from_value::<T>(v);
        proof { T::law(w, r); }
        assert(r is Ok && r->Ok_0.data() == x.data());
    }
}
/// The same through bytes, where the item is canonical as it is.
pub fn c16_bytes<T: Derived>(x: &T)
    requires fits(T::shape(), x.data()), wf(ser_v(x.data())->Some_0), canon(ser_v(x.data())->Some_0), within(ser_v(x.data())->Some_0, Some(64int))
{
    proof { lemma_back(T::shape(), x.data()); }
    let ghost v = ser_v(x.data())->Some_0;
    proof { lemma_canon_norm(v); }
    if let Ok(b) = to_vec(x) {
        proof {
            let none = Seq::<u8>::empty();
            lemma_dec_enc(v, none, Some(64int), true);
            assert(enc(v) + none =~= b@);
        }
        let r = from_slice::<T>(b.as_slice());
        proof { T::law(v, r); }
        assert(r is Ok && r->Ok_0.data() == x.data());
    }
}
/// Scalars, options, sequences and string-keyed maps are written as the native traits write them.
pub proof fn c16_native(a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: u128, j: bool, k: char, s: String)
    ensures
        ser_v(Data::Int(a as int)) == Some(a.e()), ser_v(Data::Int(b as int)) == Some(b.e()), ser_v(Data::Int(c as int)) == Some(c.e()), ser_v(Data::Int(d as int)) == Some(d.e()),
        ser_v(Data::Int(e as int)) == Some(e.e()), ser_v(Data::Int(f as int)) == Some(f.e()), ser_v(Data::Int(g as int)) == Some(g.e()), ser_v(Data::Int(h as int)) == Some(h.e()),
        ser_v(Data::U128(i as int)) == Some(i.e()), ser_v(Data::Bool(j)) == Some(j.e()), ser_v(Data::Char(k as int)) == Some(k.e()), ser_v(Data::Str(s@)) == Some(s.e()),
        ser_v(Data::Unit) == Some(().e()), ser_v(Data::None) == Some(None::<u8>.e()),
{}
pub proof fn c16_native_option<T: Encode>(x: T, d: Data)
    requires ser_v(d) == Some(x.e())
    ensures ser_v(Data::Some(Box::new(d))) == Some(Some(x).e())
{}
pub proof fn c16_native_seq<T: Encode>(x: Vec<T>, s: Seq<Data>)
    requires !T::is_byte(), s.len() == x@.len(), forall|i: int| 0 <= i < s.len() ==> ser_v(#[trigger] s[i]) == Some(x@[i].e())
    ensures ser_v(Data::List(s)) == Some(x.e())
{
    lemma_list_items(s, s.len(), e_seq(x@));
    assert(ser_list(s, s.len())->Some_0 =~= e_seq(x@));
}
pub proof fn lemma_list_items(s: Seq<Data>, n: nat, a: Seq<V>)
    requires n <= s.len(), n <= a.len(), forall|i: int| 0 <= i < n ==> ser_v(#[trigger] s[i]) == Some(a[i])
    ensures ser_list(s, n) == Some(a.subrange(0, n as int))
    decreases n
{
    if n > 0 { lemma_list_items(s, (n - 1) as nat, a); assert(ser_v(s[n - 1]) == Some(a[n - 1])); assert(a.subrange(0, n as int) =~= a.subrange(0, n - 1).push(a[n - 1])); }
    else { assert(a.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn c16_native_map<T: Encode>(x: BTreeMap<String, T>, s: Seq<(Data, Data)>)
    requires ({
        let m = vx_items::<(String, T), BTreeMap<String, T>>(x);
        s.len() == m.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == Data::Str(m[i].0@) && ser_v(s[i].1) == Some(m[i].1.e())
    })
    ensures ser_v(Data::Map(s)) == Some(x.e())
{
    let m = vx_items::<(String, T), BTreeMap<String, T>>(x);
    lemma_map_items(s, s.len(), e_pairs(m));
    assert(ser_map(s, s.len())->Some_0 =~= e_pairs(m));
}
pub proof fn lemma_map_items(s: Seq<(Data, Data)>, n: nat, a: Seq<(V, V)>)
    requires n <= s.len(), n <= a.len(), forall|i: int| 0 <= i < n ==> ser_v((#[trigger] s[i]).0) == Some(a[i].0) && ser_v(s[i].1) == Some(a[i].1)
    ensures ser_map(s, n) == Some(a.subrange(0, n as int))
    decreases n
{
    if n > 0 { lemma_map_items(s, (n - 1) as nat, a); assert(ser_v(s[n - 1].0) == Some(a[n - 1].0)); assert(a.subrange(0, n as int) =~= a.subrange(0, n - 1).push(a[n - 1])); }
    else { assert(a.subrange(0, 0) =~= Seq::empty()); }
}
/// Floating point and tags are refused.
pub fn c16_refused<'de, W: Visitor<'de>>(x: f32, y: f64, v: Value, w: W, n: u8) {
    let mut s = Ser;
    if n == 0 { let r = s.serialize_f32(x); assert(r is Err && r->Err_0 is UnsupportedType); }
    else if n == 1 { let r = s.serialize_f64(y); assert(r is Err && r->Err_0 is UnsupportedType); }
    else if n == 2 { let r = De::from_cbor_value(v).deserialize_f32(w); assert(r is Err && r->Err_0 is UnsupportedType); }
    else if n == 3 { let r = De::from_cbor_value(v).deserialize_f64(w); assert(r is Err && r->Err_0 is UnsupportedType); }
    else { let r = De::from_cbor_value(v).deserialize_any(w); assert(vw(v) is Tag ==> r is Err && r->Err_0 is UnsupportedType); }
}

// ------------------------------------------------------------------ C17

/// The number that a visitor is called with.
pub open spec fn number(e: Result<Ev, No>) -> Option<int> { match e { Ok(Ev::U64(n)) => Some(n), Ok(Ev::I64(n)) => Some(n), Ok(Ev::I128(n)) => Some(n), Ok(Ev::U128(n)) => Some(n), _ => None } }
/// An integer is passed on as itself, in a type that holds it, whatever integer type is asked for; nothing else is passed on as one.
pub fn c17_exact<'de, W: Visitor<'de>>(v: Value, w: W, n: u8)
    requires wf(vw(v))
{
    let ghost x = vw(v);
    let ghost e = any_ev(x);
    let d = De::from_cbor_value(v);
    let r = if n == 0 { d.deserialize_i8(w) } else if n == 1 { d.deserialize_i16(w) } else if n == 2 { d.deserialize_i32(w) } else if n == 3 { d.deserialize_i64(w) }
        else if n == 4 { d.deserialize_u8(w) } else if n == 5 { d.deserialize_u16(w) } else if n == 6 { d.deserialize_u32(w) } else if n == 7 { d.deserialize_u64(w) }
        else if n == 8 { d.deserialize_i128(w) } else { d.deserialize_any(w) };
    assert(delivered(w, e, r));
    proof {
    match x {
        V::U(k) => { assert(number(e) == Some(k) && 0 <= k <= u64::MAX && e == Ok::<Ev, No>(Ev::U64(k))); }
        V::N(k) => { assert(number(e) == Some(k) && i128::MIN <= k < 0); assert(k < i64::MIN ==> !(e->Ok_0 is I64)); }
        _ => { assert(number(e) is None); }
    }
    }
}
/// Of a mismatch, the number reported is the one that was there.
pub fn c17_reported(v: &Value) {
    let u = unexpected(v);
    assert(match u { crate::sd::Unexpected::Unsigned(n) => vw(*v) == V::U(n as int), crate::sd::Unexpected::Signed(n) => vw(*v) == V::N(n as int) || vw(*v) == V::U(n as int), _ => true });
}
/// Mismatched kinds are refused, without a call.
pub fn c17_mismatch<'de, W: Visitor<'de>>(v: Value, w: W, n: u8) {
    let ghost x = vw(v);
    let d = De::from_cbor_value(v);
    if n == 0 { let r = d.deserialize_seq(w); assert(!(x is A) ==> r is Err && r->Err_0 is Other); }
    else if n == 1 { let r = d.deserialize_map(w); assert(!(x is M) ==> r is Err && r->Err_0 is Other); }
    else if n == 2 { let r = d.deserialize_struct("", &[], w); assert(!(x is M) ==> r is Err && r->Err_0 is Other); }
    else if n == 3 { let r = d.deserialize_enum("", &[], w); assert(!(x is T) && !(x is M && x->M_0.len() == 1) ==> r is Err && r->Err_0 is Other); }
    else if n == 4 { let r = d.deserialize_char(w); assert(!(x is U && usv(x->U_0)) ==> r is Err && r->Err_0 is ValueDecoder); }
    else { let r = d.deserialize_u128(w); assert(!(x is B && x->B_0.len() <= 16) ==> r is Err && r->Err_0 is ValueDecoder); }
}
