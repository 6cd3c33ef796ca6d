//! The serde layer: what is written against a reference serializer, what is read against the items' meaning.
use crate::{ctx::*, ensure, gen::*, model::*, untyped::small};
use oasis_cbor::{serde as cs, Decode, Encode};
use serde::{de::{self, DeserializeOwned}, ser, Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Debug};

// ---------------------------------------------------------------- reference serializer

#[derive(Debug)]
struct No(&'static str);
impl fmt::Display for No { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for No {}
impl ser::Error for No { fn custom<T: fmt::Display>(_: T) -> No { No("custom") } }
struct Ref;
struct List(Option<&'static str>, Vec<V>);
struct Fields(Option<&'static str>, Vec<(V, V)>, Option<V>);
fn one(n: &str, x: V) -> V { V::M(vec![(V::t(n), x)]) }
fn under(n: Option<&'static str>, x: V) -> V { match n { Some(n) => one(n, x), None => x } }
macro_rules! ref_ints { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<V, No> { Ok(V::int(v as i128)) })* } }
impl ser::Serializer for Ref {
    type Ok = V;
    type Error = No;
    type SerializeSeq = List;
    type SerializeTuple = List;
    type SerializeTupleStruct = List;
    type SerializeTupleVariant = List;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    ref_ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<V, No> { Ok(V::S(if v { 21 } else { 20 })) }
    fn serialize_u128(self, v: u128) -> Result<V, No> { let b = v.to_be_bytes(); Ok(V::B(b[(v.leading_zeros() / 8) as usize..].to_vec())) }
    fn serialize_f32(self, _: f32) -> Result<V, No> { Err(No("float")) }
    fn serialize_f64(self, _: f64) -> Result<V, No> { Err(No("float")) }
    fn serialize_char(self, v: char) -> Result<V, No> { Ok(V::U(v as u32 as i128)) }
    fn serialize_str(self, v: &str) -> Result<V, No> { Ok(V::t(v)) }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, No> { Ok(V::B(v.to_vec())) }
    fn serialize_none(self) -> Result<V, No> { Ok(V::null()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<V, No> { v.serialize(Ref) }
    fn serialize_unit(self) -> Result<V, No> { Ok(V::null()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, No> { Ok(V::null()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V, No> { Ok(V::t(n)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<V, No> { Ok(V::A(vec![v.serialize(Ref)?])) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<V, No> { Ok(one(n, v.serialize(Ref)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<List, No> { Ok(List(None, vec![])) }
    fn serialize_tuple(self, _: usize) -> Result<List, No> { Ok(List(None, vec![])) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<List, No> { Ok(List(None, vec![])) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<List, No> { Ok(List(Some(n), vec![])) }
    fn serialize_map(self, _: Option<usize>) -> Result<Fields, No> { Ok(Fields(None, vec![], None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, No> { Ok(Fields(None, vec![], None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Fields, No> { Ok(Fields(Some(n), vec![], None)) }
}
macro_rules! ref_list { ($($tr:ident $f:ident),*) => { $(impl ser::$tr for List {
    type Ok = V;
    type Error = No;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { self.1.push(v.serialize(Ref)?); Ok(()) }
    fn end(self) -> Result<V, No> { Ok(under(self.0, V::A(self.1))) }
})* } }
ref_list!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! ref_fields { ($($tr:ident),*) => { $(impl ser::$tr for Fields {
    type Ok = V;
    type Error = No;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.1.push((V::t(k), v.serialize(Ref)?)); Ok(()) }
    fn end(self) -> Result<V, No> { Ok(under(self.0, V::M(self.1))) }
})* } }
ref_fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Fields {
    type Ok = V;
    type Error = No;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), No> { self.2 = Some(k.serialize(Ref)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { let k = self.2.take().unwrap(); self.1.push((k, v.serialize(Ref)?)); Ok(()) }
    fn end(self) -> Result<V, No> { Ok(V::M(self.1)) }
}

// ---------------------------------------------------------------- types, and what items mean to them

trait St: Serialize + DeserializeOwned + PartialEq + Debug {
    fn arb(r: &mut Rng, d: u32) -> Self;
    /// The value that an item stands for, if any.
    fn read(v: &V) -> Option<Self>;
    /// Comes back: holds no option whose content is written as null.
    fn rt(&self) -> bool { true }
    /// What a missing field gives.
    fn missing() -> Option<Self> { None }
}
fn nul(v: &V) -> bool { matches!(v, V::S(22) | V::S(23)) }
macro_rules! st_ints { ($($t:ident)*) => { $(impl St for $t {
    fn arb(r: &mut Rng, _: u32) -> Self { let n = num(r) as i128; let n = if r.p(1, 2) { n } else { -1 - n }; if r.p(1, 2) { n.clamp($t::MIN as i128, $t::MAX as i128) as $t } else { n as $t } }
    fn read(v: &V) -> Option<Self> { match v { V::U(n) | V::N(n) if $t::MIN as i128 <= *n && *n <= $t::MAX as i128 => Some(*n as $t), _ => None } }
})* } }
st_ints!(u8 u16 u32 u64 i8 i16 i32 i64);
/// Only read: refused when written.
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Wide(i128);
impl St for Wide {
    fn arb(r: &mut Rng, _: u32) -> Self { Wide(num(r) as i128) }
    fn read(v: &V) -> Option<Self> { match v { V::U(n) | V::N(n) => Some(Wide(*n)), _ => None } }
    fn rt(&self) -> bool { false }
}
impl St for u128 {
    fn arb(r: &mut Rng, _: u32) -> Self { let n = (num(r) as u128) << 64 | num(r) as u128; n >> r.below(128) }
    fn read(v: &V) -> Option<Self> { match v { V::B(b) if b.len() <= 16 => Some(b.iter().fold(0, |n, x| n << 8 | *x as u128)), _ => None } }
}
impl St for bool {
    fn arb(r: &mut Rng, _: u32) -> Self { r.p(1, 2) }
    fn read(v: &V) -> Option<Self> { match v { V::S(20) => Some(false), V::S(21) => Some(true), _ => None } }
}
impl St for char {
    fn arb(r: &mut Rng, _: u32) -> Self { char::from_u32(if r.p(1, 2) { num(r) as u32 } else { r.below(0x11_0000) as u32 }).unwrap_or('x') }
    fn read(v: &V) -> Option<Self> { match v { V::U(n) => u32::try_from(*n).ok().and_then(char::from_u32), _ => None } }
}
impl St for String {
    fn arb(r: &mut Rng, _: u32) -> Self { text(r) }
    fn read(v: &V) -> Option<Self> { match v { V::T(t) => Some(t.clone()), V::B(b) => String::from_utf8(b.clone()).ok(), _ => None } }
}
impl St for ByteBuf {
    fn arb(r: &mut Rng, _: u32) -> Self { ByteBuf::from(bytes(r)) }
    fn read(v: &V) -> Option<Self> { match v { V::B(b) => Some(ByteBuf::from(b.clone())), V::T(t) => Some(ByteBuf::from(t.as_bytes())), V::A(a) => a.iter().map(u8::read).collect::<Option<Vec<u8>>>().map(ByteBuf::from), _ => None } }
}
impl St for () {
    fn arb(_: &mut Rng, _: u32) -> Self {}
    fn read(v: &V) -> Option<Self> { if nul(v) { Some(()) } else { None } }
}
impl St for f64 {
    fn arb(r: &mut Rng, _: u32) -> Self { num(r) as f64 }
    fn read(_: &V) -> Option<Self> { None }
    fn rt(&self) -> bool { false }
}
impl St for f32 {
    fn arb(r: &mut Rng, _: u32) -> Self { num(r) as f32 }
    fn read(_: &V) -> Option<Self> { None }
    fn rt(&self) -> bool { false }
}
impl<T: St> St for Option<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { if r.p(1, 3) { None } else { Some(T::arb(r, d)) } }
    fn read(v: &V) -> Option<Self> { if *v == V::null() { Some(None) } else { T::read(v).map(Some) } }
    fn rt(&self) -> bool { self.as_ref().map_or(true, |x| x.rt() && x.serialize(Ref).ok() != Some(V::null())) }
    fn missing() -> Option<Self> { Some(None) }
}
impl<T: St> St for Box<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { Box::new(T::arb(r, d)) }
    fn read(v: &V) -> Option<Self> { T::read(v).map(Box::new) }
    fn rt(&self) -> bool { (**self).rt() }
}
fn few(r: &mut Rng, d: u32) -> usize { if d == 0 { 0 } else if r.p(1, 40) { 24 + r.below(4) as usize } else { r.below(4) as usize } }
impl<T: St> St for Vec<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { (0..few(r, d)).map(|_| T::arb(r, d - 1)).collect() }
    fn read(v: &V) -> Option<Self> { match v { V::A(a) => a.iter().map(T::read).collect(), _ => None } }
    fn rt(&self) -> bool { self.iter().all(T::rt) }
}
impl<K: St + Ord, T: St> St for BTreeMap<K, T> {
    fn arb(r: &mut Rng, d: u32) -> Self { (0..few(r, d)).map(|_| (K::arb(r, d - 1), T::arb(r, d - 1))).collect() }
    fn read(v: &V) -> Option<Self> { match v { V::M(m) => m.iter().map(|(k, x)| Some((K::read(k)?, T::read(x)?))).collect(), _ => None } }
    fn rt(&self) -> bool { self.iter().all(|(k, x)| k.rt() && x.rt()) }
}
impl<K: St + Eq + std::hash::Hash, T: St> St for HashMap<K, T> {
    fn arb(r: &mut Rng, d: u32) -> Self { (0..few(r, d)).map(|_| (K::arb(r, d - 1), T::arb(r, d - 1))).collect() }
    fn read(v: &V) -> Option<Self> { match v { V::M(m) => m.iter().map(|(k, x)| Some((K::read(k)?, T::read(x)?))).collect(), _ => None } }
    fn rt(&self) -> bool { self.iter().all(|(k, x)| k.rt() && x.rt()) }
}
macro_rules! st_tuple { ($n:expr; $($t:ident $i:tt),*) => { impl<$($t: St),*> St for ($($t,)*) {
    fn arb(r: &mut Rng, d: u32) -> Self { ($($t::arb(r, d),)*) }
    fn read(v: &V) -> Option<Self> { match v { V::A(a) if a.len() >= $n => Some(($($t::read(&a[$i])?,)*)), _ => None } }
    fn rt(&self) -> bool { true $(&& self.$i.rt())* }
} } }
st_tuple!(1; A 0);
st_tuple!(2; A 0, B 1);
st_tuple!(3; A 0, B 1, C 2);
/// What is skipped must be an item that can be passed over at all.
fn passes(v: &V) -> bool {
    match v { V::Tag(..) => false, V::A(a) => a.iter().all(passes), V::M(m) => m.iter().all(|(k, x)| passes(k) && passes(x)), _ => true }
}
/// The field that a key names: by name or by position. None: no key at all.
fn field(k: &V, names: &[&str]) -> Option<Option<usize>> {
    match k {
        V::U(n) => Some(if *n < names.len() as i128 { Some(*n as usize) } else { None }),
        V::T(t) => Some(names.iter().position(|n| n == t)),
        V::B(b) => Some(names.iter().position(|n| n.as_bytes() == &b[..])),
        _ => None,
    }
}
/// The entries by field, in the declared order; refused are repetitions, keys that are none, and what cannot be skipped.
fn fields<'a>(v: &'a V, names: &[&str]) -> Option<Vec<Option<&'a V>>> {
    let mut o = vec![None; names.len()];
    let m = match v { V::M(m) => m, _ => return None };
    for (k, x) in m {
        match field(k, names)? {
            Some(i) => { if o[i].is_some() { return None } o[i] = Some(x) }
            None => if !passes(x) { return None },
        }
    }
    Some(o)
}
fn get<T: St>(x: Option<&V>) -> Option<T> { match x { Some(v) => T::read(v), None => T::missing() } }
macro_rules! st_struct { ($n:ident { $($f:ident $k:literal $t:ty),* }) => {
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    struct $n { $(#[serde(rename = $k)] $f: $t),* }
    impl St for $n {
        fn arb(r: &mut Rng, d: u32) -> Self { let d = d.saturating_sub(1); $n { $($f: St::arb(r, d)),* } }
        fn read(v: &V) -> Option<Self> { let mut o = fields(v, &[$($k),*])?.into_iter(); Some($n { $($f: get(o.next().unwrap())?),* }) }
        fn rt(&self) -> bool { true $(&& self.$f.rt())* }
    }
} }
macro_rules! st_new { ($n:ident ( $($i:tt $t:ty),* ) $c:expr) => {
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    struct $n($($t),*);
    impl St for $n {
        fn arb(r: &mut Rng, d: u32) -> Self { let d = d.saturating_sub(1); $n($(<$t>::arb(r, d)),*) }
        fn read(v: &V) -> Option<Self> { match v { V::A(a) if a.len() >= $c => Some($n($(<$t>::read(&a[$i])?),*)), _ => None } }
        fn rt(&self) -> bool { true $(&& self.$i.rt())* }
    }
} }
macro_rules! st_enum { ($n:ident { $($u:ident),* ; $($w:ident $wt:ty),* ; $($tv:ident ( $($x:ident $i:tt $tt:ty),* ) $c:expr),* ; $($sv:ident { $($f:ident $k:literal $ft:ty),* }),* }) => {
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    enum $n { $($u,)* $($w($wt),)* $($tv($($tt),*),)* $($sv { $(#[serde(rename = $k)] $f: $ft),* }),* }
    impl St for $n {
        fn arb(r: &mut Rng, d: u32) -> Self {
            let d = d.saturating_sub(1);
            let names: &[&str] = &[$(stringify!($u),)* $(stringify!($w),)* $(stringify!($tv),)* $(stringify!($sv)),*];
            let s = *r.pick(names);
            $(if s == stringify!($u) { return $n::$u })*
            $(if s == stringify!($w) { return $n::$w(<$wt>::arb(r, d)) })*
            $(if s == stringify!($tv) { return $n::$tv($(<$tt>::arb(r, d)),*) })*
            $(if s == stringify!($sv) { return $n::$sv { $($f: <$ft>::arb(r, d)),* } })*
            unreachable!()
        }
        fn read(v: &V) -> Option<Self> {
            let names: &[&str] = &[$(stringify!($u),)* $(stringify!($w),)* $(stringify!($tv),)* $(stringify!($sv)),*];
            let z = V::null();
            let (k, x) = match v { V::T(_) => (v, &z), V::M(m) if m.len() == 1 => (&m[0].0, &m[0].1), _ => return None };
            let s = names[field(k, names)??];
            $(if s == stringify!($u) { return if *x == V::null() { Some($n::$u) } else { None } })*
            $(if s == stringify!($w) { return <$wt>::read(x).map($n::$w) })*
            $(if s == stringify!($tv) { return match x { V::A(a) if a.len() >= $c => Some($n::$tv($(<$tt>::read(&a[$i])?),*)), _ => None } })*
            $(if s == stringify!($sv) { let mut o = fields(x, &[$($k),*])?.into_iter(); return Some($n::$sv { $($f: get(o.next().unwrap())?),* }) })*
            unreachable!()
        }
        fn rt(&self) -> bool {
            match self {
                $($n::$u => true,)*
                $($n::$w(x) => x.rt(),)*
                $($n::$tv($($x),*) => true $(&& $x.rt())*,)*
                $($n::$sv { $($f),* } => true $(&& $f.rt())*,)*
            }
        }
    }
} }
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
struct Mark;
impl St for Mark {
    fn arb(_: &mut Rng, _: u32) -> Self { Mark }
    fn read(v: &V) -> Option<Self> { if nul(v) { Some(Mark) } else { None } }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum Kind { One, Two, Three }
impl St for Kind {
    fn arb(r: &mut Rng, _: u32) -> Self { match r.below(3) { 0 => Kind::One, 1 => Kind::Two, _ => Kind::Three } }
    fn read(v: &V) -> Option<Self> {
        let z = V::null();
        let (k, x) = match v { V::T(_) => (v, &z), V::M(m) if m.len() == 1 => (&m[0].0, &m[0].1), _ => return None };
        if *x != z { return None }
        match field(k, &["One", "Two", "Three"])?? { 0 => Some(Kind::One), 1 => Some(Kind::Two), _ => Some(Kind::Three) }
    }
}
st_struct!(Plain { zeta "zeta" u64, a "a" i8, name "long name of a field, more than 24" String });
st_struct!(Opts { x "x" Option<u8>, y "b" Option<Vec<Option<i64>>>, z "a" Option<Box<Plain>>, w "" Option<()>, n "n" Option<Option<bool>> });
st_struct!(Empty {});
st_struct!(Big { id "id" u128, bytes "data" ByteBuf, c "c" char, e "e" Vec<Shape>, m "m" BTreeMap<String, Plain>, k "k" (Mark, Kind) });
st_struct!(Hash { h "h" HashMap<u8, String>, i "i" HashMap<String, Vec<i32>> });
st_new!(Meters(0 i16) 1);
st_new!(Nested(0 Meters) 1);
st_new!(Text(0 Option<String>) 1);
st_new!(Rgb(0 u8, 1 Option<u8>, 2 Kind) 3);
st_new!(Nothing() 0);
st_enum!(Shape { Point, Unknown; Circle i32, Label String, Wrap Meters, Maybe Option<u8>, Many Vec<u16>, Un () ; Pair (a 0 u8, b 1 Option<i64>) 2, Trio (a 0 String, b 1 Kind, c 2 bool) 3, None0 () 0 ; Rect { w "w" u32, h "h" u32, t "a" Option<String> }, Zero {} });
st_enum!(Tree { Leaf; Val i64 ; Node (l 0 Box<Tree>, r 1 Box<Tree>) 2 ; Tag { name "n" String, sub "s" Vec<Tree> } });
st_enum!(Deep { Nil; Cons Box<Deep> ; Two (a 0 Vec<Deep>, b 1 u8) 2 ; Rec { d "d" Option<Box<Deep>> } });

/// An item that may be meant for a type: one of its own, changed in places, or any at all.
fn near<T: St>(r: &mut Rng, d: u32) -> V {
    match r.below(8) {
        0 => value(r, 2),
        1 => { let l = leaf(r); if r.p(1, 2) { l } else { V::A(vec![l]) } }
        _ => {
            let v = T::arb(r, d).serialize(Ref).unwrap_or(V::U(0));
            let n = r.below(4);
            let mut v = if r.p(1, 3) { shuffle(r, &v) } else { v };
            for _ in 0..n { v = change(r, &v) }
            v
        }
    }
}
/// One part of an item replaced, dropped, added or repeated.
fn change(r: &mut Rng, v: &V) -> V {
    if r.p(1, 4) { return swap(r, v) }
    match v {
        V::A(a) => {
            let mut a = a.clone();
            let i = r.below(a.len() as u64 + 1) as usize;
            match r.below(6) {
                0 => a.insert(i, leaf(r)),
                1 if i < a.len() => { a.remove(i); }
                2 if i < a.len() => { let x = a[i].clone(); a.push(x) }
                _ if i < a.len() => a[i] = change(r, &a[i]),
                _ => {}
            }
            V::A(a)
        }
        V::M(m) => {
            let mut m = m.clone();
            let i = r.below(m.len() as u64 + 1) as usize;
            match r.below(8) {
                0 => { let k = key(r, 1); let x = value(r, 1); m.insert(i, (k, x)) }
                1 if i < m.len() => { m.remove(i); }
                2 if i < m.len() => { let x = m[i].clone(); m.push(x) }
                3 if i < m.len() => m[i].0 = match &m[i].0 { V::T(t) if r.p(1, 2) => V::B(t.as_bytes().to_vec()), _ => V::U(r.below(8) as i128) },
                4 if i < m.len() => m[i].0 = change(r, &m[i].0),
                _ if i < m.len() => m[i].1 = change(r, &m[i].1),
                _ => {}
            }
            V::M(m)
        }
        V::Tag(t, x) => V::Tag(*t, Box::new(change(r, x))),
        _ => swap(r, v),
    }
}
fn swap(r: &mut Rng, v: &V) -> V {
    match r.below(9) {
        0 => V::Tag(num(r), Box::new(v.clone())),
        1 => V::A(vec![v.clone()]),
        2 => match v { V::T(t) => V::B(t.as_bytes().to_vec()), V::U(n) | V::N(n) => V::int(-1 - n), V::B(b) => V::A(b.iter().map(|x| V::U(*x as i128)).collect()), x => x.clone() },
        3 => V::S(20 + r.below(4) as u8),
        4 => V::N(-1 - num(r) as i128),
        5 => V::U(num(r) as i128),
        6 => match v { V::T(t) => V::M(vec![(V::t(t), V::null())]), V::M(m) if m.len() == 1 => m[0].0.clone(), x => x.clone() },
        _ => leaf(r),
    }
}

fn wrote(x: &Result<oasis_cbor::Value, cs::Error>) -> Option<V> { x.as_ref().ok().map(V::of) }
fn forth<T: St>(c: &mut Ctx, share: f64) -> Result<(), Fail> {
    let n = std::any::type_name::<T>().replace("vx_bridge::sd::", "").replace("alloc::", "").replace("core::", "");
    c.random(&format!("roundtrip {}", n), share, |r, _, k| {
        let d = 1 + r.below(4) as u32;
        let x = T::arb(r, d);
        k.set(format!("{:?}", x));
        let v = cs::to_value(&x);
        match x.serialize(Ref) {
            Ok(w) => ensure!(wrote(&v).as_ref() == Some(&w), "written as {:?} instead of {:?}", v, w),
            Err(No("float")) => { ensure!(matches!(v, Err(cs::Error::UnsupportedType(_))), "holds a float, but gives {:?}", v); ensure!(matches!(cs::to_vec(&x), Err(cs::Error::UnsupportedType(_))), "holds a float, but has bytes"); return Ok(()) }
            Err(_) => { ensure!(v.is_err(), "cannot be written, but gives {:?}", v); return Ok(()) }
        }
        let w = V::of(v.as_ref().unwrap());
        let back = cs::from_value::<T>(v.unwrap());
        if x.rt() { k.hit = true; ensure!(back.as_ref().ok() == Some(&x), "written as {:?}, read as {:?}", w, back) }
        let b = cs::to_vec(&x);
        if !w.has_dup() && w.depth() <= 127 {
            ensure!(b.as_ref().ok() == Some(&w.cenc()), "bytes {:?} instead of {}", b.as_ref().map(|b| hex(b)), hex(&w.cenc()));
            let f = cs::from_slice::<T>(&w.cenc());
            if w.depth() <= 64 { if x.rt() { ensure!(f.as_ref().ok() == Some(&x), "bytes {} read as {:?}", hex(&w.cenc()), f) } } else { ensure!(matches!(f, Err(cs::Error::ByteDecoder(_))), "too deep, but read as {:?}", f) }
        } else { ensure!(matches!(b, Err(cs::Error::ByteEncoder(_))), "bytes {:?} of {:?}", b, w) }
        Ok(())
    })
}
/// Types that both layers know.
fn both<T: St + Encode + Decode>(c: &mut Ctx, share: f64) -> Result<(), Fail> {
    let n = std::any::type_name::<T>().replace("alloc::", "").replace("core::", "");
    c.random(&format!("native {}", n), share, |r, _, k| {
        let d = 1 + r.below(3) as u32;
        let (x, v) = loop { let x = T::arb(r, d); let v = cs::to_value(&x); if let Ok(v) = v { break (x, v) } };
        k.set(format!("{:?}", x));
        k.hit = true;
        let b = cs::to_vec(&x);
        if x.rt() { let y = oasis_cbor::from_value::<T>(v.clone()); ensure!(y.as_ref().ok() == Some(&x), "the native traits read {:?} as {:?}", v, y) }
        let y = oasis_cbor::to_value(x);
        ensure!(v == y, "written as {:?}, by the native traits as {:?}", v, y);
        if let Ok(b) = b { let mut o = vec![]; ensure!(oasis_cbor_value::writer::write(y, &mut o).is_ok() && o == b, "different bytes") }
        Ok(())
    })
}
macro_rules! run_all { ($c:ident, $f:ident, $s:expr; $($t:ty),* $(,)?) => { $($f::<$t>($c, $s)?;)* } }

pub fn c16(c: &mut Ctx) -> Result<(), Fail> {
    run_all!(c, both, 0.02; u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), Option<u8>, Option<String>, Vec<u16>, Vec<String>, Vec<Option<i64>>, Vec<Vec<i8>>, Option<Vec<char>>,
        (u16, String), (Option<i8>, bool, u64), BTreeMap<String, u8>, BTreeMap<String, Vec<i32>>, BTreeMap<String, Option<String>>, BTreeMap<String, BTreeMap<String, bool>>);
    run_all!(c, forth, 0.03; u8, u64, i8, i64, u128, bool, char, String, ByteBuf, (), Mark, Option<u64>, Option<Option<u8>>, Option<Meters>, Vec<u8>, Vec<ByteBuf>, Vec<Option<()>>, (u8,), (i8, Text, Mark),
        BTreeMap<String, Shape>, BTreeMap<u64, Kind>, BTreeMap<i16, Vec<char>>, BTreeMap<bool, u8>, BTreeMap<(u8, String), Option<Meters>>, BTreeMap<Kind, Rgb>, BTreeMap<Option<u8>, Plain>, BTreeMap<Vec<i8>, u128>, HashMap<String, Tree>,
        f32, f64, Vec<f64>, Option<f32>, BTreeMap<String, f64>, Wide, Empty, Nothing, Kind, Meters, Nested, Text);
    run_all!(c, forth, 0.08; Plain, Opts, Big, Hash, Rgb, Shape, Tree, Deep, Vec<Shape>, Option<Shape>, BTreeMap<String, BTreeMap<u8, Option<Tree>>>);
    tagged(c)
}

// ---------------------------------------------------------------- other ways to lay out enums

#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t")]
enum Internal { A, B { x: u64, y: Option<String> }, C { n: i64, l: Vec<i32> } }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent { A, B { x: u64 }, C(i64), D(u8, String) }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged { N(u64), I(i64), S(String), L(Vec<Untagged>), M { a: bool, b: u8 }, B(bool) }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Flat { id: i64, #[serde(flatten)] rest: BTreeMap<String, Untagged> }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Defaults { #[serde(default)] a: u8, #[serde(default, skip_serializing_if = "Vec::is_empty")] l: Vec<u16>, #[serde(skip)] s: u8, #[serde(with = "serde_bytes")] raw: Vec<u8> }
fn untagged(r: &mut Rng, d: u32) -> Untagged {
    match r.below(if d == 0 { 4 } else { 6 }) {
        0 => Untagged::N(num(r)),
        1 => Untagged::I(-1 - (num(r) >> 1) as i64),
        2 => Untagged::S(text(r)),
        3 => Untagged::B(r.p(1, 2)),
        // Empty sequences are fine too: nothing else takes them.
        4 => Untagged::L((0..r.below(4)).map(|_| untagged(r, d - 1)).collect()),
        _ => Untagged::M { a: r.p(1, 2), b: r.next() as u8 },
    }
}
fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, k: &mut Case) -> R {
    k.set(format!("{:?}", x));
    k.hit = true;
    let v = cs::to_value(x).map_err(|e| format!("refused with {}", e))?;
    let w = x.serialize(Ref).unwrap();
    ensure!(V::of(&v) == w, "written as {:?} instead of {:?}", v, w);
    let y = cs::from_value::<T>(v.clone());
    ensure!(y.as_ref().ok() == Some(x), "written as {:?}, read as {:?}", v, y);
    let b = cs::to_vec(x).map_err(|e| format!("refused with {}", e))?;
    ensure!(b == w.cenc(), "bytes {} instead of {}", hex(&b), hex(&w.cenc()));
    let y = cs::from_slice::<T>(&b);
    ensure!(y.as_ref().ok() == Some(x), "bytes {} read as {:?}", hex(&b), y);
    Ok(())
}
fn tagged(c: &mut Ctx) -> Result<(), Fail> {
    c.random("tagged", 1.0, |r, _, k| {
        match r.below(5) {
            0 => same(&match r.below(3) { 0 => Internal::A, 1 => Internal::B { x: num(r), y: St::arb(r, 1) }, _ => Internal::C { n: St::arb(r, 1), l: St::arb(r, 2) } }, k),
            1 => same(&match r.below(4) { 0 => Adjacent::A, 1 => Adjacent::B { x: num(r) }, 2 => Adjacent::C(St::arb(r, 1)), _ => Adjacent::D(r.next() as u8, text(r)) }, k),
            2 => same(&untagged(r, 2), k),
            3 => same(&Flat { id: St::arb(r, 0), rest: (0..r.below(4)).map(|i| (format!("k{}", i), untagged(r, 1))).collect() }, k),
            _ => same(&Defaults { a: r.next() as u8, l: St::arb(r, 2), s: 0, raw: bytes(r) }, k),
        }
    })
}

// ---------------------------------------------------------------- what a visitor is called with

#[derive(Clone, Debug, PartialEq)]
enum Ev { Bool(bool), U64(u64), I64(i64), U128(u128), I128(i128), Char(char), Str(String), Bytes(Vec<u8>), Unit, None, Some(Box<Ev>), Seq(Vec<Ev>), Map(Vec<(Ev, Ev)>), Enum(Box<Ev>, V) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Refusal { Unsupported, Decode, Other, Bytes }
fn refusal(e: &cs::Error) -> Refusal { match e { cs::Error::UnsupportedType(_) => Refusal::Unsupported, cs::Error::ValueDecoder(_) => Refusal::Decode, cs::Error::Other(_) => Refusal::Other, _ => Refusal::Bytes } }
/// How to ask.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask { Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, Str2, Bytes, Bytes2, Option, Unit, UnitStruct, Newtype, Seq, Tuple, TupleStruct, Map, Struct, Enum, Ident, Ignored }
const ASKS: &[Ask] = &[Ask::Any, Ask::Bool, Ask::I8, Ask::I16, Ask::I32, Ask::I64, Ask::I128, Ask::U8, Ask::U16, Ask::U32, Ask::U64, Ask::U128, Ask::F32, Ask::F64, Ask::Char, Ask::Str, Ask::Str2, Ask::Bytes, Ask::Bytes2, Ask::Option, Ask::Unit, Ask::UnitStruct, Ask::Newtype, Ask::Seq, Ask::Tuple, Ask::TupleStruct, Ask::Map, Ask::Struct, Ask::Enum, Ask::Ident, Ask::Ignored];
/// Options and enums hand on the item they are given, so asking for them again would not end.
fn inside(r: &mut Rng) -> Ask { let a = *r.pick(ASKS); if matches!(a, Ask::Option | Ask::Enum) { Ask::Any } else { a } }
struct P(Ask, u32);
thread_local! { static HOW: std::cell::Cell<(Ask, Ask, u32)> = const { std::cell::Cell::new((Ask::Any, Ask::Any, 0)) } }
/// Asks as set beforehand, and for what is inside likewise.
#[derive(Debug)]
struct Probe(Ev);
impl<'de> Deserialize<'de> for Probe { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Probe, D::Error> { let (a, _, _) = HOW.with(|h| h.get()); ask(a, d).map(Probe) } }
struct Inner;
impl<'de> de::DeserializeSeed<'de> for Inner { type Value = Ev; fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Ev, D::Error> { let (_, i, _) = HOW.with(|h| h.get()); ask(i, d) } }
fn ask<'de, D: de::Deserializer<'de>>(a: Ask, d: D) -> Result<Ev, D::Error> {
    let p = P(a, 0);
    match a {
        Ask::Any => d.deserialize_any(p), Ask::Bool => d.deserialize_bool(p), Ask::I8 => d.deserialize_i8(p), Ask::I16 => d.deserialize_i16(p), Ask::I32 => d.deserialize_i32(p), Ask::I64 => d.deserialize_i64(p),
        Ask::I128 => d.deserialize_i128(p), Ask::U8 => d.deserialize_u8(p), Ask::U16 => d.deserialize_u16(p), Ask::U32 => d.deserialize_u32(p), Ask::U64 => d.deserialize_u64(p), Ask::U128 => d.deserialize_u128(p),
        Ask::F32 => d.deserialize_f32(p), Ask::F64 => d.deserialize_f64(p), Ask::Char => d.deserialize_char(p), Ask::Str => d.deserialize_str(p), Ask::Str2 => d.deserialize_string(p), Ask::Bytes => d.deserialize_bytes(p),
        Ask::Bytes2 => d.deserialize_byte_buf(p), Ask::Option => d.deserialize_option(p), Ask::Unit => d.deserialize_unit(p), Ask::UnitStruct => d.deserialize_unit_struct("S", p), Ask::Newtype => d.deserialize_newtype_struct("S", p),
        Ask::Seq => d.deserialize_seq(p), Ask::Tuple => d.deserialize_tuple(2, p), Ask::TupleStruct => d.deserialize_tuple_struct("S", 2, p), Ask::Map => d.deserialize_map(p), Ask::Struct => d.deserialize_struct("S", &["a"], p),
        Ask::Enum => d.deserialize_enum("E", &["A"], p), Ask::Ident => d.deserialize_identifier(p), Ask::Ignored => d.deserialize_ignored_any(p),
    }
}
impl<'de> de::Visitor<'de> for P {
    type Value = Ev;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, v: bool) -> Result<Ev, E> { Ok(Ev::Bool(v)) }
    fn visit_u64<E>(self, v: u64) -> Result<Ev, E> { Ok(Ev::U64(v)) }
    fn visit_i64<E>(self, v: i64) -> Result<Ev, E> { Ok(Ev::I64(v)) }
    fn visit_u128<E>(self, v: u128) -> Result<Ev, E> { Ok(Ev::U128(v)) }
    fn visit_i128<E>(self, v: i128) -> Result<Ev, E> { Ok(Ev::I128(v)) }
    fn visit_char<E>(self, v: char) -> Result<Ev, E> { Ok(Ev::Char(v)) }
    fn visit_str<E>(self, v: &str) -> Result<Ev, E> { Ok(Ev::Str(v.into())) }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Ev, E> { Ok(Ev::Bytes(v.into())) }
    fn visit_unit<E>(self) -> Result<Ev, E> { Ok(Ev::Unit) }
    fn visit_none<E>(self) -> Result<Ev, E> { Ok(Ev::None) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Ev, D::Error> { use de::DeserializeSeed; Ok(Ev::Some(Box::new(Inner.deserialize(d)?))) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, _: D) -> Result<Ev, D::Error> { Err(de::Error::custom("newtype")) }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Ev, A::Error> {
        let mut o = vec![];
        while let Some(x) = a.next_element_seed(Inner)? { o.push(x) }
        Ok(Ev::Seq(o))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Ev, A::Error> {
        let mut o = vec![];
        while let Some(k) = a.next_key_seed(Inner)? { o.push((k, a.next_value_seed(Inner)?)) }
        Ok(Ev::Map(o))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Ev, A::Error> {
        use de::VariantAccess;
        let (n, x) = a.variant_seed(Inner)?;
        let (_, _, how) = HOW.with(|h| h.get());
        Ok(Ev::Enum(Box::new(n), match how % 4 {
            0 => { x.unit_variant()?; V::null() }
            1 => V::Tag(1, Box::new(show(&x.newtype_variant_seed(Inner)?))),
            2 => V::Tag(2, Box::new(show(&x.tuple_variant(2, P(Ask::Any, 0))?))),
            _ => V::Tag(3, Box::new(show(&x.struct_variant(&["a"], P(Ask::Any, 0))?))),
        }))
    }
}
/// Events as something to compare.
fn show(e: &Ev) -> V { V::t(&format!("{:?}", e)) }
fn ints(n: i128) -> Ev { if n >= 0 { Ev::U64(n as u64) } else if n >= i64::MIN as i128 { Ev::I64(n as i64) } else { Ev::I128(n) } }
/// What the visitor should be called with.
fn told(a: Ask, i: Ask, how: u32, v: &V) -> Result<Ev, Refusal> {
    let inner = |x: &V| told(i, i, how, x);
    let seq = |v: &V| match v { V::A(a) => a.iter().map(inner).collect::<Result<Vec<_>, _>>().map(Ev::Seq), _ => Err(Refusal::Other) };
    let map = |v: &V| match v { V::M(m) => m.iter().map(|(k, x)| Ok((inner(k)?, inner(x)?))).collect::<Result<Vec<_>, _>>().map(Ev::Map), _ => Err(Refusal::Other) };
    match a {
        Ask::F32 | Ask::F64 => Err(Refusal::Unsupported),
        Ask::U128 => u128::read(v).map(Ev::U128).ok_or(Refusal::Decode),
        Ask::Char => char::read(v).map(Ev::Char).ok_or(Refusal::Decode),
        Ask::Option => if *v == V::null() { Ok(Ev::None) } else { Ok(Ev::Some(Box::new(inner(v)?))) },
        Ask::Seq => seq(v),
        Ask::Map | Ask::Struct => map(v),
        Ask::Enum => {
            let z = V::null();
            let (k, x) = match v { V::T(_) => (v, &z), V::M(m) if m.len() == 1 => (&m[0].0, &m[0].1), _ => return Err(Refusal::Other) };
            let n = inner(k)?;
            Ok(Ev::Enum(Box::new(n), match how % 4 {
                0 => if *x == z { V::null() } else { return Err(Refusal::Other) },
                1 => V::Tag(1, Box::new(show(&inner(x)?))),
                2 => V::Tag(2, Box::new(show(&seq(x)?))),
                _ => V::Tag(3, Box::new(show(&map(x)?))),
            }))
        }
        _ => match v {
            V::U(n) | V::N(n) => Ok(ints(*n)),
            V::B(b) => Ok(Ev::Bytes(b.clone())),
            V::T(t) => Ok(Ev::Str(t.clone())),
            V::A(_) => seq(v),
            V::M(_) => map(v),
            V::Tag(..) => Err(Refusal::Unsupported),
            V::S(20) => Ok(Ev::Bool(false)),
            V::S(21) => Ok(Ev::Bool(true)),
            V::S(_) => Ok(Ev::Unit),
        },
    }
}
/// Every item of up to n parts, in some order.
fn items(i: u64) -> V {
    let leaves: Vec<V> = EDGES.iter().map(|n| V::U(*n as i128)).chain(EDGES.iter().map(|n| V::N(-1 - *n as i128))).chain((20..24).map(V::S)).chain(["", "a", "é"].iter().map(|t| V::t(t)))
        .chain([0usize, 1, 15, 16, 17].iter().map(|n| V::B(vec![0x61; *n]))).chain(vec![V::A(vec![]), V::M(vec![])]).collect();
    let n = leaves.len() as u64;
    let l = leaves[(i % n) as usize].clone();
    match i / n { 0 => l, 1 => V::A(vec![l]), 2 => V::Tag(0, Box::new(l)), 3 => one("A", l), 4 => V::M(vec![(l, V::null())]), 5 => V::A(vec![l, V::U(0)]), _ => V::M(vec![(l.clone(), l), (V::U(3), V::t("x"))]) }
}
const ITEMS: u64 = 7 * 120;
fn probe(k: &mut Case, v: &V, a: Ask, i: Ask, how: u32) -> R {
    k.set(format!("{:?} asked for as {:?} holding {:?}, variants {}", v, a, i, how % 4));
    HOW.with(|h| h.set((a, i, how)));
    let got = cs::from_value::<Probe>(v.real()).map(|p| p.0);
    let want = told(a, i, how, v);
    if want.is_ok() { k.hit = true }
    match (&got, &want) { (Ok(x), Ok(y)) if x == y => Ok(()), (Err(e), Err(r)) if refusal(e) == *r => Ok(()), _ => Err(format!("{:?} instead of {:?}", got, want)) }
}
fn read<T: St>(c: &mut Ctx, share: f64) -> Result<(), Fail> {
    let n = std::any::type_name::<T>().replace("vx_bridge::sd::", "").replace("alloc::", "").replace("core::", "");
    c.all(&format!("items {}", n), ITEMS, |_, i, k| { let v = items(i); k.set(format!("{:?}", v)); check::<T>(&v, k) })?;
    c.random(&format!("read {}", n), share, |r, _, k| {
        let d = 1 + r.below(4) as u32;
        let v = near::<T>(r, d);
        k.set(format!("{:?}", v));
        check::<T>(&v, k)
    })
}
fn check<T: St>(v: &V, k: &mut Case) -> R {
    let got = cs::from_value::<T>(v.real());
    let want = T::read(v);
    if want.is_some() { k.hit = true }
    ensure!(got.as_ref().ok() == want.as_ref(), "read as {:?} instead of {:?}", got, want);
    if !v.has_dup() && v.depth() <= 64 {
        let w = T::read(&v.norm());
        let got = cs::from_slice::<T>(&v.cenc());
        ensure!(got.as_ref().ok() == w.as_ref(), "bytes {} read as {:?} instead of {:?}", hex(&v.cenc()), got, w)
    }
    Ok(())
}
/// A number in an error message is the one that was there.
fn honest(v: &V, e: &cs::Error) -> R {
    let (n, s) = match v { V::U(n) | V::N(n) => (*n, e.to_string()), _ => return Ok(()) };
    for p in s.split('`').skip(1).step_by(2) { if let Ok(m) = p.parse::<i128>() { ensure!(m == n, "{} is reported as {:?}", n, s) } }
    Ok(())
}
pub fn c17(c: &mut Ctx) -> Result<(), Fail> {
    c.all("numbers", 2 * EDGES.len() as u64 * 9 + 9, |_, i, k| {
        let n = EDGES[(i as usize / 18).min(EDGES.len() - 1)];
        let v = if i / 9 % 2 == 0 { V::U(n as i128) } else { V::N(-1 - n as i128) };
        k.set(format!("{:?} as integer type {}", v, i % 9));
        k.hit = true;
        macro_rules! at { ($t:ty) => {{ let g = cs::from_value::<$t>(v.real()); ensure!(g.as_ref().ok() == <$t>::read(&v).as_ref(), "read as {:?}", g); if let Err(e) = g { honest(&v, &e)? } }} }
        match i % 9 { 0 => at!(u8), 1 => at!(u16), 2 => at!(u32), 3 => at!(u64), 4 => at!(i8), 5 => at!(i16), 6 => at!(i32), 7 => at!(i64), _ => at!(Wide) }
        macro_rules! other { ($($t:ty),*) => { $(if let Err(e) = cs::from_value::<$t>(v.real()) { honest(&v, &e)? })* } }
        other!(String, Vec<u8>, bool, Plain, Kind, (u8, u8), Meters, Mark, BTreeMap<u8, u8>, ());
        Ok(())
    })?;
    c.all("asked", ITEMS * ASKS.len() as u64, |r, i, k| { let a = ASKS[(i % ASKS.len() as u64) as usize]; let how = r.next() as u32; let j = if r.p(1, 2) { Ask::Any } else { inside(r) }; probe(k, &items(i / ASKS.len() as u64), a, j, how) })?;
    c.random("asked-any", 0.15, |r, _, k| { let d = 1 + r.below(3) as u32; let v = value(r, d); let a = *r.pick(ASKS); let i = if r.p(1, 2) { Ask::Any } else { inside(r) }; let how = r.next() as u32; probe(k, &v, a, i, how) })?;
    run_all!(c, read, 0.02; u8, u16, u32, u64, i8, i16, i32, i64, Wide, u128, bool, char, String, ByteBuf, (), Mark, f32, f64, Option<u64>, Option<i8>, Vec<i64>, Vec<u8>, Vec<u128>, (u8, String), BTreeMap<String, i64>, BTreeMap<i32, u8>, HashMap<u8, Kind>,
        Empty, Nothing, Kind, Meters, Text, Option<Option<Kind>>);
    run_all!(c, read, 0.08; Plain, Opts, Big, Hash, Rgb, Shape, Tree, Deep, Vec<Shape>);
    // Bytes that are anything at all, and items that are too deep.
    c.all("bytes", 1 + 256 + 65536, |_, i, k| { let b = small(i); k.set(hex(&b)); any_bytes(&b, k) })?;
    c.random("blobs", 0.5, |r, _, k| { let b = blob(r); k.set(hex(&b)); any_bytes(&b, k) })?;
    c.random("content", 1.0, |r, _, k| {
        let v = match r.below(4) { 0 => near::<Plain>(r, 2), 1 => { let x = untagged(r, 2); let v = x.serialize(Ref).unwrap(); change(r, &v) } 2 => { let n = V::N(-1 - num(r) as i128); one("t", n) } _ => value(r, 3) };
        k.set(format!("{:?}", v));
        k.hit = true;
        if let Ok(x) = cs::from_value::<Untagged>(v.real()) {
            match (&x, &v) { (Untagged::N(n), V::U(m)) => ensure!(*n as i128 == *m, "read as {:?}", x), (Untagged::I(n), V::N(m)) => ensure!(*n as i128 == *m, "read as {:?}", x), (_, V::U(_) | V::N(_) | V::Tag(..)) => ensure!(false, "read as {:?}", x), _ => {} }
        }
        let _ = cs::from_value::<Internal>(v.real());
        let _ = cs::from_value::<Adjacent>(v.real());
        let _ = cs::from_value::<Flat>(v.real());
        let _ = cs::from_value::<Defaults>(v.real());
        Ok(())
    })
}
fn any_bytes(b: &[u8], k: &mut Case) -> R {
    let want = decode(b, Some(64), true);
    if want.is_ok() { k.hit = true }
    let x = cs::from_slice::<Shape>(b);
    let y = cs::from_slice::<i64>(b);
    match &want {
        Err(_) => ensure!(matches!(x, Err(cs::Error::ByteDecoder(_))) && matches!(y, Err(cs::Error::ByteDecoder(_))), "malformed, but read as {:?} and {:?}", x, y),
        Ok(v) => ensure!(x.as_ref().ok() == Shape::read(v).as_ref() && y.as_ref().ok() == i64::read(v).as_ref(), "{:?} read as {:?} and {:?}", v, x, y),
    }
    Ok(())
}
