//! Properties of the typed layer: the real conversions against what the statements say.
use crate::{ctx::*, ensure, gen::*, model::*};
use oasis_cbor::{Decode, DecodeError, Encode, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum D { Parse, Type, Missing, Unknown, Size }
pub fn dclass(e: &DecodeError) -> D {
    match e {
        DecodeError::ParsingFailed => D::Parse,
        DecodeError::UnexpectedType => D::Type,
        DecodeError::MissingField => D::Missing,
        DecodeError::UnknownField => D::Unknown,
        DecodeError::UnexpectedIntegerSize => D::Size,
    }
}
pub type DR<T> = Result<T, D>;
/// A type, what its values are encoded as, and what items decode to.
pub trait Ty: Encode + Decode + Clone + PartialEq + Debug {
    fn arb(r: &mut Rng, d: u32) -> Self;
    fn item(&self) -> V;
    fn dec(v: &V) -> DR<Self>;
    fn def() -> DR<Self>;
    fn empty(&self) -> bool;
    /// Left out as an optional field.
    fn omit(&self) -> bool { self.empty() }
    /// Keys of a declaration, and items that stand for variants.
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![] }
    /// Allows unknown fields somewhere.
    fn loose() -> bool { false }
    /// Empty, and yet not the default.
    fn lost(&self) -> bool { false }
    /// Comes back from its encoding (inside a container, and at top level).
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    /// Iterates in an order of its own.
    fn hashed() -> bool { false }
    /// Edge values.
    fn edges() -> Vec<Self> { vec![] }
    const BYTE: bool = false;
    fn byte(&self) -> u8 { unreachable!() }
    fn of_byte(_: u8) -> Self { unreachable!() }
    fn scalar() -> bool { false }
}
pub fn is_null(v: &V) -> bool { matches!(v, V::S(22) | V::S(23)) }
pub fn top<T: Ty>(v: &V) -> DR<T> { if is_null(v) { T::def() } else { T::dec(v) } }
macro_rules! ints { ($($t:ident $byte:tt),*) => { $(
    impl Ty for $t {
        fn arb(r: &mut Rng, _: u32) -> Self { let n = num(r); if r.p(1, 2) { (n as i128).clamp($t::MIN as i128, $t::MAX as i128) as $t } else if r.p(1, 2) { n as $t } else { (-(n as i128)).clamp($t::MIN as i128, $t::MAX as i128) as $t } }
        fn item(&self) -> V { V::int(*self as i128) }
        fn dec(v: &V) -> DR<Self> {
            match v {
                V::U(n) => if *n <= $t::MAX as i128 { Ok(*n as $t) } else { Err(D::Size) },
                V::N(n) if $t::MIN != 0 => if $t::MIN as i128 <= *n && *n <= $t::MAX as i128 { Ok(*n as $t) } else { Err(D::Size) },
                _ => Err(D::Type),
            }
        }
        fn def() -> DR<Self> { Ok(0) }
        fn empty(&self) -> bool { *self == 0 }
        fn edges() -> Vec<Self> { let mut e: Vec<$t> = vec![]; for n in EDGES { for i in [*n as i128, -(*n as i128), -1 - *n as i128] { if let Ok(x) = <$t as std::convert::TryFrom<i128>>::try_from(i) { e.push(x) } } } e.push($t::MIN); e.push($t::MAX); e }
        const BYTE: bool = $byte;
        fn byte(&self) -> u8 { *self as u8 }
        fn of_byte(b: u8) -> Self { b as $t }
        fn scalar() -> bool { true }
    } )* } }
ints!(u8 true, u16 false, u32 false, u64 false, i8 false, i16 false, i32 false, i64 false);
impl Ty for u128 {
    fn arb(r: &mut Rng, _: u32) -> Self { let n = (num(r) as u128) << r.below(65); match r.below(4) { 0 => n, 1 => n.wrapping_mul(r.next() as u128), 2 => u128::MAX >> r.below(128), _ => 1 << r.below(128) } }
    fn item(&self) -> V { let mut b = vec![]; let mut n = *self; while n > 0 { b.insert(0, (n % 256) as u8); n /= 256 } V::B(b) }
    fn dec(v: &V) -> DR<Self> { match v { V::B(b) => if b.len() > 16 { Err(D::Size) } else { Ok(b.iter().fold(0, |n, x| n * 256 + *x as u128)) }, _ => Err(D::Type) } }
    fn def() -> DR<Self> { Ok(0) }
    fn empty(&self) -> bool { *self == 0 }
    fn edges() -> Vec<Self> { (0..128).flat_map(|i| [1u128 << i, (1u128 << i) - 1, u128::MAX >> i, u128::MAX << i]).chain([0, u128::MAX]).collect() }
    fn scalar() -> bool { true }
}
impl Ty for bool {
    fn arb(r: &mut Rng, _: u32) -> Self { r.p(1, 2) }
    fn item(&self) -> V { V::S(if *self { 21 } else { 20 }) }
    fn dec(v: &V) -> DR<Self> { match v { V::S(20) => Ok(false), V::S(21) => Ok(true), _ => Err(D::Type) } }
    fn def() -> DR<Self> { Ok(false) }
    fn empty(&self) -> bool { !*self }
    fn edges() -> Vec<Self> { vec![false, true] }
    fn scalar() -> bool { true }
}
impl Ty for char {
    fn arb(r: &mut Rng, _: u32) -> Self { loop { let n = if r.p(1, 2) { r.below(0x110000) } else { num(r) % 0x110000 }; if let Some(c) = char::from_u32(n as u32) { return c } } }
    fn item(&self) -> V { V::U(*self as u32 as i128) }
    fn dec(v: &V) -> DR<Self> { match v { V::U(n) if *n < 0xd800 || *n >= 0xe000 && *n < 0x110000 => Ok(char::from_u32(*n as u32).unwrap()), _ => Err(D::Type) } }
    fn def() -> DR<Self> { Ok('\0') }
    fn empty(&self) -> bool { *self as u32 == 0 }
    fn edges() -> Vec<Self> { EDGES.iter().filter_map(|n| if *n < 0x110000 { char::from_u32(*n as u32) } else { None }).collect() }
    fn scalar() -> bool { true }
}
impl Ty for String {
    fn arb(r: &mut Rng, _: u32) -> Self { text(r) }
    fn item(&self) -> V { V::T(self.clone()) }
    fn dec(v: &V) -> DR<Self> { match v { V::T(t) => Ok(t.clone()), _ => Err(D::Type) } }
    fn def() -> DR<Self> { Ok(String::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
    fn scalar() -> bool { true }
}
impl Ty for () {
    fn arb(_: &mut Rng, _: u32) -> Self {}
    fn item(&self) -> V { V::S(22) }
    fn dec(v: &V) -> DR<Self> { if is_null(v) { Ok(()) } else { Err(D::Type) } }
    fn def() -> DR<Self> { Ok(()) }
    fn empty(&self) -> bool { true }
}
impl Ty for Value {
    fn arb(r: &mut Rng, d: u32) -> Self { let v = value(r, d.min(2)); let v = dedup(&v); if r.p(1, 2) { v.norm().real() } else { v.real() } }
    fn item(&self) -> V { V::of(self) }
    fn dec(v: &V) -> DR<Self> { Ok(v.real()) }
    fn def() -> DR<Self> { Ok(V::null().real()) }
    fn empty(&self) -> bool { is_null(&V::of(self)) }
    fn lost(&self) -> bool { V::of(self) == V::S(23) }
    fn rt(&self) -> bool { let v = V::of(self); v.norm() == v && !v.has_dup() }
    fn rt_top(&self) -> bool { self.rt() && V::of(self) != V::S(23) }
}
impl<T: Ty> Ty for Option<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { if r.p(1, 3) { None } else { Some(T::arb(r, d)) } }
    fn item(&self) -> V { match self { Some(x) => x.item(), None => V::null() } }
    fn dec(v: &V) -> DR<Self> { if *v == V::null() { Ok(None) } else { T::dec(v).map(Some) } }
    fn def() -> DR<Self> { Ok(None) }
    fn empty(&self) -> bool { matches!(self, None) }
    fn rt(&self) -> bool { match self { Some(x) => x.rt() && x.item() != V::null(), None => true } }
    fn rt_top(&self) -> bool { match self { Some(x) => x.rt() && !is_null(&x.item()), None => true } }
    fn hashed() -> bool { T::hashed() }
    fn loose() -> bool { T::loose() }
}
fn few(r: &mut Rng, d: u32) -> usize { if d == 0 { r.below(2) as usize } else { match r.below(40) { 0 => 22 + r.below(5) as usize, 1 if d > 2 => 254 + r.below(4) as usize, _ => r.below(4) as usize } } }
fn seq<T: Ty>(a: &[V]) -> DR<Vec<T>> { let mut o = vec![]; for x in a { o.push(T::dec(x)?) } Ok(o) }
impl<T: Ty> Ty for Vec<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { let n = few(r, d); (0..n).map(|_| T::arb(r, d.saturating_sub(1))).collect() }
    fn item(&self) -> V { if T::BYTE { V::B(self.iter().map(|x| x.byte()).collect()) } else { V::A(self.iter().map(|x| x.item()).collect()) } }
    fn dec(v: &V) -> DR<Self> { match v { V::B(b) if T::BYTE => Ok(b.iter().map(|x| T::of_byte(*x)).collect()), V::A(a) if !T::BYTE => seq(a), _ => Err(D::Type) } }
    fn def() -> DR<Self> { Ok(vec![]) }
    fn empty(&self) -> bool { self.len() == 0 }
    fn rt(&self) -> bool { self.iter().all(|x| x.rt()) }
    fn hashed() -> bool { T::hashed() }
    fn loose() -> bool { T::loose() }
}
impl<T: Ty, const N: usize> Ty for [T; N] {
    fn arb(r: &mut Rng, d: u32) -> Self { std::array::from_fn(|_| T::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { if T::BYTE { V::B(self.iter().map(|x| x.byte()).collect()) } else { V::A(self.iter().map(|x| x.item()).collect()) } }
    fn dec(v: &V) -> DR<Self> {
        match v {
            V::B(b) if T::BYTE => if b.len() == N { Ok(std::array::from_fn(|i| T::of_byte(b[i]))) } else { Err(D::Type) },
            V::A(a) if !T::BYTE => { let s = seq::<T>(a)?; if s.len() == N { Ok(std::array::from_fn(|i| s[i].clone())) } else { Err(D::Type) } }
            _ => Err(D::Type),
        }
    }
    fn def() -> DR<Self> { if T::BYTE { Ok(std::array::from_fn(|_| T::of_byte(0))) } else { Err(D::Missing) } }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { self.iter().all(|x| x.rt()) }
    fn hashed() -> bool { T::hashed() }
    fn loose() -> bool { T::loose() }
}
macro_rules! maps { ($m:ident, $h:expr, $($b:tt)*) => {
    impl<K: Ty + $($b)*, T: Ty> Ty for $m<K, T> {
        fn arb(r: &mut Rng, d: u32) -> Self { let n = few(r, d); (0..n).map(|_| (K::arb(r, d.saturating_sub(1)), T::arb(r, d.saturating_sub(1)))).collect() }
        fn item(&self) -> V { V::M(self.iter().map(|(k, v)| (k.item(), v.item())).collect()) }
        fn dec(v: &V) -> DR<Self> { match v { V::M(m) => { let mut o = $m::new(); let mut s = vec![]; for (k, x) in m { s.push((K::dec(k)?, T::dec(x)?)) } for (k, x) in s { o.insert(k, x); } Ok(o) } _ => Err(D::Type) } }
        fn def() -> DR<Self> { Ok($m::new()) }
        fn empty(&self) -> bool { self.len() == 0 }
        fn rt(&self) -> bool { self.iter().all(|(k, v)| k.rt() && v.rt()) }
        fn hashed() -> bool { $h || K::hashed() || T::hashed() }
        fn loose() -> bool { K::loose() || T::loose() }
    } } }
maps!(BTreeMap, false, Ord);
maps!(HashMap, true, Eq + std::hash::Hash);
macro_rules! sets { ($m:ident, $h:expr, $($b:tt)*) => {
    impl<T: Ty + $($b)*> Ty for $m<T> {
        fn arb(r: &mut Rng, d: u32) -> Self { let n = few(r, d); (0..n).map(|_| T::arb(r, d.saturating_sub(1))).collect() }
        fn item(&self) -> V { V::A(self.iter().map(|x| x.item()).collect()) }
        fn dec(v: &V) -> DR<Self> { match v { V::A(a) => Ok(seq::<T>(a)?.into_iter().collect()), _ => Err(D::Type) } }
        fn def() -> DR<Self> { Ok($m::new()) }
        fn empty(&self) -> bool { self.len() == 0 }
        fn rt(&self) -> bool { self.iter().all(|x| x.rt()) }
        fn hashed() -> bool { $h || T::hashed() }
        fn loose() -> bool { T::loose() }
    } } }
sets!(BTreeSet, false, Ord);
sets!(HashSet, true, Eq + std::hash::Hash);
macro_rules! tuples { ($(($($t:ident $i:tt)*))*) => { $(
    impl<$($t: Ty),*> Ty for ($($t,)*) {
        fn arb(r: &mut Rng, d: u32) -> Self { ($($t::arb(r, d.saturating_sub(1)),)*) }
        fn item(&self) -> V { V::A(vec![$(self.$i.item()),*]) }
        fn dec(v: &V) -> DR<Self> { match v { V::A(a) => Ok(($($t::dec(a.get($i).ok_or(D::Missing)?)?,)*)), _ => Err(D::Type) } }
        fn def() -> DR<Self> { Ok(($($t::def()?,)*)) }
        fn empty(&self) -> bool { true $(&& self.$i.empty())* }
        fn lost(&self) -> bool { false $(|| self.$i.lost())* }
        fn rt(&self) -> bool { true $(&& self.$i.rt())* }
        fn hashed() -> bool { false $(|| $t::hashed())* }
        fn loose() -> bool { false $(|| $t::loose())* }
    } )* } }
tuples! { (A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 E 3) (A 0 B 1 C 2 E 3 F 4) (A 0 B 1 C 2 E 3 F 4 G 5) (A 0 B 1 C 2 E 3 F 4 G 5 H 6) (A 0 B 1 C 2 E 3 F 4 G 5 H 6 I 7) (A 0 B 1 C 2 E 3 F 4 G 5 H 6 I 7 J 8) (A 0 B 1 C 2 E 3 F 4 G 5 H 6 I 7 J 8 K 9) }

/// An item close to what T decodes: its own encoding, damaged in up to two places.
pub fn like<T: Ty>(r: &mut Rng) -> V {
    let mut v = T::arb(r, 3).item();
    for _ in 0..r.below(3) { v = bend(r, &v) }
    v
}
pub fn bend(r: &mut Rng, v: &V) -> V {
    if r.p(1, 5) { return odd(r) }
    match v {
        V::A(a) if r.p(3, 4) => {
            let mut a = a.clone();
            match r.below(5) {
                0 if !a.is_empty() => { let i = r.below(a.len() as u64) as usize; a.remove(i); }
                1 => { let i = r.below(a.len() as u64 + 1) as usize; let x = if a.is_empty() || r.p(1, 2) { odd(r) } else { r.pick(&a).clone() }; a.insert(i, x) }
                2 if a.len() > 1 => { let i = r.below(a.len() as u64) as usize; let j = r.below(a.len() as u64) as usize; a.swap(i, j) }
                _ if !a.is_empty() => { let i = r.below(a.len() as u64) as usize; a[i] = bend(r, &a[i]) }
                _ => {}
            }
            V::A(a)
        }
        V::M(m) if r.p(3, 4) => {
            let mut m = m.clone();
            match r.below(7) {
                0 if !m.is_empty() => { let i = r.below(m.len() as u64) as usize; m.remove(i); }
                1 => { let i = r.below(m.len() as u64 + 1) as usize; let x = (odd(r), odd(r)); m.insert(i, x) }
                2 if !m.is_empty() => { let x = r.pick(&m).clone(); let i = r.below(m.len() as u64 + 1) as usize; let y = if r.p(1, 2) { x.1 } else { bend(r, &x.1) }; m.insert(i, (x.0, y)) }
                3 if m.len() > 1 => { let i = r.below(m.len() as u64) as usize; let j = r.below(m.len() as u64) as usize; m.swap(i, j) }
                4 if !m.is_empty() => { let i = r.below(m.len() as u64) as usize; m[i].0 = bend(r, &m[i].0) }
                _ if !m.is_empty() => { let i = r.below(m.len() as u64) as usize; m[i].1 = bend(r, &m[i].1) }
                _ => {}
            }
            V::M(m)
        }
        V::B(b) => { let mut b = b.clone(); match r.below(4) { 0 => b.push(0), 1 => b.insert(0, r.next() as u8), 2 => { b.pop(); } _ => return V::A(b.iter().map(|x| V::U(*x as i128)).collect()) } V::B(b) }
        V::U(n) => match r.below(4) { 0 => V::N(-1 - *n), 1 => V::U((*n + 1).min(two64() - 1)), 2 => V::T(n.to_string()), _ => V::U(num(r) as i128) },
        V::N(n) => match r.below(3) { 0 => V::U(-1 - *n), 1 => V::N((*n - 1).max(-two64())), _ => V::N(-1 - num(r) as i128) },
        V::T(t) => match r.below(4) { 0 => V::B(t.as_bytes().to_vec()), 1 => V::T(format!("{}x", t)), 2 => V::t(""), _ => V::A(vec![V::T(t.clone())]) },
        _ => odd(r),
    }
}
/// Whatever trips a decoder.
pub fn odd(r: &mut Rng) -> V {
    match r.below(12) {
        0 | 1 => V::S(22),
        2 => V::S(23),
        3 => V::S(20 + r.below(2) as u8),
        4 => V::U(num(r) as i128),
        5 => V::N(-1 - num(r) as i128),
        6 => V::A(vec![]),
        7 => V::M(vec![]),
        8 => V::Tag(num(r), Box::new(leaf(r))),
        9 => V::t(""),
        10 => { let n = r.below(20) as usize; V::B(r.bytes(n)) }
        _ => value(r, 2),
    }
}
pub fn res<T>(r: Result<T, DecodeError>) -> DR<T> { r.map_err(|e| dclass(&e)) }
/// Equal up to the order of map entries, and of the elements of sets.
pub fn same(a: &V, b: &V, hashed: bool) -> bool {
    if a == b { return true }
    if !hashed { return false }
    fn srt(v: &V) -> V { match v { V::A(a) => { let mut a: Vec<V> = a.iter().map(srt).collect(); a.sort_by_key(|x| format!("{:?}", x)); V::A(a) } V::M(m) => { let mut m: Vec<(V, V)> = m.iter().map(|(k, x)| (srt(k), srt(x))).collect(); m.sort_by_key(|x| format!("{:?}", x)); V::M(m) } _ => v.clone() } }
    srt(a) == srt(b)
}
/// Decoding one item through every entry point.
pub fn decodes<T: Ty>(v: &V, k: &mut Case) -> R {
    let want = top::<T>(v);
    let got = res(oasis_cbor::from_value::<T>(v.real()));
    ensure!(got == want, "decodes to {:?} instead of {:?}", got, want);
    let w = res(T::try_from_cbor_value(v.real()));
    ensure!(w == T::dec(v), "as an element decodes to {:?} instead of {:?}", w, T::dec(v));
    k.hit |= want.is_ok();
    if v.wf() && !v.has_dup() && v.depth() <= 64 {
        let b = v.cenc();
        let n = v.norm();
        let want = top::<T>(&n);
        let got = res(oasis_cbor::from_slice::<T>(&b));
        ensure!(got == want, "decodes from bytes to {:?} instead of {:?}", got, want);
        let got = res(oasis_cbor::from_slice_non_strict::<T>(&b));
        ensure!(got == want, "leniently decodes from bytes to {:?} instead of {:?}", got, want);
    }
    Ok(())
}
pub fn encodes<T: Ty>(x: &T) -> R {
    let v = V::of(&oasis_cbor::to_value(x.clone()));
    ensure!(same(&v, &x.item(), T::hashed()), "encodes as {:?} instead of {:?}", v, x.item());
    if !v.has_dup() && v.depth() <= 127 {
        let b = oasis_cbor::to_vec(x.clone());
        ensure!(b == v.cenc() , "encodes to bytes {} instead of {}", hex(&b), hex(&v.cenc()));
        ensure!(T::hashed() || b == x.item().cenc(), "encodes to bytes {} instead of {}", hex(&b), hex(&x.item().cenc()));
    }
    Ok(())
}
pub fn back<T: Ty>(x: &T, k: &mut Case) -> R {
    encodes(x)?;
    let v = x.clone().into_cbor_value();
    if x.rt_top() {
        k.hit = true;
        let y = oasis_cbor::from_value::<T>(v.clone());
        ensure!(matches!(&y, Ok(y) if y == x), "comes back from its value as {:?}", y);
        if V::of(&v).depth() <= 64 {
            let b = oasis_cbor::to_vec(x.clone());
            let y = oasis_cbor::from_slice::<T>(&b);
            ensure!(matches!(&y, Ok(y) if y == x), "comes back from {} as {:?}", hex(&b), y);
            let y = oasis_cbor::from_slice_non_strict::<T>(&b);
            ensure!(matches!(&y, Ok(y) if y == x), "leniently comes back from {} as {:?}", hex(&b), y);
        }
    }
    if x.rt() {
        let y = T::try_from_cbor_value(v);
        ensure!(matches!(&y, Ok(y) if y == x), "as an element comes back as {:?}", y);
    }
    Ok(())
}
pub fn emptiness<T: Ty>(x: &T, k: &mut Case) -> R {
    let e = x.is_empty();
    k.hit |= x.empty();
    ensure!(e == x.empty(), "is_empty says {}", e);
    let o = x.clone().into_optional_cbor_value();
    match &o {
        None => ensure!(x.omit(), "is left out"),
        Some(v) => { ensure!(!x.omit(), "is not left out"); ensure!(same(&V::of(v), &x.item(), T::hashed()), "is encoded as {:?}", v) }
    }
    if o.is_none() && x.rt_top() && !x.lost() { let d = res(T::try_default()); ensure!(matches!(&d, Ok(d) if d == x), "left out, it comes back as {:?}", d) }
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
pub enum Op { Enc, Dec, Back, Null, Empty }
pub struct One { pub name: &'static str, pub scalar: bool, pub run: fn(Op, &mut Rng, u64, &mut Case) -> R, pub edges: usize }
fn go<T: Ty>(op: Op, r: &mut Rng, i: u64, k: &mut Case) -> R {
    let name = std::any::type_name::<T>();
    match op {
        Op::Enc => { let e = T::edges(); let x = &e[i as usize]; k.set(format!("{}: {:?}", name, x)); k.hit = true; encodes(x)?; back(x, k)?; emptiness(x, k)?; decodes::<T>(&x.item(), k) }
        Op::Dec => { let v = if r.p(1, 10) { odd(r) } else { like::<T>(r) }; k.set(format!("{} from {:?}", name, v)); decodes::<T>(&v, k) }
        Op::Back => { let d = 1 + r.below(4) as u32; let x = T::arb(r, d); k.set(format!("{}: {:?}", name, x)); back(&x, k) }
        Op::Null => {
            let v = if r.p(1, 4) { V::S(22 + r.below(2) as u8) } else { let x = T::arb(r, 3).item(); null_in(r, &x) };
            k.set(format!("{} from {:?}", name, v));
            k.hit = true;
            let d = res(T::try_default());
            ensure!(d == T::def(), "the default is {:?} instead of {:?}", d, T::def());
            let (a, b) = (res(T::try_from_cbor_value_default(V::S(22).real())), res(T::try_from_cbor_value_default(V::S(23).real())));
            ensure!(a == T::def() && b == T::def(), "null gives {:?} and undefined {:?} instead of {:?}", a, b, T::def());
            decodes::<T>(&v, k)
        }
        Op::Empty => { let x = if r.p(1, 2) { T::arb(r, 0) } else { T::arb(r, 2) }; k.set(format!("{}: {:?}", name, x)); emptiness(&x, k)?; if let Ok(d) = T::def() { k.set(format!("{}: {:?}", name, d)); emptiness(&d, k)? } Ok(()) }
    }
}
/// Some part replaced by null or undefined.
pub fn null_in(r: &mut Rng, v: &V) -> V {
    match v {
        V::A(a) if !a.is_empty() => { let mut a = a.clone(); let i = r.below(a.len() as u64) as usize; a[i] = null_in(r, &a[i]); V::A(a) }
        V::M(m) if !m.is_empty() => { let mut m = m.clone(); let i = r.below(m.len() as u64) as usize; if r.p(1, 4) { m[i].0 = null_in(r, &m[i].0) } else { m[i].1 = null_in(r, &m[i].1) } V::M(m) }
        _ => V::S(22 + r.below(2) as u8),
    }
}
macro_rules! list { ($($t:ty),* $(,)?) => { vec![$(One { name: stringify!($t), scalar: <$t as Ty>::scalar(), run: go::<$t>, edges: <$t as Ty>::edges().len() }),*] } }
fn scalars() -> Vec<One> { list![u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String] }
fn containers() -> Vec<One> {
    list![
        Vec<u8>, Vec<u16>, Vec<i8>, Vec<bool>, Vec<String>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<Value>, Vec<()>, Vec<u128>, Vec<char>,
        [u8; 0], [u8; 1], [u8; 4], [u8; 32], [u16; 0], [u16; 3], [i8; 3], [Option<bool>; 2], [[u8; 2]; 2], [String; 1], [Value; 2],
        Option<u8>, Option<bool>, Option<String>, Option<Vec<u8>>, Option<Option<u16>>, Option<()>, Option<Value>, Option<[u16; 2]>, Option<(u8, bool)>, Value, (),
        (u8,), (u8, String), (Vec<u8>, Option<u8>, bool), (u8, u16, u32, u64), (i8, i16, i32, i64, u128), (bool, char, String, (), Value, Option<u8>), (u8, u8, u8, u8, u8, u8, u8),
        (u8, i8, u16, i16, u32, i32, u64, i64), (u8, u8, u8, bool, u8, u8, String, u8, u8), (u8, u16, bool, char, String, Vec<u8>, Option<u8>, i64, u128, [u8; 2]), ((u8, bool), [u16; 2]),
        BTreeMap<u8, String>, BTreeMap<String, Option<u8>>, BTreeMap<Vec<u8>, u8>, BTreeMap<i16, Vec<u16>>, BTreeMap<(u8, bool), Value>, BTreeMap<bool, BTreeMap<u8, u8>>, BTreeMap<char, ()>, BTreeMap<Option<u8>, u8>, BTreeMap<BTreeMap<u8, u8>, u8>,
        HashMap<u8, String>, HashMap<String, Option<u8>>, HashMap<i64, bool>, HashMap<Vec<u8>, HashMap<u8, u8>>,
        BTreeSet<u8>, BTreeSet<i32>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<(u8, bool)>, BTreeSet<Option<u8>>,
        HashSet<u8>, HashSet<String>, HashSet<i64>, Vec<HashSet<u8>>,
        Vec<BTreeMap<u8, Option<[u8; 2]>>>, Vec<Vec<Vec<u8>>>, Option<BTreeSet<u16>>,
    ]
}
fn each(c: &mut Ctx, name: &str, share: f64, ops: &'static [Op], types: &[One]) -> Result<(), Fail> {
    let n = types.len() as u64;
    c.random(name, share, |r, i, k| { let t = &types[(i % n) as usize]; (t.run)(ops[(i / n % ops.len() as u64) as usize], r, i, k) })
}
fn every_edge(c: &mut Ctx, name: &str, types: &[One]) -> Result<(), Fail> {
    let all: Vec<(usize, u64)> = types.iter().enumerate().flat_map(|(t, o)| (0..o.edges as u64).map(move |i| (t, i))).collect();
    c.all(name, all.len() as u64, |r, i, k| { let (t, i) = all[i as usize]; (types[t].run)(Op::Enc, r, i, k) })
}
/// Every item out of a grid into every scalar type.
fn grid() -> Vec<V> {
    let mut g = vec![];
    for n in EDGES { g.push(V::U(*n as i128)); g.push(V::N(-1 - *n as i128)) }
    for n in 0..300 { g.push(V::U(n)); g.push(V::N(-1 - n)) }
    for l in 0..20usize { for b in [0u8, 1, 127, 128, 255] { g.push(V::B(vec![b; l])); let mut s = vec![0; l]; if l > 0 { s[l - 1] = b; g.push(V::B(s.clone())); s[l - 1] = 0; s[0] = b; g.push(V::B(s)) } } }
    for t in ["", "a", "1", "true", "ü"] { g.push(V::t(t)) }
    for s in 20..24 { g.push(V::S(s)) }
    g.push(V::A(vec![]));
    g.push(V::A(vec![V::U(1)]));
    g.push(V::M(vec![]));
    g.push(V::Tag(2, Box::new(V::B(vec![1]))));
    g
}
pub fn c09(c: &mut Ctx) -> Result<(), Fail> {
    let s = scalars();
    every_edge(c, "edges", &s)?;
    let g = grid();
    let n = g.len() as u64;
    macro_rules! at { ($j:expr, $v:expr, $k:expr, $($t:ty)*) => {{ let fs: Vec<fn(&V, &mut Case) -> R> = vec![$(decodes::<$t>),*]; let ns: Vec<&str> = vec![$(stringify!($t)),*]; $k.set(format!("{} from {:?}", ns[$j], $v)); $k.hit = true; fs[$j]($v, $k) }} }
    c.all("grid", n * 12, |_, i, k| { let v = &g[(i / 12) as usize]; at!((i % 12) as usize, v, k, u8 u16 u32 u64 i8 i16 i32 i64 u128 bool char String) })?;
    let all_chars = if c.thorough { 0x110000 } else { 0x110000 / 64 };
    c.all("chars", all_chars, |r, i, k| { let n = if all_chars < 0x110000 { i * 64 + r.below(64) } else { i }; let v = V::U(n as i128); k.set(format!("char from {}", n)); k.hit = true; decodes::<char>(&v, k)?; if let Some(x) = char::from_u32(n as u32) { encodes(&x)? } Ok(()) })?;
    c.random("references", 0.2, |r, _, k| {
        macro_rules! refs { ($($t:ty)*) => { $( let x = <$t as Ty>::arb(r, 0); k.set(format!("&{}: {:?}", stringify!($t), x)); let v = V::of(&oasis_cbor::to_value(&x)); ensure!(v == x.item(), "encodes as {:?}", v); ensure!((&x).is_empty() == x.empty(), "emptiness"); )* } }
        refs!(u8 u16 u32 u64 i8 i16 i32 i64 u128);
        let t = text(r);
        k.set(format!("&str: {:?}", t));
        k.hit = true;
        let v = V::of(&oasis_cbor::to_value(t.as_str()));
        ensure!(v == t.item(), "encodes as {:?}", v);
        ensure!(Encode::is_empty(&t.as_str()) == (t.len() == 0), "emptiness");
        Ok(())
    })?;
    each(c, "scalars", 1.0, &[Op::Back, Op::Dec], &s)
}
pub fn c10(c: &mut Ctx) -> Result<(), Fail> {
    each(c, "roundtrip", 1.0, &[Op::Back], &containers())
}
pub fn c11(c: &mut Ctx) -> Result<(), Fail> {
    let mut t = containers();
    t.extend(scalars());
    each(c, "shapes", 0.9, &[Op::Dec], &t)?;
    c.random("bytes", 1.0, |r, _, k| {
        let b = blob(r);
        k.set(format!("bytes {}", hex(&b)));
        macro_rules! at { ($($t:ty)*) => { $(
            for strict in [true, false] {
                let want = match decode(&b, Some(64), strict) { Ok(v) => top::<$t>(&v), Err(_) => Err(D::Parse) };
                let got = res(if strict { oasis_cbor::from_slice::<$t>(&b) } else { oasis_cbor::from_slice_non_strict::<$t>(&b) });
                k.hit |= want.is_ok();
                ensure!(got == want, "as {} (strict: {}) decodes to {:?} instead of {:?}", stringify!($t), strict, got, want);
            } )* } }
        at!(Value u64 i32 String Vec<u8> Vec<Value> [u8; 2] Option<Value> (Value, Value) BTreeMap<String, Value> BTreeSet<u8> Vec<Vec<u8>>);
        Ok(())
    })
}
pub fn c12(c: &mut Ctx) -> Result<(), Fail> {
    let mut t = containers();
    t.extend(scalars());
    each(c, "null", 0.9, &[Op::Null], &t)?;
    crate::derived::c12(c)
}
pub fn c15(c: &mut Ctx) -> Result<(), Fail> {
    let mut t = containers();
    t.extend(scalars());
    every_edge(c, "edges", &scalars())?;
    each(c, "empty", 0.5, &[Op::Empty], &t)?;
    crate::derived::c15(c)
}

// ---------------------------------------------------------------- C18

fn pairs(m: &[(V, V)]) -> Vec<(Value, Value)> { m.iter().map(|(k, v)| (k.real(), v.real())).collect() }
pub fn c18(c: &mut Ctx) -> Result<(), Fail> {
    use oasis_cbor::macros::{destructure_cbor_map_peek_value as peek, destructure_cbor_map_peek_value_strict as strict};
    c.random("extract", 0.5, |r, _, k| {
        let (m, keys) = table(r);
        k.set(format!("map {:?} keys {:?}", m, keys));
        let mut it = pairs(&m).into_iter().peekable();
        for (i, q) in keys.iter().enumerate() {
            let want = m.iter().find(|e| e.0 == *q).map(|e| e.1.clone());
            k.hit |= want.is_some();
            let got = peek(&mut it, q.real()).map(|v| V::of(&v));
            ensure!(got == want, "key {} gives {:?} instead of {:?}", i, got, want);
        }
        let rest: Vec<(V, V)> = it.map(|(a, b)| (V::of(&a), V::of(&b))).collect();
        let want: Vec<(V, V)> = match keys.last() { None => m.clone(), Some(q) => m.iter().filter(|e| e.0.ord(q) == std::cmp::Ordering::Greater).cloned().collect() };
        ensure!(rest == want, "what is left is {:?}", rest);
        Ok(())
    })?;
    c.random("strict", 0.6, |r, _, k| {
        let (m, keys) = table(r);
        k.set(format!("map {:?} keys {:?}", m, keys));
        let mut it = pairs(&m).into_iter().peekable();
        let mut left: &[(V, V)] = &m;
        for (i, q) in keys.iter().enumerate() {
            let got = strict(&mut it, q.real());
            if left.first().map_or(false, |e| e.0.ord(q) == std::cmp::Ordering::Less) {
                ensure!(matches!(got, Err(DecodeError::UnknownField)), "an unrequested key before key {} gives {:?}", i, got);
                return Ok(());
            }
            let want = m.iter().find(|e| e.0 == *q).map(|e| e.1.clone());
            if want.is_some() { left = &left[1..]; k.hit = true }
            ensure!(got.is_ok(), "key {} gives {:?}", i, got);
            let got = got.ok().flatten().map(|v| V::of(&v));
            ensure!(got == want, "key {} gives {:?} instead of {:?}", i, got, want);
        }
        let rest: Vec<(V, V)> = it.map(|(a, b)| (V::of(&a), V::of(&b))).collect();
        ensure!(rest == left, "what is left is {:?}", rest);
        Ok(())
    })?;
    crate::macros::c18(c)
}
/// A sorted map and an increasing list of keys, with and without overlap.
pub fn table(r: &mut Rng) -> (Vec<(V, V)>, Vec<V>) {
    let n = r.below(9) as usize;
    let mut ks: Vec<V> = (0..n + r.below(6) as usize).map(|_| if r.p(1, 2) { V::U(r.below(14) as i128) } else { key(r, 2) }).map(|k| dedup(&k).norm()).collect();
    if r.p(1, 4) && !ks.is_empty() { let k = r.pick(&ks).clone(); ks.push(V::Tag(1, Box::new(k.clone()))); ks.push(V::A(vec![k])) }
    ks.sort_by(|a, b| a.ord(b));
    ks.dedup();
    let dense = *r.pick(&[1u64, 2, 3, 5]);
    let m: Vec<(V, V)> = ks.iter().filter(|_| r.p(dense, 4)).cloned().collect::<Vec<_>>().into_iter().map(|k| (k, leaf(r))).collect();
    let want = *r.pick(&[1u64, 2, 3, 4]);
    let keys = ks.into_iter().filter(|_| r.p(want, 4)).collect();
    (m, keys)
}
