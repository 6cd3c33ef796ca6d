//! Derived codecs: the declarations of the catalogue against what their declarations say.
use crate::{ctx::*, ensure, gen::*, model::*, typed::*};
pub use crate::derived_gen::declarations;
use oasis_cbor::Encode;

/// What an untagged enum is encoded as (it cannot be decoded).
pub trait Shape: Encode + Clone + std::fmt::Debug {
    fn arb(r: &mut Rng, d: u32) -> Self;
    fn item(&self) -> V;
}

// ---------------------------------------------------------------- reading declared shapes
/// The value of a field: absent is the same as null.
pub fn field<W: Ty>(m: &[(V, V)], k: &V) -> DR<W> { match m.iter().find(|e| e.0 == *k) { Some(e) => top::<W>(&e.1), None => W::def() } }
/// The entries of a map with these keys.
pub fn entries<'a>(v: &'a V, keys: &[V], unknown: bool) -> DR<&'a [(V, V)]> {
    match v {
        V::M(m) => {
            if !unknown {
                for (i, e) in m.iter().enumerate() { if !keys.contains(&e.0) || m[..i].iter().any(|f| f.0 == e.0) { return Err(D::Unknown) } }
            }
            Ok(m)
        }
        _ => Err(D::Type),
    }
}
/// The elements of an array with so many elements.
pub fn elements(v: &V, n: usize, unknown: bool) -> DR<&[V]> {
    match v { V::A(a) => if a.len() > n && !unknown { Err(D::Unknown) } else if a.len() < n { Err(D::Missing) } else { Ok(a) }, _ => Err(D::Type) }
}
pub fn unit(v: &V, unknown: bool) -> DR<()> { match v { V::M(m) if m.is_empty() || unknown => Ok(()), V::M(_) => Err(D::Unknown), _ if is_null(v) => Ok(()), _ => Err(D::Type) } }
pub fn with_tag(v: V, tag: V, k: V) -> V { match v { V::M(mut m) => { m.push((tag, k)); V::M(m) } v => v } }
/// The tag, and the map without it.
pub fn untag(v: &V, tag: &V) -> DR<(V, V)> {
    match v {
        V::M(m) => { let mut m = m.clone(); match m.iter().position(|e| e.0 == *tag) { Some(i) => { let e = m.remove(i); Ok((e.1, V::M(m))) } None => Ok((V::S(23), V::M(m))) } }
        _ => Err(D::Type),
    }
}
// Helpers that attributes name.
pub fn m_is_zero(x: &u64) -> bool { *x == 0 }
pub fn m_is_odd(x: &u64) -> bool { x & 1 == 1 }
pub fn m_enc_cap(x: &u64) -> u64 { if *x < 1000 { *x } else { 1000 } }
pub fn m_dec_small(x: u16) -> DR<u16> { if x > 999 { Err(D::Size) } else { Ok(x) } }
pub fn m_enc_plus(x: &u64) -> u128 { *x as u128 + 1 }
pub fn m_dec_plus(x: u128) -> DR<u64> { if x == 0 || x > 1 << 64 { Err(D::Size) } else { Ok((x - 1) as u64) } }
pub fn m_enc_not(x: &bool) -> bool { *x == false }
pub fn m_dec_not(x: bool) -> DR<bool> { Ok(x == false) }

// ---------------------------------------------------------------- input
fn near(r: &mut Rng, k: &V) -> V {
    match k {
        V::T(t) => V::T(match r.below(5) { 0 => format!("{}a", t), 1 => format!("{}\0", t), 2 => { let mut t = t.clone(); t.pop(); t }, 3 => t.to_uppercase(), _ => format!("a{}", t) }),
        V::U(n) => match r.below(4) { 0 => V::U((n + 1).min(two64() - 1)), 1 => V::U((n - 1).max(0)), 2 => V::N(-1 - n), _ => V::T(n.to_string()) },
        V::N(n) => V::N((n - 1).max(-two64())),
        _ => V::A(vec![k.clone()]),
    }
}
fn some_key(r: &mut Rng, keys: &[V]) -> V {
    match r.below(8) {
        0..=2 if !keys.is_empty() => { let k = r.pick(keys).clone(); near(r, &k) }
        3 if !keys.is_empty() => r.pick(keys).clone(),
        4 => V::U(r.below(12) as i128),
        5 => V::t(["", "a", "z", "zzzz", "zzzzzzzzz"][r.below(5) as usize]),
        6 => V::S(22 + r.below(2) as u8),
        _ => key(r, 1),
    }
}
/// One way for an item not to match.
pub fn shake(r: &mut Rng, v: &V, keys: &[V], others: &[V]) -> V {
    if r.p(1, 12) { return if !others.is_empty() && r.p(1, 2) { let o = r.pick(others).clone(); if r.p(1, 2) { near(r, &o) } else { o } } else { odd(r) } }
    match v {
        V::M(m) => {
            let mut m = m.clone();
            let at = r.below(m.len() as u64 + 1) as usize;
            match r.below(10) {
                0 | 1 => { let e = (some_key(r, keys), odd(r)); m.insert(at, e) }
                2 if !m.is_empty() => { let e = r.pick(&m).clone(); let x = if r.p(1, 2) { e.1 } else { odd(r) }; m.insert(at, (e.0, x)) }
                3 if at < m.len() => { m.remove(at); }
                4 if at < m.len() => m[at].1 = V::S(22 + r.below(2) as u8),
                5 if at < m.len() => m[at].0 = near(r, &m[at].0),
                6 => return shuffle(r, &V::M(m)),
                7 if at < m.len() => m[at].1 = odd(r),
                _ if at < m.len() => m[at].1 = shake(r, &m[at].1, keys, others),
                _ => { let e = (some_key(r, keys), odd(r)); m.push(e) }
            }
            V::M(m)
        }
        V::A(a) => {
            let mut a = a.clone();
            let at = r.below(a.len() as u64 + 1) as usize;
            match r.below(6) {
                0 => { let x = if a.is_empty() || r.p(1, 2) { odd(r) } else { r.pick(&a).clone() }; a.insert(at, x) }
                1 => { let x = odd(r); a.push(x) }
                2 => { a.pop(); }
                3 if at < a.len() => a[at] = V::S(22 + r.below(2) as u8),
                4 if at < a.len() => a[at] = odd(r),
                _ if at < a.len() => a[at] = shake(r, &a[at], keys, others),
                _ => {}
            }
            V::A(a)
        }
        V::T(_) if r.p(1, 2) => near(r, v),
        _ if !others.is_empty() && r.p(1, 3) => { let o = r.pick(others).clone(); near(r, &o) }
        _ => bend(r, v),
    }
}
/// Some map names a key twice.
fn repeats(v: &V) -> bool {
    match v {
        V::M(m) => m.iter().enumerate().any(|(i, e)| m[..i].iter().any(|f| f.0 == e.0) || repeats(&e.0) || repeats(&e.1)),
        V::A(a) => a.iter().any(repeats),
        V::Tag(_, x) => repeats(x),
        _ => false,
    }
}

// ---------------------------------------------------------------- checks
fn agrees<T: PartialEq + std::fmt::Debug>(how: &str, got: DR<T>, want: &DR<T>) -> R {
    match (&got, want) {
        (Ok(a), Ok(b)) => { ensure!(a == b, "{}decodes to {:?} instead of {:?}", how, a, b); Ok(()) }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("{}is accepted as {:?} although {}", how, got, match e { D::Unknown => "it holds what was not declared", D::Missing => "a field is missing", D::Size => "a number is out of range", _ => "its kind is wrong" })),
        (Err(e), Ok(b)) => Err(format!("{}is refused with {:?} instead of giving {:?}", how, e, b)),
    }
}
/// An item through every entry point: accepted exactly if it matches.
fn decodes<T: Ty>(v: &V, k: &mut Case) -> R {
    let want = top::<T>(v);
    k.hit |= want.is_ok();
    agrees("", res(oasis_cbor::from_value::<T>(v.real())), &want)?;
    agrees("as an element ", res(T::try_from_cbor_value(v.real())), &T::dec(v))?;
    if v.wf() && !v.has_dup() && v.depth() <= 64 {
        let (b, want) = (v.cenc(), top::<T>(&v.norm()));
        agrees(&format!("from bytes {} ", hex(&b)), res(oasis_cbor::from_slice::<T>(&b)), &want)?;
        agrees(&format!("leniently from bytes {} ", hex(&b)), res(oasis_cbor::from_slice_non_strict::<T>(&b)), &want)?;
    }
    Ok(())
}
fn encodes<T: Encode + Clone>(x: &T, want: &V) -> R {
    let v = V::of(&oasis_cbor::to_value(x.clone()));
    ensure!(v.wf() && want.wf() && v.cenc() == want.cenc(), "encodes as {:?} instead of {:?}", v, want);
    if !want.has_dup() && want.depth() <= 127 {
        let b = oasis_cbor::to_vec(x.clone());
        ensure!(b == want.cenc(), "encodes to bytes {} instead of {}", hex(&b), hex(&want.cenc()));
    }
    Ok(())
}
fn left_out<T: Ty>(x: &T) -> R {
    match x.clone().into_optional_cbor_value() {
        None => ensure!(x.omit(), "as an optional field is left out"),
        Some(v) => { ensure!(!x.omit(), "as an optional field is not left out but encoded as {:?}", v); ensure!(V::of(&v).cenc() == x.item().cenc(), "as an optional field is encoded as {:?}", v) }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
pub enum What { Round, Shake, Null, Presence }
pub struct Decl { pub name: &'static str, pub run: fn(What, &str, &mut Rng, &mut Case) -> R }
pub fn decl<T: Ty>(name: &'static str) -> Decl { Decl { name, run: go::<T> } }
fn go<T: Ty>(what: What, name: &str, r: &mut Rng, k: &mut Case) -> R {
    let d = 1 + r.below(3) as u32;
    let x = T::arb(r, d);
    match what {
        What::Round => {
            k.set(format!("{}: {:?}", name, x));
            encodes(&x, &x.item())?;
            let v = oasis_cbor::to_value(x.clone());
            if x.rt_top() {
                k.hit = true;
                let y = oasis_cbor::from_value::<T>(v.clone());
                ensure!(matches!(&y, Ok(y) if *y == x), "comes back from its value as {:?}", y);
                if x.item().depth() <= 64 {
                    let b = oasis_cbor::to_vec(x.clone());
                    for strict in [true, false] {
                        let y = if strict { oasis_cbor::from_slice::<T>(&b) } else { oasis_cbor::from_slice_non_strict::<T>(&b) };
                        ensure!(matches!(&y, Ok(y) if *y == x), "comes back from {} (strict: {}) as {:?}", hex(&b), strict, y);
                    }
                }
            }
            if x.rt() { let y = T::try_from_cbor_value(v); ensure!(matches!(&y, Ok(y) if *y == x), "as an element comes back as {:?}", y) }
            // Whatever it decodes to otherwise (skipped fields become their default).
            decodes::<T>(&x.item(), k)
        }
        What::Shake => {
            let (keys, others) = (T::keys(), T::others());
            let mut v = x.item();
            for _ in 0..match r.below(8) { 0 => 0, 1..=5 => 1, _ => 2 + r.below(2) } { v = shake(r, &v, &keys, &others) }
            if T::loose() && repeats(&v) { v = dedup(&v) }
            k.set(format!("{} from {:?}", name, v));
            decodes::<T>(&v, k)
        }
        What::Null => {
            let d = T::def();
            k.set(format!("{} from null", name));
            k.hit = true;
            agrees("the default ", res(T::try_default()), &d)?;
            for s in [22, 23] {
                k.set(format!("{} from {:?}", name, V::S(s)));
                agrees("", res(oasis_cbor::from_value::<T>(V::S(s).real())), &d)?;
                let e = res(oasis_cbor::from_slice::<T>(&[0xe0 + s]));
                agrees("from bytes ", e.clone(), &d)?;
                if d == Err(D::Missing) { ensure!(e == d, "fails with {:?} instead of reporting a missing field", e) }
            }
            // Each position in turn: null, undefined and (in maps) absent.
            let v = null_at(r, &x.item());
            for s in [22, 23, 0] {
                let v = v(s);
                k.set(format!("{} from {:?}", name, v));
                decodes::<T>(&v, k)?;
                if s == 22 && top::<T>(&x.item()).is_ok() && top::<T>(&v) == Err(D::Missing) { let e = res(oasis_cbor::from_value::<T>(v.real())); ensure!(matches!(e, Err(D::Missing)), "fails with {:?} instead of reporting a missing field", e) }
            }
            Ok(())
        }
        What::Presence => {
            k.set(format!("{}: {:?}", name, x));
            let v = V::of(&oasis_cbor::to_value(x.clone()));
            ensure!(keys_of(&v) == keys_of(&x.item()), "has the keys {:?} instead of {:?}", keys_of(&v), keys_of(&x.item()));
            k.hit |= T::keys().iter().any(|q| !keys_of(&v).contains(q));
            left_out(&x)?;
            if x.rt_top() { let y = oasis_cbor::from_value::<T>(v.real()); ensure!(matches!(&y, Ok(y) if *y == x), "comes back as {:?}", y) }
            Ok(())
        }
    }
}
/// All keys, with the place they are at.
fn keys_of(v: &V) -> Vec<V> {
    fn walk(v: &V, at: &[V], o: &mut Vec<V>) {
        match v {
            V::M(m) => for (k, x) in m { let mut p = at.to_vec(); p.push(k.clone()); o.push(if at.is_empty() { k.clone() } else { V::A(p.clone()) }); walk(x, &p, o) },
            V::A(a) => for (i, x) in a.iter().enumerate() { let mut p = at.to_vec(); p.push(V::int(i as i128)); walk(x, &p, o) },
            _ => {}
        }
    }
    let mut o = vec![];
    walk(v, &[], &mut o);
    o.sort_by_key(|k| k.cenc());
    o
}
/// A hole at a random place: fill it with null, undefined, or (0) nothing.
fn null_at(r: &mut Rng, v: &V) -> Box<dyn Fn(u8) -> V> {
    match v {
        V::M(m) if !m.is_empty() => {
            let (m, i) = (m.clone(), r.below(m.len() as u64) as usize);
            let inner: Option<Box<dyn Fn(u8) -> V>> = if r.p(1, 2) { Some(null_at(r, &m[i].1)) } else { None };
            Box::new(move |s| { let mut m = m.clone(); match &inner { Some(f) => m[i].1 = f(s), None if s == 0 => { m.remove(i); } None => m[i].1 = V::S(s) } V::M(m) })
        }
        V::A(a) if !a.is_empty() => {
            let (a, i) = (a.clone(), r.below(a.len() as u64) as usize);
            let inner: Option<Box<dyn Fn(u8) -> V>> = if r.p(1, 2) { Some(null_at(r, &a[i])) } else { None };
            Box::new(move |s| { let mut a = a.clone(); match &inner { Some(f) => a[i] = f(s), None => a[i] = V::S(if s == 0 { 22 } else { s }) } V::A(a) })
        }
        _ => Box::new(|s| V::S(if s == 0 { 22 } else { s })),
    }
}
fn each(c: &mut Ctx, name: &str, share: f64, what: What) -> Result<(), Fail> {
    let mut d = declarations();
    let n = d.len() as u64;
    c.random(name, share * 0.5, |r, i, k| { let t = &d[(i % n) as usize]; (t.run)(what, t.name, r, k) })?;
    d = crate::random_gen::declarations();
    let n = d.len() as u64;
    c.random(&format!("{} (random declarations)", name), share, |r, i, k| { let t = &d[(i % n) as usize]; (t.run)(what, t.name, r, k) })
}
pub fn c12(c: &mut Ctx) -> Result<(), Fail> { each(c, "declarations", 1.0, What::Null) }
pub fn c13(c: &mut Ctx) -> Result<(), Fail> {
    c.random("untagged", 0.05, |r, _, k| { let x = <vx_catalogue::derived::Bare as Shape>::arb(r, 2); k.set(format!("Bare: {:?}", x)); k.hit = true; encodes(&x, &x.item()) })?;
    each(c, "roundtrip", 1.0, What::Round)
}
pub fn c14(c: &mut Ctx) -> Result<(), Fail> { each(c, "matching", 1.0, What::Shake) }
pub fn c15(c: &mut Ctx) -> Result<(), Fail> {
    c.random("untagged", 0.05, |r, _, k| { let x = <vx_catalogue::derived::Bare as Shape>::arb(r, 2); k.set(format!("Bare: {:?}", x)); k.hit = true; encodes(&x, &x.item()) })?;
    each(c, "presence", 1.0, What::Presence)
}
