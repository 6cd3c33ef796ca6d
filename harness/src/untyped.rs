//! Properties of the untyped layer.
use crate::{ctx::*, ensure, gen::*, model::*};
use oasis_cbor_value::{reader::{self, DecoderError}, values::Value, writer::{self, EncoderError}};
use std::cmp::Ordering;

fn limit(r: &mut Rng) -> Option<i8> {
    match r.below(10) { 0..=3 => None, 4 | 5 => Some(127), 6 => Some(64), 7 => Some(r.below(6) as i8), 8 => Some(*r.pick(&[-128, -1, 0, 1, 2, 63, 64, 65, 126, 127])), _ => Some(r.next() as i8) }
}
/// Reading as the public entry points offer it.
fn read(b: &[u8], l: Option<i8>) -> Result<Value, DecoderError> { reader::read_nested(b, l) }
fn m(r: &Result<Value, DecoderError>) -> Result<V, E> { match r { Ok(v) => Ok(V::of(v)), Err(e) => Err(class(e)) } }
fn wide(l: Option<i8>) -> Option<i32> { l.map(|x| x as i32) }
fn write(v: Value, l: Option<i8>) -> Result<Vec<u8>, EncoderError> { let mut o = vec![]; writer::write_nested(v, &mut o, l).map(|_| o) }

/// All byte strings of up to two bytes, then of three bytes.
pub fn small(i: u64) -> Vec<u8> {
    if i == 0 { vec![] } else if i <= 256 { vec![(i - 1) as u8] } else if i <= 256 + 65536 { ((i - 257) as u16).to_be_bytes().to_vec() } else { ((i - 65793) as u32).to_be_bytes()[1..].to_vec() }
}
const SMALL2: u64 = 1 + 256 + 65536;
const SMALL3: u64 = SMALL2 + (1 << 24);
fn sweep(c: &Ctx) -> u64 { if c.thorough { SMALL3 } else { SMALL2 } }

fn each(c: &mut Ctx, name: &str, mut f: impl FnMut(&[u8], Option<i8>, &mut Case) -> R) -> Result<(), Fail> {
    let n = sweep(c);
    c.all(&format!("{}-small", name), n, |_, i, k| { let b = small(i); k.set(format!("bytes {} without a limit", hex(&b))); f(&b, None, k) })?;
    c.random(&format!("{}-blobs", name), 1.0, |r, _, k| { let b = blob(r); let l = limit(r); k.set(format!("bytes {} limit {:?}", hex(&b), l)); f(&b, l, k) })
}

pub fn c01(c: &mut Ctx) -> Result<(), Fail> {
    each(c, "reencode", |b, l, k| {
        if let Ok(v) = read(b, l) {
            k.hit = true;
            let w = V::of(&v);
            ensure!(w.cenc() == b, "accepted, but the canonical encoding of {:?} is {}", w, hex(&w.cenc()));
            let o = write(v, l);
            ensure!(o.as_ref().ok().map(|x| x.as_slice()) == Some(b), "accepted {:?}, which is written as {:?}", w, o.map(|x| hex(&x)));
        }
        if let Ok(v) = reader::read(b) { ensure!(V::of(&v).cenc() == b, "accepted by the default entry point, but not canonical: {:?}", v); }
        Ok(())
    })
}
pub fn c02(c: &mut Ctx) -> Result<(), Fail> {
    c.random("roundtrip", 0.85, |r, _, k| {
        let d = 1 + r.below(4) as u32;
        let mut v = if r.p(1, 10) { let n = r.below(130) as usize; deep(r, n) } else { value(r, d) };
        if r.p(4, 5) { v = dedup(&v) }
        if r.p(1, 4) { v = v.norm() }
        let l = limit(r);
        let n = r.below(4) as usize; let pre = r.bytes(n);
        k.set(format!("value {:?} limit {:?} buffer {}", v, l, hex(&pre)));
        let mut o = pre.clone();
        let w = writer::write_nested(v.real(), &mut o, l);
        ensure!(o.starts_with(&pre), "what was in the buffer changed: {}", hex(&o));
        if w.is_ok() {
            k.hit = true;
            let b = read(&o[pre.len()..], l);
            ensure!(m(&b) == Ok(v.norm()), "encoded as {}, which reads as {:?} instead of {:?}", hex(&o[pre.len()..]), b, v.norm());
        } else { ensure!(v.has_dup() || l.map_or(false, |l| v.depth() > l as i32), "refused with {:?}", w.err()) }
        Ok(())
    })?;
    c.random("entry", 1.0, |r, _, k| {
        let v = dedup(&value(r, 3));
        k.set(format!("value {:?}", v));
        let mut o = vec![];
        if writer::write(v.real(), &mut o).is_ok() { k.hit = true; let b = reader::read(&o); ensure!(m(&b) == Ok(v.norm()), "reads as {:?}", b) }
        Ok(())
    })
}
pub fn c03(c: &mut Ctx) -> Result<(), Fail> {
    // Heads of every major type at every size boundary.
    c.all("heads", (EDGES.len() * 8) as u64, |_, i, k| {
        let n = EDGES[i as usize / 8];
        let v = match i % 8 {
            0 => V::U(n as i128),
            1 => V::N(-1 - n as i128),
            6 => V::Tag(n, Box::new(V::U(0))),
            _ if n > 70000 => return Ok(()),
            2 => V::B(vec![7; n as usize]),
            3 => V::T("x".repeat(n as usize)),
            4 => V::A(vec![V::U(1); n as usize]),
            5 => V::M((0..n).map(|j| (V::U((n - j) as i128), V::U(0))).collect()),
            _ => V::S(20 + (n % 4) as u8),
        };
        k.set(format!("item of type {} with argument {}", i % 8, n));
        k.hit = true;
        let o = write(v.real(), None);
        ensure!(o.as_ref().ok() == Some(&v.cenc()), "wrong encoding, starts with {:?}", o.map(|x| hex(&x[..x.len().min(40)])));
        Ok(())
    })?;
    // Maps whose keys are short strings around prefix and length boundaries, in all orders.
    c.random("canonical", 0.6, |r, _, k| {
        let d = 1 + r.below(4) as u32;
        let mut v = value(r, d);
        if r.p(3, 4) { v = dedup(&v) }
        let l = if r.p(3, 4) { None } else { limit(r) };
        k.set(format!("value {:?} limit {:?}", v, l));
        let o = write(v.real(), l);
        let fits = l.map_or(true, |l| v.depth() <= l as i32);
        match &o {
            Ok(b) => { k.hit = true; ensure!(*b == v.cenc(), "wrote {} instead of {}", hex(b), hex(&v.cenc())); ensure!(!v.has_dup(), "accepted a repeated key") }
            Err(EncoderError::DuplicateMapKey) => ensure!(v.has_dup(), "refused as repeating a key"),
            Err(EncoderError::TooMuchNesting) => ensure!(!fits, "refused for nesting"),
        }
        if fits && v.has_dup() { ensure!(matches!(o, Err(EncoderError::DuplicateMapKey)), "a repeated key gave {:?}", o) }
        Ok(())
    })?;
    c.random("order", 1.0, |r, _, k| {
        let d = 2 + r.below(3) as u32;
        let mut v = value(r, d);
        if r.p(3, 4) { v = dedup(&v) }
        // Keys that are maps themselves.
        if r.p(1, 3) { let (a, b) = (dedup(&value(r, 2)), value(r, 1)); v = V::M(vec![(V::M(vec![(a, V::U(1)), (V::U(1), V::U(2)), (V::t("z"), b)]), V::U(0)), (v, V::U(1))]) }
        let w = shuffle(r, &v);
        k.set(format!("value {:?} and {:?}", v, w));
        let (x, y) = (write(v.real(), None), write(w.real(), None));
        if x.is_ok() { k.hit = true }
        ensure!(x == y, "entry order matters: {:?} and {:?}", x.map(|x| hex(&x)), y.map(|x| hex(&x)));
        if let Ok(b) = &x { ensure!(*b == v.cenc(), "wrote {} instead of {}", hex(b), hex(&v.cenc())) }
        Ok(())
    })
}
pub fn c04(c: &mut Ctx) -> Result<(), Fail> {
    each(c, "total", |b, l, k| {
        let s = read(b, l);
        let n = reader::read_nested_non_strict(b, l);
        let d = reader::read(b);
        for (r, strict) in [(&s, true), (&n, false)] {
            let want = decode(b, wide(l), strict);
            if let Ok(v) = r {
                k.hit = true;
                // Strings are where and as long as their heads say.
                ensure!(want.as_ref().ok() == Some(&V::of(v)) || want.is_err(), "strings or items read wrong: {:?} instead of {:?}", v, want);
                ensure!(want != Err(E::Incomplete), "accepted although incomplete: {:?}", v);
            }
            if want == Err(E::Incomplete) { ensure!(matches!(r, Err(DecoderError::IncompleteCborData)), "incomplete data gave {:?}", r) }
        }
        let _ = d;
        Ok(())
    })?;
    // Lengths and counts far beyond the input.
    c.all("lengths", (EDGES.len() * 6 * 4) as u64, |_, i, k| {
        let n = EDGES[i as usize / 24];
        let major = 1 + (i / 4 % 6) as u8;
        let mut b = vec![];
        head(&mut b, major, n);
        b.extend(vec![0u8; [0, 1, 3, 9][i as usize % 4]]);
        k.set(format!("bytes {}", hex(&b)));
        k.hit = true;
        for strict in [true, false] {
            let r = if strict { reader::read(&b) } else { reader::read_nested_non_strict(&b, None) };
            ensure!(m(&r) == decode(&b, None, strict), "read as {:?}", r);
        }
        Ok(())
    })
}
pub fn c05(c: &mut Ctx) -> Result<(), Fail> {
    each(c, "class", |b, l, k| {
        let want = decode(b, wide(l), true);
        let got = read(b, l);
        if want.is_ok() || !matches!(want, Err(E::Incomplete)) { k.hit = true }
        match (&want, &got) {
            (Ok(_), Ok(_)) => Ok(()),
            (Err(w), Err(g)) => { ensure!(class(g) == *w, "refused with {:?} instead of {:?}", g, w); Ok(()) }
            _ => Err(format!("gave {:?} instead of {:?}", got, want)),
        }?;
        let d = reader::read(b);
        ensure!(m(&d).err() == decode(b, Some(127), true).err(), "the default entry point gave {:?}", d);
        Ok(())
    })?;
    c.all("two-faults", 40000, |r, _, k| {
        // Several faults in one small input: the first one names the error.
        let v = value(r, 2);
        let mut b = vec![];
        sloppy(r, &v, 45, &mut b);
        b.truncate(200);
        k.set(format!("bytes {}", hex(&b)));
        let (w, g) = (decode(&b, None, true), m(&read(&b, None)));
        k.hit = w.is_err();
        ensure!(w == g, "gave {:?} instead of {:?}", g, w);
        Ok(())
    })
}
pub fn c06(c: &mut Ctx) -> Result<(), Fail> {
    // Every limit against chains around it.
    c.all("exact", 256 * 6 * 4, |r, i, k| {
        let l = (i % 256) as u8 as i8;
        let n = (l as i64 + [-1, 0, 1, 2, 3, -2][(i / 256 % 6) as usize]).max(0) as usize;
        let v = dedup(&deep(r, n));
        k.set(format!("value of depth {} under limit {}: {}", v.depth(), l, hex(&v.cenc())));
        k.hit = true;
        nest(&v, Some(l))
    })?;
    c.random("mixed", 0.5, |r, _, k| {
        let v = if r.p(1, 2) { let n = r.below(140) as usize; dedup(&deep(r, n)) } else { dedup(&value(r, 5)) };
        let l = if r.p(1, 8) { None } else { Some(match r.below(3) { 0 => v.depth() as i8, 1 => (v.depth() - 1) as i8, _ => r.next() as i8 }) };
        k.set(format!("value of depth {} under limit {:?}: {}", v.depth(), l, hex(&v.cenc())));
        k.hit = true;
        nest(&v, l)
    })?;
    c.random("default", 0.6, |r, _, k| {
        let n = *r.pick(&[61, 62, 63, 64, 65, 66, 125, 126, 127, 128, 129]);
        let v = dedup(&deep(r, n));
        let b = v.cenc();
        k.set(format!("value of depth {}: {}", v.depth(), hex(&b)));
        k.hit = true;
        let d = v.depth();
        let mut o = vec![];
        ensure!(writer::write(v.real(), &mut o).is_ok() == (d <= 127), "default encoding limit is not 127");
        ensure!(reader::read(&b).is_ok() == (d <= 127), "default decoding limit is not 127");
        ensure!(oasis_cbor::from_slice::<Value>(&b).is_ok() == (d <= 64), "typed decoding limit is not 64");
        ensure!(oasis_cbor::from_slice_non_strict::<Value>(&b).is_ok() == (d <= 64), "lenient typed decoding limit is not 64");
        let s = oasis_cbor::serde::from_slice::<serde::de::IgnoredAny>(&b);
        if d > 64 { ensure!(matches!(s, Err(oasis_cbor::serde::Error::ByteDecoder(DecoderError::TooMuchNesting))), "serde decoding limit is not 64") }
        else { ensure!(!matches!(s, Err(oasis_cbor::serde::Error::ByteDecoder(_))), "serde decoding limit is below 64") }
        Ok(())
    })?;
    c.random("malformed", 1.0, |r, _, k| {
        let b = blob(r);
        let l = limit(r);
        k.set(format!("bytes {} limit {:?}", hex(&b), l));
        for strict in [true, false] {
            let w = decode(&b, wide(l), strict) == Err(E::Nesting);
            let g = if strict { read(&b, l) } else { reader::read_nested_non_strict(&b, l) };
            let g = matches!(g, Err(DecoderError::TooMuchNesting));
            k.hit |= w;
            ensure!(w == g, "nesting {} but {}", if w { "exceeded" } else { "fits" }, if g { "refused for it" } else { "not refused for it" });
        }
        Ok(())
    })
}
fn nest(v: &V, l: Option<i8>) -> R {
    let fits = l.map_or(true, |l| v.depth() <= l as i32);
    let b = v.cenc();
    let w = write(v.real(), l);
    ensure!(if fits { w.is_ok() } else { matches!(w, Err(EncoderError::TooMuchNesting)) }, "encoding gave {:?}", w.map(|_| "success"));
    for strict in [true, false] {
        let r = if strict { read(&b, l) } else { reader::read_nested_non_strict(&b, l) };
        ensure!(if fits { r.is_ok() } else { matches!(r, Err(DecoderError::TooMuchNesting)) }, "decoding (strict: {}) gave {:?}", strict, r.map(|_| "success"));
    }
    Ok(())
}
pub fn c07(c: &mut Ctx) -> Result<(), Fail> {
    each(c, "lenient", |b, l, k| {
        let got = m(&reader::read_nested_non_strict(b, l));
        let strict = m(&read(b, l));
        if strict.is_ok() { ensure!(strict == got, "strict gives {:?}, lenient {:?}", strict, got) }
        let want = decode(b, wide(l), false);
        k.hit = want.is_ok() && strict.is_err();
        ensure!(got == want, "lenient gave {:?} instead of {:?}", got, want);
        Ok(())
    })?;
    // Floating-point numbers and simple values.
    c.all("floats", 3 * 65536, |r, i, k| {
        let mut b = vec![];
        let n = i / 3;
        match i % 3 {
            0 => { b.push(0xf9); b.extend((n as u16).to_be_bytes()) }
            1 => { b.push(0xfa); b.extend(((n << 16) as u32 | if r.p(1, 2) { 0 } else { r.next() as u32 & 0xffff }).to_be_bytes()) }
            _ => { b.push(0xfb); b.extend((if r.p(1, 2) { n } else { n << 48 | r.next() >> 16 }).to_be_bytes()) }
        }
        k.set(format!("bytes {}", hex(&b)));
        k.hit = true;
        ensure!(m(&reader::read_nested_non_strict(&b, None)) == Ok(V::S(23)), "not read as undefined");
        let mut a = vec![0x82];
        a.extend(&b);
        a.push(7);
        ensure!(m(&reader::read_nested_non_strict(&a, None)) == Ok(V::A(vec![V::S(23), V::U(7)])), "not read as undefined inside an array");
        Ok(())
    })
}
/// Values for ordering, including some without an encoding.
fn any(r: &mut Rng, d: u32) -> V {
    if r.p(1, 12) { return V::N(*r.pick(&[0i128, 5, i128::MAX, i128::MIN, 1 << 64, -(1 << 64), -(1 << 64) - 1, -1])) }
    value(r, d)
}
/// A value close to v.
fn near(r: &mut Rng, v: &V) -> V {
    if r.p(1, 6) { return any(r, 1) }
    match v {
        V::A(a) if !a.is_empty() => { let mut a = a.clone(); let i = r.below(a.len() as u64) as usize; match r.below(4) { 0 => { a.remove(i); } 1 => { a.insert(i, leaf(r)) } _ => a[i] = near(r, &a[i]) } V::A(a) }
        V::M(a) if !a.is_empty() => { let mut a = a.clone(); let i = r.below(a.len() as u64) as usize; match r.below(6) { 0 => { a.remove(i); } 1 => { a.insert(i, (leaf(r), leaf(r))) } 2 | 3 => a[i].0 = near(r, &a[i].0), _ => a[i].1 = near(r, &a[i].1) } V::M(a) }
        V::Tag(t, x) => if r.p(1, 3) { V::Tag(num(r), x.clone()) } else { V::Tag(*t, Box::new(near(r, x))) },
        V::U(n) => if r.p(1, 4) { V::N(-1 - *n) } else { V::U((*n ^ (1 << r.below(64))).max(0)) },
        V::N(n) => if r.p(1, 4) && *n < 0 && *n >= -two64() { V::U(-1 - *n) } else { V::N(n.wrapping_add(r.below(3) as i128 - 1)) },
        V::B(b) => { let mut b = b.clone(); match r.below(3) { 0 => b.push(r.next() as u8), 1 if !b.is_empty() => { let i = r.below(b.len() as u64) as usize; b[i] = b[i].wrapping_add(1) } _ => { b.pop(); } } V::B(b) }
        V::T(t) => { let mut t = t.clone(); if r.p(1, 2) { t.push(*r.pick(&['a', 'b', 'ü', '水'])) } else if r.p(1, 2) { t.pop(); } else { t = t.chars().rev().collect() } V::T(t) }
        V::S(_) => V::S(20 + r.below(4) as u8),
        _ => any(r, 1),
    }
}
pub fn c08(c: &mut Ctx) -> Result<(), Fail> {
    let laws = |a: &V, b: &V| -> R {
        let (x, y) = (a.real(), b.real());
        let o = x.cmp(&y);
        ensure!(o == a.ord(b), "compares {:?} instead of {:?}", o, a.ord(b));
        ensure!(y.cmp(&x) == o.reverse(), "not antisymmetric");
        ensure!(x.partial_cmp(&y) == Some(o), "partial comparison disagrees");
        ensure!((x == y) == (o == Ordering::Equal) && (x != y) == (o != Ordering::Equal), "equality disagrees");
        ensure!((x == y) == (a == b), "equality is not structural");
        ensure!(x.cmp(&x) == Ordering::Equal && x == x, "not reflexive");
        ensure!((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "operators disagree");
        let (n, p) = (a.norm(), b.norm());
        if a.wf() && b.wf() && *a == n && *b == p && !a.has_dup() && !b.has_dup() { ensure!(o == a.cenc().cmp(&b.cenc()), "not the order of the encodings {} and {}", hex(&a.cenc()), hex(&b.cenc())) }
        if let (V::S(_), V::S(_)) = (a, b) {
            if let (Value::Simple(s), Value::Simple(t)) = (&x, &y) {
                ensure!(s.cmp(t) == o && s.partial_cmp(t) == Some(o) && (s == t) == (o == Ordering::Equal), "simple values disagree");
            }
        }
        Ok(())
    };
    let mut pool: Vec<V> = vec![];
    for n in EDGES { pool.push(V::U(*n as i128)); pool.push(V::N(-1 - *n as i128)) }
    for n in [20, 21, 22, 23] { pool.push(V::S(n)) }
    for t in ["", "a", "b", "aa", "ab", "ü", "水"] { pool.push(V::t(t)); pool.push(V::B(t.as_bytes().to_vec())) }
    let p: Vec<V> = pool.clone();
    for x in p.iter().step_by(7) { pool.push(V::A(vec![x.clone()])); pool.push(V::A(vec![x.clone(), V::U(0)])); pool.push(V::M(vec![(x.clone(), V::U(0))])); pool.push(V::M(vec![(V::U(0), x.clone())])); pool.push(V::Tag(1, Box::new(x.clone()))); pool.push(V::Tag(2, Box::new(x.clone()))) }
    pool.push(V::A(vec![]));
    pool.push(V::M(vec![]));
    let n = pool.len() as u64;
    c.all("pairs", n * n, |_, i, k| { let (a, b) = (&pool[(i / n) as usize], &pool[(i % n) as usize]); k.set(format!("{:?} and {:?}", a, b)); k.hit = a != b; laws(a, b) })?;
    c.random("laws", 1.0, |r, _, k| {
        let d = 1 + r.below(4) as u32;
        let mut a = any(r, d);
        let mut b = near(r, &a);
        if r.p(1, 2) { a = dedup(&a).norm_any(); b = dedup_any(&b).norm_any() }
        let z = near(r, &b);
        k.set(format!("{:?} and {:?} and {:?}", a, b, z));
        k.hit = a != b;
        laws(&a, &b)?;
        let (x, y, w) = (a.real(), b.real(), z.real());
        if x.cmp(&y) != Ordering::Greater && y.cmp(&w) != Ordering::Greater {
            ensure!(x.cmp(&w) != Ordering::Greater, "not transitive");
            if x.cmp(&y) == Ordering::Less || y.cmp(&w) == Ordering::Less { ensure!(x.cmp(&w) == Ordering::Less, "not transitive") }
        }
        Ok(())
    })
}
fn dedup_any(v: &V) -> V { dedup(v) }
impl V {
    /// Like norm, for values that may have no encoding.
    fn norm_any(&self) -> V { if self.wf() { self.norm() } else { self.clone() } }
}
