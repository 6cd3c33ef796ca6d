//! Reference codec, written from RFC 8949 and the property statements, not from the code under test.
use oasis_cbor_value::{reader::DecoderError, values::{SimpleValue, Value}};
use std::cmp::Ordering;

/// A CBOR item. Integers are mathematical, the sign class is kept.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    U(i128),
    N(i128),
    B(Vec<u8>),
    T(String),
    A(Vec<V>),
    M(Vec<(V, V)>),
    Tag(u64, Box<V>),
    S(u8),
}

pub fn two64() -> i128 { 1i128 << 64 }

impl V {
    pub fn int(i: i128) -> V { if i >= 0 { V::U(i) } else { V::N(i) } }
    pub fn t(s: &str) -> V { V::T(s.to_string()) }
    pub fn null() -> V { V::S(22) }
    pub fn real(&self) -> Value {
        match self {
            V::U(n) => Value::Unsigned(*n as u64),
            V::N(n) => Value::Negative(*n),
            V::B(b) => Value::ByteString(b.clone()),
            V::T(t) => Value::TextString(t.clone()),
            V::A(a) => Value::Array(a.iter().map(|x| x.real()).collect()),
            V::M(m) => Value::Map(m.iter().map(|(k, v)| (k.real(), v.real())).collect()),
            V::Tag(t, x) => Value::Tag(*t, Box::new(x.real())),
            V::S(20) => Value::Simple(SimpleValue::FalseValue),
            V::S(21) => Value::Simple(SimpleValue::TrueValue),
            V::S(22) => Value::Simple(SimpleValue::NullValue),
            V::S(23) => Value::Simple(SimpleValue::Undefined),
            V::S(_) => unreachable!(),
        }
    }
    pub fn of(v: &Value) -> V {
        match v {
            Value::Unsigned(n) => V::U(*n as i128),
            Value::Negative(n) => V::N(*n),
            Value::ByteString(b) => V::B(b.clone()),
            Value::TextString(t) => V::T(t.clone()),
            Value::Array(a) => V::A(a.iter().map(V::of).collect()),
            Value::Map(m) => V::M(m.iter().map(|(k, v)| (V::of(k), V::of(v))).collect()),
            Value::Tag(t, x) => V::Tag(*t, Box::new(V::of(x))),
            Value::Simple(s) => V::S(match s {
                SimpleValue::FalseValue => 20,
                SimpleValue::TrueValue => 21,
                SimpleValue::NullValue => 22,
                SimpleValue::Undefined => 23,
            }),
        }
    }
    pub fn depth(&self) -> i32 {
        match self {
            V::A(a) => a.iter().map(|x| x.depth() + 1).max().unwrap_or(0),
            V::M(m) => m.iter().map(|(k, v)| k.depth().max(v.depth()) + 1).max().unwrap_or(0),
            V::Tag(_, x) => x.depth() + 1,
            _ => 0,
        }
    }
    /// Canonical encoding (of a value without duplicate keys).
    pub fn cenc(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            V::U(n) => head(&mut o, 0, *n as u64),
            V::N(n) => head(&mut o, 1, (-1 - *n) as u64),
            V::B(b) => { head(&mut o, 2, b.len() as u64); o.extend(b) }
            V::T(t) => { head(&mut o, 3, t.len() as u64); o.extend(t.as_bytes()) }
            V::A(a) => { head(&mut o, 4, a.len() as u64); for x in a { o.extend(x.cenc()) } }
            V::M(m) => {
                head(&mut o, 5, m.len() as u64);
                let mut e: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.cenc(), v.cenc())).collect();
                e.sort();
                for (k, v) in e { o.extend(k); o.extend(v) }
            }
            V::Tag(t, x) => { head(&mut o, 6, *t); o.extend(x.cenc()) }
            V::S(n) => head(&mut o, 7, *n as u64),
        }
        o
    }
    /// Some map holds two keys that encode the same.
    pub fn has_dup(&self) -> bool {
        match self {
            V::A(a) => a.iter().any(|x| x.has_dup()),
            V::M(m) => {
                let mut k: Vec<Vec<u8>> = m.iter().map(|e| e.0.cenc()).collect();
                k.sort();
                k.windows(2).any(|w| w[0] == w[1]) || m.iter().any(|(k, v)| k.has_dup() || v.has_dup())
            }
            V::Tag(_, x) => x.has_dup(),
            _ => false,
        }
    }
    /// The same item with every map in canonical order.
    pub fn norm(&self) -> V {
        match self {
            V::A(a) => V::A(a.iter().map(|x| x.norm()).collect()),
            V::M(m) => {
                let mut e: Vec<(V, V)> = m.iter().map(|(k, v)| (k.norm(), v.norm())).collect();
                e.sort_by(|a, b| a.0.cenc().cmp(&b.0.cenc()));
                V::M(e)
            }
            V::Tag(t, x) => V::Tag(*t, Box::new(x.norm())),
            _ => self.clone(),
        }
    }
    pub fn wf(&self) -> bool {
        match self {
            V::U(n) => 0 <= *n && *n < two64(),
            V::N(n) => -two64() <= *n && *n < 0,
            V::A(a) => a.iter().all(|x| x.wf()),
            V::M(m) => m.iter().all(|(k, v)| k.wf() && v.wf()),
            V::Tag(_, x) => x.wf(),
            _ => true,
        }
    }
    fn major(&self) -> u8 {
        match self { V::U(_) => 0, V::N(_) => 1, V::B(_) => 2, V::T(_) => 3, V::A(_) => 4, V::M(_) => 5, V::Tag(..) => 6, V::S(_) => 7 }
    }
    /// Structural order that coincides with byte order of canonical encodings on canonical values.
    pub fn ord(&self, o: &V) -> Ordering {
        match (self, o) {
            (V::U(a), V::U(b)) => a.cmp(b),
            (V::N(a), V::N(b)) => b.cmp(a),
            (V::B(a), V::B(b)) => a.len().cmp(&b.len()).then(a.cmp(b)),
            (V::T(a), V::T(b)) => a.len().cmp(&b.len()).then(a.as_bytes().cmp(b.as_bytes())),
            (V::A(a), V::A(b)) => a.len().cmp(&b.len()).then_with(|| {
                for (x, y) in a.iter().zip(b) { let c = x.ord(y); if c != Ordering::Equal { return c } }
                Ordering::Equal
            }),
            (V::M(a), V::M(b)) => a.len().cmp(&b.len()).then_with(|| {
                for ((k, v), (l, w)) in a.iter().zip(b) { let c = k.ord(l).then_with(|| v.ord(w)); if c != Ordering::Equal { return c } }
                Ordering::Equal
            }),
            (V::Tag(t, x), V::Tag(u, y)) => t.cmp(u).then_with(|| x.ord(y)),
            (V::S(a), V::S(b)) => a.cmp(b),
            _ => self.major().cmp(&o.major()),
        }
    }
}

pub fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let w = if n < 24 { 0 } else if n < 1 << 8 { 1 } else if n < 1 << 16 { 2 } else if n < 1 << 32 { 4 } else { 8 };
    head_w(o, major, n, w)
}
/// A head with its argument in w bytes (0: in the initial byte).
pub fn head_w(o: &mut Vec<u8>, major: u8, n: u64, w: usize) {
    let ai = match w { 0 => n as u8, 1 => 24, 2 => 25, 4 => 26, 8 => 27, _ => unreachable!() };
    o.push(major * 32 + ai);
    for i in (0..w).rev() { o.push((n >> (8 * i)) as u8) }
}

/// Error classes, in our own terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Reserved, Incomplete, Nesting, Utf8, NonMinimal, Order, Simple, Float, Trailing, Other }
pub fn class(e: &DecoderError) -> E {
    match e {
        DecoderError::UnknownAdditionalInfo => E::Reserved,
        DecoderError::IncompleteCborData => E::Incomplete,
        DecoderError::TooMuchNesting => E::Nesting,
        DecoderError::InvalidUtf8 => E::Utf8,
        DecoderError::NonMinimalCborEncoding => E::NonMinimal,
        DecoderError::OutOfOrderKey => E::Order,
        DecoderError::UnsupportedSimpleValue => E::Simple,
        DecoderError::UnsupportedFloatingPointValue => E::Float,
        DecoderError::ExtraneousData => E::Trailing,
        #[allow(unreachable_patterns)]
        _ => E::Other,
    }
}

pub fn decode(b: &[u8], limit: Option<i32>, strict: bool) -> Result<V, E> {
    let mut p = 0;
    let v = item(b, &mut p, limit, strict)?;
    if strict && p != b.len() { return Err(E::Trailing) }
    Ok(v)
}
fn item(b: &[u8], p: &mut usize, limit: Option<i32>, strict: bool) -> Result<V, E> {
    if limit.map_or(false, |l| l < 0) { return Err(E::Nesting) }
    let f = *b.get(*p).ok_or(E::Incomplete)?;
    *p += 1;
    let (major, ai) = (f / 32, f % 32);
    let n: u64 = if ai < 24 { ai as u64 } else if ai < 28 {
        let w = 1usize << (ai - 24);
        if b.len() - *p < w { return Err(E::Incomplete) }
        let mut n = 0u64;
        for i in 0..w { n = n * 256 + b[*p + i] as u64 }
        *p += w;
        // The head of a floating-point number counts as minimal when its bits, read as a number, need it.
        if strict && n < (if w == 1 { 24 } else { 1u64 << (4 * w) }) { return Err(E::NonMinimal) }
        n
    } else { return Err(E::Reserved) };
    let down = limit.map(|l| l - 1);
    Ok(match major {
        0 => V::U(n as i128),
        1 => V::N(-1 - n as i128),
        2 | 3 => {
            if n > (b.len() - *p) as u64 { return Err(E::Incomplete) }
            let s = b[*p..*p + n as usize].to_vec();
            *p += n as usize;
            if major == 2 { V::B(s) } else { V::T(String::from_utf8(s).map_err(|_| E::Utf8)?) }
        }
        4 => {
            let mut a = vec![];
            for _ in 0..n { a.push(item(b, p, down, strict)?) }
            V::A(a)
        }
        5 => {
            let mut m: Vec<(V, V)> = vec![];
            let mut last: Option<Vec<u8>> = None;
            for _ in 0..n {
                let s = *p;
                let k = item(b, p, down, strict)?;
                if strict {
                    let e = b[s..*p].to_vec();
                    if last.as_ref().map_or(false, |l| *l >= e) { return Err(E::Order) }
                    last = Some(e);
                }
                let v = item(b, p, down, strict)?;
                m.push((k, v));
            }
            V::M(m)
        }
        6 => V::Tag(n, Box::new(item(b, p, down, strict)?)),
        _ => {
            if ai > 24 { if strict { return Err(E::Float) } V::S(23) }
            else if (20..=23).contains(&n) { V::S(n as u8) }
            else if strict { return Err(E::Simple) }
            else { V::S(23) }
        }
    })
}
