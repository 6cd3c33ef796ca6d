//! Seeded generation of values and byte strings.
use crate::model::*;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut r = Rng(0x9E37_79B9_7F4A_7C15);
        for p in parts { r.0 ^= p.wrapping_mul(0xD6E8_FEB8_6659_FD93); r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

pub const EDGES: &[u64] = &[
    0, 1, 2, 10, 22, 23, 24, 25, 26, 31, 32, 63, 64, 99, 126, 127, 128, 129, 200, 254, 255, 256, 257, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x1_0000, 0x1_0001,
    0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10_ffff, 0x11_0000,
    0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001,
    0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
];
pub fn num(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=4 => *r.pick(EDGES),
        5 | 6 => r.below(40),
        7 => r.next() >> r.below(64),
        8 => r.pick(EDGES).wrapping_add(r.below(5)).wrapping_sub(2),
        _ => r.next(),
    }
}
const TEXTS: &[&str] = &["", "a", "b", "ab", "aa", "ba", "c", "foo", "bar", "key", "value", "ü", "水", "\u{10151}", "\0", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "\"\\"];
pub fn len(r: &mut Rng) -> usize {
    match r.below(100) { 0..=79 => r.below(5) as usize, 80..=91 => 22 + r.below(5) as usize, 92..=97 => 254 + r.below(4) as usize, 98 => 65534 + r.below(4) as usize, _ => r.below(1000) as usize }
}
pub fn text(r: &mut Rng) -> String {
    if r.p(4, 5) { r.pick(TEXTS).to_string() } else {
        let n = len(r).min(300);
        let mut s = String::new();
        while s.len() < n { if r.p(9, 10) { s.push((b'a' + r.below(26) as u8) as char) } else { s.push_str(*r.pick(TEXTS)) } }
        s
    }
}
pub fn bytes(r: &mut Rng) -> Vec<u8> { let n = len(r); if r.p(1, 2) { vec![r.below(3) as u8; n] } else { r.bytes(n) } }
pub fn leaf(r: &mut Rng) -> V {
    match r.below(10) {
        0..=2 => V::U(num(r) as i128),
        3 | 4 => V::N(-1 - num(r) as i128),
        5 => V::B(bytes(r)),
        6 | 7 => V::T(text(r)),
        _ => V::S(20 + r.below(4) as u8),
    }
}
pub fn key(r: &mut Rng, d: u32) -> V {
    match r.below(12) {
        0..=3 => V::U(r.below(30) as i128),
        4 => V::N(-1 - r.below(30) as i128),
        5..=7 => V::t(*r.pick(TEXTS)),
        8 => V::B(bytes(r)),
        _ => value(r, d),
    }
}
/// Any item that has an encoding. Maps may hold equal keys unless `uniq`.
pub fn value(r: &mut Rng, d: u32) -> V {
    if d == 0 || r.p(1, 4) { return leaf(r) }
    match r.below(10) {
        0..=2 => { let n = size(r); V::A((0..n).map(|_| { let e = shrink(r, d, n); value(r, e) }).collect()) }
        3..=6 => {
            let n = size(r);
            // Keys that differ in a detail only, in some maps.
            let alike = n < 8 && r.p(1, 4);
            let mut m: Vec<(V, V)> = vec![];
            for i in 0..n {
                let e = shrink(r, d, n);
                let k = if alike && i == 0 { value(r, e) } else if alike && r.p(7, 8) { let k = m[r.below(i as u64) as usize].0.clone(); sibling(r, &k) } else { key(r, e) };
                m.push((k, value(r, e)))
            }
            V::M(m)
        }
        7 => V::Tag(num(r), Box::new(value(r, d - 1))),
        _ => leaf(r),
    }
}
/// Like v, but for one part.
pub fn sibling(r: &mut Rng, v: &V) -> V {
    match v {
        V::A(a) if !a.is_empty() && r.p(5, 6) => { let mut a = a.clone(); let i = r.below(a.len() as u64) as usize; a[i] = sibling(r, &a[i]); V::A(a) }
        V::M(m) if !m.is_empty() && r.p(5, 6) => { let mut m = m.clone(); let i = r.below(m.len() as u64) as usize; if r.p(1, 2) { m[i].0 = sibling(r, &m[i].0) } else { m[i].1 = sibling(r, &m[i].1) } V::M(m) }
        V::Tag(t, x) => if r.p(5, 6) { V::Tag(*t, Box::new(sibling(r, x))) } else { V::Tag(num(r), x.clone()) },
        V::B(b) if !b.is_empty() => { let mut b = b.clone(); if r.p(1, 4) { b.pop(); } else { let i = r.below(b.len() as u64) as usize; b[i] = b[i].wrapping_add(1) } V::B(b) }
        V::T(t) => match r.below(3) { 0 => V::T(format!("{}a", t)), 1 if t.is_ascii() && !t.is_empty() => V::T(format!("{}b", &t[1..])), _ => V::T(format!("b{}", t)) },
        V::U(n) if r.p(3, 4) => V::U(if *n > 0 && r.p(1, 2) { n - 1 } else { (n + 1).min(u64::MAX as i128) }),
        V::N(n) if r.p(3, 4) => V::N(if *n < -1 && r.p(1, 2) { n + 1 } else { (n - 1).max(-1 - u64::MAX as i128) }),
        _ => leaf(r),
    }
}
fn size(r: &mut Rng) -> usize { match r.below(60) { 0 => 22 + r.below(5) as usize, 1 => 254 + r.below(4) as usize, _ => r.below(5) as usize } }
fn shrink(_r: &mut Rng, d: u32, n: usize) -> u32 { if n > 8 { 0 } else { d - 1 } }
/// Without equal keys in any map: later entries with a key already there are dropped.
pub fn dedup(v: &V) -> V {
    match v {
        V::A(a) => V::A(a.iter().map(dedup).collect()),
        V::M(m) => {
            let mut o: Vec<(V, V)> = vec![];
            let mut seen: Vec<Vec<u8>> = vec![];
            for (k, x) in m { let k = dedup(k); let e = k.cenc(); if !seen.contains(&e) { seen.push(e); o.push((k, dedup(x))) } }
            V::M(o)
        }
        V::Tag(t, x) => V::Tag(*t, Box::new(dedup(x))),
        _ => v.clone(),
    }
}
/// The same value with the entries of its maps in another order.
pub fn shuffle(r: &mut Rng, v: &V) -> V {
    match v {
        V::A(a) => V::A(a.iter().map(|x| shuffle(r, x)).collect()),
        V::M(m) => {
            let mut o: Vec<(V, V)> = m.iter().map(|(k, x)| (shuffle(r, k), shuffle(r, x))).collect();
            for i in (1..o.len()).rev() { let j = r.below(i as u64 + 1) as usize; o.swap(i, j) }
            V::M(o)
        }
        V::Tag(t, x) => V::Tag(*t, Box::new(shuffle(r, x))),
        _ => v.clone(),
    }
}
/// Nested chains of about n levels.
pub fn deep(r: &mut Rng, n: usize) -> V {
    let mut v = if r.p(1, 3) { value(r, 1) } else if r.p(1, 2) { V::A(vec![]) } else { leaf(r) };
    let kind = r.below(6);
    for _ in 0..n {
        v = match if kind < 4 { kind } else { r.below(4) } {
            0 => V::A(if r.p(1, 8) { vec![leaf(r), v] } else { vec![v] }),
            1 => V::M(vec![(V::U(r.below(3) as i128), v)]),
            2 => V::M(vec![(v, V::U(0))]),
            _ => V::Tag(r.below(3), Box::new(v)),
        };
    }
    v
}
/// The encoding of v with faults: wide heads, floats, odd simple values, wrong counts, as `noise` says.
pub fn sloppy(r: &mut Rng, v: &V, noise: u64, o: &mut Vec<u8>) {
    let h = |r: &mut Rng, o: &mut Vec<u8>, major: u8, n: u64| {
        if r.p(noise, 100) {
            match r.below(8) {
                0 => { o.push(major * 32 + 28 + r.below(4) as u8); return }
                1 => { let d = *r.pick(&[1u64, 2, 0xffff_ffff, u64::MAX]); head(o, major, n.wrapping_add(d)); return }
                _ => {
                    let ws: Vec<usize> = [1usize, 2, 4, 8].iter().copied().filter(|w| *w == 8 || n >> (8 * w) == 0).collect();
                    let w = *r.pick(&ws);
                    head_w(o, major, n, w);
                    return;
                }
            }
        }
        head(o, major, n)
    };
    match v {
        V::U(n) => h(r, o, 0, *n as u64),
        V::N(n) => h(r, o, 1, (-1 - *n) as u64),
        V::B(b) => { h(r, o, 2, b.len() as u64); o.extend(b) }
        V::T(t) => { h(r, o, 3, t.len() as u64); let s = o.len(); o.extend(t.as_bytes()); if r.p(noise, 100) && o.len() > s { let i = s + r.below((o.len() - s) as u64) as usize; o[i] = r.next() as u8 } }
        V::A(a) => { h(r, o, 4, a.len() as u64); for x in a { sloppy(r, x, noise, o) } }
        V::M(m) => {
            h(r, o, 5, m.len() as u64);
            let mut e: Vec<&(V, V)> = m.iter().collect();
            if !r.p(noise, 50) { e.sort_by(|a, b| a.0.cenc().cmp(&b.0.cenc())) }
            if e.len() > 1 && r.p(noise, 100) { let i = 1 + r.below(e.len() as u64 - 1) as usize; e.swap(i - 1, i) }
            for (k, x) in e { sloppy(r, k, noise, o); sloppy(r, x, noise, o) }
        }
        V::Tag(t, x) => { h(r, o, 6, *t); sloppy(r, x, noise, o) }
        V::S(n) => {
            if r.p(noise, 50) {
                match r.below(6) {
                    0 => { o.push(0xf9); let b = r.next() as u16; let b = if r.p(1, 2) { b } else { *r.pick(&[0u16, 20, 21, 22, 23, 24, 0x3c00, 0x7c00, 0x7e00, 0x8000, 255, 256]) }; o.extend(b.to_be_bytes()) }
                    1 => { o.push(0xfa); let b = if r.p(1, 2) { r.next() as u32 } else { num(r) as u32 }; o.extend(b.to_be_bytes()) }
                    2 => { o.push(0xfb); let b = if r.p(1, 2) { r.next() } else { num(r) }; o.extend(b.to_be_bytes()) }
                    3 => { o.push(0xe0 + r.below(32) as u8) }
                    4 => { o.push(0xf8); o.push(r.next() as u8) }
                    _ => { o.push(0xf8); o.push(r.below(40) as u8) }
                }
            } else { h(r, o, 7, *n as u64) }
        }
    }
}
/// Byte strings near valid encodings, from faultless to arbitrary.
pub fn blob(r: &mut Rng) -> Vec<u8> {
    let v = if r.p(1, 12) { let n = *r.pick(&[1, 2, 3, 4, 5, 62, 63, 64, 65, 66, 125, 126, 127, 128, 129, 130, 200]); deep(r, n) } else { let d = 1 + r.below(4) as u32; let v = value(r, d); if r.p(1, 2) { dedup(&v) } else { v } };
    let mut o = vec![];
    match r.below(10) {
        0 => { let n = r.below(12) as usize; return r.bytes(n) }
        1 | 2 => o = dedup(&v).cenc(),
        3..=6 => sloppy(r, &v, 8, &mut o),
        _ => sloppy(r, &v, 25, &mut o),
    }
    match r.below(12) {
        0 => { let n = r.below(o.len() as u64 + 1) as usize; o.truncate(n) }
        1 => { let n = 1 + r.below(3) as usize; let x = r.bytes(n); o.extend(x) }
        2 if !o.is_empty() => { let i = r.below(o.len() as u64) as usize; o[i] = r.next() as u8 }
        3 if !o.is_empty() => { let i = r.below(o.len() as u64) as usize; o[i] ^= 1 << r.below(8) }
        4 if !o.is_empty() => { let i = r.below(o.len() as u64) as usize; o.remove(i); }
        5 => { let i = r.below(o.len() as u64 + 1) as usize; o.insert(i, r.next() as u8) }
        _ => {}
    }
    o
}
