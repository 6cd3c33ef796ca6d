//! Constructor macros, conversions, and map destructuring.
use crate::{ctx::*, ensure, gen::*, model::*, typed::table};
use oasis_cbor_value::values::{IntoCborValue, IntoCborValueOption, SimpleValue, Value};
use std::cmp::Ordering;
use vx_catalogue::macros as m;

fn get(t: &[(V, V)], k: &V) -> Option<V> { t.iter().find(|e| e.0 == *k).map(|e| e.1.clone()) }
fn of(v: Option<Value>) -> Option<V> { v.map(|v| V::of(&v)) }
fn real(t: &[(V, V)]) -> Vec<(Value, Value)> { t.iter().map(|(k, v)| (k.real(), v.real())).collect() }

pub fn c18(c: &mut Ctx) -> Result<(), Fail> {
    c.random("destructure", 1.0, |r, i, k| {
        let (mut t, mut q) = table(r);
        match i % 3 {
            0 => {
                let a = r.below(16);
                k.set(format!("key {} from {:?}", a, t));
                let want = get(&t, &V::U(a as i128));
                k.hit = want.is_some();
                let got = of(m::take_one(real(&t), a));
                ensure!(got == want, "gives {:?} instead of {:?}", got, want);
            }
            1 => {
                while q.len() < 3 { q.push(V::Tag(q.len() as u64, Box::new(V::T("x".repeat(r.below(3) as usize))))) ; q.sort_by(|a, b| a.ord(b)); q.dedup() }
                let s = r.below(q.len() as u64 - 2) as usize;
                let q = &q[s..s + 3];
                k.set(format!("keys {:?} from {:?}", q, t));
                let want = (get(&t, &q[0]), get(&t, &q[1]), get(&t, &q[2]));
                k.hit = want.0.is_some() || want.1.is_some() || want.2.is_some();
                let (x, y, z) = m::take_three(real(&t), q[0].real(), q[1].real(), q[2].real());
                let got = (of(x), of(y), of(z));
                ensure!(got == want, "gives {:?} instead of {:?}", got, want);
            }
            _ => {
                let q = [V::U(1), V::U(300), V::N(-5), V::t("key")];
                for x in &q { if r.p(1, 2) { t.push((x.clone(), leaf(r))) } }
                for _ in 0..r.below(4) { let (x, y) = (key(r, 0), leaf(r)); t.push((x, y)) }
                t.sort_by(|a, b| a.0.ord(&b.0));
                t.dedup_by(|a, b| a.0.ord(&b.0) == Ordering::Equal);
                k.set(format!("from {:?}", t));
                k.hit = true;
                let want = (get(&t, &q[0]), get(&t, &q[1]), get(&t, &q[2]), get(&t, &q[3]));
                let (x, y, z, w) = m::take_mixed(real(&t));
                let got = (of(x), of(y), of(z), of(w));
                ensure!(got == want, "gives {:?} instead of {:?}", got, want);
            }
        }
        Ok(())
    })
}
/// Any entries in any order, with keys repeated.
fn entries(r: &mut Rng) -> Vec<(V, V)> {
    let mut e: Vec<(V, V)> = (0..r.below(5)).map(|_| (key(r, 1), value(r, 1))).collect();
    if r.p(1, 4) && !e.is_empty() { let k = r.pick(&e).0.clone(); e.push((k, leaf(r))) }
    e
}
pub fn c19(c: &mut Ctx) -> Result<(), Fail> {
    let n = 4096 + EDGES.len() as u64 + 64;
    c.all("simple", n, |_, i, k| {
        let n = if i < 4096 { i } else if i < 4096 + 64 { 1 << (i - 4096) } else { EDGES[(i - 4160) as usize] };
        k.set(format!("simple value {}", n));
        k.hit = true;
        let got = SimpleValue::from_integer(n);
        match got {
            Some(s) => { ensure!((20..24).contains(&n), "is accepted as {:?}", s); let v = V::of(&Value::Simple(s.clone())); ensure!(v == V::S(n as u8) && s as u64 == n, "gives {:?}", v) }
            None => ensure!(!(20..24).contains(&n), "is not accepted"),
        }
        Ok(())
    })?;
    c.random("conversions", 0.4, |r, _, k| {
        macro_rules! conv { ($x:expr, $v:expr) => {{
            let want: V = $v;
            let got = V::of(&Value::from($x));
            ensure!(got == want, "from {:?}: {:?}", want, got);
            let got = V::of(&($x).into_cbor_value());
            ensure!(got == want, "into_cbor_value, from {:?}: {:?}", want, got);
            let got = of(($x).into_cbor_value_option());
            ensure!(got.as_ref() == Some(&want), "into_cbor_value_option, from {:?}: {:?}", want, got);
            let got = of(Some($x).into_cbor_value_option());
            ensure!(got.as_ref() == Some(&want), "into_cbor_value_option of Some, from {:?}: {:?}", want, got);
        }} }
        let (n, b, t, v) = (num(r), bytes(r), text(r), value(r, 2));
        let w: Vec<V> = (0..r.below(4)).map(|_| value(r, 1)).collect();
        let e = entries(r);
        k.set(format!("{} {} {:?} {:?} {:?} {:?}", n, hex(&b), t, v, w, e));
        k.hit = true;
        for s in [n, n.wrapping_neg(), !n, u64::MAX / 2 + n % 3] {
            conv!(s, V::U(s as i128));
            conv!(s as i64, V::int(s as i64 as i128));
            conv!(s as i32, V::int(s as i32 as i128));
            ensure!(V::of(&Value::integer(s as i64)) == V::int(s as i64 as i128), "integer of {}", s as i64);
        }
        conv!(true, V::S(21));
        conv!(false, V::S(20));
        conv!(b.clone(), V::B(b.clone()));
        conv!(&b[..], V::B(b.clone()));
        conv!(t.clone(), V::T(t.clone()));
        conv!(t.as_str(), V::T(t.clone()));
        conv!(v.real(), v.clone());
        conv!(w.iter().map(|x| x.real()).collect::<Vec<_>>(), V::A(w.clone()));
        conv!(real(&e), V::M(e.clone()));
        ensure!(Option::<u64>::None.into_cbor_value_option().is_none(), "None gives an entry");
        ensure!(V::of(&Value::bool_value(true)) == V::S(21) && V::of(&Value::bool_value(false)) == V::S(20), "bool_value");
        Ok(())
    })?;
    c.random("macros", 1.0, |r, _, k| {
        let (n, b, t, v) = (num(r), bytes(r), text(r), value(r, 1));
        let w: Vec<V> = (0..r.below(4)).map(|_| value(r, 1)).collect();
        let e = entries(r);
        let i = if r.p(1, 2) { num(r) as i64 } else { (num(r) as i64).wrapping_neg() };
        let (j, q, p) = (i as i32, num(r) as i32, r.p(1, 2));
        let (x, y) = (value(r, 1), value(r, 1));
        k.set(format!("{} {} {:?} {:?} {:?} {:?} {} {} {:?} {:?}", n, hex(&b), t, v, w, e, i, p, x, y));
        k.hit = true;
        let u = V::U(n as i128);
        let int = |i: i64| V::int(i as i128);
        let s = |p: bool| V::S(if p { 21 } else { 20 });
        let (bb, tt, aa, mm) = (V::B(b.clone()), V::T(t.clone()), V::A(w.clone()), V::M(e.clone()));
        let ws = || w.iter().map(|x| x.real()).collect::<Vec<_>>();
        macro_rules! is { ($x:expr, $v:expr) => {{ let (got, want): (V, V) = (V::of(&$x), $v); ensure!(got == want, "{} gives {:?} instead of {:?}", stringify!($x), got, want) }} }
        is!(m::map_none(), V::M(vec![]));
        is!(m::map_one(x.real(), y.real()), V::M(vec![(x.clone(), y.clone())]));
        is!(m::map_mixed(n, &t, i, b.clone(), p, v.real()), V::M(vec![(u.clone(), tt.clone()), (int(i), bb.clone()), (s(p), v.clone())]));
        is!(m::map_more(&b, t.clone(), ws(), real(&e), j, q), V::M(vec![(bb.clone(), tt.clone()), (aa.clone(), mm.clone()), (int(j as i64), int(q as i64))]));
        is!(m::map_literal(), V::M(vec![(V::U(1), V::S(20)), (V::t("02"), V::N(-3))]));
        is!(m::options_none(), V::M(vec![]));
        for mask in 0..8u32 {
            let on = |j: u32| mask >> j & 1 == 1;
            let mut want = vec![];
            if on(0) { want.push((u.clone(), s(p))) }
            if on(1) { want.push((tt.clone(), u.clone())) }
            if on(2) { want.push((int(i), v.clone())) }
            is!(m::options_three(n, if on(0) { Some(p) } else { None }, &t, if on(1) { Some(n) } else { None }, i, if on(2) { Some(v.real()) } else { None }), V::M(want));
            let mut want = vec![(u.clone(), v.clone())];
            if on(1) { want.push((tt.clone(), tt.clone())) }
            want.push((int(i), s(p)));
            is!(m::options_mixed(n, v.real(), &t, if on(1) { Some(t.clone()) } else { None }, i, p), V::M(want));
        }
        is!(m::collection(real(&e)), mm.clone());
        is!(m::array_none(), V::A(vec![]));
        is!(m::array_one(v.real()), V::A(vec![v.clone()]));
        is!(m::array_mixed(n, i, j, &t, t.clone(), b.clone()), V::A(vec![u.clone(), int(i), int(j as i64), tt.clone(), tt.clone(), bb.clone()]));
        is!(m::array_more(&b, ws(), real(&e), p, v.real()), V::A(vec![bb.clone(), aa.clone(), mm.clone(), s(p), v.clone()]));
        is!(m::array_ints(vec![i, j as i64, n as i64, q as i64]), V::A(vec![int(i), int(j as i64), int(n as i64), int(q as i64)]));
        is!(m::array_values(ws()), aa.clone());
        is!(m::array_texts(vec![t.clone(), String::new(), t.clone()]), V::A(vec![tt.clone(), V::t(""), tt.clone()]));
        is!(m::a_true(), V::S(21));
        is!(m::a_false(), V::S(20));
        is!(m::a_null(), V::S(22));
        is!(m::an_undefined(), V::S(23));
        is!(m::a_bool(p), s(p));
        is!(m::an_unsigned(n), u.clone());
        is!(m::an_int(i), int(i));
        is!(m::a_text(t.clone()), tt.clone());
        is!(m::a_text_ref(&t), tt.clone());
        is!(m::some_bytes(b.clone()), bb.clone());
        is!(m::some_bytes_lit(&b), bb.clone());
        is!(m::tagged(n, v.real()), V::Tag(n, Box::new(v.clone())));
        Ok(())
    })
}
