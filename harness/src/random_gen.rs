// Generated by tools/gen_derive.py.
#![allow(unused)]
use crate::{derived::*, gen::*, model::*, typed::*};
#[allow(unused_imports)]
use oasis_cbor::Value;
use std::collections::BTreeMap;
use vx_catalogue::derived::*;
use vx_random::*;

impl Ty for S0 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S0(<u16 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), <LooseUnit as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(m_enc_cap(&self.1).item()); xs.push(m_enc_not(&self.2).item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 4, false)?; Ok(S0(top::<u16>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(2).ok_or(D::Missing)?)?)?, top::<LooseUnit>(a.get(3).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && m_enc_cap(&self.1).rt_top() && m_enc_cap(&self.1) == self.1 && m_enc_not(&self.2).rt_top() && m_dec_not(m_enc_not(&self.2)).as_ref() == Ok(&self.2) && self.3.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u16 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <LooseUnit as Ty>::loose() }
}
impl Ty for S1 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S1 { key: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, a: <S0 as Ty>::arb(r, d.saturating_sub(1)), payload: <AllOpt as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(65535), self.a.item())); es.push((V::t("payload"), self.payload.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(65535), V::t("payload")], false)?; Ok(S1 { key: Default::default(), a: field::<S0>(m, &V::int(65535))?, payload: field::<AllOpt>(m, &V::t("payload"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.key == <u64 as Default>::default() && self.a.rt_top() && self.payload.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(65535), V::t("payload")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <S0 as Ty>::loose() || <AllOpt as Ty>::loose() }
}
impl Ty for S2 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S2 { y: <u64 as Ty>::arb(r, d.saturating_sub(1)), mid: if r.p(1, 2) { Default::default() } else { <Vec<String> as Ty>::arb(r, d) }, second: <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)), key: <() as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("y"), self.y.item())); es.push((V::t("second"), self.second.item())); es.push((V::t("a"), self.key.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("y"), V::t("second"), V::t("a")], true)?; Ok(S2 { y: field::<u64>(m, &V::t("y"))?, mid: Default::default(), second: field::<Vec<u8>>(m, &V::t("second"))?, key: field::<()>(m, &V::t("a"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() && self.mid == <Vec<String> as Default>::default() && self.second.rt_top() && self.key.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("y"), V::t("second"), V::t("a")] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <Vec<String> as Ty>::loose() || <Vec<u8> as Ty>::loose() || <() as Ty>::loose() }
}
impl Ty for S3 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S3 { b: <LooseUnit as Ty>::arb(r, d.saturating_sub(1)), kind: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), first: <Option<Plain> as Ty>::arb(r, d.saturating_sub(1)), mid: <Option<String> as Ty>::arb(r, d.saturating_sub(1)), offset: <String as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.b.item()); xs.push(self.kind.item()); xs.push(self.first.item()); xs.push(self.mid.item()); xs.push(self.offset.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S3 { b: top::<LooseUnit>(a.get(0).ok_or(D::Missing)?)?, kind: top::<AllOpt>(a.get(1).ok_or(D::Missing)?)?, first: top::<Option<Plain>>(a.get(2).ok_or(D::Missing)?)?, mid: top::<Option<String>>(a.get(3).ok_or(D::Missing)?)?, offset: top::<String>(a.get(4).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.b.rt_top() && self.kind.rt_top() && self.first.rt_top() && self.mid.rt_top() && self.offset.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <LooseUnit as Ty>::loose() || <AllOpt as Ty>::loose() || <Option<Plain> as Ty>::loose() || <Option<String> as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for S4 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S4 {  } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, false)?; Ok(S4 {  }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for S5 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S5 { b: <bool as Ty>::arb(r, d.saturating_sub(1)), y: <u64 as Ty>::arb(r, d.saturating_sub(1)), name: <bool as Ty>::arb(r, d.saturating_sub(1)), foo: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, field_name_of_23_bytes_x: if r.p(1, 2) { Default::default() } else { <bool as Ty>::arb(r, d) }, c: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), m_enc_not(&self.b).item())); es.push((V::t("y"), m_enc_cap(&self.y).item())); es.push((V::int(4294967295), self.name.item())); es.push((V::t("c"), self.c.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("b"), V::t("y"), V::int(4294967295), V::t("c")], false)?; Ok(S5 { b: m_dec_not(field::<bool>(m, &V::t("b"))?)?, y: field::<u64>(m, &V::t("y"))?, name: field::<bool>(m, &V::int(4294967295))?, foo: Default::default(), field_name_of_23_bytes_x: Default::default(), c: field::<Option<String>>(m, &V::t("c"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_not(&self.b).rt_top() && m_dec_not(m_enc_not(&self.b)).as_ref() == Ok(&self.b) && m_enc_cap(&self.y).rt_top() && m_enc_cap(&self.y) == self.y && self.name.rt_top() && self.foo == <u64 as Default>::default() && self.field_name_of_23_bytes_x == <bool as Default>::default() && self.c.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("b"), V::t("y"), V::int(4294967295), V::t("c")] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <Option<String> as Ty>::loose() }
}
impl Ty for S6 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S6(<u8 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <(u64, bool) as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(m_enc_cap(&self.1).item()); xs.push(m_enc_not(&self.2).item()); xs.push(m_enc_plus(&self.3).item()); xs.push(self.4.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S6(top::<u8>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(2).ok_or(D::Missing)?)?)?, m_dec_plus(top::<u128>(a.get(3).ok_or(D::Missing)?)?)?, top::<(u64, bool)>(a.get(4).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && m_enc_cap(&self.1).rt_top() && m_enc_cap(&self.1) == self.1 && m_enc_not(&self.2).rt_top() && m_dec_not(m_enc_not(&self.2)).as_ref() == Ok(&self.2) && m_enc_plus(&self.3).rt_top() && m_dec_plus(m_enc_plus(&self.3)).as_ref() == Ok(&self.3) && self.4.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() || <(u64, bool) as Ty>::loose() }
}
impl Ty for S7 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S7(<String as Ty>::arb(r, d.saturating_sub(1)), <S4 as Ty>::arb(r, d.saturating_sub(1)), <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)), <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <S0 as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 4, false)?; Ok(S7(top::<String>(a.get(0).ok_or(D::Missing)?)?, top::<S4>(a.get(1).ok_or(D::Missing)?)?, top::<Vec<u8>>(a.get(2).ok_or(D::Missing)?)?, top::<Vec<u8>>(a.get(3).ok_or(D::Missing)?)?, Default::default())) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() && self.3.rt_top() && self.4 == <S0 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <String as Ty>::loose() || <S4 as Ty>::loose() || <Vec<u8> as Ty>::loose() || <Vec<u8> as Ty>::loose() || <S0 as Ty>::loose() }
}
impl Ty for S8 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S8 { foo: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)), n: <Option<u64> as Ty>::arb(r, d.saturating_sub(1)), y: <S0 as Ty>::arb(r, d.saturating_sub(1)), value: <BTreeMap<String, u8> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.foo.omit() { es.push((V::t("foo"), self.foo.item())) } es.push((V::t("n"), self.n.item())); if !self.y.omit() { es.push((V::t("y"), self.y.item())) } es.push((V::t("value"), self.value.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("foo"), V::t("n"), V::t("y"), V::t("value")], false)?; Ok(S8 { foo: field::<(u64, bool)>(m, &V::t("foo"))?, n: field::<Option<u64>>(m, &V::t("n"))?, y: field::<S0>(m, &V::t("y"))?, value: field::<BTreeMap<String, u8>>(m, &V::t("value"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.foo.rt_top() && (!self.foo.omit() || <(u64, bool) as Ty>::def() == Ok(self.foo.clone())) && self.n.rt_top() && self.y.rt_top() && (!self.y.omit() || <S0 as Ty>::def() == Ok(self.y.clone())) && self.value.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("foo"), V::t("n"), V::t("y"), V::t("value")] }
    fn loose() -> bool { false || <(u64, bool) as Ty>::loose() || <Option<u64> as Ty>::loose() || <S0 as Ty>::loose() || <BTreeMap<String, u8> as Ty>::loose() }
}
impl Ty for S9 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S9 { y: <u16 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.y.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S9 { y: top::<u16>(a.get(0).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u16 as Ty>::loose() }
}
impl Ty for S10 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S10 { value: <bool as Ty>::arb(r, d.saturating_sub(1)), n: <bool as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: if r.p(1, 2) { Default::default() } else { <char as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(18446744073709551615), m_enc_not(&self.value).item())); es.push((V::t("n"), self.n.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(18446744073709551615), V::t("n")], false)?; Ok(S10 { value: m_dec_not(field::<bool>(m, &V::int(18446744073709551615))?)?, n: field::<bool>(m, &V::t("n"))?, field_name_of_23_bytes_x: Default::default() }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_not(&self.value).rt_top() && m_dec_not(m_enc_not(&self.value)).as_ref() == Ok(&self.value) && self.n.rt_top() && self.field_name_of_23_bytes_x == <char as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(18446744073709551615), V::t("n")] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <bool as Ty>::loose() || <char as Ty>::loose() }
}
impl Ty for S11 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S11 { name: <S9 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), ab: if r.p(1, 2) { Default::default() } else { <S9 as Ty>::arb(r, d) }, aa: <u64 as Ty>::arb(r, d.saturating_sub(1)), id: <[u8; 3] as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.name.item()); xs.push(self.a_long_field_name.item()); xs.push(m_enc_plus(&self.aa).item()); xs.push(self.id.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 4, false)?; Ok(S11 { name: top::<S9>(a.get(0).ok_or(D::Missing)?)?, a_long_field_name: top::<Vec<AllOpt>>(a.get(1).ok_or(D::Missing)?)?, ab: Default::default(), aa: m_dec_plus(top::<u128>(a.get(2).ok_or(D::Missing)?)?)?, id: top::<[u8; 3]>(a.get(3).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.name.rt_top() && self.a_long_field_name.rt_top() && self.ab == <S9 as Default>::default() && m_enc_plus(&self.aa).rt_top() && m_dec_plus(m_enc_plus(&self.aa)).as_ref() == Ok(&self.aa) && self.id.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S9 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <S9 as Ty>::loose() || <u64 as Ty>::loose() || <[u8; 3] as Ty>::loose() }
}
impl Ty for S12 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S12(<S9 as Ty>::arb(r, d.saturating_sub(1)), <u32 as Ty>::arb(r, d.saturating_sub(1)), <Option<S1> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S12(top::<S9>(a.get(0).ok_or(D::Missing)?)?, top::<u32>(a.get(1).ok_or(D::Missing)?)?, top::<Option<S1>>(a.get(2).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S9 as Ty>::loose() || <u32 as Ty>::loose() || <Option<S1> as Ty>::loose() }
}
impl Ty for S13 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S13 { n: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), ba: <String as Ty>::arb(r, d.saturating_sub(1)), zz: <Option<u64> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(1), self.n.item())); es.push((V::t("ba"), self.ba.item())); es.push((V::int(24), self.zz.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(1), V::t("ba"), V::int(24)], false)?; Ok(S13 { n: field::<Option<bool>>(m, &V::int(1))?, ba: field::<String>(m, &V::t("ba"))?, zz: field::<Option<u64>>(m, &V::int(24))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.n.rt_top() && self.ba.rt_top() && self.zz.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(1), V::t("ba"), V::int(24)] }
    fn loose() -> bool { false || <Option<bool> as Ty>::loose() || <String as Ty>::loose() || <Option<u64> as Ty>::loose() }
}
impl Ty for S14 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S14 { foo: if r.p(1, 2) { Default::default() } else { <AllOpt as Ty>::arb(r, d) }, payload: <u64 as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: if r.p(1, 2) { Default::default() } else { <i64 as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.payload.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S14 { foo: Default::default(), payload: top::<u64>(a.get(0).ok_or(D::Missing)?)?, another_field_name_longer_than_23: Default::default() }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.foo == <AllOpt as Default>::default() && self.payload.rt_top() && self.another_field_name_longer_than_23 == <i64 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <AllOpt as Ty>::loose() || <u64 as Ty>::loose() || <i64 as Ty>::loose() }
}
impl Ty for S15 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S15 { kind: <u64 as Ty>::arb(r, d.saturating_sub(1)), ab: if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) }, mid: <u16 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: if r.p(1, 2) { Default::default() } else { <Unit as Ty>::arb(r, d) }, a: <String as Ty>::arb(r, d.saturating_sub(1)), offset: <Value as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("kind"), self.kind.item())); es.push((V::int(10), self.mid.item())); es.push((V::t("tag"), self.a.item())); if !self.offset.omit() { es.push((V::t("offset"), self.offset.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("kind"), V::int(10), V::t("tag"), V::t("offset")], false)?; Ok(S15 { kind: field::<u64>(m, &V::t("kind"))?, ab: Default::default(), mid: field::<u16>(m, &V::int(10))?, field_name_of_23_bytes_x: Default::default(), a: field::<String>(m, &V::t("tag"))?, offset: field::<Value>(m, &V::t("offset"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.kind.rt_top() && self.ab == <String as Default>::default() && self.mid.rt_top() && self.field_name_of_23_bytes_x == <Unit as Default>::default() && self.a.rt_top() && self.offset.rt_top() && (!self.offset.omit() || <Value as Ty>::def() == Ok(self.offset.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("kind"), V::int(10), V::t("tag"), V::t("offset")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <String as Ty>::loose() || <u16 as Ty>::loose() || <Unit as Ty>::loose() || <String as Ty>::loose() || <Value as Ty>::loose() }
}
impl Ty for S16 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S16 { mid: <bool as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <BTreeMap<String, u8> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.mid.item()); xs.push(self.another_field_name_longer_than_23.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S16 { mid: top::<bool>(a.get(0).ok_or(D::Missing)?)?, another_field_name_longer_than_23: top::<BTreeMap<String, u8>>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.mid.rt_top() && self.another_field_name_longer_than_23.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <BTreeMap<String, u8> as Ty>::loose() }
}
impl Ty for S17 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S17 { y: <u16 as Ty>::arb(r, d.saturating_sub(1)), bar: <char as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <S15 as Ty>::arb(r, d.saturating_sub(1)), key: <bool as Ty>::arb(r, d.saturating_sub(1)), value: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.y.item()); xs.push(self.bar.item()); xs.push(self.field_name_of_23_bytes_x.item()); xs.push(self.key.item()); xs.push(self.value.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S17 { y: m_dec_small(top::<u16>(a.get(0).ok_or(D::Missing)?)?)?, bar: top::<char>(a.get(1).ok_or(D::Missing)?)?, field_name_of_23_bytes_x: top::<S15>(a.get(2).ok_or(D::Missing)?)?, key: top::<bool>(a.get(3).ok_or(D::Missing)?)?, value: top::<Option<String>>(a.get(4).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() && m_dec_small(self.y).as_ref() == Ok(&self.y) && self.bar.rt_top() && self.field_name_of_23_bytes_x.rt_top() && self.key.rt_top() && self.value.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u16 as Ty>::loose() || <char as Ty>::loose() || <S15 as Ty>::loose() || <bool as Ty>::loose() || <Option<String> as Ty>::loose() }
}
impl Ty for S18 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S18 { id: <LooseUnit as Ty>::arb(r, d.saturating_sub(1)), foo: if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.id.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S18 { id: top::<LooseUnit>(a.get(0).ok_or(D::Missing)?)?, foo: Default::default() }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.id.rt_top() && self.foo == <String as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <LooseUnit as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for S19 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S19(<S4 as Ty>::arb(r, d.saturating_sub(1)), <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)), <S1 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S19(top::<S4>(a.get(0).ok_or(D::Missing)?)?, top::<Vec<u8>>(a.get(1).ok_or(D::Missing)?)?, top::<S1>(a.get(2).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S4 as Ty>::loose() || <Vec<u8> as Ty>::loose() || <S1 as Ty>::loose() }
}
impl Ty for S20 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S20 { zz: <i8 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zz"), self.zz.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("zz")], true)?; Ok(S20 { zz: field::<i8>(m, &V::t("zz"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.zz.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("zz")] }
    fn loose() -> bool { true || <i8 as Ty>::loose() }
}
impl Ty for S21 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S21 { first: <S6 as Ty>::arb(r, d.saturating_sub(1)), b: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("longer"), self.first.item())); es.push((V::int(0), m_enc_not(&self.b).item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("longer"), V::int(0)], true)?; Ok(S21 { first: field::<S6>(m, &V::t("longer"))?, b: m_dec_not(field::<bool>(m, &V::int(0))?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.first.rt_top() && m_enc_not(&self.b).rt_top() && m_dec_not(m_enc_not(&self.b)).as_ref() == Ok(&self.b) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("longer"), V::int(0)] }
    fn loose() -> bool { true || <S6 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for S22 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S22 {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], false)?; Ok(S22 {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for S23 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S23 {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], false)?; Ok(S23 {  }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for S24 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S24 { value: <u16 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.value.omit() { es.push((V::t("value"), self.value.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("value")], true)?; Ok(S24 { value: field::<u16>(m, &V::t("value"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.value.rt_top() && (!self.value.omit() || <u16 as Ty>::def() == Ok(self.value.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("value")] }
    fn loose() -> bool { true || <u16 as Ty>::loose() }
}
impl Ty for S25 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S25(<Option<S24> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S25(top::<Option<S24>>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<S24> as Ty>::loose() }
}
impl Ty for S26 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S26 { c: <u64 as Ty>::arb(r, d.saturating_sub(1)), foo: <S9 as Ty>::arb(r, d.saturating_sub(1)), mid: <S0 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !m_is_odd(&self.c) { es.push((V::t("quite a long key with more than 23 bytes"), self.c.item())) } es.push((V::t("foo"), self.foo.item())); if !self.mid.omit() { es.push((V::t("mid"), self.mid.item())) } es.push((V::t("a_long_field_name"), self.a_long_field_name.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("quite a long key with more than 23 bytes"), V::t("foo"), V::t("mid"), V::t("a_long_field_name")], false)?; Ok(S26 { c: field::<u64>(m, &V::t("quite a long key with more than 23 bytes"))?, foo: field::<S9>(m, &V::t("foo"))?, mid: field::<S0>(m, &V::t("mid"))?, a_long_field_name: field::<bool>(m, &V::t("a_long_field_name"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.c.rt_top() && (!m_is_odd(&self.c) || <u64 as Ty>::def() == Ok(self.c.clone())) && self.foo.rt_top() && self.mid.rt_top() && (!self.mid.omit() || <S0 as Ty>::def() == Ok(self.mid.clone())) && self.a_long_field_name.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("quite a long key with more than 23 bytes"), V::t("foo"), V::t("mid"), V::t("a_long_field_name")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <S9 as Ty>::loose() || <S0 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for S27 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S27(if r.p(1, 2) { Default::default() } else { <Option<Plain> as Ty>::arb(r, d) }, <u64 as Ty>::arb(r, d.saturating_sub(1)), <S26 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.1.item()); xs.push(self.2.item()); xs.push(m_enc_not(&self.3).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S27(Default::default(), top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<S26>(a.get(1).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(2).ok_or(D::Missing)?)?)?, Default::default())) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0 == <Option<Plain> as Default>::default() && self.1.rt_top() && self.2.rt_top() && m_enc_not(&self.3).rt_top() && m_dec_not(m_enc_not(&self.3)).as_ref() == Ok(&self.3) && self.4 == <u64 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<Plain> as Ty>::loose() || <u64 as Ty>::loose() || <S26 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for S28 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S28(<Vec<u8> as Ty>::arb(r, d.saturating_sub(1)), <Option<S1> as Ty>::arb(r, d.saturating_sub(1)), <BTreeMap<u64, String> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S28(top::<Vec<u8>>(a.get(0).ok_or(D::Missing)?)?, top::<Option<S1>>(a.get(1).ok_or(D::Missing)?)?, top::<BTreeMap<u64, String>>(a.get(2).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Vec<u8> as Ty>::loose() || <Option<S1> as Ty>::loose() || <BTreeMap<u64, String> as Ty>::loose() }
}
impl Ty for S29 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S29 { offset: <S20 as Ty>::arb(r, d.saturating_sub(1)), ab: <[u8; 3] as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), self.offset.item())); if !self.ab.omit() { es.push((V::t("aB"), self.ab.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a"), V::t("aB")], false)?; Ok(S29 { offset: field::<S20>(m, &V::t("a"))?, ab: field::<[u8; 3]>(m, &V::t("aB"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.offset.rt_top() && self.ab.rt_top() && (!self.ab.omit() || <[u8; 3] as Ty>::def() == Ok(self.ab.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a"), V::t("aB")] }
    fn loose() -> bool { false || <S20 as Ty>::loose() || <[u8; 3] as Ty>::loose() }
}
impl Ty for S30 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S30 { ab: <Option<String> as Ty>::arb(r, d.saturating_sub(1)), first: <S15 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.ab.item()); xs.push(self.first.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S30 { ab: top::<Option<String>>(a.get(0).ok_or(D::Missing)?)?, first: top::<S15>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.ab.rt_top() && self.first.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<String> as Ty>::loose() || <S15 as Ty>::loose() }
}
impl Ty for S31 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S31(<TransBytes as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <Option<bool> as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S31(top::<TransBytes>(a.get(0).ok_or(D::Missing)?)?, Default::default())) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1 == <Option<bool> as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <TransBytes as Ty>::loose() || <Option<bool> as Ty>::loose() }
}
impl Ty for S32 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S32 { aa: <Option<S12> as Ty>::arb(r, d.saturating_sub(1)), m: <u8 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.aa.item()); xs.push(self.m.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S32 { aa: top::<Option<S12>>(a.get(0).ok_or(D::Missing)?)?, m: top::<u8>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.aa.rt_top() && self.m.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<S12> as Ty>::loose() || <u8 as Ty>::loose() }
}
impl Ty for S33 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S33(<bool as Ty>::arb(r, d.saturating_sub(1)), <S6 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(m_enc_not(&self.0).item()); xs.push(self.1.item()); xs.push(m_enc_plus(&self.2).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S33(m_dec_not(top::<bool>(a.get(0).ok_or(D::Missing)?)?)?, top::<S6>(a.get(1).ok_or(D::Missing)?)?, m_dec_plus(top::<u128>(a.get(2).ok_or(D::Missing)?)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_not(&self.0).rt_top() && m_dec_not(m_enc_not(&self.0)).as_ref() == Ok(&self.0) && self.1.rt_top() && m_enc_plus(&self.2).rt_top() && m_dec_plus(m_enc_plus(&self.2)).as_ref() == Ok(&self.2) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <S6 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for S34 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S34 { field_name_of_24_bytes_xy: <S4 as Ty>::arb(r, d.saturating_sub(1)), id: <String as Ty>::arb(r, d.saturating_sub(1)), m: <Option<S25> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("field_name_of_24_bytes_xy"), self.field_name_of_24_bytes_xy.item())); es.push((V::int(7), self.id.item())); es.push((V::t("m"), self.m.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("field_name_of_24_bytes_xy"), V::int(7), V::t("m")], false)?; Ok(S34 { field_name_of_24_bytes_xy: field::<S4>(m, &V::t("field_name_of_24_bytes_xy"))?, id: field::<String>(m, &V::int(7))?, m: field::<Option<S25>>(m, &V::t("m"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.field_name_of_24_bytes_xy.rt_top() && self.id.rt_top() && self.m.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("field_name_of_24_bytes_xy"), V::int(7), V::t("m")] }
    fn loose() -> bool { false || <S4 as Ty>::loose() || <String as Ty>::loose() || <Option<S25> as Ty>::loose() }
}
impl Ty for S35 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S35 { foo: <S26 as Ty>::arb(r, d.saturating_sub(1)), m: <bool as Ty>::arb(r, d.saturating_sub(1)), id: if r.p(1, 2) { Default::default() } else { <Option<bool> as Ty>::arb(r, d) }, aa: <u128 as Ty>::arb(r, d.saturating_sub(1)), mid: <bool as Ty>::arb(r, d.saturating_sub(1)), first: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.foo.omit() { es.push((V::t("foo"), self.foo.item())) } if !m_enc_not(&self.m).omit() { es.push((V::t("m"), m_enc_not(&self.m).item())) } es.push((V::t("aa"), self.aa.item())); es.push((V::t("mid"), self.mid.item())); if !self.first.omit() { es.push((V::int(4294967295), self.first.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("foo"), V::t("m"), V::t("aa"), V::t("mid"), V::int(4294967295)], false)?; Ok(S35 { foo: field::<S26>(m, &V::t("foo"))?, m: m_dec_not(field::<bool>(m, &V::t("m"))?)?, id: Default::default(), aa: field::<u128>(m, &V::t("aa"))?, mid: field::<bool>(m, &V::t("mid"))?, first: field::<u64>(m, &V::int(4294967295))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.foo.rt_top() && (!self.foo.omit() || <S26 as Ty>::def() == Ok(self.foo.clone())) && m_enc_not(&self.m).rt_top() && m_dec_not(m_enc_not(&self.m)).as_ref() == Ok(&self.m) && (!m_enc_not(&self.m).omit() || <bool as Ty>::def() == Ok(m_enc_not(&self.m).clone())) && self.id == <Option<bool> as Default>::default() && self.aa.rt_top() && self.mid.rt_top() && self.first.rt_top() && (!self.first.omit() || <u64 as Ty>::def() == Ok(self.first.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("foo"), V::t("m"), V::t("aa"), V::t("mid"), V::int(4294967295)] }
    fn loose() -> bool { false || <S26 as Ty>::loose() || <bool as Ty>::loose() || <Option<bool> as Ty>::loose() || <u128 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for S36 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S36 { ab: if r.p(1, 2) { Default::default() } else { <Vec<AllOpt> as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], true)?; Ok(S36 { ab: Default::default() }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.ab == <Vec<AllOpt> as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <Vec<AllOpt> as Ty>::loose() }
}
impl Ty for S37 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S37(<() as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S37(top::<()>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <() as Ty>::loose() }
}
impl Ty for S38 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S38(<S20 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u16 as Ty>::arb(r, d) }, <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), <S33 as Ty>::arb(r, d.saturating_sub(1)), <S21 as Ty>::arb(r, d.saturating_sub(1)), <S4 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.2.item()); xs.push(self.3.item()); xs.push(self.4.item()); xs.push(self.5.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S38(top::<S20>(a.get(0).ok_or(D::Missing)?)?, Default::default(), top::<Vec<AllOpt>>(a.get(1).ok_or(D::Missing)?)?, top::<S33>(a.get(2).ok_or(D::Missing)?)?, top::<S21>(a.get(3).ok_or(D::Missing)?)?, top::<S4>(a.get(4).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1 == <u16 as Default>::default() && self.2.rt_top() && self.3.rt_top() && self.4.rt_top() && self.5.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S20 as Ty>::loose() || <u16 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <S33 as Ty>::loose() || <S21 as Ty>::loose() || <S4 as Ty>::loose() }
}
impl Ty for S39 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S39 { a: <Option<S25> as Ty>::arb(r, d.saturating_sub(1)), payload: if r.p(1, 2) { Default::default() } else { <Option<bool> as Ty>::arb(r, d) }, kind: if r.p(1, 2) { Default::default() } else { <LooseUnit as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.a.omit() { es.push((V::t("a"), self.a.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a")], true)?; Ok(S39 { a: field::<Option<S25>>(m, &V::t("a"))?, payload: Default::default(), kind: Default::default() }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && (!self.a.omit() || <Option<S25> as Ty>::def() == Ok(self.a.clone())) && self.payload == <Option<bool> as Default>::default() && self.kind == <LooseUnit as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a")] }
    fn loose() -> bool { true || <Option<S25> as Ty>::loose() || <Option<bool> as Ty>::loose() || <LooseUnit as Ty>::loose() }
}
impl Ty for S40 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S40 { z: <LooseUnit as Ty>::arb(r, d.saturating_sub(1)), foo: <S15 as Ty>::arb(r, d.saturating_sub(1)), zz: <S19 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("z"), self.z.item())); es.push((V::t("foo"), self.foo.item())); es.push((V::int(0), self.zz.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("z"), V::t("foo"), V::int(0)], true)?; Ok(S40 { z: field::<LooseUnit>(m, &V::t("z"))?, foo: field::<S15>(m, &V::t("foo"))?, zz: field::<S19>(m, &V::int(0))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.z.rt_top() && self.foo.rt_top() && self.zz.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("z"), V::t("foo"), V::int(0)] }
    fn loose() -> bool { true || <LooseUnit as Ty>::loose() || <S15 as Ty>::loose() || <S19 as Ty>::loose() }
}
impl Ty for S41 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S41 { y: <S28 as Ty>::arb(r, d.saturating_sub(1)), m: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("y"), self.y.item())); if !self.m.omit() { es.push((V::t("m"), self.m.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("y"), V::t("m")], true)?; Ok(S41 { y: field::<S28>(m, &V::t("y"))?, m: field::<bool>(m, &V::t("m"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() && self.m.rt_top() && (!self.m.omit() || <bool as Ty>::def() == Ok(self.m.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("y"), V::t("m")] }
    fn loose() -> bool { true || <S28 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for S42 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S42 { first: <S17 as Ty>::arb(r, d.saturating_sub(1)), mid: <u64 as Ty>::arb(r, d.saturating_sub(1)), aa: if r.p(1, 2) { Default::default() } else { <() as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("first"), self.first.item())); if !m_is_odd(&self.mid) { es.push((V::t("mid"), self.mid.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("first"), V::t("mid")], false)?; Ok(S42 { first: field::<S17>(m, &V::t("first"))?, mid: field::<u64>(m, &V::t("mid"))?, aa: Default::default() }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.first.rt_top() && self.mid.rt_top() && (!m_is_odd(&self.mid) || <u64 as Ty>::def() == Ok(self.mid.clone())) && self.aa == <() as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("first"), V::t("mid")] }
    fn loose() -> bool { false || <S17 as Ty>::loose() || <u64 as Ty>::loose() || <() as Ty>::loose() }
}
impl Ty for S43 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S43 {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], true)?; Ok(S43 {  }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true }
}
impl Ty for S44 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S44(<Option<bool> as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(m_enc_not(&self.1).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S44(top::<Option<bool>>(a.get(0).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(1).ok_or(D::Missing)?)?)?, Default::default())) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && m_enc_not(&self.1).rt_top() && m_dec_not(m_enc_not(&self.1)).as_ref() == Ok(&self.1) && self.2 == <u8 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<bool> as Ty>::loose() || <bool as Ty>::loose() || <u8 as Ty>::loose() }
}
impl Ty for S45 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S45 {  } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, false)?; Ok(S45 {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for S46 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S46(<u16 as Ty>::arb(r, d.saturating_sub(1)), <TransBytes as Ty>::arb(r, d.saturating_sub(1)), <Option<u64> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S46(m_dec_small(top::<u16>(a.get(0).ok_or(D::Missing)?)?)?, top::<TransBytes>(a.get(1).ok_or(D::Missing)?)?, top::<Option<u64>>(a.get(2).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && m_dec_small(self.0).as_ref() == Ok(&self.0) && self.1.rt_top() && self.2.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u16 as Ty>::loose() || <TransBytes as Ty>::loose() || <Option<u64> as Ty>::loose() }
}
impl Ty for S47 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S47 { y: <S30 as Ty>::arb(r, d.saturating_sub(1)), ab: <S17 as Ty>::arb(r, d.saturating_sub(1)), ba: <String as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("A"), self.y.item())); es.push((V::int(65535), self.ab.item())); es.push((V::int(24), self.ba.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("A"), V::int(65535), V::int(24)], true)?; Ok(S47 { y: field::<S30>(m, &V::t("A"))?, ab: field::<S17>(m, &V::int(65535))?, ba: field::<String>(m, &V::int(24))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() && self.ab.rt_top() && self.ba.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("A"), V::int(65535), V::int(24)] }
    fn loose() -> bool { true || <S30 as Ty>::loose() || <S17 as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for S48 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S48 { second: <S17 as Ty>::arb(r, d.saturating_sub(1)), a: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, zz: <S18 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("second"), self.second.item())); if !self.zz.omit() { es.push((V::t("zz"), self.zz.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("second"), V::t("zz")], false)?; Ok(S48 { second: field::<S17>(m, &V::t("second"))?, a: Default::default(), zz: field::<S18>(m, &V::t("zz"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.second.rt_top() && self.a == <u64 as Default>::default() && self.zz.rt_top() && (!self.zz.omit() || <S18 as Ty>::def() == Ok(self.zz.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("second"), V::t("zz")] }
    fn loose() -> bool { false || <S17 as Ty>::loose() || <u64 as Ty>::loose() || <S18 as Ty>::loose() }
}
impl Ty for S49 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S49(<String as Ty>::arb(r, d.saturating_sub(1)), <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <S48 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <S16 as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); xs.push(m_enc_plus(&self.3).item()); xs.push(self.4.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S49(top::<String>(a.get(0).ok_or(D::Missing)?)?, top::<Vec<AllOpt>>(a.get(1).ok_or(D::Missing)?)?, top::<bool>(a.get(2).ok_or(D::Missing)?)?, m_dec_plus(top::<u128>(a.get(3).ok_or(D::Missing)?)?)?, top::<S48>(a.get(4).ok_or(D::Missing)?)?, Default::default())) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() && m_enc_plus(&self.3).rt_top() && m_dec_plus(m_enc_plus(&self.3)).as_ref() == Ok(&self.3) && self.4.rt_top() && self.5 == <S16 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <String as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() || <S48 as Ty>::loose() || <S16 as Ty>::loose() }
}
impl Ty for S50 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S50(<Vec<u8> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S50(top::<Vec<u8>>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Vec<u8> as Ty>::loose() }
}
impl Ty for S51 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S51 { y: <u64 as Ty>::arb(r, d.saturating_sub(1)), a: <[u8; 3] as Ty>::arb(r, d.saturating_sub(1)), m: <S21 as Ty>::arb(r, d.saturating_sub(1)), foo: <Unit as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !m_is_zero(&self.y) { es.push((V::t("tag"), self.y.item())) } es.push((V::t("a"), self.a.item())); es.push((V::t("m"), self.m.item())); es.push((V::t("foo"), self.foo.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("tag"), V::t("a"), V::t("m"), V::t("foo")], true)?; Ok(S51 { y: field::<u64>(m, &V::t("tag"))?, a: field::<[u8; 3]>(m, &V::t("a"))?, m: field::<S21>(m, &V::t("m"))?, foo: field::<Unit>(m, &V::t("foo"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.y.rt_top() && (!m_is_zero(&self.y) || <u64 as Ty>::def() == Ok(self.y.clone())) && self.a.rt_top() && self.m.rt_top() && self.foo.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("tag"), V::t("a"), V::t("m"), V::t("foo")] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <[u8; 3] as Ty>::loose() || <S21 as Ty>::loose() || <Unit as Ty>::loose() }
}
impl Ty for S52 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S52 { name: <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.name.omit() { es.push((V::t("name"), self.name.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("name")], true)?; Ok(S52 { name: field::<Vec<u8>>(m, &V::t("name"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.name.rt_top() && (!self.name.omit() || <Vec<u8> as Ty>::def() == Ok(self.name.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("name")] }
    fn loose() -> bool { true || <Vec<u8> as Ty>::loose() }
}
impl Ty for S53 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S53 { name: <Unit as Ty>::arb(r, d.saturating_sub(1)), payload: <[u8; 3] as Ty>::arb(r, d.saturating_sub(1)), first: <S0 as Ty>::arb(r, d.saturating_sub(1)), z: <i8 as Ty>::arb(r, d.saturating_sub(1)), y: <S19 as Ty>::arb(r, d.saturating_sub(1)), m: <Option<u64> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("name"), self.name.item())); if !self.payload.omit() { es.push((V::t(""), self.payload.item())) } if !self.first.omit() { es.push((V::t("first"), self.first.item())) } if !self.z.omit() { es.push((V::t("z"), self.z.item())) } es.push((V::int(7), self.y.item())); es.push((V::t("m"), self.m.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("name"), V::t(""), V::t("first"), V::t("z"), V::int(7), V::t("m")], false)?; Ok(S53 { name: field::<Unit>(m, &V::t("name"))?, payload: field::<[u8; 3]>(m, &V::t(""))?, first: field::<S0>(m, &V::t("first"))?, z: field::<i8>(m, &V::t("z"))?, y: field::<S19>(m, &V::int(7))?, m: field::<Option<u64>>(m, &V::t("m"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.name.rt_top() && self.payload.rt_top() && (!self.payload.omit() || <[u8; 3] as Ty>::def() == Ok(self.payload.clone())) && self.first.rt_top() && (!self.first.omit() || <S0 as Ty>::def() == Ok(self.first.clone())) && self.z.rt_top() && (!self.z.omit() || <i8 as Ty>::def() == Ok(self.z.clone())) && self.y.rt_top() && self.m.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("name"), V::t(""), V::t("first"), V::t("z"), V::int(7), V::t("m")] }
    fn loose() -> bool { false || <Unit as Ty>::loose() || <[u8; 3] as Ty>::loose() || <S0 as Ty>::loose() || <i8 as Ty>::loose() || <S19 as Ty>::loose() || <Option<u64> as Ty>::loose() }
}
impl Ty for S54 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S54 { first: <S43 as Ty>::arb(r, d.saturating_sub(1)), c: if r.p(1, 2) { Default::default() } else { <i32 as Ty>::arb(r, d) }, n: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <i8 as Ty>::arb(r, d.saturating_sub(1)), second: <u64 as Ty>::arb(r, d.saturating_sub(1)), y: <Unit as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.first.item()); xs.push(self.n.item()); xs.push(self.a_long_field_name.item()); xs.push(m_enc_cap(&self.second).item()); xs.push(self.y.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 5, false)?; Ok(S54 { first: top::<S43>(a.get(0).ok_or(D::Missing)?)?, c: Default::default(), n: top::<Vec<AllOpt>>(a.get(1).ok_or(D::Missing)?)?, a_long_field_name: top::<i8>(a.get(2).ok_or(D::Missing)?)?, second: top::<u64>(a.get(3).ok_or(D::Missing)?)?, y: top::<Unit>(a.get(4).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.first.rt_top() && self.c == <i32 as Default>::default() && self.n.rt_top() && self.a_long_field_name.rt_top() && m_enc_cap(&self.second).rt_top() && m_enc_cap(&self.second) == self.second && self.y.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S43 as Ty>::loose() || <i32 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <i8 as Ty>::loose() || <u64 as Ty>::loose() || <Unit as Ty>::loose() }
}
impl Ty for S55 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S55 { n: <i32 as Ty>::arb(r, d.saturating_sub(1)), ba: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.n.item()); xs.push(self.ba.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S55 { n: top::<i32>(a.get(0).ok_or(D::Missing)?)?, ba: top::<Option<bool>>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.n.rt_top() && self.ba.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <i32 as Ty>::loose() || <Option<bool> as Ty>::loose() }
}
impl Ty for S56 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S56 { payload: if r.p(1, 2) { Default::default() } else { <S41 as Ty>::arb(r, d) }, value: <() as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <Value as Ty>::arb(r, d.saturating_sub(1)), mid: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.value.item()); xs.push(self.field_name_of_24_bytes_xy.item()); xs.push(m_enc_cap(&self.mid).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S56 { payload: Default::default(), value: top::<()>(a.get(0).ok_or(D::Missing)?)?, field_name_of_24_bytes_xy: top::<Value>(a.get(1).ok_or(D::Missing)?)?, mid: top::<u64>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.payload == <S41 as Default>::default() && self.value.rt_top() && self.field_name_of_24_bytes_xy.rt_top() && m_enc_cap(&self.mid).rt_top() && m_enc_cap(&self.mid) == self.mid }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S41 as Ty>::loose() || <() as Ty>::loose() || <Value as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for S57 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S57(if r.p(1, 2) { Default::default() } else { <(u64, bool) as Ty>::arb(r, d) }, if r.p(1, 2) { Default::default() } else { <Option<S12> as Ty>::arb(r, d) }, <Option<u64> as Ty>::arb(r, d.saturating_sub(1)), <S50 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.2.item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S57(Default::default(), Default::default(), top::<Option<u64>>(a.get(0).ok_or(D::Missing)?)?, top::<S50>(a.get(1).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0 == <(u64, bool) as Default>::default() && self.1 == <Option<S12> as Default>::default() && self.2.rt_top() && self.3.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <(u64, bool) as Ty>::loose() || <Option<S12> as Ty>::loose() || <Option<u64> as Ty>::loose() || <S50 as Ty>::loose() }
}
impl Ty for S58 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S58 { field_name_of_23_bytes_x: <Option<S55> as Ty>::arb(r, d.saturating_sub(1)), c: <u64 as Ty>::arb(r, d.saturating_sub(1)), key: <u64 as Ty>::arb(r, d.saturating_sub(1)), n: <S15 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("field_name_of_23_bytes_x"), self.field_name_of_23_bytes_x.item())); if !m_enc_cap(&self.c).omit() { es.push((V::t("c"), m_enc_cap(&self.c).item())) } if !m_is_zero(&self.key) { es.push((V::t("A"), self.key.item())) } es.push((V::t("n"), self.n.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("field_name_of_23_bytes_x"), V::t("c"), V::t("A"), V::t("n")], true)?; Ok(S58 { field_name_of_23_bytes_x: field::<Option<S55>>(m, &V::t("field_name_of_23_bytes_x"))?, c: field::<u64>(m, &V::t("c"))?, key: field::<u64>(m, &V::t("A"))?, n: field::<S15>(m, &V::t("n"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.field_name_of_23_bytes_x.rt_top() && m_enc_cap(&self.c).rt_top() && m_enc_cap(&self.c) == self.c && (!m_enc_cap(&self.c).omit() || <u64 as Ty>::def() == Ok(m_enc_cap(&self.c).clone())) && self.key.rt_top() && (!m_is_zero(&self.key) || <u64 as Ty>::def() == Ok(self.key.clone())) && self.n.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("field_name_of_23_bytes_x"), V::t("c"), V::t("A"), V::t("n")] }
    fn loose() -> bool { true || <Option<S55> as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <S15 as Ty>::loose() }
}
impl Ty for S59 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S59(<u64 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <i8 as Ty>::arb(r, d) }, <i8 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S59(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?, Default::default(), top::<i8>(a.get(2).ok_or(D::Missing)?)?, Default::default())) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2 == <i8 as Default>::default() && self.3.rt_top() && self.4 == <String as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <i8 as Ty>::loose() || <i8 as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for S60 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S60 { ba: <S14 as Ty>::arb(r, d.saturating_sub(1)), payload: <S10 as Ty>::arb(r, d.saturating_sub(1)), second: <S6 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.ba.item()); xs.push(self.payload.item()); xs.push(self.second.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, true)?; Ok(S60 { ba: top::<S14>(a.get(0).ok_or(D::Missing)?)?, payload: top::<S10>(a.get(1).ok_or(D::Missing)?)?, second: top::<S6>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.ba.rt_top() && self.payload.rt_top() && self.second.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S14 as Ty>::loose() || <S10 as Ty>::loose() || <S6 as Ty>::loose() }
}
impl Ty for S61 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S61 { offset: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), kind: <Option<Plain> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.offset.item()); xs.push(self.kind.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S61 { offset: top::<Option<bool>>(a.get(0).ok_or(D::Missing)?)?, kind: top::<Option<Plain>>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.offset.rt_top() && self.kind.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<bool> as Ty>::loose() || <Option<Plain> as Ty>::loose() }
}
impl Ty for S62 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S62 { n: if r.p(1, 2) { Default::default() } else { <S0 as Ty>::arb(r, d) }, foo: <S21 as Ty>::arb(r, d.saturating_sub(1)), offset: <S45 as Ty>::arb(r, d.saturating_sub(1)), key: <BTreeMap<u64, String> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.foo.item()); xs.push(self.offset.item()); xs.push(self.key.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S62 { n: Default::default(), foo: top::<S21>(a.get(0).ok_or(D::Missing)?)?, offset: top::<S45>(a.get(1).ok_or(D::Missing)?)?, key: top::<BTreeMap<u64, String>>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.n == <S0 as Default>::default() && self.foo.rt_top() && self.offset.rt_top() && self.key.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S0 as Ty>::loose() || <S21 as Ty>::loose() || <S45 as Ty>::loose() || <BTreeMap<u64, String> as Ty>::loose() }
}
impl Ty for S63 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S63(<S23 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S63(top::<S23>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S23 as Ty>::loose() }
}
impl Ty for S64 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S64 { field_name_of_23_bytes_x: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), ab: if r.p(1, 2) { Default::default() } else { <[u8; 3] as Ty>::arb(r, d) } } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("field_name_of_23_bytes_x"), self.field_name_of_23_bytes_x.item())); es.push((V::t("another_field_name_longer_than_23"), self.another_field_name_longer_than_23.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("field_name_of_23_bytes_x"), V::t("another_field_name_longer_than_23")], true)?; Ok(S64 { field_name_of_23_bytes_x: field::<(u64, bool)>(m, &V::t("field_name_of_23_bytes_x"))?, another_field_name_longer_than_23: field::<AllOpt>(m, &V::t("another_field_name_longer_than_23"))?, ab: Default::default() }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.field_name_of_23_bytes_x.rt_top() && self.another_field_name_longer_than_23.rt_top() && self.ab == <[u8; 3] as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("field_name_of_23_bytes_x"), V::t("another_field_name_longer_than_23")] }
    fn loose() -> bool { true || <(u64, bool) as Ty>::loose() || <AllOpt as Ty>::loose() || <[u8; 3] as Ty>::loose() }
}
impl Ty for S65 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S65(<i64 as Ty>::arb(r, d.saturating_sub(1)), <S60 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(m_enc_not(&self.2).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S65(top::<i64>(a.get(0).ok_or(D::Missing)?)?, top::<S60>(a.get(1).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(2).ok_or(D::Missing)?)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && m_enc_not(&self.2).rt_top() && m_dec_not(m_enc_not(&self.2)).as_ref() == Ok(&self.2) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <i64 as Ty>::loose() || <S60 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for S66 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S66(<bool as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <i8 as Ty>::arb(r, d.saturating_sub(1)), <S17 as Ty>::arb(r, d.saturating_sub(1)), <S41 as Ty>::arb(r, d.saturating_sub(1)), <Option<S41> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(m_enc_not(&self.0).item()); xs.push(m_enc_plus(&self.1).item()); xs.push(self.2.item()); xs.push(self.3.item()); xs.push(self.4.item()); xs.push(self.5.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 6, false)?; Ok(S66(m_dec_not(top::<bool>(a.get(0).ok_or(D::Missing)?)?)?, m_dec_plus(top::<u128>(a.get(1).ok_or(D::Missing)?)?)?, top::<i8>(a.get(2).ok_or(D::Missing)?)?, top::<S17>(a.get(3).ok_or(D::Missing)?)?, top::<S41>(a.get(4).ok_or(D::Missing)?)?, top::<Option<S41>>(a.get(5).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_not(&self.0).rt_top() && m_dec_not(m_enc_not(&self.0)).as_ref() == Ok(&self.0) && m_enc_plus(&self.1).rt_top() && m_dec_plus(m_enc_plus(&self.1)).as_ref() == Ok(&self.1) && self.2.rt_top() && self.3.rt_top() && self.4.rt_top() && self.5.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <u64 as Ty>::loose() || <i8 as Ty>::loose() || <S17 as Ty>::loose() || <S41 as Ty>::loose() || <Option<S41> as Ty>::loose() }
}
impl Ty for S67 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S67(<() as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(m_enc_not(&self.1).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S67(top::<()>(a.get(0).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(1).ok_or(D::Missing)?)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && m_enc_not(&self.1).rt_top() && m_dec_not(m_enc_not(&self.1)).as_ref() == Ok(&self.1) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <() as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for S68 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S68 { offset: <S50 as Ty>::arb(r, d.saturating_sub(1)), y: <S15 as Ty>::arb(r, d.saturating_sub(1)), m: <Option<S25> as Ty>::arb(r, d.saturating_sub(1)), kind: <u16 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.offset.item()); xs.push(self.y.item()); xs.push(self.m.item()); xs.push(self.kind.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 4, false)?; Ok(S68 { offset: top::<S50>(a.get(0).ok_or(D::Missing)?)?, y: top::<S15>(a.get(1).ok_or(D::Missing)?)?, m: top::<Option<S25>>(a.get(2).ok_or(D::Missing)?)?, kind: m_dec_small(top::<u16>(a.get(3).ok_or(D::Missing)?)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.offset.rt_top() && self.y.rt_top() && self.m.rt_top() && self.kind.rt_top() && m_dec_small(self.kind).as_ref() == Ok(&self.kind) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S50 as Ty>::loose() || <S15 as Ty>::loose() || <Option<S25> as Ty>::loose() || <u16 as Ty>::loose() }
}
impl Ty for S69 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S69 { m: <u32 as Ty>::arb(r, d.saturating_sub(1)), key: <bool as Ty>::arb(r, d.saturating_sub(1)), foo: <S63 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.m.item()); xs.push(m_enc_not(&self.key).item()); xs.push(self.foo.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S69 { m: top::<u32>(a.get(0).ok_or(D::Missing)?)?, key: m_dec_not(top::<bool>(a.get(1).ok_or(D::Missing)?)?)?, foo: top::<S63>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.m.rt_top() && m_enc_not(&self.key).rt_top() && m_dec_not(m_enc_not(&self.key)).as_ref() == Ok(&self.key) && self.foo.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u32 as Ty>::loose() || <bool as Ty>::loose() || <S63 as Ty>::loose() }
}
impl Ty for S70 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S70 {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], false)?; Ok(S70 {  }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for S71 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S71 { kind: <S38 as Ty>::arb(r, d.saturating_sub(1)), payload: <i32 as Ty>::arb(r, d.saturating_sub(1)), z: <S25 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("kind"), self.kind.item())); es.push((V::int(1), self.payload.item())); es.push((V::t("z"), self.z.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("kind"), V::int(1), V::t("z")], false)?; Ok(S71 { kind: field::<S38>(m, &V::t("kind"))?, payload: field::<i32>(m, &V::int(1))?, z: field::<S25>(m, &V::t("z"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.kind.rt_top() && self.payload.rt_top() && self.z.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("kind"), V::int(1), V::t("z")] }
    fn loose() -> bool { false || <S38 as Ty>::loose() || <i32 as Ty>::loose() || <S25 as Ty>::loose() }
}
impl Ty for S72 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S72 { a_long_field_name: <S0 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <S43 as Ty>::arb(r, d.saturating_sub(1)), b: <i8 as Ty>::arb(r, d.saturating_sub(1)), aa: <u16 as Ty>::arb(r, d.saturating_sub(1)), name: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), mid: <Option<S59> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a_long_field_name"), self.a_long_field_name.item())); if !self.field_name_of_24_bytes_xy.omit() { es.push((V::t("field_name_of_24_bytes_xy"), self.field_name_of_24_bytes_xy.item())) } if !self.b.omit() { es.push((V::int(18446744073709551615), self.b.item())) } es.push((V::t("a"), self.aa.item())); es.push((V::t("name"), self.name.item())); es.push((V::t("mid"), self.mid.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a_long_field_name"), V::t("field_name_of_24_bytes_xy"), V::int(18446744073709551615), V::t("a"), V::t("name"), V::t("mid")], true)?; Ok(S72 { a_long_field_name: field::<S0>(m, &V::t("a_long_field_name"))?, field_name_of_24_bytes_xy: field::<S43>(m, &V::t("field_name_of_24_bytes_xy"))?, b: field::<i8>(m, &V::int(18446744073709551615))?, aa: m_dec_small(field::<u16>(m, &V::t("a"))?)?, name: field::<Vec<AllOpt>>(m, &V::t("name"))?, mid: field::<Option<S59>>(m, &V::t("mid"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a_long_field_name.rt_top() && self.field_name_of_24_bytes_xy.rt_top() && (!self.field_name_of_24_bytes_xy.omit() || <S43 as Ty>::def() == Ok(self.field_name_of_24_bytes_xy.clone())) && self.b.rt_top() && (!self.b.omit() || <i8 as Ty>::def() == Ok(self.b.clone())) && self.aa.rt_top() && m_dec_small(self.aa).as_ref() == Ok(&self.aa) && self.name.rt_top() && self.mid.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a_long_field_name"), V::t("field_name_of_24_bytes_xy"), V::int(18446744073709551615), V::t("a"), V::t("name"), V::t("mid")] }
    fn loose() -> bool { true || <S0 as Ty>::loose() || <S43 as Ty>::loose() || <i8 as Ty>::loose() || <u16 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <Option<S59> as Ty>::loose() }
}
impl Ty for S73 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S73(<S50 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(S73(top::<S50>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S50 as Ty>::loose() }
}
impl Ty for S74 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S74 { second: <S63 as Ty>::arb(r, d.saturating_sub(1)), b: <u64 as Ty>::arb(r, d.saturating_sub(1)), offset: <S50 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <Option<S41> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(4294967296), self.second.item())); es.push((V::int(65536), m_enc_cap(&self.b).item())); es.push((V::t("offset"), self.offset.item())); es.push((V::int(1), self.field_name_of_24_bytes_xy.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(4294967296), V::int(65536), V::t("offset"), V::int(1)], false)?; Ok(S74 { second: field::<S63>(m, &V::int(4294967296))?, b: field::<u64>(m, &V::int(65536))?, offset: field::<S50>(m, &V::t("offset"))?, field_name_of_24_bytes_xy: field::<Option<S41>>(m, &V::int(1))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.second.rt_top() && m_enc_cap(&self.b).rt_top() && m_enc_cap(&self.b) == self.b && self.offset.rt_top() && self.field_name_of_24_bytes_xy.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(4294967296), V::int(65536), V::t("offset"), V::int(1)] }
    fn loose() -> bool { false || <S63 as Ty>::loose() || <u64 as Ty>::loose() || <S50 as Ty>::loose() || <Option<S41> as Ty>::loose() }
}
impl Ty for S75 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S75 { c: if r.p(1, 2) { Default::default() } else { <Option<bool> as Ty>::arb(r, d) }, value: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), ba: if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) }, b: <AllOpt as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(256), self.value.item())); es.push((V::t("b"), self.b.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(256), V::t("b")], false)?; Ok(S75 { c: Default::default(), value: field::<AllOpt>(m, &V::int(256))?, ba: Default::default(), b: field::<AllOpt>(m, &V::t("b"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.c == <Option<bool> as Default>::default() && self.value.rt_top() && self.ba == <String as Default>::default() && self.b.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(256), V::t("b")] }
    fn loose() -> bool { false || <Option<bool> as Ty>::loose() || <AllOpt as Ty>::loose() || <String as Ty>::loose() || <AllOpt as Ty>::loose() }
}
impl Ty for S76 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S76 { zz: if r.p(1, 2) { Default::default() } else { <S41 as Ty>::arb(r, d) }, ba: <S0 as Ty>::arb(r, d.saturating_sub(1)), key: <S9 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.ba.omit() { es.push((V::t("ba"), self.ba.item())) } es.push((V::t("key"), self.key.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("ba"), V::t("key")], true)?; Ok(S76 { zz: Default::default(), ba: field::<S0>(m, &V::t("ba"))?, key: field::<S9>(m, &V::t("key"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.zz == <S41 as Default>::default() && self.ba.rt_top() && (!self.ba.omit() || <S0 as Ty>::def() == Ok(self.ba.clone())) && self.key.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("ba"), V::t("key")] }
    fn loose() -> bool { true || <S41 as Ty>::loose() || <S0 as Ty>::loose() || <S9 as Ty>::loose() }
}
impl Ty for S77 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S77(if r.p(1, 2) { Default::default() } else { <S61 as Ty>::arb(r, d) }) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, false)?; Ok(S77(Default::default())) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0 == <S61 as Default>::default() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S61 as Ty>::loose() }
}
impl Ty for S78 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S78 { offset: <BTreeMap<u64, String> as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <S28 as Ty>::arb(r, d.saturating_sub(1)), aa: <u64 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <S28 as Ty>::arb(r, d.saturating_sub(1)), id: <u64 as Ty>::arb(r, d.saturating_sub(1)), payload: <S17 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("Z"), self.offset.item())); es.push((V::int(7), self.a_long_field_name.item())); if !self.aa.omit() { es.push((V::t("aa"), self.aa.item())) } es.push((V::t("field_name_of_23_bytes_x"), self.field_name_of_23_bytes_x.item())); if !m_is_zero(&self.id) { es.push((V::t("ä"), self.id.item())) } if !self.payload.omit() { es.push((V::int(100), self.payload.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("Z"), V::int(7), V::t("aa"), V::t("field_name_of_23_bytes_x"), V::t("ä"), V::int(100)], false)?; Ok(S78 { offset: field::<BTreeMap<u64, String>>(m, &V::t("Z"))?, a_long_field_name: field::<S28>(m, &V::int(7))?, aa: field::<u64>(m, &V::t("aa"))?, field_name_of_23_bytes_x: field::<S28>(m, &V::t("field_name_of_23_bytes_x"))?, id: field::<u64>(m, &V::t("ä"))?, payload: field::<S17>(m, &V::int(100))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.offset.rt_top() && self.a_long_field_name.rt_top() && self.aa.rt_top() && (!self.aa.omit() || <u64 as Ty>::def() == Ok(self.aa.clone())) && self.field_name_of_23_bytes_x.rt_top() && self.id.rt_top() && (!m_is_zero(&self.id) || <u64 as Ty>::def() == Ok(self.id.clone())) && self.payload.rt_top() && (!self.payload.omit() || <S17 as Ty>::def() == Ok(self.payload.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("Z"), V::int(7), V::t("aa"), V::t("field_name_of_23_bytes_x"), V::t("ä"), V::int(100)] }
    fn loose() -> bool { false || <BTreeMap<u64, String> as Ty>::loose() || <S28 as Ty>::loose() || <u64 as Ty>::loose() || <S28 as Ty>::loose() || <u64 as Ty>::loose() || <S17 as Ty>::loose() }
}
impl Ty for S79 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S79 { foo: <S71 as Ty>::arb(r, d.saturating_sub(1)), ba: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <BTreeMap<String, u8> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.foo.item()); xs.push(self.ba.item()); xs.push(self.field_name_of_24_bytes_xy.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S79 { foo: top::<S71>(a.get(0).ok_or(D::Missing)?)?, ba: top::<Option<bool>>(a.get(1).ok_or(D::Missing)?)?, field_name_of_24_bytes_xy: top::<BTreeMap<String, u8>>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.foo.rt_top() && self.ba.rt_top() && self.field_name_of_24_bytes_xy.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S71 as Ty>::loose() || <Option<bool> as Ty>::loose() || <BTreeMap<String, u8> as Ty>::loose() }
}
impl Ty for S80 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S80 { key: <S58 as Ty>::arb(r, d.saturating_sub(1)), aa: <u64 as Ty>::arb(r, d.saturating_sub(1)), name: <S9 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("key"), self.key.item())); if !m_is_odd(&self.aa) { es.push((V::t("aa"), self.aa.item())) } if !self.name.omit() { es.push((V::int(2), self.name.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("key"), V::t("aa"), V::int(2)], false)?; Ok(S80 { key: field::<S58>(m, &V::t("key"))?, aa: field::<u64>(m, &V::t("aa"))?, name: field::<S9>(m, &V::int(2))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.key.rt_top() && self.aa.rt_top() && (!m_is_odd(&self.aa) || <u64 as Ty>::def() == Ok(self.aa.clone())) && self.name.rt_top() && (!self.name.omit() || <S9 as Ty>::def() == Ok(self.name.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("key"), V::t("aa"), V::int(2)] }
    fn loose() -> bool { false || <S58 as Ty>::loose() || <u64 as Ty>::loose() || <S9 as Ty>::loose() }
}
impl Ty for S81 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S81 { key: <S15 as Ty>::arb(r, d.saturating_sub(1)), zz: <u64 as Ty>::arb(r, d.saturating_sub(1)), kind: <bool as Ty>::arb(r, d.saturating_sub(1)), bar: <bool as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <S16 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <Option<S25> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(25), self.key.item())); es.push((V::t("zz"), m_enc_cap(&self.zz).item())); if !m_enc_not(&self.kind).omit() { es.push((V::t("kind"), m_enc_not(&self.kind).item())) } es.push((V::t("x y"), m_enc_not(&self.bar).item())); es.push((V::t("a_long_field_name"), self.a_long_field_name.item())); es.push((V::t("field_name_of_23_bytes_x"), self.field_name_of_23_bytes_x.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(25), V::t("zz"), V::t("kind"), V::t("x y"), V::t("a_long_field_name"), V::t("field_name_of_23_bytes_x")], true)?; Ok(S81 { key: field::<S15>(m, &V::int(25))?, zz: field::<u64>(m, &V::t("zz"))?, kind: m_dec_not(field::<bool>(m, &V::t("kind"))?)?, bar: m_dec_not(field::<bool>(m, &V::t("x y"))?)?, a_long_field_name: field::<S16>(m, &V::t("a_long_field_name"))?, field_name_of_23_bytes_x: field::<Option<S25>>(m, &V::t("field_name_of_23_bytes_x"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.key.rt_top() && m_enc_cap(&self.zz).rt_top() && m_enc_cap(&self.zz) == self.zz && m_enc_not(&self.kind).rt_top() && m_dec_not(m_enc_not(&self.kind)).as_ref() == Ok(&self.kind) && (!m_enc_not(&self.kind).omit() || <bool as Ty>::def() == Ok(m_enc_not(&self.kind).clone())) && m_enc_not(&self.bar).rt_top() && m_dec_not(m_enc_not(&self.bar)).as_ref() == Ok(&self.bar) && self.a_long_field_name.rt_top() && self.field_name_of_23_bytes_x.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(25), V::t("zz"), V::t("kind"), V::t("x y"), V::t("a_long_field_name"), V::t("field_name_of_23_bytes_x")] }
    fn loose() -> bool { true || <S15 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <bool as Ty>::loose() || <S16 as Ty>::loose() || <Option<S25> as Ty>::loose() }
}
impl Ty for S82 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S82 { a_long_field_name: if r.p(1, 2) { Default::default() } else { <S52 as Ty>::arb(r, d) }, c: <S50 as Ty>::arb(r, d.saturating_sub(1)), y: <S58 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.c.item()); xs.push(self.y.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S82 { a_long_field_name: Default::default(), c: top::<S50>(a.get(0).ok_or(D::Missing)?)?, y: top::<S58>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a_long_field_name == <S52 as Default>::default() && self.c.rt_top() && self.y.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S52 as Ty>::loose() || <S50 as Ty>::loose() || <S58 as Ty>::loose() }
}
impl Ty for S83 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S83(<S30 as Ty>::arb(r, d.saturating_sub(1)), <char as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S83(top::<S30>(a.get(0).ok_or(D::Missing)?)?, top::<char>(a.get(1).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S30 as Ty>::loose() || <char as Ty>::loose() }
}
impl Ty for S84 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S84 { m: <S60 as Ty>::arb(r, d.saturating_sub(1)), b: <[u8; 3] as Ty>::arb(r, d.saturating_sub(1)), ab: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.m.item()); xs.push(self.b.item()); xs.push(self.ab.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(S84 { m: top::<S60>(a.get(0).ok_or(D::Missing)?)?, b: top::<[u8; 3]>(a.get(1).ok_or(D::Missing)?)?, ab: top::<(u64, bool)>(a.get(2).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.m.rt_top() && self.b.rt_top() && self.ab.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S60 as Ty>::loose() || <[u8; 3] as Ty>::loose() || <(u64, bool) as Ty>::loose() }
}
impl Ty for S85 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S85 { ab: <u128 as Ty>::arb(r, d.saturating_sub(1)), bar: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.ab.item()); xs.push(m_enc_cap(&self.bar).item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(S85 { ab: top::<u128>(a.get(0).ok_or(D::Missing)?)?, bar: top::<u64>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.ab.rt_top() && m_enc_cap(&self.bar).rt_top() && m_enc_cap(&self.bar) == self.bar }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u128 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for S86 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S86 {  } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, true)?; Ok(S86 {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true }
}
impl Ty for S87 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S87 {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], true)?; Ok(S87 {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true }
}
impl Ty for S88 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S88 { value: if r.p(1, 2) { Default::default() } else { <Vec<String> as Ty>::arb(r, d) }, bar: if r.p(1, 2) { Default::default() } else { <S52 as Ty>::arb(r, d) }, ba: <S6 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <u16 as Ty>::arb(r, d.saturating_sub(1)), ab: <u16 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.ba.omit() { es.push((V::t("ba"), self.ba.item())) } es.push((V::t("a_long_field_name"), self.a_long_field_name.item())); es.push((V::t("ab"), self.ab.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("ba"), V::t("a_long_field_name"), V::t("ab")], false)?; Ok(S88 { value: Default::default(), bar: Default::default(), ba: field::<S6>(m, &V::t("ba"))?, a_long_field_name: field::<u16>(m, &V::t("a_long_field_name"))?, ab: m_dec_small(field::<u16>(m, &V::t("ab"))?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.value == <Vec<String> as Default>::default() && self.bar == <S52 as Default>::default() && self.ba.rt_top() && (!self.ba.omit() || <S6 as Ty>::def() == Ok(self.ba.clone())) && self.a_long_field_name.rt_top() && self.ab.rt_top() && m_dec_small(self.ab).as_ref() == Ok(&self.ab) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("ba"), V::t("a_long_field_name"), V::t("ab")] }
    fn loose() -> bool { false || <Vec<String> as Ty>::loose() || <S52 as Ty>::loose() || <S6 as Ty>::loose() || <u16 as Ty>::loose() || <u16 as Ty>::loose() }
}
impl Ty for S89 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); S89 { zz: <S49 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <S6 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zz"), self.zz.item())); es.push((V::t("aB"), self.a_long_field_name.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("zz"), V::t("aB")], false)?; Ok(S89 { zz: field::<S49>(m, &V::t("zz"))?, a_long_field_name: field::<S6>(m, &V::t("aB"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.zz.rt_top() && self.a_long_field_name.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("zz"), V::t("aB")] }
    fn loose() -> bool { false || <S49 as Ty>::loose() || <S6 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E0 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E0::Z0(if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), <u16 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1))), 1 => E0::B1 { c: <S49 as Ty>::arb(r, d.saturating_sub(1)), value: <S41 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E0::Gone2 { m: <S33 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E0::Z0(f0, f1, f2, f3) => V::M(vec![(V::t("Z0"), { let mut xs: Vec<V> = vec![]; xs.push(f1.item()); xs.push(f2.item()); xs.push(f3.item()); V::A(xs) })]), E0::B1 { c, value, a_long_field_name } => V::M(vec![(V::int(65535), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("c"), c.item())); es.push((V::t("value"), value.item())); if !m_is_odd(&a_long_field_name) { es.push((V::t("a_long_field_name"), a_long_field_name.item())) } V::M(es) })]), E0::Gone2 { m } => V::M(vec![(V::t("Gone2"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("m"), m.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Z0") { return { let a = elements(v, 3, false)?; Ok(E0::Z0(Default::default(), top::<Vec<AllOpt>>(a.get(0).ok_or(D::Missing)?)?, top::<u16>(a.get(1).ok_or(D::Missing)?)?, top::<bool>(a.get(2).ok_or(D::Missing)?)?)) } } if k == &V::int(65535) { return { let m = entries(v, &[V::t("c"), V::t("value"), V::t("a_long_field_name")], false)?; Ok(E0::B1 { c: field::<S49>(m, &V::t("c"))?, value: field::<S41>(m, &V::t("value"))?, a_long_field_name: field::<u64>(m, &V::t("a_long_field_name"))? }) } } if k == &V::t("Gone2") { return { let m = entries(v, &[V::t("m")], false)?; Ok(E0::Gone2 { m: field::<S33>(m, &V::t("m"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E0::Z0(f0, f1, f2, f3) => (*f0) == <u64 as Default>::default() && (*f1).rt_top() && (*f2).rt_top() && (*f3).rt_top(), E0::B1 { c, value, a_long_field_name } => (*c).rt_top() && (*value).rt_top() && (*a_long_field_name).rt_top() && (!m_is_odd(&(*a_long_field_name)) || <u64 as Ty>::def() == Ok((*a_long_field_name).clone())), E0::Gone2 { m } => (*m).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z0"), V::int(65535), V::t("Gone2"), V::t("f1"), V::t("f2"), V::t("f3"), V::t("c"), V::t("value"), V::t("a_long_field_name"), V::t("m")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <u16 as Ty>::loose() || <bool as Ty>::loose() || <S49 as Ty>::loose() || <S41 as Ty>::loose() || <u64 as Ty>::loose() || <S33 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E1 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E1::A0 { b: <S66 as Ty>::arb(r, d.saturating_sub(1)), z: <i8 as Ty>::arb(r, d.saturating_sub(1)), y: <S23 as Ty>::arb(r, d.saturating_sub(1)), mid: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)) }, _ => E1::A1(<S75 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E1::A0 { b, z, y, mid } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), b.item())); if !z.omit() { es.push((V::int(65536), z.item())) } if !y.omit() { es.push((V::t("quite a long key with more than 23 bytes"), y.item())) } es.push((V::t("mid"), mid.item())); V::M(es) }, V::int(300), V::t("A0")), E1::A1(inner) => with_tag(inner.item(), V::int(300), V::int(18446744073709551615)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(300))?; let v = &v; if k == V::t("A0") { return { let m = entries(v, &[V::t("b"), V::int(65536), V::t("quite a long key with more than 23 bytes"), V::t("mid")], false)?; Ok(E1::A0 { b: field::<S66>(m, &V::t("b"))?, z: field::<i8>(m, &V::int(65536))?, y: field::<S23>(m, &V::t("quite a long key with more than 23 bytes"))?, mid: field::<(u64, bool)>(m, &V::t("mid"))? }) } } if k == V::int(18446744073709551615) { return top::<S75>(v).map(E1::A1) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E1::A0 { b, z, y, mid } => (*b).rt_top() && (*z).rt_top() && (!(*z).omit() || <i8 as Ty>::def() == Ok((*z).clone())) && (*y).rt_top() && (!(*y).omit() || <S23 as Ty>::def() == Ok((*y).clone())) && (*mid).rt_top(), E1::A1(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("A0"), V::int(18446744073709551615), V::t("b"), V::int(65536), V::t("quite a long key with more than 23 bytes"), V::t("mid"), V::int(300)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S75 as Ty>::loose() || <S66 as Ty>::loose() || <i8 as Ty>::loose() || <S23 as Ty>::loose() || <(u64, bool) as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E2 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E2::TheVariantNameOfMoreThan23Bytes0 { z: <S85 as Ty>::arb(r, d.saturating_sub(1)), m: <u64 as Ty>::arb(r, d.saturating_sub(1)), value: <bool as Ty>::arb(r, d.saturating_sub(1)) }, _ => E2::Num1 { another_field_name_longer_than_23: <S45 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E2::TheVariantNameOfMoreThan23Bytes0 { z, m, value } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("value"), z.item())); es.push((V::t("m"), m.item())); es.push((V::int(256), m_enc_not(&value).item())); V::M(es) }, V::int(0), V::int(25)), E2::Num1 { another_field_name_longer_than_23 } => { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(24), another_field_name_longer_than_23.item())); V::M(es) }, } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(0))?; let v = &v; if k == V::int(25) { return { let m = entries(v, &[V::t("value"), V::t("m"), V::int(256)], false)?; Ok(E2::TheVariantNameOfMoreThan23Bytes0 { z: field::<S85>(m, &V::t("value"))?, m: field::<u64>(m, &V::t("m"))?, value: m_dec_not(field::<bool>(m, &V::int(256))?)? }) } } if k == V::t("Num1") || k == V::S(23) { return { let m = entries(v, &[V::int(24)], false)?; Ok(E2::Num1 { another_field_name_longer_than_23: field::<S45>(m, &V::int(24))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E2::TheVariantNameOfMoreThan23Bytes0 { z, m, value } => (*z).rt_top() && (*m).rt_top() && m_enc_not(&(*value)).rt_top() && m_dec_not(m_enc_not(&(*value))).as_ref() == Ok(&(*value)), E2::Num1 { another_field_name_longer_than_23 } => (*another_field_name_longer_than_23).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(25), V::t("Num1"), V::t("value"), V::t("m"), V::int(256), V::int(24), V::int(0)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S85 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <S45 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E3 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E3::LongVariantNameHere0(<S78 as Ty>::arb(r, d.saturating_sub(1))), 1 => E3::LongVariantNameHere1 { bar: <u64 as Ty>::arb(r, d.saturating_sub(1)), first: <S10 as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E3::B2(<S39 as Ty>::arb(r, d.saturating_sub(1))), 3 => E3::Rec3(<S26 as Ty>::arb(r, d.saturating_sub(1))), _ => E3::Free4 { foo: <i64 as Ty>::arb(r, d.saturating_sub(1)), payload: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E3::LongVariantNameHere0(inner) => with_tag(inner.item(), V::t("v"), V::t("quite a long key with more than 23 bytes")), E3::LongVariantNameHere1 { bar, first } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("bar"), m_enc_cap(&bar).item())); if !first.omit() { es.push((V::t("first"), first.item())) } V::M(es) }, V::t("v"), V::t("LongVariantNameHere1")), E3::B2(inner) => with_tag(inner.item(), V::t("v"), V::t("Z")), E3::Rec3(inner) => with_tag(inner.item(), V::t("v"), V::t("Rec3")), E3::Free4 { foo, payload } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !foo.omit() { es.push((V::t("foo"), foo.item())) } es.push((V::t("payload"), payload.item())); V::M(es) }, V::t("v"), V::int(25)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("quite a long key with more than 23 bytes") { return top::<S78>(v).map(E3::LongVariantNameHere0) } if k == V::t("LongVariantNameHere1") { return { let m = entries(v, &[V::t("bar"), V::t("first")], false)?; Ok(E3::LongVariantNameHere1 { bar: field::<u64>(m, &V::t("bar"))?, first: field::<S10>(m, &V::t("first"))? }) } } if k == V::t("Z") { return top::<S39>(v).map(E3::B2) } if k == V::t("Rec3") { return top::<S26>(v).map(E3::Rec3) } if k == V::int(25) { return { let m = entries(v, &[V::t("foo"), V::t("payload")], false)?; Ok(E3::Free4 { foo: field::<i64>(m, &V::t("foo"))?, payload: m_dec_small(field::<u16>(m, &V::t("payload"))?)? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E3::LongVariantNameHere0(inner) => inner.rt_top(), E3::LongVariantNameHere1 { bar, first } => m_enc_cap(&(*bar)).rt_top() && m_enc_cap(&(*bar)) == (*bar) && (*first).rt_top() && (!(*first).omit() || <S10 as Ty>::def() == Ok((*first).clone())), E3::B2(inner) => inner.rt_top(), E3::Rec3(inner) => inner.rt_top(), E3::Free4 { foo, payload } => (*foo).rt_top() && (!(*foo).omit() || <i64 as Ty>::def() == Ok((*foo).clone())) && (*payload).rt_top() && m_dec_small((*payload)).as_ref() == Ok(&(*payload)), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("quite a long key with more than 23 bytes"), V::t("LongVariantNameHere1"), V::t("Z"), V::t("Rec3"), V::int(25), V::t("bar"), V::t("first"), V::t("foo"), V::t("payload"), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S78 as Ty>::loose() || <S39 as Ty>::loose() || <S26 as Ty>::loose() || <u64 as Ty>::loose() || <S10 as Ty>::loose() || <i64 as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E4 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E4::Rec0 { id: <S36 as Ty>::arb(r, d.saturating_sub(1)), zz: <S1 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E4::Rec1, _ => E4::A2, } }
    fn item(&self) -> V { match self { E4::Rec0 { id, zz } => V::M(vec![(V::int(4294967296), { let mut xs: Vec<V> = vec![]; xs.push(id.item()); xs.push(zz.item()); V::A(xs) })]), E4::Rec1 => V::M(vec![(V::int(1), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E4::A2 => V::t(""), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::int(4294967296) { return { let a = elements(v, 2, false)?; Ok(E4::Rec0 { id: top::<S36>(a.get(0).ok_or(D::Missing)?)?, zz: top::<S1>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::int(1) { return unit(v, false).map(|_| E4::Rec1) } } _ => { if *v == V::t("") { return Ok(E4::A2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E4::Rec0 { id, zz } => (*id).rt_top() && (*zz).rt_top(), E4::Rec1 => true, E4::A2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(4294967296), V::int(1), V::t("id"), V::t("zz")] }
    fn others() -> Vec<V> { vec![V::t("")] }
    fn loose() -> bool { false || <S36 as Ty>::loose() || <S1 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E5 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E5::LongVariantNameHere0, 1 => E5::Rec1, _ => E5::Tuple2, } }
    fn item(&self) -> V { match self { E5::LongVariantNameHere0 => V::int(3), E5::Rec1 => V::t("Rec1"), E5::Tuple2 => V::t("Tuple2"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(3) { return Ok(E5::LongVariantNameHere0) } if *v == V::t("Rec1") { return Ok(E5::Rec1) } if *v == V::t("Tuple2") { return Ok(E5::Tuple2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E5::LongVariantNameHere0 => true, E5::Rec1 => true, E5::Tuple2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(3), V::t("Rec1"), V::t("Tuple2")] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E6 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E6::Z2, } }
    fn item(&self) -> V { match self { E6::Z2 => V::int(-25), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(-25) { return Ok(E6::Z2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E6::Z2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(-25)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E7 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E7::Other0(<S61 as Ty>::arb(r, d.saturating_sub(1)), <S33 as Ty>::arb(r, d.saturating_sub(1)), <bool as Ty>::arb(r, d.saturating_sub(1)), <Option<S1> as Ty>::arb(r, d.saturating_sub(1))), 1 => E7::Z1(<Option<Plain> as Ty>::arb(r, d.saturating_sub(1)), <i64 as Ty>::arb(r, d.saturating_sub(1))), 2 => E7::A2, 3 => E7::Gone3, _ => E7::LongVariantNameHere4, } }
    fn item(&self) -> V { match self { E7::Other0(f0, f1, f2, f3) => V::M(vec![(V::t("Other0"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); xs.push(m_enc_not(&f2).item()); xs.push(f3.item()); V::A(xs) })]), E7::Z1(f0, f1) => V::M(vec![(V::t("A"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), E7::A2 => V::t("A2"), E7::Gone3 => V::M(vec![(V::t("a"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E7::LongVariantNameHere4 => V::M(vec![(V::t("Z"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Other0") { return { let a = elements(v, 4, false)?; Ok(E7::Other0(top::<S61>(a.get(0).ok_or(D::Missing)?)?, top::<S33>(a.get(1).ok_or(D::Missing)?)?, m_dec_not(top::<bool>(a.get(2).ok_or(D::Missing)?)?)?, top::<Option<S1>>(a.get(3).ok_or(D::Missing)?)?)) } } if k == &V::t("A") { return { let a = elements(v, 2, false)?; Ok(E7::Z1(top::<Option<Plain>>(a.get(0).ok_or(D::Missing)?)?, top::<i64>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("a") { return unit(v, false).map(|_| E7::Gone3) } if k == &V::t("Z") { return unit(v, true).map(|_| E7::LongVariantNameHere4) } } _ => { if *v == V::t("A2") { return Ok(E7::A2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E7::Other0(f0, f1, f2, f3) => (*f0).rt_top() && (*f1).rt_top() && m_enc_not(&(*f2)).rt_top() && m_dec_not(m_enc_not(&(*f2))).as_ref() == Ok(&(*f2)) && (*f3).rt_top(), E7::Z1(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), E7::A2 => true, E7::Gone3 => true, E7::LongVariantNameHere4 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Other0"), V::t("A"), V::t("a"), V::t("Z"), V::t("f0"), V::t("f1"), V::t("f2"), V::t("f3")] }
    fn others() -> Vec<V> { vec![V::t("A2")] }
    fn loose() -> bool { true || <S61 as Ty>::loose() || <S33 as Ty>::loose() || <bool as Ty>::loose() || <Option<S1> as Ty>::loose() || <Option<Plain> as Ty>::loose() || <i64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E8 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E8::TheVariantNameOfMoreThan23Bytes0(<S41 as Ty>::arb(r, d.saturating_sub(1))), 1 => E8::Num1 { zz: <S23 as Ty>::arb(r, d.saturating_sub(1)), id: <u8 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E8::B2 { n: <S67 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E8::TheVariantNameOfMoreThan23Bytes0(inner) => with_tag(inner.item(), V::int(0), V::t("TheVariantNameOfMoreThan23Bytes0")), E8::Num1 { zz, id } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zz"), zz.item())); es.push((V::int(25), id.item())); V::M(es) }, V::int(0), V::t("Num1")), E8::B2 { n } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !n.omit() { es.push((V::int(4294967296), n.item())) } V::M(es) }, V::int(0), V::t("B2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(0))?; let v = &v; if k == V::t("TheVariantNameOfMoreThan23Bytes0") { return top::<S41>(v).map(E8::TheVariantNameOfMoreThan23Bytes0) } if k == V::t("Num1") { return { let m = entries(v, &[V::t("zz"), V::int(25)], true)?; Ok(E8::Num1 { zz: field::<S23>(m, &V::t("zz"))?, id: field::<u8>(m, &V::int(25))? }) } } if k == V::t("B2") { return { let m = entries(v, &[V::int(4294967296)], false)?; Ok(E8::B2 { n: field::<S67>(m, &V::int(4294967296))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E8::TheVariantNameOfMoreThan23Bytes0(inner) => inner.rt_top(), E8::Num1 { zz, id } => (*zz).rt_top() && (*id).rt_top(), E8::B2 { n } => (*n).rt_top() && (!(*n).omit() || <S67 as Ty>::def() == Ok((*n).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("TheVariantNameOfMoreThan23Bytes0"), V::t("Num1"), V::t("B2"), V::t("zz"), V::int(25), V::int(4294967296), V::int(0)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S41 as Ty>::loose() || <S23 as Ty>::loose() || <u8 as Ty>::loose() || <S67 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E9 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E9::Rec0(<Plain as Ty>::arb(r, d.saturating_sub(1))), 1 => E9::C1 { kind: <u64 as Ty>::arb(r, d.saturating_sub(1)), a: <u64 as Ty>::arb(r, d.saturating_sub(1)), c: <S36 as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E9::Num2 { foo: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E9::Z3 {  }, } }
    fn item(&self) -> V { match self { E9::Rec0(inner) => with_tag(inner.item(), V::t("mm"), V::t("quite a long key with more than 23 bytes")), E9::C1 { kind, a, c } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !m_is_zero(&kind) { es.push((V::t("kind"), kind.item())) } es.push((V::t("A"), m_enc_plus(&a).item())); es.push((V::t("c"), c.item())); V::M(es) }, V::t("mm"), V::t("C1")), E9::Num2 { foo } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !foo.omit() { es.push((V::int(4294967295), foo.item())) } V::M(es) }, V::t("mm"), V::t("Num2")), E9::Z3 {  } => { let mut es: Vec<(V, V)> = vec![]; V::M(es) }, } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("mm"))?; let v = &v; if k == V::t("quite a long key with more than 23 bytes") { return top::<Plain>(v).map(E9::Rec0) } if k == V::t("C1") { return { let m = entries(v, &[V::t("kind"), V::t("A"), V::t("c")], false)?; Ok(E9::C1 { kind: field::<u64>(m, &V::t("kind"))?, a: m_dec_plus(field::<u128>(m, &V::t("A"))?)?, c: field::<S36>(m, &V::t("c"))? }) } } if k == V::t("Num2") { return { let m = entries(v, &[V::int(4294967295)], false)?; Ok(E9::Num2 { foo: m_dec_small(field::<u16>(m, &V::int(4294967295))?)? }) } } if k == V::int(100) || k == V::S(23) { return { let m = entries(v, &[], false)?; Ok(E9::Z3 {  }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E9::Rec0(inner) => inner.rt_top(), E9::C1 { kind, a, c } => (*kind).rt_top() && (!m_is_zero(&(*kind)) || <u64 as Ty>::def() == Ok((*kind).clone())) && m_enc_plus(&(*a)).rt_top() && m_dec_plus(m_enc_plus(&(*a))).as_ref() == Ok(&(*a)) && (*c).rt_top(), E9::Num2 { foo } => (*foo).rt_top() && m_dec_small((*foo)).as_ref() == Ok(&(*foo)) && (!(*foo).omit() || <u16 as Ty>::def() == Ok((*foo).clone())), E9::Z3 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("quite a long key with more than 23 bytes"), V::t("C1"), V::t("Num2"), V::int(100), V::t("kind"), V::t("A"), V::t("c"), V::int(4294967295), V::t("mm")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Plain as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <S36 as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E10 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E10::Gone0(<E5 as Ty>::arb(r, d.saturating_sub(1))), 1 => E10::Other1, 2 => E10::Gone2 { offset: <S49 as Ty>::arb(r, d.saturating_sub(1)), kind: <bool as Ty>::arb(r, d.saturating_sub(1)), y: <bool as Ty>::arb(r, d.saturating_sub(1)) }, _ => E10::Gone3 { kind: if r.p(1, 2) { Default::default() } else { <S26 as Ty>::arb(r, d) }, id: <Vec<E3> as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E10::Gone0(inner) => inner.item(), E10::Other1 => V::t("Other1"), E10::Gone2 { offset, kind, y } => V::M(vec![(V::int(4294967296), { let mut xs: Vec<V> = vec![]; xs.push(offset.item()); xs.push(m_enc_not(&kind).item()); xs.push(y.item()); V::A(xs) })]), E10::Gone3 { kind, id } => V::M(vec![(V::t("Gone3"), { let mut es: Vec<(V, V)> = vec![]; if !id.omit() { es.push((V::t("id"), id.item())) } V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::int(4294967296) { return { let a = elements(v, 3, false)?; Ok(E10::Gone2 { offset: top::<S49>(a.get(0).ok_or(D::Missing)?)?, kind: m_dec_not(top::<bool>(a.get(1).ok_or(D::Missing)?)?)?, y: top::<bool>(a.get(2).ok_or(D::Missing)?)? }) } } if k == &V::t("Gone3") { return { let m = entries(v, &[V::t("id")], false)?; Ok(E10::Gone3 { kind: Default::default(), id: field::<Vec<E3>>(m, &V::t("id"))? }) } } if let Ok(x) = top::<E5>(whole) { return Ok(E10::Gone0(x)) } } _ => { if *v == V::t("Other1") { return Ok(E10::Other1) } if let Ok(x) = top::<E5>(whole) { return Ok(E10::Gone0(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E10::Gone0(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E10::Other1 => true, E10::Gone2 { offset, kind, y } => (*offset).rt_top() && m_enc_not(&(*kind)).rt_top() && m_dec_not(m_enc_not(&(*kind))).as_ref() == Ok(&(*kind)) && (*y).rt_top(), E10::Gone3 { kind, id } => (*kind) == <S26 as Default>::default() && (*id).rt_top() && (!(*id).omit() || <Vec<E3> as Ty>::def() == Ok((*id).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(4294967296), V::t("Gone3"), V::t("offset"), V::t("kind"), V::t("y"), V::t("id")] }
    fn others() -> Vec<V> { vec![V::t("Other1")] }
    fn loose() -> bool { false || <E5 as Ty>::loose() || <S49 as Ty>::loose() || <bool as Ty>::loose() || <bool as Ty>::loose() || <S26 as Ty>::loose() || <Vec<E3> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E11 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E11::Rec0(<S15 as Ty>::arb(r, d.saturating_sub(1))), _ => E11::A1 { bar: <Option<Plain> as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E11::Rec0(inner) => with_tag(inner.item(), V::t("v"), V::t("Rec0")), E11::A1 { bar } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !bar.omit() { es.push((V::int(23), bar.item())) } V::M(es) }, V::t("v"), V::t("A1")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("Rec0") { return top::<S15>(v).map(E11::Rec0) } if k == V::t("A1") { return { let m = entries(v, &[V::int(23)], false)?; Ok(E11::A1 { bar: field::<Option<Plain>>(m, &V::int(23))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E11::Rec0(inner) => inner.rt_top(), E11::A1 { bar } => (*bar).rt_top() && (!(*bar).omit() || <Option<Plain> as Ty>::def() == Ok((*bar).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Rec0"), V::t("A1"), V::int(23), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S15 as Ty>::loose() || <Option<Plain> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E12 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E12::Z0(<S43 as Ty>::arb(r, d.saturating_sub(1)), <S26 as Ty>::arb(r, d.saturating_sub(1))), 1 => E12::Free1, _ => E12::Gone2 { zz: <Option<S55> as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E12::Z0(f0, f1) => V::M(vec![(V::t("Z0"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), E12::Free1 => V::M(vec![(V::t("Free1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E12::Gone2 { zz } => V::M(vec![(V::int(25), { let mut es: Vec<(V, V)> = vec![]; if !zz.omit() { es.push((V::t("quite a long key with more than 23 bytes"), zz.item())) } V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Z0") { return { let a = elements(v, 2, false)?; Ok(E12::Z0(top::<S43>(a.get(0).ok_or(D::Missing)?)?, top::<S26>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("Free1") { return unit(v, true).map(|_| E12::Free1) } if k == &V::int(25) { return { let m = entries(v, &[V::t("quite a long key with more than 23 bytes")], false)?; Ok(E12::Gone2 { zz: field::<Option<S55>>(m, &V::t("quite a long key with more than 23 bytes"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E12::Z0(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), E12::Free1 => true, E12::Gone2 { zz } => (*zz).rt_top() && (!(*zz).omit() || <Option<S55> as Ty>::def() == Ok((*zz).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z0"), V::t("Free1"), V::int(25), V::t("f0"), V::t("f1"), V::t("quite a long key with more than 23 bytes")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S43 as Ty>::loose() || <S26 as Ty>::loose() || <Option<S55> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E13 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E13::Other0 { a_long_field_name: if r.p(1, 2) { Default::default() } else { <S9 as Ty>::arb(r, d) }, aa: <E1 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E13::Rec1, 2 => E13::TheVariantNameOfMoreThan23Bytes2, 3 => E13::C3(<u64 as Ty>::arb(r, d.saturating_sub(1)), <i8 as Ty>::arb(r, d.saturating_sub(1))), _ => E13::Other4(<u64 as Ty>::arb(r, d.saturating_sub(1)), <S70 as Ty>::arb(r, d.saturating_sub(1)), <S21 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E13::Other0 { a_long_field_name, aa } => V::M(vec![(V::t("Other0"), { let mut xs: Vec<V> = vec![]; xs.push(aa.item()); V::A(xs) })]), E13::Rec1 => V::M(vec![(V::t("Rec1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E13::TheVariantNameOfMoreThan23Bytes2 => V::int(65536), E13::C3(f0, f1) => V::M(vec![(V::t("C3"), { let mut xs: Vec<V> = vec![]; xs.push(m_enc_plus(&f0).item()); xs.push(f1.item()); V::A(xs) })]), E13::Other4(f0, f1, f2) => V::M(vec![(V::int(256), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); xs.push(f2.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Other0") { return { let a = elements(v, 1, false)?; Ok(E13::Other0 { a_long_field_name: Default::default(), aa: top::<E1>(a.get(0).ok_or(D::Missing)?)? }) } } if k == &V::t("Rec1") { return unit(v, true).map(|_| E13::Rec1) } if k == &V::t("C3") { return { let a = elements(v, 2, false)?; Ok(E13::C3(m_dec_plus(top::<u128>(a.get(0).ok_or(D::Missing)?)?)?, top::<i8>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::int(256) { return { let a = elements(v, 3, false)?; Ok(E13::Other4(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<S70>(a.get(1).ok_or(D::Missing)?)?, top::<S21>(a.get(2).ok_or(D::Missing)?)?)) } } } _ => { if *v == V::int(65536) { return Ok(E13::TheVariantNameOfMoreThan23Bytes2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E13::Other0 { a_long_field_name, aa } => (*a_long_field_name) == <S9 as Default>::default() && (*aa).rt_top(), E13::Rec1 => true, E13::TheVariantNameOfMoreThan23Bytes2 => true, E13::C3(f0, f1) => m_enc_plus(&(*f0)).rt_top() && m_dec_plus(m_enc_plus(&(*f0))).as_ref() == Ok(&(*f0)) && (*f1).rt_top(), E13::Other4(f0, f1, f2) => (*f0).rt_top() && (*f1).rt_top() && (*f2).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Other0"), V::t("Rec1"), V::t("C3"), V::int(256), V::t("aa"), V::t("f0"), V::t("f1"), V::t("f2")] }
    fn others() -> Vec<V> { vec![V::int(65536)] }
    fn loose() -> bool { true || <S9 as Ty>::loose() || <E1 as Ty>::loose() || <u64 as Ty>::loose() || <i8 as Ty>::loose() || <u64 as Ty>::loose() || <S70 as Ty>::loose() || <S21 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E14 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E14::Gone0(<S41 as Ty>::arb(r, d.saturating_sub(1))), 1 => E14::C1 { m: <BTreeMap<String, u8> as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <E12 as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: if r.p(1, 2) { Default::default() } else { <Option<u64> as Ty>::arb(r, d) } }, _ => E14::Rec2 { zz: <S83 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E14::Gone0(inner) => with_tag(inner.item(), V::int(0), V::t("Gone0")), E14::C1 { m, field_name_of_23_bytes_x, another_field_name_longer_than_23 } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("quite a long key with more than 23 bytes"), m.item())); es.push((V::t("field_name_of_23_bytes_x"), field_name_of_23_bytes_x.item())); V::M(es) }, V::int(0), V::int(65536)), E14::Rec2 { zz } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zz"), zz.item())); V::M(es) }, V::int(0), V::int(2)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(0))?; let v = &v; if k == V::t("Gone0") { return top::<S41>(v).map(E14::Gone0) } if k == V::int(65536) { return { let m = entries(v, &[V::t("quite a long key with more than 23 bytes"), V::t("field_name_of_23_bytes_x")], false)?; Ok(E14::C1 { m: field::<BTreeMap<String, u8>>(m, &V::t("quite a long key with more than 23 bytes"))?, field_name_of_23_bytes_x: field::<E12>(m, &V::t("field_name_of_23_bytes_x"))?, another_field_name_longer_than_23: Default::default() }) } } if k == V::int(2) { return { let m = entries(v, &[V::t("zz")], false)?; Ok(E14::Rec2 { zz: field::<S83>(m, &V::t("zz"))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E14::Gone0(inner) => inner.rt_top(), E14::C1 { m, field_name_of_23_bytes_x, another_field_name_longer_than_23 } => (*m).rt_top() && (*field_name_of_23_bytes_x).rt_top() && (*another_field_name_longer_than_23) == <Option<u64> as Default>::default(), E14::Rec2 { zz } => (*zz).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Gone0"), V::int(65536), V::int(2), V::t("quite a long key with more than 23 bytes"), V::t("field_name_of_23_bytes_x"), V::t("zz"), V::int(0)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S41 as Ty>::loose() || <BTreeMap<String, u8> as Ty>::loose() || <E12 as Ty>::loose() || <Option<u64> as Ty>::loose() || <S83 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E15 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E15::Free3, } }
    fn item(&self) -> V { match self { E15::Free3 => V::int(-1), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(-1) { return Ok(E15::Free3) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E15::Free3 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(-1)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E16 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E16::Gone0 {  }, 1 => E16::C1 {  }, _ => E16::TheVariantNameOfMoreThan23Bytes2 { ba: <u64 as Ty>::arb(r, d.saturating_sub(1)), mid: <u64 as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <String as Ty>::arb(r, d.saturating_sub(1)), second: if r.p(1, 2) { Default::default() } else { <Option<S55> as Ty>::arb(r, d) } }, } }
    fn item(&self) -> V { match self { E16::Gone0 {  } => { let mut es: Vec<(V, V)> = vec![]; V::M(es) }, E16::C1 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("mode"), V::t("C1")), E16::TheVariantNameOfMoreThan23Bytes2 { ba, mid, another_field_name_longer_than_23, second } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("ba"), m_enc_cap(&ba).item())); if !m_is_odd(&mid) { es.push((V::t("mid"), mid.item())) } es.push((V::t("another_field_name_longer_than_23"), another_field_name_longer_than_23.item())); V::M(es) }, V::t("mode"), V::t("TheVariantNameOfMoreThan23Bytes2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("mode"))?; let v = &v; if k == V::t("Gone0") || k == V::S(23) { return { let m = entries(v, &[], false)?; Ok(E16::Gone0 {  }) } } if k == V::t("C1") { return { let m = entries(v, &[], false)?; Ok(E16::C1 {  }) } } if k == V::t("TheVariantNameOfMoreThan23Bytes2") { return { let m = entries(v, &[V::t("ba"), V::t("mid"), V::t("another_field_name_longer_than_23")], false)?; Ok(E16::TheVariantNameOfMoreThan23Bytes2 { ba: field::<u64>(m, &V::t("ba"))?, mid: field::<u64>(m, &V::t("mid"))?, another_field_name_longer_than_23: field::<String>(m, &V::t("another_field_name_longer_than_23"))?, second: Default::default() }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E16::Gone0 {  } => true, E16::C1 {  } => true, E16::TheVariantNameOfMoreThan23Bytes2 { ba, mid, another_field_name_longer_than_23, second } => m_enc_cap(&(*ba)).rt_top() && m_enc_cap(&(*ba)) == (*ba) && (*mid).rt_top() && (!m_is_odd(&(*mid)) || <u64 as Ty>::def() == Ok((*mid).clone())) && (*another_field_name_longer_than_23).rt_top() && (*second) == <Option<S55> as Default>::default(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Gone0"), V::t("C1"), V::t("TheVariantNameOfMoreThan23Bytes2"), V::t("ba"), V::t("mid"), V::t("another_field_name_longer_than_23"), V::t("mode")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <String as Ty>::loose() || <Option<S55> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E17 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E17::Tuple0 { second: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), payload: <String as Ty>::arb(r, d.saturating_sub(1)), foo: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E17::Rec1 { payload: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E17::Gone2(<S62 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <Vec<u8> as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E17::Tuple0 { second, payload, foo } => V::M(vec![(V::int(65535), { let mut xs: Vec<V> = vec![]; xs.push(second.item()); xs.push(payload.item()); xs.push(foo.item()); V::A(xs) })]), E17::Rec1 { payload } => V::M(vec![(V::t("Rec1"), { let mut es: Vec<(V, V)> = vec![]; if !m_is_odd(&payload) { es.push((V::t("payload"), payload.item())) } V::M(es) })]), E17::Gone2(f0, f1, f2) => V::M(vec![(V::t("Gone2"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); xs.push(f2.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::int(65535) { return { let a = elements(v, 3, true)?; Ok(E17::Tuple0 { second: top::<Option<bool>>(a.get(0).ok_or(D::Missing)?)?, payload: top::<String>(a.get(1).ok_or(D::Missing)?)?, foo: top::<Option<String>>(a.get(2).ok_or(D::Missing)?)? }) } } if k == &V::t("Rec1") { return { let m = entries(v, &[V::t("payload")], false)?; Ok(E17::Rec1 { payload: field::<u64>(m, &V::t("payload"))? }) } } if k == &V::t("Gone2") { return { let a = elements(v, 3, false)?; Ok(E17::Gone2(top::<S62>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?, top::<Vec<u8>>(a.get(2).ok_or(D::Missing)?)?)) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E17::Tuple0 { second, payload, foo } => (*second).rt_top() && (*payload).rt_top() && (*foo).rt_top(), E17::Rec1 { payload } => (*payload).rt_top() && (!m_is_odd(&(*payload)) || <u64 as Ty>::def() == Ok((*payload).clone())), E17::Gone2(f0, f1, f2) => (*f0).rt_top() && (*f1).rt_top() && (*f2).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(65535), V::t("Rec1"), V::t("Gone2"), V::t("second"), V::t("payload"), V::t("foo"), V::t("f0"), V::t("f1"), V::t("f2")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <Option<bool> as Ty>::loose() || <String as Ty>::loose() || <Option<String> as Ty>::loose() || <u64 as Ty>::loose() || <S62 as Ty>::loose() || <u64 as Ty>::loose() || <Vec<u8> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E18 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E18::LongVariantNameHere0, _ => E18::Rec1 { n: <S41 as Ty>::arb(r, d.saturating_sub(1)), second: <S0 as Ty>::arb(r, d.saturating_sub(1)), payload: <i64 as Ty>::arb(r, d.saturating_sub(1)), value: <S83 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E18::LongVariantNameHere0 => V::M(vec![(V::t("LongVariantNameHere0"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E18::Rec1 { n, second, payload, value } => V::M(vec![(V::t("x y"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("n"), n.item())); es.push((V::t("second"), second.item())); es.push((V::t("zz"), payload.item())); es.push((V::t("value"), value.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere0") { return unit(v, false).map(|_| E18::LongVariantNameHere0) } if k == &V::t("x y") { return { let m = entries(v, &[V::t("n"), V::t("second"), V::t("zz"), V::t("value")], false)?; Ok(E18::Rec1 { n: field::<S41>(m, &V::t("n"))?, second: field::<S0>(m, &V::t("second"))?, payload: field::<i64>(m, &V::t("zz"))?, value: field::<S83>(m, &V::t("value"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E18::LongVariantNameHere0 => true, E18::Rec1 { n, second, payload, value } => (*n).rt_top() && (*second).rt_top() && (*payload).rt_top() && (*value).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere0"), V::t("x y"), V::t("n"), V::t("second"), V::t("zz"), V::t("value")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S41 as Ty>::loose() || <S0 as Ty>::loose() || <i64 as Ty>::loose() || <S83 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E19 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E19::Other0 { mid: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <Option<S59> as Ty>::arb(r, d.saturating_sub(1)), aa: <Option<S41> as Ty>::arb(r, d.saturating_sub(1)), name: <S52 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E19::A1 { name: <Vec<E7> as Ty>::arb(r, d.saturating_sub(1)), bar: <Value as Ty>::arb(r, d.saturating_sub(1)), z: <S58 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E19::Other0 { mid, another_field_name_longer_than_23, aa, name } => V::M(vec![(V::t("Other0"), { let mut es: Vec<(V, V)> = vec![]; if !mid.omit() { es.push((V::t(""), mid.item())) } es.push((V::t("B"), another_field_name_longer_than_23.item())); es.push((V::t("aa"), aa.item())); es.push((V::t("name"), name.item())); V::M(es) })]), E19::A1 { name, bar, z } => V::M(vec![(V::t("A1"), { let mut xs: Vec<V> = vec![]; xs.push(name.item()); xs.push(bar.item()); xs.push(z.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Other0") { return { let m = entries(v, &[V::t(""), V::t("B"), V::t("aa"), V::t("name")], false)?; Ok(E19::Other0 { mid: field::<Vec<AllOpt>>(m, &V::t(""))?, another_field_name_longer_than_23: field::<Option<S59>>(m, &V::t("B"))?, aa: field::<Option<S41>>(m, &V::t("aa"))?, name: field::<S52>(m, &V::t("name"))? }) } } if k == &V::t("A1") { return { let a = elements(v, 3, false)?; Ok(E19::A1 { name: top::<Vec<E7>>(a.get(0).ok_or(D::Missing)?)?, bar: top::<Value>(a.get(1).ok_or(D::Missing)?)?, z: top::<S58>(a.get(2).ok_or(D::Missing)?)? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E19::Other0 { mid, another_field_name_longer_than_23, aa, name } => (*mid).rt_top() && (!(*mid).omit() || <Vec<AllOpt> as Ty>::def() == Ok((*mid).clone())) && (*another_field_name_longer_than_23).rt_top() && (*aa).rt_top() && (*name).rt_top(), E19::A1 { name, bar, z } => (*name).rt_top() && (*bar).rt_top() && (*z).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Other0"), V::t("A1"), V::t(""), V::t("B"), V::t("aa"), V::t("name"), V::t("bar"), V::t("z")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Vec<AllOpt> as Ty>::loose() || <Option<S59> as Ty>::loose() || <Option<S41> as Ty>::loose() || <S52 as Ty>::loose() || <Vec<E7> as Ty>::loose() || <Value as Ty>::loose() || <S58 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E20 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E20::B0 { name: <Vec<u16> as Ty>::arb(r, d.saturating_sub(1)), z: <Option<S55> as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E20::Num1, 2 => E20::Tuple2, _ => E20::Rec3(<Vec<String> as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E20::B0 { name, z } => V::M(vec![(V::t("B0"), { let mut xs: Vec<V> = vec![]; xs.push(name.item()); xs.push(z.item()); V::A(xs) })]), E20::Num1 => V::t("Num1"), E20::Tuple2 => V::M(vec![(V::t("Tuple2"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E20::Rec3(inner) => V::M(vec![(V::t("Rec3"), inner.item())]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("B0") { return { let a = elements(v, 2, false)?; Ok(E20::B0 { name: top::<Vec<u16>>(a.get(0).ok_or(D::Missing)?)?, z: top::<Option<S55>>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::t("Tuple2") { return unit(v, false).map(|_| E20::Tuple2) } if k == &V::t("Rec3") { return top::<Vec<String>>(v).map(E20::Rec3) } } _ => { if *v == V::t("Num1") { return Ok(E20::Num1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E20::B0 { name, z } => (*name).rt_top() && (*z).rt_top(), E20::Num1 => true, E20::Tuple2 => true, E20::Rec3(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("B0"), V::t("Tuple2"), V::t("Rec3"), V::t("name"), V::t("z")] }
    fn others() -> Vec<V> { vec![V::t("Num1")] }
    fn loose() -> bool { false || <Vec<String> as Ty>::loose() || <Vec<u16> as Ty>::loose() || <Option<S55> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E21 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E21::Num0 { a: <S6 as Ty>::arb(r, d.saturating_sub(1)), value: <S45 as Ty>::arb(r, d.saturating_sub(1)), ba: <bool as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E21::Gone1(<bool as Ty>::arb(r, d.saturating_sub(1))), _ => E21::Gone2, } }
    fn item(&self) -> V { match self { E21::Num0 { a, value, ba, field_name_of_23_bytes_x } => V::M(vec![(V::t("Num0"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); es.push((V::t("value"), value.item())); es.push((V::t("ba"), m_enc_not(&ba).item())); es.push((V::t("field_name_of_23_bytes_x"), field_name_of_23_bytes_x.item())); V::M(es) })]), E21::Gone1(inner) => V::M(vec![(V::t("Gone1"), inner.item())]), E21::Gone2 => V::M(vec![(V::int(65536), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num0") { return { let m = entries(v, &[V::t("a"), V::t("value"), V::t("ba"), V::t("field_name_of_23_bytes_x")], false)?; Ok(E21::Num0 { a: field::<S6>(m, &V::t("a"))?, value: field::<S45>(m, &V::t("value"))?, ba: m_dec_not(field::<bool>(m, &V::t("ba"))?)?, field_name_of_23_bytes_x: m_dec_small(field::<u16>(m, &V::t("field_name_of_23_bytes_x"))?)? }) } } if k == &V::t("Gone1") { return top::<bool>(v).map(E21::Gone1) } if k == &V::int(65536) { return unit(v, false).map(|_| E21::Gone2) } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E21::Num0 { a, value, ba, field_name_of_23_bytes_x } => (*a).rt_top() && (*value).rt_top() && m_enc_not(&(*ba)).rt_top() && m_dec_not(m_enc_not(&(*ba))).as_ref() == Ok(&(*ba)) && (*field_name_of_23_bytes_x).rt_top() && m_dec_small((*field_name_of_23_bytes_x)).as_ref() == Ok(&(*field_name_of_23_bytes_x)), E21::Gone1(inner) => inner.rt_top(), E21::Gone2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("Gone1"), V::int(65536), V::t("a"), V::t("value"), V::t("ba"), V::t("field_name_of_23_bytes_x")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <S6 as Ty>::loose() || <S45 as Ty>::loose() || <bool as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E22 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E22::A1, } }
    fn item(&self) -> V { match self { E22::A1 => V::int(1), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(1) { return Ok(E22::A1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E22::A1 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(1)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E23 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E23::Tuple2, } }
    fn item(&self) -> V { match self { E23::Tuple2 => V::int(24), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(24) { return Ok(E23::Tuple2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E23::Tuple2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(24)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E24 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E24::C0(<S43 as Ty>::arb(r, d.saturating_sub(1))), 1 => E24::Z1(<Child as Ty>::arb(r, d.saturating_sub(1))), 2 => E24::Free2(<S17 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1)), <Option<S59> as Ty>::arb(r, d.saturating_sub(1))), 3 => E24::Num3(<Vec<E7> as Ty>::arb(r, d.saturating_sub(1))), _ => E24::Other4, } }
    fn item(&self) -> V { match self { E24::C0(inner) => V::M(vec![(V::t("C0"), inner.item())]), E24::Z1(inner) => inner.item(), E24::Free2(f0, f1, f2) => V::M(vec![(V::t("Free2"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(m_enc_cap(&f1).item()); xs.push(f2.item()); V::A(xs) })]), E24::Num3(inner) => V::M(vec![(V::t("Num3"), inner.item())]), E24::Other4 => V::t("Other4"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("C0") { return top::<S43>(v).map(E24::C0) } if k == &V::t("Free2") { return { let a = elements(v, 3, false)?; Ok(E24::Free2(top::<S17>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?, top::<Option<S59>>(a.get(2).ok_or(D::Missing)?)?)) } } if k == &V::t("Num3") { return top::<Vec<E7>>(v).map(E24::Num3) } if let Ok(x) = top::<Child>(whole) { return Ok(E24::Z1(x)) } } _ => { if *v == V::t("Other4") { return Ok(E24::Other4) } if let Ok(x) = top::<Child>(whole) { return Ok(E24::Z1(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E24::C0(inner) => inner.rt_top(), E24::Z1(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E24::Free2(f0, f1, f2) => (*f0).rt_top() && m_enc_cap(&(*f1)).rt_top() && m_enc_cap(&(*f1)) == (*f1) && (*f2).rt_top(), E24::Num3(inner) => inner.rt_top(), E24::Other4 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("C0"), V::t("Free2"), V::t("Num3"), V::t("f0"), V::t("f1"), V::t("f2")] }
    fn others() -> Vec<V> { vec![V::t("Other4")] }
    fn loose() -> bool { false || <S43 as Ty>::loose() || <Child as Ty>::loose() || <Vec<E7> as Ty>::loose() || <S17 as Ty>::loose() || <u64 as Ty>::loose() || <Option<S59> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E25 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E25::Num0 { m: if r.p(1, 2) { Default::default() } else { <Vec<E17> as Ty>::arb(r, d) }, payload: <bool as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <u64 as Ty>::arb(r, d.saturating_sub(1)), z: if r.p(1, 2) { Default::default() } else { <Unit as Ty>::arb(r, d) } }, _ => E25::LongVariantNameHere1, } }
    fn item(&self) -> V { match self { E25::Num0 { m, payload, field_name_of_24_bytes_xy, z } => V::M(vec![(V::t("Num0"), { let mut es: Vec<(V, V)> = vec![]; if !m_enc_not(&payload).omit() { es.push((V::t("payload"), m_enc_not(&payload).item())) } if !m_enc_cap(&field_name_of_24_bytes_xy).omit() { es.push((V::int(2), m_enc_cap(&field_name_of_24_bytes_xy).item())) } V::M(es) })]), E25::LongVariantNameHere1 => V::t("tag"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num0") { return { let m = entries(v, &[V::t("payload"), V::int(2)], true)?; Ok(E25::Num0 { m: Default::default(), payload: m_dec_not(field::<bool>(m, &V::t("payload"))?)?, field_name_of_24_bytes_xy: field::<u64>(m, &V::int(2))?, z: Default::default() }) } } } _ => { if *v == V::t("tag") { return Ok(E25::LongVariantNameHere1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E25::Num0 { m, payload, field_name_of_24_bytes_xy, z } => (*m) == <Vec<E17> as Default>::default() && m_enc_not(&(*payload)).rt_top() && m_dec_not(m_enc_not(&(*payload))).as_ref() == Ok(&(*payload)) && (!m_enc_not(&(*payload)).omit() || <bool as Ty>::def() == Ok(m_enc_not(&(*payload)).clone())) && m_enc_cap(&(*field_name_of_24_bytes_xy)).rt_top() && m_enc_cap(&(*field_name_of_24_bytes_xy)) == (*field_name_of_24_bytes_xy) && (!m_enc_cap(&(*field_name_of_24_bytes_xy)).omit() || <u64 as Ty>::def() == Ok(m_enc_cap(&(*field_name_of_24_bytes_xy)).clone())) && (*z) == <Unit as Default>::default(), E25::LongVariantNameHere1 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("payload"), V::int(2)] }
    fn others() -> Vec<V> { vec![V::t("tag")] }
    fn loose() -> bool { true || <Vec<E17> as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() || <Unit as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E26 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E26::Other1, } }
    fn item(&self) -> V { match self { E26::Other1 => V::int(1), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(1) { return Ok(E26::Other1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E26::Other1 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(1)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E27 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E27::A0, 1 => E27::LongVariantNameHere1, 2 => E27::Z2, _ => E27::Num3(<E17 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E27::A0 => V::t(""), E27::LongVariantNameHere1 => V::M(vec![(V::t("LongVariantNameHere1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E27::Z2 => V::M(vec![(V::t("a"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E27::Num3(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere1") { return unit(v, false).map(|_| E27::LongVariantNameHere1) } if k == &V::t("a") { return unit(v, true).map(|_| E27::Z2) } if let Ok(x) = top::<E17>(whole) { return Ok(E27::Num3(x)) } } _ => { if *v == V::t("") { return Ok(E27::A0) } if let Ok(x) = top::<E17>(whole) { return Ok(E27::Num3(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E27::A0 => true, E27::LongVariantNameHere1 => true, E27::Z2 => true, E27::Num3(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere1"), V::t("a")] }
    fn others() -> Vec<V> { vec![V::t("")] }
    fn loose() -> bool { true || <E17 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E28 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E28::Free0 { c: <S62 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E28::Z1 { name: <Vec<E7> as Ty>::arb(r, d.saturating_sub(1)), b: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E28::Rec2 { another_field_name_longer_than_23: <u64 as Ty>::arb(r, d.saturating_sub(1)), z: <bool as Ty>::arb(r, d.saturating_sub(1)), key: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E28::Free0 { c } => V::M(vec![(V::t("Free0"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(255), c.item())); V::M(es) })]), E28::Z1 { name, b } => V::M(vec![(V::t("aB"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("name"), name.item())); es.push((V::t("b"), m_enc_plus(&b).item())); V::M(es) })]), E28::Rec2 { another_field_name_longer_than_23, z, key } => V::M(vec![(V::t("Rec2"), { let mut es: Vec<(V, V)> = vec![]; if !m_enc_cap(&another_field_name_longer_than_23).omit() { es.push((V::int(4294967296), m_enc_cap(&another_field_name_longer_than_23).item())) } es.push((V::t("z"), z.item())); es.push((V::t("key"), key.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Free0") { return { let m = entries(v, &[V::int(255)], false)?; Ok(E28::Free0 { c: field::<S62>(m, &V::int(255))? }) } } if k == &V::t("aB") { return { let m = entries(v, &[V::t("name"), V::t("b")], false)?; Ok(E28::Z1 { name: field::<Vec<E7>>(m, &V::t("name"))?, b: m_dec_plus(field::<u128>(m, &V::t("b"))?)? }) } } if k == &V::t("Rec2") { return { let m = entries(v, &[V::int(4294967296), V::t("z"), V::t("key")], false)?; Ok(E28::Rec2 { another_field_name_longer_than_23: field::<u64>(m, &V::int(4294967296))?, z: field::<bool>(m, &V::t("z"))?, key: field::<u64>(m, &V::t("key"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E28::Free0 { c } => (*c).rt_top(), E28::Z1 { name, b } => (*name).rt_top() && m_enc_plus(&(*b)).rt_top() && m_dec_plus(m_enc_plus(&(*b))).as_ref() == Ok(&(*b)), E28::Rec2 { another_field_name_longer_than_23, z, key } => m_enc_cap(&(*another_field_name_longer_than_23)).rt_top() && m_enc_cap(&(*another_field_name_longer_than_23)) == (*another_field_name_longer_than_23) && (!m_enc_cap(&(*another_field_name_longer_than_23)).omit() || <u64 as Ty>::def() == Ok(m_enc_cap(&(*another_field_name_longer_than_23)).clone())) && (*z).rt_top() && (*key).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Free0"), V::t("aB"), V::t("Rec2"), V::int(255), V::t("name"), V::t("b"), V::int(4294967296), V::t("z"), V::t("key")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S62 as Ty>::loose() || <Vec<E7> as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E29 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E29::Rec0(<S6 as Ty>::arb(r, d.saturating_sub(1)), <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1))), 1 => E29::Num1, 2 => E29::Tuple2, _ => E29::TheVariantNameOfMoreThan23Bytes3 { id: <S60 as Ty>::arb(r, d.saturating_sub(1)), mid: <S66 as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <Option<S55> as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E29::Rec0(f0, f1) => V::M(vec![(V::t("aB"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), E29::Num1 => V::M(vec![(V::t("Num1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E29::Tuple2 => V::t("Tuple2"), E29::TheVariantNameOfMoreThan23Bytes3 { id, mid, another_field_name_longer_than_23 } => V::M(vec![(V::int(255), { let mut es: Vec<(V, V)> = vec![]; if !id.omit() { es.push((V::t("value"), id.item())) } es.push((V::int(7), mid.item())); es.push((V::t("A"), another_field_name_longer_than_23.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("aB") { return { let a = elements(v, 2, false)?; Ok(E29::Rec0(top::<S6>(a.get(0).ok_or(D::Missing)?)?, top::<Vec<AllOpt>>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("Num1") { return unit(v, false).map(|_| E29::Num1) } if k == &V::int(255) { return { let m = entries(v, &[V::t("value"), V::int(7), V::t("A")], false)?; Ok(E29::TheVariantNameOfMoreThan23Bytes3 { id: field::<S60>(m, &V::t("value"))?, mid: field::<S66>(m, &V::int(7))?, another_field_name_longer_than_23: field::<Option<S55>>(m, &V::t("A"))? }) } } } _ => { if *v == V::t("Tuple2") { return Ok(E29::Tuple2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E29::Rec0(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), E29::Num1 => true, E29::Tuple2 => true, E29::TheVariantNameOfMoreThan23Bytes3 { id, mid, another_field_name_longer_than_23 } => (*id).rt_top() && (!(*id).omit() || <S60 as Ty>::def() == Ok((*id).clone())) && (*mid).rt_top() && (*another_field_name_longer_than_23).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("aB"), V::t("Num1"), V::int(255), V::t("f0"), V::t("f1"), V::t("value"), V::int(7), V::t("A")] }
    fn others() -> Vec<V> { vec![V::t("Tuple2")] }
    fn loose() -> bool { false || <S6 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <S60 as Ty>::loose() || <S66 as Ty>::loose() || <Option<S55> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E30 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E30::Free0 { zz: if r.p(1, 2) { Default::default() } else { <Option<E25> as Ty>::arb(r, d) }, mid: <S6 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E30::Z1 { y: if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) } }, _ => E30::Other2(<TransBytes as Ty>::arb(r, d.saturating_sub(1)), <S16 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E30::Free0 { zz, mid } => V::M(vec![(V::t("Free0"), { let mut xs: Vec<V> = vec![]; xs.push(mid.item()); V::A(xs) })]), E30::Z1 { y } => V::M(vec![(V::int(4294967296), { let mut xs: Vec<V> = vec![]; V::A(xs) })]), E30::Other2(f0, f1) => V::M(vec![(V::t("Other2"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Free0") { return { let a = elements(v, 1, false)?; Ok(E30::Free0 { zz: Default::default(), mid: top::<S6>(a.get(0).ok_or(D::Missing)?)? }) } } if k == &V::int(4294967296) { return { let a = elements(v, 0, false)?; Ok(E30::Z1 { y: Default::default() }) } } if k == &V::t("Other2") { return { let a = elements(v, 2, false)?; Ok(E30::Other2(top::<TransBytes>(a.get(0).ok_or(D::Missing)?)?, top::<S16>(a.get(1).ok_or(D::Missing)?)?)) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E30::Free0 { zz, mid } => (*zz) == <Option<E25> as Default>::default() && (*mid).rt_top(), E30::Z1 { y } => (*y) == <String as Default>::default(), E30::Other2(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Free0"), V::int(4294967296), V::t("Other2"), V::t("mid"), V::t("f0"), V::t("f1")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<E25> as Ty>::loose() || <S6 as Ty>::loose() || <String as Ty>::loose() || <TransBytes as Ty>::loose() || <S16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E31 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E31::Num0(<Child as Ty>::arb(r, d.saturating_sub(1))), 1 => E31::C1 { foo: <S18 as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E31::TheVariantNameOfMoreThan23Bytes2(<S67 as Ty>::arb(r, d.saturating_sub(1))), 3 => E31::Num3, _ => E31::LongVariantNameHere4, } }
    fn item(&self) -> V { match self { E31::Num0(inner) => inner.item(), E31::C1 { foo } => V::M(vec![(V::int(255), { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(3), foo.item())); V::M(es) })]), E31::TheVariantNameOfMoreThan23Bytes2(inner) => V::M(vec![(V::t("TheVariantNameOfMoreThan23Bytes2"), inner.item())]), E31::Num3 => V::t("Num3"), E31::LongVariantNameHere4 => V::t("LongVariantNameHere4"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::int(255) { return { let m = entries(v, &[V::int(3)], false)?; Ok(E31::C1 { foo: field::<S18>(m, &V::int(3))? }) } } if k == &V::t("TheVariantNameOfMoreThan23Bytes2") { return top::<S67>(v).map(E31::TheVariantNameOfMoreThan23Bytes2) } if let Ok(x) = top::<Child>(whole) { return Ok(E31::Num0(x)) } } _ => { if *v == V::t("Num3") { return Ok(E31::Num3) } if *v == V::t("LongVariantNameHere4") { return Ok(E31::LongVariantNameHere4) } if let Ok(x) = top::<Child>(whole) { return Ok(E31::Num0(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E31::Num0(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E31::C1 { foo } => (*foo).rt_top(), E31::TheVariantNameOfMoreThan23Bytes2(inner) => inner.rt_top(), E31::Num3 => true, E31::LongVariantNameHere4 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(255), V::t("TheVariantNameOfMoreThan23Bytes2"), V::int(3)] }
    fn others() -> Vec<V> { vec![V::t("Num3"), V::t("LongVariantNameHere4")] }
    fn loose() -> bool { false || <Child as Ty>::loose() || <S67 as Ty>::loose() || <S18 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E32 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E32::Num0 {  }, 1 => E32::Gone1(if r.p(1, 2) { Default::default() } else { <Vec<String> as Ty>::arb(r, d) }, <i8 as Ty>::arb(r, d.saturating_sub(1))), _ => E32::A2, } }
    fn item(&self) -> V { match self { E32::Num0 {  } => V::M(vec![(V::t("Num0"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E32::Gone1(f0, f1) => V::M(vec![(V::t("Gone1"), { let mut xs: Vec<V> = vec![]; xs.push(f1.item()); V::A(xs) })]), E32::A2 => V::t("Z"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num0") { return { let m = entries(v, &[], false)?; Ok(E32::Num0 {  }) } } if k == &V::t("Gone1") { return { let a = elements(v, 1, false)?; Ok(E32::Gone1(Default::default(), top::<i8>(a.get(0).ok_or(D::Missing)?)?)) } } } _ => { if *v == V::t("Z") { return Ok(E32::A2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E32::Num0 {  } => true, E32::Gone1(f0, f1) => (*f0) == <Vec<String> as Default>::default() && (*f1).rt_top(), E32::A2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("Gone1"), V::t("f1")] }
    fn others() -> Vec<V> { vec![V::t("Z")] }
    fn loose() -> bool { false || <Vec<String> as Ty>::loose() || <i8 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E33 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E33::Num0(<E18 as Ty>::arb(r, d.saturating_sub(1))), 1 => E33::Num1 { a_long_field_name: if r.p(1, 2) { Default::default() } else { <Vec<E17> as Ty>::arb(r, d) }, foo: <S49 as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <u64 as Ty>::arb(r, d.saturating_sub(1)), ba: <Option<S24> as Ty>::arb(r, d.saturating_sub(1)) }, _ => E33::B2, } }
    fn item(&self) -> V { match self { E33::Num0(inner) => inner.item(), E33::Num1 { a_long_field_name, foo, another_field_name_longer_than_23, ba } => V::M(vec![(V::t("Num1"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(3), foo.item())); if !m_is_odd(&another_field_name_longer_than_23) { es.push((V::t("quite a long key with more than 23 bytes"), another_field_name_longer_than_23.item())) } if !ba.omit() { es.push((V::t("A"), ba.item())) } V::M(es) })]), E33::B2 => V::M(vec![(V::t("B2"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num1") { return { let m = entries(v, &[V::int(3), V::t("quite a long key with more than 23 bytes"), V::t("A")], false)?; Ok(E33::Num1 { a_long_field_name: Default::default(), foo: field::<S49>(m, &V::int(3))?, another_field_name_longer_than_23: field::<u64>(m, &V::t("quite a long key with more than 23 bytes"))?, ba: field::<Option<S24>>(m, &V::t("A"))? }) } } if k == &V::t("B2") { return unit(v, true).map(|_| E33::B2) } if let Ok(x) = top::<E18>(whole) { return Ok(E33::Num0(x)) } } _ => { if let Ok(x) = top::<E18>(whole) { return Ok(E33::Num0(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E33::Num0(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E33::Num1 { a_long_field_name, foo, another_field_name_longer_than_23, ba } => (*a_long_field_name) == <Vec<E17> as Default>::default() && (*foo).rt_top() && (*another_field_name_longer_than_23).rt_top() && (!m_is_odd(&(*another_field_name_longer_than_23)) || <u64 as Ty>::def() == Ok((*another_field_name_longer_than_23).clone())) && (*ba).rt_top() && (!(*ba).omit() || <Option<S24> as Ty>::def() == Ok((*ba).clone())), E33::B2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num1"), V::t("B2"), V::int(3), V::t("quite a long key with more than 23 bytes"), V::t("A")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <E18 as Ty>::loose() || <Vec<E17> as Ty>::loose() || <S49 as Ty>::loose() || <u64 as Ty>::loose() || <Option<S24> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E34 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E34::LongVariantNameHere0 { name: <S62 as Ty>::arb(r, d.saturating_sub(1)), key: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E34::Z1, _ => E34::Free2(<E29 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E34::LongVariantNameHere0 { name, key } => V::M(vec![(V::t("LongVariantNameHere0"), { let mut xs: Vec<V> = vec![]; xs.push(name.item()); xs.push(m_enc_plus(&key).item()); V::A(xs) })]), E34::Z1 => V::M(vec![(V::t("Z1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E34::Free2(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere0") { return { let a = elements(v, 2, false)?; Ok(E34::LongVariantNameHere0 { name: top::<S62>(a.get(0).ok_or(D::Missing)?)?, key: m_dec_plus(top::<u128>(a.get(1).ok_or(D::Missing)?)?)? }) } } if k == &V::t("Z1") { return unit(v, false).map(|_| E34::Z1) } if let Ok(x) = top::<E29>(whole) { return Ok(E34::Free2(x)) } } _ => { if let Ok(x) = top::<E29>(whole) { return Ok(E34::Free2(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E34::LongVariantNameHere0 { name, key } => (*name).rt_top() && m_enc_plus(&(*key)).rt_top() && m_dec_plus(m_enc_plus(&(*key))).as_ref() == Ok(&(*key)), E34::Z1 => true, E34::Free2(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere0"), V::t("Z1"), V::t("name"), V::t("key")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <E29 as Ty>::loose() || <S62 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E35 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E35::A0 { first: <S49 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E35::C1(<S78 as Ty>::arb(r, d.saturating_sub(1))), 2 => E35::Other2 { bar: <S19 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <bool as Ty>::arb(r, d.saturating_sub(1)), aa: if r.p(1, 2) { Default::default() } else { <Option<S55> as Ty>::arb(r, d) }, n: <Option<S12> as Ty>::arb(r, d.saturating_sub(1)) }, _ => E35::Num3 {  }, } }
    fn item(&self) -> V { match self { E35::A0 { first } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("first"), first.item())); V::M(es) }, V::int(24), V::t("A0")), E35::C1(inner) => with_tag(inner.item(), V::int(24), V::t("C1")), E35::Other2 { bar, field_name_of_23_bytes_x, aa, n } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("bar"), bar.item())); es.push((V::t("field_name_of_23_bytes_x"), m_enc_not(&field_name_of_23_bytes_x).item())); es.push((V::t("n"), n.item())); V::M(es) }, V::int(24), V::t("Other2")), E35::Num3 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::int(24), V::t("a")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(24))?; let v = &v; if k == V::t("A0") { return { let m = entries(v, &[V::t("first")], true)?; Ok(E35::A0 { first: field::<S49>(m, &V::t("first"))? }) } } if k == V::t("C1") { return top::<S78>(v).map(E35::C1) } if k == V::t("Other2") { return { let m = entries(v, &[V::t("bar"), V::t("field_name_of_23_bytes_x"), V::t("n")], true)?; Ok(E35::Other2 { bar: field::<S19>(m, &V::t("bar"))?, field_name_of_23_bytes_x: m_dec_not(field::<bool>(m, &V::t("field_name_of_23_bytes_x"))?)?, aa: Default::default(), n: field::<Option<S12>>(m, &V::t("n"))? }) } } if k == V::t("a") { return { let m = entries(v, &[], false)?; Ok(E35::Num3 {  }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E35::A0 { first } => (*first).rt_top(), E35::C1(inner) => inner.rt_top(), E35::Other2 { bar, field_name_of_23_bytes_x, aa, n } => (*bar).rt_top() && m_enc_not(&(*field_name_of_23_bytes_x)).rt_top() && m_dec_not(m_enc_not(&(*field_name_of_23_bytes_x))).as_ref() == Ok(&(*field_name_of_23_bytes_x)) && (*aa) == <Option<S55> as Default>::default() && (*n).rt_top(), E35::Num3 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("A0"), V::t("C1"), V::t("Other2"), V::t("a"), V::t("first"), V::t("bar"), V::t("field_name_of_23_bytes_x"), V::t("n"), V::int(24)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S78 as Ty>::loose() || <S49 as Ty>::loose() || <S19 as Ty>::loose() || <bool as Ty>::loose() || <Option<S55> as Ty>::loose() || <Option<S12> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E36 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E36::Gone0 { ab: <E10 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E36::Gone0 { ab } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !ab.omit() { es.push((V::int(100), ab.item())) } V::M(es) }, V::t("tag"), V::t("Gone0")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("tag"))?; let v = &v; if k == V::t("Gone0") { return { let m = entries(v, &[V::int(100)], false)?; Ok(E36::Gone0 { ab: field::<E10>(m, &V::int(100))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E36::Gone0 { ab } => (*ab).rt_top() && (!(*ab).omit() || <E10 as Ty>::def() == Ok((*ab).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Gone0"), V::int(100), V::t("tag")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <E10 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E37 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E37::TheVariantNameOfMoreThan23Bytes0 { a: <bool as Ty>::arb(r, d.saturating_sub(1)), second: <S6 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E37::A1 { offset: <BTreeMap<u64, String> as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E37::Z2(<S0 as Ty>::arb(r, d.saturating_sub(1)), <S85 as Ty>::arb(r, d.saturating_sub(1)), <Option<S55> as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1))), _ => E37::A3(<bool as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E37::TheVariantNameOfMoreThan23Bytes0 { a, second } => V::M(vec![(V::t("ä"), { let mut xs: Vec<V> = vec![]; xs.push(m_enc_not(&a).item()); xs.push(second.item()); V::A(xs) })]), E37::A1 { offset } => V::M(vec![(V::int(100), { let mut es: Vec<(V, V)> = vec![]; if !offset.omit() { es.push((V::t("offset"), offset.item())) } V::M(es) })]), E37::Z2(f0, f1, f2, f3) => V::M(vec![(V::t("Z2"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); xs.push(f2.item()); xs.push(f3.item()); V::A(xs) })]), E37::A3(inner) => V::M(vec![(V::int(255), inner.item())]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("ä") { return { let a = elements(v, 2, false)?; Ok(E37::TheVariantNameOfMoreThan23Bytes0 { a: m_dec_not(top::<bool>(a.get(0).ok_or(D::Missing)?)?)?, second: top::<S6>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::int(100) { return { let m = entries(v, &[V::t("offset")], false)?; Ok(E37::A1 { offset: field::<BTreeMap<u64, String>>(m, &V::t("offset"))? }) } } if k == &V::t("Z2") { return { let a = elements(v, 4, false)?; Ok(E37::Z2(top::<S0>(a.get(0).ok_or(D::Missing)?)?, top::<S85>(a.get(1).ok_or(D::Missing)?)?, top::<Option<S55>>(a.get(2).ok_or(D::Missing)?)?, top::<u64>(a.get(3).ok_or(D::Missing)?)?)) } } if k == &V::int(255) { return top::<bool>(v).map(E37::A3) } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E37::TheVariantNameOfMoreThan23Bytes0 { a, second } => m_enc_not(&(*a)).rt_top() && m_dec_not(m_enc_not(&(*a))).as_ref() == Ok(&(*a)) && (*second).rt_top(), E37::A1 { offset } => (*offset).rt_top() && (!(*offset).omit() || <BTreeMap<u64, String> as Ty>::def() == Ok((*offset).clone())), E37::Z2(f0, f1, f2, f3) => (*f0).rt_top() && (*f1).rt_top() && (*f2).rt_top() && (*f3).rt_top(), E37::A3(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("ä"), V::int(100), V::t("Z2"), V::int(255), V::t("a"), V::t("second"), V::t("offset"), V::t("f0"), V::t("f1"), V::t("f2"), V::t("f3")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <bool as Ty>::loose() || <S6 as Ty>::loose() || <BTreeMap<u64, String> as Ty>::loose() || <S0 as Ty>::loose() || <S85 as Ty>::loose() || <Option<S55> as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E38 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E38::C0(<S57 as Ty>::arb(r, d.saturating_sub(1))), 1 => E38::Z1, 2 => E38::Num2 { zz: if r.p(1, 2) { Default::default() } else { <TransBytes as Ty>::arb(r, d) }, bar: <Option<E34> as Ty>::arb(r, d.saturating_sub(1)) }, 3 => E38::B3 { kind: if r.p(1, 2) { Default::default() } else { <S28 as Ty>::arb(r, d) }, another_field_name_longer_than_23: <S9 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E38::A4 { z: <Value as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E38::C0(inner) => V::M(vec![(V::t("C0"), inner.item())]), E38::Z1 => V::t("Z1"), E38::Num2 { zz, bar } => V::M(vec![(V::int(255), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("bar"), bar.item())); V::M(es) })]), E38::B3 { kind, another_field_name_longer_than_23 } => V::M(vec![(V::t("B3"), { let mut xs: Vec<V> = vec![]; xs.push(another_field_name_longer_than_23.item()); V::A(xs) })]), E38::A4 { z } => V::M(vec![(V::t("A4"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("z"), z.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("C0") { return top::<S57>(v).map(E38::C0) } if k == &V::int(255) { return { let m = entries(v, &[V::t("bar")], false)?; Ok(E38::Num2 { zz: Default::default(), bar: field::<Option<E34>>(m, &V::t("bar"))? }) } } if k == &V::t("B3") { return { let a = elements(v, 1, true)?; Ok(E38::B3 { kind: Default::default(), another_field_name_longer_than_23: top::<S9>(a.get(0).ok_or(D::Missing)?)? }) } } if k == &V::t("A4") { return { let m = entries(v, &[V::t("z")], false)?; Ok(E38::A4 { z: field::<Value>(m, &V::t("z"))? }) } } } _ => { if *v == V::t("Z1") { return Ok(E38::Z1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E38::C0(inner) => inner.rt_top(), E38::Z1 => true, E38::Num2 { zz, bar } => (*zz) == <TransBytes as Default>::default() && (*bar).rt_top(), E38::B3 { kind, another_field_name_longer_than_23 } => (*kind) == <S28 as Default>::default() && (*another_field_name_longer_than_23).rt_top(), E38::A4 { z } => (*z).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("C0"), V::int(255), V::t("B3"), V::t("A4"), V::t("bar"), V::t("another_field_name_longer_than_23"), V::t("z")] }
    fn others() -> Vec<V> { vec![V::t("Z1")] }
    fn loose() -> bool { true || <S57 as Ty>::loose() || <TransBytes as Ty>::loose() || <Option<E34> as Ty>::loose() || <S28 as Ty>::loose() || <S9 as Ty>::loose() || <Value as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E39 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E39::Rec0, _ => E39::C1 { a_long_field_name: <Option<E27> as Ty>::arb(r, d.saturating_sub(1)), kind: <i64 as Ty>::arb(r, d.saturating_sub(1)), a: if r.p(1, 2) { Default::default() } else { <u16 as Ty>::arb(r, d) } }, } }
    fn item(&self) -> V { match self { E39::Rec0 => V::int(255), E39::C1 { a_long_field_name, kind, a } => V::M(vec![(V::t("C1"), { let mut xs: Vec<V> = vec![]; xs.push(a_long_field_name.item()); xs.push(kind.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("C1") { return { let a = elements(v, 2, false)?; Ok(E39::C1 { a_long_field_name: top::<Option<E27>>(a.get(0).ok_or(D::Missing)?)?, kind: top::<i64>(a.get(1).ok_or(D::Missing)?)?, a: Default::default() }) } } } _ => { if *v == V::int(255) { return Ok(E39::Rec0) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E39::Rec0 => true, E39::C1 { a_long_field_name, kind, a } => (*a_long_field_name).rt_top() && (*kind).rt_top() && (*a) == <u16 as Default>::default(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("C1"), V::t("a_long_field_name"), V::t("kind")] }
    fn others() -> Vec<V> { vec![V::int(255)] }
    fn loose() -> bool { false || <Option<E27> as Ty>::loose() || <i64 as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E40 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E40::Tuple0 { key: <S14 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E40::Tuple0 { key } => V::M(vec![(V::t("Tuple0"), { let mut xs: Vec<V> = vec![]; xs.push(key.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Tuple0") { return { let a = elements(v, 1, true)?; Ok(E40::Tuple0 { key: top::<S14>(a.get(0).ok_or(D::Missing)?)? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E40::Tuple0 { key } => (*key).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Tuple0"), V::t("key")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S14 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E41 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E41::Rec0, 1 => E41::LongVariantNameHere1(if r.p(1, 2) { Default::default() } else { <S1 as Ty>::arb(r, d) }, <TransBytes as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <Vec<AllOpt> as Ty>::arb(r, d) }), _ => E41::Tuple2, } }
    fn item(&self) -> V { match self { E41::Rec0 => V::int(18446744073709551615), E41::LongVariantNameHere1(f0, f1, f2) => V::M(vec![(V::t("LongVariantNameHere1"), { let mut xs: Vec<V> = vec![]; xs.push(f1.item()); V::A(xs) })]), E41::Tuple2 => V::t("x y"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere1") { return { let a = elements(v, 1, false)?; Ok(E41::LongVariantNameHere1(Default::default(), top::<TransBytes>(a.get(0).ok_or(D::Missing)?)?, Default::default())) } } } _ => { if *v == V::int(18446744073709551615) { return Ok(E41::Rec0) } if *v == V::t("x y") { return Ok(E41::Tuple2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E41::Rec0 => true, E41::LongVariantNameHere1(f0, f1, f2) => (*f0) == <S1 as Default>::default() && (*f1).rt_top() && (*f2) == <Vec<AllOpt> as Default>::default(), E41::Tuple2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere1"), V::t("f1")] }
    fn others() -> Vec<V> { vec![V::int(18446744073709551615), V::t("x y")] }
    fn loose() -> bool { false || <S1 as Ty>::loose() || <TransBytes as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E42 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E42::Rec0(<Option<E41> as Ty>::arb(r, d.saturating_sub(1))), 1 => E42::LongVariantNameHere1, _ => E42::Free2(<u64 as Ty>::arb(r, d.saturating_sub(1)), <S16 as Ty>::arb(r, d.saturating_sub(1)), <S35 as Ty>::arb(r, d.saturating_sub(1)), <S41 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E42::Rec0(inner) => V::M(vec![(V::t("Rec0"), inner.item())]), E42::LongVariantNameHere1 => V::M(vec![(V::t("LongVariantNameHere1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E42::Free2(f0, f1, f2, f3) => V::M(vec![(V::t("Free2"), { let mut xs: Vec<V> = vec![]; xs.push(m_enc_cap(&f0).item()); xs.push(f1.item()); xs.push(f2.item()); xs.push(f3.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Rec0") { return top::<Option<E41>>(v).map(E42::Rec0) } if k == &V::t("LongVariantNameHere1") { return unit(v, false).map(|_| E42::LongVariantNameHere1) } if k == &V::t("Free2") { return { let a = elements(v, 4, false)?; Ok(E42::Free2(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<S16>(a.get(1).ok_or(D::Missing)?)?, top::<S35>(a.get(2).ok_or(D::Missing)?)?, top::<S41>(a.get(3).ok_or(D::Missing)?)?)) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E42::Rec0(inner) => inner.rt_top(), E42::LongVariantNameHere1 => true, E42::Free2(f0, f1, f2, f3) => m_enc_cap(&(*f0)).rt_top() && m_enc_cap(&(*f0)) == (*f0) && (*f1).rt_top() && (*f2).rt_top() && (*f3).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Rec0"), V::t("LongVariantNameHere1"), V::t("Free2"), V::t("f0"), V::t("f1"), V::t("f2"), V::t("f3")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<E41> as Ty>::loose() || <u64 as Ty>::loose() || <S16 as Ty>::loose() || <S35 as Ty>::loose() || <S41 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E43 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E43::TheVariantNameOfMoreThan23Bytes0(<E41 as Ty>::arb(r, d.saturating_sub(1))), _ => E43::Rec1, } }
    fn item(&self) -> V { match self { E43::TheVariantNameOfMoreThan23Bytes0(inner) => inner.item(), E43::Rec1 => V::t("Rec1"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::t("Rec1") { return Ok(E43::Rec1) } if let Ok(x) = top::<E41>(whole) { return Ok(E43::TheVariantNameOfMoreThan23Bytes0(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E43::TheVariantNameOfMoreThan23Bytes0(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E43::Rec1 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::t("Rec1")] }
    fn loose() -> bool { false || <E41 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E44 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E44::Num0(<S43 as Ty>::arb(r, d.saturating_sub(1))), 1 => E44::B1(<S75 as Ty>::arb(r, d.saturating_sub(1))), 2 => E44::Other2 { y: <i32 as Ty>::arb(r, d.saturating_sub(1)), value: <S70 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E44::TheVariantNameOfMoreThan23Bytes3(<S15 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E44::Num0(inner) => with_tag(inner.item(), V::t("mode"), V::t("Num0")), E44::B1(inner) => with_tag(inner.item(), V::t("mode"), V::t("B1")), E44::Other2 { y, value } => { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("y"), y.item())); if !value.omit() { es.push((V::t("ä"), value.item())) } V::M(es) }, E44::TheVariantNameOfMoreThan23Bytes3(inner) => with_tag(inner.item(), V::t("mode"), V::t("quite a long key with more than 23 bytes")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("mode"))?; let v = &v; if k == V::t("Num0") { return top::<S43>(v).map(E44::Num0) } if k == V::t("B1") { return top::<S75>(v).map(E44::B1) } if k == V::t("Other2") || k == V::S(23) { return { let m = entries(v, &[V::t("y"), V::t("ä")], true)?; Ok(E44::Other2 { y: field::<i32>(m, &V::t("y"))?, value: field::<S70>(m, &V::t("ä"))? }) } } if k == V::t("quite a long key with more than 23 bytes") { return top::<S15>(v).map(E44::TheVariantNameOfMoreThan23Bytes3) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E44::Num0(inner) => inner.rt_top(), E44::B1(inner) => inner.rt_top(), E44::Other2 { y, value } => (*y).rt_top() && (*value).rt_top() && (!(*value).omit() || <S70 as Ty>::def() == Ok((*value).clone())), E44::TheVariantNameOfMoreThan23Bytes3(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("B1"), V::t("Other2"), V::t("quite a long key with more than 23 bytes"), V::t("y"), V::t("ä"), V::t("mode")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S43 as Ty>::loose() || <S75 as Ty>::loose() || <S15 as Ty>::loose() || <i32 as Ty>::loose() || <S70 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E45 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E45::Num0 { n: <S38 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E45::Num0 { n } => V::M(vec![(V::t("Num0"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("n"), n.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num0") { return { let m = entries(v, &[V::t("n")], false)?; Ok(E45::Num0 { n: field::<S38>(m, &V::t("n"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E45::Num0 { n } => (*n).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("n")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S38 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E46 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E46::Free0, 1 => E46::LongVariantNameHere1 { first: <String as Ty>::arb(r, d.saturating_sub(1)), foo: <u64 as Ty>::arb(r, d.saturating_sub(1)), value: <S19 as Ty>::arb(r, d.saturating_sub(1)), aa: <S35 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E46::C2, } }
    fn item(&self) -> V { match self { E46::Free0 => V::t("Free0"), E46::LongVariantNameHere1 { first, foo, value, aa } => V::M(vec![(V::t("LongVariantNameHere1"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("first"), first.item())); if !m_is_zero(&foo) { es.push((V::t("foo"), foo.item())) } es.push((V::t("value"), value.item())); if !aa.omit() { es.push((V::t("aa"), aa.item())) } V::M(es) })]), E46::C2 => V::t("C2"), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere1") { return { let m = entries(v, &[V::t("first"), V::t("foo"), V::t("value"), V::t("aa")], false)?; Ok(E46::LongVariantNameHere1 { first: field::<String>(m, &V::t("first"))?, foo: field::<u64>(m, &V::t("foo"))?, value: field::<S19>(m, &V::t("value"))?, aa: field::<S35>(m, &V::t("aa"))? }) } } } _ => { if *v == V::t("Free0") { return Ok(E46::Free0) } if *v == V::t("C2") { return Ok(E46::C2) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E46::Free0 => true, E46::LongVariantNameHere1 { first, foo, value, aa } => (*first).rt_top() && (*foo).rt_top() && (!m_is_zero(&(*foo)) || <u64 as Ty>::def() == Ok((*foo).clone())) && (*value).rt_top() && (*aa).rt_top() && (!(*aa).omit() || <S35 as Ty>::def() == Ok((*aa).clone())), E46::C2 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere1"), V::t("first"), V::t("foo"), V::t("value"), V::t("aa")] }
    fn others() -> Vec<V> { vec![V::t("Free0"), V::t("C2")] }
    fn loose() -> bool { false || <String as Ty>::loose() || <u64 as Ty>::loose() || <S19 as Ty>::loose() || <S35 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E47 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E47::Z0 { ab: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, another_field_name_longer_than_23: <Option<E34> as Ty>::arb(r, d.saturating_sub(1)), aa: if r.p(1, 2) { Default::default() } else { <S59 as Ty>::arb(r, d) } }, 1 => E47::C1, _ => E47::C2 {  }, } }
    fn item(&self) -> V { match self { E47::Z0 { ab, another_field_name_longer_than_23, aa } => V::M(vec![(V::t("Z0"), { let mut xs: Vec<V> = vec![]; xs.push(another_field_name_longer_than_23.item()); V::A(xs) })]), E47::C1 => V::t("A"), E47::C2 {  } => V::M(vec![(V::t("C2"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Z0") { return { let a = elements(v, 1, false)?; Ok(E47::Z0 { ab: Default::default(), another_field_name_longer_than_23: top::<Option<E34>>(a.get(0).ok_or(D::Missing)?)?, aa: Default::default() }) } } if k == &V::t("C2") { return { let m = entries(v, &[], false)?; Ok(E47::C2 {  }) } } } _ => { if *v == V::t("A") { return Ok(E47::C1) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E47::Z0 { ab, another_field_name_longer_than_23, aa } => (*ab) == <u64 as Default>::default() && (*another_field_name_longer_than_23).rt_top() && (*aa) == <S59 as Default>::default(), E47::C1 => true, E47::C2 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z0"), V::t("C2"), V::t("another_field_name_longer_than_23")] }
    fn others() -> Vec<V> { vec![V::t("A")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <Option<E34> as Ty>::loose() || <S59 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E48 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E48::B0, 1 => E48::Num1 { kind: <Option<E34> as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E48::A2, _ => E48::Free3(<E18 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E48::B0 => V::t("B0"), E48::Num1 { kind } => V::M(vec![(V::t("Num1"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("kind"), kind.item())); V::M(es) })]), E48::A2 => V::t("A2"), E48::Free3(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Num1") { return { let m = entries(v, &[V::t("kind")], false)?; Ok(E48::Num1 { kind: field::<Option<E34>>(m, &V::t("kind"))? }) } } if let Ok(x) = top::<E18>(whole) { return Ok(E48::Free3(x)) } } _ => { if *v == V::t("B0") { return Ok(E48::B0) } if *v == V::t("A2") { return Ok(E48::A2) } if let Ok(x) = top::<E18>(whole) { return Ok(E48::Free3(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E48::B0 => true, E48::Num1 { kind } => (*kind).rt_top(), E48::A2 => true, E48::Free3(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num1"), V::t("kind")] }
    fn others() -> Vec<V> { vec![V::t("B0"), V::t("A2")] }
    fn loose() -> bool { false || <E18 as Ty>::loose() || <Option<E34> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E49 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E49::C0, } }
    fn item(&self) -> V { match self { E49::C0 => V::int(65535), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(65535) { return Ok(E49::C0) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E49::C0 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(65535)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E50 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E50::Rec0 { a: <S71 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), m: <S4 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E50::Z1 {  }, _ => E50::Rec2 { bar: <S45 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <Value as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E50::Rec0 { a, field_name_of_24_bytes_xy, m } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); es.push((V::t("quite a long key with more than 23 bytes"), field_name_of_24_bytes_xy.item())); if !m.omit() { es.push((V::t("longer"), m.item())) } V::M(es) }, V::t("mode"), V::t("Rec0")), E50::Z1 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("mode"), V::t("Z1")), E50::Rec2 { bar, field_name_of_24_bytes_xy } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !bar.omit() { es.push((V::t("bar"), bar.item())) } if !field_name_of_24_bytes_xy.omit() { es.push((V::t("field_name_of_24_bytes_xy"), field_name_of_24_bytes_xy.item())) } V::M(es) }, V::t("mode"), V::t("Rec2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("mode"))?; let v = &v; if k == V::t("Rec0") { return { let m = entries(v, &[V::t("a"), V::t("quite a long key with more than 23 bytes"), V::t("longer")], false)?; Ok(E50::Rec0 { a: field::<S71>(m, &V::t("a"))?, field_name_of_24_bytes_xy: field::<AllOpt>(m, &V::t("quite a long key with more than 23 bytes"))?, m: field::<S4>(m, &V::t("longer"))? }) } } if k == V::t("Z1") { return { let m = entries(v, &[], false)?; Ok(E50::Z1 {  }) } } if k == V::t("Rec2") { return { let m = entries(v, &[V::t("bar"), V::t("field_name_of_24_bytes_xy")], false)?; Ok(E50::Rec2 { bar: field::<S45>(m, &V::t("bar"))?, field_name_of_24_bytes_xy: field::<Value>(m, &V::t("field_name_of_24_bytes_xy"))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E50::Rec0 { a, field_name_of_24_bytes_xy, m } => (*a).rt_top() && (*field_name_of_24_bytes_xy).rt_top() && (*m).rt_top() && (!(*m).omit() || <S4 as Ty>::def() == Ok((*m).clone())), E50::Z1 {  } => true, E50::Rec2 { bar, field_name_of_24_bytes_xy } => (*bar).rt_top() && (!(*bar).omit() || <S45 as Ty>::def() == Ok((*bar).clone())) && (*field_name_of_24_bytes_xy).rt_top() && (!(*field_name_of_24_bytes_xy).omit() || <Value as Ty>::def() == Ok((*field_name_of_24_bytes_xy).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Rec0"), V::t("Z1"), V::t("Rec2"), V::t("a"), V::t("quite a long key with more than 23 bytes"), V::t("longer"), V::t("bar"), V::t("field_name_of_24_bytes_xy"), V::t("mode")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S71 as Ty>::loose() || <AllOpt as Ty>::loose() || <S4 as Ty>::loose() || <S45 as Ty>::loose() || <Value as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E51 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E51::Z0 {  }, 1 => E51::Other1(<S24 as Ty>::arb(r, d.saturating_sub(1))), _ => E51::Rec2 {  }, } }
    fn item(&self) -> V { match self { E51::Z0 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::int(24), V::t("Z")), E51::Other1(inner) => with_tag(inner.item(), V::int(24), V::int(18446744073709551615)), E51::Rec2 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::int(24), V::t("Rec2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(24))?; let v = &v; if k == V::t("Z") { return { let m = entries(v, &[], false)?; Ok(E51::Z0 {  }) } } if k == V::int(18446744073709551615) { return top::<S24>(v).map(E51::Other1) } if k == V::t("Rec2") { return { let m = entries(v, &[], false)?; Ok(E51::Rec2 {  }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E51::Z0 {  } => true, E51::Other1(inner) => inner.rt_top(), E51::Rec2 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z"), V::int(18446744073709551615), V::t("Rec2"), V::int(24)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S24 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E52 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E52::Tuple0 {  }, 1 => E52::TheVariantNameOfMoreThan23Bytes1(<S39 as Ty>::arb(r, d.saturating_sub(1))), _ => E52::C2 { b: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <S26 as Ty>::arb(r, d.saturating_sub(1)), y: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E52::Tuple0 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("v"), V::t("Z")), E52::TheVariantNameOfMoreThan23Bytes1(inner) => with_tag(inner.item(), V::t("v"), V::t("TheVariantNameOfMoreThan23Bytes1")), E52::C2 { b, another_field_name_longer_than_23, y } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("x y"), b.item())); es.push((V::t("another_field_name_longer_than_23"), another_field_name_longer_than_23.item())); es.push((V::t("aB"), y.item())); V::M(es) }, V::t("v"), V::t("C2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("Z") { return { let m = entries(v, &[], false)?; Ok(E52::Tuple0 {  }) } } if k == V::t("TheVariantNameOfMoreThan23Bytes1") { return top::<S39>(v).map(E52::TheVariantNameOfMoreThan23Bytes1) } if k == V::t("C2") { return { let m = entries(v, &[V::t("x y"), V::t("another_field_name_longer_than_23"), V::t("aB")], false)?; Ok(E52::C2 { b: field::<Vec<AllOpt>>(m, &V::t("x y"))?, another_field_name_longer_than_23: field::<S26>(m, &V::t("another_field_name_longer_than_23"))?, y: m_dec_small(field::<u16>(m, &V::t("aB"))?)? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E52::Tuple0 {  } => true, E52::TheVariantNameOfMoreThan23Bytes1(inner) => inner.rt_top(), E52::C2 { b, another_field_name_longer_than_23, y } => (*b).rt_top() && (*another_field_name_longer_than_23).rt_top() && (*y).rt_top() && m_dec_small((*y)).as_ref() == Ok(&(*y)), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z"), V::t("TheVariantNameOfMoreThan23Bytes1"), V::t("C2"), V::t("x y"), V::t("another_field_name_longer_than_23"), V::t("aB"), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S39 as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <S26 as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E53 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E53::B0(<S42 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E53::B0(inner) => with_tag(inner.item(), V::t("t"), V::t("Z")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("t"))?; let v = &v; if k == V::t("Z") { return top::<S42>(v).map(E53::B0) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E53::B0(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z"), V::t("t")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S42 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E54 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E54::B0 {  }, 1 => E54::Other1(<E41 as Ty>::arb(r, d.saturating_sub(1))), 2 => E54::Other2, 3 => E54::Num3 { foo: if r.p(1, 2) { Default::default() } else { <Vec<E8> as Ty>::arb(r, d) } }, _ => E54::Tuple4(<S62 as Ty>::arb(r, d.saturating_sub(1)), <u64 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E54::B0 {  } => V::M(vec![(V::t("B0"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E54::Other1(inner) => inner.item(), E54::Other2 => V::t("tag"), E54::Num3 { foo } => V::M(vec![(V::t("Num3"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E54::Tuple4(f0, f1) => V::M(vec![(V::t("Tuple4"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("B0") { return { let m = entries(v, &[], false)?; Ok(E54::B0 {  }) } } if k == &V::t("Num3") { return { let m = entries(v, &[], false)?; Ok(E54::Num3 { foo: Default::default() }) } } if k == &V::t("Tuple4") { return { let a = elements(v, 2, false)?; Ok(E54::Tuple4(top::<S62>(a.get(0).ok_or(D::Missing)?)?, top::<u64>(a.get(1).ok_or(D::Missing)?)?)) } } if let Ok(x) = top::<E41>(whole) { return Ok(E54::Other1(x)) } } _ => { if *v == V::t("tag") { return Ok(E54::Other2) } if let Ok(x) = top::<E41>(whole) { return Ok(E54::Other1(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E54::B0 {  } => true, E54::Other1(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E54::Other2 => true, E54::Num3 { foo } => (*foo) == <Vec<E8> as Default>::default(), E54::Tuple4(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("B0"), V::t("Num3"), V::t("Tuple4"), V::t("f0"), V::t("f1")] }
    fn others() -> Vec<V> { vec![V::t("tag")] }
    fn loose() -> bool { false || <E41 as Ty>::loose() || <Vec<E8> as Ty>::loose() || <S62 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E55 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E55::C0 { zz: <E19 as Ty>::arb(r, d.saturating_sub(1)), foo: <u64 as Ty>::arb(r, d.saturating_sub(1)), key: <i64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E55::B1 { payload: <Vec<E48> as Ty>::arb(r, d.saturating_sub(1)), y: <Vec<String> as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E55::Z2, _ => E55::A3, } }
    fn item(&self) -> V { match self { E55::C0 { zz, foo, key } => V::M(vec![(V::t("aB"), { let mut xs: Vec<V> = vec![]; xs.push(zz.item()); xs.push(foo.item()); xs.push(key.item()); V::A(xs) })]), E55::B1 { payload, y } => V::M(vec![(V::t("quite a long key with more than 23 bytes"), { let mut xs: Vec<V> = vec![]; xs.push(payload.item()); xs.push(y.item()); V::A(xs) })]), E55::Z2 => V::M(vec![(V::t("value"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E55::A3 => V::M(vec![(V::t("zz"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("aB") { return { let a = elements(v, 3, false)?; Ok(E55::C0 { zz: top::<E19>(a.get(0).ok_or(D::Missing)?)?, foo: top::<u64>(a.get(1).ok_or(D::Missing)?)?, key: top::<i64>(a.get(2).ok_or(D::Missing)?)? }) } } if k == &V::t("quite a long key with more than 23 bytes") { return { let a = elements(v, 2, false)?; Ok(E55::B1 { payload: top::<Vec<E48>>(a.get(0).ok_or(D::Missing)?)?, y: top::<Vec<String>>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::t("value") { return unit(v, true).map(|_| E55::Z2) } if k == &V::t("zz") { return unit(v, false).map(|_| E55::A3) } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E55::C0 { zz, foo, key } => (*zz).rt_top() && (*foo).rt_top() && (*key).rt_top(), E55::B1 { payload, y } => (*payload).rt_top() && (*y).rt_top(), E55::Z2 => true, E55::A3 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("aB"), V::t("quite a long key with more than 23 bytes"), V::t("value"), V::t("zz"), V::t("foo"), V::t("key"), V::t("payload"), V::t("y")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <E19 as Ty>::loose() || <u64 as Ty>::loose() || <i64 as Ty>::loose() || <Vec<E48> as Ty>::loose() || <Vec<String> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E56 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E56::LongVariantNameHere0 { a: <Option<E25> as Ty>::arb(r, d.saturating_sub(1)), first: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)), field_name_of_24_bytes_xy: <Option<S41> as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E56::Rec1 {  }, _ => E56::B2(<u64 as Ty>::arb(r, d.saturating_sub(1)), <(u64, bool) as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E56::LongVariantNameHere0 { a, first, field_name_of_24_bytes_xy } => V::M(vec![(V::t("LongVariantNameHere0"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); if !first.omit() { es.push((V::t("first"), first.item())) } es.push((V::int(4294967295), field_name_of_24_bytes_xy.item())); V::M(es) })]), E56::Rec1 {  } => V::M(vec![(V::t("value"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E56::B2(f0, f1) => V::M(vec![(V::t("tag"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("LongVariantNameHere0") { return { let m = entries(v, &[V::t("a"), V::t("first"), V::int(4294967295)], false)?; Ok(E56::LongVariantNameHere0 { a: field::<Option<E25>>(m, &V::t("a"))?, first: field::<(u64, bool)>(m, &V::t("first"))?, field_name_of_24_bytes_xy: field::<Option<S41>>(m, &V::int(4294967295))? }) } } if k == &V::t("value") { return { let m = entries(v, &[], false)?; Ok(E56::Rec1 {  }) } } if k == &V::t("tag") { return { let a = elements(v, 2, false)?; Ok(E56::B2(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<(u64, bool)>(a.get(1).ok_or(D::Missing)?)?)) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E56::LongVariantNameHere0 { a, first, field_name_of_24_bytes_xy } => (*a).rt_top() && (*first).rt_top() && (!(*first).omit() || <(u64, bool) as Ty>::def() == Ok((*first).clone())) && (*field_name_of_24_bytes_xy).rt_top(), E56::Rec1 {  } => true, E56::B2(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("LongVariantNameHere0"), V::t("value"), V::t("tag"), V::t("a"), V::t("first"), V::int(4294967295), V::t("f0"), V::t("f1")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<E25> as Ty>::loose() || <(u64, bool) as Ty>::loose() || <Option<S41> as Ty>::loose() || <u64 as Ty>::loose() || <(u64, bool) as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E57 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E57::Num0 { key: <S45 as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <S35 as Ty>::arb(r, d.saturating_sub(1)), a_long_field_name: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E57::C1 {  }, 2 => E57::LongVariantNameHere2(<S29 as Ty>::arb(r, d.saturating_sub(1))), 3 => E57::Free3 { m: <S88 as Ty>::arb(r, d.saturating_sub(1)), kind: <S6 as Ty>::arb(r, d.saturating_sub(1)), bar: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E57::LongVariantNameHere4(<S72 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E57::Num0 { key, field_name_of_23_bytes_x, a_long_field_name } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !key.omit() { es.push((V::t("key"), key.item())) } if !field_name_of_23_bytes_x.omit() { es.push((V::int(18446744073709551615), field_name_of_23_bytes_x.item())) } if !a_long_field_name.omit() { es.push((V::int(65536), a_long_field_name.item())) } V::M(es) }, V::int(5), V::t("Num0")), E57::C1 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::int(5), V::t("C1")), E57::LongVariantNameHere2(inner) => with_tag(inner.item(), V::int(5), V::int(10)), E57::Free3 { m, kind, bar } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("m"), m.item())); es.push((V::t("kind"), kind.item())); es.push((V::t("bar"), m_enc_plus(&bar).item())); V::M(es) }, V::int(5), V::t("Free3")), E57::LongVariantNameHere4(inner) => with_tag(inner.item(), V::int(5), V::t("LongVariantNameHere4")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(5))?; let v = &v; if k == V::t("Num0") { return { let m = entries(v, &[V::t("key"), V::int(18446744073709551615), V::int(65536)], true)?; Ok(E57::Num0 { key: field::<S45>(m, &V::t("key"))?, field_name_of_23_bytes_x: field::<S35>(m, &V::int(18446744073709551615))?, a_long_field_name: field::<u64>(m, &V::int(65536))? }) } } if k == V::t("C1") { return { let m = entries(v, &[], false)?; Ok(E57::C1 {  }) } } if k == V::int(10) { return top::<S29>(v).map(E57::LongVariantNameHere2) } if k == V::t("Free3") { return { let m = entries(v, &[V::t("m"), V::t("kind"), V::t("bar")], false)?; Ok(E57::Free3 { m: field::<S88>(m, &V::t("m"))?, kind: field::<S6>(m, &V::t("kind"))?, bar: m_dec_plus(field::<u128>(m, &V::t("bar"))?)? }) } } if k == V::t("LongVariantNameHere4") { return top::<S72>(v).map(E57::LongVariantNameHere4) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E57::Num0 { key, field_name_of_23_bytes_x, a_long_field_name } => (*key).rt_top() && (!(*key).omit() || <S45 as Ty>::def() == Ok((*key).clone())) && (*field_name_of_23_bytes_x).rt_top() && (!(*field_name_of_23_bytes_x).omit() || <S35 as Ty>::def() == Ok((*field_name_of_23_bytes_x).clone())) && (*a_long_field_name).rt_top() && (!(*a_long_field_name).omit() || <u64 as Ty>::def() == Ok((*a_long_field_name).clone())), E57::C1 {  } => true, E57::LongVariantNameHere2(inner) => inner.rt_top(), E57::Free3 { m, kind, bar } => (*m).rt_top() && (*kind).rt_top() && m_enc_plus(&(*bar)).rt_top() && m_dec_plus(m_enc_plus(&(*bar))).as_ref() == Ok(&(*bar)), E57::LongVariantNameHere4(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Num0"), V::t("C1"), V::int(10), V::t("Free3"), V::t("LongVariantNameHere4"), V::t("key"), V::int(18446744073709551615), V::int(65536), V::t("m"), V::t("kind"), V::t("bar"), V::int(5)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S29 as Ty>::loose() || <S72 as Ty>::loose() || <S45 as Ty>::loose() || <S35 as Ty>::loose() || <u64 as Ty>::loose() || <S88 as Ty>::loose() || <S6 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E58 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E58::B0 { m: <S1 as Ty>::arb(r, d.saturating_sub(1)), name: <S78 as Ty>::arb(r, d.saturating_sub(1)), value: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), y: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E58::B0 { m, name, value, y } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zz"), m.item())); es.push((V::t("name"), name.item())); es.push((V::int(25), value.item())); es.push((V::int(1), m_enc_plus(&y).item())); V::M(es) }, V::t("mm"), V::int(3)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("mm"))?; let v = &v; if k == V::int(3) { return { let m = entries(v, &[V::t("zz"), V::t("name"), V::int(25), V::int(1)], false)?; Ok(E58::B0 { m: field::<S1>(m, &V::t("zz"))?, name: field::<S78>(m, &V::t("name"))?, value: field::<AllOpt>(m, &V::int(25))?, y: m_dec_plus(field::<u128>(m, &V::int(1))?)? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E58::B0 { m, name, value, y } => (*m).rt_top() && (*name).rt_top() && (*value).rt_top() && m_enc_plus(&(*y)).rt_top() && m_dec_plus(m_enc_plus(&(*y))).as_ref() == Ok(&(*y)), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(3), V::t("zz"), V::t("name"), V::int(25), V::int(1), V::t("mm")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <S1 as Ty>::loose() || <S78 as Ty>::loose() || <AllOpt as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E59 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E59::Other0, 1 => E59::Z1, 2 => E59::A2(<E37 as Ty>::arb(r, d.saturating_sub(1))), 3 => E59::Gone3, _ => E59::TheVariantNameOfMoreThan23Bytes4(<Option<E38> as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E59::Other0 => V::M(vec![(V::int(1), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E59::Z1 => V::t("Z1"), E59::A2(inner) => inner.item(), E59::Gone3 => V::t("Gone3"), E59::TheVariantNameOfMoreThan23Bytes4(inner) => V::M(vec![(V::t("TheVariantNameOfMoreThan23Bytes4"), inner.item())]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::int(1) { return unit(v, true).map(|_| E59::Other0) } if k == &V::t("TheVariantNameOfMoreThan23Bytes4") { return top::<Option<E38>>(v).map(E59::TheVariantNameOfMoreThan23Bytes4) } if let Ok(x) = top::<E37>(whole) { return Ok(E59::A2(x)) } } _ => { if *v == V::t("Z1") { return Ok(E59::Z1) } if *v == V::t("Gone3") { return Ok(E59::Gone3) } if let Ok(x) = top::<E37>(whole) { return Ok(E59::A2(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E59::Other0 => true, E59::Z1 => true, E59::A2(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E59::Gone3 => true, E59::TheVariantNameOfMoreThan23Bytes4(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(1), V::t("TheVariantNameOfMoreThan23Bytes4")] }
    fn others() -> Vec<V> { vec![V::t("Z1"), V::t("Gone3")] }
    fn loose() -> bool { true || <E37 as Ty>::loose() || <Option<E38> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E60 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E60::Gone0, 1 => E60::Gone1(<Option<E27> as Ty>::arb(r, d.saturating_sub(1)), <Option<E56> as Ty>::arb(r, d.saturating_sub(1)), <S48 as Ty>::arb(r, d.saturating_sub(1))), 2 => E60::B2(<E5 as Ty>::arb(r, d.saturating_sub(1))), _ => E60::Gone3, } }
    fn item(&self) -> V { match self { E60::Gone0 => V::M(vec![(V::t("Gone0"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E60::Gone1(f0, f1, f2) => V::M(vec![(V::t("Gone1"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); xs.push(f2.item()); V::A(xs) })]), E60::B2(inner) => inner.item(), E60::Gone3 => V::M(vec![(V::t("Gone3"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Gone0") { return unit(v, false).map(|_| E60::Gone0) } if k == &V::t("Gone1") { return { let a = elements(v, 3, false)?; Ok(E60::Gone1(top::<Option<E27>>(a.get(0).ok_or(D::Missing)?)?, top::<Option<E56>>(a.get(1).ok_or(D::Missing)?)?, top::<S48>(a.get(2).ok_or(D::Missing)?)?)) } } if k == &V::t("Gone3") { return unit(v, false).map(|_| E60::Gone3) } if let Ok(x) = top::<E5>(whole) { return Ok(E60::B2(x)) } } _ => { if let Ok(x) = top::<E5>(whole) { return Ok(E60::B2(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E60::Gone0 => true, E60::Gone1(f0, f1, f2) => (*f0).rt_top() && (*f1).rt_top() && (*f2).rt_top(), E60::B2(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), E60::Gone3 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Gone0"), V::t("Gone1"), V::t("Gone3"), V::t("f0"), V::t("f1"), V::t("f2")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <E5 as Ty>::loose() || <Option<E27> as Ty>::loose() || <Option<E56> as Ty>::loose() || <S48 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E61 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E61::Z0 { kind: <Option<S24> as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E61::Rec1 { another_field_name_longer_than_23: <Option<S1> as Ty>::arb(r, d.saturating_sub(1)) }, _ => E61::Z2 {  }, } }
    fn item(&self) -> V { match self { E61::Z0 { kind } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("kind"), kind.item())); V::M(es) }, V::t("tag"), V::t("Z0")), E61::Rec1 { another_field_name_longer_than_23 } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("another_field_name_longer_than_23"), another_field_name_longer_than_23.item())); V::M(es) }, V::t("tag"), V::t("Z")), E61::Z2 {  } => { let mut es: Vec<(V, V)> = vec![]; V::M(es) }, } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("tag"))?; let v = &v; if k == V::t("Z0") { return { let m = entries(v, &[V::t("kind")], false)?; Ok(E61::Z0 { kind: field::<Option<S24>>(m, &V::t("kind"))? }) } } if k == V::t("Z") { return { let m = entries(v, &[V::t("another_field_name_longer_than_23")], false)?; Ok(E61::Rec1 { another_field_name_longer_than_23: field::<Option<S1>>(m, &V::t("another_field_name_longer_than_23"))? }) } } if k == V::t("Z2") || k == V::S(23) { return { let m = entries(v, &[], false)?; Ok(E61::Z2 {  }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E61::Z0 { kind } => (*kind).rt_top(), E61::Rec1 { another_field_name_longer_than_23 } => (*another_field_name_longer_than_23).rt_top(), E61::Z2 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z0"), V::t("Z"), V::t("Z2"), V::t("kind"), V::t("another_field_name_longer_than_23"), V::t("tag")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<S24> as Ty>::loose() || <Option<S1> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E62 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E62::C0, } }
    fn item(&self) -> V { match self { E62::C0 => V::int(24), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(24) { return Ok(E62::C0) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E62::C0 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(24)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E63 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(1) { _ => E63::A0(<E17 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E63::A0(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if let Ok(x) = top::<E17>(whole) { return Ok(E63::A0(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E63::A0(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <E17 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E64 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E64::Gone0 { z: <bool as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <i64 as Ty>::arb(r, d.saturating_sub(1)), bar: <S63 as Ty>::arb(r, d.saturating_sub(1)), c: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E64::LongVariantNameHere1 { key: <u64 as Ty>::arb(r, d.saturating_sub(1)), bar: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E64::Z2 {  }, } }
    fn item(&self) -> V { match self { E64::Gone0 { z, field_name_of_23_bytes_x, bar, c } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t(""), m_enc_not(&z).item())); es.push((V::int(3), field_name_of_23_bytes_x.item())); es.push((V::int(1), bar.item())); es.push((V::t("c"), m_enc_plus(&c).item())); V::M(es) }, V::t("v"), V::t("Z")), E64::LongVariantNameHere1 { key, bar } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("key"), m_enc_plus(&key).item())); es.push((V::t("bar"), m_enc_plus(&bar).item())); V::M(es) }, V::t("v"), V::int(23)), E64::Z2 {  } => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("v"), V::t("Z2")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("Z") { return { let m = entries(v, &[V::t(""), V::int(3), V::int(1), V::t("c")], false)?; Ok(E64::Gone0 { z: m_dec_not(field::<bool>(m, &V::t(""))?)?, field_name_of_23_bytes_x: field::<i64>(m, &V::int(3))?, bar: field::<S63>(m, &V::int(1))?, c: m_dec_plus(field::<u128>(m, &V::t("c"))?)? }) } } if k == V::int(23) { return { let m = entries(v, &[V::t("key"), V::t("bar")], false)?; Ok(E64::LongVariantNameHere1 { key: m_dec_plus(field::<u128>(m, &V::t("key"))?)?, bar: m_dec_plus(field::<u128>(m, &V::t("bar"))?)? }) } } if k == V::t("Z2") { return { let m = entries(v, &[], false)?; Ok(E64::Z2 {  }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E64::Gone0 { z, field_name_of_23_bytes_x, bar, c } => m_enc_not(&(*z)).rt_top() && m_dec_not(m_enc_not(&(*z))).as_ref() == Ok(&(*z)) && (*field_name_of_23_bytes_x).rt_top() && (*bar).rt_top() && m_enc_plus(&(*c)).rt_top() && m_dec_plus(m_enc_plus(&(*c))).as_ref() == Ok(&(*c)), E64::LongVariantNameHere1 { key, bar } => m_enc_plus(&(*key)).rt_top() && m_dec_plus(m_enc_plus(&(*key))).as_ref() == Ok(&(*key)) && m_enc_plus(&(*bar)).rt_top() && m_dec_plus(m_enc_plus(&(*bar))).as_ref() == Ok(&(*bar)), E64::Z2 {  } => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z"), V::int(23), V::t("Z2"), V::t(""), V::int(3), V::int(1), V::t("c"), V::t("key"), V::t("bar"), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <i64 as Ty>::loose() || <S63 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E65 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => E65::A0 { first: if r.p(1, 2) { Default::default() } else { <Vec<E7> as Ty>::arb(r, d) }, z: <E1 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E65::Gone1(<S36 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E65::A0 { first, z } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !z.omit() { es.push((V::int(4294967296), z.item())) } V::M(es) }, V::t("tag"), V::int(65536)), E65::Gone1(inner) => with_tag(inner.item(), V::t("tag"), V::int(2)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("tag"))?; let v = &v; if k == V::int(65536) { return { let m = entries(v, &[V::int(4294967296)], true)?; Ok(E65::A0 { first: Default::default(), z: field::<E1>(m, &V::int(4294967296))? }) } } if k == V::int(2) { return top::<S36>(v).map(E65::Gone1) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E65::A0 { first, z } => (*first) == <Vec<E7> as Default>::default() && (*z).rt_top() && (!(*z).omit() || <E1 as Ty>::def() == Ok((*z).clone())), E65::Gone1(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(65536), V::int(2), V::int(4294967296), V::t("tag")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S36 as Ty>::loose() || <Vec<E7> as Ty>::loose() || <E1 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E66 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E66::Other0(<AllOpt as Ty>::arb(r, d.saturating_sub(1))), 1 => E66::Z1 { field_name_of_23_bytes_x: <TransBytes as Ty>::arb(r, d.saturating_sub(1)), payload: <Option<E26> as Ty>::arb(r, d.saturating_sub(1)), another_field_name_longer_than_23: <i64 as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E66::B2(<S61 as Ty>::arb(r, d.saturating_sub(1))), _ => E66::Other3 { kind: if r.p(1, 2) { Default::default() } else { <Vec<E3> as Ty>::arb(r, d) }, field_name_of_24_bytes_xy: <S78 as Ty>::arb(r, d.saturating_sub(1)), aa: <u64 as Ty>::arb(r, d.saturating_sub(1)), y: if r.p(1, 2) { Default::default() } else { <i32 as Ty>::arb(r, d) } }, } }
    fn item(&self) -> V { match self { E66::Other0(inner) => V::M(vec![(V::t("Other0"), inner.item())]), E66::Z1 { field_name_of_23_bytes_x, payload, another_field_name_longer_than_23 } => V::M(vec![(V::t("Z"), { let mut es: Vec<(V, V)> = vec![]; if !field_name_of_23_bytes_x.omit() { es.push((V::t("field_name_of_23_bytes_x"), field_name_of_23_bytes_x.item())) } es.push((V::t("payload"), payload.item())); es.push((V::t("another_field_name_longer_than_23"), another_field_name_longer_than_23.item())); V::M(es) })]), E66::B2(inner) => V::M(vec![(V::t("B2"), inner.item())]), E66::Other3 { kind, field_name_of_24_bytes_xy, aa, y } => V::M(vec![(V::int(4294967295), { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(255), field_name_of_24_bytes_xy.item())); if !m_is_zero(&aa) { es.push((V::t("aa"), aa.item())) } V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Other0") { return top::<AllOpt>(v).map(E66::Other0) } if k == &V::t("Z") { return { let m = entries(v, &[V::t("field_name_of_23_bytes_x"), V::t("payload"), V::t("another_field_name_longer_than_23")], false)?; Ok(E66::Z1 { field_name_of_23_bytes_x: field::<TransBytes>(m, &V::t("field_name_of_23_bytes_x"))?, payload: field::<Option<E26>>(m, &V::t("payload"))?, another_field_name_longer_than_23: field::<i64>(m, &V::t("another_field_name_longer_than_23"))? }) } } if k == &V::t("B2") { return top::<S61>(v).map(E66::B2) } if k == &V::int(4294967295) { return { let m = entries(v, &[V::int(255), V::t("aa")], false)?; Ok(E66::Other3 { kind: Default::default(), field_name_of_24_bytes_xy: field::<S78>(m, &V::int(255))?, aa: field::<u64>(m, &V::t("aa"))?, y: Default::default() }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E66::Other0(inner) => inner.rt_top(), E66::Z1 { field_name_of_23_bytes_x, payload, another_field_name_longer_than_23 } => (*field_name_of_23_bytes_x).rt_top() && (!(*field_name_of_23_bytes_x).omit() || <TransBytes as Ty>::def() == Ok((*field_name_of_23_bytes_x).clone())) && (*payload).rt_top() && (*another_field_name_longer_than_23).rt_top(), E66::B2(inner) => inner.rt_top(), E66::Other3 { kind, field_name_of_24_bytes_xy, aa, y } => (*kind) == <Vec<E3> as Default>::default() && (*field_name_of_24_bytes_xy).rt_top() && (*aa).rt_top() && (!m_is_zero(&(*aa)) || <u64 as Ty>::def() == Ok((*aa).clone())) && (*y) == <i32 as Default>::default(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Other0"), V::t("Z"), V::t("B2"), V::int(4294967295), V::t("field_name_of_23_bytes_x"), V::t("payload"), V::t("another_field_name_longer_than_23"), V::int(255), V::t("aa")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <AllOpt as Ty>::loose() || <S61 as Ty>::loose() || <TransBytes as Ty>::loose() || <Option<E26> as Ty>::loose() || <i64 as Ty>::loose() || <Vec<E3> as Ty>::loose() || <S78 as Ty>::loose() || <u64 as Ty>::loose() || <i32 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E67 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => E67::Z0 { payload: if r.p(1, 2) { Default::default() } else { <Vec<E17> as Ty>::arb(r, d) }, ab: <S76 as Ty>::arb(r, d.saturating_sub(1)), bar: <Vec<E3> as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E67::Tuple1 { first: <Option<S59> as Ty>::arb(r, d.saturating_sub(1)) }, 2 => E67::Free2 { kind: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <u16 as Ty>::arb(r, d.saturating_sub(1)), key: <bool as Ty>::arb(r, d.saturating_sub(1)), a: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, _ => E67::Tuple3(<S29 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { E67::Z0 { payload, ab, bar } => { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("ab"), ab.item())); es.push((V::t("bar"), bar.item())); V::M(es) }, E67::Tuple1 { first } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("first"), first.item())); V::M(es) }, V::int(24), V::t("Tuple1")), E67::Free2 { kind, b, key, a } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !m_enc_plus(&kind).omit() { es.push((V::t("kind"), m_enc_plus(&kind).item())) } if !b.omit() { es.push((V::t("b"), b.item())) } es.push((V::int(2), m_enc_not(&key).item())); es.push((V::t("a"), a.item())); V::M(es) }, V::int(24), V::int(1)), E67::Tuple3(inner) => with_tag(inner.item(), V::int(24), V::t("Tuple3")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(24))?; let v = &v; if k == V::t("Z0") || k == V::S(23) { return { let m = entries(v, &[V::t("ab"), V::t("bar")], true)?; Ok(E67::Z0 { payload: Default::default(), ab: field::<S76>(m, &V::t("ab"))?, bar: field::<Vec<E3>>(m, &V::t("bar"))? }) } } if k == V::t("Tuple1") { return { let m = entries(v, &[V::t("first")], false)?; Ok(E67::Tuple1 { first: field::<Option<S59>>(m, &V::t("first"))? }) } } if k == V::int(1) { return { let m = entries(v, &[V::t("kind"), V::t("b"), V::int(2), V::t("a")], false)?; Ok(E67::Free2 { kind: m_dec_plus(field::<u128>(m, &V::t("kind"))?)?, b: m_dec_small(field::<u16>(m, &V::t("b"))?)?, key: m_dec_not(field::<bool>(m, &V::int(2))?)?, a: field::<u16>(m, &V::t("a"))? }) } } if k == V::t("Tuple3") { return top::<S29>(v).map(E67::Tuple3) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E67::Z0 { payload, ab, bar } => (*payload) == <Vec<E17> as Default>::default() && (*ab).rt_top() && (*bar).rt_top(), E67::Tuple1 { first } => (*first).rt_top(), E67::Free2 { kind, b, key, a } => m_enc_plus(&(*kind)).rt_top() && m_dec_plus(m_enc_plus(&(*kind))).as_ref() == Ok(&(*kind)) && (!m_enc_plus(&(*kind)).omit() || <u128 as Ty>::def() == Ok(m_enc_plus(&(*kind)).clone())) && (*b).rt_top() && m_dec_small((*b)).as_ref() == Ok(&(*b)) && (!(*b).omit() || <u16 as Ty>::def() == Ok((*b).clone())) && m_enc_not(&(*key)).rt_top() && m_dec_not(m_enc_not(&(*key))).as_ref() == Ok(&(*key)) && (*a).rt_top(), E67::Tuple3(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Z0"), V::t("Tuple1"), V::int(1), V::t("Tuple3"), V::t("ab"), V::t("bar"), V::t("first"), V::t("kind"), V::t("b"), V::int(2), V::t("a"), V::int(24)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <S29 as Ty>::loose() || <Vec<E17> as Ty>::loose() || <S76 as Ty>::loose() || <Vec<E3> as Ty>::loose() || <Option<S59> as Ty>::loose() || <u64 as Ty>::loose() || <u16 as Ty>::loose() || <bool as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for E68 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => E68::Tuple0, 1 => E68::A1, 2 => E68::C2, 3 => E68::Gone3, _ => E68::Gone4, } }
    fn item(&self) -> V { match self { E68::Tuple0 => V::M(vec![(V::t("value"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E68::A1 => V::M(vec![(V::t("A1"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), E68::C2 => V::t("C2"), E68::Gone3 => V::int(7), E68::Gone4 => V::M(vec![(V::t("Gone4"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("value") { return unit(v, false).map(|_| E68::Tuple0) } if k == &V::t("A1") { return unit(v, false).map(|_| E68::A1) } if k == &V::t("Gone4") { return unit(v, false).map(|_| E68::Gone4) } } _ => { if *v == V::t("C2") { return Ok(E68::C2) } if *v == V::int(7) { return Ok(E68::Gone3) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E68::Tuple0 => true, E68::A1 => true, E68::C2 => true, E68::Gone3 => true, E68::Gone4 => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("value"), V::t("A1"), V::t("Gone4")] }
    fn others() -> Vec<V> { vec![V::t("C2"), V::int(7)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for E69 {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => E69::Free0 { a_long_field_name: <BTreeMap<String, u8> as Ty>::arb(r, d.saturating_sub(1)), first: <u64 as Ty>::arb(r, d.saturating_sub(1)), y: <Option<S41> as Ty>::arb(r, d.saturating_sub(1)), second: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => E69::Free1 {  }, _ => E69::LongVariantNameHere2 { a_long_field_name: <bool as Ty>::arb(r, d.saturating_sub(1)), field_name_of_23_bytes_x: <E12 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { E69::Free0 { a_long_field_name, first, y, second } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !a_long_field_name.omit() { es.push((V::t("a_long_field_name"), a_long_field_name.item())) } if !m_is_odd(&first) { es.push((V::t("first"), first.item())) } if !y.omit() { es.push((V::t("y"), y.item())) } es.push((V::t(""), m_enc_cap(&second).item())); V::M(es) }, V::t("tag"), V::t("Free0")), E69::Free1 {  } => { let mut es: Vec<(V, V)> = vec![]; V::M(es) }, E69::LongVariantNameHere2 { a_long_field_name, field_name_of_23_bytes_x } => with_tag({ let mut es: Vec<(V, V)> = vec![]; if !m_enc_not(&a_long_field_name).omit() { es.push((V::int(7), m_enc_not(&a_long_field_name).item())) } es.push((V::t("Z"), field_name_of_23_bytes_x.item())); V::M(es) }, V::t("tag"), V::t("Z")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("tag"))?; let v = &v; if k == V::t("Free0") { return { let m = entries(v, &[V::t("a_long_field_name"), V::t("first"), V::t("y"), V::t("")], true)?; Ok(E69::Free0 { a_long_field_name: field::<BTreeMap<String, u8>>(m, &V::t("a_long_field_name"))?, first: field::<u64>(m, &V::t("first"))?, y: field::<Option<S41>>(m, &V::t("y"))?, second: field::<u64>(m, &V::t(""))? }) } } if k == V::t("Free1") || k == V::S(23) { return { let m = entries(v, &[], true)?; Ok(E69::Free1 {  }) } } if k == V::t("Z") { return { let m = entries(v, &[V::int(7), V::t("Z")], false)?; Ok(E69::LongVariantNameHere2 { a_long_field_name: m_dec_not(field::<bool>(m, &V::int(7))?)?, field_name_of_23_bytes_x: field::<E12>(m, &V::t("Z"))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { E69::Free0 { a_long_field_name, first, y, second } => (*a_long_field_name).rt_top() && (!(*a_long_field_name).omit() || <BTreeMap<String, u8> as Ty>::def() == Ok((*a_long_field_name).clone())) && (*first).rt_top() && (!m_is_odd(&(*first)) || <u64 as Ty>::def() == Ok((*first).clone())) && (*y).rt_top() && (!(*y).omit() || <Option<S41> as Ty>::def() == Ok((*y).clone())) && m_enc_cap(&(*second)).rt_top() && m_enc_cap(&(*second)) == (*second), E69::Free1 {  } => true, E69::LongVariantNameHere2 { a_long_field_name, field_name_of_23_bytes_x } => m_enc_not(&(*a_long_field_name)).rt_top() && m_dec_not(m_enc_not(&(*a_long_field_name))).as_ref() == Ok(&(*a_long_field_name)) && (!m_enc_not(&(*a_long_field_name)).omit() || <bool as Ty>::def() == Ok(m_enc_not(&(*a_long_field_name)).clone())) && (*field_name_of_23_bytes_x).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Free0"), V::t("Free1"), V::t("Z"), V::t("a_long_field_name"), V::t("first"), V::t("y"), V::t(""), V::int(7), V::t("tag")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <BTreeMap<String, u8> as Ty>::loose() || <u64 as Ty>::loose() || <Option<S41> as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <E12 as Ty>::loose() }
}
pub fn declarations() -> Vec<Decl> { vec![decl::<S0>("S0"), decl::<S1>("S1"), decl::<S2>("S2"), decl::<S3>("S3"), decl::<S4>("S4"), decl::<S5>("S5"), decl::<S6>("S6"), decl::<S7>("S7"), decl::<S8>("S8"), decl::<S9>("S9"), decl::<S10>("S10"), decl::<S11>("S11"), decl::<S12>("S12"), decl::<S13>("S13"), decl::<S14>("S14"), decl::<S15>("S15"), decl::<S16>("S16"), decl::<S17>("S17"), decl::<S18>("S18"), decl::<S19>("S19"), decl::<S20>("S20"), decl::<S21>("S21"), decl::<S22>("S22"), decl::<S23>("S23"), decl::<S24>("S24"), decl::<S25>("S25"), decl::<S26>("S26"), decl::<S27>("S27"), decl::<S28>("S28"), decl::<S29>("S29"), decl::<S30>("S30"), decl::<S31>("S31"), decl::<S32>("S32"), decl::<S33>("S33"), decl::<S34>("S34"), decl::<S35>("S35"), decl::<S36>("S36"), decl::<S37>("S37"), decl::<S38>("S38"), decl::<S39>("S39"), decl::<S40>("S40"), decl::<S41>("S41"), decl::<S42>("S42"), decl::<S43>("S43"), decl::<S44>("S44"), decl::<S45>("S45"), decl::<S46>("S46"), decl::<S47>("S47"), decl::<S48>("S48"), decl::<S49>("S49"), decl::<S50>("S50"), decl::<S51>("S51"), decl::<S52>("S52"), decl::<S53>("S53"), decl::<S54>("S54"), decl::<S55>("S55"), decl::<S56>("S56"), decl::<S57>("S57"), decl::<S58>("S58"), decl::<S59>("S59"), decl::<S60>("S60"), decl::<S61>("S61"), decl::<S62>("S62"), decl::<S63>("S63"), decl::<S64>("S64"), decl::<S65>("S65"), decl::<S66>("S66"), decl::<S67>("S67"), decl::<S68>("S68"), decl::<S69>("S69"), decl::<S70>("S70"), decl::<S71>("S71"), decl::<S72>("S72"), decl::<S73>("S73"), decl::<S74>("S74"), decl::<S75>("S75"), decl::<S76>("S76"), decl::<S77>("S77"), decl::<S78>("S78"), decl::<S79>("S79"), decl::<S80>("S80"), decl::<S81>("S81"), decl::<S82>("S82"), decl::<S83>("S83"), decl::<S84>("S84"), decl::<S85>("S85"), decl::<S86>("S86"), decl::<S87>("S87"), decl::<S88>("S88"), decl::<S89>("S89"), decl::<E0>("E0"), decl::<E1>("E1"), decl::<E2>("E2"), decl::<E3>("E3"), decl::<E4>("E4"), decl::<E5>("E5"), decl::<E6>("E6"), decl::<E7>("E7"), decl::<E8>("E8"), decl::<E9>("E9"), decl::<E10>("E10"), decl::<E11>("E11"), decl::<E12>("E12"), decl::<E13>("E13"), decl::<E14>("E14"), decl::<E15>("E15"), decl::<E16>("E16"), decl::<E17>("E17"), decl::<E18>("E18"), decl::<E19>("E19"), decl::<E20>("E20"), decl::<E21>("E21"), decl::<E22>("E22"), decl::<E23>("E23"), decl::<E24>("E24"), decl::<E25>("E25"), decl::<E26>("E26"), decl::<E27>("E27"), decl::<E28>("E28"), decl::<E29>("E29"), decl::<E30>("E30"), decl::<E31>("E31"), decl::<E32>("E32"), decl::<E33>("E33"), decl::<E34>("E34"), decl::<E35>("E35"), decl::<E36>("E36"), decl::<E37>("E37"), decl::<E38>("E38"), decl::<E39>("E39"), decl::<E40>("E40"), decl::<E41>("E41"), decl::<E42>("E42"), decl::<E43>("E43"), decl::<E44>("E44"), decl::<E45>("E45"), decl::<E46>("E46"), decl::<E47>("E47"), decl::<E48>("E48"), decl::<E49>("E49"), decl::<E50>("E50"), decl::<E51>("E51"), decl::<E52>("E52"), decl::<E53>("E53"), decl::<E54>("E54"), decl::<E55>("E55"), decl::<E56>("E56"), decl::<E57>("E57"), decl::<E58>("E58"), decl::<E59>("E59"), decl::<E60>("E60"), decl::<E61>("E61"), decl::<E62>("E62"), decl::<E63>("E63"), decl::<E64>("E64"), decl::<E65>("E65"), decl::<E66>("E66"), decl::<E67>("E67"), decl::<E68>("E68"), decl::<E69>("E69")] }
