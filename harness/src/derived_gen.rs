// Generated by tools/gen_derive.py.
use crate::{derived::*, gen::*, model::*, typed::*};
#[allow(unused_imports)]
use oasis_cbor::Value;
use vx_catalogue::derived::*;

impl Ty for Plain {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Plain { zeta: <u64 as Ty>::arb(r, d.saturating_sub(1)), alpha: <String as Ty>::arb(r, d.saturating_sub(1)), mid: <Vec<u8> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zeta"), self.zeta.item())); es.push((V::t("alpha"), self.alpha.item())); es.push((V::t("mid"), self.mid.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("zeta"), V::t("alpha"), V::t("mid")], false)?; Ok(Plain { zeta: field::<u64>(m, &V::t("zeta"))?, alpha: field::<String>(m, &V::t("alpha"))?, mid: field::<Vec<u8>>(m, &V::t("mid"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.zeta.rt_top() && self.alpha.rt_top() && self.mid.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("zeta"), V::t("alpha"), V::t("mid")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <String as Ty>::loose() || <Vec<u8> as Ty>::loose() }
}
impl Ty for Opt {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Opt { must: <u64 as Ty>::arb(r, d.saturating_sub(1)), n: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <bool as Ty>::arb(r, d.saturating_sub(1)), s: <String as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("must"), self.must.item())); if !self.n.omit() { es.push((V::t("n"), self.n.item())) } if !self.b.omit() { es.push((V::t("b"), self.b.item())) } if !self.s.omit() { es.push((V::t("s"), self.s.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("must"), V::t("n"), V::t("b"), V::t("s")], false)?; Ok(Opt { must: field::<u64>(m, &V::t("must"))?, n: field::<u64>(m, &V::t("n"))?, b: field::<bool>(m, &V::t("b"))?, s: field::<String>(m, &V::t("s"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.must.rt_top() && self.n.rt_top() && (!self.n.omit() || <u64 as Ty>::def() == Ok(self.n.clone())) && self.b.rt_top() && (!self.b.omit() || <bool as Ty>::def() == Ok(self.b.clone())) && self.s.rt_top() && (!self.s.omit() || <String as Ty>::def() == Ok(self.s.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("must"), V::t("n"), V::t("b"), V::t("s")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for OptMore {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); OptMore { v: <Vec<u16> as Ty>::arb(r, d.saturating_sub(1)), d: <Value as Ty>::arb(r, d.saturating_sub(1)), t: <(u64, bool) as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.v.omit() { es.push((V::t("v"), self.v.item())) } if !self.d.omit() { es.push((V::t("d"), self.d.item())) } if !self.t.omit() { es.push((V::t("t"), self.t.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("v"), V::t("d"), V::t("t")], false)?; Ok(OptMore { v: field::<Vec<u16>>(m, &V::t("v"))?, d: field::<Value>(m, &V::t("d"))?, t: field::<(u64, bool)>(m, &V::t("t"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.v.rt_top() && (!self.v.omit() || <Vec<u16> as Ty>::def() == Ok(self.v.clone())) && self.d.rt_top() && (!self.d.omit() || <Value as Ty>::def() == Ok(self.d.clone())) && self.t.rt_top() && (!self.t.omit() || <(u64, bool) as Ty>::def() == Ok(self.t.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("v"), V::t("d"), V::t("t")] }
    fn loose() -> bool { false || <Vec<u16> as Ty>::loose() || <Value as Ty>::loose() || <(u64, bool) as Ty>::loose() }
}
impl Ty for Renamed {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Renamed { first: <u64 as Ty>::arb(r, d.saturating_sub(1)), second: <bool as Ty>::arb(r, d.saturating_sub(1)), third: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), plain: <u8 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), self.first.item())); es.push((V::int(300), self.second.item())); es.push((V::int(7), self.third.item())); es.push((V::t("plain"), self.plain.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("b"), V::int(300), V::int(7), V::t("plain")], false)?; Ok(Renamed { first: field::<u64>(m, &V::t("b"))?, second: field::<bool>(m, &V::int(300))?, third: field::<Option<bool>>(m, &V::int(7))?, plain: field::<u8>(m, &V::t("plain"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.first.rt_top() && self.second.rt_top() && self.third.rt_top() && self.plain.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("b"), V::int(300), V::int(7), V::t("plain")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <bool as Ty>::loose() || <Option<bool> as Ty>::loose() || <u8 as Ty>::loose() }
}
impl Ty for AllOpt {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); AllOpt { x: <u64 as Ty>::arb(r, d.saturating_sub(1)), y: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.x.omit() { es.push((V::t("x"), self.x.item())) } if !self.y.omit() { es.push((V::t("y"), self.y.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("x"), V::t("y")], false)?; Ok(AllOpt { x: field::<u64>(m, &V::t("x"))?, y: field::<Option<bool>>(m, &V::t("y"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.x.rt_top() && (!self.x.omit() || <u64 as Ty>::def() == Ok(self.x.clone())) && self.y.rt_top() && (!self.y.omit() || <Option<bool> as Ty>::def() == Ok(self.y.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("x"), V::t("y")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <Option<bool> as Ty>::loose() }
}
impl Ty for Nested {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Nested { inner: <Plain as Ty>::arb(r, d.saturating_sub(1)), list: <Vec<AllOpt> as Ty>::arb(r, d.saturating_sub(1)), maybe: <Option<Plain> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("inner"), self.inner.item())); es.push((V::t("list"), self.list.item())); es.push((V::t("maybe"), self.maybe.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("inner"), V::t("list"), V::t("maybe")], false)?; Ok(Nested { inner: field::<Plain>(m, &V::t("inner"))?, list: field::<Vec<AllOpt>>(m, &V::t("list"))?, maybe: field::<Option<Plain>>(m, &V::t("maybe"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.inner.rt_top() && self.list.rt_top() && self.maybe.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("inner"), V::t("list"), V::t("maybe")] }
    fn loose() -> bool { false || <Plain as Ty>::loose() || <Vec<AllOpt> as Ty>::loose() || <Option<Plain> as Ty>::loose() }
}
impl Ty for OptNested {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); OptNested { inner: <AllOpt as Ty>::arb(r, d.saturating_sub(1)), unit: <Unit as Ty>::arb(r, d.saturating_sub(1)), plain: <Plain as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.inner.omit() { es.push((V::t("inner"), self.inner.item())) } if !self.unit.omit() { es.push((V::t("unit"), self.unit.item())) } if !self.plain.omit() { es.push((V::t("plain"), self.plain.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("inner"), V::t("unit"), V::t("plain")], false)?; Ok(OptNested { inner: field::<AllOpt>(m, &V::t("inner"))?, unit: field::<Unit>(m, &V::t("unit"))?, plain: field::<Plain>(m, &V::t("plain"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.inner.rt_top() && (!self.inner.omit() || <AllOpt as Ty>::def() == Ok(self.inner.clone())) && self.unit.rt_top() && (!self.unit.omit() || <Unit as Ty>::def() == Ok(self.unit.clone())) && self.plain.rt_top() && (!self.plain.omit() || <Plain as Ty>::def() == Ok(self.plain.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("inner"), V::t("unit"), V::t("plain")] }
    fn loose() -> bool { false || <AllOpt as Ty>::loose() || <Unit as Ty>::loose() || <Plain as Ty>::loose() }
}
impl Ty for Unit {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Unit }
    fn item(&self) -> V { V::null() }
    fn dec(v: &V) -> DR<Self> { unit(v, false).map(|_| Unit) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { true }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for EmptyBraces {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); EmptyBraces {  } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[], false)?; Ok(EmptyBraces {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for AsArr {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); AsArr { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), hidden: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, z: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.a.item()); xs.push(self.z.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(AsArr { a: top::<u64>(a.get(0).ok_or(D::Missing)?)?, hidden: Default::default(), z: top::<Option<String>>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && self.hidden == <u64 as Default>::default() && self.z.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <Option<String> as Ty>::loose() }
}
impl Ty for LooseArr {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); LooseArr { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.a.item()); xs.push(self.b.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, true)?; Ok(LooseArr { a: top::<u64>(a.get(0).ok_or(D::Missing)?)?, b: top::<bool>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && self.b.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for Tup {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Tup(<u64 as Ty>::arb(r, d.saturating_sub(1)), <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), <String as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(self.1.item()); xs.push(self.2.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(Tup(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<Option<bool>>(a.get(1).ok_or(D::Missing)?)?, top::<String>(a.get(2).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1.rt_top() && self.2.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <Option<bool> as Ty>::loose() || <String as Ty>::loose() }
}
impl Ty for NewT {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); NewT(<u64 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 1, false)?; Ok(NewT(top::<u64>(a.get(0).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() }
}
impl Ty for Trans {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Trans(<u64 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { self.0.item() }
    fn dec(v: &V) -> DR<Self> { top::<u64>(v).map(Trans) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.0.omit() }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() }
}
impl Ty for TransOpt {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); TransOpt(<Option<Plain> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { self.0.item() }
    fn dec(v: &V) -> DR<Self> { top::<Option<Plain>>(v).map(TransOpt) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.0.omit() }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Option<Plain> as Ty>::loose() }
}
impl Ty for Loose {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Loose { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), z: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)), k: <u8 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), self.a.item())); if !self.z.omit() { es.push((V::t("z"), self.z.item())) } es.push((V::int(7), self.k.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a"), V::t("z"), V::int(7)], true)?; Ok(Loose { a: field::<u64>(m, &V::t("a"))?, z: field::<Option<bool>>(m, &V::t("z"))?, k: field::<u8>(m, &V::int(7))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && self.z.rt_top() && (!self.z.omit() || <Option<bool> as Ty>::def() == Ok(self.z.clone())) && self.k.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a"), V::t("z"), V::int(7)] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <Option<bool> as Ty>::loose() || <u8 as Ty>::loose() }
}
impl Ty for NoDef {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); NoDef { a: <[u64; 2] as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), self.a.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a")], false)?; Ok(NoDef { a: field::<[u64; 2]>(m, &V::t("a"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a")] }
    fn loose() -> bool { false || <[u64; 2] as Ty>::loose() }
}
impl Ty for HoldsNoDef {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); HoldsNoDef { a: <NoDef as Ty>::arb(r, d.saturating_sub(1)), o: <Option<NoDef> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), self.a.item())); es.push((V::t("o"), self.o.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a"), V::t("o")], false)?; Ok(HoldsNoDef { a: field::<NoDef>(m, &V::t("a"))?, o: field::<Option<NoDef>>(m, &V::t("o"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && self.o.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a"), V::t("o")] }
    fn loose() -> bool { false || <NoDef as Ty>::loose() || <Option<NoDef> as Ty>::loose() }
}
impl Ty for Skips {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Skips { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), h: if r.p(1, 2) { Default::default() } else { <String as Ty>::arb(r, d) }, i: if r.p(1, 2) { Default::default() } else { <Option<u8> as Ty>::arb(r, d) }, z: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), self.a.item())); es.push((V::t("z"), self.z.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a"), V::t("z")], false)?; Ok(Skips { a: field::<u64>(m, &V::t("a"))?, h: Default::default(), i: Default::default(), z: field::<bool>(m, &V::t("z"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && self.h == <String as Default>::default() && self.i == <Option<u8> as Default>::default() && self.z.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a"), V::t("z")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <String as Ty>::loose() || <Option<u8> as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for SkipIf {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); SkipIf { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <u64 as Ty>::arb(r, d.saturating_sub(1)), c: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !m_is_zero(&self.a) { es.push((V::t("a"), self.a.item())) } if !m_is_odd(&self.b) { es.push((V::t("b"), self.b.item())) } es.push((V::t("c"), self.c.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("a"), V::t("b"), V::t("c")], false)?; Ok(SkipIf { a: field::<u64>(m, &V::t("a"))?, b: field::<u64>(m, &V::t("b"))?, c: field::<u64>(m, &V::t("c"))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.a.rt_top() && (!m_is_zero(&self.a) || <u64 as Ty>::def() == Ok(self.a.clone())) && self.b.rt_top() && (!m_is_odd(&self.b) || <u64 as Ty>::def() == Ok(self.b.clone())) && self.c.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("a"), V::t("b"), V::t("c")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for With {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); With { p: <u64 as Ty>::arb(r, d.saturating_sub(1)), q: <bool as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("p"), m_enc_plus(&self.p).item())); if !m_enc_not(&self.q).omit() { es.push((V::t("q"), m_enc_not(&self.q).item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("p"), V::t("q")], false)?; Ok(With { p: m_dec_plus(field::<u128>(m, &V::t("p"))?)?, q: m_dec_not(field::<bool>(m, &V::t("q"))?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_plus(&self.p).rt_top() && m_dec_plus(m_enc_plus(&self.p)).as_ref() == Ok(&self.p) && m_enc_not(&self.q).rt_top() && m_dec_not(m_enc_not(&self.q)).as_ref() == Ok(&self.q) && (!m_enc_not(&self.q).omit() || <bool as Ty>::def() == Ok(m_enc_not(&self.q).clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("p"), V::t("q")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <bool as Ty>::loose() }
}
impl Ty for LongNames {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); LongNames { zeta_zeta_zeta_zeta_zeta: <u64 as Ty>::arb(r, d.saturating_sub(1)), alpha_alpha_alpha_alpha_alpha: <u64 as Ty>::arb(r, d.saturating_sub(1)), mid: <bool as Ty>::arb(r, d.saturating_sub(1)), e: <u8 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("zeta_zeta_zeta_zeta_zeta"), self.zeta_zeta_zeta_zeta_zeta.item())); if !self.alpha_alpha_alpha_alpha_alpha.omit() { es.push((V::t("alpha_alpha_alpha_alpha_alpha"), self.alpha_alpha_alpha_alpha_alpha.item())) } es.push((V::t("name of 23 bytes exactl"), self.mid.item())); es.push((V::t(""), self.e.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("zeta_zeta_zeta_zeta_zeta"), V::t("alpha_alpha_alpha_alpha_alpha"), V::t("name of 23 bytes exactl"), V::t("")], false)?; Ok(LongNames { zeta_zeta_zeta_zeta_zeta: field::<u64>(m, &V::t("zeta_zeta_zeta_zeta_zeta"))?, alpha_alpha_alpha_alpha_alpha: field::<u64>(m, &V::t("alpha_alpha_alpha_alpha_alpha"))?, mid: field::<bool>(m, &V::t("name of 23 bytes exactl"))?, e: field::<u8>(m, &V::t(""))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.zeta_zeta_zeta_zeta_zeta.rt_top() && self.alpha_alpha_alpha_alpha_alpha.rt_top() && (!self.alpha_alpha_alpha_alpha_alpha.omit() || <u64 as Ty>::def() == Ok(self.alpha_alpha_alpha_alpha_alpha.clone())) && self.mid.rt_top() && self.e.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("zeta_zeta_zeta_zeta_zeta"), V::t("alpha_alpha_alpha_alpha_alpha"), V::t("name of 23 bytes exactl"), V::t("")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <bool as Ty>::loose() || <u8 as Ty>::loose() }
}
impl Ty for BigKeys {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); BigKeys { e: <u64 as Ty>::arb(r, d.saturating_sub(1)), d: <u8 as Ty>::arb(r, d.saturating_sub(1)), c: <bool as Ty>::arb(r, d.saturating_sub(1)), text: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <u64 as Ty>::arb(r, d.saturating_sub(1)), a: <Option<u64> as Ty>::arb(r, d.saturating_sub(1)), z: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(18446744073709551615), self.e.item())); es.push((V::int(4294967296), self.d.item())); es.push((V::int(65536), self.c.item())); es.push((V::t("text"), self.text.item())); if !self.b.omit() { es.push((V::int(256), self.b.item())) } es.push((V::int(24), self.a.item())); es.push((V::int(0), self.z.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::int(18446744073709551615), V::int(4294967296), V::int(65536), V::t("text"), V::int(256), V::int(24), V::int(0)], false)?; Ok(BigKeys { e: field::<u64>(m, &V::int(18446744073709551615))?, d: field::<u8>(m, &V::int(4294967296))?, c: field::<bool>(m, &V::int(65536))?, text: field::<u64>(m, &V::t("text"))?, b: field::<u64>(m, &V::int(256))?, a: field::<Option<u64>>(m, &V::int(24))?, z: field::<u64>(m, &V::int(0))? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.e.rt_top() && self.d.rt_top() && self.c.rt_top() && self.text.rt_top() && self.b.rt_top() && (!self.b.omit() || <u64 as Ty>::def() == Ok(self.b.clone())) && self.a.rt_top() && self.z.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::int(18446744073709551615), V::int(4294967296), V::int(65536), V::t("text"), V::int(256), V::int(24), V::int(0)] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <bool as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <Option<u64> as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for TupMix {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); TupMix(<u64 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, <u64 as Ty>::arb(r, d.saturating_sub(1)), <u16 as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.0.item()); xs.push(m_enc_plus(&self.2).item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 3, false)?; Ok(TupMix(top::<u64>(a.get(0).ok_or(D::Missing)?)?, Default::default(), m_dec_plus(top::<u128>(a.get(1).ok_or(D::Missing)?)?)?, m_dec_small(top::<u16>(a.get(2).ok_or(D::Missing)?)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0.rt_top() && self.1 == <u8 as Default>::default() && m_enc_plus(&self.2).rt_top() && m_dec_plus(m_enc_plus(&self.2)).as_ref() == Ok(&self.2) && self.3.rt_top() && m_dec_small(self.3).as_ref() == Ok(&self.3) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <u16 as Ty>::loose() }
}
impl Ty for ArrMix {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); ArrMix { h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, b: <bool as Ty>::arb(r, d.saturating_sub(1)), a: <Option<bool> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(m_enc_not(&self.b).item()); xs.push(self.a.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(ArrMix { h: Default::default(), b: m_dec_not(top::<bool>(a.get(0).ok_or(D::Missing)?)?)?, a: top::<Option<bool>>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.h == <u8 as Default>::default() && m_enc_not(&self.b).rt_top() && m_dec_not(m_enc_not(&self.b)).as_ref() == Ok(&self.b) && self.a.rt_top() && (!self.a.omit() || <Option<bool> as Ty>::def() == Ok(self.a.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u8 as Ty>::loose() || <bool as Ty>::loose() || <Option<bool> as Ty>::loose() }
}
impl Ty for Codecs {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Codecs { cap: <u64 as Ty>::arb(r, d.saturating_sub(1)), small: <u16 as Ty>::arb(r, d.saturating_sub(1)), both: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("cap"), m_enc_cap(&self.cap).item())); if !self.small.omit() { es.push((V::t("small"), self.small.item())) } if !m_is_zero(&self.both) { es.push((V::int(9), m_enc_plus(&self.both).item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("cap"), V::t("small"), V::int(9)], false)?; Ok(Codecs { cap: field::<u64>(m, &V::t("cap"))?, small: m_dec_small(field::<u16>(m, &V::t("small"))?)?, both: m_dec_plus(field::<u128>(m, &V::int(9))?)? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_cap(&self.cap).rt_top() && m_enc_cap(&self.cap) == self.cap && self.small.rt_top() && m_dec_small(self.small).as_ref() == Ok(&self.small) && (!self.small.omit() || <u16 as Ty>::def() == Ok(self.small.clone())) && m_enc_plus(&self.both).rt_top() && m_dec_plus(m_enc_plus(&self.both)).as_ref() == Ok(&self.both) && (!m_is_zero(&self.both) || <u128 as Ty>::def() == Ok(m_enc_plus(&self.both).clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("cap"), V::t("small"), V::int(9)] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u16 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for LooseCodecs {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); LooseCodecs { b: <bool as Ty>::arb(r, d.saturating_sub(1)), a: <u16 as Ty>::arb(r, d.saturating_sub(1)), h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, k: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), m_enc_not(&self.b).item())); if !self.a.omit() { es.push((V::t("a"), self.a.item())) } if !m_is_odd(&self.k) { es.push((V::t("k"), self.k.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("b"), V::t("a"), V::t("k")], true)?; Ok(LooseCodecs { b: m_dec_not(field::<bool>(m, &V::t("b"))?)?, a: m_dec_small(field::<u16>(m, &V::t("a"))?)?, h: Default::default(), k: field::<u64>(m, &V::t("k"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { m_enc_not(&self.b).rt_top() && m_dec_not(m_enc_not(&self.b)).as_ref() == Ok(&self.b) && self.a.rt_top() && m_dec_small(self.a).as_ref() == Ok(&self.a) && (!self.a.omit() || <u16 as Ty>::def() == Ok(self.a.clone())) && self.h == <u8 as Default>::default() && self.k.rt_top() && (!m_is_odd(&self.k) || <u64 as Ty>::def() == Ok(self.k.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("b"), V::t("a"), V::t("k")] }
    fn loose() -> bool { true || <bool as Ty>::loose() || <u16 as Ty>::loose() || <u8 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for LooseUnit {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); LooseUnit }
    fn item(&self) -> V { V::null() }
    fn dec(v: &V) -> DR<Self> { unit(v, true).map(|_| LooseUnit) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { true }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { true }
}
impl Ty for EmptyTup {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); EmptyTup() }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, false)?; Ok(EmptyTup()) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for EmptyArr {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); EmptyArr {  } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 0, false)?; Ok(EmptyArr {  }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { true }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false }
}
impl Ty for TransBytes {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); TransBytes(<Vec<u8> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { self.0.item() }
    fn dec(v: &V) -> DR<Self> { top::<Vec<u8>>(v).map(TransBytes) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.0.omit() }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Vec<u8> as Ty>::loose() }
}
impl Ty for TransOpt2 {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); TransOpt2(<AllOpt as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { self.0.item() }
    fn dec(v: &V) -> DR<Self> { top::<AllOpt>(v).map(TransOpt2) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.0.omit() }
    fn rt(&self) -> bool { self.0.rt_top() }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <AllOpt as Ty>::loose() }
}
impl Ty for HasTrans {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); HasTrans { b: <TransBytes as Ty>::arb(r, d.saturating_sub(1)), o: <TransOpt2 as Ty>::arb(r, d.saturating_sub(1)), l: <Vec<TransBytes> as Ty>::arb(r, d.saturating_sub(1)), m: <Option<LooseUnit> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; if !self.b.omit() { es.push((V::t("b"), self.b.item())) } if !self.o.omit() { es.push((V::t("o"), self.o.item())) } es.push((V::t("l"), self.l.item())); es.push((V::t("m"), self.m.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("b"), V::t("o"), V::t("l"), V::t("m")], false)?; Ok(HasTrans { b: field::<TransBytes>(m, &V::t("b"))?, o: field::<TransOpt2>(m, &V::t("o"))?, l: field::<Vec<TransBytes>>(m, &V::t("l"))?, m: field::<Option<LooseUnit>>(m, &V::t("m"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.b.rt_top() && (!self.b.omit() || <TransBytes as Ty>::def() == Ok(self.b.clone())) && self.o.rt_top() && (!self.o.omit() || <TransOpt2 as Ty>::def() == Ok(self.o.clone())) && self.l.rt_top() && self.m.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("b"), V::t("o"), V::t("l"), V::t("m")] }
    fn loose() -> bool { false || <TransBytes as Ty>::loose() || <TransOpt2 as Ty>::loose() || <Vec<TransBytes> as Ty>::loose() || <Option<LooseUnit> as Ty>::loose() }
}
impl Ty for ArrSkips {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); ArrSkips { h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, a: <u64 as Ty>::arb(r, d.saturating_sub(1)), i: if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, b: <u64 as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.a.item()); xs.push(self.b.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(ArrSkips { h: Default::default(), a: top::<u64>(a.get(0).ok_or(D::Missing)?)?, i: Default::default(), b: top::<u64>(a.get(1).ok_or(D::Missing)?)? }) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.h == <u8 as Default>::default() && self.a.rt_top() && self.i == <u64 as Default>::default() && self.b.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for TupSkips {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); TupSkips(if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, <u64 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, <Option<u64> as Ty>::arb(r, d.saturating_sub(1))) }
    fn item(&self) -> V { { let mut xs: Vec<V> = vec![]; xs.push(self.1.item()); xs.push(self.3.item()); V::A(xs) } }
    fn dec(v: &V) -> DR<Self> { { let a = elements(v, 2, false)?; Ok(TupSkips(Default::default(), top::<u64>(a.get(0).ok_or(D::Missing)?)?, Default::default(), top::<Option<u64>>(a.get(1).ok_or(D::Missing)?)?)) } }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.0 == <u8 as Default>::default() && self.1.rt_top() && self.2 == <u64 as Default>::default() && self.3.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <Option<u64> as Ty>::loose() }
}
impl<T: Ty> Ty for Gen<T> {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); Gen { one: <T as Ty>::arb(r, d.saturating_sub(1)), o: <Option<T> as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("one"), self.one.item())); es.push((V::t("o"), self.o.item())); V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("one"), V::t("o")], false)?; Ok(Gen { one: field::<T>(m, &V::t("one"))?, o: field::<Option<T>>(m, &V::t("o"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.one.rt_top() && self.o.rt_top() }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("one"), V::t("o")] }
    fn loose() -> bool { false || <T as Ty>::loose() || <Option<T> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Units {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => Units::A, 1 => Units::B, 2 => Units::C, _ => Units::D, } }
    fn item(&self) -> V { match self { Units::A => V::t("A"), Units::B => V::t("bee"), Units::C => V::t("C"), Units::D => V::int(5), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::t("A") { return Ok(Units::A) } if *v == V::t("bee") { return Ok(Units::B) } if *v == V::t("C") { return Ok(Units::C) } if *v == V::int(5) { return Ok(Units::D) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Units::A => true, Units::B => true, Units::C => true, Units::D => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::t("A"), V::t("bee"), V::t("C"), V::int(5)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for Disc {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => Disc::A, 1 => Disc::B, 2 => Disc::C, _ => Disc::D, } }
    fn item(&self) -> V { match self { Disc::A => V::int(0), Disc::B => V::int(-3), Disc::C => V::int(300), Disc::D => V::int(70000), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(0) { return Ok(Disc::A) } if *v == V::int(-3) { return Ok(Disc::B) } if *v == V::int(300) { return Ok(Disc::C) } if *v == V::int(70000) { return Ok(Disc::D) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Ok(Default::default()) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Disc::A => true, Disc::B => true, Disc::C => true, Disc::D => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(0), V::int(-3), V::int(300), V::int(70000)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for Mixed {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => Mixed::Nothing, 1 => Mixed::New(<u64 as Ty>::arb(r, d.saturating_sub(1))), 2 => Mixed::Pair(<u64 as Ty>::arb(r, d.saturating_sub(1)), <Option<bool> as Ty>::arb(r, d.saturating_sub(1))), 3 => Mixed::Rec { b: <u64 as Ty>::arb(r, d.saturating_sub(1)), a: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) }, _ => Mixed::Gone(<u64 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { Mixed::Nothing => V::t("Nothing"), Mixed::New(inner) => V::M(vec![(V::t("New"), inner.item())]), Mixed::Pair(f0, f1) => V::M(vec![(V::t("Pair"), { let mut xs: Vec<V> = vec![]; xs.push(f0.item()); xs.push(f1.item()); V::A(xs) })]), Mixed::Rec { b, a } => V::M(vec![(V::t("r"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), b.item())); if !a.omit() { es.push((V::t("a"), a.item())) } V::M(es) })]), Mixed::Gone(inner) => V::S(23), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("New") { return top::<u64>(v).map(Mixed::New) } if k == &V::t("Pair") { return { let a = elements(v, 2, false)?; Ok(Mixed::Pair(top::<u64>(a.get(0).ok_or(D::Missing)?)?, top::<Option<bool>>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("r") { return { let m = entries(v, &[V::t("b"), V::t("a")], false)?; Ok(Mixed::Rec { b: field::<u64>(m, &V::t("b"))?, a: field::<Option<String>>(m, &V::t("a"))? }) } } } _ => { if *v == V::t("Nothing") { return Ok(Mixed::Nothing) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Mixed::Nothing => true, Mixed::New(inner) => inner.rt_top(), Mixed::Pair(f0, f1) => (*f0).rt_top() && (*f1).rt_top(), Mixed::Rec { b, a } => (*b).rt_top() && (*a).rt_top() && (!(*a).omit() || <Option<String> as Ty>::def() == Ok((*a).clone())), Mixed::Gone(inner) => false, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("New"), V::t("Pair"), V::t("r"), V::t("f0"), V::t("f1"), V::t("b"), V::t("a")] }
    fn others() -> Vec<V> { vec![V::t("Nothing")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <Option<bool> as Ty>::loose() || <u64 as Ty>::loose() || <Option<String> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Shapes {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => Shapes::Arr { x: <u64 as Ty>::arb(r, d.saturating_sub(1)), h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, y: <bool as Ty>::arb(r, d.saturating_sub(1)) }, 1 => Shapes::Braces {  }, _ => Shapes::AsStruct, } }
    fn item(&self) -> V { match self { Shapes::Arr { x, h, y } => V::M(vec![(V::t("Arr"), { let mut xs: Vec<V> = vec![]; xs.push(x.item()); xs.push(y.item()); V::A(xs) })]), Shapes::Braces {  } => V::M(vec![(V::t("Braces"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), Shapes::AsStruct => V::M(vec![(V::t("AsStruct"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Arr") { return { let a = elements(v, 2, false)?; Ok(Shapes::Arr { x: top::<u64>(a.get(0).ok_or(D::Missing)?)?, h: Default::default(), y: top::<bool>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::t("Braces") { return { let m = entries(v, &[], false)?; Ok(Shapes::Braces {  }) } } if k == &V::t("AsStruct") { return unit(v, false).map(|_| Shapes::AsStruct) } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Shapes::Arr { x, h, y } => (*x).rt_top() && (*h) == <u8 as Default>::default() && (*y).rt_top(), Shapes::Braces {  } => true, Shapes::AsStruct => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Arr"), V::t("Braces"), V::t("AsStruct"), V::t("x"), V::t("y")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <bool as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for More {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => More::Hide { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) } }, 1 => More::Deep(<Plain as Ty>::arb(r, d.saturating_sub(1))), _ => More::Free { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { More::Hide { a, h } => V::M(vec![(V::t("Hide"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) })]), More::Deep(inner) => V::M(vec![(V::t("Deep"), inner.item())]), More::Free { a } => V::M(vec![(V::t("Free"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Hide") { return { let m = entries(v, &[V::t("a")], false)?; Ok(More::Hide { a: field::<u64>(m, &V::t("a"))?, h: Default::default() }) } } if k == &V::t("Deep") { return top::<Plain>(v).map(More::Deep) } if k == &V::t("Free") { return { let m = entries(v, &[V::t("a")], true)?; Ok(More::Free { a: field::<u64>(m, &V::t("a"))? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { More::Hide { a, h } => (*a).rt_top() && (*h) == <u8 as Default>::default(), More::Deep(inner) => inner.rt_top(), More::Free { a } => (*a).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Hide"), V::t("Deep"), V::t("Free"), V::t("a")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <Plain as Ty>::loose() || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Child {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => Child::One, 1 => Child::Two(<u64 as Ty>::arb(r, d.saturating_sub(1))), _ => Child::Three { n: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { Child::One => V::t("One"), Child::Two(inner) => V::M(vec![(V::t("Two"), inner.item())]), Child::Three { n } => V::M(vec![(V::t("Three"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("n"), n.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Two") { return top::<u64>(v).map(Child::Two) } if k == &V::t("Three") { return { let m = entries(v, &[V::t("n")], false)?; Ok(Child::Three { n: field::<u64>(m, &V::t("n"))? }) } } } _ => { if *v == V::t("One") { return Ok(Child::One) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Child::One => true, Child::Two(inner) => inner.rt_top(), Child::Three { n } => (*n).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Two"), V::t("Three"), V::t("n")] }
    fn others() -> Vec<V> { vec![V::t("One")] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Parent {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => Parent::Own, 1 => Parent::Two(<bool as Ty>::arb(r, d.saturating_sub(1))), _ => Parent::Kid(<Child as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { Parent::Own => V::t("Own"), Parent::Two(inner) => V::M(vec![(V::t("Two"), inner.item())]), Parent::Kid(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Two") { return top::<bool>(v).map(Parent::Two) } if let Ok(x) = top::<Child>(whole) { return Ok(Parent::Kid(x)) } } _ => { if *v == V::t("Own") { return Ok(Parent::Own) } if let Ok(x) = top::<Child>(whole) { return Ok(Parent::Kid(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Parent::Own => true, Parent::Two(inner) => inner.rt_top(), Parent::Kid(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Two")] }
    fn others() -> Vec<V> { vec![V::t("Own")] }
    fn loose() -> bool { false || <bool as Ty>::loose() || <Child as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for OnlyUnits {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => OnlyUnits::Own, _ => OnlyUnits::Kid(<Child as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { OnlyUnits::Own => V::t("Own"), OnlyUnits::Kid(inner) => inner.item(), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::t("Own") { return Ok(OnlyUnits::Own) } if let Ok(x) = top::<Child>(whole) { return Ok(OnlyUnits::Kid(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { OnlyUnits::Own => true, OnlyUnits::Kid(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::t("Own")] }
    fn loose() -> bool { false || <Child as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Tagged {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => Tagged::Deep(<Plain as Ty>::arb(r, d.saturating_sub(1))), 1 => Tagged::Rec { b: <u64 as Ty>::arb(r, d.saturating_sub(1)), a: <Option<String> as Ty>::arb(r, d.saturating_sub(1)) }, _ => Tagged::Nothing, } }
    fn item(&self) -> V { match self { Tagged::Deep(inner) => with_tag(inner.item(), V::t("v"), V::t("Deep")), Tagged::Rec { b, a } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("b"), b.item())); if !a.omit() { es.push((V::t("a"), a.item())) } V::M(es) }, V::t("v"), V::t("r")), Tagged::Nothing => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("v"), V::t("Nothing")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("Deep") { return top::<Plain>(v).map(Tagged::Deep) } if k == V::t("r") { return { let m = entries(v, &[V::t("b"), V::t("a")], false)?; Ok(Tagged::Rec { b: field::<u64>(m, &V::t("b"))?, a: field::<Option<String>>(m, &V::t("a"))? }) } } if k == V::t("Nothing") { return unit(v, false).map(|_| Tagged::Nothing) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Tagged::Deep(inner) => inner.rt_top(), Tagged::Rec { b, a } => (*b).rt_top() && (*a).rt_top() && (!(*a).omit() || <Option<String> as Ty>::def() == Ok((*a).clone())), Tagged::Nothing => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Deep"), V::t("r"), V::t("Nothing"), V::t("b"), V::t("a"), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Plain as Ty>::loose() || <u64 as Ty>::loose() || <Option<String> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Fallback {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => Fallback::Free { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => Fallback::Rest { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { Fallback::Free { a } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) }, V::t("v"), V::t("Free")), Fallback::Rest { a } => { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) }, } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("v"))?; let v = &v; if k == V::t("Free") { return { let m = entries(v, &[V::t("a")], true)?; Ok(Fallback::Free { a: field::<u64>(m, &V::t("a"))? }) } } if k == V::t("Rest") || k == V::S(23) { return { let m = entries(v, &[V::t("a")], false)?; Ok(Fallback::Rest { a: field::<u64>(m, &V::t("a"))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Fallback::Free { a } => (*a).rt_top(), Fallback::Rest { a } => (*a).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Free"), V::t("Rest"), V::t("a"), V::t("v")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for TagNum {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => TagNum::One { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => TagNum::Two(<AllOpt as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { TagNum::One { a } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) }, V::int(0), V::int(1)), TagNum::Two(inner) => with_tag(inner.item(), V::int(0), V::int(2)), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::int(0))?; let v = &v; if k == V::int(1) { return { let m = entries(v, &[V::t("a")], false)?; Ok(TagNum::One { a: field::<u64>(m, &V::t("a"))? }) } } if k == V::int(2) { return top::<AllOpt>(v).map(TagNum::Two) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { TagNum::One { a } => (*a).rt_top(), TagNum::Two(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::int(1), V::int(2), V::t("a"), V::int(0)] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <AllOpt as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Shape for Bare {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => Bare::Num(<u64 as Ty>::arb(r, d.saturating_sub(1))), 1 => Bare::Rec { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), b: <bool as Ty>::arb(r, d.saturating_sub(1)) }, 2 => Bare::Nothing, _ => Bare::Gone, } }
    fn item(&self) -> V { match self { Bare::Num(inner) => inner.item(), Bare::Rec { a, b } => { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); if !b.omit() { es.push((V::t("b"), b.item())) } V::M(es) }, Bare::Nothing => V::t("Nothing"), Bare::Gone => V::S(23), } }
}
#[allow(unused_variables)]
impl Ty for LongVars {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(5) { 0 => LongVars::AVariantNameOfMoreThan23Bytes, 1 => LongVars::AnotherVariantNameOfMoreThan23Bytes(<u64 as Ty>::arb(r, d.saturating_sub(1))), 2 => LongVars::Num(<bool as Ty>::arb(r, d.saturating_sub(1))), 3 => LongVars::Big, _ => LongVars::X(<u8 as Ty>::arb(r, d.saturating_sub(1))), } }
    fn item(&self) -> V { match self { LongVars::AVariantNameOfMoreThan23Bytes => V::t("AVariantNameOfMoreThan23Bytes"), LongVars::AnotherVariantNameOfMoreThan23Bytes(inner) => V::M(vec![(V::t("AnotherVariantNameOfMoreThan23Bytes"), inner.item())]), LongVars::Num(inner) => V::M(vec![(V::int(24), inner.item())]), LongVars::Big => V::int(4294967296), LongVars::X(inner) => V::M(vec![(V::t(""), inner.item())]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("AnotherVariantNameOfMoreThan23Bytes") { return top::<u64>(v).map(LongVars::AnotherVariantNameOfMoreThan23Bytes) } if k == &V::int(24) { return top::<bool>(v).map(LongVars::Num) } if k == &V::t("") { return top::<u8>(v).map(LongVars::X) } } _ => { if *v == V::t("AVariantNameOfMoreThan23Bytes") { return Ok(LongVars::AVariantNameOfMoreThan23Bytes) } if *v == V::int(4294967296) { return Ok(LongVars::Big) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { LongVars::AVariantNameOfMoreThan23Bytes => true, LongVars::AnotherVariantNameOfMoreThan23Bytes(inner) => inner.rt_top(), LongVars::Num(inner) => inner.rt_top(), LongVars::Big => true, LongVars::X(inner) => inner.rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("AnotherVariantNameOfMoreThan23Bytes"), V::int(24), V::t("")] }
    fn others() -> Vec<V> { vec![V::t("AVariantNameOfMoreThan23Bytes"), V::int(4294967296)] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <bool as Ty>::loose() || <u8 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for DiscNames {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => DiscNames::A, 1 => DiscNames::B, 2 => DiscNames::C, _ => DiscNames::D, } }
    fn item(&self) -> V { match self { DiscNames::A => V::int(24), DiscNames::B => V::int(-25), DiscNames::C => V::int(23), DiscNames::D => V::int(256), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { _ => { if *v == V::int(24) { return Ok(DiscNames::A) } if *v == V::int(-25) { return Ok(DiscNames::B) } if *v == V::int(23) { return Ok(DiscNames::C) } if *v == V::int(256) { return Ok(DiscNames::D) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { DiscNames::A => true, DiscNames::B => true, DiscNames::C => true, DiscNames::D => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![] }
    fn others() -> Vec<V> { vec![V::int(24), V::int(-25), V::int(23), V::int(256)] }
    fn loose() -> bool { false }
}
#[allow(unused_variables)]
impl Ty for VarMix {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => VarMix::Tup(<u64 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, <bool as Ty>::arb(r, d.saturating_sub(1))), 1 => VarMix::Arr { x: <u16 as Ty>::arb(r, d.saturating_sub(1)), y: <Option<u8> as Ty>::arb(r, d.saturating_sub(1)) }, 2 => VarMix::EmptyTup(), _ => VarMix::LooseUnit, } }
    fn item(&self) -> V { match self { VarMix::Tup(f0, f1, f2) => V::M(vec![(V::t("Tup"), { let mut xs: Vec<V> = vec![]; xs.push(m_enc_plus(&f0).item()); xs.push(f2.item()); V::A(xs) })]), VarMix::Arr { x, y } => V::M(vec![(V::t("Arr"), { let mut xs: Vec<V> = vec![]; xs.push(x.item()); xs.push(y.item()); V::A(xs) })]), VarMix::EmptyTup() => V::M(vec![(V::t("EmptyTup"), { let mut xs: Vec<V> = vec![]; V::A(xs) })]), VarMix::LooseUnit => V::M(vec![(V::t("LooseUnit"), { let mut es: Vec<(V, V)> = vec![]; V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Tup") { return { let a = elements(v, 2, false)?; Ok(VarMix::Tup(m_dec_plus(top::<u128>(a.get(0).ok_or(D::Missing)?)?)?, Default::default(), top::<bool>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("Arr") { return { let a = elements(v, 2, true)?; Ok(VarMix::Arr { x: m_dec_small(top::<u16>(a.get(0).ok_or(D::Missing)?)?)?, y: top::<Option<u8>>(a.get(1).ok_or(D::Missing)?)? }) } } if k == &V::t("EmptyTup") { return { let a = elements(v, 0, false)?; Ok(VarMix::EmptyTup()) } } if k == &V::t("LooseUnit") { return unit(v, true).map(|_| VarMix::LooseUnit) } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { VarMix::Tup(f0, f1, f2) => m_enc_plus(&(*f0)).rt_top() && m_dec_plus(m_enc_plus(&(*f0))).as_ref() == Ok(&(*f0)) && (*f1) == <u8 as Default>::default() && (*f2).rt_top(), VarMix::Arr { x, y } => (*x).rt_top() && m_dec_small((*x)).as_ref() == Ok(&(*x)) && (*y).rt_top(), VarMix::EmptyTup() => true, VarMix::LooseUnit => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Tup"), V::t("Arr"), V::t("EmptyTup"), V::t("LooseUnit"), V::t("f0"), V::t("f2"), V::t("x"), V::t("y")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <bool as Ty>::loose() || <u16 as Ty>::loose() || <Option<u8> as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for VarRec {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => VarRec::Rec { b: <bool as Ty>::arb(r, d.saturating_sub(1)), n: <u64 as Ty>::arb(r, d.saturating_sub(1)), o: <u8 as Ty>::arb(r, d.saturating_sub(1)) }, _ => VarRec::Loose { n: <u16 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { VarRec::Rec { b, n, o } => V::M(vec![(V::t("Rec"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::int(3), m_enc_not(&b).item())); if !m_is_zero(&n) { es.push((V::t("n"), n.item())) } if !o.omit() { es.push((V::t("o"), o.item())) } V::M(es) })]), VarRec::Loose { n } => V::M(vec![(V::t("Loose"), { let mut es: Vec<(V, V)> = vec![]; if !n.omit() { es.push((V::t("n"), n.item())) } V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Rec") { return { let m = entries(v, &[V::int(3), V::t("n"), V::t("o")], false)?; Ok(VarRec::Rec { b: m_dec_not(field::<bool>(m, &V::int(3))?)?, n: field::<u64>(m, &V::t("n"))?, o: field::<u8>(m, &V::t("o"))? }) } } if k == &V::t("Loose") { return { let m = entries(v, &[V::t("n")], true)?; Ok(VarRec::Loose { n: m_dec_small(field::<u16>(m, &V::t("n"))?)? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { VarRec::Rec { b, n, o } => m_enc_not(&(*b)).rt_top() && m_dec_not(m_enc_not(&(*b))).as_ref() == Ok(&(*b)) && (*n).rt_top() && (!m_is_zero(&(*n)) || <u64 as Ty>::def() == Ok((*n).clone())) && (*o).rt_top() && (!(*o).omit() || <u8 as Ty>::def() == Ok((*o).clone())), VarRec::Loose { n } => (*n).rt_top() && m_dec_small((*n)).as_ref() == Ok(&(*n)) && (!(*n).omit() || <u16 as Ty>::def() == Ok((*n).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Rec"), V::t("Loose"), V::int(3), V::t("n"), V::t("o")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true || <bool as Ty>::loose() || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <u16 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for Kids {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => Kids::Own, 1 => Kids::Num(<Units as Ty>::arb(r, d.saturating_sub(1))), 2 => Kids::Kid(<Child as Ty>::arb(r, d.saturating_sub(1))), _ => Kids::Rec { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { Kids::Own => V::t("o"), Kids::Num(inner) => inner.item(), Kids::Kid(inner) => inner.item(), Kids::Rec { a } => V::M(vec![(V::t("r"), { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("r") { return { let m = entries(v, &[V::t("a")], false)?; Ok(Kids::Rec { a: field::<u64>(m, &V::t("a"))? }) } } if let Ok(x) = top::<Units>(whole) { return Ok(Kids::Num(x)) } if let Ok(x) = top::<Child>(whole) { return Ok(Kids::Kid(x)) } } _ => { if *v == V::t("o") { return Ok(Kids::Own) } if let Ok(x) = top::<Units>(whole) { return Ok(Kids::Num(x)) } if let Ok(x) = top::<Child>(whole) { return Ok(Kids::Kid(x)) } } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { Kids::Own => true, Kids::Num(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), Kids::Kid(inner) => inner.rt_top() && Self::dec(&inner.item()).as_ref() == Ok(self), Kids::Rec { a } => (*a).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("r"), V::t("a")] }
    fn others() -> Vec<V> { vec![V::t("o")] }
    fn loose() -> bool { false || <Units as Ty>::loose() || <Child as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for TagDisc {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => TagDisc::A, 1 => TagDisc::B, _ => TagDisc::LooseC, } }
    fn item(&self) -> V { match self { TagDisc::A => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("t"), V::t("A")), TagDisc::B => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("t"), V::t("b")), TagDisc::LooseC => with_tag({ let mut es: Vec<(V, V)> = vec![]; V::M(es) }, V::t("t"), V::t("LooseC")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("t"))?; let v = &v; if k == V::t("A") { return unit(v, false).map(|_| TagDisc::A) } if k == V::t("b") { return unit(v, false).map(|_| TagDisc::B) } if k == V::t("LooseC") { return unit(v, true).map(|_| TagDisc::LooseC) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { TagDisc::A => true, TagDisc::B => true, TagDisc::LooseC => true, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("A"), V::t("b"), V::t("LooseC"), V::t("t")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { true }
}
#[allow(unused_variables)]
impl Ty for TagMid {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => TagMid::Rec { a: <u64 as Ty>::arb(r, d.saturating_sub(1)), zz: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, _ => TagMid::Opt { l: <u64 as Ty>::arb(r, d.saturating_sub(1)), yy: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { TagMid::Rec { a, zz } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); es.push((V::t("zz"), zz.item())); V::M(es) }, V::t("m"), V::t("Rec")), TagMid::Opt { l, yy } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::int(3), l.item())); if !yy.omit() { es.push((V::t("yy"), yy.item())) } V::M(es) }, V::t("m"), V::t("Opt")), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("m"))?; let v = &v; if k == V::t("Rec") { return { let m = entries(v, &[V::t("a"), V::t("zz")], false)?; Ok(TagMid::Rec { a: field::<u64>(m, &V::t("a"))?, zz: field::<u64>(m, &V::t("zz"))? }) } } if k == V::t("Opt") { return { let m = entries(v, &[V::int(3), V::t("yy")], false)?; Ok(TagMid::Opt { l: field::<u64>(m, &V::int(3))?, yy: field::<u64>(m, &V::t("yy"))? }) } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { TagMid::Rec { a, zz } => (*a).rt_top() && (*zz).rt_top(), TagMid::Opt { l, yy } => (*l).rt_top() && (*yy).rt_top() && (!(*yy).omit() || <u64 as Ty>::def() == Ok((*yy).clone())), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Rec"), V::t("Opt"), V::t("a"), V::t("zz"), V::int(3), V::t("yy"), V::t("m")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for SkipShapes {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(2) { 0 => SkipShapes::Tup(if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, <u64 as Ty>::arb(r, d.saturating_sub(1)), if r.p(1, 2) { Default::default() } else { <u64 as Ty>::arb(r, d) }, <u64 as Ty>::arb(r, d.saturating_sub(1))), _ => SkipShapes::Arr { h: if r.p(1, 2) { Default::default() } else { <u8 as Ty>::arb(r, d) }, x: <u64 as Ty>::arb(r, d.saturating_sub(1)), y: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { SkipShapes::Tup(f0, f1, f2, f3) => V::M(vec![(V::t("Tup"), { let mut xs: Vec<V> = vec![]; xs.push(f1.item()); xs.push(f3.item()); V::A(xs) })]), SkipShapes::Arr { h, x, y } => V::M(vec![(V::t("Arr"), { let mut xs: Vec<V> = vec![]; xs.push(x.item()); xs.push(y.item()); V::A(xs) })]), } }
    fn dec(v: &V) -> DR<Self> { let whole = v; let _ = whole; match v { V::M(m) => { if m.len() != 1 { return Err(D::Unknown) } let (k, v) = &m[0]; let _ = (k, v); if k == &V::t("Tup") { return { let a = elements(v, 2, false)?; Ok(SkipShapes::Tup(Default::default(), top::<u64>(a.get(0).ok_or(D::Missing)?)?, Default::default(), top::<u64>(a.get(1).ok_or(D::Missing)?)?)) } } if k == &V::t("Arr") { return { let a = elements(v, 2, false)?; Ok(SkipShapes::Arr { h: Default::default(), x: top::<u64>(a.get(0).ok_or(D::Missing)?)?, y: top::<u64>(a.get(1).ok_or(D::Missing)?)? }) } } } _ => { } } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { SkipShapes::Tup(f0, f1, f2, f3) => (*f0) == <u8 as Default>::default() && (*f1).rt_top() && (*f2) == <u64 as Default>::default() && (*f3).rt_top(), SkipShapes::Arr { h, x, y } => (*h) == <u8 as Default>::default() && (*x).rt_top() && (*y).rt_top(), } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("Tup"), V::t("Arr"), V::t("f1"), V::t("f3"), V::t("x"), V::t("y")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() || <u8 as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
#[allow(unused_variables)]
impl Ty for FallNew {
    fn arb(r: &mut Rng, d: u32) -> Self { match r.below(3) { 0 => FallNew::One { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, 1 => FallNew::Rest(<Plain as Ty>::arb(r, d.saturating_sub(1))), _ => FallNew::Gone { a: <u64 as Ty>::arb(r, d.saturating_sub(1)) }, } }
    fn item(&self) -> V { match self { FallNew::One { a } => with_tag({ let mut es: Vec<(V, V)> = vec![]; es.push((V::t("a"), a.item())); V::M(es) }, V::t("kind of tag that is longer"), V::t("One")), FallNew::Rest(inner) => inner.item(), FallNew::Gone { a } => V::S(23), } }
    fn dec(v: &V) -> DR<Self> { let (k, v) = untag(v, &V::t("kind of tag that is longer"))?; let v = &v; if k == V::t("One") { return { let m = entries(v, &[V::t("a")], false)?; Ok(FallNew::One { a: field::<u64>(m, &V::t("a"))? }) } } if k == V::t("Rest") || k == V::S(23) { return top::<Plain>(v).map(FallNew::Rest) } Err(D::Unknown) }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn rt(&self) -> bool { match self { FallNew::One { a } => (*a).rt_top(), FallNew::Rest(inner) => inner.rt_top(), FallNew::Gone { a } => false, } }
    fn rt_top(&self) -> bool { self.rt() && (!is_null(&self.item()) || Self::def().as_ref() == Ok(self)) }
    fn keys() -> Vec<V> { vec![V::t("One"), V::t("Rest"), V::t("a"), V::t("kind of tag that is longer")] }
    fn others() -> Vec<V> { vec![] }
    fn loose() -> bool { false || <Plain as Ty>::loose() || <u64 as Ty>::loose() || <u64 as Ty>::loose() }
}
impl Ty for HasEnums {
    fn arb(r: &mut Rng, d: u32) -> Self { let _ = (&r, d); HasEnums { u: <Units as Ty>::arb(r, d.saturating_sub(1)), m: <Option<Mixed> as Ty>::arb(r, d.saturating_sub(1)), t: <Vec<Tagged> as Ty>::arb(r, d.saturating_sub(1)), c: <Disc as Ty>::arb(r, d.saturating_sub(1)) } }
    fn item(&self) -> V { { let mut es: Vec<(V, V)> = vec![]; es.push((V::t("u"), self.u.item())); es.push((V::t("m"), self.m.item())); es.push((V::t("t"), self.t.item())); if !self.c.omit() { es.push((V::t("c"), self.c.item())) } V::M(es) } }
    fn dec(v: &V) -> DR<Self> { { let m = entries(v, &[V::t("u"), V::t("m"), V::t("t"), V::t("c")], false)?; Ok(HasEnums { u: field::<Units>(m, &V::t("u"))?, m: field::<Option<Mixed>>(m, &V::t("m"))?, t: field::<Vec<Tagged>>(m, &V::t("t"))?, c: field::<Disc>(m, &V::t("c"))? }) } }
    fn def() -> DR<Self> { Err(D::Missing) }
    fn empty(&self) -> bool { false }
    fn omit(&self) -> bool { self.item() == V::M(vec![]) }
    fn rt(&self) -> bool { self.u.rt_top() && self.m.rt_top() && self.t.rt_top() && self.c.rt_top() && (!self.c.omit() || <Disc as Ty>::def() == Ok(self.c.clone())) }
    fn rt_top(&self) -> bool { self.rt() }
    fn keys() -> Vec<V> { vec![V::t("u"), V::t("m"), V::t("t"), V::t("c")] }
    fn loose() -> bool { false || <Units as Ty>::loose() || <Option<Mixed> as Ty>::loose() || <Vec<Tagged> as Ty>::loose() || <Disc as Ty>::loose() }
}
pub fn declarations() -> Vec<Decl> { vec![decl::<Plain>("Plain"), decl::<Opt>("Opt"), decl::<OptMore>("OptMore"), decl::<Renamed>("Renamed"), decl::<AllOpt>("AllOpt"), decl::<Nested>("Nested"), decl::<OptNested>("OptNested"), decl::<Unit>("Unit"), decl::<EmptyBraces>("EmptyBraces"), decl::<AsArr>("AsArr"), decl::<LooseArr>("LooseArr"), decl::<Tup>("Tup"), decl::<NewT>("NewT"), decl::<Trans>("Trans"), decl::<TransOpt>("TransOpt"), decl::<Loose>("Loose"), decl::<NoDef>("NoDef"), decl::<HoldsNoDef>("HoldsNoDef"), decl::<Skips>("Skips"), decl::<SkipIf>("SkipIf"), decl::<With>("With"), decl::<LongNames>("LongNames"), decl::<BigKeys>("BigKeys"), decl::<TupMix>("TupMix"), decl::<ArrMix>("ArrMix"), decl::<Codecs>("Codecs"), decl::<LooseCodecs>("LooseCodecs"), decl::<LooseUnit>("LooseUnit"), decl::<EmptyTup>("EmptyTup"), decl::<EmptyArr>("EmptyArr"), decl::<TransBytes>("TransBytes"), decl::<TransOpt2>("TransOpt2"), decl::<HasTrans>("HasTrans"), decl::<ArrSkips>("ArrSkips"), decl::<TupSkips>("TupSkips"), decl::<Gen<u64>>("Gen<u64>"), decl::<Units>("Units"), decl::<Disc>("Disc"), decl::<Mixed>("Mixed"), decl::<Shapes>("Shapes"), decl::<More>("More"), decl::<Child>("Child"), decl::<Parent>("Parent"), decl::<OnlyUnits>("OnlyUnits"), decl::<Tagged>("Tagged"), decl::<Fallback>("Fallback"), decl::<TagNum>("TagNum"), decl::<LongVars>("LongVars"), decl::<DiscNames>("DiscNames"), decl::<VarMix>("VarMix"), decl::<VarRec>("VarRec"), decl::<Kids>("Kids"), decl::<TagDisc>("TagDisc"), decl::<TagMid>("TagMid"), decl::<SkipShapes>("SkipShapes"), decl::<FallNew>("FallNew"), decl::<HasEnums>("HasEnums"), decl::<Gen<Option<bool>>>("Gen<Option<bool>>"), decl::<Gen<Plain>>("Gen<Plain>")] }
