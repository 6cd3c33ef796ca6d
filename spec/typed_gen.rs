// Generated by tools/gen_typed.py: the types and what they stand for.
impl Ty for u8 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { true }
    open spec fn byte(m: int) -> u8 { m as u8 }
    open spec fn of_byte(b: u8) -> int { b as int }
}
impl Ty for &u8 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for u16 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &u16 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for u32 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &u32 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for u64 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &u64 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for i8 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &i8 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for i16 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &i16 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for i32 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &i32 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for i64 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &i64 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for u128 {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for &u128 {
    type M = int;
    open spec fn m(self) -> int { *self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for bool {
    type M = bool;
    open spec fn m(self) -> bool { self }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: bool) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> bool { arbitrary() }
}
impl Ty for char {
    type M = int;
    open spec fn m(self) -> int { self as int }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: int) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> int { arbitrary() }
}
impl Ty for String {
    type M = Seq<char>;
    open spec fn m(self) -> Seq<char> { self@ }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Seq<char>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Seq<char> { arbitrary() }
}
impl Ty for &str {
    type M = Seq<char>;
    open spec fn m(self) -> Seq<char> { self@ }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Seq<char>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Seq<char> { arbitrary() }
}
impl Ty for () {
    type M = ();
    open spec fn m(self) -> () { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ()) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> () { arbitrary() }
}
impl Ty for Value {
    type M = V;
    open spec fn m(self) -> V { vw(self) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: V) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> V { arbitrary() }
}
impl<T: Ty> Ty for Option<T> {
    type M = Option<T::M>;
    open spec fn m(self) -> Option<T::M> { match self { Some(x) => Some(x.m()), None => None } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Option<T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Option<T::M> { arbitrary() }
}
impl<T: Ty> Ty for Vec<T> {
    type M = Seq<T::M>;
    open spec fn m(self) -> Seq<T::M> { seqm(self@) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Seq<T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Seq<T::M> { arbitrary() }
}
impl<T: Ty, const N: usize> Ty for [T; N] {
    type M = Seq<T::M>;
    open spec fn m(self) -> Seq<T::M> { seqm(self@) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Seq<T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Seq<T::M> { arbitrary() }
}
impl<K: Ty, T: Ty> Ty for BTreeMap<K, T> {
    type M = Map<K::M, T::M>;
    open spec fn m(self) -> Map<K::M, T::M> { map_of(pairm(vx_items::<(K, T), BTreeMap<K, T>>(self))) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Map<K::M, T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Map<K::M, T::M> { arbitrary() }
}
impl<K: Ty, T: Ty> Ty for HashMap<K, T> {
    type M = Map<K::M, T::M>;
    open spec fn m(self) -> Map<K::M, T::M> { map_of(pairm(vx_items::<(K, T), HashMap<K, T>>(self))) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Map<K::M, T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Map<K::M, T::M> { arbitrary() }
}
impl<T: Ty> Ty for BTreeSet<T> {
    type M = Set<T::M>;
    open spec fn m(self) -> Set<T::M> { seqm(vx_items::<T, BTreeSet<T>>(self)).to_set() }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Set<T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Set<T::M> { arbitrary() }
}
impl<T: Ty> Ty for HashSet<T> {
    type M = Set<T::M>;
    open spec fn m(self) -> Set<T::M> { seqm(vx_items::<T, HashSet<T>>(self)).to_set() }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: Set<T::M>) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> Set<T::M> { arbitrary() }
}
/// Assumes that keys are equal exactly when they stand for the same thing.
impl<K: Ty + Ord, T: Ty> Collected<(K, T)> for BTreeMap<K, T> { open spec fn gathered(s: Seq<(K, T)>, r: Self) -> bool { r.m() == map_of(pairm(s)) } }
/// Assumes that keys are equal exactly when they stand for the same thing.
impl<K: Ty + Eq + std::hash::Hash, T: Ty> Collected<(K, T)> for HashMap<K, T> { open spec fn gathered(s: Seq<(K, T)>, r: Self) -> bool { r.m() == map_of(pairm(s)) } }
/// Assumes that elements are equal exactly when they stand for the same thing.
impl<T: Ty + Ord> Collected<T> for BTreeSet<T> { open spec fn gathered(s: Seq<T>, r: Self) -> bool { r.m() == seqm(s).to_set() } }
/// Assumes that elements are equal exactly when they stand for the same thing.
impl<T: Ty + Eq + std::hash::Hash> Collected<T> for HashSet<T> { open spec fn gathered(s: Seq<T>, r: Self) -> bool { r.m() == seqm(s).to_set() } }
impl<A0: Ty> Ty for (A0,) {
    type M = (A0::M,);
    open spec fn m(self) -> (A0::M,) { (self.0.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty> Ty for (A0, A1,) {
    type M = (A0::M, A1::M,);
    open spec fn m(self) -> (A0::M, A1::M,) { (self.0.m(), self.1.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty> Ty for (A0, A1, A2,) {
    type M = (A0::M, A1::M, A2::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M,) { (self.0.m(), self.1.m(), self.2.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty> Ty for (A0, A1, A2, A3,) {
    type M = (A0::M, A1::M, A2::M, A3::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty> Ty for (A0, A1, A2, A3, A4,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty, A5: Ty> Ty for (A0, A1, A2, A3, A4, A5,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty, A5: Ty, A6: Ty> Ty for (A0, A1, A2, A3, A4, A5, A6,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty, A5: Ty, A6: Ty, A7: Ty> Ty for (A0, A1, A2, A3, A4, A5, A6, A7,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty, A5: Ty, A6: Ty, A7: Ty, A8: Ty> Ty for (A0, A1, A2, A3, A4, A5, A6, A7, A8,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M,) { arbitrary() }
}
impl<A0: Ty, A1: Ty, A2: Ty, A3: Ty, A4: Ty, A5: Ty, A6: Ty, A7: Ty, A8: Ty, A9: Ty> Ty for (A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,) {
    type M = (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M, A9::M,);
    open spec fn m(self) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M, A9::M,) { (self.0.m(), self.1.m(), self.2.m(), self.3.m(), self.4.m(), self.5.m(), self.6.m(), self.7.m(), self.8.m(), self.9.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M, A9::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (A0::M, A1::M, A2::M, A3::M, A4::M, A5::M, A6::M, A7::M, A8::M, A9::M,) { arbitrary() }
}
