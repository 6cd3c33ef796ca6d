// Assumed contracts of standard-library functions that vstd does not specify.
use vstd::utf8::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
use crate::spec::*;
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == rev(o);
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == then(a, b);
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);
pub fn vx_as_slice<T>(x: &[T]) -> (r: &[T]) ensures r@ == x@, r == x { x }

// ---- results, slices, strings
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (o: T) ensures o == (match r { Ok(x) => x, Err(_) => d });
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), vx_copy::<T>() ==> r@ == s@;
/// Types whose clone is a copy of the value.
pub uninterp spec fn vx_copy<T>() -> bool;
pub broadcast axiom fn axiom_copy_u8() ensures #[trigger] vx_copy::<u8>();
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub assume_specification<'a> [std::str::from_utf8] (b: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r is Ok ==> encode_utf8(r->Ok_0@) == b@;

// ---- vectors
/// The items an `IntoIterator` yields.
pub uninterp spec fn vx_items<T, I>(i: I) -> Seq<T>;
pub broadcast axiom fn axiom_items_vec<T>(v: Vec<T>) ensures #[trigger] vx_items::<T, Vec<T>>(v) == v@;
pub broadcast axiom fn axiom_items_array<T, const N: usize>(v: [T; N]) ensures #[trigger] vx_items::<T, [T; N]>(v) == v@;
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>> [<Vec<T, A> as Extend<T>>::extend::<I>] (v: &mut Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + vx_items::<T, I>(i);
/// Assumes that the comparator is a total preorder.
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [<[T]>::sort_by] (s: &mut [T], f: F)
    requires forall|a: &T, b: &T| f.requires((a, b)),
    ensures
        final(s)@.len() == old(s)@.len(),
        exists|p: Seq<int>, q: Seq<int>| #[trigger] perm(p, q, old(s)@.len()) && forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[p[i]],
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> not_gt(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]);
pub open spec fn says<T, F: Fn(&T, &T) -> bool>(f: F, a: T, b: T, r: bool) -> bool { f.ensures((&a, &b), r) }
pub open spec fn not_gt<T, F: FnMut(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && !(o is Greater) }
/// `Vec::dedup_by` with a closure that does not change its arguments.
#[verifier::external_body]
pub fn vx_dedup_by<T, F: Fn(&T, &T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| f.requires((a, b)),
    ensures
        final(v)@.len() <= old(v)@.len(),
        final(v)@.len() == old(v)@.len() ==> final(v)@ == old(v)@ && forall|i: int| 0 <= i < old(v)@.len() - 1 ==> says(f, #[trigger] old(v)@[i + 1], old(v)@[i], false),
        final(v)@.len() < old(v)@.len() ==> exists|i: int| 0 <= i < old(v)@.len() - 1 && says(f, #[trigger] old(v)@[i + 1], old(v)@[i], true),
{ v.dedup_by(|a, b| f(a, b)) }

// ---- peekable iterators
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(std::iter::Peekable<I>);
/// What a peekable iterator has yet to yield.
pub uninterp spec fn pk_rem<I: Iterator>(p: std::iter::Peekable<I>) -> Seq<I::Item>;
pub assume_specification<I: Iterator> [std::iter::Peekable::<I>::peek] (p: &mut std::iter::Peekable<I>) -> (r: Option<&I::Item>)
    ensures pk_rem(*final(p)) == pk_rem(*old(p)), match r { Some(x) => pk_rem(*old(p)).len() > 0 && *x == pk_rem(*old(p))[0], None => pk_rem(*old(p)).len() == 0 };
pub assume_specification<I: Iterator> [std::iter::Peekable::<I>::peek_mut] (p: &mut std::iter::Peekable<I>) -> (r: Option<&mut I::Item>)
    ensures match r {
        Some(x) => pk_rem(*old(p)).len() > 0 && *x == pk_rem(*old(p))[0] && pk_rem(*final(p)) == pk_rem(*old(p)).update(0, *final(x)),
        None => pk_rem(*old(p)).len() == 0 && pk_rem(*final(p)) == pk_rem(*old(p)),
    };
pub assume_specification<I: Iterator> [<std::iter::Peekable::<I> as Iterator>::next] (p: &mut std::iter::Peekable<I>) -> (r: Option<I::Item>)
    ensures match r { Some(x) => pk_rem(*old(p)).len() > 0 && x == pk_rem(*old(p))[0] && pk_rem(*final(p)) == pk_rem(*old(p)).drop_first(), None => pk_rem(*old(p)).len() == 0 && pk_rem(*final(p)) == pk_rem(*old(p)) };

// ---- comparison
pub broadcast axiom fn axiom_vec_u8_cmp0() ensures #[trigger] <Vec<u8> as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn axiom_vec_u8_cmp(a: Vec<u8>, b: Vec<u8>)
    ensures (#[trigger] OrdSpec::cmp_spec(&a, &b)) == lex(a@, b@);
pub broadcast axiom fn axiom_string_cmp0() ensures #[trigger] <String as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn axiom_string_cmp(a: String, b: String)
    ensures (#[trigger] OrdSpec::cmp_spec(&a, &b)) == lex(encode_utf8(a@), encode_utf8(b@));
pub broadcast axiom fn axiom_ordering_eq0() ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_ordering_eq(a: Ordering, b: Ordering)
    ensures (#[trigger] PartialEqSpec::eq_spec(&a, &b)) == (a == b);
pub broadcast axiom fn axiom_vec_u8_eq0() ensures #[trigger] <Vec<u8> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_vec_u8_eq(a: Vec<u8>, b: Vec<u8>)
    ensures (#[trigger] PartialEqSpec::eq_spec(&a, &b)) == (a@ == b@);
/// A box compares as what it holds.
pub broadcast axiom fn axiom_box_cmp0<T: Ord>() ensures (#[trigger] <Box<T> as OrdSpec>::obeys_cmp_spec()) == <T as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn axiom_box_cmp<T: Ord>(a: Box<T>, b: Box<T>)
    ensures (#[trigger] OrdSpec::cmp_spec(&a, &b)) == OrdSpec::cmp_spec(&*a, &*b);
pub broadcast group std_axioms {
    axiom_vec_u8_cmp0, axiom_vec_u8_cmp, axiom_string_cmp0, axiom_string_cmp, axiom_ordering_eq0, axiom_ordering_eq,
    axiom_vec_u8_eq0, axiom_vec_u8_eq, axiom_box_cmp0, axiom_box_cmp, axiom_copy_u8, axiom_items_vec, axiom_items_array, axiom_slice_u8_len, axiom_cap, axiom_cap_vec, axiom_cap_slice, axiom_str_from0, axiom_str_from, axiom_self_from0, axiom_self_from,
}
/// No object is larger than isize::MAX bytes.
pub broadcast axiom fn axiom_slice_u8_len(s: &[u8]) ensures (#[trigger] s@).len() <= isize::MAX;


// ---- conversions
pub broadcast axiom fn axiom_str_from0() ensures #[trigger] <String as FromSpec<&str>>::obeys_from_spec();
pub broadcast axiom fn axiom_str_from(s: &str) ensures (#[trigger] <String as FromSpec<&str>>::from_spec(s))@ == s@;
pub broadcast axiom fn axiom_self_from0<T>() ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
pub broadcast axiom fn axiom_self_from<T>(v: T) ensures (#[trigger] <T as FromSpec<T>>::from_spec(v)) == v;

// ---- map and collect
/// What `collect` makes of the items `s`.
pub trait Collected<B>: Sized { spec fn gathered(s: Seq<B>, r: Self) -> bool; }
impl<B> Collected<B> for Vec<B> { open spec fn gathered(s: Seq<B>, r: Self) -> bool { r@ == s } }
/// The first error wins; without one the contents are collected.
impl<B, E, C: Collected<B>> Collected<Result<B, E>> for Result<C, E> {
    open spec fn gathered(s: Seq<Result<B, E>>, r: Self) -> bool {
        match r {
            Ok(c) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && C::gathered(Seq::new(s.len(), |i: int| s[i]->Ok_0), c),
            Err(e) => exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Err && s[k]->Err_0 == e && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) is Ok,
        }
    }
}
/// Some result of `f` for each item, in order.
pub open spec fn mapped<A, B, F: FnMut(A) -> B>(f: F, a: Seq<A>, b: Seq<B>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> f.ensures((a[i],), #[trigger] b[i])
}
/// `x.into_iter().map(f).collect::<C>()`.
#[verifier::external_body]
pub fn vx_map_collect<C: Collected<B> + FromIterator<B>, A, B, I: IntoIterator<Item = A>, F: FnMut(A) -> B>(x: I, f: F) -> (r: C)
    requires forall|a: A| f.requires((a,)),
    ensures exists|s: Seq<B>| mapped(f, vx_items::<A, I>(x), s) && C::gathered(s, r),
{ x.into_iter().map(f).collect() }
/// `x.into_iter().collect::<C>()`.
#[verifier::external_body]
pub fn vx_collect<C: Collected<A> + FromIterator<A>, A, I: IntoIterator<Item = A>>(x: I) -> (r: C)
    ensures C::gathered(vx_items::<A, I>(x), r),
{ x.into_iter().collect() }

// ---- capacity
/// As many elements as can be allocated: at least as many as any vector or slice holds.
pub uninterp spec fn vx_cap() -> nat;
pub broadcast axiom fn axiom_cap() ensures #[trigger] vx_cap() >= 0x10_0000;
pub broadcast axiom fn axiom_cap_vec<T>(v: Vec<T>) ensures (#[trigger] v@).len() <= vx_cap();
pub broadcast axiom fn axiom_cap_slice<T>(s: &[T]) ensures (#[trigger] s@).len() <= vx_cap();
/// Lengths are machine words.
pub broadcast axiom fn axiom_cap_max() ensures #[trigger] vx_cap() < 0x1_0000_0000_0000_0000;
pub broadcast axiom fn axiom_len_string(s: String) ensures (#[trigger] encode_utf8(s@)).len() < 0x1_0000_0000_0000_0000;
/// `Vec::with_capacity`, which panics or aborts when it is asked for too much.
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= vx_cap(),
    ensures r@ == Seq::<T>::empty(),
{ Vec::with_capacity(n) }

// ---- parts of arrays
/// `x[a..].copy_from_slice(y)`.
#[verifier::external_body]
pub fn vx_copy_from<T: Copy, const N: usize>(x: &mut [T; N], a: usize, y: &[T])
    requires a <= N, y@.len() == N - a,
    ensures final(x)@ == old(x)@.subrange(0, a as int) + y@,
{ x[a..].copy_from_slice(y) }
/// `x[a..]`.
#[verifier::external_body]
pub fn vx_slice_from<T>(x: &[T], a: usize) -> (r: &[T])
    requires a <= x@.len(),
    ensures r@ == x@.subrange(a as int, x@.len() as int),
{ &x[a..] }

// ---- truth values
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }

// ---- integers and characters
#[verifier::external_body]
pub fn vx_u128_from_be_bytes(b: [u8; 16]) -> (r: u128) ensures r as int == be_val(b@) { u128::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u128_to_be_bytes(n: u128) -> (r: [u8; 16]) ensures r@ == be(n as int, 16) { n.to_be_bytes() }
/// Number of leading zero bits.
pub uninterp spec fn vx_lz(n: u128) -> nat;
pub axiom fn axiom_lz(n: u128)
    ensures vx_lz(n) <= 128, n == 0 <==> vx_lz(n) == 128, n > 0 ==> vstd::arithmetic::power2::pow2((127 - vx_lz(n)) as nat) <= n < vstd::arithmetic::power2::pow2((128 - vx_lz(n)) as nat);
pub assume_specification [u128::leading_zeros] (n: u128) -> (r: u32) ensures r == vx_lz(n), r <= 128;
pub open spec fn usv(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n < 0x110000 }
pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>) ensures match r { Some(c) => c as u32 == n, None => !usv(n as int) };

// ---- conversions that may fail
pub broadcast axiom fn axiom_from_self0<T>() ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
pub broadcast axiom fn axiom_from_self<T>(v: T) ensures (#[trigger] <T as FromSpec<T>>::from_spec(v)) == v;
pub broadcast axiom fn axiom_try_self0<T>() ensures #[trigger] <T as TryFromSpec<T>>::obeys_try_from_spec();
pub broadcast axiom fn axiom_try_self<T>(v: T) ensures (#[trigger] <T as TryFromSpec<T>>::try_from_spec(v)) == Ok::<T, std::convert::Infallible>(v);
pub broadcast axiom fn axiom_try_i64_0() ensures #[trigger] <i64 as TryFromSpec<u64>>::obeys_try_from_spec();
pub broadcast axiom fn axiom_try_i64(v: u64) ensures v <= i64::MAX ==> (#[trigger] <i64 as TryFromSpec<u64>>::try_from_spec(v)) == Ok::<i64, std::num::TryFromIntError>(v as i64), v > i64::MAX ==> <i64 as TryFromSpec<u64>>::try_from_spec(v) is Err;
pub broadcast axiom fn axiom_try_arr0<T, const N: usize>() ensures #[trigger] <[T; N] as TryFromSpec<Vec<T>>>::obeys_try_from_spec();
pub broadcast axiom fn axiom_try_arr<T, const N: usize>(v: Vec<T>)
    ensures match (#[trigger] <[T; N] as TryFromSpec<Vec<T>>>::try_from_spec(v)) { Ok(a) => v@.len() == N && a@ == v@, Err(_) => v@.len() != N };
pub broadcast axiom fn axiom_from_arr0<T, const N: usize>() ensures #[trigger] <Vec<T> as FromSpec<[T; N]>>::obeys_from_spec();
pub broadcast axiom fn axiom_from_arr<T, const N: usize>(a: [T; N]) ensures (#[trigger] <Vec<T> as FromSpec<[T; N]>>::from_spec(a))@ == a@;

// ---- maps and sets
/// Iterating yields as many items as there are.
pub broadcast axiom fn axiom_len_btm<K, T>(m: std::collections::BTreeMap<K, T>) ensures (#[trigger] vx_items::<(K, T), std::collections::BTreeMap<K, T>>(m)).len() == m@.len();
pub broadcast axiom fn axiom_len_hm<K, T>(m: std::collections::HashMap<K, T>) ensures (#[trigger] vx_items::<(K, T), std::collections::HashMap<K, T>>(m)).len() == m@.len();
pub broadcast axiom fn axiom_len_bts<T>(m: std::collections::BTreeSet<T>) ensures (#[trigger] vx_items::<T, std::collections::BTreeSet<T>>(m)).len() == m@.len();
pub broadcast axiom fn axiom_len_hs<T>(m: std::collections::HashSet<T>) ensures (#[trigger] vx_items::<T, std::collections::HashSet<T>>(m)).len() == m@.len();
pub broadcast group std_conv_axioms {
    axiom_from_self0, axiom_from_self, axiom_try_self0, axiom_try_self, axiom_try_i64_0, axiom_try_i64, axiom_try_arr0, axiom_try_arr, axiom_from_arr0, axiom_from_arr,
    axiom_len_btm, axiom_len_hm, axiom_len_bts, axiom_len_hs,
}
/// `a.try_into()`.
pub fn vx_try_into<A, B: TryFrom<A>>(a: A) -> (r: Result<B, B::Error>)
    ensures <B as TryFromSpec<A>>::obeys_try_from_spec() ==> r == <B as TryFromSpec<A>>::try_from_spec(a)
{ B::try_from(a) }
/// `X.into_iter().peekable()`.
#[verifier::external_body]
pub fn vx_peekable<T>(s: Vec<T>) -> (r: std::iter::Peekable<std::vec::IntoIter<T>>) ensures pk_rem(r) == s@ { s.into_iter().peekable() }
/// `r.map(Some)` of a result.
pub fn vx_ok_some<T, E>(x: Result<T, E>) -> (r: Result<Option<T>, E>)
    ensures r == (match x { Ok(x) => Ok::<Option<T>, E>(Some(x)), Err(e) => Err(e) })
{ match x { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]), (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] == r@[i]) ==> s@ =~= r@;
