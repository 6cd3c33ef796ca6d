// Generated by tools/gen_derive.py.
use crate::spec::*;
use crate::lemmas::*; use crate::lemmas_order::*; use crate::lemmas_norm::*; use crate::lemmas_writer::*; use crate::lemmas_code::*; use crate::map_access::*;
use crate::stdspec::*;
use crate::typed::*; use crate::typed_lemmas::*; use crate::typed_theorems::*; use crate::typed_props::*; use crate::derived::*;
use crate::oasis_cbor::DecodeError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
use crate::oasis_cbor::decode::Decode;
use crate::oasis_cbor::encode::{Encode, EncodeAsMap};
use crate::vx_catalogue::derived::*;
use vstd::seq_lib::*; use vstd::multiset::*;
use vstd::utf8::*;
pub open spec fn is_zero_s(x: u64) -> bool { x == 0 }
pub open spec fn is_odd_s(x: u64) -> bool { x % 2 == 1 }
pub open spec fn enc_cap_s(x: u64) -> u64 { if x > 1000 { 1000 } else { x } }
pub open spec fn dec_small_s(x: int) -> R<int> { if x < 1000 { Ok(x) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub open spec fn enc_plus_s(x: u64) -> u128 { (x + 1) as u128 }
pub open spec fn dec_plus_s(x: int) -> R<int> { if 1 <= x <= 0x1_0000_0000_0000_0000 { Ok(x - 1) } else { Err(DecodeError::UnexpectedIntegerSize) } }
pub open spec fn enc_not_s(x: bool) -> bool { !x }
pub open spec fn dec_not_s(x: bool) -> R<bool> { Ok(!x) }
pub open spec fn k_zeta() -> V { V::T(seq![122u8, 101u8, 116u8, 97u8]) }
pub proof fn k_zeta_lit() ensures V::T(encode_utf8("zeta"@)) == k_zeta(), plain(k_zeta()) { reveal_strlit("zeta"); lemma_key("zeta", seq![122u8, 101u8, 116u8, 97u8]); }
pub open spec fn k_alpha() -> V { V::T(seq![97u8, 108u8, 112u8, 104u8, 97u8]) }
pub proof fn k_alpha_lit() ensures V::T(encode_utf8("alpha"@)) == k_alpha(), plain(k_alpha()) { reveal_strlit("alpha"); lemma_key("alpha", seq![97u8, 108u8, 112u8, 104u8, 97u8]); }
pub open spec fn k_mid() -> V { V::T(seq![109u8, 105u8, 100u8]) }
pub proof fn k_mid_lit() ensures V::T(encode_utf8("mid"@)) == k_mid(), plain(k_mid()) { reveal_strlit("mid"); lemma_key("mid", seq![109u8, 105u8, 100u8]); }
pub open spec fn k_must() -> V { V::T(seq![109u8, 117u8, 115u8, 116u8]) }
pub proof fn k_must_lit() ensures V::T(encode_utf8("must"@)) == k_must(), plain(k_must()) { reveal_strlit("must"); lemma_key("must", seq![109u8, 117u8, 115u8, 116u8]); }
pub open spec fn k_n() -> V { V::T(seq![110u8]) }
pub proof fn k_n_lit() ensures V::T(encode_utf8("n"@)) == k_n(), plain(k_n()) { reveal_strlit("n"); lemma_key("n", seq![110u8]); }
pub open spec fn k_b() -> V { V::T(seq![98u8]) }
pub proof fn k_b_lit() ensures V::T(encode_utf8("b"@)) == k_b(), plain(k_b()) { reveal_strlit("b"); lemma_key("b", seq![98u8]); }
pub open spec fn k_s() -> V { V::T(seq![115u8]) }
pub proof fn k_s_lit() ensures V::T(encode_utf8("s"@)) == k_s(), plain(k_s()) { reveal_strlit("s"); lemma_key("s", seq![115u8]); }
pub open spec fn k_v() -> V { V::T(seq![118u8]) }
pub proof fn k_v_lit() ensures V::T(encode_utf8("v"@)) == k_v(), plain(k_v()) { reveal_strlit("v"); lemma_key("v", seq![118u8]); }
pub open spec fn k_d() -> V { V::T(seq![100u8]) }
pub proof fn k_d_lit() ensures V::T(encode_utf8("d"@)) == k_d(), plain(k_d()) { reveal_strlit("d"); lemma_key("d", seq![100u8]); }
pub open spec fn k_t() -> V { V::T(seq![116u8]) }
pub proof fn k_t_lit() ensures V::T(encode_utf8("t"@)) == k_t(), plain(k_t()) { reveal_strlit("t"); lemma_key("t", seq![116u8]); }
pub open spec fn k_n300() -> V { V::U(300) }
pub open spec fn k_n7() -> V { V::U(7) }
pub open spec fn k_plain() -> V { V::T(seq![112u8, 108u8, 97u8, 105u8, 110u8]) }
pub proof fn k_plain_lit() ensures V::T(encode_utf8("plain"@)) == k_plain(), plain(k_plain()) { reveal_strlit("plain"); lemma_key("plain", seq![112u8, 108u8, 97u8, 105u8, 110u8]); }
pub open spec fn k_x() -> V { V::T(seq![120u8]) }
pub proof fn k_x_lit() ensures V::T(encode_utf8("x"@)) == k_x(), plain(k_x()) { reveal_strlit("x"); lemma_key("x", seq![120u8]); }
pub open spec fn k_y() -> V { V::T(seq![121u8]) }
pub proof fn k_y_lit() ensures V::T(encode_utf8("y"@)) == k_y(), plain(k_y()) { reveal_strlit("y"); lemma_key("y", seq![121u8]); }
pub open spec fn k_inner() -> V { V::T(seq![105u8, 110u8, 110u8, 101u8, 114u8]) }
pub proof fn k_inner_lit() ensures V::T(encode_utf8("inner"@)) == k_inner(), plain(k_inner()) { reveal_strlit("inner"); lemma_key("inner", seq![105u8, 110u8, 110u8, 101u8, 114u8]); }
pub open spec fn k_list() -> V { V::T(seq![108u8, 105u8, 115u8, 116u8]) }
pub proof fn k_list_lit() ensures V::T(encode_utf8("list"@)) == k_list(), plain(k_list()) { reveal_strlit("list"); lemma_key("list", seq![108u8, 105u8, 115u8, 116u8]); }
pub open spec fn k_maybe() -> V { V::T(seq![109u8, 97u8, 121u8, 98u8, 101u8]) }
pub proof fn k_maybe_lit() ensures V::T(encode_utf8("maybe"@)) == k_maybe(), plain(k_maybe()) { reveal_strlit("maybe"); lemma_key("maybe", seq![109u8, 97u8, 121u8, 98u8, 101u8]); }
pub open spec fn k_unit() -> V { V::T(seq![117u8, 110u8, 105u8, 116u8]) }
pub proof fn k_unit_lit() ensures V::T(encode_utf8("unit"@)) == k_unit(), plain(k_unit()) { reveal_strlit("unit"); lemma_key("unit", seq![117u8, 110u8, 105u8, 116u8]); }
pub open spec fn k_a() -> V { V::T(seq![97u8]) }
pub proof fn k_a_lit() ensures V::T(encode_utf8("a"@)) == k_a(), plain(k_a()) { reveal_strlit("a"); lemma_key("a", seq![97u8]); }
pub open spec fn k_z() -> V { V::T(seq![122u8]) }
pub proof fn k_z_lit() ensures V::T(encode_utf8("z"@)) == k_z(), plain(k_z()) { reveal_strlit("z"); lemma_key("z", seq![122u8]); }
pub open spec fn k_o() -> V { V::T(seq![111u8]) }
pub proof fn k_o_lit() ensures V::T(encode_utf8("o"@)) == k_o(), plain(k_o()) { reveal_strlit("o"); lemma_key("o", seq![111u8]); }
pub open spec fn k_c() -> V { V::T(seq![99u8]) }
pub proof fn k_c_lit() ensures V::T(encode_utf8("c"@)) == k_c(), plain(k_c()) { reveal_strlit("c"); lemma_key("c", seq![99u8]); }
pub open spec fn k_p() -> V { V::T(seq![112u8]) }
pub proof fn k_p_lit() ensures V::T(encode_utf8("p"@)) == k_p(), plain(k_p()) { reveal_strlit("p"); lemma_key("p", seq![112u8]); }
pub open spec fn k_q() -> V { V::T(seq![113u8]) }
pub proof fn k_q_lit() ensures V::T(encode_utf8("q"@)) == k_q(), plain(k_q()) { reveal_strlit("q"); lemma_key("q", seq![113u8]); }
pub open spec fn k_zeta_zeta_zeta_zeta_zeta() -> V { V::T(seq![122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8]) }
pub proof fn k_zeta_zeta_zeta_zeta_zeta_lit() ensures V::T(encode_utf8("zeta_zeta_zeta_zeta_zeta"@)) == k_zeta_zeta_zeta_zeta_zeta(), plain(k_zeta_zeta_zeta_zeta_zeta()) { reveal_strlit("zeta_zeta_zeta_zeta_zeta"); lemma_key("zeta_zeta_zeta_zeta_zeta", seq![122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8]); }
pub open spec fn k_alpha_alpha_alpha_alpha_alpha() -> V { V::T(seq![97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8]) }
pub proof fn k_alpha_alpha_alpha_alpha_alpha_lit() ensures V::T(encode_utf8("alpha_alpha_alpha_alpha_alpha"@)) == k_alpha_alpha_alpha_alpha_alpha(), plain(k_alpha_alpha_alpha_alpha_alpha()) { reveal_strlit("alpha_alpha_alpha_alpha_alpha"); lemma_key("alpha_alpha_alpha_alpha_alpha", seq![97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8]); }
pub open spec fn k27_() -> V { V::T(seq![110u8, 97u8, 109u8, 101u8, 32u8, 111u8, 102u8, 32u8, 50u8, 51u8, 32u8, 98u8, 121u8, 116u8, 101u8, 115u8, 32u8, 101u8, 120u8, 97u8, 99u8, 116u8, 108u8]) }
pub proof fn k27__lit() ensures V::T(encode_utf8("name of 23 bytes exactl"@)) == k27_(), plain(k27_()) { reveal_strlit("name of 23 bytes exactl"); lemma_key("name of 23 bytes exactl", seq![110u8, 97u8, 109u8, 101u8, 32u8, 111u8, 102u8, 32u8, 50u8, 51u8, 32u8, 98u8, 121u8, 116u8, 101u8, 115u8, 32u8, 101u8, 120u8, 97u8, 99u8, 116u8, 108u8]); }
pub open spec fn k28_() -> V { V::T(Seq::<u8>::empty()) }
pub proof fn k28__lit() ensures V::T(encode_utf8(""@)) == k28_(), plain(k28_()) { reveal_strlit(""); lemma_key("", Seq::<u8>::empty()); }
pub open spec fn k_n18446744073709551615() -> V { V::U(18446744073709551615) }
pub open spec fn k_n4294967296() -> V { V::U(4294967296) }
pub open spec fn k_n65536() -> V { V::U(65536) }
pub open spec fn k_text() -> V { V::T(seq![116u8, 101u8, 120u8, 116u8]) }
pub proof fn k_text_lit() ensures V::T(encode_utf8("text"@)) == k_text(), plain(k_text()) { reveal_strlit("text"); lemma_key("text", seq![116u8, 101u8, 120u8, 116u8]); }
pub open spec fn k_n256() -> V { V::U(256) }
pub open spec fn k_n24() -> V { V::U(24) }
pub open spec fn k_n0() -> V { V::U(0) }
pub open spec fn k_cap() -> V { V::T(seq![99u8, 97u8, 112u8]) }
pub proof fn k_cap_lit() ensures V::T(encode_utf8("cap"@)) == k_cap(), plain(k_cap()) { reveal_strlit("cap"); lemma_key("cap", seq![99u8, 97u8, 112u8]); }
pub open spec fn k_small() -> V { V::T(seq![115u8, 109u8, 97u8, 108u8, 108u8]) }
pub proof fn k_small_lit() ensures V::T(encode_utf8("small"@)) == k_small(), plain(k_small()) { reveal_strlit("small"); lemma_key("small", seq![115u8, 109u8, 97u8, 108u8, 108u8]); }
pub open spec fn k_n9() -> V { V::U(9) }
pub open spec fn k_k() -> V { V::T(seq![107u8]) }
pub proof fn k_k_lit() ensures V::T(encode_utf8("k"@)) == k_k(), plain(k_k()) { reveal_strlit("k"); lemma_key("k", seq![107u8]); }
pub open spec fn k_l() -> V { V::T(seq![108u8]) }
pub proof fn k_l_lit() ensures V::T(encode_utf8("l"@)) == k_l(), plain(k_l()) { reveal_strlit("l"); lemma_key("l", seq![108u8]); }
pub open spec fn k_m() -> V { V::T(seq![109u8]) }
pub proof fn k_m_lit() ensures V::T(encode_utf8("m"@)) == k_m(), plain(k_m()) { reveal_strlit("m"); lemma_key("m", seq![109u8]); }
pub open spec fn k_one() -> V { V::T(seq![111u8, 110u8, 101u8]) }
pub proof fn k_one_lit() ensures V::T(encode_utf8("one"@)) == k_one(), plain(k_one()) { reveal_strlit("one"); lemma_key("one", seq![111u8, 110u8, 101u8]); }
pub open spec fn k_A() -> V { V::T(seq![65u8]) }
pub proof fn k_A_lit() ensures V::T(encode_utf8("A"@)) == k_A(), plain(k_A()) { reveal_strlit("A"); lemma_key("A", seq![65u8]); }
pub open spec fn k_bee() -> V { V::T(seq![98u8, 101u8, 101u8]) }
pub proof fn k_bee_lit() ensures V::T(encode_utf8("bee"@)) == k_bee(), plain(k_bee()) { reveal_strlit("bee"); lemma_key("bee", seq![98u8, 101u8, 101u8]); }
pub open spec fn k_C() -> V { V::T(seq![67u8]) }
pub proof fn k_C_lit() ensures V::T(encode_utf8("C"@)) == k_C(), plain(k_C()) { reveal_strlit("C"); lemma_key("C", seq![67u8]); }
pub open spec fn k_n5() -> V { V::U(5) }
pub open spec fn k_m3() -> V { V::N(-3) }
pub open spec fn k_n70000() -> V { V::U(70000) }
pub open spec fn k_Nothing() -> V { V::T(seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8]) }
pub proof fn k_Nothing_lit() ensures V::T(encode_utf8("Nothing"@)) == k_Nothing(), plain(k_Nothing()) { reveal_strlit("Nothing"); lemma_key("Nothing", seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8]); }
pub open spec fn k_New() -> V { V::T(seq![78u8, 101u8, 119u8]) }
pub proof fn k_New_lit() ensures V::T(encode_utf8("New"@)) == k_New(), plain(k_New()) { reveal_strlit("New"); lemma_key("New", seq![78u8, 101u8, 119u8]); }
pub open spec fn k_Pair() -> V { V::T(seq![80u8, 97u8, 105u8, 114u8]) }
pub proof fn k_Pair_lit() ensures V::T(encode_utf8("Pair"@)) == k_Pair(), plain(k_Pair()) { reveal_strlit("Pair"); lemma_key("Pair", seq![80u8, 97u8, 105u8, 114u8]); }
pub open spec fn k_r() -> V { V::T(seq![114u8]) }
pub proof fn k_r_lit() ensures V::T(encode_utf8("r"@)) == k_r(), plain(k_r()) { reveal_strlit("r"); lemma_key("r", seq![114u8]); }
pub open spec fn k_Gone() -> V { V::T(seq![71u8, 111u8, 110u8, 101u8]) }
pub proof fn k_Gone_lit() ensures V::T(encode_utf8("Gone"@)) == k_Gone(), plain(k_Gone()) { reveal_strlit("Gone"); lemma_key("Gone", seq![71u8, 111u8, 110u8, 101u8]); }
pub open spec fn k_Arr() -> V { V::T(seq![65u8, 114u8, 114u8]) }
pub proof fn k_Arr_lit() ensures V::T(encode_utf8("Arr"@)) == k_Arr(), plain(k_Arr()) { reveal_strlit("Arr"); lemma_key("Arr", seq![65u8, 114u8, 114u8]); }
pub open spec fn k_Braces() -> V { V::T(seq![66u8, 114u8, 97u8, 99u8, 101u8, 115u8]) }
pub proof fn k_Braces_lit() ensures V::T(encode_utf8("Braces"@)) == k_Braces(), plain(k_Braces()) { reveal_strlit("Braces"); lemma_key("Braces", seq![66u8, 114u8, 97u8, 99u8, 101u8, 115u8]); }
pub open spec fn k_AsStruct() -> V { V::T(seq![65u8, 115u8, 83u8, 116u8, 114u8, 117u8, 99u8, 116u8]) }
pub proof fn k_AsStruct_lit() ensures V::T(encode_utf8("AsStruct"@)) == k_AsStruct(), plain(k_AsStruct()) { reveal_strlit("AsStruct"); lemma_key("AsStruct", seq![65u8, 115u8, 83u8, 116u8, 114u8, 117u8, 99u8, 116u8]); }
pub open spec fn k_Hide() -> V { V::T(seq![72u8, 105u8, 100u8, 101u8]) }
pub proof fn k_Hide_lit() ensures V::T(encode_utf8("Hide"@)) == k_Hide(), plain(k_Hide()) { reveal_strlit("Hide"); lemma_key("Hide", seq![72u8, 105u8, 100u8, 101u8]); }
pub open spec fn k_Deep() -> V { V::T(seq![68u8, 101u8, 101u8, 112u8]) }
pub proof fn k_Deep_lit() ensures V::T(encode_utf8("Deep"@)) == k_Deep(), plain(k_Deep()) { reveal_strlit("Deep"); lemma_key("Deep", seq![68u8, 101u8, 101u8, 112u8]); }
pub open spec fn k_Free() -> V { V::T(seq![70u8, 114u8, 101u8, 101u8]) }
pub proof fn k_Free_lit() ensures V::T(encode_utf8("Free"@)) == k_Free(), plain(k_Free()) { reveal_strlit("Free"); lemma_key("Free", seq![70u8, 114u8, 101u8, 101u8]); }
pub open spec fn k_One() -> V { V::T(seq![79u8, 110u8, 101u8]) }
pub proof fn k_One_lit() ensures V::T(encode_utf8("One"@)) == k_One(), plain(k_One()) { reveal_strlit("One"); lemma_key("One", seq![79u8, 110u8, 101u8]); }
pub open spec fn k_Two() -> V { V::T(seq![84u8, 119u8, 111u8]) }
pub proof fn k_Two_lit() ensures V::T(encode_utf8("Two"@)) == k_Two(), plain(k_Two()) { reveal_strlit("Two"); lemma_key("Two", seq![84u8, 119u8, 111u8]); }
pub open spec fn k_Three() -> V { V::T(seq![84u8, 104u8, 114u8, 101u8, 101u8]) }
pub proof fn k_Three_lit() ensures V::T(encode_utf8("Three"@)) == k_Three(), plain(k_Three()) { reveal_strlit("Three"); lemma_key("Three", seq![84u8, 104u8, 114u8, 101u8, 101u8]); }
pub open spec fn k_Own() -> V { V::T(seq![79u8, 119u8, 110u8]) }
pub proof fn k_Own_lit() ensures V::T(encode_utf8("Own"@)) == k_Own(), plain(k_Own()) { reveal_strlit("Own"); lemma_key("Own", seq![79u8, 119u8, 110u8]); }
pub open spec fn k_Kid() -> V { V::T(seq![75u8, 105u8, 100u8]) }
pub proof fn k_Kid_lit() ensures V::T(encode_utf8("Kid"@)) == k_Kid(), plain(k_Kid()) { reveal_strlit("Kid"); lemma_key("Kid", seq![75u8, 105u8, 100u8]); }
pub open spec fn k_Rest() -> V { V::T(seq![82u8, 101u8, 115u8, 116u8]) }
pub proof fn k_Rest_lit() ensures V::T(encode_utf8("Rest"@)) == k_Rest(), plain(k_Rest()) { reveal_strlit("Rest"); lemma_key("Rest", seq![82u8, 101u8, 115u8, 116u8]); }
pub open spec fn k_n1() -> V { V::U(1) }
pub open spec fn k_n2() -> V { V::U(2) }
pub open spec fn k_Num() -> V { V::T(seq![78u8, 117u8, 109u8]) }
pub proof fn k_Num_lit() ensures V::T(encode_utf8("Num"@)) == k_Num(), plain(k_Num()) { reveal_strlit("Num"); lemma_key("Num", seq![78u8, 117u8, 109u8]); }
pub open spec fn k_Rec() -> V { V::T(seq![82u8, 101u8, 99u8]) }
pub proof fn k_Rec_lit() ensures V::T(encode_utf8("Rec"@)) == k_Rec(), plain(k_Rec()) { reveal_strlit("Rec"); lemma_key("Rec", seq![82u8, 101u8, 99u8]); }
pub open spec fn k_AVariantNameOfMoreThan23Bytes() -> V { V::T(seq![65u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8]) }
pub proof fn k_AVariantNameOfMoreThan23Bytes_lit() ensures V::T(encode_utf8("AVariantNameOfMoreThan23Bytes"@)) == k_AVariantNameOfMoreThan23Bytes(), plain(k_AVariantNameOfMoreThan23Bytes()) { reveal_strlit("AVariantNameOfMoreThan23Bytes"); lemma_key("AVariantNameOfMoreThan23Bytes", seq![65u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8]); }
pub open spec fn k_AnotherVariantNameOfMoreThan23Bytes() -> V { V::T(seq![65u8, 110u8, 111u8, 116u8, 104u8, 101u8, 114u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8]) }
pub proof fn k_AnotherVariantNameOfMoreThan23Bytes_lit() ensures V::T(encode_utf8("AnotherVariantNameOfMoreThan23Bytes"@)) == k_AnotherVariantNameOfMoreThan23Bytes(), plain(k_AnotherVariantNameOfMoreThan23Bytes()) { reveal_strlit("AnotherVariantNameOfMoreThan23Bytes"); lemma_key("AnotherVariantNameOfMoreThan23Bytes", seq![65u8, 110u8, 111u8, 116u8, 104u8, 101u8, 114u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8]); }
pub open spec fn k_m25() -> V { V::N(-25) }
pub open spec fn k_n23() -> V { V::U(23) }
pub open spec fn k_Tup() -> V { V::T(seq![84u8, 117u8, 112u8]) }
pub proof fn k_Tup_lit() ensures V::T(encode_utf8("Tup"@)) == k_Tup(), plain(k_Tup()) { reveal_strlit("Tup"); lemma_key("Tup", seq![84u8, 117u8, 112u8]); }
pub open spec fn k_EmptyTup() -> V { V::T(seq![69u8, 109u8, 112u8, 116u8, 121u8, 84u8, 117u8, 112u8]) }
pub proof fn k_EmptyTup_lit() ensures V::T(encode_utf8("EmptyTup"@)) == k_EmptyTup(), plain(k_EmptyTup()) { reveal_strlit("EmptyTup"); lemma_key("EmptyTup", seq![69u8, 109u8, 112u8, 116u8, 121u8, 84u8, 117u8, 112u8]); }
pub open spec fn k_LooseUnit() -> V { V::T(seq![76u8, 111u8, 111u8, 115u8, 101u8, 85u8, 110u8, 105u8, 116u8]) }
pub proof fn k_LooseUnit_lit() ensures V::T(encode_utf8("LooseUnit"@)) == k_LooseUnit(), plain(k_LooseUnit()) { reveal_strlit("LooseUnit"); lemma_key("LooseUnit", seq![76u8, 111u8, 111u8, 115u8, 101u8, 85u8, 110u8, 105u8, 116u8]); }
pub open spec fn k_n3() -> V { V::U(3) }
pub open spec fn k_Loose() -> V { V::T(seq![76u8, 111u8, 111u8, 115u8, 101u8]) }
pub proof fn k_Loose_lit() ensures V::T(encode_utf8("Loose"@)) == k_Loose(), plain(k_Loose()) { reveal_strlit("Loose"); lemma_key("Loose", seq![76u8, 111u8, 111u8, 115u8, 101u8]); }
pub open spec fn k_LooseC() -> V { V::T(seq![76u8, 111u8, 111u8, 115u8, 101u8, 67u8]) }
pub proof fn k_LooseC_lit() ensures V::T(encode_utf8("LooseC"@)) == k_LooseC(), plain(k_LooseC()) { reveal_strlit("LooseC"); lemma_key("LooseC", seq![76u8, 111u8, 111u8, 115u8, 101u8, 67u8]); }
pub open spec fn k_zz() -> V { V::T(seq![122u8, 122u8]) }
pub proof fn k_zz_lit() ensures V::T(encode_utf8("zz"@)) == k_zz(), plain(k_zz()) { reveal_strlit("zz"); lemma_key("zz", seq![122u8, 122u8]); }
pub open spec fn k_yy() -> V { V::T(seq![121u8, 121u8]) }
pub proof fn k_yy_lit() ensures V::T(encode_utf8("yy"@)) == k_yy(), plain(k_yy()) { reveal_strlit("yy"); lemma_key("yy", seq![121u8, 121u8]); }
pub open spec fn k_Opt() -> V { V::T(seq![79u8, 112u8, 116u8]) }
pub proof fn k_Opt_lit() ensures V::T(encode_utf8("Opt"@)) == k_Opt(), plain(k_Opt()) { reveal_strlit("Opt"); lemma_key("Opt", seq![79u8, 112u8, 116u8]); }
pub open spec fn k83_() -> V { V::T(seq![107u8, 105u8, 110u8, 100u8, 32u8, 111u8, 102u8, 32u8, 116u8, 97u8, 103u8, 32u8, 116u8, 104u8, 97u8, 116u8, 32u8, 105u8, 115u8, 32u8, 108u8, 111u8, 110u8, 103u8, 101u8, 114u8]) }
pub proof fn k83__lit() ensures V::T(encode_utf8("kind of tag that is longer"@)) == k83_(), plain(k83_()) { reveal_strlit("kind of tag that is longer"); lemma_key("kind of tag that is longer", seq![107u8, 105u8, 110u8, 100u8, 32u8, 111u8, 102u8, 32u8, 116u8, 97u8, 103u8, 32u8, 116u8, 104u8, 97u8, 116u8, 32u8, 105u8, 115u8, 32u8, 108u8, 111u8, 110u8, 103u8, 101u8, 114u8]); }
pub open spec fn k_u() -> V { V::T(seq![117u8]) }
pub proof fn k_u_lit() ensures V::T(encode_utf8("u"@)) == k_u(), plain(k_u()) { reveal_strlit("u"); lemma_key("u", seq![117u8]); }

// ------------------------------------------------------------------ Plain
pub type PLAIN = (<u64 as Ty>::M, <String as Ty>::M, <Vec<u8> as Ty>::M);
pub open spec fn plain_m(zeta: u64, alpha: String, mid: Vec<u8>) -> PLAIN { (zeta.m(), alpha.m(), mid.m()) }
pub open spec fn plain_d(zeta: u64, alpha: String, mid: Vec<u8>) -> Seq<KO> { Seq::empty().push((k_zeta(), Some(zeta.e()))).push((k_alpha(), Some(alpha.e()))).push((k_mid(), Some(mid.e()))) }
pub open spec fn plain_e(zeta: u64, alpha: String, mid: Vec<u8>) -> V { V::M(ents(plain_d(zeta, alpha, mid))) }
#[verifier::opaque]
pub open spec fn plain_take(s: Seq<KV>) -> R<PLAIN> { match f_strict::<Vec<u8>>(s, k_mid()) { Err(e) => Err(e), Ok((m_mid, s)) => match f_strict::<u64>(s, k_zeta()) { Err(e) => Err(e), Ok((m_zeta, s)) => match f_strict::<String>(s, k_alpha()) { Err(e) => Err(e), Ok((m_alpha, s)) => if s.len() > 0 { Err::<PLAIN, DecodeError>(DecodeError::UnknownField) } else { Ok::<PLAIN, DecodeError>((m_zeta, m_alpha, m_mid)) } } } } }
pub open spec fn plain_dec(v: V) -> R<PLAIN> { match v { V::M(s) => plain_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn plain_rt(zeta: u64, alpha: String, mid: Vec<u8>) -> bool { 
    &&& zeta.rt_top()
    &&& alpha.rt_top()
    &&& mid.rt_top() }
pub open spec fn plain_ks() -> Seq<V> { seq![k_mid(), k_zeta(), k_alpha()] }
pub proof fn plain_keys()
    ensures plain(k_mid()), plain(k_zeta()), plain(k_alpha()), ord(k_mid(), k_zeta()) is Less, ord(k_mid(), k_alpha()) is Less, ord(k_zeta(), k_alpha()) is Less
{
    lemma_text_less(seq![109u8, 105u8, 100u8], seq![122u8, 101u8, 116u8, 97u8], 0);
    lemma_text_less(seq![109u8, 105u8, 100u8], seq![97u8, 108u8, 112u8, 104u8, 97u8], 0);
    lemma_text_less(seq![122u8, 101u8, 116u8, 97u8], seq![97u8, 108u8, 112u8, 104u8, 97u8], 0);
    k_mid_lit();
    k_zeta_lit();
    k_alpha_lit();
}
proof fn plain_chain(l: Seq<KO>, w_mid: <Vec<u8> as Ty>::M, w_zeta: <u64 as Ty>::M, w_alpha: <String as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_mid(), d_top::<Vec<u8>>(or_null(l[0].1)) == Ok::<<Vec<u8> as Ty>::M, DecodeError>(w_mid), l[1].0 == k_zeta(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_zeta), l[2].0 == k_alpha(), d_top::<String>(or_null(l[2].1)) == Ok::<<String as Ty>::M, DecodeError>(w_alpha)
    ensures plain_take(ents(l)) == Ok::<PLAIN, DecodeError>((w_zeta, w_alpha, w_mid))
{
    
    reveal(plain_take); let l0 = l;
    lemma_field_step::<Vec<u8>>(l0, w_mid); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_zeta); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<String>(l2, w_alpha); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn plain_back(zeta: u64, alpha: String, mid: Vec<u8>)
    requires plain_rt(zeta, alpha, mid)
    ensures plain_dec(plain_e(zeta, alpha, mid)) == Ok::<PLAIN, DecodeError>(plain_m(zeta, alpha, mid)), plain_dec(norm(plain_e(zeta, alpha, mid))) == Ok::<PLAIN, DecodeError>(plain_m(zeta, alpha, mid)), wf(plain_e(zeta, alpha, mid)), !has_dup(plain_e(zeta, alpha, mid))
{
    
    plain_keys();
    lemma_required::<u64>(zeta);
    lemma_required::<String>(alpha);
    lemma_required::<Vec<u8>>(mid);
    let dd = plain_d(zeta, alpha, mid);
    let ll: Seq<KO> = seq![dd[2], dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![2int, 0int, 1int], seq![1int, 2int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    plain_chain(ll, mid.m(), zeta.m(), alpha.m());
    plain_chain(normo(ll), mid.m(), zeta.m(), alpha.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_plain(zeta: u64, alpha: String, mid: Vec<u8>)
    ensures lookup(ents(plain_d(zeta, alpha, mid)), k_zeta()) == Some(zeta.e()), lookup(ents(plain_d(zeta, alpha, mid)), k_alpha()) == Some(alpha.e()), lookup(ents(plain_d(zeta, alpha, mid)), k_mid()) == Some(mid.e())
{
    
    plain_keys();
    let dd = plain_d(zeta, alpha, mid);
    lemma_ord_refl(k_mid());    lemma_ord_refl(k_zeta());    lemma_ord_refl(k_alpha());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_plain(s: Seq<KV>)
    ensures plain_dec(V::M(s)) is Ok ==> declared(s, plain_ks()), plain_dec(V::M(s)) is Ok ==> plain_found(s)
{
    
    if plain_dec(V::M(s)) is Ok {
        plain_keys(); reveal(plain_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Vec<u8>>(s0, k_mid())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_zeta())->Ok_0.1;
        let s3 = f_strict::<String>(s2, k_alpha())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_alpha()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<String>(s2, q2);
        let q1 = seq![k_zeta(), k_alpha()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_mid(), k_zeta(), k_alpha()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Vec<u8>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= plain_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Vec<u8>>(s0, k_mid()); lemma_loose_step::<Vec<u8>>(s0, k_mid());
        lemma_strict_loose::<u64>(s1, k_zeta()); lemma_loose_step::<u64>(s1, k_zeta());
        lemma_strict_loose::<String>(s2, k_alpha()); lemma_loose_step::<String>(s2, k_alpha());
    }
}
pub open spec fn plain_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_zeta()))) == Ok::<<u64 as Ty>::M, DecodeError>(plain_dec(V::M(s))->Ok_0.0) && d_top::<String>(or_null(lookup(s, k_alpha()))) == Ok::<<String as Ty>::M, DecodeError>(plain_dec(V::M(s))->Ok_0.1) && d_top::<Vec<u8>>(or_null(lookup(s, k_mid()))) == Ok::<<Vec<u8> as Ty>::M, DecodeError>(plain_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_plain_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures plain_dec(V::M(s)) == plain_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Plain {
    type M = PLAIN;
    open spec fn m(self) -> PLAIN { plain_m(self.zeta, self.alpha, self.mid) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: PLAIN) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> PLAIN { arbitrary() }
}
proof fn plain_some(zeta: u64, alpha: String, mid: Vec<u8>) ensures ents(plain_d(zeta, alpha, mid)).len() > 0 { lemma_ents_at(plain_d(zeta, alpha, mid)); assert(plain_d(zeta, alpha, mid)[0].1 is Some); }
pub open spec fn plain_default() -> <Plain as Ty>::M { (0int, Seq::<char>::empty(), Seq::<<u8 as Ty>::M>::empty()) }
impl Codec for Plain {
    open spec fn rt(&self) -> bool { plain_rt(self.zeta, self.alpha, self.mid) }
    proof fn back(&self) { plain_back(self.zeta, self.alpha, self.mid); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { plain_some(self.zeta, self.alpha, self.mid); }
}

// ------------------------------------------------------------------ Opt
pub type OPT = (<u64 as Ty>::M, <u64 as Ty>::M, <bool as Ty>::M, <String as Ty>::M);
pub open spec fn opt_m(must: u64, n: u64, b: bool, s: String) -> OPT { (must.m(), n.m(), b.m(), s.m()) }
pub open spec fn opt_d(must: u64, n: u64, b: bool, s: String) -> Seq<KO> { Seq::empty().push((k_must(), Some(must.e()))).push((k_n(), (if n.omit() { None } else { Some(n.e()) }))).push((k_b(), (if b.omit() { None } else { Some(b.e()) }))).push((k_s(), (if s.omit() { None } else { Some(s.e()) }))) }
pub open spec fn opt_e(must: u64, n: u64, b: bool, s: String) -> V { V::M(ents(opt_d(must, n, b, s))) }
#[verifier::opaque]
pub open spec fn opt_take(s: Seq<KV>) -> R<OPT> { match f_strict::<bool>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => match f_strict::<u64>(s, k_n()) { Err(e) => Err(e), Ok((m_n, s)) => match f_strict::<String>(s, k_s()) { Err(e) => Err(e), Ok((m_s, s)) => match f_strict::<u64>(s, k_must()) { Err(e) => Err(e), Ok((m_must, s)) => if s.len() > 0 { Err::<OPT, DecodeError>(DecodeError::UnknownField) } else { Ok::<OPT, DecodeError>((m_must, m_n, m_b, m_s)) } } } } } }
pub open spec fn opt_dec(v: V) -> R<OPT> { match v { V::M(s) => opt_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn opt_rt(must: u64, n: u64, b: bool, s: String) -> bool { 
    &&& must.rt_top()
    &&& n.rt_top() && !n.lost()
    &&& b.rt_top() && !b.lost()
    &&& s.rt_top() && !s.lost() }
pub open spec fn opt_ks() -> Seq<V> { seq![k_b(), k_n(), k_s(), k_must()] }
pub proof fn opt_keys()
    ensures plain(k_b()), plain(k_n()), plain(k_s()), plain(k_must()), ord(k_b(), k_n()) is Less, ord(k_b(), k_s()) is Less, ord(k_b(), k_must()) is Less, ord(k_n(), k_s()) is Less, ord(k_n(), k_must()) is Less, ord(k_s(), k_must()) is Less
{
    lemma_text_less(seq![98u8], seq![110u8], 0);
    lemma_text_less(seq![98u8], seq![115u8], 0);
    lemma_text_less(seq![98u8], seq![109u8, 117u8, 115u8, 116u8], 0);
    lemma_text_less(seq![110u8], seq![115u8], 0);
    lemma_text_less(seq![110u8], seq![109u8, 117u8, 115u8, 116u8], 0);
    lemma_text_less(seq![115u8], seq![109u8, 117u8, 115u8, 116u8], 0);
    k_b_lit();
    k_n_lit();
    k_s_lit();
    k_must_lit();
}
proof fn opt_chain(l: Seq<KO>, w_b: <bool as Ty>::M, w_n: <u64 as Ty>::M, w_s: <String as Ty>::M, w_must: <u64 as Ty>::M)
    requires rising(l), l.len() == 4, l[0].0 == k_b(), d_top::<bool>(or_null(l[0].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_b), l[1].0 == k_n(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_n), l[2].0 == k_s(), d_top::<String>(or_null(l[2].1)) == Ok::<<String as Ty>::M, DecodeError>(w_s), l[3].0 == k_must(), d_top::<u64>(or_null(l[3].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_must)
    ensures opt_take(ents(l)) == Ok::<OPT, DecodeError>((w_must, w_n, w_b, w_s))
{
    
    reveal(opt_take); let l0 = l;
    lemma_field_step::<bool>(l0, w_b); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_n); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<String>(l2, w_s); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<u64>(l3, w_must); let l4 = l3.drop_first();
    assert(l4.len() == 0); assert(ents(l4).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn opt_back(must: u64, n: u64, b: bool, s: String)
    requires opt_rt(must, n, b, s)
    ensures opt_dec(opt_e(must, n, b, s)) == Ok::<OPT, DecodeError>(opt_m(must, n, b, s)), opt_dec(norm(opt_e(must, n, b, s))) == Ok::<OPT, DecodeError>(opt_m(must, n, b, s)), wf(opt_e(must, n, b, s)), !has_dup(opt_e(must, n, b, s))
{
    
    opt_keys();
    lemma_required::<u64>(must);
    lemma_optional::<u64>(n);
    lemma_optional::<bool>(b);
    lemma_optional::<String>(s);
    let dd = opt_d(must, n, b, s);
    let ll: Seq<KO> = seq![dd[2], dd[1], dd[3], dd[0]];
    lemma_rearranged(dd, ll, seq![2int, 1int, 3int, 0int], seq![3int, 1int, 0int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    opt_chain(ll, b.m(), n.m(), s.m(), must.m());
    opt_chain(normo(ll), b.m(), n.m(), s.m(), must.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_opt(must: u64, n: u64, b: bool, s: String)
    ensures lookup(ents(opt_d(must, n, b, s)), k_must()) == Some(must.e()), lookup(ents(opt_d(must, n, b, s)), k_n()) == (if n.omit() { None } else { Some(n.e()) }), lookup(ents(opt_d(must, n, b, s)), k_b()) == (if b.omit() { None } else { Some(b.e()) }), lookup(ents(opt_d(must, n, b, s)), k_s()) == (if s.omit() { None } else { Some(s.e()) })
{
    
    opt_keys();
    let dd = opt_d(must, n, b, s);
    lemma_ord_refl(k_b());    lemma_ord_refl(k_n());    lemma_ord_refl(k_s());    lemma_ord_refl(k_must());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_opt(s: Seq<KV>)
    ensures opt_dec(V::M(s)) is Ok ==> declared(s, opt_ks()), opt_dec(V::M(s)) is Ok ==> opt_found(s)
{
    
    if opt_dec(V::M(s)) is Ok {
        opt_keys(); reveal(opt_take);
        let s0 = tsort(s);
        let s1 = f_strict::<bool>(s0, k_b())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_n())->Ok_0.1;
        let s3 = f_strict::<String>(s2, k_s())->Ok_0.1;
        let s4 = f_strict::<u64>(s3, k_must())->Ok_0.1;
        let q4 = Seq::<V>::empty();
        lemma_declared_none(s4, q4);
        let q3 = seq![k_must()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<u64>(s3, q3);
        let q2 = seq![k_s(), k_must()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<String>(s2, q2);
        let q1 = seq![k_n(), k_s(), k_must()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_b(), k_n(), k_s(), k_must()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<bool>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= opt_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<bool>(s0, k_b()); lemma_loose_step::<bool>(s0, k_b());
        lemma_strict_loose::<u64>(s1, k_n()); lemma_loose_step::<u64>(s1, k_n());
        lemma_strict_loose::<String>(s2, k_s()); lemma_loose_step::<String>(s2, k_s());
        lemma_strict_loose::<u64>(s3, k_must()); lemma_loose_step::<u64>(s3, k_must());
    }
}
pub open spec fn opt_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_must()))) == Ok::<<u64 as Ty>::M, DecodeError>(opt_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_n()))) == Ok::<<u64 as Ty>::M, DecodeError>(opt_dec(V::M(s))->Ok_0.1) && d_top::<bool>(or_null(lookup(s, k_b()))) == Ok::<<bool as Ty>::M, DecodeError>(opt_dec(V::M(s))->Ok_0.2) && d_top::<String>(or_null(lookup(s, k_s()))) == Ok::<<String as Ty>::M, DecodeError>(opt_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_opt_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures opt_dec(V::M(s)) == opt_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Opt {
    type M = OPT;
    open spec fn m(self) -> OPT { opt_m(self.must, self.n, self.b, self.s) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: OPT) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> OPT { arbitrary() }
}
proof fn opt_some(must: u64, n: u64, b: bool, s: String) ensures ents(opt_d(must, n, b, s)).len() > 0 { lemma_ents_at(opt_d(must, n, b, s)); assert(opt_d(must, n, b, s)[0].1 is Some); }
impl Codec for Opt {
    open spec fn rt(&self) -> bool { opt_rt(self.must, self.n, self.b, self.s) }
    proof fn back(&self) { opt_back(self.must, self.n, self.b, self.s); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { opt_some(self.must, self.n, self.b, self.s); }
}

// ------------------------------------------------------------------ OptMore
pub type OPT_MORE = (<Vec<u16> as Ty>::M, <Value as Ty>::M, <(u64, bool) as Ty>::M);
pub open spec fn opt_more_m(v: Vec<u16>, d: Value, t: (u64, bool)) -> OPT_MORE { (v.m(), d.m(), t.m()) }
pub open spec fn opt_more_d(v: Vec<u16>, d: Value, t: (u64, bool)) -> Seq<KO> { Seq::empty().push((k_v(), (if v.omit() { None } else { Some(v.e()) }))).push((k_d(), (if d.omit() { None } else { Some(d.e()) }))).push((k_t(), (if t.omit() { None } else { Some(t.e()) }))) }
pub open spec fn opt_more_e(v: Vec<u16>, d: Value, t: (u64, bool)) -> V { V::M(ents(opt_more_d(v, d, t))) }
#[verifier::opaque]
pub open spec fn opt_more_take(s: Seq<KV>) -> R<OPT_MORE> { match f_strict::<Value>(s, k_d()) { Err(e) => Err(e), Ok((m_d, s)) => match f_strict::<(u64, bool)>(s, k_t()) { Err(e) => Err(e), Ok((m_t, s)) => match f_strict::<Vec<u16>>(s, k_v()) { Err(e) => Err(e), Ok((m_v, s)) => if s.len() > 0 { Err::<OPT_MORE, DecodeError>(DecodeError::UnknownField) } else { Ok::<OPT_MORE, DecodeError>((m_v, m_d, m_t)) } } } } }
pub open spec fn opt_more_dec(v: V) -> R<OPT_MORE> { match v { V::M(s) => opt_more_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn opt_more_rt(v: Vec<u16>, d: Value, t: (u64, bool)) -> bool { 
    &&& v.rt_top() && !v.lost()
    &&& d.rt_top() && !d.lost()
    &&& t.rt_top() && !t.lost() }
pub open spec fn opt_more_ks() -> Seq<V> { seq![k_d(), k_t(), k_v()] }
pub proof fn opt_more_keys()
    ensures plain(k_d()), plain(k_t()), plain(k_v()), ord(k_d(), k_t()) is Less, ord(k_d(), k_v()) is Less, ord(k_t(), k_v()) is Less
{
    lemma_text_less(seq![100u8], seq![116u8], 0);
    lemma_text_less(seq![100u8], seq![118u8], 0);
    lemma_text_less(seq![116u8], seq![118u8], 0);
    k_d_lit();
    k_t_lit();
    k_v_lit();
}
proof fn opt_more_chain(l: Seq<KO>, w_d: <Value as Ty>::M, w_t: <(u64, bool) as Ty>::M, w_v: <Vec<u16> as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_d(), d_top::<Value>(or_null(l[0].1)) == Ok::<<Value as Ty>::M, DecodeError>(w_d), l[1].0 == k_t(), d_top::<(u64, bool)>(or_null(l[1].1)) == Ok::<<(u64, bool) as Ty>::M, DecodeError>(w_t), l[2].0 == k_v(), d_top::<Vec<u16>>(or_null(l[2].1)) == Ok::<<Vec<u16> as Ty>::M, DecodeError>(w_v)
    ensures opt_more_take(ents(l)) == Ok::<OPT_MORE, DecodeError>((w_v, w_d, w_t))
{
    
    reveal(opt_more_take); let l0 = l;
    lemma_field_step::<Value>(l0, w_d); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<(u64, bool)>(l1, w_t); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Vec<u16>>(l2, w_v); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn opt_more_back(v: Vec<u16>, d: Value, t: (u64, bool))
    requires opt_more_rt(v, d, t)
    ensures opt_more_dec(opt_more_e(v, d, t)) == Ok::<OPT_MORE, DecodeError>(opt_more_m(v, d, t)), opt_more_dec(norm(opt_more_e(v, d, t))) == Ok::<OPT_MORE, DecodeError>(opt_more_m(v, d, t)), wf(opt_more_e(v, d, t)), !has_dup(opt_more_e(v, d, t))
{
    
    opt_more_keys();
    lemma_optional::<Vec<u16>>(v);
    lemma_optional::<Value>(d);
    lemma_optional::<(u64, bool)>(t);
    let dd = opt_more_d(v, d, t);
    let ll: Seq<KO> = seq![dd[1], dd[2], dd[0]];
    lemma_rearranged(dd, ll, seq![1int, 2int, 0int], seq![2int, 0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    opt_more_chain(ll, d.m(), t.m(), v.m());
    opt_more_chain(normo(ll), d.m(), t.m(), v.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_opt_more(v: Vec<u16>, d: Value, t: (u64, bool))
    ensures lookup(ents(opt_more_d(v, d, t)), k_v()) == (if v.omit() { None } else { Some(v.e()) }), lookup(ents(opt_more_d(v, d, t)), k_d()) == (if d.omit() { None } else { Some(d.e()) }), lookup(ents(opt_more_d(v, d, t)), k_t()) == (if t.omit() { None } else { Some(t.e()) })
{
    
    opt_more_keys();
    let dd = opt_more_d(v, d, t);
    lemma_ord_refl(k_d());    lemma_ord_refl(k_t());    lemma_ord_refl(k_v());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_opt_more(s: Seq<KV>)
    ensures opt_more_dec(V::M(s)) is Ok ==> declared(s, opt_more_ks()), opt_more_dec(V::M(s)) is Ok ==> opt_more_found(s)
{
    
    if opt_more_dec(V::M(s)) is Ok {
        opt_more_keys(); reveal(opt_more_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Value>(s0, k_d())->Ok_0.1;
        let s2 = f_strict::<(u64, bool)>(s1, k_t())->Ok_0.1;
        let s3 = f_strict::<Vec<u16>>(s2, k_v())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_v()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<Vec<u16>>(s2, q2);
        let q1 = seq![k_t(), k_v()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<(u64, bool)>(s1, q1);
        let q0 = seq![k_d(), k_t(), k_v()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Value>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= opt_more_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Value>(s0, k_d()); lemma_loose_step::<Value>(s0, k_d());
        lemma_strict_loose::<(u64, bool)>(s1, k_t()); lemma_loose_step::<(u64, bool)>(s1, k_t());
        lemma_strict_loose::<Vec<u16>>(s2, k_v()); lemma_loose_step::<Vec<u16>>(s2, k_v());
    }
}
pub open spec fn opt_more_found(s: Seq<KV>) -> bool { d_top::<Vec<u16>>(or_null(lookup(s, k_v()))) == Ok::<<Vec<u16> as Ty>::M, DecodeError>(opt_more_dec(V::M(s))->Ok_0.0) && d_top::<Value>(or_null(lookup(s, k_d()))) == Ok::<<Value as Ty>::M, DecodeError>(opt_more_dec(V::M(s))->Ok_0.1) && d_top::<(u64, bool)>(or_null(lookup(s, k_t()))) == Ok::<<(u64, bool) as Ty>::M, DecodeError>(opt_more_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_opt_more_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures opt_more_dec(V::M(s)) == opt_more_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for OptMore {
    type M = OPT_MORE;
    open spec fn m(self) -> OPT_MORE { opt_more_m(self.v, self.d, self.t) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: OPT_MORE) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> OPT_MORE { arbitrary() }
}
impl Codec for OptMore {
    open spec fn rt(&self) -> bool { opt_more_rt(self.v, self.d, self.t) }
    proof fn back(&self) { opt_more_back(self.v, self.d, self.t); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.omit() && Self::d_def() != Ok::<OPT_MORE, DecodeError>(self.m()) }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ Renamed
pub type RENAMED = (<u64 as Ty>::M, <bool as Ty>::M, <Option<bool> as Ty>::M, <u8 as Ty>::M);
pub open spec fn renamed_m(first: u64, second: bool, third: Option<bool>, plain: u8) -> RENAMED { (first.m(), second.m(), third.m(), plain.m()) }
pub open spec fn renamed_d(first: u64, second: bool, third: Option<bool>, plain: u8) -> Seq<KO> { Seq::empty().push((k_b(), Some(first.e()))).push((k_n300(), Some(second.e()))).push((k_n7(), Some(third.e()))).push((k_plain(), Some(plain.e()))) }
pub open spec fn renamed_e(first: u64, second: bool, third: Option<bool>, plain: u8) -> V { V::M(ents(renamed_d(first, second, third, plain))) }
#[verifier::opaque]
pub open spec fn renamed_take(s: Seq<KV>) -> R<RENAMED> { match f_strict::<Option<bool>>(s, k_n7()) { Err(e) => Err(e), Ok((m_third, s)) => match f_strict::<bool>(s, k_n300()) { Err(e) => Err(e), Ok((m_second, s)) => match f_strict::<u64>(s, k_b()) { Err(e) => Err(e), Ok((m_first, s)) => match f_strict::<u8>(s, k_plain()) { Err(e) => Err(e), Ok((m_plain, s)) => if s.len() > 0 { Err::<RENAMED, DecodeError>(DecodeError::UnknownField) } else { Ok::<RENAMED, DecodeError>((m_first, m_second, m_third, m_plain)) } } } } } }
pub open spec fn renamed_dec(v: V) -> R<RENAMED> { match v { V::M(s) => renamed_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn renamed_rt(first: u64, second: bool, third: Option<bool>, plain: u8) -> bool { 
    &&& first.rt_top()
    &&& second.rt_top()
    &&& third.rt_top()
    &&& plain.rt_top() }
pub open spec fn renamed_ks() -> Seq<V> { seq![k_n7(), k_n300(), k_b(), k_plain()] }
pub proof fn renamed_keys()
    ensures plain(k_n7()), plain(k_n300()), plain(k_b()), plain(k_plain()), ord(k_n7(), k_n300()) is Less, ord(k_n7(), k_b()) is Less, ord(k_n7(), k_plain()) is Less, ord(k_n300(), k_b()) is Less, ord(k_n300(), k_plain()) is Less, ord(k_b(), k_plain()) is Less
{
    lemma_text_less(seq![98u8], seq![112u8, 108u8, 97u8, 105u8, 110u8], 0);
    k_b_lit();
    k_plain_lit();
}
proof fn renamed_chain(l: Seq<KO>, w_third: <Option<bool> as Ty>::M, w_second: <bool as Ty>::M, w_first: <u64 as Ty>::M, w_plain: <u8 as Ty>::M)
    requires rising(l), l.len() == 4, l[0].0 == k_n7(), d_top::<Option<bool>>(or_null(l[0].1)) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_third), l[1].0 == k_n300(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_second), l[2].0 == k_b(), d_top::<u64>(or_null(l[2].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_first), l[3].0 == k_plain(), d_top::<u8>(or_null(l[3].1)) == Ok::<<u8 as Ty>::M, DecodeError>(w_plain)
    ensures renamed_take(ents(l)) == Ok::<RENAMED, DecodeError>((w_first, w_second, w_third, w_plain))
{
    
    reveal(renamed_take); let l0 = l;
    lemma_field_step::<Option<bool>>(l0, w_third); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_second); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u64>(l2, w_first); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<u8>(l3, w_plain); let l4 = l3.drop_first();
    assert(l4.len() == 0); assert(ents(l4).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn renamed_back(first: u64, second: bool, third: Option<bool>, plain: u8)
    requires renamed_rt(first, second, third, plain)
    ensures renamed_dec(renamed_e(first, second, third, plain)) == Ok::<RENAMED, DecodeError>(renamed_m(first, second, third, plain)), renamed_dec(norm(renamed_e(first, second, third, plain))) == Ok::<RENAMED, DecodeError>(renamed_m(first, second, third, plain)), wf(renamed_e(first, second, third, plain)), !has_dup(renamed_e(first, second, third, plain))
{
    
    renamed_keys();
    lemma_required::<u64>(first);
    lemma_required::<bool>(second);
    lemma_required::<Option<bool>>(third);
    lemma_required::<u8>(plain);
    let dd = renamed_d(first, second, third, plain);
    let ll: Seq<KO> = seq![dd[2], dd[1], dd[0], dd[3]];
    lemma_rearranged(dd, ll, seq![2int, 1int, 0int, 3int], seq![2int, 1int, 0int, 3int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    renamed_chain(ll, third.m(), second.m(), first.m(), plain.m());
    renamed_chain(normo(ll), third.m(), second.m(), first.m(), plain.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_renamed(first: u64, second: bool, third: Option<bool>, plain: u8)
    ensures lookup(ents(renamed_d(first, second, third, plain)), k_b()) == Some(first.e()), lookup(ents(renamed_d(first, second, third, plain)), k_n300()) == Some(second.e()), lookup(ents(renamed_d(first, second, third, plain)), k_n7()) == Some(third.e()), lookup(ents(renamed_d(first, second, third, plain)), k_plain()) == Some(plain.e())
{
    
    renamed_keys();
    let dd = renamed_d(first, second, third, plain);
    lemma_ord_refl(k_n7());    lemma_ord_refl(k_n300());    lemma_ord_refl(k_b());    lemma_ord_refl(k_plain());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_renamed(s: Seq<KV>)
    ensures renamed_dec(V::M(s)) is Ok ==> declared(s, renamed_ks()), renamed_dec(V::M(s)) is Ok ==> renamed_found(s)
{
    
    if renamed_dec(V::M(s)) is Ok {
        renamed_keys(); reveal(renamed_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Option<bool>>(s0, k_n7())->Ok_0.1;
        let s2 = f_strict::<bool>(s1, k_n300())->Ok_0.1;
        let s3 = f_strict::<u64>(s2, k_b())->Ok_0.1;
        let s4 = f_strict::<u8>(s3, k_plain())->Ok_0.1;
        let q4 = Seq::<V>::empty();
        lemma_declared_none(s4, q4);
        let q3 = seq![k_plain()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<u8>(s3, q3);
        let q2 = seq![k_b(), k_plain()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u64>(s2, q2);
        let q1 = seq![k_n300(), k_b(), k_plain()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<bool>(s1, q1);
        let q0 = seq![k_n7(), k_n300(), k_b(), k_plain()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Option<bool>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= renamed_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Option<bool>>(s0, k_n7()); lemma_loose_step::<Option<bool>>(s0, k_n7());
        lemma_strict_loose::<bool>(s1, k_n300()); lemma_loose_step::<bool>(s1, k_n300());
        lemma_strict_loose::<u64>(s2, k_b()); lemma_loose_step::<u64>(s2, k_b());
        lemma_strict_loose::<u8>(s3, k_plain()); lemma_loose_step::<u8>(s3, k_plain());
    }
}
pub open spec fn renamed_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_b()))) == Ok::<<u64 as Ty>::M, DecodeError>(renamed_dec(V::M(s))->Ok_0.0) && d_top::<bool>(or_null(lookup(s, k_n300()))) == Ok::<<bool as Ty>::M, DecodeError>(renamed_dec(V::M(s))->Ok_0.1) && d_top::<Option<bool>>(or_null(lookup(s, k_n7()))) == Ok::<<Option<bool> as Ty>::M, DecodeError>(renamed_dec(V::M(s))->Ok_0.2) && d_top::<u8>(or_null(lookup(s, k_plain()))) == Ok::<<u8 as Ty>::M, DecodeError>(renamed_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_renamed_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures renamed_dec(V::M(s)) == renamed_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Renamed {
    type M = RENAMED;
    open spec fn m(self) -> RENAMED { renamed_m(self.first, self.second, self.third, self.plain) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: RENAMED) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> RENAMED { arbitrary() }
}
proof fn renamed_some(first: u64, second: bool, third: Option<bool>, plain: u8) ensures ents(renamed_d(first, second, third, plain)).len() > 0 { lemma_ents_at(renamed_d(first, second, third, plain)); assert(renamed_d(first, second, third, plain)[0].1 is Some); }
pub open spec fn renamed_default() -> <Renamed as Ty>::M { (0int, false, None::<<bool as Ty>::M>, 0int) }
impl Codec for Renamed {
    open spec fn rt(&self) -> bool { renamed_rt(self.first, self.second, self.third, self.plain) }
    proof fn back(&self) { renamed_back(self.first, self.second, self.third, self.plain); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { renamed_some(self.first, self.second, self.third, self.plain); }
}

// ------------------------------------------------------------------ AllOpt
pub type ALL_OPT = (<u64 as Ty>::M, <Option<bool> as Ty>::M);
pub open spec fn all_opt_m(x: u64, y: Option<bool>) -> ALL_OPT { (x.m(), y.m()) }
pub open spec fn all_opt_d(x: u64, y: Option<bool>) -> Seq<KO> { Seq::empty().push((k_x(), (if x.omit() { None } else { Some(x.e()) }))).push((k_y(), (if y.omit() { None } else { Some(y.e()) }))) }
pub open spec fn all_opt_e(x: u64, y: Option<bool>) -> V { V::M(ents(all_opt_d(x, y))) }
#[verifier::opaque]
pub open spec fn all_opt_take(s: Seq<KV>) -> R<ALL_OPT> { match f_strict::<u64>(s, k_x()) { Err(e) => Err(e), Ok((m_x, s)) => match f_strict::<Option<bool>>(s, k_y()) { Err(e) => Err(e), Ok((m_y, s)) => if s.len() > 0 { Err::<ALL_OPT, DecodeError>(DecodeError::UnknownField) } else { Ok::<ALL_OPT, DecodeError>((m_x, m_y)) } } } }
pub open spec fn all_opt_dec(v: V) -> R<ALL_OPT> { match v { V::M(s) => all_opt_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn all_opt_rt(x: u64, y: Option<bool>) -> bool { 
    &&& x.rt_top() && !x.lost()
    &&& y.rt_top() && !y.lost() }
pub open spec fn all_opt_ks() -> Seq<V> { seq![k_x(), k_y()] }
pub proof fn all_opt_keys()
    ensures plain(k_x()), plain(k_y()), ord(k_x(), k_y()) is Less
{
    lemma_text_less(seq![120u8], seq![121u8], 0);
    k_x_lit();
    k_y_lit();
}
proof fn all_opt_chain(l: Seq<KO>, w_x: <u64 as Ty>::M, w_y: <Option<bool> as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_x(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_x), l[1].0 == k_y(), d_top::<Option<bool>>(or_null(l[1].1)) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_y)
    ensures all_opt_take(ents(l)) == Ok::<ALL_OPT, DecodeError>((w_x, w_y))
{
    
    reveal(all_opt_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_x); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Option<bool>>(l1, w_y); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn all_opt_back(x: u64, y: Option<bool>)
    requires all_opt_rt(x, y)
    ensures all_opt_dec(all_opt_e(x, y)) == Ok::<ALL_OPT, DecodeError>(all_opt_m(x, y)), all_opt_dec(norm(all_opt_e(x, y))) == Ok::<ALL_OPT, DecodeError>(all_opt_m(x, y)), wf(all_opt_e(x, y)), !has_dup(all_opt_e(x, y))
{
    
    all_opt_keys();
    lemma_optional::<u64>(x);
    lemma_optional::<Option<bool>>(y);
    let dd = all_opt_d(x, y);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    all_opt_chain(ll, x.m(), y.m());
    all_opt_chain(normo(ll), x.m(), y.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_all_opt(x: u64, y: Option<bool>)
    ensures lookup(ents(all_opt_d(x, y)), k_x()) == (if x.omit() { None } else { Some(x.e()) }), lookup(ents(all_opt_d(x, y)), k_y()) == (if y.omit() { None } else { Some(y.e()) })
{
    
    all_opt_keys();
    let dd = all_opt_d(x, y);
    lemma_ord_refl(k_x());    lemma_ord_refl(k_y());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_all_opt(s: Seq<KV>)
    ensures all_opt_dec(V::M(s)) is Ok ==> declared(s, all_opt_ks()), all_opt_dec(V::M(s)) is Ok ==> all_opt_found(s)
{
    
    if all_opt_dec(V::M(s)) is Ok {
        all_opt_keys(); reveal(all_opt_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_x())->Ok_0.1;
        let s2 = f_strict::<Option<bool>>(s1, k_y())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_y()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Option<bool>>(s1, q1);
        let q0 = seq![k_x(), k_y()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= all_opt_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_x()); lemma_loose_step::<u64>(s0, k_x());
        lemma_strict_loose::<Option<bool>>(s1, k_y()); lemma_loose_step::<Option<bool>>(s1, k_y());
    }
}
pub open spec fn all_opt_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_x()))) == Ok::<<u64 as Ty>::M, DecodeError>(all_opt_dec(V::M(s))->Ok_0.0) && d_top::<Option<bool>>(or_null(lookup(s, k_y()))) == Ok::<<Option<bool> as Ty>::M, DecodeError>(all_opt_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_all_opt_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures all_opt_dec(V::M(s)) == all_opt_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for AllOpt {
    type M = ALL_OPT;
    open spec fn m(self) -> ALL_OPT { all_opt_m(self.x, self.y) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ALL_OPT) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ALL_OPT { arbitrary() }
}
proof fn all_opt_none(x: u64, y: Option<bool>) requires ents(all_opt_d(x, y)).len() == 0 ensures x.omit(), y.omit() { lemma_ents_at(all_opt_d(x, y)); if !x.omit() { assert(all_opt_d(x, y)[0].1 is Some); } if !y.omit() { assert(all_opt_d(x, y)[1].1 is Some); } }
pub open spec fn all_opt_default() -> <AllOpt as Ty>::M { (0int, None::<<bool as Ty>::M>) }
impl Codec for AllOpt {
    open spec fn rt(&self) -> bool { all_opt_rt(self.x, self.y) }
    proof fn back(&self) { all_opt_back(self.x, self.y); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.x.lost() || self.y.lost() }
    proof fn empty_law(&self) { if self.omit() { all_opt_none(self.x, self.y); self.x.empty_law(); self.y.empty_law(); } }
}

// ------------------------------------------------------------------ Nested
pub type NESTED = (<Plain as Ty>::M, <Vec<AllOpt> as Ty>::M, <Option<Plain> as Ty>::M);
pub open spec fn nested_m(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>) -> NESTED { (inner.m(), list.m(), maybe.m()) }
pub open spec fn nested_d(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>) -> Seq<KO> { Seq::empty().push((k_inner(), Some(inner.e()))).push((k_list(), Some(list.e()))).push((k_maybe(), Some(maybe.e()))) }
pub open spec fn nested_e(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>) -> V { V::M(ents(nested_d(inner, list, maybe))) }
#[verifier::opaque]
pub open spec fn nested_take(s: Seq<KV>) -> R<NESTED> { match f_strict::<Vec<AllOpt>>(s, k_list()) { Err(e) => Err(e), Ok((m_list, s)) => match f_strict::<Plain>(s, k_inner()) { Err(e) => Err(e), Ok((m_inner, s)) => match f_strict::<Option<Plain>>(s, k_maybe()) { Err(e) => Err(e), Ok((m_maybe, s)) => if s.len() > 0 { Err::<NESTED, DecodeError>(DecodeError::UnknownField) } else { Ok::<NESTED, DecodeError>((m_inner, m_list, m_maybe)) } } } } }
pub open spec fn nested_dec(v: V) -> R<NESTED> { match v { V::M(s) => nested_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn nested_rt(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>) -> bool { 
    &&& inner.rt_top()
    &&& list.rt_top()
    &&& maybe.rt_top() }
pub open spec fn nested_ks() -> Seq<V> { seq![k_list(), k_inner(), k_maybe()] }
pub proof fn nested_keys()
    ensures plain(k_list()), plain(k_inner()), plain(k_maybe()), ord(k_list(), k_inner()) is Less, ord(k_list(), k_maybe()) is Less, ord(k_inner(), k_maybe()) is Less
{
    lemma_text_less(seq![108u8, 105u8, 115u8, 116u8], seq![105u8, 110u8, 110u8, 101u8, 114u8], 0);
    lemma_text_less(seq![108u8, 105u8, 115u8, 116u8], seq![109u8, 97u8, 121u8, 98u8, 101u8], 0);
    lemma_text_less(seq![105u8, 110u8, 110u8, 101u8, 114u8], seq![109u8, 97u8, 121u8, 98u8, 101u8], 0);
    k_list_lit();
    k_inner_lit();
    k_maybe_lit();
}
proof fn nested_chain(l: Seq<KO>, w_list: <Vec<AllOpt> as Ty>::M, w_inner: <Plain as Ty>::M, w_maybe: <Option<Plain> as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_list(), d_top::<Vec<AllOpt>>(or_null(l[0].1)) == Ok::<<Vec<AllOpt> as Ty>::M, DecodeError>(w_list), l[1].0 == k_inner(), d_top::<Plain>(or_null(l[1].1)) == Ok::<<Plain as Ty>::M, DecodeError>(w_inner), l[2].0 == k_maybe(), d_top::<Option<Plain>>(or_null(l[2].1)) == Ok::<<Option<Plain> as Ty>::M, DecodeError>(w_maybe)
    ensures nested_take(ents(l)) == Ok::<NESTED, DecodeError>((w_inner, w_list, w_maybe))
{
    
    reveal(nested_take); let l0 = l;
    lemma_field_step::<Vec<AllOpt>>(l0, w_list); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Plain>(l1, w_inner); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Option<Plain>>(l2, w_maybe); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn nested_back(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>)
    requires nested_rt(inner, list, maybe)
    ensures nested_dec(nested_e(inner, list, maybe)) == Ok::<NESTED, DecodeError>(nested_m(inner, list, maybe)), nested_dec(norm(nested_e(inner, list, maybe))) == Ok::<NESTED, DecodeError>(nested_m(inner, list, maybe)), wf(nested_e(inner, list, maybe)), !has_dup(nested_e(inner, list, maybe))
{
    
    nested_keys();
    lemma_required::<Plain>(inner);
    lemma_required::<Vec<AllOpt>>(list);
    lemma_required::<Option<Plain>>(maybe);
    let dd = nested_d(inner, list, maybe);
    let ll: Seq<KO> = seq![dd[1], dd[0], dd[2]];
    lemma_rearranged(dd, ll, seq![1int, 0int, 2int], seq![1int, 0int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    nested_chain(ll, list.m(), inner.m(), maybe.m());
    nested_chain(normo(ll), list.m(), inner.m(), maybe.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_nested(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>)
    ensures lookup(ents(nested_d(inner, list, maybe)), k_inner()) == Some(inner.e()), lookup(ents(nested_d(inner, list, maybe)), k_list()) == Some(list.e()), lookup(ents(nested_d(inner, list, maybe)), k_maybe()) == Some(maybe.e())
{
    
    nested_keys();
    let dd = nested_d(inner, list, maybe);
    lemma_ord_refl(k_list());    lemma_ord_refl(k_inner());    lemma_ord_refl(k_maybe());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_nested(s: Seq<KV>)
    ensures nested_dec(V::M(s)) is Ok ==> declared(s, nested_ks()), nested_dec(V::M(s)) is Ok ==> nested_found(s)
{
    
    if nested_dec(V::M(s)) is Ok {
        nested_keys(); reveal(nested_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Vec<AllOpt>>(s0, k_list())->Ok_0.1;
        let s2 = f_strict::<Plain>(s1, k_inner())->Ok_0.1;
        let s3 = f_strict::<Option<Plain>>(s2, k_maybe())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_maybe()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<Option<Plain>>(s2, q2);
        let q1 = seq![k_inner(), k_maybe()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Plain>(s1, q1);
        let q0 = seq![k_list(), k_inner(), k_maybe()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Vec<AllOpt>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= nested_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Vec<AllOpt>>(s0, k_list()); lemma_loose_step::<Vec<AllOpt>>(s0, k_list());
        lemma_strict_loose::<Plain>(s1, k_inner()); lemma_loose_step::<Plain>(s1, k_inner());
        lemma_strict_loose::<Option<Plain>>(s2, k_maybe()); lemma_loose_step::<Option<Plain>>(s2, k_maybe());
    }
}
pub open spec fn nested_found(s: Seq<KV>) -> bool { d_top::<Plain>(or_null(lookup(s, k_inner()))) == Ok::<<Plain as Ty>::M, DecodeError>(nested_dec(V::M(s))->Ok_0.0) && d_top::<Vec<AllOpt>>(or_null(lookup(s, k_list()))) == Ok::<<Vec<AllOpt> as Ty>::M, DecodeError>(nested_dec(V::M(s))->Ok_0.1) && d_top::<Option<Plain>>(or_null(lookup(s, k_maybe()))) == Ok::<<Option<Plain> as Ty>::M, DecodeError>(nested_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_nested_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures nested_dec(V::M(s)) == nested_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Nested {
    type M = NESTED;
    open spec fn m(self) -> NESTED { nested_m(self.inner, self.list, self.maybe) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: NESTED) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> NESTED { arbitrary() }
}
proof fn nested_some(inner: Plain, list: Vec<AllOpt>, maybe: Option<Plain>) ensures ents(nested_d(inner, list, maybe)).len() > 0 { lemma_ents_at(nested_d(inner, list, maybe)); assert(nested_d(inner, list, maybe)[0].1 is Some); }
pub open spec fn nested_default() -> <Nested as Ty>::M { (plain_default(), Seq::<<AllOpt as Ty>::M>::empty(), None::<<Plain as Ty>::M>) }
impl Codec for Nested {
    open spec fn rt(&self) -> bool { nested_rt(self.inner, self.list, self.maybe) }
    proof fn back(&self) { nested_back(self.inner, self.list, self.maybe); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { nested_some(self.inner, self.list, self.maybe); }
}

// ------------------------------------------------------------------ OptNested
pub type OPT_NESTED = (<AllOpt as Ty>::M, <Unit as Ty>::M, <Plain as Ty>::M);
pub open spec fn opt_nested_m(inner: AllOpt, unit: Unit, plain: Plain) -> OPT_NESTED { (inner.m(), unit.m(), plain.m()) }
pub open spec fn opt_nested_d(inner: AllOpt, unit: Unit, plain: Plain) -> Seq<KO> { Seq::empty().push((k_inner(), (if inner.omit() { None } else { Some(inner.e()) }))).push((k_unit(), (if unit.omit() { None } else { Some(unit.e()) }))).push((k_plain(), (if plain.omit() { None } else { Some(plain.e()) }))) }
pub open spec fn opt_nested_e(inner: AllOpt, unit: Unit, plain: Plain) -> V { V::M(ents(opt_nested_d(inner, unit, plain))) }
#[verifier::opaque]
pub open spec fn opt_nested_take(s: Seq<KV>) -> R<OPT_NESTED> { match f_strict::<Unit>(s, k_unit()) { Err(e) => Err(e), Ok((m_unit, s)) => match f_strict::<AllOpt>(s, k_inner()) { Err(e) => Err(e), Ok((m_inner, s)) => match f_strict::<Plain>(s, k_plain()) { Err(e) => Err(e), Ok((m_plain, s)) => if s.len() > 0 { Err::<OPT_NESTED, DecodeError>(DecodeError::UnknownField) } else { Ok::<OPT_NESTED, DecodeError>((m_inner, m_unit, m_plain)) } } } } }
pub open spec fn opt_nested_dec(v: V) -> R<OPT_NESTED> { match v { V::M(s) => opt_nested_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn opt_nested_rt(inner: AllOpt, unit: Unit, plain: Plain) -> bool { 
    &&& inner.rt_top() && !inner.lost()
    &&& unit.rt_top() && !unit.lost()
    &&& plain.rt_top() && !plain.lost() }
pub open spec fn opt_nested_ks() -> Seq<V> { seq![k_unit(), k_inner(), k_plain()] }
pub proof fn opt_nested_keys()
    ensures plain(k_unit()), plain(k_inner()), plain(k_plain()), ord(k_unit(), k_inner()) is Less, ord(k_unit(), k_plain()) is Less, ord(k_inner(), k_plain()) is Less
{
    lemma_text_less(seq![117u8, 110u8, 105u8, 116u8], seq![105u8, 110u8, 110u8, 101u8, 114u8], 0);
    lemma_text_less(seq![117u8, 110u8, 105u8, 116u8], seq![112u8, 108u8, 97u8, 105u8, 110u8], 0);
    lemma_text_less(seq![105u8, 110u8, 110u8, 101u8, 114u8], seq![112u8, 108u8, 97u8, 105u8, 110u8], 0);
    k_unit_lit();
    k_inner_lit();
    k_plain_lit();
}
proof fn opt_nested_chain(l: Seq<KO>, w_unit: <Unit as Ty>::M, w_inner: <AllOpt as Ty>::M, w_plain: <Plain as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_unit(), d_top::<Unit>(or_null(l[0].1)) == Ok::<<Unit as Ty>::M, DecodeError>(w_unit), l[1].0 == k_inner(), d_top::<AllOpt>(or_null(l[1].1)) == Ok::<<AllOpt as Ty>::M, DecodeError>(w_inner), l[2].0 == k_plain(), d_top::<Plain>(or_null(l[2].1)) == Ok::<<Plain as Ty>::M, DecodeError>(w_plain)
    ensures opt_nested_take(ents(l)) == Ok::<OPT_NESTED, DecodeError>((w_inner, w_unit, w_plain))
{
    
    reveal(opt_nested_take); let l0 = l;
    lemma_field_step::<Unit>(l0, w_unit); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<AllOpt>(l1, w_inner); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Plain>(l2, w_plain); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn opt_nested_back(inner: AllOpt, unit: Unit, plain: Plain)
    requires opt_nested_rt(inner, unit, plain)
    ensures opt_nested_dec(opt_nested_e(inner, unit, plain)) == Ok::<OPT_NESTED, DecodeError>(opt_nested_m(inner, unit, plain)), opt_nested_dec(norm(opt_nested_e(inner, unit, plain))) == Ok::<OPT_NESTED, DecodeError>(opt_nested_m(inner, unit, plain)), wf(opt_nested_e(inner, unit, plain)), !has_dup(opt_nested_e(inner, unit, plain))
{
    
    opt_nested_keys();
    lemma_optional::<AllOpt>(inner);
    lemma_optional::<Unit>(unit);
    lemma_optional::<Plain>(plain);
    let dd = opt_nested_d(inner, unit, plain);
    let ll: Seq<KO> = seq![dd[1], dd[0], dd[2]];
    lemma_rearranged(dd, ll, seq![1int, 0int, 2int], seq![1int, 0int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    opt_nested_chain(ll, unit.m(), inner.m(), plain.m());
    opt_nested_chain(normo(ll), unit.m(), inner.m(), plain.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_opt_nested(inner: AllOpt, unit: Unit, plain: Plain)
    ensures lookup(ents(opt_nested_d(inner, unit, plain)), k_inner()) == (if inner.omit() { None } else { Some(inner.e()) }), lookup(ents(opt_nested_d(inner, unit, plain)), k_unit()) == (if unit.omit() { None } else { Some(unit.e()) }), lookup(ents(opt_nested_d(inner, unit, plain)), k_plain()) == (if plain.omit() { None } else { Some(plain.e()) })
{
    
    opt_nested_keys();
    let dd = opt_nested_d(inner, unit, plain);
    lemma_ord_refl(k_unit());    lemma_ord_refl(k_inner());    lemma_ord_refl(k_plain());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_opt_nested(s: Seq<KV>)
    ensures opt_nested_dec(V::M(s)) is Ok ==> declared(s, opt_nested_ks()), opt_nested_dec(V::M(s)) is Ok ==> opt_nested_found(s)
{
    
    if opt_nested_dec(V::M(s)) is Ok {
        opt_nested_keys(); reveal(opt_nested_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Unit>(s0, k_unit())->Ok_0.1;
        let s2 = f_strict::<AllOpt>(s1, k_inner())->Ok_0.1;
        let s3 = f_strict::<Plain>(s2, k_plain())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_plain()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<Plain>(s2, q2);
        let q1 = seq![k_inner(), k_plain()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<AllOpt>(s1, q1);
        let q0 = seq![k_unit(), k_inner(), k_plain()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Unit>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= opt_nested_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Unit>(s0, k_unit()); lemma_loose_step::<Unit>(s0, k_unit());
        lemma_strict_loose::<AllOpt>(s1, k_inner()); lemma_loose_step::<AllOpt>(s1, k_inner());
        lemma_strict_loose::<Plain>(s2, k_plain()); lemma_loose_step::<Plain>(s2, k_plain());
    }
}
pub open spec fn opt_nested_found(s: Seq<KV>) -> bool { d_top::<AllOpt>(or_null(lookup(s, k_inner()))) == Ok::<<AllOpt as Ty>::M, DecodeError>(opt_nested_dec(V::M(s))->Ok_0.0) && d_top::<Unit>(or_null(lookup(s, k_unit()))) == Ok::<<Unit as Ty>::M, DecodeError>(opt_nested_dec(V::M(s))->Ok_0.1) && d_top::<Plain>(or_null(lookup(s, k_plain()))) == Ok::<<Plain as Ty>::M, DecodeError>(opt_nested_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_opt_nested_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures opt_nested_dec(V::M(s)) == opt_nested_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for OptNested {
    type M = OPT_NESTED;
    open spec fn m(self) -> OPT_NESTED { opt_nested_m(self.inner, self.unit, self.plain) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: OPT_NESTED) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> OPT_NESTED { arbitrary() }
}
proof fn opt_nested_none(inner: AllOpt, unit: Unit, plain: Plain) requires ents(opt_nested_d(inner, unit, plain)).len() == 0 ensures inner.omit(), unit.omit(), plain.omit() { lemma_ents_at(opt_nested_d(inner, unit, plain)); if !inner.omit() { assert(opt_nested_d(inner, unit, plain)[0].1 is Some); } if !unit.omit() { assert(opt_nested_d(inner, unit, plain)[1].1 is Some); } if !plain.omit() { assert(opt_nested_d(inner, unit, plain)[2].1 is Some); } }
pub open spec fn opt_nested_default() -> <OptNested as Ty>::M { (all_opt_default(), unit_default(), plain_default()) }
impl Codec for OptNested {
    open spec fn rt(&self) -> bool { opt_nested_rt(self.inner, self.unit, self.plain) }
    proof fn back(&self) { opt_nested_back(self.inner, self.unit, self.plain); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { self.inner.lost() || self.unit.lost() || self.plain.lost() }
    proof fn empty_law(&self) { if self.omit() { opt_nested_none(self.inner, self.unit, self.plain); self.inner.empty_law(); self.unit.empty_law(); self.plain.empty_law(); } }
}

// ------------------------------------------------------------------ Unit
pub type UNIT = ();
pub open spec fn unit_m() -> UNIT { () }
pub open spec fn unit_e() -> V { V::M(Seq::empty()) }
pub open spec fn unit_dec(v: V) -> R<UNIT> { match v { V::M(s) => if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }, _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn unit_rt() -> bool { true }
pub proof fn unit_back()
    ensures unit_dec(unit_e()) is Ok, norm(unit_e()) == unit_e(), wf(unit_e()), !has_dup(unit_e())
{ lemma_no_entries(); }
impl Ty for Unit {
    type M = UNIT;
    open spec fn m(self) -> UNIT { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: UNIT) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> UNIT { arbitrary() }
}
pub open spec fn unit_default() -> <Unit as Ty>::M { () }
impl Codec for Unit {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ EmptyBraces
pub type EMPTY_BRACES = ();
pub open spec fn empty_braces_m() -> EMPTY_BRACES { () }
pub open spec fn empty_braces_d() -> Seq<KO> { Seq::empty() }
pub open spec fn empty_braces_e() -> V { V::M(ents(empty_braces_d())) }
#[verifier::opaque]
pub open spec fn empty_braces_take(s: Seq<KV>) -> R<EMPTY_BRACES> { if s.len() > 0 { Err::<EMPTY_BRACES, DecodeError>(DecodeError::UnknownField) } else { Ok::<EMPTY_BRACES, DecodeError>(()) } }
pub open spec fn empty_braces_dec(v: V) -> R<EMPTY_BRACES> { match v { V::M(s) => empty_braces_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn empty_braces_rt() -> bool { true }
pub proof fn empty_braces_back()
    requires empty_braces_rt()
    ensures empty_braces_dec(empty_braces_e()) == Ok::<EMPTY_BRACES, DecodeError>(empty_braces_m()), empty_braces_dec(norm(empty_braces_e())) == Ok::<EMPTY_BRACES, DecodeError>(empty_braces_m()), wf(empty_braces_e()), !has_dup(empty_braces_e())
{ lemma_no_entries(); reveal(empty_braces_take); }
impl Ty for EmptyBraces {
    type M = EMPTY_BRACES;
    open spec fn m(self) -> EMPTY_BRACES { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: EMPTY_BRACES) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> EMPTY_BRACES { arbitrary() }
}
pub open spec fn empty_braces_default() -> <EmptyBraces as Ty>::M { () }
impl Codec for EmptyBraces {
    open spec fn rt(&self) -> bool { empty_braces_rt() }
    proof fn back(&self) { empty_braces_back(); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ AsArr
pub type AS_ARR = (<u64 as Ty>::M, <u64 as Ty>::M, <Option<String> as Ty>::M);
pub open spec fn as_arr_m(a: u64, hidden: u64, z: Option<String>) -> AS_ARR { (a.m(), hidden.m(), z.m()) }
pub open spec fn as_arr_a(a: u64, hidden: u64, z: Option<String>) -> Seq<V> { Seq::empty().push(a.e()).push(z.e()) }
pub open spec fn as_arr_e(a: u64, hidden: u64, z: Option<String>) -> V { V::A(as_arr_a(a, hidden, z)) }
#[verifier::opaque]
pub open spec fn as_arr_take(s: Seq<V>) -> R<AS_ARR> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_a, s)) => match f_next::<Option<String>>(s) { Err(e) => Err(e), Ok((m_z, s)) => if s.len() > 0 { Err::<AS_ARR, DecodeError>(DecodeError::UnknownField) } else { Ok::<AS_ARR, DecodeError>((m_a, 0int, m_z)) } } } }
pub open spec fn as_arr_dec(v: V) -> R<AS_ARR> { match v { V::A(s) => as_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn as_arr_rt(a: u64, hidden: u64, z: Option<String>) -> bool { 
    &&& a.rt_top()
    &&& hidden.m() == 0int
    &&& z.rt_top() }
proof fn as_arr_chain(s: Seq<V>, w_a: <u64 as Ty>::M, w_z: <Option<String> as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), d_top::<Option<String>>(s[1]) == Ok::<<Option<String> as Ty>::M, DecodeError>(w_z)
    ensures as_arr_take(s) == Ok::<AS_ARR, DecodeError>((w_a, 0int, w_z))
{
    
    reveal(as_arr_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_a); let s1 = s0.drop_first();
    lemma_next_step::<Option<String>>(s1, w_z); let s2 = s1.drop_first();
}
pub proof fn as_arr_back(a: u64, hidden: u64, z: Option<String>)
    requires as_arr_rt(a, hidden, z)
    ensures as_arr_dec(as_arr_e(a, hidden, z)) == Ok::<AS_ARR, DecodeError>(as_arr_m(a, hidden, z)), as_arr_dec(norm(as_arr_e(a, hidden, z))) == Ok::<AS_ARR, DecodeError>(as_arr_m(a, hidden, z)), wf(as_arr_e(a, hidden, z)), !has_dup(as_arr_e(a, hidden, z))
{
    
    lemma_required::<u64>(a);
    lemma_required::<Option<String>>(z);
    let aa = as_arr_a(a, hidden, z);
    lemma_arr_fields(aa);
    as_arr_chain(aa, a.m(), z.m());
    as_arr_chain(norms(aa), a.m(), z.m());
}
/// As many elements as there are fields.
pub proof fn c14_as_arr(v: V)
    ensures as_arr_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(as_arr_take); reveal(f_next); }
impl Ty for AsArr {
    type M = AS_ARR;
    open spec fn m(self) -> AS_ARR { as_arr_m(self.a, self.hidden, self.z) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: AS_ARR) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> AS_ARR { arbitrary() }
}
pub open spec fn as_arr_default() -> <AsArr as Ty>::M { (0int, 0int, None::<<String as Ty>::M>) }
impl Codec for AsArr {
    open spec fn rt(&self) -> bool { as_arr_rt(self.a, self.hidden, self.z) }
    proof fn back(&self) { as_arr_back(self.a, self.hidden, self.z); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ LooseArr
pub type LOOSE_ARR = (<u64 as Ty>::M, <bool as Ty>::M);
pub open spec fn loose_arr_m(a: u64, b: bool) -> LOOSE_ARR { (a.m(), b.m()) }
pub open spec fn loose_arr_a(a: u64, b: bool) -> Seq<V> { Seq::empty().push(a.e()).push(b.e()) }
pub open spec fn loose_arr_e(a: u64, b: bool) -> V { V::A(loose_arr_a(a, b)) }
#[verifier::opaque]
pub open spec fn loose_arr_take(s: Seq<V>) -> R<LOOSE_ARR> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_a, s)) => match f_next::<bool>(s) { Err(e) => Err(e), Ok((m_b, s)) => Ok::<LOOSE_ARR, DecodeError>((m_a, m_b)) } } }
pub open spec fn loose_arr_dec(v: V) -> R<LOOSE_ARR> { match v { V::A(s) => loose_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn loose_arr_rt(a: u64, b: bool) -> bool { 
    &&& a.rt_top()
    &&& b.rt_top() }
proof fn loose_arr_chain(s: Seq<V>, w_a: <u64 as Ty>::M, w_b: <bool as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), d_top::<bool>(s[1]) == Ok::<<bool as Ty>::M, DecodeError>(w_b)
    ensures loose_arr_take(s) == Ok::<LOOSE_ARR, DecodeError>((w_a, w_b))
{
    
    reveal(loose_arr_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_a); let s1 = s0.drop_first();
    lemma_next_step::<bool>(s1, w_b); let s2 = s1.drop_first();
}
pub proof fn loose_arr_back(a: u64, b: bool)
    requires loose_arr_rt(a, b)
    ensures loose_arr_dec(loose_arr_e(a, b)) == Ok::<LOOSE_ARR, DecodeError>(loose_arr_m(a, b)), loose_arr_dec(norm(loose_arr_e(a, b))) == Ok::<LOOSE_ARR, DecodeError>(loose_arr_m(a, b)), wf(loose_arr_e(a, b)), !has_dup(loose_arr_e(a, b))
{
    
    lemma_required::<u64>(a);
    lemma_required::<bool>(b);
    let aa = loose_arr_a(a, b);
    lemma_arr_fields(aa);
    loose_arr_chain(aa, a.m(), b.m());
    loose_arr_chain(norms(aa), a.m(), b.m());
}
/// As many elements as there are fields.
pub proof fn c14_loose_arr(v: V)
    ensures loose_arr_dec(v) is Ok ==> v is A && v->A_0.len() >= 2
{ reveal(loose_arr_take); reveal(f_next); }
impl Ty for LooseArr {
    type M = LOOSE_ARR;
    open spec fn m(self) -> LOOSE_ARR { loose_arr_m(self.a, self.b) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LOOSE_ARR) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LOOSE_ARR { arbitrary() }
}
pub open spec fn loose_arr_default() -> <LooseArr as Ty>::M { (0int, false) }
impl Codec for LooseArr {
    open spec fn rt(&self) -> bool { loose_arr_rt(self.a, self.b) }
    proof fn back(&self) { loose_arr_back(self.a, self.b); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ Tup
pub type TUP = (<u64 as Ty>::M, <Option<bool> as Ty>::M, <String as Ty>::M);
pub open spec fn tup_m(f0: u64, f1: Option<bool>, f2: String) -> TUP { (f0.m(), f1.m(), f2.m()) }
pub open spec fn tup_a(f0: u64, f1: Option<bool>, f2: String) -> Seq<V> { Seq::empty().push(f0.e()).push(f1.e()).push(f2.e()) }
pub open spec fn tup_e(f0: u64, f1: Option<bool>, f2: String) -> V { V::A(tup_a(f0, f1, f2)) }
#[verifier::opaque]
pub open spec fn tup_take(s: Seq<V>) -> R<TUP> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f0, s)) => match f_next::<Option<bool>>(s) { Err(e) => Err(e), Ok((m_f1, s)) => match f_next::<String>(s) { Err(e) => Err(e), Ok((m_f2, s)) => if s.len() > 0 { Err::<TUP, DecodeError>(DecodeError::UnknownField) } else { Ok::<TUP, DecodeError>((m_f0, m_f1, m_f2)) } } } } }
pub open spec fn tup_dec(v: V) -> R<TUP> { match v { V::A(s) => tup_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tup_rt(f0: u64, f1: Option<bool>, f2: String) -> bool { 
    &&& f0.rt_top()
    &&& f1.rt_top()
    &&& f2.rt_top() }
proof fn tup_chain(s: Seq<V>, w_f0: <u64 as Ty>::M, w_f1: <Option<bool> as Ty>::M, w_f2: <String as Ty>::M)
    requires s.len() == 3, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f0), d_top::<Option<bool>>(s[1]) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_f1), d_top::<String>(s[2]) == Ok::<<String as Ty>::M, DecodeError>(w_f2)
    ensures tup_take(s) == Ok::<TUP, DecodeError>((w_f0, w_f1, w_f2))
{
    
    reveal(tup_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f0); let s1 = s0.drop_first();
    lemma_next_step::<Option<bool>>(s1, w_f1); let s2 = s1.drop_first();
    lemma_next_step::<String>(s2, w_f2); let s3 = s2.drop_first();
}
pub proof fn tup_back(f0: u64, f1: Option<bool>, f2: String)
    requires tup_rt(f0, f1, f2)
    ensures tup_dec(tup_e(f0, f1, f2)) == Ok::<TUP, DecodeError>(tup_m(f0, f1, f2)), tup_dec(norm(tup_e(f0, f1, f2))) == Ok::<TUP, DecodeError>(tup_m(f0, f1, f2)), wf(tup_e(f0, f1, f2)), !has_dup(tup_e(f0, f1, f2))
{
    
    lemma_required::<u64>(f0);
    lemma_required::<Option<bool>>(f1);
    lemma_required::<String>(f2);
    let aa = tup_a(f0, f1, f2);
    lemma_arr_fields(aa);
    tup_chain(aa, f0.m(), f1.m(), f2.m());
    tup_chain(norms(aa), f0.m(), f1.m(), f2.m());
}
/// As many elements as there are fields.
pub proof fn c14_tup(v: V)
    ensures tup_dec(v) is Ok ==> v is A && v->A_0.len() == 3
{ reveal(tup_take); reveal(f_next); }
impl Ty for Tup {
    type M = TUP;
    open spec fn m(self) -> TUP { tup_m(self.0, self.1, self.2) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TUP) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TUP { arbitrary() }
}
pub open spec fn tup_default() -> <Tup as Ty>::M { (0int, None::<<bool as Ty>::M>, Seq::<char>::empty()) }
impl Codec for Tup {
    open spec fn rt(&self) -> bool { tup_rt(self.0, self.1, self.2) }
    proof fn back(&self) { tup_back(self.0, self.1, self.2); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ NewT
pub type NEW_T = (<u64 as Ty>::M,);
pub open spec fn new_t_m(f0: u64) -> NEW_T { (f0.m(),) }
pub open spec fn new_t_a(f0: u64) -> Seq<V> { Seq::empty().push(f0.e()) }
pub open spec fn new_t_e(f0: u64) -> V { V::A(new_t_a(f0)) }
#[verifier::opaque]
pub open spec fn new_t_take(s: Seq<V>) -> R<NEW_T> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f0, s)) => if s.len() > 0 { Err::<NEW_T, DecodeError>(DecodeError::UnknownField) } else { Ok::<NEW_T, DecodeError>((m_f0,)) } } }
pub open spec fn new_t_dec(v: V) -> R<NEW_T> { match v { V::A(s) => new_t_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn new_t_rt(f0: u64) -> bool { 
    &&& f0.rt_top() }
proof fn new_t_chain(s: Seq<V>, w_f0: <u64 as Ty>::M)
    requires s.len() == 1, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f0)
    ensures new_t_take(s) == Ok::<NEW_T, DecodeError>((w_f0,))
{
    
    reveal(new_t_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f0); let s1 = s0.drop_first();
}
pub proof fn new_t_back(f0: u64)
    requires new_t_rt(f0)
    ensures new_t_dec(new_t_e(f0)) == Ok::<NEW_T, DecodeError>(new_t_m(f0)), new_t_dec(norm(new_t_e(f0))) == Ok::<NEW_T, DecodeError>(new_t_m(f0)), wf(new_t_e(f0)), !has_dup(new_t_e(f0))
{
    
    lemma_required::<u64>(f0);
    let aa = new_t_a(f0);
    lemma_arr_fields(aa);
    new_t_chain(aa, f0.m());
    new_t_chain(norms(aa), f0.m());
}
/// As many elements as there are fields.
pub proof fn c14_new_t(v: V)
    ensures new_t_dec(v) is Ok ==> v is A && v->A_0.len() == 1
{ reveal(new_t_take); reveal(f_next); }
impl Ty for NewT {
    type M = NEW_T;
    open spec fn m(self) -> NEW_T { new_t_m(self.0) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: NEW_T) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> NEW_T { arbitrary() }
}
pub open spec fn new_t_default() -> <NewT as Ty>::M { (0int,) }
impl Codec for NewT {
    open spec fn rt(&self) -> bool { new_t_rt(self.0) }
    proof fn back(&self) { new_t_back(self.0); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ Trans
impl Ty for Trans {
    type M = (<u64 as Ty>::M,);
    open spec fn m(self) -> (<u64 as Ty>::M,) { (self.0.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (<u64 as Ty>::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (<u64 as Ty>::M,) { arbitrary() }
}
pub open spec fn trans_default() -> <Trans as Ty>::M { (0int,) }
impl Codec for Trans {
    open spec fn rt(&self) -> bool { self.0.rt_top() }
    proof fn back(&self) { lemma_required(self.0); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.0.rt_top() && (is_null(self.e()) ==> Self::d_def() == Ok::<(<u64 as Ty>::M,), DecodeError>(self.m())) }
    proof fn back_top(&self) { self.0.back_top(); }
    open spec fn lost(&self) -> bool { self.omit() && Self::d_def() != Ok::<(<u64 as Ty>::M,), DecodeError>(self.m()) }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ TransOpt
impl Ty for TransOpt {
    type M = (<Option<Plain> as Ty>::M,);
    open spec fn m(self) -> (<Option<Plain> as Ty>::M,) { (self.0.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (<Option<Plain> as Ty>::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (<Option<Plain> as Ty>::M,) { arbitrary() }
}
pub open spec fn trans_opt_default() -> <TransOpt as Ty>::M { (None::<<Plain as Ty>::M>,) }
impl Codec for TransOpt {
    open spec fn rt(&self) -> bool { self.0.rt_top() }
    proof fn back(&self) { lemma_required(self.0); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.0.rt_top() && (is_null(self.e()) ==> Self::d_def() == Ok::<(<Option<Plain> as Ty>::M,), DecodeError>(self.m())) }
    proof fn back_top(&self) { self.0.back_top(); }
    open spec fn lost(&self) -> bool { self.omit() && Self::d_def() != Ok::<(<Option<Plain> as Ty>::M,), DecodeError>(self.m()) }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Loose
pub type LOOSE = (<u64 as Ty>::M, <Option<bool> as Ty>::M, <u8 as Ty>::M);
pub open spec fn loose_m(a: u64, z: Option<bool>, k: u8) -> LOOSE { (a.m(), z.m(), k.m()) }
pub open spec fn loose_d(a: u64, z: Option<bool>, k: u8) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))).push((k_z(), (if z.omit() { None } else { Some(z.e()) }))).push((k_n7(), Some(k.e()))) }
pub open spec fn loose_e(a: u64, z: Option<bool>, k: u8) -> V { V::M(ents(loose_d(a, z, k))) }
#[verifier::opaque]
pub open spec fn loose_take(s: Seq<KV>) -> R<LOOSE> { match f_loose::<u8>(s, k_n7()) { Err(e) => Err(e), Ok((m_k, s)) => match f_loose::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_loose::<Option<bool>>(s, k_z()) { Err(e) => Err(e), Ok((m_z, s)) => Ok::<LOOSE, DecodeError>((m_a, m_z, m_k)) } } } }
pub open spec fn loose_dec(v: V) -> R<LOOSE> { match v { V::M(s) => loose_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn loose_rt(a: u64, z: Option<bool>, k: u8) -> bool { 
    &&& a.rt_top()
    &&& z.rt_top() && !z.lost()
    &&& k.rt_top() }
pub open spec fn loose_ks() -> Seq<V> { seq![k_n7(), k_a(), k_z()] }
pub proof fn loose_keys()
    ensures plain(k_n7()), plain(k_a()), plain(k_z()), ord(k_n7(), k_a()) is Less, ord(k_n7(), k_z()) is Less, ord(k_a(), k_z()) is Less
{
    lemma_text_less(seq![97u8], seq![122u8], 0);
    k_a_lit();
    k_z_lit();
}
proof fn loose_chain(l: Seq<KO>, w_k: <u8 as Ty>::M, w_a: <u64 as Ty>::M, w_z: <Option<bool> as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_n7(), d_top::<u8>(or_null(l[0].1)) == Ok::<<u8 as Ty>::M, DecodeError>(w_k), l[1].0 == k_a(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), l[2].0 == k_z(), d_top::<Option<bool>>(or_null(l[2].1)) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_z)
    ensures loose_take(ents(l)) == Ok::<LOOSE, DecodeError>((w_a, w_z, w_k))
{
    
    reveal(loose_take); let l0 = l;
    lemma_field_step::<u8>(l0, w_k); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_a); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Option<bool>>(l2, w_z); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn loose_back(a: u64, z: Option<bool>, k: u8)
    requires loose_rt(a, z, k)
    ensures loose_dec(loose_e(a, z, k)) == Ok::<LOOSE, DecodeError>(loose_m(a, z, k)), loose_dec(norm(loose_e(a, z, k))) == Ok::<LOOSE, DecodeError>(loose_m(a, z, k)), wf(loose_e(a, z, k)), !has_dup(loose_e(a, z, k))
{
    
    loose_keys();
    lemma_required::<u64>(a);
    lemma_optional::<Option<bool>>(z);
    lemma_required::<u8>(k);
    let dd = loose_d(a, z, k);
    let ll: Seq<KO> = seq![dd[2], dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![2int, 0int, 1int], seq![1int, 2int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    loose_chain(ll, k.m(), a.m(), z.m());
    loose_chain(normo(ll), k.m(), a.m(), z.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_loose(a: u64, z: Option<bool>, k: u8)
    ensures lookup(ents(loose_d(a, z, k)), k_a()) == Some(a.e()), lookup(ents(loose_d(a, z, k)), k_z()) == (if z.omit() { None } else { Some(z.e()) }), lookup(ents(loose_d(a, z, k)), k_n7()) == Some(k.e())
{
    
    loose_keys();
    let dd = loose_d(a, z, k);
    lemma_ord_refl(k_n7());    lemma_ord_refl(k_a());    lemma_ord_refl(k_z());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_loose(s: Seq<KV>)
    requires distinct_keys(s)
    ensures loose_dec(V::M(s)) is Ok ==> loose_found(s), d_top::<u8>(or_null(lookup(s, k_n7()))) is Ok && d_top::<u64>(or_null(lookup(s, k_a()))) is Ok && d_top::<Option<bool>>(or_null(lookup(s, k_z()))) is Ok ==> loose_dec(V::M(s)) is Ok
{
    
    loose_keys(); reveal(loose_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
    lemma_loose_step::<u8>(s0, k_n7()); if f_loose::<u8>(s0, k_n7()) is Ok { let s1 = f_loose::<u8>(s0, k_n7())->Ok_0.1;
    lemma_loose_step::<u64>(s1, k_a()); if f_loose::<u64>(s1, k_a()) is Ok { let s2 = f_loose::<u64>(s1, k_a())->Ok_0.1;
    lemma_loose_step::<Option<bool>>(s2, k_z()); if f_loose::<Option<bool>>(s2, k_z()) is Ok { let s3 = f_loose::<Option<bool>>(s2, k_z())->Ok_0.1;
}}}}
pub open spec fn loose_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(loose_dec(V::M(s))->Ok_0.0) && d_top::<Option<bool>>(or_null(lookup(s, k_z()))) == Ok::<<Option<bool> as Ty>::M, DecodeError>(loose_dec(V::M(s))->Ok_0.1) && d_top::<u8>(or_null(lookup(s, k_n7()))) == Ok::<<u8 as Ty>::M, DecodeError>(loose_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_loose_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures loose_dec(V::M(s)) == loose_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Loose {
    type M = LOOSE;
    open spec fn m(self) -> LOOSE { loose_m(self.a, self.z, self.k) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LOOSE) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LOOSE { arbitrary() }
}
proof fn loose_some(a: u64, z: Option<bool>, k: u8) ensures ents(loose_d(a, z, k)).len() > 0 { lemma_ents_at(loose_d(a, z, k)); assert(loose_d(a, z, k)[0].1 is Some); }
pub open spec fn loose_default() -> <Loose as Ty>::M { (0int, None::<<bool as Ty>::M>, 0int) }
impl Codec for Loose {
    open spec fn rt(&self) -> bool { loose_rt(self.a, self.z, self.k) }
    proof fn back(&self) { loose_back(self.a, self.z, self.k); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { loose_some(self.a, self.z, self.k); }
}

// ------------------------------------------------------------------ NoDef
pub type NO_DEF = (<[u64; 2] as Ty>::M,);
pub open spec fn no_def_m(a: [u64; 2]) -> NO_DEF { (a.m(),) }
pub open spec fn no_def_d(a: [u64; 2]) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn no_def_e(a: [u64; 2]) -> V { V::M(ents(no_def_d(a))) }
#[verifier::opaque]
pub open spec fn no_def_take(s: Seq<KV>) -> R<NO_DEF> { match f_strict::<[u64; 2]>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<NO_DEF, DecodeError>(DecodeError::UnknownField) } else { Ok::<NO_DEF, DecodeError>((m_a,)) } } }
pub open spec fn no_def_dec(v: V) -> R<NO_DEF> { match v { V::M(s) => no_def_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn no_def_rt(a: [u64; 2]) -> bool { 
    &&& a.rt_top() }
pub open spec fn no_def_ks() -> Seq<V> { seq![k_a()] }
pub proof fn no_def_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn no_def_chain(l: Seq<KO>, w_a: <[u64; 2] as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<[u64; 2]>(or_null(l[0].1)) == Ok::<<[u64; 2] as Ty>::M, DecodeError>(w_a)
    ensures no_def_take(ents(l)) == Ok::<NO_DEF, DecodeError>((w_a,))
{
    
    reveal(no_def_take); let l0 = l;
    lemma_field_step::<[u64; 2]>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn no_def_back(a: [u64; 2])
    requires no_def_rt(a)
    ensures no_def_dec(no_def_e(a)) == Ok::<NO_DEF, DecodeError>(no_def_m(a)), no_def_dec(norm(no_def_e(a))) == Ok::<NO_DEF, DecodeError>(no_def_m(a)), wf(no_def_e(a)), !has_dup(no_def_e(a))
{
    
    no_def_keys();
    lemma_required::<[u64; 2]>(a);
    let dd = no_def_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    no_def_chain(ll, a.m());
    no_def_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_no_def(a: [u64; 2])
    ensures lookup(ents(no_def_d(a)), k_a()) == Some(a.e())
{
    
    no_def_keys();
    let dd = no_def_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_no_def(s: Seq<KV>)
    ensures no_def_dec(V::M(s)) is Ok ==> declared(s, no_def_ks()), no_def_dec(V::M(s)) is Ok ==> no_def_found(s)
{
    
    if no_def_dec(V::M(s)) is Ok {
        no_def_keys(); reveal(no_def_take);
        let s0 = tsort(s);
        let s1 = f_strict::<[u64; 2]>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<[u64; 2]>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= no_def_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<[u64; 2]>(s0, k_a()); lemma_loose_step::<[u64; 2]>(s0, k_a());
    }
}
pub open spec fn no_def_found(s: Seq<KV>) -> bool { d_top::<[u64; 2]>(or_null(lookup(s, k_a()))) == Ok::<<[u64; 2] as Ty>::M, DecodeError>(no_def_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_no_def_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures no_def_dec(V::M(s)) == no_def_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for NoDef {
    type M = NO_DEF;
    open spec fn m(self) -> NO_DEF { no_def_m(self.a) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: NO_DEF) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> NO_DEF { arbitrary() }
}
proof fn no_def_some(a: [u64; 2]) ensures ents(no_def_d(a)).len() > 0 { lemma_ents_at(no_def_d(a)); assert(no_def_d(a)[0].1 is Some); }
impl Codec for NoDef {
    open spec fn rt(&self) -> bool { no_def_rt(self.a) }
    proof fn back(&self) { no_def_back(self.a); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { no_def_some(self.a); }
}

// ------------------------------------------------------------------ HoldsNoDef
pub type HOLDS_NO_DEF = (<NoDef as Ty>::M, <Option<NoDef> as Ty>::M);
pub open spec fn holds_no_def_m(a: NoDef, o: Option<NoDef>) -> HOLDS_NO_DEF { (a.m(), o.m()) }
pub open spec fn holds_no_def_d(a: NoDef, o: Option<NoDef>) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))).push((k_o(), Some(o.e()))) }
pub open spec fn holds_no_def_e(a: NoDef, o: Option<NoDef>) -> V { V::M(ents(holds_no_def_d(a, o))) }
#[verifier::opaque]
pub open spec fn holds_no_def_take(s: Seq<KV>) -> R<HOLDS_NO_DEF> { match f_strict::<NoDef>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<Option<NoDef>>(s, k_o()) { Err(e) => Err(e), Ok((m_o, s)) => if s.len() > 0 { Err::<HOLDS_NO_DEF, DecodeError>(DecodeError::UnknownField) } else { Ok::<HOLDS_NO_DEF, DecodeError>((m_a, m_o)) } } } }
pub open spec fn holds_no_def_dec(v: V) -> R<HOLDS_NO_DEF> { match v { V::M(s) => holds_no_def_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn holds_no_def_rt(a: NoDef, o: Option<NoDef>) -> bool { 
    &&& a.rt_top()
    &&& o.rt_top() }
pub open spec fn holds_no_def_ks() -> Seq<V> { seq![k_a(), k_o()] }
pub proof fn holds_no_def_keys()
    ensures plain(k_a()), plain(k_o()), ord(k_a(), k_o()) is Less
{
    lemma_text_less(seq![97u8], seq![111u8], 0);
    k_a_lit();
    k_o_lit();
}
proof fn holds_no_def_chain(l: Seq<KO>, w_a: <NoDef as Ty>::M, w_o: <Option<NoDef> as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<NoDef>(or_null(l[0].1)) == Ok::<<NoDef as Ty>::M, DecodeError>(w_a), l[1].0 == k_o(), d_top::<Option<NoDef>>(or_null(l[1].1)) == Ok::<<Option<NoDef> as Ty>::M, DecodeError>(w_o)
    ensures holds_no_def_take(ents(l)) == Ok::<HOLDS_NO_DEF, DecodeError>((w_a, w_o))
{
    
    reveal(holds_no_def_take); let l0 = l;
    lemma_field_step::<NoDef>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Option<NoDef>>(l1, w_o); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn holds_no_def_back(a: NoDef, o: Option<NoDef>)
    requires holds_no_def_rt(a, o)
    ensures holds_no_def_dec(holds_no_def_e(a, o)) == Ok::<HOLDS_NO_DEF, DecodeError>(holds_no_def_m(a, o)), holds_no_def_dec(norm(holds_no_def_e(a, o))) == Ok::<HOLDS_NO_DEF, DecodeError>(holds_no_def_m(a, o)), wf(holds_no_def_e(a, o)), !has_dup(holds_no_def_e(a, o))
{
    
    holds_no_def_keys();
    lemma_required::<NoDef>(a);
    lemma_required::<Option<NoDef>>(o);
    let dd = holds_no_def_d(a, o);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    holds_no_def_chain(ll, a.m(), o.m());
    holds_no_def_chain(normo(ll), a.m(), o.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_holds_no_def(a: NoDef, o: Option<NoDef>)
    ensures lookup(ents(holds_no_def_d(a, o)), k_a()) == Some(a.e()), lookup(ents(holds_no_def_d(a, o)), k_o()) == Some(o.e())
{
    
    holds_no_def_keys();
    let dd = holds_no_def_d(a, o);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_o());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_holds_no_def(s: Seq<KV>)
    ensures holds_no_def_dec(V::M(s)) is Ok ==> declared(s, holds_no_def_ks()), holds_no_def_dec(V::M(s)) is Ok ==> holds_no_def_found(s)
{
    
    if holds_no_def_dec(V::M(s)) is Ok {
        holds_no_def_keys(); reveal(holds_no_def_take);
        let s0 = tsort(s);
        let s1 = f_strict::<NoDef>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<Option<NoDef>>(s1, k_o())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_o()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Option<NoDef>>(s1, q1);
        let q0 = seq![k_a(), k_o()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<NoDef>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= holds_no_def_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<NoDef>(s0, k_a()); lemma_loose_step::<NoDef>(s0, k_a());
        lemma_strict_loose::<Option<NoDef>>(s1, k_o()); lemma_loose_step::<Option<NoDef>>(s1, k_o());
    }
}
pub open spec fn holds_no_def_found(s: Seq<KV>) -> bool { d_top::<NoDef>(or_null(lookup(s, k_a()))) == Ok::<<NoDef as Ty>::M, DecodeError>(holds_no_def_dec(V::M(s))->Ok_0.0) && d_top::<Option<NoDef>>(or_null(lookup(s, k_o()))) == Ok::<<Option<NoDef> as Ty>::M, DecodeError>(holds_no_def_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_holds_no_def_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures holds_no_def_dec(V::M(s)) == holds_no_def_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for HoldsNoDef {
    type M = HOLDS_NO_DEF;
    open spec fn m(self) -> HOLDS_NO_DEF { holds_no_def_m(self.a, self.o) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: HOLDS_NO_DEF) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> HOLDS_NO_DEF { arbitrary() }
}
proof fn holds_no_def_some(a: NoDef, o: Option<NoDef>) ensures ents(holds_no_def_d(a, o)).len() > 0 { lemma_ents_at(holds_no_def_d(a, o)); assert(holds_no_def_d(a, o)[0].1 is Some); }
impl Codec for HoldsNoDef {
    open spec fn rt(&self) -> bool { holds_no_def_rt(self.a, self.o) }
    proof fn back(&self) { holds_no_def_back(self.a, self.o); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { holds_no_def_some(self.a, self.o); }
}

// ------------------------------------------------------------------ Skips
pub type SKIPS = (<u64 as Ty>::M, <String as Ty>::M, <Option<u8> as Ty>::M, <bool as Ty>::M);
pub open spec fn skips_m(a: u64, h: String, i: Option<u8>, z: bool) -> SKIPS { (a.m(), h.m(), i.m(), z.m()) }
pub open spec fn skips_d(a: u64, h: String, i: Option<u8>, z: bool) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))).push((k_z(), Some(z.e()))) }
pub open spec fn skips_e(a: u64, h: String, i: Option<u8>, z: bool) -> V { V::M(ents(skips_d(a, h, i, z))) }
#[verifier::opaque]
pub open spec fn skips_take(s: Seq<KV>) -> R<SKIPS> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<bool>(s, k_z()) { Err(e) => Err(e), Ok((m_z, s)) => if s.len() > 0 { Err::<SKIPS, DecodeError>(DecodeError::UnknownField) } else { Ok::<SKIPS, DecodeError>((m_a, Seq::<char>::empty(), None::<<u8 as Ty>::M>, m_z)) } } } }
pub open spec fn skips_dec(v: V) -> R<SKIPS> { match v { V::M(s) => skips_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn skips_rt(a: u64, h: String, i: Option<u8>, z: bool) -> bool { 
    &&& a.rt_top()
    &&& h.m() == Seq::<char>::empty()
    &&& i.m() == None::<<u8 as Ty>::M>
    &&& z.rt_top() }
pub open spec fn skips_ks() -> Seq<V> { seq![k_a(), k_z()] }
pub proof fn skips_keys()
    ensures plain(k_a()), plain(k_z()), ord(k_a(), k_z()) is Less
{
    lemma_text_less(seq![97u8], seq![122u8], 0);
    k_a_lit();
    k_z_lit();
}
proof fn skips_chain(l: Seq<KO>, w_a: <u64 as Ty>::M, w_z: <bool as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), l[1].0 == k_z(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_z)
    ensures skips_take(ents(l)) == Ok::<SKIPS, DecodeError>((w_a, Seq::<char>::empty(), None::<<u8 as Ty>::M>, w_z))
{
    
    reveal(skips_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_z); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn skips_back(a: u64, h: String, i: Option<u8>, z: bool)
    requires skips_rt(a, h, i, z)
    ensures skips_dec(skips_e(a, h, i, z)) == Ok::<SKIPS, DecodeError>(skips_m(a, h, i, z)), skips_dec(norm(skips_e(a, h, i, z))) == Ok::<SKIPS, DecodeError>(skips_m(a, h, i, z)), wf(skips_e(a, h, i, z)), !has_dup(skips_e(a, h, i, z))
{
    
    skips_keys();
    lemma_required::<u64>(a);
    lemma_required::<bool>(z);
    let dd = skips_d(a, h, i, z);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    skips_chain(ll, a.m(), z.m());
    skips_chain(normo(ll), a.m(), z.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_skips(a: u64, h: String, i: Option<u8>, z: bool)
    ensures lookup(ents(skips_d(a, h, i, z)), k_a()) == Some(a.e()), lookup(ents(skips_d(a, h, i, z)), k_z()) == Some(z.e())
{
    
    skips_keys();
    let dd = skips_d(a, h, i, z);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_z());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_skips(s: Seq<KV>)
    ensures skips_dec(V::M(s)) is Ok ==> declared(s, skips_ks()), skips_dec(V::M(s)) is Ok ==> skips_found(s)
{
    
    if skips_dec(V::M(s)) is Ok {
        skips_keys(); reveal(skips_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<bool>(s1, k_z())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_z()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<bool>(s1, q1);
        let q0 = seq![k_a(), k_z()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= skips_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
        lemma_strict_loose::<bool>(s1, k_z()); lemma_loose_step::<bool>(s1, k_z());
    }
}
pub open spec fn skips_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(skips_dec(V::M(s))->Ok_0.0) && d_top::<bool>(or_null(lookup(s, k_z()))) == Ok::<<bool as Ty>::M, DecodeError>(skips_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_skips_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures skips_dec(V::M(s)) == skips_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Skips {
    type M = SKIPS;
    open spec fn m(self) -> SKIPS { skips_m(self.a, self.h, self.i, self.z) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: SKIPS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> SKIPS { arbitrary() }
}
proof fn skips_some(a: u64, h: String, i: Option<u8>, z: bool) ensures ents(skips_d(a, h, i, z)).len() > 0 { lemma_ents_at(skips_d(a, h, i, z)); assert(skips_d(a, h, i, z)[0].1 is Some); }
pub open spec fn skips_default() -> <Skips as Ty>::M { (0int, Seq::<char>::empty(), None::<<u8 as Ty>::M>, false) }
impl Codec for Skips {
    open spec fn rt(&self) -> bool { skips_rt(self.a, self.h, self.i, self.z) }
    proof fn back(&self) { skips_back(self.a, self.h, self.i, self.z); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { skips_some(self.a, self.h, self.i, self.z); }
}

// ------------------------------------------------------------------ SkipIf
pub type SKIP_IF = (<u64 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn skip_if_m(a: u64, b: u64, c: u64) -> SKIP_IF { (a.m(), b.m(), c.m()) }
pub open spec fn skip_if_d(a: u64, b: u64, c: u64) -> Seq<KO> { Seq::empty().push((k_a(), (if is_zero_s(a) { None } else { Some(a.e()) }))).push((k_b(), (if is_odd_s(b) { None } else { Some(b.e()) }))).push((k_c(), Some(c.e()))) }
pub open spec fn skip_if_e(a: u64, b: u64, c: u64) -> V { V::M(ents(skip_if_d(a, b, c))) }
#[verifier::opaque]
pub open spec fn skip_if_take(s: Seq<KV>) -> R<SKIP_IF> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<u64>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => match f_strict::<u64>(s, k_c()) { Err(e) => Err(e), Ok((m_c, s)) => if s.len() > 0 { Err::<SKIP_IF, DecodeError>(DecodeError::UnknownField) } else { Ok::<SKIP_IF, DecodeError>((m_a, m_b, m_c)) } } } } }
pub open spec fn skip_if_dec(v: V) -> R<SKIP_IF> { match v { V::M(s) => skip_if_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn skip_if_rt(a: u64, b: u64, c: u64) -> bool { 
    &&& a.rt_top() && (is_zero_s(a) ==> d_top::<u64>(null()) == Ok::<<u64 as Ty>::M, DecodeError>(a.m()))
    &&& b.rt_top() && (is_odd_s(b) ==> d_top::<u64>(null()) == Ok::<<u64 as Ty>::M, DecodeError>(b.m()))
    &&& c.rt_top() }
pub open spec fn skip_if_ks() -> Seq<V> { seq![k_a(), k_b(), k_c()] }
pub proof fn skip_if_keys()
    ensures plain(k_a()), plain(k_b()), plain(k_c()), ord(k_a(), k_b()) is Less, ord(k_a(), k_c()) is Less, ord(k_b(), k_c()) is Less
{
    lemma_text_less(seq![97u8], seq![98u8], 0);
    lemma_text_less(seq![97u8], seq![99u8], 0);
    lemma_text_less(seq![98u8], seq![99u8], 0);
    k_a_lit();
    k_b_lit();
    k_c_lit();
}
proof fn skip_if_chain(l: Seq<KO>, w_a: <u64 as Ty>::M, w_b: <u64 as Ty>::M, w_c: <u64 as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), l[1].0 == k_b(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_b), l[2].0 == k_c(), d_top::<u64>(or_null(l[2].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_c)
    ensures skip_if_take(ents(l)) == Ok::<SKIP_IF, DecodeError>((w_a, w_b, w_c))
{
    
    reveal(skip_if_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_b); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u64>(l2, w_c); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn skip_if_back(a: u64, b: u64, c: u64)
    requires skip_if_rt(a, b, c)
    ensures skip_if_dec(skip_if_e(a, b, c)) == Ok::<SKIP_IF, DecodeError>(skip_if_m(a, b, c)), skip_if_dec(norm(skip_if_e(a, b, c))) == Ok::<SKIP_IF, DecodeError>(skip_if_m(a, b, c)), wf(skip_if_e(a, b, c)), !has_dup(skip_if_e(a, b, c))
{
    
    skip_if_keys();
    lemma_required::<u64>(a);
    lemma_required::<u64>(b);
    lemma_required::<u64>(c);
    let dd = skip_if_d(a, b, c);
    let ll: Seq<KO> = seq![dd[0], dd[1], dd[2]];
    lemma_rearranged(dd, ll, seq![0int, 1int, 2int], seq![0int, 1int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    skip_if_chain(ll, a.m(), b.m(), c.m());
    skip_if_chain(normo(ll), a.m(), b.m(), c.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_skip_if(a: u64, b: u64, c: u64)
    ensures lookup(ents(skip_if_d(a, b, c)), k_a()) == (if is_zero_s(a) { None } else { Some(a.e()) }), lookup(ents(skip_if_d(a, b, c)), k_b()) == (if is_odd_s(b) { None } else { Some(b.e()) }), lookup(ents(skip_if_d(a, b, c)), k_c()) == Some(c.e())
{
    
    skip_if_keys();
    let dd = skip_if_d(a, b, c);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_b());    lemma_ord_refl(k_c());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_skip_if(s: Seq<KV>)
    ensures skip_if_dec(V::M(s)) is Ok ==> declared(s, skip_if_ks()), skip_if_dec(V::M(s)) is Ok ==> skip_if_found(s)
{
    
    if skip_if_dec(V::M(s)) is Ok {
        skip_if_keys(); reveal(skip_if_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_b())->Ok_0.1;
        let s3 = f_strict::<u64>(s2, k_c())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_c()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u64>(s2, q2);
        let q1 = seq![k_b(), k_c()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_a(), k_b(), k_c()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= skip_if_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
        lemma_strict_loose::<u64>(s1, k_b()); lemma_loose_step::<u64>(s1, k_b());
        lemma_strict_loose::<u64>(s2, k_c()); lemma_loose_step::<u64>(s2, k_c());
    }
}
pub open spec fn skip_if_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(skip_if_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_b()))) == Ok::<<u64 as Ty>::M, DecodeError>(skip_if_dec(V::M(s))->Ok_0.1) && d_top::<u64>(or_null(lookup(s, k_c()))) == Ok::<<u64 as Ty>::M, DecodeError>(skip_if_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_skip_if_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures skip_if_dec(V::M(s)) == skip_if_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for SkipIf {
    type M = SKIP_IF;
    open spec fn m(self) -> SKIP_IF { skip_if_m(self.a, self.b, self.c) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: SKIP_IF) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> SKIP_IF { arbitrary() }
}
proof fn skip_if_some(a: u64, b: u64, c: u64) ensures ents(skip_if_d(a, b, c)).len() > 0 { lemma_ents_at(skip_if_d(a, b, c)); assert(skip_if_d(a, b, c)[2].1 is Some); }
pub open spec fn skip_if_default() -> <SkipIf as Ty>::M { (0int, 0int, 0int) }
impl Codec for SkipIf {
    open spec fn rt(&self) -> bool { skip_if_rt(self.a, self.b, self.c) }
    proof fn back(&self) { skip_if_back(self.a, self.b, self.c); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { skip_if_some(self.a, self.b, self.c); }
}

// ------------------------------------------------------------------ With
pub type WITH = (<u64 as Ty>::M, <bool as Ty>::M);
pub open spec fn with_m(p: u64, q: bool) -> WITH { (p.m(), q.m()) }
pub open spec fn with_d(p: u64, q: bool) -> Seq<KO> { Seq::empty().push((k_p(), Some(enc_plus_s(p).e()))).push((k_q(), (if enc_not_s(q).omit() { None } else { Some(enc_not_s(q).e()) }))) }
pub open spec fn with_e(p: u64, q: bool) -> V { V::M(ents(with_d(p, q))) }
#[verifier::opaque]
pub open spec fn with_take(s: Seq<KV>) -> R<WITH> { match f_strict::<u128>(s, k_p()) { Err(e) => Err(e), Ok((w_p, s)) => match dec_plus_s(w_p) { Err(e) => Err(e), Ok(m_p) => match f_strict::<bool>(s, k_q()) { Err(e) => Err(e), Ok((w_q, s)) => match dec_not_s(w_q) { Err(e) => Err(e), Ok(m_q) => if s.len() > 0 { Err::<WITH, DecodeError>(DecodeError::UnknownField) } else { Ok::<WITH, DecodeError>((m_p, m_q)) } } } } } }
pub open spec fn with_dec(v: V) -> R<WITH> { match v { V::M(s) => with_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn with_rt(p: u64, q: bool) -> bool { 
    &&& enc_plus_s(p).rt_top() && dec_plus_s(enc_plus_s(p).m()) == Ok::<<u64 as Ty>::M, DecodeError>(p.m())
    &&& enc_not_s(q).rt_top() && dec_not_s(enc_not_s(q).m()) == Ok::<<bool as Ty>::M, DecodeError>(q.m()) && !enc_not_s(q).lost() }
pub open spec fn with_ks() -> Seq<V> { seq![k_p(), k_q()] }
pub proof fn with_keys()
    ensures plain(k_p()), plain(k_q()), ord(k_p(), k_q()) is Less
{
    lemma_text_less(seq![112u8], seq![113u8], 0);
    k_p_lit();
    k_q_lit();
}
proof fn with_chain(l: Seq<KO>, w_p: <u128 as Ty>::M, w_q: <bool as Ty>::M, m_p: <u64 as Ty>::M, m_q: <bool as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_p(), d_top::<u128>(or_null(l[0].1)) == Ok::<<u128 as Ty>::M, DecodeError>(w_p), l[1].0 == k_q(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_q), dec_plus_s(w_p) == Ok::<<u64 as Ty>::M, DecodeError>(m_p), dec_not_s(w_q) == Ok::<<bool as Ty>::M, DecodeError>(m_q)
    ensures with_take(ents(l)) == Ok::<WITH, DecodeError>((m_p, m_q))
{
    
    reveal(with_take); let l0 = l;
    lemma_field_step::<u128>(l0, w_p); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_q); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn with_back(p: u64, q: bool)
    requires with_rt(p, q)
    ensures with_dec(with_e(p, q)) == Ok::<WITH, DecodeError>(with_m(p, q)), with_dec(norm(with_e(p, q))) == Ok::<WITH, DecodeError>(with_m(p, q)), wf(with_e(p, q)), !has_dup(with_e(p, q))
{
    
    with_keys();
    lemma_required::<u128>(enc_plus_s(p));
    lemma_optional::<bool>(enc_not_s(q));
    let dd = with_d(p, q);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    with_chain(ll, enc_plus_s(p).m(), enc_not_s(q).m(), p.m(), q.m());
    with_chain(normo(ll), enc_plus_s(p).m(), enc_not_s(q).m(), p.m(), q.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_with(p: u64, q: bool)
    ensures lookup(ents(with_d(p, q)), k_p()) == Some(enc_plus_s(p).e()), lookup(ents(with_d(p, q)), k_q()) == (if enc_not_s(q).omit() { None } else { Some(enc_not_s(q).e()) })
{
    
    with_keys();
    let dd = with_d(p, q);
    lemma_ord_refl(k_p());    lemma_ord_refl(k_q());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_with(s: Seq<KV>)
    ensures with_dec(V::M(s)) is Ok ==> declared(s, with_ks()), with_dec(V::M(s)) is Ok ==> with_found(s)
{
    
    if with_dec(V::M(s)) is Ok {
        with_keys(); reveal(with_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u128>(s0, k_p())->Ok_0.1;
        let s2 = f_strict::<bool>(s1, k_q())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_q()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<bool>(s1, q1);
        let q0 = seq![k_p(), k_q()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u128>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= with_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u128>(s0, k_p()); lemma_loose_step::<u128>(s0, k_p());
        lemma_strict_loose::<bool>(s1, k_q()); lemma_loose_step::<bool>(s1, k_q());
    }
}
pub open spec fn with_found(s: Seq<KV>) -> bool { d_top::<u128>(or_null(lookup(s, k_p()))) is Ok && dec_plus_s(d_top::<u128>(or_null(lookup(s, k_p())))->Ok_0) == Ok::<<u64 as Ty>::M, DecodeError>(with_dec(V::M(s))->Ok_0.0) && d_top::<bool>(or_null(lookup(s, k_q()))) is Ok && dec_not_s(d_top::<bool>(or_null(lookup(s, k_q())))->Ok_0) == Ok::<<bool as Ty>::M, DecodeError>(with_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_with_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures with_dec(V::M(s)) == with_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for With {
    type M = WITH;
    open spec fn m(self) -> WITH { with_m(self.p, self.q) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: WITH) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> WITH { arbitrary() }
}
proof fn with_some(p: u64, q: bool) ensures ents(with_d(p, q)).len() > 0 { lemma_ents_at(with_d(p, q)); assert(with_d(p, q)[0].1 is Some); }
impl Codec for With {
    open spec fn rt(&self) -> bool { with_rt(self.p, self.q) }
    proof fn back(&self) { with_back(self.p, self.q); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { with_some(self.p, self.q); }
}

// ------------------------------------------------------------------ LongNames
pub type LONG_NAMES = (<u64 as Ty>::M, <u64 as Ty>::M, <bool as Ty>::M, <u8 as Ty>::M);
pub open spec fn long_names_m(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8) -> LONG_NAMES { (zeta_zeta_zeta_zeta_zeta.m(), alpha_alpha_alpha_alpha_alpha.m(), mid.m(), e.m()) }
pub open spec fn long_names_d(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8) -> Seq<KO> { Seq::empty().push((k_zeta_zeta_zeta_zeta_zeta(), Some(zeta_zeta_zeta_zeta_zeta.e()))).push((k_alpha_alpha_alpha_alpha_alpha(), (if alpha_alpha_alpha_alpha_alpha.omit() { None } else { Some(alpha_alpha_alpha_alpha_alpha.e()) }))).push((k27_(), Some(mid.e()))).push((k28_(), Some(e.e()))) }
pub open spec fn long_names_e(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8) -> V { V::M(ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e))) }
#[verifier::opaque]
pub open spec fn long_names_take(s: Seq<KV>) -> R<LONG_NAMES> { match f_strict::<u8>(s, k28_()) { Err(e) => Err(e), Ok((m_e, s)) => match f_strict::<bool>(s, k27_()) { Err(e) => Err(e), Ok((m_mid, s)) => match f_strict::<u64>(s, k_zeta_zeta_zeta_zeta_zeta()) { Err(e) => Err(e), Ok((m_zeta_zeta_zeta_zeta_zeta, s)) => match f_strict::<u64>(s, k_alpha_alpha_alpha_alpha_alpha()) { Err(e) => Err(e), Ok((m_alpha_alpha_alpha_alpha_alpha, s)) => if s.len() > 0 { Err::<LONG_NAMES, DecodeError>(DecodeError::UnknownField) } else { Ok::<LONG_NAMES, DecodeError>((m_zeta_zeta_zeta_zeta_zeta, m_alpha_alpha_alpha_alpha_alpha, m_mid, m_e)) } } } } } }
pub open spec fn long_names_dec(v: V) -> R<LONG_NAMES> { match v { V::M(s) => long_names_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn long_names_rt(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8) -> bool { 
    &&& zeta_zeta_zeta_zeta_zeta.rt_top()
    &&& alpha_alpha_alpha_alpha_alpha.rt_top() && !alpha_alpha_alpha_alpha_alpha.lost()
    &&& mid.rt_top()
    &&& e.rt_top() }
pub open spec fn long_names_ks() -> Seq<V> { seq![k28_(), k27_(), k_zeta_zeta_zeta_zeta_zeta(), k_alpha_alpha_alpha_alpha_alpha()] }
pub proof fn long_names_keys()
    ensures plain(k28_()), plain(k27_()), plain(k_zeta_zeta_zeta_zeta_zeta()), plain(k_alpha_alpha_alpha_alpha_alpha()), ord(k28_(), k27_()) is Less, ord(k28_(), k_zeta_zeta_zeta_zeta_zeta()) is Less, ord(k28_(), k_alpha_alpha_alpha_alpha_alpha()) is Less, ord(k27_(), k_zeta_zeta_zeta_zeta_zeta()) is Less, ord(k27_(), k_alpha_alpha_alpha_alpha_alpha()) is Less, ord(k_zeta_zeta_zeta_zeta_zeta(), k_alpha_alpha_alpha_alpha_alpha()) is Less
{
    lemma_text_less(Seq::<u8>::empty(), seq![110u8, 97u8, 109u8, 101u8, 32u8, 111u8, 102u8, 32u8, 50u8, 51u8, 32u8, 98u8, 121u8, 116u8, 101u8, 115u8, 32u8, 101u8, 120u8, 97u8, 99u8, 116u8, 108u8], 0);
    lemma_text_less(Seq::<u8>::empty(), seq![122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8], 0);
    lemma_text_less(Seq::<u8>::empty(), seq![97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8], 0);
    lemma_text_less(seq![110u8, 97u8, 109u8, 101u8, 32u8, 111u8, 102u8, 32u8, 50u8, 51u8, 32u8, 98u8, 121u8, 116u8, 101u8, 115u8, 32u8, 101u8, 120u8, 97u8, 99u8, 116u8, 108u8], seq![122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8], 0);
    lemma_text_less(seq![110u8, 97u8, 109u8, 101u8, 32u8, 111u8, 102u8, 32u8, 50u8, 51u8, 32u8, 98u8, 121u8, 116u8, 101u8, 115u8, 32u8, 101u8, 120u8, 97u8, 99u8, 116u8, 108u8], seq![97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8], 0);
    lemma_text_less(seq![122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8, 95u8, 122u8, 101u8, 116u8, 97u8], seq![97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8, 95u8, 97u8, 108u8, 112u8, 104u8, 97u8], 0);
    k28__lit();
    k27__lit();
    k_zeta_zeta_zeta_zeta_zeta_lit();
    k_alpha_alpha_alpha_alpha_alpha_lit();
}
proof fn long_names_chain(l: Seq<KO>, w_e: <u8 as Ty>::M, w_mid: <bool as Ty>::M, w_zeta_zeta_zeta_zeta_zeta: <u64 as Ty>::M, w_alpha_alpha_alpha_alpha_alpha: <u64 as Ty>::M)
    requires rising(l), l.len() == 4, l[0].0 == k28_(), d_top::<u8>(or_null(l[0].1)) == Ok::<<u8 as Ty>::M, DecodeError>(w_e), l[1].0 == k27_(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_mid), l[2].0 == k_zeta_zeta_zeta_zeta_zeta(), d_top::<u64>(or_null(l[2].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_zeta_zeta_zeta_zeta_zeta), l[3].0 == k_alpha_alpha_alpha_alpha_alpha(), d_top::<u64>(or_null(l[3].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_alpha_alpha_alpha_alpha_alpha)
    ensures long_names_take(ents(l)) == Ok::<LONG_NAMES, DecodeError>((w_zeta_zeta_zeta_zeta_zeta, w_alpha_alpha_alpha_alpha_alpha, w_mid, w_e))
{
    
    reveal(long_names_take); let l0 = l;
    lemma_field_step::<u8>(l0, w_e); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_mid); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u64>(l2, w_zeta_zeta_zeta_zeta_zeta); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<u64>(l3, w_alpha_alpha_alpha_alpha_alpha); let l4 = l3.drop_first();
    assert(l4.len() == 0); assert(ents(l4).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn long_names_back(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8)
    requires long_names_rt(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)
    ensures long_names_dec(long_names_e(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)) == Ok::<LONG_NAMES, DecodeError>(long_names_m(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), long_names_dec(norm(long_names_e(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e))) == Ok::<LONG_NAMES, DecodeError>(long_names_m(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), wf(long_names_e(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), !has_dup(long_names_e(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e))
{
    
    long_names_keys();
    lemma_required::<u64>(zeta_zeta_zeta_zeta_zeta);
    lemma_optional::<u64>(alpha_alpha_alpha_alpha_alpha);
    lemma_required::<bool>(mid);
    lemma_required::<u8>(e);
    let dd = long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e);
    let ll: Seq<KO> = seq![dd[3], dd[2], dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![3int, 2int, 0int, 1int], seq![2int, 3int, 1int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    long_names_chain(ll, e.m(), mid.m(), zeta_zeta_zeta_zeta_zeta.m(), alpha_alpha_alpha_alpha_alpha.m());
    long_names_chain(normo(ll), e.m(), mid.m(), zeta_zeta_zeta_zeta_zeta.m(), alpha_alpha_alpha_alpha_alpha.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_long_names(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8)
    ensures lookup(ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), k_zeta_zeta_zeta_zeta_zeta()) == Some(zeta_zeta_zeta_zeta_zeta.e()), lookup(ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), k_alpha_alpha_alpha_alpha_alpha()) == (if alpha_alpha_alpha_alpha_alpha.omit() { None } else { Some(alpha_alpha_alpha_alpha_alpha.e()) }), lookup(ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), k27_()) == Some(mid.e()), lookup(ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)), k28_()) == Some(e.e())
{
    
    long_names_keys();
    let dd = long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e);
    lemma_ord_refl(k28_());    lemma_ord_refl(k27_());    lemma_ord_refl(k_zeta_zeta_zeta_zeta_zeta());    lemma_ord_refl(k_alpha_alpha_alpha_alpha_alpha());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_long_names(s: Seq<KV>)
    ensures long_names_dec(V::M(s)) is Ok ==> declared(s, long_names_ks()), long_names_dec(V::M(s)) is Ok ==> long_names_found(s)
{
    
    if long_names_dec(V::M(s)) is Ok {
        long_names_keys(); reveal(long_names_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u8>(s0, k28_())->Ok_0.1;
        let s2 = f_strict::<bool>(s1, k27_())->Ok_0.1;
        let s3 = f_strict::<u64>(s2, k_zeta_zeta_zeta_zeta_zeta())->Ok_0.1;
        let s4 = f_strict::<u64>(s3, k_alpha_alpha_alpha_alpha_alpha())->Ok_0.1;
        let q4 = Seq::<V>::empty();
        lemma_declared_none(s4, q4);
        let q3 = seq![k_alpha_alpha_alpha_alpha_alpha()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<u64>(s3, q3);
        let q2 = seq![k_zeta_zeta_zeta_zeta_zeta(), k_alpha_alpha_alpha_alpha_alpha()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u64>(s2, q2);
        let q1 = seq![k27_(), k_zeta_zeta_zeta_zeta_zeta(), k_alpha_alpha_alpha_alpha_alpha()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<bool>(s1, q1);
        let q0 = seq![k28_(), k27_(), k_zeta_zeta_zeta_zeta_zeta(), k_alpha_alpha_alpha_alpha_alpha()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u8>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= long_names_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u8>(s0, k28_()); lemma_loose_step::<u8>(s0, k28_());
        lemma_strict_loose::<bool>(s1, k27_()); lemma_loose_step::<bool>(s1, k27_());
        lemma_strict_loose::<u64>(s2, k_zeta_zeta_zeta_zeta_zeta()); lemma_loose_step::<u64>(s2, k_zeta_zeta_zeta_zeta_zeta());
        lemma_strict_loose::<u64>(s3, k_alpha_alpha_alpha_alpha_alpha()); lemma_loose_step::<u64>(s3, k_alpha_alpha_alpha_alpha_alpha());
    }
}
pub open spec fn long_names_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_zeta_zeta_zeta_zeta_zeta()))) == Ok::<<u64 as Ty>::M, DecodeError>(long_names_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_alpha_alpha_alpha_alpha_alpha()))) == Ok::<<u64 as Ty>::M, DecodeError>(long_names_dec(V::M(s))->Ok_0.1) && d_top::<bool>(or_null(lookup(s, k27_()))) == Ok::<<bool as Ty>::M, DecodeError>(long_names_dec(V::M(s))->Ok_0.2) && d_top::<u8>(or_null(lookup(s, k28_()))) == Ok::<<u8 as Ty>::M, DecodeError>(long_names_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_long_names_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures long_names_dec(V::M(s)) == long_names_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for LongNames {
    type M = LONG_NAMES;
    open spec fn m(self) -> LONG_NAMES { long_names_m(self.zeta_zeta_zeta_zeta_zeta, self.alpha_alpha_alpha_alpha_alpha, self.mid, self.e) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LONG_NAMES) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LONG_NAMES { arbitrary() }
}
proof fn long_names_some(zeta_zeta_zeta_zeta_zeta: u64, alpha_alpha_alpha_alpha_alpha: u64, mid: bool, e: u8) ensures ents(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)).len() > 0 { lemma_ents_at(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)); assert(long_names_d(zeta_zeta_zeta_zeta_zeta, alpha_alpha_alpha_alpha_alpha, mid, e)[0].1 is Some); }
pub open spec fn long_names_default() -> <LongNames as Ty>::M { (0int, 0int, false, 0int) }
impl Codec for LongNames {
    open spec fn rt(&self) -> bool { long_names_rt(self.zeta_zeta_zeta_zeta_zeta, self.alpha_alpha_alpha_alpha_alpha, self.mid, self.e) }
    proof fn back(&self) { long_names_back(self.zeta_zeta_zeta_zeta_zeta, self.alpha_alpha_alpha_alpha_alpha, self.mid, self.e); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { long_names_some(self.zeta_zeta_zeta_zeta_zeta, self.alpha_alpha_alpha_alpha_alpha, self.mid, self.e); }
}

// ------------------------------------------------------------------ BigKeys
pub type BIG_KEYS = (<u64 as Ty>::M, <u8 as Ty>::M, <bool as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M, <Option<u64> as Ty>::M, <u64 as Ty>::M);
pub open spec fn big_keys_m(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64) -> BIG_KEYS { (e.m(), d.m(), c.m(), text.m(), b.m(), a.m(), z.m()) }
pub open spec fn big_keys_d(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64) -> Seq<KO> { Seq::empty().push((k_n18446744073709551615(), Some(e.e()))).push((k_n4294967296(), Some(d.e()))).push((k_n65536(), Some(c.e()))).push((k_text(), Some(text.e()))).push((k_n256(), (if b.omit() { None } else { Some(b.e()) }))).push((k_n24(), Some(a.e()))).push((k_n0(), Some(z.e()))) }
pub open spec fn big_keys_e(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64) -> V { V::M(ents(big_keys_d(e, d, c, text, b, a, z))) }
#[verifier::opaque]
pub open spec fn big_keys_take(s: Seq<KV>) -> R<BIG_KEYS> { match f_strict::<u64>(s, k_n0()) { Err(e) => Err(e), Ok((m_z, s)) => match f_strict::<Option<u64>>(s, k_n24()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<u64>(s, k_n256()) { Err(e) => Err(e), Ok((m_b, s)) => match f_strict::<bool>(s, k_n65536()) { Err(e) => Err(e), Ok((m_c, s)) => match f_strict::<u8>(s, k_n4294967296()) { Err(e) => Err(e), Ok((m_d, s)) => match f_strict::<u64>(s, k_n18446744073709551615()) { Err(e) => Err(e), Ok((m_e, s)) => match f_strict::<u64>(s, k_text()) { Err(e) => Err(e), Ok((m_text, s)) => if s.len() > 0 { Err::<BIG_KEYS, DecodeError>(DecodeError::UnknownField) } else { Ok::<BIG_KEYS, DecodeError>((m_e, m_d, m_c, m_text, m_b, m_a, m_z)) } } } } } } } } }
pub open spec fn big_keys_dec(v: V) -> R<BIG_KEYS> { match v { V::M(s) => big_keys_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn big_keys_rt(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64) -> bool { 
    &&& e.rt_top()
    &&& d.rt_top()
    &&& c.rt_top()
    &&& text.rt_top()
    &&& b.rt_top() && !b.lost()
    &&& a.rt_top()
    &&& z.rt_top() }
pub open spec fn big_keys_ks() -> Seq<V> { seq![k_n0(), k_n24(), k_n256(), k_n65536(), k_n4294967296(), k_n18446744073709551615(), k_text()] }
pub proof fn big_keys_keys()
    ensures plain(k_n0()), plain(k_n24()), plain(k_n256()), plain(k_n65536()), plain(k_n4294967296()), plain(k_n18446744073709551615()), plain(k_text()), ord(k_n0(), k_n24()) is Less, ord(k_n0(), k_n256()) is Less, ord(k_n0(), k_n65536()) is Less, ord(k_n0(), k_n4294967296()) is Less, ord(k_n0(), k_n18446744073709551615()) is Less, ord(k_n0(), k_text()) is Less, ord(k_n24(), k_n256()) is Less, ord(k_n24(), k_n65536()) is Less, ord(k_n24(), k_n4294967296()) is Less, ord(k_n24(), k_n18446744073709551615()) is Less, ord(k_n24(), k_text()) is Less, ord(k_n256(), k_n65536()) is Less, ord(k_n256(), k_n4294967296()) is Less, ord(k_n256(), k_n18446744073709551615()) is Less, ord(k_n256(), k_text()) is Less, ord(k_n65536(), k_n4294967296()) is Less, ord(k_n65536(), k_n18446744073709551615()) is Less, ord(k_n65536(), k_text()) is Less, ord(k_n4294967296(), k_n18446744073709551615()) is Less, ord(k_n4294967296(), k_text()) is Less, ord(k_n18446744073709551615(), k_text()) is Less
{
    k_text_lit();
}
proof fn big_keys_chain(l: Seq<KO>, w_z: <u64 as Ty>::M, w_a: <Option<u64> as Ty>::M, w_b: <u64 as Ty>::M, w_c: <bool as Ty>::M, w_d: <u8 as Ty>::M, w_e: <u64 as Ty>::M, w_text: <u64 as Ty>::M)
    requires rising(l), l.len() == 7, l[0].0 == k_n0(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_z), l[1].0 == k_n24(), d_top::<Option<u64>>(or_null(l[1].1)) == Ok::<<Option<u64> as Ty>::M, DecodeError>(w_a), l[2].0 == k_n256(), d_top::<u64>(or_null(l[2].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_b), l[3].0 == k_n65536(), d_top::<bool>(or_null(l[3].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_c), l[4].0 == k_n4294967296(), d_top::<u8>(or_null(l[4].1)) == Ok::<<u8 as Ty>::M, DecodeError>(w_d), l[5].0 == k_n18446744073709551615(), d_top::<u64>(or_null(l[5].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_e), l[6].0 == k_text(), d_top::<u64>(or_null(l[6].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_text)
    ensures big_keys_take(ents(l)) == Ok::<BIG_KEYS, DecodeError>((w_e, w_d, w_c, w_text, w_b, w_a, w_z))
{
    
    reveal(big_keys_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_z); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Option<u64>>(l1, w_a); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u64>(l2, w_b); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<bool>(l3, w_c); let l4 = l3.drop_first(); assert(l4[0] == l[4]);
    lemma_field_step::<u8>(l4, w_d); let l5 = l4.drop_first(); assert(l5[0] == l[5]);
    lemma_field_step::<u64>(l5, w_e); let l6 = l5.drop_first(); assert(l6[0] == l[6]);
    lemma_field_step::<u64>(l6, w_text); let l7 = l6.drop_first();
    assert(l7.len() == 0); assert(ents(l7).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn big_keys_back(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64)
    requires big_keys_rt(e, d, c, text, b, a, z)
    ensures big_keys_dec(big_keys_e(e, d, c, text, b, a, z)) == Ok::<BIG_KEYS, DecodeError>(big_keys_m(e, d, c, text, b, a, z)), big_keys_dec(norm(big_keys_e(e, d, c, text, b, a, z))) == Ok::<BIG_KEYS, DecodeError>(big_keys_m(e, d, c, text, b, a, z)), wf(big_keys_e(e, d, c, text, b, a, z)), !has_dup(big_keys_e(e, d, c, text, b, a, z))
{
    
    big_keys_keys();
    lemma_required::<u64>(e);
    lemma_required::<u8>(d);
    lemma_required::<bool>(c);
    lemma_required::<u64>(text);
    lemma_optional::<u64>(b);
    lemma_required::<Option<u64>>(a);
    lemma_required::<u64>(z);
    let dd = big_keys_d(e, d, c, text, b, a, z);
    let ll: Seq<KO> = seq![dd[6], dd[5], dd[4], dd[2], dd[1], dd[0], dd[3]];
    lemma_rearranged(dd, ll, seq![6int, 5int, 4int, 2int, 1int, 0int, 3int], seq![5int, 4int, 3int, 6int, 2int, 1int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    big_keys_chain(ll, z.m(), a.m(), b.m(), c.m(), d.m(), e.m(), text.m());
    big_keys_chain(normo(ll), z.m(), a.m(), b.m(), c.m(), d.m(), e.m(), text.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_big_keys(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64)
    ensures lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n18446744073709551615()) == Some(e.e()), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n4294967296()) == Some(d.e()), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n65536()) == Some(c.e()), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_text()) == Some(text.e()), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n256()) == (if b.omit() { None } else { Some(b.e()) }), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n24()) == Some(a.e()), lookup(ents(big_keys_d(e, d, c, text, b, a, z)), k_n0()) == Some(z.e())
{
    
    big_keys_keys();
    let dd = big_keys_d(e, d, c, text, b, a, z);
    lemma_ord_refl(k_n0());    lemma_ord_refl(k_n24());    lemma_ord_refl(k_n256());    lemma_ord_refl(k_n65536());    lemma_ord_refl(k_n4294967296());    lemma_ord_refl(k_n18446744073709551615());    lemma_ord_refl(k_text());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);    lemma_lookup_ents(dd, 4);    lemma_lookup_ents(dd, 5);    lemma_lookup_ents(dd, 6);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_big_keys(s: Seq<KV>)
    ensures big_keys_dec(V::M(s)) is Ok ==> declared(s, big_keys_ks()), big_keys_dec(V::M(s)) is Ok ==> big_keys_found(s)
{
    
    if big_keys_dec(V::M(s)) is Ok {
        big_keys_keys(); reveal(big_keys_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_n0())->Ok_0.1;
        let s2 = f_strict::<Option<u64>>(s1, k_n24())->Ok_0.1;
        let s3 = f_strict::<u64>(s2, k_n256())->Ok_0.1;
        let s4 = f_strict::<bool>(s3, k_n65536())->Ok_0.1;
        let s5 = f_strict::<u8>(s4, k_n4294967296())->Ok_0.1;
        let s6 = f_strict::<u64>(s5, k_n18446744073709551615())->Ok_0.1;
        let s7 = f_strict::<u64>(s6, k_text())->Ok_0.1;
        let q7 = Seq::<V>::empty();
        lemma_declared_none(s7, q7);
        let q6 = seq![k_text()]; assert(q6.drop_first() =~= q7); lemma_declared_step::<u64>(s6, q6);
        let q5 = seq![k_n18446744073709551615(), k_text()]; assert(q5.drop_first() =~= q6); lemma_declared_step::<u64>(s5, q5);
        let q4 = seq![k_n4294967296(), k_n18446744073709551615(), k_text()]; assert(q4.drop_first() =~= q5); lemma_declared_step::<u8>(s4, q4);
        let q3 = seq![k_n65536(), k_n4294967296(), k_n18446744073709551615(), k_text()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<bool>(s3, q3);
        let q2 = seq![k_n256(), k_n65536(), k_n4294967296(), k_n18446744073709551615(), k_text()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u64>(s2, q2);
        let q1 = seq![k_n24(), k_n256(), k_n65536(), k_n4294967296(), k_n18446744073709551615(), k_text()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Option<u64>>(s1, q1);
        let q0 = seq![k_n0(), k_n24(), k_n256(), k_n65536(), k_n4294967296(), k_n18446744073709551615(), k_text()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= big_keys_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_n0()); lemma_loose_step::<u64>(s0, k_n0());
        lemma_strict_loose::<Option<u64>>(s1, k_n24()); lemma_loose_step::<Option<u64>>(s1, k_n24());
        lemma_strict_loose::<u64>(s2, k_n256()); lemma_loose_step::<u64>(s2, k_n256());
        lemma_strict_loose::<bool>(s3, k_n65536()); lemma_loose_step::<bool>(s3, k_n65536());
        lemma_strict_loose::<u8>(s4, k_n4294967296()); lemma_loose_step::<u8>(s4, k_n4294967296());
        lemma_strict_loose::<u64>(s5, k_n18446744073709551615()); lemma_loose_step::<u64>(s5, k_n18446744073709551615());
        lemma_strict_loose::<u64>(s6, k_text()); lemma_loose_step::<u64>(s6, k_text());
    }
}
pub open spec fn big_keys_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_n18446744073709551615()))) == Ok::<<u64 as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.0) && d_top::<u8>(or_null(lookup(s, k_n4294967296()))) == Ok::<<u8 as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.1) && d_top::<bool>(or_null(lookup(s, k_n65536()))) == Ok::<<bool as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.2) && d_top::<u64>(or_null(lookup(s, k_text()))) == Ok::<<u64 as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.3) && d_top::<u64>(or_null(lookup(s, k_n256()))) == Ok::<<u64 as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.4) && d_top::<Option<u64>>(or_null(lookup(s, k_n24()))) == Ok::<<Option<u64> as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.5) && d_top::<u64>(or_null(lookup(s, k_n0()))) == Ok::<<u64 as Ty>::M, DecodeError>(big_keys_dec(V::M(s))->Ok_0.6) }
pub proof fn c14_big_keys_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures big_keys_dec(V::M(s)) == big_keys_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for BigKeys {
    type M = BIG_KEYS;
    open spec fn m(self) -> BIG_KEYS { big_keys_m(self.e, self.d, self.c, self.text, self.b, self.a, self.z) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: BIG_KEYS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> BIG_KEYS { arbitrary() }
}
proof fn big_keys_some(e: u64, d: u8, c: bool, text: u64, b: u64, a: Option<u64>, z: u64) ensures ents(big_keys_d(e, d, c, text, b, a, z)).len() > 0 { lemma_ents_at(big_keys_d(e, d, c, text, b, a, z)); assert(big_keys_d(e, d, c, text, b, a, z)[0].1 is Some); }
pub open spec fn big_keys_default() -> <BigKeys as Ty>::M { (0int, 0int, false, 0int, 0int, None::<<u64 as Ty>::M>, 0int) }
impl Codec for BigKeys {
    open spec fn rt(&self) -> bool { big_keys_rt(self.e, self.d, self.c, self.text, self.b, self.a, self.z) }
    proof fn back(&self) { big_keys_back(self.e, self.d, self.c, self.text, self.b, self.a, self.z); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { big_keys_some(self.e, self.d, self.c, self.text, self.b, self.a, self.z); }
}

// ------------------------------------------------------------------ TupMix
pub type TUP_MIX = (<u64 as Ty>::M, <u8 as Ty>::M, <u64 as Ty>::M, <u16 as Ty>::M);
pub open spec fn tup_mix_m(f0: u64, f1: u8, f2: u64, f3: u16) -> TUP_MIX { (f0.m(), f1.m(), f2.m(), f3.m()) }
pub open spec fn tup_mix_a(f0: u64, f1: u8, f2: u64, f3: u16) -> Seq<V> { Seq::empty().push(f0.e()).push(enc_plus_s(f2).e()).push(f3.e()) }
pub open spec fn tup_mix_e(f0: u64, f1: u8, f2: u64, f3: u16) -> V { V::A(tup_mix_a(f0, f1, f2, f3)) }
#[verifier::opaque]
pub open spec fn tup_mix_take(s: Seq<V>) -> R<TUP_MIX> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f0, s)) => match f_next::<u128>(s) { Err(e) => Err(e), Ok((w_f2, s)) => match dec_plus_s(w_f2) { Err(e) => Err(e), Ok(m_f2) => match f_next::<u16>(s) { Err(e) => Err(e), Ok((w_f3, s)) => match dec_small_s(w_f3) { Err(e) => Err(e), Ok(m_f3) => if s.len() > 0 { Err::<TUP_MIX, DecodeError>(DecodeError::UnknownField) } else { Ok::<TUP_MIX, DecodeError>((m_f0, 0int, m_f2, m_f3)) } } } } } } }
pub open spec fn tup_mix_dec(v: V) -> R<TUP_MIX> { match v { V::A(s) => tup_mix_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tup_mix_rt(f0: u64, f1: u8, f2: u64, f3: u16) -> bool { 
    &&& f0.rt_top()
    &&& f1.m() == 0int
    &&& enc_plus_s(f2).rt_top() && dec_plus_s(enc_plus_s(f2).m()) == Ok::<<u64 as Ty>::M, DecodeError>(f2.m())
    &&& f3.rt_top() && dec_small_s(f3.m()) == Ok::<<u16 as Ty>::M, DecodeError>(f3.m()) }
proof fn tup_mix_chain(s: Seq<V>, w_f0: <u64 as Ty>::M, w_f2: <u128 as Ty>::M, w_f3: <u16 as Ty>::M, m_f2: <u64 as Ty>::M, m_f3: <u16 as Ty>::M)
    requires s.len() == 3, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f0), d_top::<u128>(s[1]) == Ok::<<u128 as Ty>::M, DecodeError>(w_f2), d_top::<u16>(s[2]) == Ok::<<u16 as Ty>::M, DecodeError>(w_f3), dec_plus_s(w_f2) == Ok::<<u64 as Ty>::M, DecodeError>(m_f2), dec_small_s(w_f3) == Ok::<<u16 as Ty>::M, DecodeError>(m_f3)
    ensures tup_mix_take(s) == Ok::<TUP_MIX, DecodeError>((w_f0, 0int, m_f2, m_f3))
{
    
    reveal(tup_mix_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f0); let s1 = s0.drop_first();
    lemma_next_step::<u128>(s1, w_f2); let s2 = s1.drop_first();
    lemma_next_step::<u16>(s2, w_f3); let s3 = s2.drop_first();
}
pub proof fn tup_mix_back(f0: u64, f1: u8, f2: u64, f3: u16)
    requires tup_mix_rt(f0, f1, f2, f3)
    ensures tup_mix_dec(tup_mix_e(f0, f1, f2, f3)) == Ok::<TUP_MIX, DecodeError>(tup_mix_m(f0, f1, f2, f3)), tup_mix_dec(norm(tup_mix_e(f0, f1, f2, f3))) == Ok::<TUP_MIX, DecodeError>(tup_mix_m(f0, f1, f2, f3)), wf(tup_mix_e(f0, f1, f2, f3)), !has_dup(tup_mix_e(f0, f1, f2, f3))
{
    
    lemma_required::<u64>(f0);
    lemma_required::<u128>(enc_plus_s(f2));
    lemma_required::<u16>(f3);
    let aa = tup_mix_a(f0, f1, f2, f3);
    lemma_arr_fields(aa);
    tup_mix_chain(aa, f0.m(), enc_plus_s(f2).m(), f3.m(), f2.m(), f3.m());
    tup_mix_chain(norms(aa), f0.m(), enc_plus_s(f2).m(), f3.m(), f2.m(), f3.m());
}
/// As many elements as there are fields.
pub proof fn c14_tup_mix(v: V)
    ensures tup_mix_dec(v) is Ok ==> v is A && v->A_0.len() == 3
{ reveal(tup_mix_take); reveal(f_next); }
impl Ty for TupMix {
    type M = TUP_MIX;
    open spec fn m(self) -> TUP_MIX { tup_mix_m(self.0, self.1, self.2, self.3) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TUP_MIX) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TUP_MIX { arbitrary() }
}
pub open spec fn tup_mix_default() -> <TupMix as Ty>::M { (0int, 0int, 0int, 0int) }
impl Codec for TupMix {
    open spec fn rt(&self) -> bool { tup_mix_rt(self.0, self.1, self.2, self.3) }
    proof fn back(&self) { tup_mix_back(self.0, self.1, self.2, self.3); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ ArrMix
pub type ARR_MIX = (<u8 as Ty>::M, <bool as Ty>::M, <Option<bool> as Ty>::M);
pub open spec fn arr_mix_m(h: u8, b: bool, a: Option<bool>) -> ARR_MIX { (h.m(), b.m(), a.m()) }
pub open spec fn arr_mix_a(h: u8, b: bool, a: Option<bool>) -> Seq<V> { Seq::empty().push(enc_not_s(b).e()).push(a.e()) }
pub open spec fn arr_mix_e(h: u8, b: bool, a: Option<bool>) -> V { V::A(arr_mix_a(h, b, a)) }
#[verifier::opaque]
pub open spec fn arr_mix_take(s: Seq<V>) -> R<ARR_MIX> { match f_next::<bool>(s) { Err(e) => Err(e), Ok((w_b, s)) => match dec_not_s(w_b) { Err(e) => Err(e), Ok(m_b) => match f_next::<Option<bool>>(s) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<ARR_MIX, DecodeError>(DecodeError::UnknownField) } else { Ok::<ARR_MIX, DecodeError>((0int, m_b, m_a)) } } } } }
pub open spec fn arr_mix_dec(v: V) -> R<ARR_MIX> { match v { V::A(s) => arr_mix_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn arr_mix_rt(h: u8, b: bool, a: Option<bool>) -> bool { 
    &&& h.m() == 0int
    &&& enc_not_s(b).rt_top() && dec_not_s(enc_not_s(b).m()) == Ok::<<bool as Ty>::M, DecodeError>(b.m())
    &&& a.rt_top() && !a.lost() }
proof fn arr_mix_chain(s: Seq<V>, w_b: <bool as Ty>::M, w_a: <Option<bool> as Ty>::M, m_b: <bool as Ty>::M)
    requires s.len() == 2, d_top::<bool>(s[0]) == Ok::<<bool as Ty>::M, DecodeError>(w_b), d_top::<Option<bool>>(s[1]) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_a), dec_not_s(w_b) == Ok::<<bool as Ty>::M, DecodeError>(m_b)
    ensures arr_mix_take(s) == Ok::<ARR_MIX, DecodeError>((0int, m_b, w_a))
{
    
    reveal(arr_mix_take); let s0 = s;
    lemma_next_step::<bool>(s0, w_b); let s1 = s0.drop_first();
    lemma_next_step::<Option<bool>>(s1, w_a); let s2 = s1.drop_first();
}
pub proof fn arr_mix_back(h: u8, b: bool, a: Option<bool>)
    requires arr_mix_rt(h, b, a)
    ensures arr_mix_dec(arr_mix_e(h, b, a)) == Ok::<ARR_MIX, DecodeError>(arr_mix_m(h, b, a)), arr_mix_dec(norm(arr_mix_e(h, b, a))) == Ok::<ARR_MIX, DecodeError>(arr_mix_m(h, b, a)), wf(arr_mix_e(h, b, a)), !has_dup(arr_mix_e(h, b, a))
{
    
    lemma_required::<bool>(enc_not_s(b));
    lemma_optional::<Option<bool>>(a);
    let aa = arr_mix_a(h, b, a);
    lemma_arr_fields(aa);
    arr_mix_chain(aa, enc_not_s(b).m(), a.m(), b.m());
    arr_mix_chain(norms(aa), enc_not_s(b).m(), a.m(), b.m());
}
/// As many elements as there are fields.
pub proof fn c14_arr_mix(v: V)
    ensures arr_mix_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(arr_mix_take); reveal(f_next); }
impl Ty for ArrMix {
    type M = ARR_MIX;
    open spec fn m(self) -> ARR_MIX { arr_mix_m(self.h, self.b, self.a) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ARR_MIX) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ARR_MIX { arbitrary() }
}
pub open spec fn arr_mix_default() -> <ArrMix as Ty>::M { (0int, false, None::<<bool as Ty>::M>) }
impl Codec for ArrMix {
    open spec fn rt(&self) -> bool { arr_mix_rt(self.h, self.b, self.a) }
    proof fn back(&self) { arr_mix_back(self.h, self.b, self.a); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ Codecs
pub type CODECS = (<u64 as Ty>::M, <u16 as Ty>::M, <u64 as Ty>::M);
pub open spec fn codecs_m(cap: u64, small: u16, both: u64) -> CODECS { (cap.m(), small.m(), both.m()) }
pub open spec fn codecs_d(cap: u64, small: u16, both: u64) -> Seq<KO> { Seq::empty().push((k_cap(), Some(enc_cap_s(cap).e()))).push((k_small(), (if small.omit() { None } else { Some(small.e()) }))).push((k_n9(), (if is_zero_s(both) { None } else { Some(enc_plus_s(both).e()) }))) }
pub open spec fn codecs_e(cap: u64, small: u16, both: u64) -> V { V::M(ents(codecs_d(cap, small, both))) }
#[verifier::opaque]
pub open spec fn codecs_take(s: Seq<KV>) -> R<CODECS> { match f_strict::<u128>(s, k_n9()) { Err(e) => Err(e), Ok((w_both, s)) => match dec_plus_s(w_both) { Err(e) => Err(e), Ok(m_both) => match f_strict::<u64>(s, k_cap()) { Err(e) => Err(e), Ok((m_cap, s)) => match f_strict::<u16>(s, k_small()) { Err(e) => Err(e), Ok((w_small, s)) => match dec_small_s(w_small) { Err(e) => Err(e), Ok(m_small) => if s.len() > 0 { Err::<CODECS, DecodeError>(DecodeError::UnknownField) } else { Ok::<CODECS, DecodeError>((m_cap, m_small, m_both)) } } } } } } }
pub open spec fn codecs_dec(v: V) -> R<CODECS> { match v { V::M(s) => codecs_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn codecs_rt(cap: u64, small: u16, both: u64) -> bool { 
    &&& enc_cap_s(cap).rt_top() && enc_cap_s(cap).m() == cap.m()
    &&& small.rt_top() && dec_small_s(small.m()) == Ok::<<u16 as Ty>::M, DecodeError>(small.m()) && !small.lost()
    &&& enc_plus_s(both).rt_top() && dec_plus_s(enc_plus_s(both).m()) == Ok::<<u64 as Ty>::M, DecodeError>(both.m()) && (is_zero_s(both) ==> d_top::<u128>(null()) == Ok::<<u128 as Ty>::M, DecodeError>(enc_plus_s(both).m())) }
pub open spec fn codecs_ks() -> Seq<V> { seq![k_n9(), k_cap(), k_small()] }
pub proof fn codecs_keys()
    ensures plain(k_n9()), plain(k_cap()), plain(k_small()), ord(k_n9(), k_cap()) is Less, ord(k_n9(), k_small()) is Less, ord(k_cap(), k_small()) is Less
{
    lemma_text_less(seq![99u8, 97u8, 112u8], seq![115u8, 109u8, 97u8, 108u8, 108u8], 0);
    k_cap_lit();
    k_small_lit();
}
proof fn codecs_chain(l: Seq<KO>, w_both: <u128 as Ty>::M, w_cap: <u64 as Ty>::M, w_small: <u16 as Ty>::M, m_both: <u64 as Ty>::M, m_small: <u16 as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_n9(), d_top::<u128>(or_null(l[0].1)) == Ok::<<u128 as Ty>::M, DecodeError>(w_both), l[1].0 == k_cap(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_cap), l[2].0 == k_small(), d_top::<u16>(or_null(l[2].1)) == Ok::<<u16 as Ty>::M, DecodeError>(w_small), dec_plus_s(w_both) == Ok::<<u64 as Ty>::M, DecodeError>(m_both), dec_small_s(w_small) == Ok::<<u16 as Ty>::M, DecodeError>(m_small)
    ensures codecs_take(ents(l)) == Ok::<CODECS, DecodeError>((w_cap, m_small, m_both))
{
    
    reveal(codecs_take); let l0 = l;
    lemma_field_step::<u128>(l0, w_both); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_cap); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u16>(l2, w_small); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn codecs_back(cap: u64, small: u16, both: u64)
    requires codecs_rt(cap, small, both)
    ensures codecs_dec(codecs_e(cap, small, both)) == Ok::<CODECS, DecodeError>(codecs_m(cap, small, both)), codecs_dec(norm(codecs_e(cap, small, both))) == Ok::<CODECS, DecodeError>(codecs_m(cap, small, both)), wf(codecs_e(cap, small, both)), !has_dup(codecs_e(cap, small, both))
{
    
    codecs_keys();
    lemma_required::<u64>(enc_cap_s(cap));
    lemma_optional::<u16>(small);
    lemma_required::<u128>(enc_plus_s(both));
    let dd = codecs_d(cap, small, both);
    let ll: Seq<KO> = seq![dd[2], dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![2int, 0int, 1int], seq![1int, 2int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    codecs_chain(ll, enc_plus_s(both).m(), enc_cap_s(cap).m(), small.m(), both.m(), small.m());
    codecs_chain(normo(ll), enc_plus_s(both).m(), enc_cap_s(cap).m(), small.m(), both.m(), small.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_codecs(cap: u64, small: u16, both: u64)
    ensures lookup(ents(codecs_d(cap, small, both)), k_cap()) == Some(enc_cap_s(cap).e()), lookup(ents(codecs_d(cap, small, both)), k_small()) == (if small.omit() { None } else { Some(small.e()) }), lookup(ents(codecs_d(cap, small, both)), k_n9()) == (if is_zero_s(both) { None } else { Some(enc_plus_s(both).e()) })
{
    
    codecs_keys();
    let dd = codecs_d(cap, small, both);
    lemma_ord_refl(k_n9());    lemma_ord_refl(k_cap());    lemma_ord_refl(k_small());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_codecs(s: Seq<KV>)
    ensures codecs_dec(V::M(s)) is Ok ==> declared(s, codecs_ks()), codecs_dec(V::M(s)) is Ok ==> codecs_found(s)
{
    
    if codecs_dec(V::M(s)) is Ok {
        codecs_keys(); reveal(codecs_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u128>(s0, k_n9())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_cap())->Ok_0.1;
        let s3 = f_strict::<u16>(s2, k_small())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_small()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u16>(s2, q2);
        let q1 = seq![k_cap(), k_small()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_n9(), k_cap(), k_small()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u128>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= codecs_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u128>(s0, k_n9()); lemma_loose_step::<u128>(s0, k_n9());
        lemma_strict_loose::<u64>(s1, k_cap()); lemma_loose_step::<u64>(s1, k_cap());
        lemma_strict_loose::<u16>(s2, k_small()); lemma_loose_step::<u16>(s2, k_small());
    }
}
pub open spec fn codecs_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_cap()))) == Ok::<<u64 as Ty>::M, DecodeError>(codecs_dec(V::M(s))->Ok_0.0) && d_top::<u16>(or_null(lookup(s, k_small()))) is Ok && dec_small_s(d_top::<u16>(or_null(lookup(s, k_small())))->Ok_0) == Ok::<<u16 as Ty>::M, DecodeError>(codecs_dec(V::M(s))->Ok_0.1) && d_top::<u128>(or_null(lookup(s, k_n9()))) is Ok && dec_plus_s(d_top::<u128>(or_null(lookup(s, k_n9())))->Ok_0) == Ok::<<u64 as Ty>::M, DecodeError>(codecs_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_codecs_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures codecs_dec(V::M(s)) == codecs_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for Codecs {
    type M = CODECS;
    open spec fn m(self) -> CODECS { codecs_m(self.cap, self.small, self.both) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: CODECS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> CODECS { arbitrary() }
}
proof fn codecs_some(cap: u64, small: u16, both: u64) ensures ents(codecs_d(cap, small, both)).len() > 0 { lemma_ents_at(codecs_d(cap, small, both)); assert(codecs_d(cap, small, both)[0].1 is Some); }
impl Codec for Codecs {
    open spec fn rt(&self) -> bool { codecs_rt(self.cap, self.small, self.both) }
    proof fn back(&self) { codecs_back(self.cap, self.small, self.both); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { codecs_some(self.cap, self.small, self.both); }
}

// ------------------------------------------------------------------ LooseCodecs
pub type LOOSE_CODECS = (<bool as Ty>::M, <u16 as Ty>::M, <u8 as Ty>::M, <u64 as Ty>::M);
pub open spec fn loose_codecs_m(b: bool, a: u16, h: u8, k: u64) -> LOOSE_CODECS { (b.m(), a.m(), h.m(), k.m()) }
pub open spec fn loose_codecs_d(b: bool, a: u16, h: u8, k: u64) -> Seq<KO> { Seq::empty().push((k_b(), Some(enc_not_s(b).e()))).push((k_a(), (if a.omit() { None } else { Some(a.e()) }))).push((k_k(), (if is_odd_s(k) { None } else { Some(k.e()) }))) }
pub open spec fn loose_codecs_e(b: bool, a: u16, h: u8, k: u64) -> V { V::M(ents(loose_codecs_d(b, a, h, k))) }
#[verifier::opaque]
pub open spec fn loose_codecs_take(s: Seq<KV>) -> R<LOOSE_CODECS> { match f_loose::<u16>(s, k_a()) { Err(e) => Err(e), Ok((w_a, s)) => match dec_small_s(w_a) { Err(e) => Err(e), Ok(m_a) => match f_loose::<bool>(s, k_b()) { Err(e) => Err(e), Ok((w_b, s)) => match dec_not_s(w_b) { Err(e) => Err(e), Ok(m_b) => match f_loose::<u64>(s, k_k()) { Err(e) => Err(e), Ok((m_k, s)) => Ok::<LOOSE_CODECS, DecodeError>((m_b, m_a, 0int, m_k)) } } } } } }
pub open spec fn loose_codecs_dec(v: V) -> R<LOOSE_CODECS> { match v { V::M(s) => loose_codecs_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn loose_codecs_rt(b: bool, a: u16, h: u8, k: u64) -> bool { 
    &&& enc_not_s(b).rt_top() && dec_not_s(enc_not_s(b).m()) == Ok::<<bool as Ty>::M, DecodeError>(b.m())
    &&& a.rt_top() && dec_small_s(a.m()) == Ok::<<u16 as Ty>::M, DecodeError>(a.m()) && !a.lost()
    &&& h.m() == 0int
    &&& k.rt_top() && (is_odd_s(k) ==> d_top::<u64>(null()) == Ok::<<u64 as Ty>::M, DecodeError>(k.m())) }
pub open spec fn loose_codecs_ks() -> Seq<V> { seq![k_a(), k_b(), k_k()] }
pub proof fn loose_codecs_keys()
    ensures plain(k_a()), plain(k_b()), plain(k_k()), ord(k_a(), k_b()) is Less, ord(k_a(), k_k()) is Less, ord(k_b(), k_k()) is Less
{
    lemma_text_less(seq![97u8], seq![98u8], 0);
    lemma_text_less(seq![97u8], seq![107u8], 0);
    lemma_text_less(seq![98u8], seq![107u8], 0);
    k_a_lit();
    k_b_lit();
    k_k_lit();
}
proof fn loose_codecs_chain(l: Seq<KO>, w_a: <u16 as Ty>::M, w_b: <bool as Ty>::M, w_k: <u64 as Ty>::M, m_a: <u16 as Ty>::M, m_b: <bool as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_a(), d_top::<u16>(or_null(l[0].1)) == Ok::<<u16 as Ty>::M, DecodeError>(w_a), l[1].0 == k_b(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_b), l[2].0 == k_k(), d_top::<u64>(or_null(l[2].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_k), dec_small_s(w_a) == Ok::<<u16 as Ty>::M, DecodeError>(m_a), dec_not_s(w_b) == Ok::<<bool as Ty>::M, DecodeError>(m_b)
    ensures loose_codecs_take(ents(l)) == Ok::<LOOSE_CODECS, DecodeError>((m_b, m_a, 0int, w_k))
{
    
    reveal(loose_codecs_take); let l0 = l;
    lemma_field_step::<u16>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_b); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u64>(l2, w_k); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn loose_codecs_back(b: bool, a: u16, h: u8, k: u64)
    requires loose_codecs_rt(b, a, h, k)
    ensures loose_codecs_dec(loose_codecs_e(b, a, h, k)) == Ok::<LOOSE_CODECS, DecodeError>(loose_codecs_m(b, a, h, k)), loose_codecs_dec(norm(loose_codecs_e(b, a, h, k))) == Ok::<LOOSE_CODECS, DecodeError>(loose_codecs_m(b, a, h, k)), wf(loose_codecs_e(b, a, h, k)), !has_dup(loose_codecs_e(b, a, h, k))
{
    
    loose_codecs_keys();
    lemma_required::<bool>(enc_not_s(b));
    lemma_optional::<u16>(a);
    lemma_required::<u64>(k);
    let dd = loose_codecs_d(b, a, h, k);
    let ll: Seq<KO> = seq![dd[1], dd[0], dd[2]];
    lemma_rearranged(dd, ll, seq![1int, 0int, 2int], seq![1int, 0int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    loose_codecs_chain(ll, a.m(), enc_not_s(b).m(), k.m(), a.m(), b.m());
    loose_codecs_chain(normo(ll), a.m(), enc_not_s(b).m(), k.m(), a.m(), b.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_loose_codecs(b: bool, a: u16, h: u8, k: u64)
    ensures lookup(ents(loose_codecs_d(b, a, h, k)), k_b()) == Some(enc_not_s(b).e()), lookup(ents(loose_codecs_d(b, a, h, k)), k_a()) == (if a.omit() { None } else { Some(a.e()) }), lookup(ents(loose_codecs_d(b, a, h, k)), k_k()) == (if is_odd_s(k) { None } else { Some(k.e()) })
{
    
    loose_codecs_keys();
    let dd = loose_codecs_d(b, a, h, k);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_b());    lemma_ord_refl(k_k());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_loose_codecs(s: Seq<KV>)
    requires distinct_keys(s)
    ensures loose_codecs_dec(V::M(s)) is Ok ==> loose_codecs_found(s), d_top::<u16>(or_null(lookup(s, k_a()))) is Ok && dec_small_s(d_top::<u16>(or_null(lookup(s, k_a())))->Ok_0) is Ok && d_top::<bool>(or_null(lookup(s, k_b()))) is Ok && dec_not_s(d_top::<bool>(or_null(lookup(s, k_b())))->Ok_0) is Ok && d_top::<u64>(or_null(lookup(s, k_k()))) is Ok ==> loose_codecs_dec(V::M(s)) is Ok
{
    
    loose_codecs_keys(); reveal(loose_codecs_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
    lemma_loose_step::<u16>(s0, k_a()); if f_loose::<u16>(s0, k_a()) is Ok { let s1 = f_loose::<u16>(s0, k_a())->Ok_0.1;
    lemma_loose_step::<bool>(s1, k_b()); if f_loose::<bool>(s1, k_b()) is Ok { let s2 = f_loose::<bool>(s1, k_b())->Ok_0.1;
    lemma_loose_step::<u64>(s2, k_k()); if f_loose::<u64>(s2, k_k()) is Ok { let s3 = f_loose::<u64>(s2, k_k())->Ok_0.1;
}}}}
pub open spec fn loose_codecs_found(s: Seq<KV>) -> bool { d_top::<bool>(or_null(lookup(s, k_b()))) is Ok && dec_not_s(d_top::<bool>(or_null(lookup(s, k_b())))->Ok_0) == Ok::<<bool as Ty>::M, DecodeError>(loose_codecs_dec(V::M(s))->Ok_0.0) && d_top::<u16>(or_null(lookup(s, k_a()))) is Ok && dec_small_s(d_top::<u16>(or_null(lookup(s, k_a())))->Ok_0) == Ok::<<u16 as Ty>::M, DecodeError>(loose_codecs_dec(V::M(s))->Ok_0.1) && d_top::<u64>(or_null(lookup(s, k_k()))) == Ok::<<u64 as Ty>::M, DecodeError>(loose_codecs_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_loose_codecs_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures loose_codecs_dec(V::M(s)) == loose_codecs_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for LooseCodecs {
    type M = LOOSE_CODECS;
    open spec fn m(self) -> LOOSE_CODECS { loose_codecs_m(self.b, self.a, self.h, self.k) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LOOSE_CODECS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LOOSE_CODECS { arbitrary() }
}
proof fn loose_codecs_some(b: bool, a: u16, h: u8, k: u64) ensures ents(loose_codecs_d(b, a, h, k)).len() > 0 { lemma_ents_at(loose_codecs_d(b, a, h, k)); assert(loose_codecs_d(b, a, h, k)[0].1 is Some); }
impl Codec for LooseCodecs {
    open spec fn rt(&self) -> bool { loose_codecs_rt(self.b, self.a, self.h, self.k) }
    proof fn back(&self) { loose_codecs_back(self.b, self.a, self.h, self.k); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { loose_codecs_some(self.b, self.a, self.h, self.k); }
}

// ------------------------------------------------------------------ LooseUnit
pub type LOOSE_UNIT = ();
pub open spec fn loose_unit_m() -> LOOSE_UNIT { () }
pub open spec fn loose_unit_e() -> V { V::M(Seq::empty()) }
pub open spec fn loose_unit_dec(v: V) -> R<LOOSE_UNIT> { match v { V::M(s) => Ok(()), _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn loose_unit_rt() -> bool { true }
pub proof fn loose_unit_back()
    ensures loose_unit_dec(loose_unit_e()) is Ok, norm(loose_unit_e()) == loose_unit_e(), wf(loose_unit_e()), !has_dup(loose_unit_e())
{ lemma_no_entries(); }
impl Ty for LooseUnit {
    type M = LOOSE_UNIT;
    open spec fn m(self) -> LOOSE_UNIT { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LOOSE_UNIT) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LOOSE_UNIT { arbitrary() }
}
pub open spec fn loose_unit_default() -> <LooseUnit as Ty>::M { () }
impl Codec for LooseUnit {
    open spec fn rt(&self) -> bool { true }
    proof fn back(&self) {}
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { true }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ EmptyTup
pub type EMPTY_TUP = ();
pub open spec fn empty_tup_m() -> EMPTY_TUP { () }
pub open spec fn empty_tup_a() -> Seq<V> { Seq::empty() }
pub open spec fn empty_tup_e() -> V { V::A(empty_tup_a()) }
#[verifier::opaque]
pub open spec fn empty_tup_take(s: Seq<V>) -> R<EMPTY_TUP> { if s.len() > 0 { Err::<EMPTY_TUP, DecodeError>(DecodeError::UnknownField) } else { Ok::<EMPTY_TUP, DecodeError>(()) } }
pub open spec fn empty_tup_dec(v: V) -> R<EMPTY_TUP> { match v { V::A(s) => empty_tup_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn empty_tup_rt() -> bool { true }
proof fn empty_tup_chain(s: Seq<V>, )
    requires s.len() == 0
    ensures empty_tup_take(s) == Ok::<EMPTY_TUP, DecodeError>(())
{
    
    reveal(empty_tup_take); let s0 = s;
}
pub proof fn empty_tup_back()
    requires empty_tup_rt()
    ensures empty_tup_dec(empty_tup_e()) == Ok::<EMPTY_TUP, DecodeError>(empty_tup_m()), empty_tup_dec(norm(empty_tup_e())) == Ok::<EMPTY_TUP, DecodeError>(empty_tup_m()), wf(empty_tup_e()), !has_dup(empty_tup_e())
{
    
    let aa = empty_tup_a();
    lemma_arr_fields(aa);
    empty_tup_chain(aa, );
    empty_tup_chain(norms(aa), );
}
/// As many elements as there are fields.
pub proof fn c14_empty_tup(v: V)
    ensures empty_tup_dec(v) is Ok ==> v is A && v->A_0.len() == 0
{ reveal(empty_tup_take); reveal(f_next); }
impl Ty for EmptyTup {
    type M = EMPTY_TUP;
    open spec fn m(self) -> EMPTY_TUP { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: EMPTY_TUP) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> EMPTY_TUP { arbitrary() }
}
pub open spec fn empty_tup_default() -> <EmptyTup as Ty>::M { () }
impl Codec for EmptyTup {
    open spec fn rt(&self) -> bool { empty_tup_rt() }
    proof fn back(&self) { empty_tup_back(); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ EmptyArr
pub type EMPTY_ARR = ();
pub open spec fn empty_arr_m() -> EMPTY_ARR { () }
pub open spec fn empty_arr_a() -> Seq<V> { Seq::empty() }
pub open spec fn empty_arr_e() -> V { V::A(empty_arr_a()) }
#[verifier::opaque]
pub open spec fn empty_arr_take(s: Seq<V>) -> R<EMPTY_ARR> { if s.len() > 0 { Err::<EMPTY_ARR, DecodeError>(DecodeError::UnknownField) } else { Ok::<EMPTY_ARR, DecodeError>(()) } }
pub open spec fn empty_arr_dec(v: V) -> R<EMPTY_ARR> { match v { V::A(s) => empty_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn empty_arr_rt() -> bool { true }
proof fn empty_arr_chain(s: Seq<V>, )
    requires s.len() == 0
    ensures empty_arr_take(s) == Ok::<EMPTY_ARR, DecodeError>(())
{
    
    reveal(empty_arr_take); let s0 = s;
}
pub proof fn empty_arr_back()
    requires empty_arr_rt()
    ensures empty_arr_dec(empty_arr_e()) == Ok::<EMPTY_ARR, DecodeError>(empty_arr_m()), empty_arr_dec(norm(empty_arr_e())) == Ok::<EMPTY_ARR, DecodeError>(empty_arr_m()), wf(empty_arr_e()), !has_dup(empty_arr_e())
{
    
    let aa = empty_arr_a();
    lemma_arr_fields(aa);
    empty_arr_chain(aa, );
    empty_arr_chain(norms(aa), );
}
/// As many elements as there are fields.
pub proof fn c14_empty_arr(v: V)
    ensures empty_arr_dec(v) is Ok ==> v is A && v->A_0.len() == 0
{ reveal(empty_arr_take); reveal(f_next); }
impl Ty for EmptyArr {
    type M = EMPTY_ARR;
    open spec fn m(self) -> EMPTY_ARR { () }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: EMPTY_ARR) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> EMPTY_ARR { arbitrary() }
}
pub open spec fn empty_arr_default() -> <EmptyArr as Ty>::M { () }
impl Codec for EmptyArr {
    open spec fn rt(&self) -> bool { empty_arr_rt() }
    proof fn back(&self) { empty_arr_back(); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ TransBytes
impl Ty for TransBytes {
    type M = (<Vec<u8> as Ty>::M,);
    open spec fn m(self) -> (<Vec<u8> as Ty>::M,) { (self.0.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (<Vec<u8> as Ty>::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (<Vec<u8> as Ty>::M,) { arbitrary() }
}
pub open spec fn trans_bytes_default() -> <TransBytes as Ty>::M { (Seq::<<u8 as Ty>::M>::empty(),) }
impl Codec for TransBytes {
    open spec fn rt(&self) -> bool { self.0.rt_top() }
    proof fn back(&self) { lemma_required(self.0); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.0.rt_top() && (is_null(self.e()) ==> Self::d_def() == Ok::<(<Vec<u8> as Ty>::M,), DecodeError>(self.m())) }
    proof fn back_top(&self) { self.0.back_top(); }
    open spec fn lost(&self) -> bool { self.omit() && Self::d_def() != Ok::<(<Vec<u8> as Ty>::M,), DecodeError>(self.m()) }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ TransOpt2
impl Ty for TransOpt2 {
    type M = (<AllOpt as Ty>::M,);
    open spec fn m(self) -> (<AllOpt as Ty>::M,) { (self.0.m(),) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (<AllOpt as Ty>::M,)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (<AllOpt as Ty>::M,) { arbitrary() }
}
pub open spec fn trans_opt2_default() -> <TransOpt2 as Ty>::M { (all_opt_default(),) }
impl Codec for TransOpt2 {
    open spec fn rt(&self) -> bool { self.0.rt_top() }
    proof fn back(&self) { lemma_required(self.0); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.0.rt_top() && (is_null(self.e()) ==> Self::d_def() == Ok::<(<AllOpt as Ty>::M,), DecodeError>(self.m())) }
    proof fn back_top(&self) { self.0.back_top(); }
    open spec fn lost(&self) -> bool { self.omit() && Self::d_def() != Ok::<(<AllOpt as Ty>::M,), DecodeError>(self.m()) }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ HasTrans
pub type HAS_TRANS = (<TransBytes as Ty>::M, <TransOpt2 as Ty>::M, <Vec<TransBytes> as Ty>::M, <Option<LooseUnit> as Ty>::M);
pub open spec fn has_trans_m(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>) -> HAS_TRANS { (b.m(), o.m(), l.m(), m.m()) }
pub open spec fn has_trans_d(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>) -> Seq<KO> { Seq::empty().push((k_b(), (if b.omit() { None } else { Some(b.e()) }))).push((k_o(), (if o.omit() { None } else { Some(o.e()) }))).push((k_l(), Some(l.e()))).push((k_m(), Some(m.e()))) }
pub open spec fn has_trans_e(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>) -> V { V::M(ents(has_trans_d(b, o, l, m))) }
#[verifier::opaque]
pub open spec fn has_trans_take(s: Seq<KV>) -> R<HAS_TRANS> { match f_strict::<TransBytes>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => match f_strict::<Vec<TransBytes>>(s, k_l()) { Err(e) => Err(e), Ok((m_l, s)) => match f_strict::<Option<LooseUnit>>(s, k_m()) { Err(e) => Err(e), Ok((m_m, s)) => match f_strict::<TransOpt2>(s, k_o()) { Err(e) => Err(e), Ok((m_o, s)) => if s.len() > 0 { Err::<HAS_TRANS, DecodeError>(DecodeError::UnknownField) } else { Ok::<HAS_TRANS, DecodeError>((m_b, m_o, m_l, m_m)) } } } } } }
pub open spec fn has_trans_dec(v: V) -> R<HAS_TRANS> { match v { V::M(s) => has_trans_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn has_trans_rt(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>) -> bool { 
    &&& b.rt_top() && !b.lost()
    &&& o.rt_top() && !o.lost()
    &&& l.rt_top()
    &&& m.rt_top() }
pub open spec fn has_trans_ks() -> Seq<V> { seq![k_b(), k_l(), k_m(), k_o()] }
pub proof fn has_trans_keys()
    ensures plain(k_b()), plain(k_l()), plain(k_m()), plain(k_o()), ord(k_b(), k_l()) is Less, ord(k_b(), k_m()) is Less, ord(k_b(), k_o()) is Less, ord(k_l(), k_m()) is Less, ord(k_l(), k_o()) is Less, ord(k_m(), k_o()) is Less
{
    lemma_text_less(seq![98u8], seq![108u8], 0);
    lemma_text_less(seq![98u8], seq![109u8], 0);
    lemma_text_less(seq![98u8], seq![111u8], 0);
    lemma_text_less(seq![108u8], seq![109u8], 0);
    lemma_text_less(seq![108u8], seq![111u8], 0);
    lemma_text_less(seq![109u8], seq![111u8], 0);
    k_b_lit();
    k_l_lit();
    k_m_lit();
    k_o_lit();
}
proof fn has_trans_chain(l: Seq<KO>, w_b: <TransBytes as Ty>::M, w_l: <Vec<TransBytes> as Ty>::M, w_m: <Option<LooseUnit> as Ty>::M, w_o: <TransOpt2 as Ty>::M)
    requires rising(l), l.len() == 4, l[0].0 == k_b(), d_top::<TransBytes>(or_null(l[0].1)) == Ok::<<TransBytes as Ty>::M, DecodeError>(w_b), l[1].0 == k_l(), d_top::<Vec<TransBytes>>(or_null(l[1].1)) == Ok::<<Vec<TransBytes> as Ty>::M, DecodeError>(w_l), l[2].0 == k_m(), d_top::<Option<LooseUnit>>(or_null(l[2].1)) == Ok::<<Option<LooseUnit> as Ty>::M, DecodeError>(w_m), l[3].0 == k_o(), d_top::<TransOpt2>(or_null(l[3].1)) == Ok::<<TransOpt2 as Ty>::M, DecodeError>(w_o)
    ensures has_trans_take(ents(l)) == Ok::<HAS_TRANS, DecodeError>((w_b, w_o, w_l, w_m))
{
    
    reveal(has_trans_take); let l0 = l;
    lemma_field_step::<TransBytes>(l0, w_b); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Vec<TransBytes>>(l1, w_l); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Option<LooseUnit>>(l2, w_m); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<TransOpt2>(l3, w_o); let l4 = l3.drop_first();
    assert(l4.len() == 0); assert(ents(l4).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn has_trans_back(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>)
    requires has_trans_rt(b, o, l, m)
    ensures has_trans_dec(has_trans_e(b, o, l, m)) == Ok::<HAS_TRANS, DecodeError>(has_trans_m(b, o, l, m)), has_trans_dec(norm(has_trans_e(b, o, l, m))) == Ok::<HAS_TRANS, DecodeError>(has_trans_m(b, o, l, m)), wf(has_trans_e(b, o, l, m)), !has_dup(has_trans_e(b, o, l, m))
{
    
    has_trans_keys();
    lemma_optional::<TransBytes>(b);
    lemma_optional::<TransOpt2>(o);
    lemma_required::<Vec<TransBytes>>(l);
    lemma_required::<Option<LooseUnit>>(m);
    let dd = has_trans_d(b, o, l, m);
    let ll: Seq<KO> = seq![dd[0], dd[2], dd[3], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 2int, 3int, 1int], seq![0int, 3int, 1int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    has_trans_chain(ll, b.m(), l.m(), m.m(), o.m());
    has_trans_chain(normo(ll), b.m(), l.m(), m.m(), o.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_has_trans(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>)
    ensures lookup(ents(has_trans_d(b, o, l, m)), k_b()) == (if b.omit() { None } else { Some(b.e()) }), lookup(ents(has_trans_d(b, o, l, m)), k_o()) == (if o.omit() { None } else { Some(o.e()) }), lookup(ents(has_trans_d(b, o, l, m)), k_l()) == Some(l.e()), lookup(ents(has_trans_d(b, o, l, m)), k_m()) == Some(m.e())
{
    
    has_trans_keys();
    let dd = has_trans_d(b, o, l, m);
    lemma_ord_refl(k_b());    lemma_ord_refl(k_l());    lemma_ord_refl(k_m());    lemma_ord_refl(k_o());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_has_trans(s: Seq<KV>)
    ensures has_trans_dec(V::M(s)) is Ok ==> declared(s, has_trans_ks()), has_trans_dec(V::M(s)) is Ok ==> has_trans_found(s)
{
    
    if has_trans_dec(V::M(s)) is Ok {
        has_trans_keys(); reveal(has_trans_take);
        let s0 = tsort(s);
        let s1 = f_strict::<TransBytes>(s0, k_b())->Ok_0.1;
        let s2 = f_strict::<Vec<TransBytes>>(s1, k_l())->Ok_0.1;
        let s3 = f_strict::<Option<LooseUnit>>(s2, k_m())->Ok_0.1;
        let s4 = f_strict::<TransOpt2>(s3, k_o())->Ok_0.1;
        let q4 = Seq::<V>::empty();
        lemma_declared_none(s4, q4);
        let q3 = seq![k_o()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<TransOpt2>(s3, q3);
        let q2 = seq![k_m(), k_o()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<Option<LooseUnit>>(s2, q2);
        let q1 = seq![k_l(), k_m(), k_o()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Vec<TransBytes>>(s1, q1);
        let q0 = seq![k_b(), k_l(), k_m(), k_o()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<TransBytes>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= has_trans_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<TransBytes>(s0, k_b()); lemma_loose_step::<TransBytes>(s0, k_b());
        lemma_strict_loose::<Vec<TransBytes>>(s1, k_l()); lemma_loose_step::<Vec<TransBytes>>(s1, k_l());
        lemma_strict_loose::<Option<LooseUnit>>(s2, k_m()); lemma_loose_step::<Option<LooseUnit>>(s2, k_m());
        lemma_strict_loose::<TransOpt2>(s3, k_o()); lemma_loose_step::<TransOpt2>(s3, k_o());
    }
}
pub open spec fn has_trans_found(s: Seq<KV>) -> bool { d_top::<TransBytes>(or_null(lookup(s, k_b()))) == Ok::<<TransBytes as Ty>::M, DecodeError>(has_trans_dec(V::M(s))->Ok_0.0) && d_top::<TransOpt2>(or_null(lookup(s, k_o()))) == Ok::<<TransOpt2 as Ty>::M, DecodeError>(has_trans_dec(V::M(s))->Ok_0.1) && d_top::<Vec<TransBytes>>(or_null(lookup(s, k_l()))) == Ok::<<Vec<TransBytes> as Ty>::M, DecodeError>(has_trans_dec(V::M(s))->Ok_0.2) && d_top::<Option<LooseUnit>>(or_null(lookup(s, k_m()))) == Ok::<<Option<LooseUnit> as Ty>::M, DecodeError>(has_trans_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_has_trans_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures has_trans_dec(V::M(s)) == has_trans_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for HasTrans {
    type M = HAS_TRANS;
    open spec fn m(self) -> HAS_TRANS { has_trans_m(self.b, self.o, self.l, self.m) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: HAS_TRANS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> HAS_TRANS { arbitrary() }
}
proof fn has_trans_some(b: TransBytes, o: TransOpt2, l: Vec<TransBytes>, m: Option<LooseUnit>) ensures ents(has_trans_d(b, o, l, m)).len() > 0 { lemma_ents_at(has_trans_d(b, o, l, m)); assert(has_trans_d(b, o, l, m)[2].1 is Some); }
impl Codec for HasTrans {
    open spec fn rt(&self) -> bool { has_trans_rt(self.b, self.o, self.l, self.m) }
    proof fn back(&self) { has_trans_back(self.b, self.o, self.l, self.m); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { has_trans_some(self.b, self.o, self.l, self.m); }
}

// ------------------------------------------------------------------ ArrSkips
pub type ARR_SKIPS = (<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn arr_skips_m(h: u8, a: u64, i: u64, b: u64) -> ARR_SKIPS { (h.m(), a.m(), i.m(), b.m()) }
pub open spec fn arr_skips_a(h: u8, a: u64, i: u64, b: u64) -> Seq<V> { Seq::empty().push(a.e()).push(b.e()) }
pub open spec fn arr_skips_e(h: u8, a: u64, i: u64, b: u64) -> V { V::A(arr_skips_a(h, a, i, b)) }
#[verifier::opaque]
pub open spec fn arr_skips_take(s: Seq<V>) -> R<ARR_SKIPS> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_a, s)) => match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_b, s)) => if s.len() > 0 { Err::<ARR_SKIPS, DecodeError>(DecodeError::UnknownField) } else { Ok::<ARR_SKIPS, DecodeError>((0int, m_a, 0int, m_b)) } } } }
pub open spec fn arr_skips_dec(v: V) -> R<ARR_SKIPS> { match v { V::A(s) => arr_skips_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn arr_skips_rt(h: u8, a: u64, i: u64, b: u64) -> bool { 
    &&& h.m() == 0int
    &&& a.rt_top()
    &&& i.m() == 0int
    &&& b.rt_top() }
proof fn arr_skips_chain(s: Seq<V>, w_a: <u64 as Ty>::M, w_b: <u64 as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), d_top::<u64>(s[1]) == Ok::<<u64 as Ty>::M, DecodeError>(w_b)
    ensures arr_skips_take(s) == Ok::<ARR_SKIPS, DecodeError>((0int, w_a, 0int, w_b))
{
    
    reveal(arr_skips_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_a); let s1 = s0.drop_first();
    lemma_next_step::<u64>(s1, w_b); let s2 = s1.drop_first();
}
pub proof fn arr_skips_back(h: u8, a: u64, i: u64, b: u64)
    requires arr_skips_rt(h, a, i, b)
    ensures arr_skips_dec(arr_skips_e(h, a, i, b)) == Ok::<ARR_SKIPS, DecodeError>(arr_skips_m(h, a, i, b)), arr_skips_dec(norm(arr_skips_e(h, a, i, b))) == Ok::<ARR_SKIPS, DecodeError>(arr_skips_m(h, a, i, b)), wf(arr_skips_e(h, a, i, b)), !has_dup(arr_skips_e(h, a, i, b))
{
    
    lemma_required::<u64>(a);
    lemma_required::<u64>(b);
    let aa = arr_skips_a(h, a, i, b);
    lemma_arr_fields(aa);
    arr_skips_chain(aa, a.m(), b.m());
    arr_skips_chain(norms(aa), a.m(), b.m());
}
/// As many elements as there are fields.
pub proof fn c14_arr_skips(v: V)
    ensures arr_skips_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(arr_skips_take); reveal(f_next); }
impl Ty for ArrSkips {
    type M = ARR_SKIPS;
    open spec fn m(self) -> ARR_SKIPS { arr_skips_m(self.h, self.a, self.i, self.b) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ARR_SKIPS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ARR_SKIPS { arbitrary() }
}
pub open spec fn arr_skips_default() -> <ArrSkips as Ty>::M { (0int, 0int, 0int, 0int) }
impl Codec for ArrSkips {
    open spec fn rt(&self) -> bool { arr_skips_rt(self.h, self.a, self.i, self.b) }
    proof fn back(&self) { arr_skips_back(self.h, self.a, self.i, self.b); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ TupSkips
pub type TUP_SKIPS = (<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M, <Option<u64> as Ty>::M);
pub open spec fn tup_skips_m(f0: u8, f1: u64, f2: u64, f3: Option<u64>) -> TUP_SKIPS { (f0.m(), f1.m(), f2.m(), f3.m()) }
pub open spec fn tup_skips_a(f0: u8, f1: u64, f2: u64, f3: Option<u64>) -> Seq<V> { Seq::empty().push(f1.e()).push(f3.e()) }
pub open spec fn tup_skips_e(f0: u8, f1: u64, f2: u64, f3: Option<u64>) -> V { V::A(tup_skips_a(f0, f1, f2, f3)) }
#[verifier::opaque]
pub open spec fn tup_skips_take(s: Seq<V>) -> R<TUP_SKIPS> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f1, s)) => match f_next::<Option<u64>>(s) { Err(e) => Err(e), Ok((m_f3, s)) => if s.len() > 0 { Err::<TUP_SKIPS, DecodeError>(DecodeError::UnknownField) } else { Ok::<TUP_SKIPS, DecodeError>((0int, m_f1, 0int, m_f3)) } } } }
pub open spec fn tup_skips_dec(v: V) -> R<TUP_SKIPS> { match v { V::A(s) => tup_skips_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tup_skips_rt(f0: u8, f1: u64, f2: u64, f3: Option<u64>) -> bool { 
    &&& f0.m() == 0int
    &&& f1.rt_top()
    &&& f2.m() == 0int
    &&& f3.rt_top() }
proof fn tup_skips_chain(s: Seq<V>, w_f1: <u64 as Ty>::M, w_f3: <Option<u64> as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f1), d_top::<Option<u64>>(s[1]) == Ok::<<Option<u64> as Ty>::M, DecodeError>(w_f3)
    ensures tup_skips_take(s) == Ok::<TUP_SKIPS, DecodeError>((0int, w_f1, 0int, w_f3))
{
    
    reveal(tup_skips_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f1); let s1 = s0.drop_first();
    lemma_next_step::<Option<u64>>(s1, w_f3); let s2 = s1.drop_first();
}
pub proof fn tup_skips_back(f0: u8, f1: u64, f2: u64, f3: Option<u64>)
    requires tup_skips_rt(f0, f1, f2, f3)
    ensures tup_skips_dec(tup_skips_e(f0, f1, f2, f3)) == Ok::<TUP_SKIPS, DecodeError>(tup_skips_m(f0, f1, f2, f3)), tup_skips_dec(norm(tup_skips_e(f0, f1, f2, f3))) == Ok::<TUP_SKIPS, DecodeError>(tup_skips_m(f0, f1, f2, f3)), wf(tup_skips_e(f0, f1, f2, f3)), !has_dup(tup_skips_e(f0, f1, f2, f3))
{
    
    lemma_required::<u64>(f1);
    lemma_required::<Option<u64>>(f3);
    let aa = tup_skips_a(f0, f1, f2, f3);
    lemma_arr_fields(aa);
    tup_skips_chain(aa, f1.m(), f3.m());
    tup_skips_chain(norms(aa), f1.m(), f3.m());
}
/// As many elements as there are fields.
pub proof fn c14_tup_skips(v: V)
    ensures tup_skips_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(tup_skips_take); reveal(f_next); }
impl Ty for TupSkips {
    type M = TUP_SKIPS;
    open spec fn m(self) -> TUP_SKIPS { tup_skips_m(self.0, self.1, self.2, self.3) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TUP_SKIPS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TUP_SKIPS { arbitrary() }
}
pub open spec fn tup_skips_default() -> <TupSkips as Ty>::M { (0int, 0int, 0int, None::<<u64 as Ty>::M>) }
impl Codec for TupSkips {
    open spec fn rt(&self) -> bool { tup_skips_rt(self.0, self.1, self.2, self.3) }
    proof fn back(&self) { tup_skips_back(self.0, self.1, self.2, self.3); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {  }
}

// ------------------------------------------------------------------ Gen
pub open spec fn gen_m<T: Encode + Decode>(one: T, o: Option<T>) -> (<T as Ty>::M, <Option<T> as Ty>::M) { (one.m(), o.m()) }
pub open spec fn gen_d<T: Encode + Decode>(one: T, o: Option<T>) -> Seq<KO> { Seq::empty().push((k_one(), Some(one.e()))).push((k_o(), Some(o.e()))) }
pub open spec fn gen_e<T: Encode + Decode>(one: T, o: Option<T>) -> V { V::M(ents(gen_d(one, o))) }
#[verifier::opaque]
pub open spec fn gen_take<T: Encode + Decode>(s: Seq<KV>) -> R<(<T as Ty>::M, <Option<T> as Ty>::M)> { match f_strict::<Option<T>>(s, k_o()) { Err(e) => Err(e), Ok((m_o, s)) => match f_strict::<T>(s, k_one()) { Err(e) => Err(e), Ok((m_one, s)) => if s.len() > 0 { Err::<(<T as Ty>::M, <Option<T> as Ty>::M), DecodeError>(DecodeError::UnknownField) } else { Ok::<(<T as Ty>::M, <Option<T> as Ty>::M), DecodeError>((m_one, m_o)) } } } }
pub open spec fn gen_dec<T: Encode + Decode>(v: V) -> R<(<T as Ty>::M, <Option<T> as Ty>::M)> { match v { V::M(s) => gen_take::<T>(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn gen_rt<T: Codec>(one: T, o: Option<T>) -> bool { 
    &&& one.rt_top()
    &&& o.rt_top() }
pub open spec fn gen_ks() -> Seq<V> { seq![k_o(), k_one()] }
pub proof fn gen_keys()
    ensures plain(k_o()), plain(k_one()), ord(k_o(), k_one()) is Less
{
    lemma_text_less(seq![111u8], seq![111u8, 110u8, 101u8], 0);
    k_o_lit();
    k_one_lit();
}
proof fn gen_chain<T: Codec>(l: Seq<KO>, w_o: <Option<T> as Ty>::M, w_one: <T as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_o(), d_top::<Option<T>>(or_null(l[0].1)) == Ok::<<Option<T> as Ty>::M, DecodeError>(w_o), l[1].0 == k_one(), d_top::<T>(or_null(l[1].1)) == Ok::<<T as Ty>::M, DecodeError>(w_one)
    ensures gen_take::<T>(ents(l)) == Ok::<(<T as Ty>::M, <Option<T> as Ty>::M), DecodeError>((w_one, w_o))
{
    
    reveal(gen_take); let l0 = l;
    lemma_field_step::<Option<T>>(l0, w_o); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<T>(l1, w_one); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn gen_back<T: Codec>(one: T, o: Option<T>)
    requires gen_rt(one, o)
    ensures gen_dec::<T>(gen_e(one, o)) == Ok::<(<T as Ty>::M, <Option<T> as Ty>::M), DecodeError>(gen_m(one, o)), gen_dec::<T>(norm(gen_e(one, o))) == Ok::<(<T as Ty>::M, <Option<T> as Ty>::M), DecodeError>(gen_m(one, o)), wf(gen_e(one, o)), !has_dup(gen_e(one, o))
{
    
    gen_keys();
    lemma_required::<T>(one);
    lemma_required::<Option<T>>(o);
    let dd = gen_d(one, o);
    let ll: Seq<KO> = seq![dd[1], dd[0]];
    lemma_rearranged(dd, ll, seq![1int, 0int], seq![1int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    gen_chain::<T>(ll, o.m(), one.m());
    gen_chain::<T>(normo(ll), o.m(), one.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_gen<T: Codec>(one: T, o: Option<T>)
    ensures lookup(ents(gen_d(one, o)), k_one()) == Some(one.e()), lookup(ents(gen_d(one, o)), k_o()) == Some(o.e())
{
    
    gen_keys();
    let dd = gen_d(one, o);
    lemma_ord_refl(k_o());    lemma_ord_refl(k_one());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_gen<T: Encode + Decode>(s: Seq<KV>)
    ensures gen_dec::<T>(V::M(s)) is Ok ==> declared(s, gen_ks()), gen_dec::<T>(V::M(s)) is Ok ==> gen_found::<T>(s)
{
    
    if gen_dec::<T>(V::M(s)) is Ok {
        gen_keys(); reveal(gen_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Option<T>>(s0, k_o())->Ok_0.1;
        let s2 = f_strict::<T>(s1, k_one())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_one()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<T>(s1, q1);
        let q0 = seq![k_o(), k_one()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Option<T>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= gen_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Option<T>>(s0, k_o()); lemma_loose_step::<Option<T>>(s0, k_o());
        lemma_strict_loose::<T>(s1, k_one()); lemma_loose_step::<T>(s1, k_one());
    }
}
pub open spec fn gen_found<T: Encode + Decode>(s: Seq<KV>) -> bool { d_top::<T>(or_null(lookup(s, k_one()))) == Ok::<<T as Ty>::M, DecodeError>(gen_dec::<T>(V::M(s))->Ok_0.0) && d_top::<Option<T>>(or_null(lookup(s, k_o()))) == Ok::<<Option<T> as Ty>::M, DecodeError>(gen_dec::<T>(V::M(s))->Ok_0.1) }
pub proof fn c14_gen_order<T: Encode + Decode>(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures gen_dec::<T>(V::M(s)) == gen_dec::<T>(V::M(t))
{ lemma_tsort_same(s, t); }
impl<T: Encode + Decode> Ty for Gen<T> {
    type M = (<T as Ty>::M, <Option<T> as Ty>::M);
    open spec fn m(self) -> (<T as Ty>::M, <Option<T> as Ty>::M) { gen_m(self.one, self.o) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: (<T as Ty>::M, <Option<T> as Ty>::M)) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> (<T as Ty>::M, <Option<T> as Ty>::M) { arbitrary() }
}
proof fn gen_some<T: Codec>(one: T, o: Option<T>) ensures ents(gen_d(one, o)).len() > 0 { lemma_ents_at(gen_d(one, o)); assert(gen_d(one, o)[0].1 is Some); }
impl<T: Codec> Codec for Gen<T> {
    open spec fn rt(&self) -> bool { gen_rt::<T>(self.one, self.o) }
    proof fn back(&self) { gen_back(self.one, self.o); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { gen_some(self.one, self.o); }
}

// ------------------------------------------------------------------ Units
#[allow(inconsistent_fields)]
pub enum UnitsM { A, B, C, D }
impl Ty for Units {
    type M = UnitsM;
    open spec fn m(self) -> UnitsM { match self { Units::A => UnitsM::A, Units::B => UnitsM::B, Units::C => UnitsM::C, Units::D => UnitsM::D } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: UnitsM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> UnitsM { arbitrary() }
}
pub open spec fn units_bare(v: V) -> R<UnitsM> { if v == k_A() { Ok(UnitsM::A) } else { if v == k_bee() { Ok(UnitsM::B) } else { if v == k_C() { Ok(UnitsM::C) } else { if v == k_n5() { Ok(UnitsM::D) } else { Err(DecodeError::UnknownField) } } } } }
pub open spec fn units_dec(v: V) -> R<UnitsM> { units_bare(v) }
pub proof fn units_differ()
    ensures k_A() != k_bee(), k_A() != k_C(), k_A() != k_n5(), k_bee() != k_C(), k_bee() != k_n5(), k_C() != k_n5()
{
    lemma_texts_differ(seq![65u8], seq![98u8, 101u8, 101u8], 0);
    lemma_texts_differ(seq![65u8], seq![67u8], 0);
    lemma_texts_differ(seq![98u8, 101u8, 101u8], seq![67u8], 0);
}
impl Codec for Units {
    open spec fn rt(&self) -> bool { match *self { Units::A => true, Units::B => true, Units::C => true, Units::D => true } }
    proof fn back(&self) {
        units_differ(); k_A_lit(); k_bee_lit(); k_C_lit();
        match *self { Units::A => { assert(norm(self.e()) == self.e()); } Units::B => { assert(norm(self.e()) == self.e()); } Units::C => { assert(norm(self.e()) == self.e()); } Units::D => { assert(norm(self.e()) == self.e()); } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<UnitsM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Disc
#[allow(inconsistent_fields)]
pub enum DiscM { A, B, C, D }
impl Ty for Disc {
    type M = DiscM;
    open spec fn m(self) -> DiscM { match self { Disc::A => DiscM::A, Disc::B => DiscM::B, Disc::C => DiscM::C, Disc::D => DiscM::D } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: DiscM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> DiscM { arbitrary() }
}
pub open spec fn disc_bare(v: V) -> R<DiscM> { if v == k_n0() { Ok(DiscM::A) } else { if v == k_m3() { Ok(DiscM::B) } else { if v == k_n300() { Ok(DiscM::C) } else { if v == k_n70000() { Ok(DiscM::D) } else { Err(DecodeError::UnknownField) } } } } }
pub open spec fn disc_dec(v: V) -> R<DiscM> { disc_bare(v) }
pub open spec fn disc_default() -> DiscM { DiscM::D }
pub proof fn disc_differ()
    ensures k_n0() != k_m3(), k_n0() != k_n300(), k_n0() != k_n70000(), k_m3() != k_n300(), k_m3() != k_n70000(), k_n300() != k_n70000()
{
}
impl Codec for Disc {
    open spec fn rt(&self) -> bool { match *self { Disc::A => true, Disc::B => true, Disc::C => true, Disc::D => true } }
    proof fn back(&self) {
        disc_differ(); 
        match *self { Disc::A => { assert(norm(self.e()) == self.e()); } Disc::B => { assert(norm(self.e()) == self.e()); } Disc::C => { assert(norm(self.e()) == self.e()); } Disc::D => { assert(norm(self.e()) == self.e()); } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<DiscM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Mixed
pub type MIXED_PAIR = (<u64 as Ty>::M, <Option<bool> as Ty>::M);
pub open spec fn mixed_pair_m(f0: u64, f1: Option<bool>) -> MIXED_PAIR { (f0.m(), f1.m()) }
pub open spec fn mixed_pair_a(f0: u64, f1: Option<bool>) -> Seq<V> { Seq::empty().push(f0.e()).push(f1.e()) }
pub open spec fn mixed_pair_e(f0: u64, f1: Option<bool>) -> V { V::A(mixed_pair_a(f0, f1)) }
#[verifier::opaque]
pub open spec fn mixed_pair_take(s: Seq<V>) -> R<MIXED_PAIR> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f0, s)) => match f_next::<Option<bool>>(s) { Err(e) => Err(e), Ok((m_f1, s)) => if s.len() > 0 { Err::<MIXED_PAIR, DecodeError>(DecodeError::UnknownField) } else { Ok::<MIXED_PAIR, DecodeError>((m_f0, m_f1)) } } } }
pub open spec fn mixed_pair_dec(v: V) -> R<MIXED_PAIR> { match v { V::A(s) => mixed_pair_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn mixed_pair_rt(f0: u64, f1: Option<bool>) -> bool { 
    &&& f0.rt_top()
    &&& f1.rt_top() }
proof fn mixed_pair_chain(s: Seq<V>, w_f0: <u64 as Ty>::M, w_f1: <Option<bool> as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f0), d_top::<Option<bool>>(s[1]) == Ok::<<Option<bool> as Ty>::M, DecodeError>(w_f1)
    ensures mixed_pair_take(s) == Ok::<MIXED_PAIR, DecodeError>((w_f0, w_f1))
{
    
    reveal(mixed_pair_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f0); let s1 = s0.drop_first();
    lemma_next_step::<Option<bool>>(s1, w_f1); let s2 = s1.drop_first();
}
pub proof fn mixed_pair_back(f0: u64, f1: Option<bool>)
    requires mixed_pair_rt(f0, f1)
    ensures mixed_pair_dec(mixed_pair_e(f0, f1)) == Ok::<MIXED_PAIR, DecodeError>(mixed_pair_m(f0, f1)), mixed_pair_dec(norm(mixed_pair_e(f0, f1))) == Ok::<MIXED_PAIR, DecodeError>(mixed_pair_m(f0, f1)), wf(mixed_pair_e(f0, f1)), !has_dup(mixed_pair_e(f0, f1))
{
    
    lemma_required::<u64>(f0);
    lemma_required::<Option<bool>>(f1);
    let aa = mixed_pair_a(f0, f1);
    lemma_arr_fields(aa);
    mixed_pair_chain(aa, f0.m(), f1.m());
    mixed_pair_chain(norms(aa), f0.m(), f1.m());
}
/// As many elements as there are fields.
pub proof fn c14_mixed_pair(v: V)
    ensures mixed_pair_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(mixed_pair_take); reveal(f_next); }
pub type MIXED_REC = (<u64 as Ty>::M, <Option<String> as Ty>::M);
pub open spec fn mixed_rec_m(b: u64, a: Option<String>) -> MIXED_REC { (b.m(), a.m()) }
pub open spec fn mixed_rec_d(b: u64, a: Option<String>) -> Seq<KO> { Seq::empty().push((k_b(), Some(b.e()))).push((k_a(), (if a.omit() { None } else { Some(a.e()) }))) }
pub open spec fn mixed_rec_e(b: u64, a: Option<String>) -> V { V::M(ents(mixed_rec_d(b, a))) }
#[verifier::opaque]
pub open spec fn mixed_rec_take(s: Seq<KV>) -> R<MIXED_REC> { match f_strict::<Option<String>>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<u64>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => if s.len() > 0 { Err::<MIXED_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<MIXED_REC, DecodeError>((m_b, m_a)) } } } }
pub open spec fn mixed_rec_dec(v: V) -> R<MIXED_REC> { match v { V::M(s) => mixed_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn mixed_rec_rt(b: u64, a: Option<String>) -> bool { 
    &&& b.rt_top()
    &&& a.rt_top() && !a.lost() }
pub open spec fn mixed_rec_ks() -> Seq<V> { seq![k_a(), k_b()] }
pub proof fn mixed_rec_keys()
    ensures plain(k_a()), plain(k_b()), ord(k_a(), k_b()) is Less
{
    lemma_text_less(seq![97u8], seq![98u8], 0);
    k_a_lit();
    k_b_lit();
}
proof fn mixed_rec_chain(l: Seq<KO>, w_a: <Option<String> as Ty>::M, w_b: <u64 as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<Option<String>>(or_null(l[0].1)) == Ok::<<Option<String> as Ty>::M, DecodeError>(w_a), l[1].0 == k_b(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_b)
    ensures mixed_rec_take(ents(l)) == Ok::<MIXED_REC, DecodeError>((w_b, w_a))
{
    
    reveal(mixed_rec_take); let l0 = l;
    lemma_field_step::<Option<String>>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_b); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn mixed_rec_back(b: u64, a: Option<String>)
    requires mixed_rec_rt(b, a)
    ensures mixed_rec_dec(mixed_rec_e(b, a)) == Ok::<MIXED_REC, DecodeError>(mixed_rec_m(b, a)), mixed_rec_dec(norm(mixed_rec_e(b, a))) == Ok::<MIXED_REC, DecodeError>(mixed_rec_m(b, a)), wf(mixed_rec_e(b, a)), !has_dup(mixed_rec_e(b, a))
{
    
    mixed_rec_keys();
    lemma_required::<u64>(b);
    lemma_optional::<Option<String>>(a);
    let dd = mixed_rec_d(b, a);
    let ll: Seq<KO> = seq![dd[1], dd[0]];
    lemma_rearranged(dd, ll, seq![1int, 0int], seq![1int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    mixed_rec_chain(ll, a.m(), b.m());
    mixed_rec_chain(normo(ll), a.m(), b.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_mixed_rec(b: u64, a: Option<String>)
    ensures lookup(ents(mixed_rec_d(b, a)), k_b()) == Some(b.e()), lookup(ents(mixed_rec_d(b, a)), k_a()) == (if a.omit() { None } else { Some(a.e()) })
{
    
    mixed_rec_keys();
    let dd = mixed_rec_d(b, a);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_b());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_mixed_rec(s: Seq<KV>)
    ensures mixed_rec_dec(V::M(s)) is Ok ==> declared(s, mixed_rec_ks()), mixed_rec_dec(V::M(s)) is Ok ==> mixed_rec_found(s)
{
    
    if mixed_rec_dec(V::M(s)) is Ok {
        mixed_rec_keys(); reveal(mixed_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Option<String>>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_b())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_b()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_a(), k_b()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Option<String>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= mixed_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Option<String>>(s0, k_a()); lemma_loose_step::<Option<String>>(s0, k_a());
        lemma_strict_loose::<u64>(s1, k_b()); lemma_loose_step::<u64>(s1, k_b());
    }
}
pub open spec fn mixed_rec_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_b()))) == Ok::<<u64 as Ty>::M, DecodeError>(mixed_rec_dec(V::M(s))->Ok_0.0) && d_top::<Option<String>>(or_null(lookup(s, k_a()))) == Ok::<<Option<String> as Ty>::M, DecodeError>(mixed_rec_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_mixed_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures mixed_rec_dec(V::M(s)) == mixed_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum MixedM { Nothing, New(<u64 as Ty>::M), Pair((<u64 as Ty>::M, <Option<bool> as Ty>::M)), Rec((<u64 as Ty>::M, <Option<String> as Ty>::M)), Gone(<u64 as Ty>::M) }
impl Ty for Mixed {
    type M = MixedM;
    open spec fn m(self) -> MixedM { match self { Mixed::Nothing => MixedM::Nothing, Mixed::New(inner) => MixedM::New(inner.m()), Mixed::Pair(f0, f1) => MixedM::Pair((f0.m(), f1.m())), Mixed::Rec { b, a } => MixedM::Rec((b.m(), a.m())), Mixed::Gone(inner) => MixedM::Gone(inner.m()) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: MixedM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> MixedM { arbitrary() }
}
pub open spec fn mixed_bare(v: V) -> R<MixedM> { if v == k_Nothing() { Ok(MixedM::Nothing) } else { Err(DecodeError::UnknownField) } }
pub open spec fn mixed_by(k: V, x: V) -> R<MixedM> { if k == k_New() { match d_top::<u64>(x) { Ok(m) => Ok(MixedM::New(m)), Err(e) => Err(e) } } else { if k == k_Pair() { match mixed_pair_dec(x) { Ok(m) => Ok(MixedM::Pair(m)), Err(e) => Err(e) } } else { if k == k_r() { match mixed_rec_dec(x) { Ok(m) => Ok(MixedM::Rec(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn mixed_dec(v: V) -> R<MixedM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { mixed_by(s[0].0, s[0].1) }, _ => mixed_bare(v) } }
pub proof fn mixed_differ()
    ensures k_Nothing() != k_New(), k_Nothing() != k_Pair(), k_Nothing() != k_r(), k_New() != k_Pair(), k_New() != k_r(), k_Pair() != k_r()
{
    lemma_texts_differ(seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8], seq![78u8, 101u8, 119u8], 0);
    lemma_texts_differ(seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8], seq![80u8, 97u8, 105u8, 114u8], 0);
    lemma_texts_differ(seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8], seq![114u8], 0);
    lemma_texts_differ(seq![78u8, 101u8, 119u8], seq![80u8, 97u8, 105u8, 114u8], 0);
    lemma_texts_differ(seq![78u8, 101u8, 119u8], seq![114u8], 0);
    lemma_texts_differ(seq![80u8, 97u8, 105u8, 114u8], seq![114u8], 0);
}
impl Codec for Mixed {
    open spec fn rt(&self) -> bool { match *self { Mixed::Nothing => true, Mixed::New(inner) => inner.rt_top(), Mixed::Pair(f0, f1) => mixed_pair_rt(f0, f1), Mixed::Rec { b, a } => mixed_rec_rt(b, a), Mixed::Gone(inner) => false } }
    proof fn back(&self) {
        mixed_differ(); k_Nothing_lit(); k_New_lit(); k_Pair_lit(); k_r_lit();
        match *self { Mixed::Nothing => { assert(norm(self.e()) == self.e()); } Mixed::New(inner) => { lemma_required(inner); lemma_one(k_New(), inner.e());  } Mixed::Pair(f0, f1) => { mixed_pair_back(f0, f1); lemma_one(k_Pair(), mixed_pair_e(f0, f1));  } Mixed::Rec { b, a } => { mixed_rec_back(b, a); lemma_one(k_r(), mixed_rec_e(b, a));  } Mixed::Gone(inner) => {  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<MixedM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Shapes
pub type SHAPES_ARR = (<u64 as Ty>::M, <u8 as Ty>::M, <bool as Ty>::M);
pub open spec fn shapes_arr_m(x: u64, h: u8, y: bool) -> SHAPES_ARR { (x.m(), h.m(), y.m()) }
pub open spec fn shapes_arr_a(x: u64, h: u8, y: bool) -> Seq<V> { Seq::empty().push(x.e()).push(y.e()) }
pub open spec fn shapes_arr_e(x: u64, h: u8, y: bool) -> V { V::A(shapes_arr_a(x, h, y)) }
#[verifier::opaque]
pub open spec fn shapes_arr_take(s: Seq<V>) -> R<SHAPES_ARR> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_x, s)) => match f_next::<bool>(s) { Err(e) => Err(e), Ok((m_y, s)) => if s.len() > 0 { Err::<SHAPES_ARR, DecodeError>(DecodeError::UnknownField) } else { Ok::<SHAPES_ARR, DecodeError>((m_x, 0int, m_y)) } } } }
pub open spec fn shapes_arr_dec(v: V) -> R<SHAPES_ARR> { match v { V::A(s) => shapes_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn shapes_arr_rt(x: u64, h: u8, y: bool) -> bool { 
    &&& x.rt_top()
    &&& h.m() == 0int
    &&& y.rt_top() }
proof fn shapes_arr_chain(s: Seq<V>, w_x: <u64 as Ty>::M, w_y: <bool as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_x), d_top::<bool>(s[1]) == Ok::<<bool as Ty>::M, DecodeError>(w_y)
    ensures shapes_arr_take(s) == Ok::<SHAPES_ARR, DecodeError>((w_x, 0int, w_y))
{
    
    reveal(shapes_arr_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_x); let s1 = s0.drop_first();
    lemma_next_step::<bool>(s1, w_y); let s2 = s1.drop_first();
}
pub proof fn shapes_arr_back(x: u64, h: u8, y: bool)
    requires shapes_arr_rt(x, h, y)
    ensures shapes_arr_dec(shapes_arr_e(x, h, y)) == Ok::<SHAPES_ARR, DecodeError>(shapes_arr_m(x, h, y)), shapes_arr_dec(norm(shapes_arr_e(x, h, y))) == Ok::<SHAPES_ARR, DecodeError>(shapes_arr_m(x, h, y)), wf(shapes_arr_e(x, h, y)), !has_dup(shapes_arr_e(x, h, y))
{
    
    lemma_required::<u64>(x);
    lemma_required::<bool>(y);
    let aa = shapes_arr_a(x, h, y);
    lemma_arr_fields(aa);
    shapes_arr_chain(aa, x.m(), y.m());
    shapes_arr_chain(norms(aa), x.m(), y.m());
}
/// As many elements as there are fields.
pub proof fn c14_shapes_arr(v: V)
    ensures shapes_arr_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(shapes_arr_take); reveal(f_next); }
pub type SHAPES_BRACES = ();
pub open spec fn shapes_braces_m() -> SHAPES_BRACES { () }
pub open spec fn shapes_braces_d() -> Seq<KO> { Seq::empty() }
pub open spec fn shapes_braces_e() -> V { V::M(ents(shapes_braces_d())) }
#[verifier::opaque]
pub open spec fn shapes_braces_take(s: Seq<KV>) -> R<SHAPES_BRACES> { if s.len() > 0 { Err::<SHAPES_BRACES, DecodeError>(DecodeError::UnknownField) } else { Ok::<SHAPES_BRACES, DecodeError>(()) } }
pub open spec fn shapes_braces_dec(v: V) -> R<SHAPES_BRACES> { match v { V::M(s) => shapes_braces_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn shapes_braces_rt() -> bool { true }
pub proof fn shapes_braces_back()
    requires shapes_braces_rt()
    ensures shapes_braces_dec(shapes_braces_e()) == Ok::<SHAPES_BRACES, DecodeError>(shapes_braces_m()), shapes_braces_dec(norm(shapes_braces_e())) == Ok::<SHAPES_BRACES, DecodeError>(shapes_braces_m()), wf(shapes_braces_e()), !has_dup(shapes_braces_e())
{ lemma_no_entries(); reveal(shapes_braces_take); }
pub type SHAPES_AS_STRUCT = ();
pub open spec fn shapes_as_struct_m() -> SHAPES_AS_STRUCT { () }
pub open spec fn shapes_as_struct_e() -> V { V::M(Seq::empty()) }
pub open spec fn shapes_as_struct_dec(v: V) -> R<SHAPES_AS_STRUCT> { match v { V::M(s) => if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }, _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn shapes_as_struct_rt() -> bool { true }
pub proof fn shapes_as_struct_back()
    ensures shapes_as_struct_dec(shapes_as_struct_e()) is Ok, norm(shapes_as_struct_e()) == shapes_as_struct_e(), wf(shapes_as_struct_e()), !has_dup(shapes_as_struct_e())
{ lemma_no_entries(); }
#[allow(inconsistent_fields)]
pub enum ShapesM { Arr((<u64 as Ty>::M, <u8 as Ty>::M, <bool as Ty>::M)), Braces(()), AsStruct }
impl Ty for Shapes {
    type M = ShapesM;
    open spec fn m(self) -> ShapesM { match self { Shapes::Arr { x, h, y } => ShapesM::Arr((x.m(), h.m(), y.m())), Shapes::Braces {  } => ShapesM::Braces(()), Shapes::AsStruct => ShapesM::AsStruct } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ShapesM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ShapesM { arbitrary() }
}
pub open spec fn shapes_bare(v: V) -> R<ShapesM> { Err(DecodeError::UnknownField) }
pub open spec fn shapes_by(k: V, x: V) -> R<ShapesM> { if k == k_Arr() { match shapes_arr_dec(x) { Ok(m) => Ok(ShapesM::Arr(m)), Err(e) => Err(e) } } else { if k == k_Braces() { match shapes_braces_dec(x) { Ok(m) => Ok(ShapesM::Braces(m)), Err(e) => Err(e) } } else { if k == k_AsStruct() { match shapes_as_struct_dec(x) { Ok(m) => Ok(ShapesM::AsStruct), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn shapes_dec(v: V) -> R<ShapesM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { shapes_by(s[0].0, s[0].1) }, _ => shapes_bare(v) } }
pub proof fn shapes_differ()
    ensures k_Arr() != k_Braces(), k_Arr() != k_AsStruct(), k_Braces() != k_AsStruct()
{
    lemma_texts_differ(seq![65u8, 114u8, 114u8], seq![66u8, 114u8, 97u8, 99u8, 101u8, 115u8], 0);
    lemma_texts_differ(seq![65u8, 114u8, 114u8], seq![65u8, 115u8, 83u8, 116u8, 114u8, 117u8, 99u8, 116u8], 0);
    lemma_texts_differ(seq![66u8, 114u8, 97u8, 99u8, 101u8, 115u8], seq![65u8, 115u8, 83u8, 116u8, 114u8, 117u8, 99u8, 116u8], 0);
}
impl Codec for Shapes {
    open spec fn rt(&self) -> bool { match *self { Shapes::Arr { x, h, y } => shapes_arr_rt(x, h, y), Shapes::Braces {  } => shapes_braces_rt(), Shapes::AsStruct => shapes_as_struct_rt() } }
    proof fn back(&self) {
        shapes_differ(); k_Arr_lit(); k_Braces_lit(); k_AsStruct_lit();
        match *self { Shapes::Arr { x, h, y } => { shapes_arr_back(x, h, y); lemma_one(k_Arr(), shapes_arr_e(x, h, y));  } Shapes::Braces {  } => { shapes_braces_back(); lemma_one(k_Braces(), shapes_braces_e());  } Shapes::AsStruct => { shapes_as_struct_back(); lemma_one(k_AsStruct(), shapes_as_struct_e());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<ShapesM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ More
pub type MORE_HIDE = (<u64 as Ty>::M, <u8 as Ty>::M);
pub open spec fn more_hide_m(a: u64, h: u8) -> MORE_HIDE { (a.m(), h.m()) }
pub open spec fn more_hide_d(a: u64, h: u8) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn more_hide_e(a: u64, h: u8) -> V { V::M(ents(more_hide_d(a, h))) }
#[verifier::opaque]
pub open spec fn more_hide_take(s: Seq<KV>) -> R<MORE_HIDE> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<MORE_HIDE, DecodeError>(DecodeError::UnknownField) } else { Ok::<MORE_HIDE, DecodeError>((m_a, 0int)) } } }
pub open spec fn more_hide_dec(v: V) -> R<MORE_HIDE> { match v { V::M(s) => more_hide_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn more_hide_rt(a: u64, h: u8) -> bool { 
    &&& a.rt_top()
    &&& h.m() == 0int }
pub open spec fn more_hide_ks() -> Seq<V> { seq![k_a()] }
pub proof fn more_hide_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn more_hide_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures more_hide_take(ents(l)) == Ok::<MORE_HIDE, DecodeError>((w_a, 0int))
{
    
    reveal(more_hide_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn more_hide_back(a: u64, h: u8)
    requires more_hide_rt(a, h)
    ensures more_hide_dec(more_hide_e(a, h)) == Ok::<MORE_HIDE, DecodeError>(more_hide_m(a, h)), more_hide_dec(norm(more_hide_e(a, h))) == Ok::<MORE_HIDE, DecodeError>(more_hide_m(a, h)), wf(more_hide_e(a, h)), !has_dup(more_hide_e(a, h))
{
    
    more_hide_keys();
    lemma_required::<u64>(a);
    let dd = more_hide_d(a, h);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    more_hide_chain(ll, a.m());
    more_hide_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_more_hide(a: u64, h: u8)
    ensures lookup(ents(more_hide_d(a, h)), k_a()) == Some(a.e())
{
    
    more_hide_keys();
    let dd = more_hide_d(a, h);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_more_hide(s: Seq<KV>)
    ensures more_hide_dec(V::M(s)) is Ok ==> declared(s, more_hide_ks()), more_hide_dec(V::M(s)) is Ok ==> more_hide_found(s)
{
    
    if more_hide_dec(V::M(s)) is Ok {
        more_hide_keys(); reveal(more_hide_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= more_hide_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
    }
}
pub open spec fn more_hide_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(more_hide_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_more_hide_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures more_hide_dec(V::M(s)) == more_hide_dec(V::M(t))
{ lemma_tsort_same(s, t); }
pub type MORE_FREE = (<u64 as Ty>::M,);
pub open spec fn more_free_m(a: u64) -> MORE_FREE { (a.m(),) }
pub open spec fn more_free_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn more_free_e(a: u64) -> V { V::M(ents(more_free_d(a))) }
#[verifier::opaque]
pub open spec fn more_free_take(s: Seq<KV>) -> R<MORE_FREE> { match f_loose::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => Ok::<MORE_FREE, DecodeError>((m_a,)) } }
pub open spec fn more_free_dec(v: V) -> R<MORE_FREE> { match v { V::M(s) => more_free_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn more_free_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn more_free_ks() -> Seq<V> { seq![k_a()] }
pub proof fn more_free_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn more_free_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures more_free_take(ents(l)) == Ok::<MORE_FREE, DecodeError>((w_a,))
{
    
    reveal(more_free_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn more_free_back(a: u64)
    requires more_free_rt(a)
    ensures more_free_dec(more_free_e(a)) == Ok::<MORE_FREE, DecodeError>(more_free_m(a)), more_free_dec(norm(more_free_e(a))) == Ok::<MORE_FREE, DecodeError>(more_free_m(a)), wf(more_free_e(a)), !has_dup(more_free_e(a))
{
    
    more_free_keys();
    lemma_required::<u64>(a);
    let dd = more_free_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    more_free_chain(ll, a.m());
    more_free_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_more_free(a: u64)
    ensures lookup(ents(more_free_d(a)), k_a()) == Some(a.e())
{
    
    more_free_keys();
    let dd = more_free_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_more_free(s: Seq<KV>)
    requires distinct_keys(s)
    ensures more_free_dec(V::M(s)) is Ok ==> more_free_found(s), d_top::<u64>(or_null(lookup(s, k_a()))) is Ok ==> more_free_dec(V::M(s)) is Ok
{
    
    more_free_keys(); reveal(more_free_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
    lemma_loose_step::<u64>(s0, k_a()); if f_loose::<u64>(s0, k_a()) is Ok { let s1 = f_loose::<u64>(s0, k_a())->Ok_0.1;
}}
pub open spec fn more_free_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(more_free_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_more_free_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures more_free_dec(V::M(s)) == more_free_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum MoreM { Hide((<u64 as Ty>::M, <u8 as Ty>::M)), Deep(<Plain as Ty>::M), Free((<u64 as Ty>::M,)) }
impl Ty for More {
    type M = MoreM;
    open spec fn m(self) -> MoreM { match self { More::Hide { a, h } => MoreM::Hide((a.m(), h.m())), More::Deep(inner) => MoreM::Deep(inner.m()), More::Free { a } => MoreM::Free((a.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: MoreM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> MoreM { arbitrary() }
}
pub open spec fn more_bare(v: V) -> R<MoreM> { Err(DecodeError::UnknownField) }
pub open spec fn more_by(k: V, x: V) -> R<MoreM> { if k == k_Hide() { match more_hide_dec(x) { Ok(m) => Ok(MoreM::Hide(m)), Err(e) => Err(e) } } else { if k == k_Deep() { match d_top::<Plain>(x) { Ok(m) => Ok(MoreM::Deep(m)), Err(e) => Err(e) } } else { if k == k_Free() { match more_free_dec(x) { Ok(m) => Ok(MoreM::Free(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn more_dec(v: V) -> R<MoreM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { more_by(s[0].0, s[0].1) }, _ => more_bare(v) } }
pub proof fn more_differ()
    ensures k_Hide() != k_Deep(), k_Hide() != k_Free(), k_Deep() != k_Free()
{
    lemma_texts_differ(seq![72u8, 105u8, 100u8, 101u8], seq![68u8, 101u8, 101u8, 112u8], 0);
    lemma_texts_differ(seq![72u8, 105u8, 100u8, 101u8], seq![70u8, 114u8, 101u8, 101u8], 0);
    lemma_texts_differ(seq![68u8, 101u8, 101u8, 112u8], seq![70u8, 114u8, 101u8, 101u8], 0);
}
impl Codec for More {
    open spec fn rt(&self) -> bool { match *self { More::Hide { a, h } => more_hide_rt(a, h), More::Deep(inner) => inner.rt_top(), More::Free { a } => more_free_rt(a) } }
    proof fn back(&self) {
        more_differ(); k_Hide_lit(); k_Deep_lit(); k_Free_lit();
        match *self { More::Hide { a, h } => { more_hide_back(a, h); lemma_one(k_Hide(), more_hide_e(a, h));  } More::Deep(inner) => { lemma_required(inner); lemma_one(k_Deep(), inner.e());  } More::Free { a } => { more_free_back(a); lemma_one(k_Free(), more_free_e(a));  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<MoreM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Child
pub type CHILD_THREE = (<u64 as Ty>::M,);
pub open spec fn child_three_m(n: u64) -> CHILD_THREE { (n.m(),) }
pub open spec fn child_three_d(n: u64) -> Seq<KO> { Seq::empty().push((k_n(), Some(n.e()))) }
pub open spec fn child_three_e(n: u64) -> V { V::M(ents(child_three_d(n))) }
#[verifier::opaque]
pub open spec fn child_three_take(s: Seq<KV>) -> R<CHILD_THREE> { match f_strict::<u64>(s, k_n()) { Err(e) => Err(e), Ok((m_n, s)) => if s.len() > 0 { Err::<CHILD_THREE, DecodeError>(DecodeError::UnknownField) } else { Ok::<CHILD_THREE, DecodeError>((m_n,)) } } }
pub open spec fn child_three_dec(v: V) -> R<CHILD_THREE> { match v { V::M(s) => child_three_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn child_three_rt(n: u64) -> bool { 
    &&& n.rt_top() }
pub open spec fn child_three_ks() -> Seq<V> { seq![k_n()] }
pub proof fn child_three_keys()
    ensures plain(k_n())
{
    k_n_lit();
}
proof fn child_three_chain(l: Seq<KO>, w_n: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_n(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_n)
    ensures child_three_take(ents(l)) == Ok::<CHILD_THREE, DecodeError>((w_n,))
{
    
    reveal(child_three_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_n); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn child_three_back(n: u64)
    requires child_three_rt(n)
    ensures child_three_dec(child_three_e(n)) == Ok::<CHILD_THREE, DecodeError>(child_three_m(n)), child_three_dec(norm(child_three_e(n))) == Ok::<CHILD_THREE, DecodeError>(child_three_m(n)), wf(child_three_e(n)), !has_dup(child_three_e(n))
{
    
    child_three_keys();
    lemma_required::<u64>(n);
    let dd = child_three_d(n);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    child_three_chain(ll, n.m());
    child_three_chain(normo(ll), n.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_child_three(n: u64)
    ensures lookup(ents(child_three_d(n)), k_n()) == Some(n.e())
{
    
    child_three_keys();
    let dd = child_three_d(n);
    lemma_ord_refl(k_n());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_child_three(s: Seq<KV>)
    ensures child_three_dec(V::M(s)) is Ok ==> declared(s, child_three_ks()), child_three_dec(V::M(s)) is Ok ==> child_three_found(s)
{
    
    if child_three_dec(V::M(s)) is Ok {
        child_three_keys(); reveal(child_three_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_n())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_n()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= child_three_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_n()); lemma_loose_step::<u64>(s0, k_n());
    }
}
pub open spec fn child_three_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_n()))) == Ok::<<u64 as Ty>::M, DecodeError>(child_three_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_child_three_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures child_three_dec(V::M(s)) == child_three_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum ChildM { One, Two(<u64 as Ty>::M), Three((<u64 as Ty>::M,)) }
impl Ty for Child {
    type M = ChildM;
    open spec fn m(self) -> ChildM { match self { Child::One => ChildM::One, Child::Two(inner) => ChildM::Two(inner.m()), Child::Three { n } => ChildM::Three((n.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ChildM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ChildM { arbitrary() }
}
pub open spec fn child_bare(v: V) -> R<ChildM> { if v == k_One() { Ok(ChildM::One) } else { Err(DecodeError::UnknownField) } }
pub open spec fn child_by(k: V, x: V) -> R<ChildM> { if k == k_Two() { match d_top::<u64>(x) { Ok(m) => Ok(ChildM::Two(m)), Err(e) => Err(e) } } else { if k == k_Three() { match child_three_dec(x) { Ok(m) => Ok(ChildM::Three(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn child_dec(v: V) -> R<ChildM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { child_by(s[0].0, s[0].1) }, _ => child_bare(v) } }
pub proof fn child_differ()
    ensures k_One() != k_Two(), k_One() != k_Three(), k_Two() != k_Three()
{
    lemma_texts_differ(seq![79u8, 110u8, 101u8], seq![84u8, 119u8, 111u8], 0);
    lemma_texts_differ(seq![79u8, 110u8, 101u8], seq![84u8, 104u8, 114u8, 101u8, 101u8], 0);
    lemma_texts_differ(seq![84u8, 119u8, 111u8], seq![84u8, 104u8, 114u8, 101u8, 101u8], 0);
}
impl Codec for Child {
    open spec fn rt(&self) -> bool { match *self { Child::One => true, Child::Two(inner) => inner.rt_top(), Child::Three { n } => child_three_rt(n) } }
    proof fn back(&self) {
        child_differ(); k_One_lit(); k_Two_lit(); k_Three_lit();
        match *self { Child::One => { assert(norm(self.e()) == self.e()); } Child::Two(inner) => { lemma_required(inner); lemma_one(k_Two(), inner.e());  } Child::Three { n } => { child_three_back(n); lemma_one(k_Three(), child_three_e(n));  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<ChildM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Parent
#[allow(inconsistent_fields)]
pub enum ParentM { Own, Two(<bool as Ty>::M), Kid(<Child as Ty>::M) }
impl Ty for Parent {
    type M = ParentM;
    open spec fn m(self) -> ParentM { match self { Parent::Own => ParentM::Own, Parent::Two(inner) => ParentM::Two(inner.m()), Parent::Kid(inner) => ParentM::Kid(inner.m()) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: ParentM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> ParentM { arbitrary() }
}
pub open spec fn parent_bare(v: V) -> R<ParentM> { if v == k_Own() { Ok(ParentM::Own) } else { match d_top::<Child>(v) { Ok(m) => Ok(ParentM::Kid(m)), _ => Err(DecodeError::UnknownField) } } }
pub open spec fn parent_by(k: V, x: V) -> R<ParentM> { if k == k_Two() { match d_top::<bool>(x) { Ok(m) => Ok(ParentM::Two(m)), Err(e) => Err(e) } } else { match d_top::<Child>(V::M(one(k, x))) { Ok(m) => Ok(ParentM::Kid(m)), _ => Err(DecodeError::UnknownField) } } }
pub open spec fn parent_dec(v: V) -> R<ParentM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { parent_by(s[0].0, s[0].1) }, _ => parent_bare(v) } }
pub open spec fn parent_own(v: V) -> bool { match v { V::M(s) => !(s.len() == 1 && s[0].0 != k_Two()), _ => v == k_Own() || false } }
pub proof fn parent_differ()
    ensures k_Own() != k_Two()
{
    lemma_texts_differ(seq![79u8, 119u8, 110u8], seq![84u8, 119u8, 111u8], 0);
}
impl Codec for Parent {
    open spec fn rt(&self) -> bool { match *self { Parent::Own => true, Parent::Two(inner) => inner.rt_top(), Parent::Kid(inner) => inner.rt_top() && !parent_own(inner.e()) && !parent_own(norm(inner.e())) } }
    proof fn back(&self) {
        parent_differ(); k_Own_lit(); k_Two_lit();
        match *self { Parent::Own => { assert(norm(self.e()) == self.e()); } Parent::Two(inner) => { lemma_required(inner); lemma_one(k_Two(), inner.e());  } Parent::Kid(inner) => { lemma_required(inner); assert(inner.e() is M ==> norm(inner.e()) is M && norm(inner.e())->M_0.len() == inner.e()->M_0.len()) by { lemma_norm_unfold(inner.e()); if inner.e() is M { lemma_nsort(normm(inner.e()->M_0)); } } lemma_only(inner.e()); lemma_only(norm(inner.e())); } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<ParentM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ OnlyUnits
#[allow(inconsistent_fields)]
pub enum OnlyUnitsM { Own, Kid(<Child as Ty>::M) }
impl Ty for OnlyUnits {
    type M = OnlyUnitsM;
    open spec fn m(self) -> OnlyUnitsM { match self { OnlyUnits::Own => OnlyUnitsM::Own, OnlyUnits::Kid(inner) => OnlyUnitsM::Kid(inner.m()) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: OnlyUnitsM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> OnlyUnitsM { arbitrary() }
}
pub open spec fn only_units_bare(v: V) -> R<OnlyUnitsM> { if v == k_Own() { Ok(OnlyUnitsM::Own) } else { match d_top::<Child>(v) { Ok(m) => Ok(OnlyUnitsM::Kid(m)), _ => Err(DecodeError::UnknownField) } } }
pub open spec fn only_units_dec(v: V) -> R<OnlyUnitsM> { only_units_bare(v) }
pub open spec fn only_units_own(v: V) -> bool { match v { V::M(s) => !(true), _ => v == k_Own() || false } }
pub proof fn only_units_differ()
    ensures true
{
}
impl Codec for OnlyUnits {
    open spec fn rt(&self) -> bool { match *self { OnlyUnits::Own => true, OnlyUnits::Kid(inner) => inner.rt_top() && !only_units_own(inner.e()) && !only_units_own(norm(inner.e())) } }
    proof fn back(&self) {
        only_units_differ(); k_Own_lit();
        match *self { OnlyUnits::Own => { assert(norm(self.e()) == self.e()); } OnlyUnits::Kid(inner) => { lemma_required(inner); assert(inner.e() is M ==> norm(inner.e()) is M && norm(inner.e())->M_0.len() == inner.e()->M_0.len()) by { lemma_norm_unfold(inner.e()); if inner.e() is M { lemma_nsort(normm(inner.e()->M_0)); } } lemma_only(inner.e()); lemma_only(norm(inner.e())); } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<OnlyUnitsM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Tagged
pub type TAGGED_REC = (<u64 as Ty>::M, <Option<String> as Ty>::M);
pub open spec fn tagged_rec_m(b: u64, a: Option<String>) -> TAGGED_REC { (b.m(), a.m()) }
pub open spec fn tagged_rec_d(b: u64, a: Option<String>) -> Seq<KO> { Seq::empty().push((k_b(), Some(b.e()))).push((k_a(), (if a.omit() { None } else { Some(a.e()) }))) }
pub open spec fn tagged_rec_e(b: u64, a: Option<String>) -> V { V::M(ents(tagged_rec_d(b, a))) }
#[verifier::opaque]
pub open spec fn tagged_rec_take(s: Seq<KV>) -> R<TAGGED_REC> { match f_strict::<Option<String>>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<u64>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => if s.len() > 0 { Err::<TAGGED_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<TAGGED_REC, DecodeError>((m_b, m_a)) } } } }
pub open spec fn tagged_rec_dec(v: V) -> R<TAGGED_REC> { match v { V::M(s) => tagged_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tagged_rec_rt(b: u64, a: Option<String>) -> bool { 
    &&& b.rt_top()
    &&& a.rt_top() && !a.lost() }
pub open spec fn tagged_rec_ks() -> Seq<V> { seq![k_a(), k_b()] }
pub proof fn tagged_rec_keys()
    ensures plain(k_a()), plain(k_b()), ord(k_a(), k_b()) is Less
{
    lemma_text_less(seq![97u8], seq![98u8], 0);
    k_a_lit();
    k_b_lit();
}
proof fn tagged_rec_chain(l: Seq<KO>, w_a: <Option<String> as Ty>::M, w_b: <u64 as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<Option<String>>(or_null(l[0].1)) == Ok::<<Option<String> as Ty>::M, DecodeError>(w_a), l[1].0 == k_b(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_b)
    ensures tagged_rec_take(ents(l)) == Ok::<TAGGED_REC, DecodeError>((w_b, w_a))
{
    
    reveal(tagged_rec_take); let l0 = l;
    lemma_field_step::<Option<String>>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_b); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn tagged_rec_back(b: u64, a: Option<String>)
    requires tagged_rec_rt(b, a)
    ensures tagged_rec_dec(tagged_rec_e(b, a)) == Ok::<TAGGED_REC, DecodeError>(tagged_rec_m(b, a)), tagged_rec_dec(norm(tagged_rec_e(b, a))) == Ok::<TAGGED_REC, DecodeError>(tagged_rec_m(b, a)), wf(tagged_rec_e(b, a)), !has_dup(tagged_rec_e(b, a))
{
    
    tagged_rec_keys();
    lemma_required::<u64>(b);
    lemma_optional::<Option<String>>(a);
    let dd = tagged_rec_d(b, a);
    let ll: Seq<KO> = seq![dd[1], dd[0]];
    lemma_rearranged(dd, ll, seq![1int, 0int], seq![1int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    tagged_rec_chain(ll, a.m(), b.m());
    tagged_rec_chain(normo(ll), a.m(), b.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_tagged_rec(b: u64, a: Option<String>)
    ensures lookup(ents(tagged_rec_d(b, a)), k_b()) == Some(b.e()), lookup(ents(tagged_rec_d(b, a)), k_a()) == (if a.omit() { None } else { Some(a.e()) })
{
    
    tagged_rec_keys();
    let dd = tagged_rec_d(b, a);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_b());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_tagged_rec(s: Seq<KV>)
    ensures tagged_rec_dec(V::M(s)) is Ok ==> declared(s, tagged_rec_ks()), tagged_rec_dec(V::M(s)) is Ok ==> tagged_rec_found(s)
{
    
    if tagged_rec_dec(V::M(s)) is Ok {
        tagged_rec_keys(); reveal(tagged_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Option<String>>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_b())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_b()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_a(), k_b()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Option<String>>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= tagged_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Option<String>>(s0, k_a()); lemma_loose_step::<Option<String>>(s0, k_a());
        lemma_strict_loose::<u64>(s1, k_b()); lemma_loose_step::<u64>(s1, k_b());
    }
}
pub open spec fn tagged_rec_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_b()))) == Ok::<<u64 as Ty>::M, DecodeError>(tagged_rec_dec(V::M(s))->Ok_0.0) && d_top::<Option<String>>(or_null(lookup(s, k_a()))) == Ok::<<Option<String> as Ty>::M, DecodeError>(tagged_rec_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_tagged_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures tagged_rec_dec(V::M(s)) == tagged_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
pub type TAGGED_NOTHING = ();
pub open spec fn tagged_nothing_m() -> TAGGED_NOTHING { () }
pub open spec fn tagged_nothing_e() -> V { V::M(Seq::empty()) }
pub open spec fn tagged_nothing_dec(v: V) -> R<TAGGED_NOTHING> { match v { V::M(s) => if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }, _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn tagged_nothing_rt() -> bool { true }
pub proof fn tagged_nothing_back()
    ensures tagged_nothing_dec(tagged_nothing_e()) is Ok, norm(tagged_nothing_e()) == tagged_nothing_e(), wf(tagged_nothing_e()), !has_dup(tagged_nothing_e())
{ lemma_no_entries(); }
#[allow(inconsistent_fields)]
pub enum TaggedM { Deep(<Plain as Ty>::M), Rec((<u64 as Ty>::M, <Option<String> as Ty>::M)), Nothing }
impl Ty for Tagged {
    type M = TaggedM;
    open spec fn m(self) -> TaggedM { match self { Tagged::Deep(inner) => TaggedM::Deep(inner.m()), Tagged::Rec { b, a } => TaggedM::Rec((b.m(), a.m())), Tagged::Nothing => TaggedM::Nothing } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TaggedM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TaggedM { arbitrary() }
}
pub open spec fn tagged_by(k: V, x: V) -> R<TaggedM> { if k == k_Deep() { match d_top::<Plain>(x) { Ok(m) => Ok(TaggedM::Deep(m)), Err(e) => Err(e) } } else { if k == k_r() { match tagged_rec_dec(x) { Ok(m) => Ok(TaggedM::Rec(m)), Err(e) => Err(e) } } else { if k == k_Nothing() { match tagged_nothing_dec(x) { Ok(m) => Ok(TaggedM::Nothing), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn tagged_dec(v: V) -> R<TaggedM> { match v { V::M(s) => tagged_by(untag(s, k_v()).0, V::M(untag(s, k_v()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn tagged_differ()
    ensures k_Deep() != k_r(), k_Deep() != k_Nothing(), k_r() != k_Nothing(), k_b() != k_v(), k_a() != k_v()
{
    lemma_texts_differ(seq![68u8, 101u8, 101u8, 112u8], seq![114u8], 0);
    lemma_texts_differ(seq![68u8, 101u8, 101u8, 112u8], seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8], 0);
    lemma_texts_differ(seq![114u8], seq![78u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8], 0);
    lemma_texts_differ(seq![118u8], seq![98u8], 0);
    lemma_texts_differ(seq![118u8], seq![97u8], 0);
}
impl Codec for Tagged {
    open spec fn rt(&self) -> bool { match *self { Tagged::Deep(inner) => inner.rt_top() && inner.e() is M && tag_free(inner.e()->M_0, k_v()) && inner.e()->M_0.len() + 1 < two64(), Tagged::Rec { b, a } => tagged_rec_rt(b, a), Tagged::Nothing => tagged_nothing_rt() } }
    proof fn back(&self) {
        tagged_differ(); k_v_lit(); k_Deep_lit(); k_r_lit(); k_Nothing_lit();
        match *self { Tagged::Deep(inner) => { lemma_required(inner); lemma_tagged(inner.e()->M_0, k_v(), k_Deep());  } Tagged::Rec { b, a } => { tagged_rec_back(b, a); lemma_tag_free(tagged_rec_d(b, a), k_v()); lemma_tagged(tagged_rec_e(b, a)->M_0, k_v(), k_r());  } Tagged::Nothing => { tagged_nothing_back(); lemma_no_entries(); lemma_tagged(tagged_nothing_e()->M_0, k_v(), k_Nothing());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<TaggedM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Fallback
pub type FALLBACK_FREE = (<u64 as Ty>::M,);
pub open spec fn fallback_free_m(a: u64) -> FALLBACK_FREE { (a.m(),) }
pub open spec fn fallback_free_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn fallback_free_e(a: u64) -> V { V::M(ents(fallback_free_d(a))) }
#[verifier::opaque]
pub open spec fn fallback_free_take(s: Seq<KV>) -> R<FALLBACK_FREE> { match f_loose::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => Ok::<FALLBACK_FREE, DecodeError>((m_a,)) } }
pub open spec fn fallback_free_dec(v: V) -> R<FALLBACK_FREE> { match v { V::M(s) => fallback_free_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn fallback_free_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn fallback_free_ks() -> Seq<V> { seq![k_a()] }
pub proof fn fallback_free_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn fallback_free_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures fallback_free_take(ents(l)) == Ok::<FALLBACK_FREE, DecodeError>((w_a,))
{
    
    reveal(fallback_free_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn fallback_free_back(a: u64)
    requires fallback_free_rt(a)
    ensures fallback_free_dec(fallback_free_e(a)) == Ok::<FALLBACK_FREE, DecodeError>(fallback_free_m(a)), fallback_free_dec(norm(fallback_free_e(a))) == Ok::<FALLBACK_FREE, DecodeError>(fallback_free_m(a)), wf(fallback_free_e(a)), !has_dup(fallback_free_e(a))
{
    
    fallback_free_keys();
    lemma_required::<u64>(a);
    let dd = fallback_free_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    fallback_free_chain(ll, a.m());
    fallback_free_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_fallback_free(a: u64)
    ensures lookup(ents(fallback_free_d(a)), k_a()) == Some(a.e())
{
    
    fallback_free_keys();
    let dd = fallback_free_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_fallback_free(s: Seq<KV>)
    requires distinct_keys(s)
    ensures fallback_free_dec(V::M(s)) is Ok ==> fallback_free_found(s), d_top::<u64>(or_null(lookup(s, k_a()))) is Ok ==> fallback_free_dec(V::M(s)) is Ok
{
    
    fallback_free_keys(); reveal(fallback_free_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
    lemma_loose_step::<u64>(s0, k_a()); if f_loose::<u64>(s0, k_a()) is Ok { let s1 = f_loose::<u64>(s0, k_a())->Ok_0.1;
}}
pub open spec fn fallback_free_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(fallback_free_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_fallback_free_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures fallback_free_dec(V::M(s)) == fallback_free_dec(V::M(t))
{ lemma_tsort_same(s, t); }
pub type FALLBACK_REST = (<u64 as Ty>::M,);
pub open spec fn fallback_rest_m(a: u64) -> FALLBACK_REST { (a.m(),) }
pub open spec fn fallback_rest_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn fallback_rest_e(a: u64) -> V { V::M(ents(fallback_rest_d(a))) }
#[verifier::opaque]
pub open spec fn fallback_rest_take(s: Seq<KV>) -> R<FALLBACK_REST> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<FALLBACK_REST, DecodeError>(DecodeError::UnknownField) } else { Ok::<FALLBACK_REST, DecodeError>((m_a,)) } } }
pub open spec fn fallback_rest_dec(v: V) -> R<FALLBACK_REST> { match v { V::M(s) => fallback_rest_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn fallback_rest_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn fallback_rest_ks() -> Seq<V> { seq![k_a()] }
pub proof fn fallback_rest_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn fallback_rest_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures fallback_rest_take(ents(l)) == Ok::<FALLBACK_REST, DecodeError>((w_a,))
{
    
    reveal(fallback_rest_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn fallback_rest_back(a: u64)
    requires fallback_rest_rt(a)
    ensures fallback_rest_dec(fallback_rest_e(a)) == Ok::<FALLBACK_REST, DecodeError>(fallback_rest_m(a)), fallback_rest_dec(norm(fallback_rest_e(a))) == Ok::<FALLBACK_REST, DecodeError>(fallback_rest_m(a)), wf(fallback_rest_e(a)), !has_dup(fallback_rest_e(a))
{
    
    fallback_rest_keys();
    lemma_required::<u64>(a);
    let dd = fallback_rest_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    fallback_rest_chain(ll, a.m());
    fallback_rest_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_fallback_rest(a: u64)
    ensures lookup(ents(fallback_rest_d(a)), k_a()) == Some(a.e())
{
    
    fallback_rest_keys();
    let dd = fallback_rest_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_fallback_rest(s: Seq<KV>)
    ensures fallback_rest_dec(V::M(s)) is Ok ==> declared(s, fallback_rest_ks()), fallback_rest_dec(V::M(s)) is Ok ==> fallback_rest_found(s)
{
    
    if fallback_rest_dec(V::M(s)) is Ok {
        fallback_rest_keys(); reveal(fallback_rest_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= fallback_rest_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
    }
}
pub open spec fn fallback_rest_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(fallback_rest_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_fallback_rest_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures fallback_rest_dec(V::M(s)) == fallback_rest_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum FallbackM { Free((<u64 as Ty>::M,)), Rest((<u64 as Ty>::M,)) }
impl Ty for Fallback {
    type M = FallbackM;
    open spec fn m(self) -> FallbackM { match self { Fallback::Free { a } => FallbackM::Free((a.m(),)), Fallback::Rest { a } => FallbackM::Rest((a.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: FallbackM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> FallbackM { arbitrary() }
}
pub open spec fn fallback_by(k: V, x: V) -> R<FallbackM> { if k == k_Free() { match fallback_free_dec(x) { Ok(m) => Ok(FallbackM::Free(m)), Err(e) => Err(e) } } else { if k == k_Rest() || k == V::S(23) { match fallback_rest_dec(x) { Ok(m) => Ok(FallbackM::Rest(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn fallback_dec(v: V) -> R<FallbackM> { match v { V::M(s) => fallback_by(untag(s, k_v()).0, V::M(untag(s, k_v()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn fallback_differ()
    ensures k_Free() != k_Rest(), k_a() != k_v(), k_a() != k_v()
{
    lemma_texts_differ(seq![70u8, 114u8, 101u8, 101u8], seq![82u8, 101u8, 115u8, 116u8], 0);
    lemma_texts_differ(seq![118u8], seq![97u8], 0);
    lemma_texts_differ(seq![118u8], seq![97u8], 0);
}
impl Codec for Fallback {
    open spec fn rt(&self) -> bool { match *self { Fallback::Free { a } => fallback_free_rt(a), Fallback::Rest { a } => fallback_rest_rt(a) } }
    proof fn back(&self) {
        fallback_differ(); k_v_lit(); k_Free_lit(); k_Rest_lit();
        match *self { Fallback::Free { a } => { fallback_free_back(a); lemma_tag_free(fallback_free_d(a), k_v()); lemma_tagged(fallback_free_e(a)->M_0, k_v(), k_Free());  } Fallback::Rest { a } => { fallback_rest_back(a); lemma_tag_free(fallback_rest_d(a), k_v()); lemma_no_tag(fallback_rest_e(a)->M_0, k_v()); lemma_tagged(fallback_rest_e(a)->M_0, k_v(), k_Rest()); lemma_still_free(fallback_rest_e(a)->M_0, k_v()); lemma_no_tag(norm(fallback_rest_e(a))->M_0, k_v());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<FallbackM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ TagNum
pub type TAG_NUM_ONE = (<u64 as Ty>::M,);
pub open spec fn tag_num_one_m(a: u64) -> TAG_NUM_ONE { (a.m(),) }
pub open spec fn tag_num_one_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn tag_num_one_e(a: u64) -> V { V::M(ents(tag_num_one_d(a))) }
#[verifier::opaque]
pub open spec fn tag_num_one_take(s: Seq<KV>) -> R<TAG_NUM_ONE> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<TAG_NUM_ONE, DecodeError>(DecodeError::UnknownField) } else { Ok::<TAG_NUM_ONE, DecodeError>((m_a,)) } } }
pub open spec fn tag_num_one_dec(v: V) -> R<TAG_NUM_ONE> { match v { V::M(s) => tag_num_one_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tag_num_one_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn tag_num_one_ks() -> Seq<V> { seq![k_a()] }
pub proof fn tag_num_one_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn tag_num_one_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures tag_num_one_take(ents(l)) == Ok::<TAG_NUM_ONE, DecodeError>((w_a,))
{
    
    reveal(tag_num_one_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn tag_num_one_back(a: u64)
    requires tag_num_one_rt(a)
    ensures tag_num_one_dec(tag_num_one_e(a)) == Ok::<TAG_NUM_ONE, DecodeError>(tag_num_one_m(a)), tag_num_one_dec(norm(tag_num_one_e(a))) == Ok::<TAG_NUM_ONE, DecodeError>(tag_num_one_m(a)), wf(tag_num_one_e(a)), !has_dup(tag_num_one_e(a))
{
    
    tag_num_one_keys();
    lemma_required::<u64>(a);
    let dd = tag_num_one_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    tag_num_one_chain(ll, a.m());
    tag_num_one_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_tag_num_one(a: u64)
    ensures lookup(ents(tag_num_one_d(a)), k_a()) == Some(a.e())
{
    
    tag_num_one_keys();
    let dd = tag_num_one_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_tag_num_one(s: Seq<KV>)
    ensures tag_num_one_dec(V::M(s)) is Ok ==> declared(s, tag_num_one_ks()), tag_num_one_dec(V::M(s)) is Ok ==> tag_num_one_found(s)
{
    
    if tag_num_one_dec(V::M(s)) is Ok {
        tag_num_one_keys(); reveal(tag_num_one_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= tag_num_one_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
    }
}
pub open spec fn tag_num_one_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(tag_num_one_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_tag_num_one_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures tag_num_one_dec(V::M(s)) == tag_num_one_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum TagNumM { One((<u64 as Ty>::M,)), Two(<AllOpt as Ty>::M) }
impl Ty for TagNum {
    type M = TagNumM;
    open spec fn m(self) -> TagNumM { match self { TagNum::One { a } => TagNumM::One((a.m(),)), TagNum::Two(inner) => TagNumM::Two(inner.m()) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TagNumM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TagNumM { arbitrary() }
}
pub open spec fn tag_num_by(k: V, x: V) -> R<TagNumM> { if k == k_n1() { match tag_num_one_dec(x) { Ok(m) => Ok(TagNumM::One(m)), Err(e) => Err(e) } } else { if k == k_n2() { match d_top::<AllOpt>(x) { Ok(m) => Ok(TagNumM::Two(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn tag_num_dec(v: V) -> R<TagNumM> { match v { V::M(s) => tag_num_by(untag(s, k_n0()).0, V::M(untag(s, k_n0()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn tag_num_differ()
    ensures k_n1() != k_n2(), k_a() != k_n0()
{
}
impl Codec for TagNum {
    open spec fn rt(&self) -> bool { match *self { TagNum::One { a } => tag_num_one_rt(a), TagNum::Two(inner) => inner.rt_top() && inner.e() is M && tag_free(inner.e()->M_0, k_n0()) && inner.e()->M_0.len() + 1 < two64() } }
    proof fn back(&self) {
        tag_num_differ(); 
        match *self { TagNum::One { a } => { tag_num_one_back(a); lemma_tag_free(tag_num_one_d(a), k_n0()); lemma_tagged(tag_num_one_e(a)->M_0, k_n0(), k_n1());  } TagNum::Two(inner) => { lemma_required(inner); lemma_tagged(inner.e()->M_0, k_n0(), k_n2());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<TagNumM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Bare
pub type BARE_REC = (<u64 as Ty>::M, <bool as Ty>::M);
pub open spec fn bare_rec_m(a: u64, b: bool) -> BARE_REC { (a.m(), b.m()) }
pub open spec fn bare_rec_d(a: u64, b: bool) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))).push((k_b(), (if b.omit() { None } else { Some(b.e()) }))) }
pub open spec fn bare_rec_e(a: u64, b: bool) -> V { V::M(ents(bare_rec_d(a, b))) }
#[verifier::opaque]
pub open spec fn bare_rec_take(s: Seq<KV>) -> R<BARE_REC> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<bool>(s, k_b()) { Err(e) => Err(e), Ok((m_b, s)) => if s.len() > 0 { Err::<BARE_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<BARE_REC, DecodeError>((m_a, m_b)) } } } }
pub open spec fn bare_rec_dec(v: V) -> R<BARE_REC> { match v { V::M(s) => bare_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn bare_rec_rt(a: u64, b: bool) -> bool { 
    &&& a.rt_top()
    &&& b.rt_top() && !b.lost() }
pub open spec fn bare_rec_ks() -> Seq<V> { seq![k_a(), k_b()] }
pub proof fn bare_rec_keys()
    ensures plain(k_a()), plain(k_b()), ord(k_a(), k_b()) is Less
{
    lemma_text_less(seq![97u8], seq![98u8], 0);
    k_a_lit();
    k_b_lit();
}
proof fn bare_rec_chain(l: Seq<KO>, w_a: <u64 as Ty>::M, w_b: <bool as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), l[1].0 == k_b(), d_top::<bool>(or_null(l[1].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_b)
    ensures bare_rec_take(ents(l)) == Ok::<BARE_REC, DecodeError>((w_a, w_b))
{
    
    reveal(bare_rec_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<bool>(l1, w_b); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn bare_rec_back(a: u64, b: bool)
    requires bare_rec_rt(a, b)
    ensures bare_rec_dec(bare_rec_e(a, b)) == Ok::<BARE_REC, DecodeError>(bare_rec_m(a, b)), bare_rec_dec(norm(bare_rec_e(a, b))) == Ok::<BARE_REC, DecodeError>(bare_rec_m(a, b)), wf(bare_rec_e(a, b)), !has_dup(bare_rec_e(a, b))
{
    
    bare_rec_keys();
    lemma_required::<u64>(a);
    lemma_optional::<bool>(b);
    let dd = bare_rec_d(a, b);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    bare_rec_chain(ll, a.m(), b.m());
    bare_rec_chain(normo(ll), a.m(), b.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_bare_rec(a: u64, b: bool)
    ensures lookup(ents(bare_rec_d(a, b)), k_a()) == Some(a.e()), lookup(ents(bare_rec_d(a, b)), k_b()) == (if b.omit() { None } else { Some(b.e()) })
{
    
    bare_rec_keys();
    let dd = bare_rec_d(a, b);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_b());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_bare_rec(s: Seq<KV>)
    ensures bare_rec_dec(V::M(s)) is Ok ==> declared(s, bare_rec_ks()), bare_rec_dec(V::M(s)) is Ok ==> bare_rec_found(s)
{
    
    if bare_rec_dec(V::M(s)) is Ok {
        bare_rec_keys(); reveal(bare_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<bool>(s1, k_b())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_b()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<bool>(s1, q1);
        let q0 = seq![k_a(), k_b()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= bare_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
        lemma_strict_loose::<bool>(s1, k_b()); lemma_loose_step::<bool>(s1, k_b());
    }
}
pub open spec fn bare_rec_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(bare_rec_dec(V::M(s))->Ok_0.0) && d_top::<bool>(or_null(lookup(s, k_b()))) == Ok::<<bool as Ty>::M, DecodeError>(bare_rec_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_bare_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures bare_rec_dec(V::M(s)) == bare_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum BareM { Num(<u64 as Ty>::M), Rec((<u64 as Ty>::M, <bool as Ty>::M)), Nothing, Gone }
impl Ty for Bare {
    type M = BareM;
    open spec fn m(self) -> BareM { match self { Bare::Num(inner) => BareM::Num(inner.m()), Bare::Rec { a, b } => BareM::Rec((a.m(), b.m())), Bare::Nothing => BareM::Nothing, Bare::Gone => BareM::Gone } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: BareM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> BareM { arbitrary() }
}

// ------------------------------------------------------------------ LongVars
#[allow(inconsistent_fields)]
pub enum LongVarsM { AVariantNameOfMoreThan23Bytes, AnotherVariantNameOfMoreThan23Bytes(<u64 as Ty>::M), Num(<bool as Ty>::M), Big, X(<u8 as Ty>::M) }
impl Ty for LongVars {
    type M = LongVarsM;
    open spec fn m(self) -> LongVarsM { match self { LongVars::AVariantNameOfMoreThan23Bytes => LongVarsM::AVariantNameOfMoreThan23Bytes, LongVars::AnotherVariantNameOfMoreThan23Bytes(inner) => LongVarsM::AnotherVariantNameOfMoreThan23Bytes(inner.m()), LongVars::Num(inner) => LongVarsM::Num(inner.m()), LongVars::Big => LongVarsM::Big, LongVars::X(inner) => LongVarsM::X(inner.m()) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: LongVarsM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> LongVarsM { arbitrary() }
}
pub open spec fn long_vars_bare(v: V) -> R<LongVarsM> { if v == k_AVariantNameOfMoreThan23Bytes() { Ok(LongVarsM::AVariantNameOfMoreThan23Bytes) } else { if v == k_n4294967296() { Ok(LongVarsM::Big) } else { Err(DecodeError::UnknownField) } } }
pub open spec fn long_vars_by(k: V, x: V) -> R<LongVarsM> { if k == k_AnotherVariantNameOfMoreThan23Bytes() { match d_top::<u64>(x) { Ok(m) => Ok(LongVarsM::AnotherVariantNameOfMoreThan23Bytes(m)), Err(e) => Err(e) } } else { if k == k_n24() { match d_top::<bool>(x) { Ok(m) => Ok(LongVarsM::Num(m)), Err(e) => Err(e) } } else { if k == k28_() { match d_top::<u8>(x) { Ok(m) => Ok(LongVarsM::X(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn long_vars_dec(v: V) -> R<LongVarsM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { long_vars_by(s[0].0, s[0].1) }, _ => long_vars_bare(v) } }
pub proof fn long_vars_differ()
    ensures k_AVariantNameOfMoreThan23Bytes() != k_AnotherVariantNameOfMoreThan23Bytes(), k_AVariantNameOfMoreThan23Bytes() != k_n24(), k_AVariantNameOfMoreThan23Bytes() != k_n4294967296(), k_AVariantNameOfMoreThan23Bytes() != k28_(), k_AnotherVariantNameOfMoreThan23Bytes() != k_n24(), k_AnotherVariantNameOfMoreThan23Bytes() != k_n4294967296(), k_AnotherVariantNameOfMoreThan23Bytes() != k28_(), k_n24() != k_n4294967296(), k_n24() != k28_(), k_n4294967296() != k28_()
{
    lemma_texts_differ(seq![65u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8], seq![65u8, 110u8, 111u8, 116u8, 104u8, 101u8, 114u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8], 0);
    lemma_texts_differ(seq![65u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8], Seq::<u8>::empty(), 0);
    lemma_texts_differ(seq![65u8, 110u8, 111u8, 116u8, 104u8, 101u8, 114u8, 86u8, 97u8, 114u8, 105u8, 97u8, 110u8, 116u8, 78u8, 97u8, 109u8, 101u8, 79u8, 102u8, 77u8, 111u8, 114u8, 101u8, 84u8, 104u8, 97u8, 110u8, 50u8, 51u8, 66u8, 121u8, 116u8, 101u8, 115u8], Seq::<u8>::empty(), 0);
}
impl Codec for LongVars {
    open spec fn rt(&self) -> bool { match *self { LongVars::AVariantNameOfMoreThan23Bytes => true, LongVars::AnotherVariantNameOfMoreThan23Bytes(inner) => inner.rt_top(), LongVars::Num(inner) => inner.rt_top(), LongVars::Big => true, LongVars::X(inner) => inner.rt_top() } }
    proof fn back(&self) {
        long_vars_differ(); k_AVariantNameOfMoreThan23Bytes_lit(); k_AnotherVariantNameOfMoreThan23Bytes_lit(); k28__lit();
        match *self { LongVars::AVariantNameOfMoreThan23Bytes => { assert(norm(self.e()) == self.e()); } LongVars::AnotherVariantNameOfMoreThan23Bytes(inner) => { lemma_required(inner); lemma_one(k_AnotherVariantNameOfMoreThan23Bytes(), inner.e());  } LongVars::Num(inner) => { lemma_required(inner); lemma_one(k_n24(), inner.e());  } LongVars::Big => { assert(norm(self.e()) == self.e()); } LongVars::X(inner) => { lemma_required(inner); lemma_one(k28_(), inner.e());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<LongVarsM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ DiscNames
#[allow(inconsistent_fields)]
pub enum DiscNamesM { A, B, C, D }
impl Ty for DiscNames {
    type M = DiscNamesM;
    open spec fn m(self) -> DiscNamesM { match self { DiscNames::A => DiscNamesM::A, DiscNames::B => DiscNamesM::B, DiscNames::C => DiscNamesM::C, DiscNames::D => DiscNamesM::D } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: DiscNamesM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> DiscNamesM { arbitrary() }
}
pub open spec fn disc_names_bare(v: V) -> R<DiscNamesM> { if v == k_n24() { Ok(DiscNamesM::A) } else { if v == k_m25() { Ok(DiscNamesM::B) } else { if v == k_n23() { Ok(DiscNamesM::C) } else { if v == k_n256() { Ok(DiscNamesM::D) } else { Err(DecodeError::UnknownField) } } } } }
pub open spec fn disc_names_dec(v: V) -> R<DiscNamesM> { disc_names_bare(v) }
pub proof fn disc_names_differ()
    ensures k_n24() != k_m25(), k_n24() != k_n23(), k_n24() != k_n256(), k_m25() != k_n23(), k_m25() != k_n256(), k_n23() != k_n256()
{
}
impl Codec for DiscNames {
    open spec fn rt(&self) -> bool { match *self { DiscNames::A => true, DiscNames::B => true, DiscNames::C => true, DiscNames::D => true } }
    proof fn back(&self) {
        disc_names_differ(); 
        match *self { DiscNames::A => { assert(norm(self.e()) == self.e()); } DiscNames::B => { assert(norm(self.e()) == self.e()); } DiscNames::C => { assert(norm(self.e()) == self.e()); } DiscNames::D => { assert(norm(self.e()) == self.e()); } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<DiscNamesM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ VarMix
pub type VAR_MIX_TUP = (<u64 as Ty>::M, <u8 as Ty>::M, <bool as Ty>::M);
pub open spec fn var_mix_tup_m(f0: u64, f1: u8, f2: bool) -> VAR_MIX_TUP { (f0.m(), f1.m(), f2.m()) }
pub open spec fn var_mix_tup_a(f0: u64, f1: u8, f2: bool) -> Seq<V> { Seq::empty().push(enc_plus_s(f0).e()).push(f2.e()) }
pub open spec fn var_mix_tup_e(f0: u64, f1: u8, f2: bool) -> V { V::A(var_mix_tup_a(f0, f1, f2)) }
#[verifier::opaque]
pub open spec fn var_mix_tup_take(s: Seq<V>) -> R<VAR_MIX_TUP> { match f_next::<u128>(s) { Err(e) => Err(e), Ok((w_f0, s)) => match dec_plus_s(w_f0) { Err(e) => Err(e), Ok(m_f0) => match f_next::<bool>(s) { Err(e) => Err(e), Ok((m_f2, s)) => if s.len() > 0 { Err::<VAR_MIX_TUP, DecodeError>(DecodeError::UnknownField) } else { Ok::<VAR_MIX_TUP, DecodeError>((m_f0, 0int, m_f2)) } } } } }
pub open spec fn var_mix_tup_dec(v: V) -> R<VAR_MIX_TUP> { match v { V::A(s) => var_mix_tup_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn var_mix_tup_rt(f0: u64, f1: u8, f2: bool) -> bool { 
    &&& enc_plus_s(f0).rt_top() && dec_plus_s(enc_plus_s(f0).m()) == Ok::<<u64 as Ty>::M, DecodeError>(f0.m())
    &&& f1.m() == 0int
    &&& f2.rt_top() }
proof fn var_mix_tup_chain(s: Seq<V>, w_f0: <u128 as Ty>::M, w_f2: <bool as Ty>::M, m_f0: <u64 as Ty>::M)
    requires s.len() == 2, d_top::<u128>(s[0]) == Ok::<<u128 as Ty>::M, DecodeError>(w_f0), d_top::<bool>(s[1]) == Ok::<<bool as Ty>::M, DecodeError>(w_f2), dec_plus_s(w_f0) == Ok::<<u64 as Ty>::M, DecodeError>(m_f0)
    ensures var_mix_tup_take(s) == Ok::<VAR_MIX_TUP, DecodeError>((m_f0, 0int, w_f2))
{
    
    reveal(var_mix_tup_take); let s0 = s;
    lemma_next_step::<u128>(s0, w_f0); let s1 = s0.drop_first();
    lemma_next_step::<bool>(s1, w_f2); let s2 = s1.drop_first();
}
pub proof fn var_mix_tup_back(f0: u64, f1: u8, f2: bool)
    requires var_mix_tup_rt(f0, f1, f2)
    ensures var_mix_tup_dec(var_mix_tup_e(f0, f1, f2)) == Ok::<VAR_MIX_TUP, DecodeError>(var_mix_tup_m(f0, f1, f2)), var_mix_tup_dec(norm(var_mix_tup_e(f0, f1, f2))) == Ok::<VAR_MIX_TUP, DecodeError>(var_mix_tup_m(f0, f1, f2)), wf(var_mix_tup_e(f0, f1, f2)), !has_dup(var_mix_tup_e(f0, f1, f2))
{
    
    lemma_required::<u128>(enc_plus_s(f0));
    lemma_required::<bool>(f2);
    let aa = var_mix_tup_a(f0, f1, f2);
    lemma_arr_fields(aa);
    var_mix_tup_chain(aa, enc_plus_s(f0).m(), f2.m(), f0.m());
    var_mix_tup_chain(norms(aa), enc_plus_s(f0).m(), f2.m(), f0.m());
}
/// As many elements as there are fields.
pub proof fn c14_var_mix_tup(v: V)
    ensures var_mix_tup_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(var_mix_tup_take); reveal(f_next); }
pub type VAR_MIX_ARR = (<u16 as Ty>::M, <Option<u8> as Ty>::M);
pub open spec fn var_mix_arr_m(x: u16, y: Option<u8>) -> VAR_MIX_ARR { (x.m(), y.m()) }
pub open spec fn var_mix_arr_a(x: u16, y: Option<u8>) -> Seq<V> { Seq::empty().push(x.e()).push(y.e()) }
pub open spec fn var_mix_arr_e(x: u16, y: Option<u8>) -> V { V::A(var_mix_arr_a(x, y)) }
#[verifier::opaque]
pub open spec fn var_mix_arr_take(s: Seq<V>) -> R<VAR_MIX_ARR> { match f_next::<u16>(s) { Err(e) => Err(e), Ok((w_x, s)) => match dec_small_s(w_x) { Err(e) => Err(e), Ok(m_x) => match f_next::<Option<u8>>(s) { Err(e) => Err(e), Ok((m_y, s)) => Ok::<VAR_MIX_ARR, DecodeError>((m_x, m_y)) } } } }
pub open spec fn var_mix_arr_dec(v: V) -> R<VAR_MIX_ARR> { match v { V::A(s) => var_mix_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn var_mix_arr_rt(x: u16, y: Option<u8>) -> bool { 
    &&& x.rt_top() && dec_small_s(x.m()) == Ok::<<u16 as Ty>::M, DecodeError>(x.m())
    &&& y.rt_top() }
proof fn var_mix_arr_chain(s: Seq<V>, w_x: <u16 as Ty>::M, w_y: <Option<u8> as Ty>::M, m_x: <u16 as Ty>::M)
    requires s.len() == 2, d_top::<u16>(s[0]) == Ok::<<u16 as Ty>::M, DecodeError>(w_x), d_top::<Option<u8>>(s[1]) == Ok::<<Option<u8> as Ty>::M, DecodeError>(w_y), dec_small_s(w_x) == Ok::<<u16 as Ty>::M, DecodeError>(m_x)
    ensures var_mix_arr_take(s) == Ok::<VAR_MIX_ARR, DecodeError>((m_x, w_y))
{
    
    reveal(var_mix_arr_take); let s0 = s;
    lemma_next_step::<u16>(s0, w_x); let s1 = s0.drop_first();
    lemma_next_step::<Option<u8>>(s1, w_y); let s2 = s1.drop_first();
}
pub proof fn var_mix_arr_back(x: u16, y: Option<u8>)
    requires var_mix_arr_rt(x, y)
    ensures var_mix_arr_dec(var_mix_arr_e(x, y)) == Ok::<VAR_MIX_ARR, DecodeError>(var_mix_arr_m(x, y)), var_mix_arr_dec(norm(var_mix_arr_e(x, y))) == Ok::<VAR_MIX_ARR, DecodeError>(var_mix_arr_m(x, y)), wf(var_mix_arr_e(x, y)), !has_dup(var_mix_arr_e(x, y))
{
    
    lemma_required::<u16>(x);
    lemma_required::<Option<u8>>(y);
    let aa = var_mix_arr_a(x, y);
    lemma_arr_fields(aa);
    var_mix_arr_chain(aa, x.m(), y.m(), x.m());
    var_mix_arr_chain(norms(aa), x.m(), y.m(), x.m());
}
/// As many elements as there are fields.
pub proof fn c14_var_mix_arr(v: V)
    ensures var_mix_arr_dec(v) is Ok ==> v is A && v->A_0.len() >= 2
{ reveal(var_mix_arr_take); reveal(f_next); }
pub type VAR_MIX_EMPTY_TUP = ();
pub open spec fn var_mix_empty_tup_m() -> VAR_MIX_EMPTY_TUP { () }
pub open spec fn var_mix_empty_tup_a() -> Seq<V> { Seq::empty() }
pub open spec fn var_mix_empty_tup_e() -> V { V::A(var_mix_empty_tup_a()) }
#[verifier::opaque]
pub open spec fn var_mix_empty_tup_take(s: Seq<V>) -> R<VAR_MIX_EMPTY_TUP> { if s.len() > 0 { Err::<VAR_MIX_EMPTY_TUP, DecodeError>(DecodeError::UnknownField) } else { Ok::<VAR_MIX_EMPTY_TUP, DecodeError>(()) } }
pub open spec fn var_mix_empty_tup_dec(v: V) -> R<VAR_MIX_EMPTY_TUP> { match v { V::A(s) => var_mix_empty_tup_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn var_mix_empty_tup_rt() -> bool { true }
proof fn var_mix_empty_tup_chain(s: Seq<V>, )
    requires s.len() == 0
    ensures var_mix_empty_tup_take(s) == Ok::<VAR_MIX_EMPTY_TUP, DecodeError>(())
{
    
    reveal(var_mix_empty_tup_take); let s0 = s;
}
pub proof fn var_mix_empty_tup_back()
    requires var_mix_empty_tup_rt()
    ensures var_mix_empty_tup_dec(var_mix_empty_tup_e()) == Ok::<VAR_MIX_EMPTY_TUP, DecodeError>(var_mix_empty_tup_m()), var_mix_empty_tup_dec(norm(var_mix_empty_tup_e())) == Ok::<VAR_MIX_EMPTY_TUP, DecodeError>(var_mix_empty_tup_m()), wf(var_mix_empty_tup_e()), !has_dup(var_mix_empty_tup_e())
{
    
    let aa = var_mix_empty_tup_a();
    lemma_arr_fields(aa);
    var_mix_empty_tup_chain(aa, );
    var_mix_empty_tup_chain(norms(aa), );
}
/// As many elements as there are fields.
pub proof fn c14_var_mix_empty_tup(v: V)
    ensures var_mix_empty_tup_dec(v) is Ok ==> v is A && v->A_0.len() == 0
{ reveal(var_mix_empty_tup_take); reveal(f_next); }
pub type VAR_MIX_LOOSE_UNIT = ();
pub open spec fn var_mix_loose_unit_m() -> VAR_MIX_LOOSE_UNIT { () }
pub open spec fn var_mix_loose_unit_e() -> V { V::M(Seq::empty()) }
pub open spec fn var_mix_loose_unit_dec(v: V) -> R<VAR_MIX_LOOSE_UNIT> { match v { V::M(s) => Ok(()), _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn var_mix_loose_unit_rt() -> bool { true }
pub proof fn var_mix_loose_unit_back()
    ensures var_mix_loose_unit_dec(var_mix_loose_unit_e()) is Ok, norm(var_mix_loose_unit_e()) == var_mix_loose_unit_e(), wf(var_mix_loose_unit_e()), !has_dup(var_mix_loose_unit_e())
{ lemma_no_entries(); }
#[allow(inconsistent_fields)]
pub enum VarMixM { Tup((<u64 as Ty>::M, <u8 as Ty>::M, <bool as Ty>::M)), Arr((<u16 as Ty>::M, <Option<u8> as Ty>::M)), EmptyTup(()), LooseUnit }
impl Ty for VarMix {
    type M = VarMixM;
    open spec fn m(self) -> VarMixM { match self { VarMix::Tup(f0, f1, f2) => VarMixM::Tup((f0.m(), f1.m(), f2.m())), VarMix::Arr { x, y } => VarMixM::Arr((x.m(), y.m())), VarMix::EmptyTup() => VarMixM::EmptyTup(()), VarMix::LooseUnit => VarMixM::LooseUnit } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: VarMixM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> VarMixM { arbitrary() }
}
pub open spec fn var_mix_bare(v: V) -> R<VarMixM> { Err(DecodeError::UnknownField) }
pub open spec fn var_mix_by(k: V, x: V) -> R<VarMixM> { if k == k_Tup() { match var_mix_tup_dec(x) { Ok(m) => Ok(VarMixM::Tup(m)), Err(e) => Err(e) } } else { if k == k_Arr() { match var_mix_arr_dec(x) { Ok(m) => Ok(VarMixM::Arr(m)), Err(e) => Err(e) } } else { if k == k_EmptyTup() { match var_mix_empty_tup_dec(x) { Ok(m) => Ok(VarMixM::EmptyTup(m)), Err(e) => Err(e) } } else { if k == k_LooseUnit() { match var_mix_loose_unit_dec(x) { Ok(m) => Ok(VarMixM::LooseUnit), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } } }
pub open spec fn var_mix_dec(v: V) -> R<VarMixM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { var_mix_by(s[0].0, s[0].1) }, _ => var_mix_bare(v) } }
pub proof fn var_mix_differ()
    ensures k_Tup() != k_Arr(), k_Tup() != k_EmptyTup(), k_Tup() != k_LooseUnit(), k_Arr() != k_EmptyTup(), k_Arr() != k_LooseUnit(), k_EmptyTup() != k_LooseUnit()
{
    lemma_texts_differ(seq![84u8, 117u8, 112u8], seq![65u8, 114u8, 114u8], 0);
    lemma_texts_differ(seq![84u8, 117u8, 112u8], seq![69u8, 109u8, 112u8, 116u8, 121u8, 84u8, 117u8, 112u8], 0);
    lemma_texts_differ(seq![84u8, 117u8, 112u8], seq![76u8, 111u8, 111u8, 115u8, 101u8, 85u8, 110u8, 105u8, 116u8], 0);
    lemma_texts_differ(seq![65u8, 114u8, 114u8], seq![69u8, 109u8, 112u8, 116u8, 121u8, 84u8, 117u8, 112u8], 0);
    lemma_texts_differ(seq![65u8, 114u8, 114u8], seq![76u8, 111u8, 111u8, 115u8, 101u8, 85u8, 110u8, 105u8, 116u8], 0);
    lemma_texts_differ(seq![69u8, 109u8, 112u8, 116u8, 121u8, 84u8, 117u8, 112u8], seq![76u8, 111u8, 111u8, 115u8, 101u8, 85u8, 110u8, 105u8, 116u8], 0);
}
impl Codec for VarMix {
    open spec fn rt(&self) -> bool { match *self { VarMix::Tup(f0, f1, f2) => var_mix_tup_rt(f0, f1, f2), VarMix::Arr { x, y } => var_mix_arr_rt(x, y), VarMix::EmptyTup() => var_mix_empty_tup_rt(), VarMix::LooseUnit => var_mix_loose_unit_rt() } }
    proof fn back(&self) {
        var_mix_differ(); k_Tup_lit(); k_Arr_lit(); k_EmptyTup_lit(); k_LooseUnit_lit();
        match *self { VarMix::Tup(f0, f1, f2) => { var_mix_tup_back(f0, f1, f2); lemma_one(k_Tup(), var_mix_tup_e(f0, f1, f2));  } VarMix::Arr { x, y } => { var_mix_arr_back(x, y); lemma_one(k_Arr(), var_mix_arr_e(x, y));  } VarMix::EmptyTup() => { var_mix_empty_tup_back(); lemma_one(k_EmptyTup(), var_mix_empty_tup_e());  } VarMix::LooseUnit => { var_mix_loose_unit_back(); lemma_one(k_LooseUnit(), var_mix_loose_unit_e());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<VarMixM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ VarRec
pub type VAR_REC_REC = (<bool as Ty>::M, <u64 as Ty>::M, <u8 as Ty>::M);
pub open spec fn var_rec_rec_m(b: bool, n: u64, o: u8) -> VAR_REC_REC { (b.m(), n.m(), o.m()) }
pub open spec fn var_rec_rec_d(b: bool, n: u64, o: u8) -> Seq<KO> { Seq::empty().push((k_n3(), Some(enc_not_s(b).e()))).push((k_n(), (if is_zero_s(n) { None } else { Some(n.e()) }))).push((k_o(), (if o.omit() { None } else { Some(o.e()) }))) }
pub open spec fn var_rec_rec_e(b: bool, n: u64, o: u8) -> V { V::M(ents(var_rec_rec_d(b, n, o))) }
#[verifier::opaque]
pub open spec fn var_rec_rec_take(s: Seq<KV>) -> R<VAR_REC_REC> { match f_strict::<bool>(s, k_n3()) { Err(e) => Err(e), Ok((w_b, s)) => match dec_not_s(w_b) { Err(e) => Err(e), Ok(m_b) => match f_strict::<u64>(s, k_n()) { Err(e) => Err(e), Ok((m_n, s)) => match f_strict::<u8>(s, k_o()) { Err(e) => Err(e), Ok((m_o, s)) => if s.len() > 0 { Err::<VAR_REC_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<VAR_REC_REC, DecodeError>((m_b, m_n, m_o)) } } } } } }
pub open spec fn var_rec_rec_dec(v: V) -> R<VAR_REC_REC> { match v { V::M(s) => var_rec_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn var_rec_rec_rt(b: bool, n: u64, o: u8) -> bool { 
    &&& enc_not_s(b).rt_top() && dec_not_s(enc_not_s(b).m()) == Ok::<<bool as Ty>::M, DecodeError>(b.m())
    &&& n.rt_top() && (is_zero_s(n) ==> d_top::<u64>(null()) == Ok::<<u64 as Ty>::M, DecodeError>(n.m()))
    &&& o.rt_top() && !o.lost() }
pub open spec fn var_rec_rec_ks() -> Seq<V> { seq![k_n3(), k_n(), k_o()] }
pub proof fn var_rec_rec_keys()
    ensures plain(k_n3()), plain(k_n()), plain(k_o()), ord(k_n3(), k_n()) is Less, ord(k_n3(), k_o()) is Less, ord(k_n(), k_o()) is Less
{
    lemma_text_less(seq![110u8], seq![111u8], 0);
    k_n_lit();
    k_o_lit();
}
proof fn var_rec_rec_chain(l: Seq<KO>, w_b: <bool as Ty>::M, w_n: <u64 as Ty>::M, w_o: <u8 as Ty>::M, m_b: <bool as Ty>::M)
    requires rising(l), l.len() == 3, l[0].0 == k_n3(), d_top::<bool>(or_null(l[0].1)) == Ok::<<bool as Ty>::M, DecodeError>(w_b), l[1].0 == k_n(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_n), l[2].0 == k_o(), d_top::<u8>(or_null(l[2].1)) == Ok::<<u8 as Ty>::M, DecodeError>(w_o), dec_not_s(w_b) == Ok::<<bool as Ty>::M, DecodeError>(m_b)
    ensures var_rec_rec_take(ents(l)) == Ok::<VAR_REC_REC, DecodeError>((m_b, w_n, w_o))
{
    
    reveal(var_rec_rec_take); let l0 = l;
    lemma_field_step::<bool>(l0, w_b); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_n); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<u8>(l2, w_o); let l3 = l2.drop_first();
    assert(l3.len() == 0); assert(ents(l3).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn var_rec_rec_back(b: bool, n: u64, o: u8)
    requires var_rec_rec_rt(b, n, o)
    ensures var_rec_rec_dec(var_rec_rec_e(b, n, o)) == Ok::<VAR_REC_REC, DecodeError>(var_rec_rec_m(b, n, o)), var_rec_rec_dec(norm(var_rec_rec_e(b, n, o))) == Ok::<VAR_REC_REC, DecodeError>(var_rec_rec_m(b, n, o)), wf(var_rec_rec_e(b, n, o)), !has_dup(var_rec_rec_e(b, n, o))
{
    
    var_rec_rec_keys();
    lemma_required::<bool>(enc_not_s(b));
    lemma_required::<u64>(n);
    lemma_optional::<u8>(o);
    let dd = var_rec_rec_d(b, n, o);
    let ll: Seq<KO> = seq![dd[0], dd[1], dd[2]];
    lemma_rearranged(dd, ll, seq![0int, 1int, 2int], seq![0int, 1int, 2int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    var_rec_rec_chain(ll, enc_not_s(b).m(), n.m(), o.m(), b.m());
    var_rec_rec_chain(normo(ll), enc_not_s(b).m(), n.m(), o.m(), b.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_var_rec_rec(b: bool, n: u64, o: u8)
    ensures lookup(ents(var_rec_rec_d(b, n, o)), k_n3()) == Some(enc_not_s(b).e()), lookup(ents(var_rec_rec_d(b, n, o)), k_n()) == (if is_zero_s(n) { None } else { Some(n.e()) }), lookup(ents(var_rec_rec_d(b, n, o)), k_o()) == (if o.omit() { None } else { Some(o.e()) })
{
    
    var_rec_rec_keys();
    let dd = var_rec_rec_d(b, n, o);
    lemma_ord_refl(k_n3());    lemma_ord_refl(k_n());    lemma_ord_refl(k_o());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_var_rec_rec(s: Seq<KV>)
    ensures var_rec_rec_dec(V::M(s)) is Ok ==> declared(s, var_rec_rec_ks()), var_rec_rec_dec(V::M(s)) is Ok ==> var_rec_rec_found(s)
{
    
    if var_rec_rec_dec(V::M(s)) is Ok {
        var_rec_rec_keys(); reveal(var_rec_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<bool>(s0, k_n3())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_n())->Ok_0.1;
        let s3 = f_strict::<u8>(s2, k_o())->Ok_0.1;
        let q3 = Seq::<V>::empty();
        lemma_declared_none(s3, q3);
        let q2 = seq![k_o()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<u8>(s2, q2);
        let q1 = seq![k_n(), k_o()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_n3(), k_n(), k_o()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<bool>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= var_rec_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<bool>(s0, k_n3()); lemma_loose_step::<bool>(s0, k_n3());
        lemma_strict_loose::<u64>(s1, k_n()); lemma_loose_step::<u64>(s1, k_n());
        lemma_strict_loose::<u8>(s2, k_o()); lemma_loose_step::<u8>(s2, k_o());
    }
}
pub open spec fn var_rec_rec_found(s: Seq<KV>) -> bool { d_top::<bool>(or_null(lookup(s, k_n3()))) is Ok && dec_not_s(d_top::<bool>(or_null(lookup(s, k_n3())))->Ok_0) == Ok::<<bool as Ty>::M, DecodeError>(var_rec_rec_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_n()))) == Ok::<<u64 as Ty>::M, DecodeError>(var_rec_rec_dec(V::M(s))->Ok_0.1) && d_top::<u8>(or_null(lookup(s, k_o()))) == Ok::<<u8 as Ty>::M, DecodeError>(var_rec_rec_dec(V::M(s))->Ok_0.2) }
pub proof fn c14_var_rec_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures var_rec_rec_dec(V::M(s)) == var_rec_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
pub type VAR_REC_LOOSE = (<u16 as Ty>::M,);
pub open spec fn var_rec_loose_m(n: u16) -> VAR_REC_LOOSE { (n.m(),) }
pub open spec fn var_rec_loose_d(n: u16) -> Seq<KO> { Seq::empty().push((k_n(), (if n.omit() { None } else { Some(n.e()) }))) }
pub open spec fn var_rec_loose_e(n: u16) -> V { V::M(ents(var_rec_loose_d(n))) }
#[verifier::opaque]
pub open spec fn var_rec_loose_take(s: Seq<KV>) -> R<VAR_REC_LOOSE> { match f_loose::<u16>(s, k_n()) { Err(e) => Err(e), Ok((w_n, s)) => match dec_small_s(w_n) { Err(e) => Err(e), Ok(m_n) => Ok::<VAR_REC_LOOSE, DecodeError>((m_n,)) } } }
pub open spec fn var_rec_loose_dec(v: V) -> R<VAR_REC_LOOSE> { match v { V::M(s) => var_rec_loose_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn var_rec_loose_rt(n: u16) -> bool { 
    &&& n.rt_top() && dec_small_s(n.m()) == Ok::<<u16 as Ty>::M, DecodeError>(n.m()) && !n.lost() }
pub open spec fn var_rec_loose_ks() -> Seq<V> { seq![k_n()] }
pub proof fn var_rec_loose_keys()
    ensures plain(k_n())
{
    k_n_lit();
}
proof fn var_rec_loose_chain(l: Seq<KO>, w_n: <u16 as Ty>::M, m_n: <u16 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_n(), d_top::<u16>(or_null(l[0].1)) == Ok::<<u16 as Ty>::M, DecodeError>(w_n), dec_small_s(w_n) == Ok::<<u16 as Ty>::M, DecodeError>(m_n)
    ensures var_rec_loose_take(ents(l)) == Ok::<VAR_REC_LOOSE, DecodeError>((m_n,))
{
    
    reveal(var_rec_loose_take); let l0 = l;
    lemma_field_step::<u16>(l0, w_n); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn var_rec_loose_back(n: u16)
    requires var_rec_loose_rt(n)
    ensures var_rec_loose_dec(var_rec_loose_e(n)) == Ok::<VAR_REC_LOOSE, DecodeError>(var_rec_loose_m(n)), var_rec_loose_dec(norm(var_rec_loose_e(n))) == Ok::<VAR_REC_LOOSE, DecodeError>(var_rec_loose_m(n)), wf(var_rec_loose_e(n)), !has_dup(var_rec_loose_e(n))
{
    
    var_rec_loose_keys();
    lemma_optional::<u16>(n);
    let dd = var_rec_loose_d(n);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    var_rec_loose_chain(ll, n.m(), n.m());
    var_rec_loose_chain(normo(ll), n.m(), n.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_var_rec_loose(n: u16)
    ensures lookup(ents(var_rec_loose_d(n)), k_n()) == (if n.omit() { None } else { Some(n.e()) })
{
    
    var_rec_loose_keys();
    let dd = var_rec_loose_d(n);
    lemma_ord_refl(k_n());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Unknown keys are ignored wherever they sort; every field from the entry of its key.
pub proof fn c14_var_rec_loose(s: Seq<KV>)
    requires distinct_keys(s)
    ensures var_rec_loose_dec(V::M(s)) is Ok ==> var_rec_loose_found(s), d_top::<u16>(or_null(lookup(s, k_n()))) is Ok && dec_small_s(d_top::<u16>(or_null(lookup(s, k_n())))->Ok_0) is Ok ==> var_rec_loose_dec(V::M(s)) is Ok
{
    
    var_rec_loose_keys(); reveal(var_rec_loose_take);
    lemma_sort_lookup(s);
    let s0 = tsort(s);
    lemma_loose_step::<u16>(s0, k_n()); if f_loose::<u16>(s0, k_n()) is Ok { let s1 = f_loose::<u16>(s0, k_n())->Ok_0.1;
}}
pub open spec fn var_rec_loose_found(s: Seq<KV>) -> bool { d_top::<u16>(or_null(lookup(s, k_n()))) is Ok && dec_small_s(d_top::<u16>(or_null(lookup(s, k_n())))->Ok_0) == Ok::<<u16 as Ty>::M, DecodeError>(var_rec_loose_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_var_rec_loose_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures var_rec_loose_dec(V::M(s)) == var_rec_loose_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum VarRecM { Rec((<bool as Ty>::M, <u64 as Ty>::M, <u8 as Ty>::M)), Loose((<u16 as Ty>::M,)) }
impl Ty for VarRec {
    type M = VarRecM;
    open spec fn m(self) -> VarRecM { match self { VarRec::Rec { b, n, o } => VarRecM::Rec((b.m(), n.m(), o.m())), VarRec::Loose { n } => VarRecM::Loose((n.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: VarRecM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> VarRecM { arbitrary() }
}
pub open spec fn var_rec_bare(v: V) -> R<VarRecM> { Err(DecodeError::UnknownField) }
pub open spec fn var_rec_by(k: V, x: V) -> R<VarRecM> { if k == k_Rec() { match var_rec_rec_dec(x) { Ok(m) => Ok(VarRecM::Rec(m)), Err(e) => Err(e) } } else { if k == k_Loose() { match var_rec_loose_dec(x) { Ok(m) => Ok(VarRecM::Loose(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn var_rec_dec(v: V) -> R<VarRecM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { var_rec_by(s[0].0, s[0].1) }, _ => var_rec_bare(v) } }
pub proof fn var_rec_differ()
    ensures k_Rec() != k_Loose()
{
    lemma_texts_differ(seq![82u8, 101u8, 99u8], seq![76u8, 111u8, 111u8, 115u8, 101u8], 0);
}
impl Codec for VarRec {
    open spec fn rt(&self) -> bool { match *self { VarRec::Rec { b, n, o } => var_rec_rec_rt(b, n, o), VarRec::Loose { n } => var_rec_loose_rt(n) } }
    proof fn back(&self) {
        var_rec_differ(); k_Rec_lit(); k_Loose_lit();
        match *self { VarRec::Rec { b, n, o } => { var_rec_rec_back(b, n, o); lemma_one(k_Rec(), var_rec_rec_e(b, n, o));  } VarRec::Loose { n } => { var_rec_loose_back(n); lemma_one(k_Loose(), var_rec_loose_e(n));  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<VarRecM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ Kids
pub type KIDS_REC = (<u64 as Ty>::M,);
pub open spec fn kids_rec_m(a: u64) -> KIDS_REC { (a.m(),) }
pub open spec fn kids_rec_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn kids_rec_e(a: u64) -> V { V::M(ents(kids_rec_d(a))) }
#[verifier::opaque]
pub open spec fn kids_rec_take(s: Seq<KV>) -> R<KIDS_REC> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<KIDS_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<KIDS_REC, DecodeError>((m_a,)) } } }
pub open spec fn kids_rec_dec(v: V) -> R<KIDS_REC> { match v { V::M(s) => kids_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn kids_rec_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn kids_rec_ks() -> Seq<V> { seq![k_a()] }
pub proof fn kids_rec_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn kids_rec_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures kids_rec_take(ents(l)) == Ok::<KIDS_REC, DecodeError>((w_a,))
{
    
    reveal(kids_rec_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn kids_rec_back(a: u64)
    requires kids_rec_rt(a)
    ensures kids_rec_dec(kids_rec_e(a)) == Ok::<KIDS_REC, DecodeError>(kids_rec_m(a)), kids_rec_dec(norm(kids_rec_e(a))) == Ok::<KIDS_REC, DecodeError>(kids_rec_m(a)), wf(kids_rec_e(a)), !has_dup(kids_rec_e(a))
{
    
    kids_rec_keys();
    lemma_required::<u64>(a);
    let dd = kids_rec_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    kids_rec_chain(ll, a.m());
    kids_rec_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_kids_rec(a: u64)
    ensures lookup(ents(kids_rec_d(a)), k_a()) == Some(a.e())
{
    
    kids_rec_keys();
    let dd = kids_rec_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_kids_rec(s: Seq<KV>)
    ensures kids_rec_dec(V::M(s)) is Ok ==> declared(s, kids_rec_ks()), kids_rec_dec(V::M(s)) is Ok ==> kids_rec_found(s)
{
    
    if kids_rec_dec(V::M(s)) is Ok {
        kids_rec_keys(); reveal(kids_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= kids_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
    }
}
pub open spec fn kids_rec_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(kids_rec_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_kids_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures kids_rec_dec(V::M(s)) == kids_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum KidsM { Own, Num(<Units as Ty>::M), Kid(<Child as Ty>::M), Rec((<u64 as Ty>::M,)) }
impl Ty for Kids {
    type M = KidsM;
    open spec fn m(self) -> KidsM { match self { Kids::Own => KidsM::Own, Kids::Num(inner) => KidsM::Num(inner.m()), Kids::Kid(inner) => KidsM::Kid(inner.m()), Kids::Rec { a } => KidsM::Rec((a.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: KidsM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> KidsM { arbitrary() }
}
pub open spec fn kids_bare(v: V) -> R<KidsM> { if v == k_o() { Ok(KidsM::Own) } else { match d_top::<Units>(v) { Ok(m) => Ok(KidsM::Num(m)), _ => match d_top::<Child>(v) { Ok(m) => Ok(KidsM::Kid(m)), _ => Err(DecodeError::UnknownField) } } } }
pub open spec fn kids_by(k: V, x: V) -> R<KidsM> { if k == k_r() { match kids_rec_dec(x) { Ok(m) => Ok(KidsM::Rec(m)), Err(e) => Err(e) } } else { match d_top::<Units>(V::M(one(k, x))) { Ok(m) => Ok(KidsM::Num(m)), _ => match d_top::<Child>(V::M(one(k, x))) { Ok(m) => Ok(KidsM::Kid(m)), _ => Err(DecodeError::UnknownField) } } } }
pub open spec fn kids_dec(v: V) -> R<KidsM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { kids_by(s[0].0, s[0].1) }, _ => kids_bare(v) } }
pub open spec fn kids_own(v: V) -> bool { match v { V::M(s) => !(s.len() == 1 && s[0].0 != k_r()), _ => v == k_o() || false } }
pub proof fn kids_differ()
    ensures k_o() != k_r()
{
    lemma_texts_differ(seq![111u8], seq![114u8], 0);
}
impl Codec for Kids {
    open spec fn rt(&self) -> bool { match *self { Kids::Own => true, Kids::Num(inner) => inner.rt_top() && !kids_own(inner.e()) && !kids_own(norm(inner.e())), Kids::Kid(inner) => inner.rt_top() && !kids_own(inner.e()) && !kids_own(norm(inner.e())) && d_top::<Units>(inner.e()) is Err && d_top::<Units>(norm(inner.e())) is Err, Kids::Rec { a } => kids_rec_rt(a) } }
    proof fn back(&self) {
        kids_differ(); k_o_lit(); k_r_lit();
        match *self { Kids::Own => { assert(norm(self.e()) == self.e()); } Kids::Num(inner) => { lemma_required(inner); assert(inner.e() is M ==> norm(inner.e()) is M && norm(inner.e())->M_0.len() == inner.e()->M_0.len()) by { lemma_norm_unfold(inner.e()); if inner.e() is M { lemma_nsort(normm(inner.e()->M_0)); } } lemma_only(inner.e()); lemma_only(norm(inner.e())); } Kids::Kid(inner) => { lemma_required(inner); assert(inner.e() is M ==> norm(inner.e()) is M && norm(inner.e())->M_0.len() == inner.e()->M_0.len()) by { lemma_norm_unfold(inner.e()); if inner.e() is M { lemma_nsort(normm(inner.e()->M_0)); } } lemma_only(inner.e()); lemma_only(norm(inner.e())); } Kids::Rec { a } => { kids_rec_back(a); lemma_one(k_r(), kids_rec_e(a));  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<KidsM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ TagDisc
pub type TAG_DISC_A = ();
pub open spec fn tag_disc_a_m() -> TAG_DISC_A { () }
pub open spec fn tag_disc_a_e() -> V { V::M(Seq::empty()) }
pub open spec fn tag_disc_a_dec(v: V) -> R<TAG_DISC_A> { match v { V::M(s) => if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }, _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn tag_disc_a_rt() -> bool { true }
pub proof fn tag_disc_a_back()
    ensures tag_disc_a_dec(tag_disc_a_e()) is Ok, norm(tag_disc_a_e()) == tag_disc_a_e(), wf(tag_disc_a_e()), !has_dup(tag_disc_a_e())
{ lemma_no_entries(); }
pub type TAG_DISC_B = ();
pub open spec fn tag_disc_b_m() -> TAG_DISC_B { () }
pub open spec fn tag_disc_b_e() -> V { V::M(Seq::empty()) }
pub open spec fn tag_disc_b_dec(v: V) -> R<TAG_DISC_B> { match v { V::M(s) => if s.len() > 0 { Err(DecodeError::UnknownField) } else { Ok(()) }, _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn tag_disc_b_rt() -> bool { true }
pub proof fn tag_disc_b_back()
    ensures tag_disc_b_dec(tag_disc_b_e()) is Ok, norm(tag_disc_b_e()) == tag_disc_b_e(), wf(tag_disc_b_e()), !has_dup(tag_disc_b_e())
{ lemma_no_entries(); }
pub type TAG_DISC_LOOSE_C = ();
pub open spec fn tag_disc_loose_c_m() -> TAG_DISC_LOOSE_C { () }
pub open spec fn tag_disc_loose_c_e() -> V { V::M(Seq::empty()) }
pub open spec fn tag_disc_loose_c_dec(v: V) -> R<TAG_DISC_LOOSE_C> { match v { V::M(s) => Ok(()), _ => if is_null(v) { Ok(()) } else { Err(DecodeError::UnexpectedType) } } }
pub open spec fn tag_disc_loose_c_rt() -> bool { true }
pub proof fn tag_disc_loose_c_back()
    ensures tag_disc_loose_c_dec(tag_disc_loose_c_e()) is Ok, norm(tag_disc_loose_c_e()) == tag_disc_loose_c_e(), wf(tag_disc_loose_c_e()), !has_dup(tag_disc_loose_c_e())
{ lemma_no_entries(); }
#[allow(inconsistent_fields)]
pub enum TagDiscM { A, B, LooseC }
impl Ty for TagDisc {
    type M = TagDiscM;
    open spec fn m(self) -> TagDiscM { match self { TagDisc::A => TagDiscM::A, TagDisc::B => TagDiscM::B, TagDisc::LooseC => TagDiscM::LooseC } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TagDiscM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TagDiscM { arbitrary() }
}
pub open spec fn tag_disc_by(k: V, x: V) -> R<TagDiscM> { if k == k_A() { match tag_disc_a_dec(x) { Ok(m) => Ok(TagDiscM::A), Err(e) => Err(e) } } else { if k == k_b() { match tag_disc_b_dec(x) { Ok(m) => Ok(TagDiscM::B), Err(e) => Err(e) } } else { if k == k_LooseC() { match tag_disc_loose_c_dec(x) { Ok(m) => Ok(TagDiscM::LooseC), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } } }
pub open spec fn tag_disc_dec(v: V) -> R<TagDiscM> { match v { V::M(s) => tag_disc_by(untag(s, k_t()).0, V::M(untag(s, k_t()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn tag_disc_differ()
    ensures k_A() != k_b(), k_A() != k_LooseC(), k_b() != k_LooseC()
{
    lemma_texts_differ(seq![65u8], seq![98u8], 0);
    lemma_texts_differ(seq![65u8], seq![76u8, 111u8, 111u8, 115u8, 101u8, 67u8], 0);
    lemma_texts_differ(seq![98u8], seq![76u8, 111u8, 111u8, 115u8, 101u8, 67u8], 0);
}
impl Codec for TagDisc {
    open spec fn rt(&self) -> bool { match *self { TagDisc::A => tag_disc_a_rt(), TagDisc::B => tag_disc_b_rt(), TagDisc::LooseC => tag_disc_loose_c_rt() } }
    proof fn back(&self) {
        tag_disc_differ(); k_t_lit(); k_A_lit(); k_b_lit(); k_LooseC_lit();
        match *self { TagDisc::A => { tag_disc_a_back(); lemma_no_entries(); lemma_tagged(tag_disc_a_e()->M_0, k_t(), k_A());  } TagDisc::B => { tag_disc_b_back(); lemma_no_entries(); lemma_tagged(tag_disc_b_e()->M_0, k_t(), k_b());  } TagDisc::LooseC => { tag_disc_loose_c_back(); lemma_no_entries(); lemma_tagged(tag_disc_loose_c_e()->M_0, k_t(), k_LooseC());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<TagDiscM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ TagMid
pub type TAG_MID_REC = (<u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn tag_mid_rec_m(a: u64, zz: u64) -> TAG_MID_REC { (a.m(), zz.m()) }
pub open spec fn tag_mid_rec_d(a: u64, zz: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))).push((k_zz(), Some(zz.e()))) }
pub open spec fn tag_mid_rec_e(a: u64, zz: u64) -> V { V::M(ents(tag_mid_rec_d(a, zz))) }
#[verifier::opaque]
pub open spec fn tag_mid_rec_take(s: Seq<KV>) -> R<TAG_MID_REC> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => match f_strict::<u64>(s, k_zz()) { Err(e) => Err(e), Ok((m_zz, s)) => if s.len() > 0 { Err::<TAG_MID_REC, DecodeError>(DecodeError::UnknownField) } else { Ok::<TAG_MID_REC, DecodeError>((m_a, m_zz)) } } } }
pub open spec fn tag_mid_rec_dec(v: V) -> R<TAG_MID_REC> { match v { V::M(s) => tag_mid_rec_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tag_mid_rec_rt(a: u64, zz: u64) -> bool { 
    &&& a.rt_top()
    &&& zz.rt_top() }
pub open spec fn tag_mid_rec_ks() -> Seq<V> { seq![k_a(), k_zz()] }
pub proof fn tag_mid_rec_keys()
    ensures plain(k_a()), plain(k_zz()), ord(k_a(), k_zz()) is Less
{
    lemma_text_less(seq![97u8], seq![122u8, 122u8], 0);
    k_a_lit();
    k_zz_lit();
}
proof fn tag_mid_rec_chain(l: Seq<KO>, w_a: <u64 as Ty>::M, w_zz: <u64 as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a), l[1].0 == k_zz(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_zz)
    ensures tag_mid_rec_take(ents(l)) == Ok::<TAG_MID_REC, DecodeError>((w_a, w_zz))
{
    
    reveal(tag_mid_rec_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_zz); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn tag_mid_rec_back(a: u64, zz: u64)
    requires tag_mid_rec_rt(a, zz)
    ensures tag_mid_rec_dec(tag_mid_rec_e(a, zz)) == Ok::<TAG_MID_REC, DecodeError>(tag_mid_rec_m(a, zz)), tag_mid_rec_dec(norm(tag_mid_rec_e(a, zz))) == Ok::<TAG_MID_REC, DecodeError>(tag_mid_rec_m(a, zz)), wf(tag_mid_rec_e(a, zz)), !has_dup(tag_mid_rec_e(a, zz))
{
    
    tag_mid_rec_keys();
    lemma_required::<u64>(a);
    lemma_required::<u64>(zz);
    let dd = tag_mid_rec_d(a, zz);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    tag_mid_rec_chain(ll, a.m(), zz.m());
    tag_mid_rec_chain(normo(ll), a.m(), zz.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_tag_mid_rec(a: u64, zz: u64)
    ensures lookup(ents(tag_mid_rec_d(a, zz)), k_a()) == Some(a.e()), lookup(ents(tag_mid_rec_d(a, zz)), k_zz()) == Some(zz.e())
{
    
    tag_mid_rec_keys();
    let dd = tag_mid_rec_d(a, zz);
    lemma_ord_refl(k_a());    lemma_ord_refl(k_zz());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_tag_mid_rec(s: Seq<KV>)
    ensures tag_mid_rec_dec(V::M(s)) is Ok ==> declared(s, tag_mid_rec_ks()), tag_mid_rec_dec(V::M(s)) is Ok ==> tag_mid_rec_found(s)
{
    
    if tag_mid_rec_dec(V::M(s)) is Ok {
        tag_mid_rec_keys(); reveal(tag_mid_rec_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_zz())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_zz()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_a(), k_zz()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= tag_mid_rec_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
        lemma_strict_loose::<u64>(s1, k_zz()); lemma_loose_step::<u64>(s1, k_zz());
    }
}
pub open spec fn tag_mid_rec_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(tag_mid_rec_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_zz()))) == Ok::<<u64 as Ty>::M, DecodeError>(tag_mid_rec_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_tag_mid_rec_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures tag_mid_rec_dec(V::M(s)) == tag_mid_rec_dec(V::M(t))
{ lemma_tsort_same(s, t); }
pub type TAG_MID_OPT = (<u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn tag_mid_opt_m(l: u64, yy: u64) -> TAG_MID_OPT { (l.m(), yy.m()) }
pub open spec fn tag_mid_opt_d(l: u64, yy: u64) -> Seq<KO> { Seq::empty().push((k_n3(), Some(l.e()))).push((k_yy(), (if yy.omit() { None } else { Some(yy.e()) }))) }
pub open spec fn tag_mid_opt_e(l: u64, yy: u64) -> V { V::M(ents(tag_mid_opt_d(l, yy))) }
#[verifier::opaque]
pub open spec fn tag_mid_opt_take(s: Seq<KV>) -> R<TAG_MID_OPT> { match f_strict::<u64>(s, k_n3()) { Err(e) => Err(e), Ok((m_l, s)) => match f_strict::<u64>(s, k_yy()) { Err(e) => Err(e), Ok((m_yy, s)) => if s.len() > 0 { Err::<TAG_MID_OPT, DecodeError>(DecodeError::UnknownField) } else { Ok::<TAG_MID_OPT, DecodeError>((m_l, m_yy)) } } } }
pub open spec fn tag_mid_opt_dec(v: V) -> R<TAG_MID_OPT> { match v { V::M(s) => tag_mid_opt_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn tag_mid_opt_rt(l: u64, yy: u64) -> bool { 
    &&& l.rt_top()
    &&& yy.rt_top() && !yy.lost() }
pub open spec fn tag_mid_opt_ks() -> Seq<V> { seq![k_n3(), k_yy()] }
pub proof fn tag_mid_opt_keys()
    ensures plain(k_n3()), plain(k_yy()), ord(k_n3(), k_yy()) is Less
{
    k_yy_lit();
}
proof fn tag_mid_opt_chain(l: Seq<KO>, w_l: <u64 as Ty>::M, w_yy: <u64 as Ty>::M)
    requires rising(l), l.len() == 2, l[0].0 == k_n3(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_l), l[1].0 == k_yy(), d_top::<u64>(or_null(l[1].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_yy)
    ensures tag_mid_opt_take(ents(l)) == Ok::<TAG_MID_OPT, DecodeError>((w_l, w_yy))
{
    
    reveal(tag_mid_opt_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_l); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<u64>(l1, w_yy); let l2 = l1.drop_first();
    assert(l2.len() == 0); assert(ents(l2).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn tag_mid_opt_back(l: u64, yy: u64)
    requires tag_mid_opt_rt(l, yy)
    ensures tag_mid_opt_dec(tag_mid_opt_e(l, yy)) == Ok::<TAG_MID_OPT, DecodeError>(tag_mid_opt_m(l, yy)), tag_mid_opt_dec(norm(tag_mid_opt_e(l, yy))) == Ok::<TAG_MID_OPT, DecodeError>(tag_mid_opt_m(l, yy)), wf(tag_mid_opt_e(l, yy)), !has_dup(tag_mid_opt_e(l, yy))
{
    
    tag_mid_opt_keys();
    lemma_required::<u64>(l);
    lemma_optional::<u64>(yy);
    let dd = tag_mid_opt_d(l, yy);
    let ll: Seq<KO> = seq![dd[0], dd[1]];
    lemma_rearranged(dd, ll, seq![0int, 1int], seq![0int, 1int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    tag_mid_opt_chain(ll, l.m(), yy.m());
    tag_mid_opt_chain(normo(ll), l.m(), yy.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_tag_mid_opt(l: u64, yy: u64)
    ensures lookup(ents(tag_mid_opt_d(l, yy)), k_n3()) == Some(l.e()), lookup(ents(tag_mid_opt_d(l, yy)), k_yy()) == (if yy.omit() { None } else { Some(yy.e()) })
{
    
    tag_mid_opt_keys();
    let dd = tag_mid_opt_d(l, yy);
    lemma_ord_refl(k_n3());    lemma_ord_refl(k_yy());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_tag_mid_opt(s: Seq<KV>)
    ensures tag_mid_opt_dec(V::M(s)) is Ok ==> declared(s, tag_mid_opt_ks()), tag_mid_opt_dec(V::M(s)) is Ok ==> tag_mid_opt_found(s)
{
    
    if tag_mid_opt_dec(V::M(s)) is Ok {
        tag_mid_opt_keys(); reveal(tag_mid_opt_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_n3())->Ok_0.1;
        let s2 = f_strict::<u64>(s1, k_yy())->Ok_0.1;
        let q2 = Seq::<V>::empty();
        lemma_declared_none(s2, q2);
        let q1 = seq![k_yy()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<u64>(s1, q1);
        let q0 = seq![k_n3(), k_yy()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= tag_mid_opt_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_n3()); lemma_loose_step::<u64>(s0, k_n3());
        lemma_strict_loose::<u64>(s1, k_yy()); lemma_loose_step::<u64>(s1, k_yy());
    }
}
pub open spec fn tag_mid_opt_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_n3()))) == Ok::<<u64 as Ty>::M, DecodeError>(tag_mid_opt_dec(V::M(s))->Ok_0.0) && d_top::<u64>(or_null(lookup(s, k_yy()))) == Ok::<<u64 as Ty>::M, DecodeError>(tag_mid_opt_dec(V::M(s))->Ok_0.1) }
pub proof fn c14_tag_mid_opt_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures tag_mid_opt_dec(V::M(s)) == tag_mid_opt_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum TagMidM { Rec((<u64 as Ty>::M, <u64 as Ty>::M)), Opt((<u64 as Ty>::M, <u64 as Ty>::M)) }
impl Ty for TagMid {
    type M = TagMidM;
    open spec fn m(self) -> TagMidM { match self { TagMid::Rec { a, zz } => TagMidM::Rec((a.m(), zz.m())), TagMid::Opt { l, yy } => TagMidM::Opt((l.m(), yy.m())) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: TagMidM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> TagMidM { arbitrary() }
}
pub open spec fn tag_mid_by(k: V, x: V) -> R<TagMidM> { if k == k_Rec() { match tag_mid_rec_dec(x) { Ok(m) => Ok(TagMidM::Rec(m)), Err(e) => Err(e) } } else { if k == k_Opt() { match tag_mid_opt_dec(x) { Ok(m) => Ok(TagMidM::Opt(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn tag_mid_dec(v: V) -> R<TagMidM> { match v { V::M(s) => tag_mid_by(untag(s, k_m()).0, V::M(untag(s, k_m()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn tag_mid_differ()
    ensures k_Rec() != k_Opt(), k_a() != k_m(), k_zz() != k_m(), k_n3() != k_m(), k_yy() != k_m()
{
    lemma_texts_differ(seq![82u8, 101u8, 99u8], seq![79u8, 112u8, 116u8], 0);
    lemma_texts_differ(seq![109u8], seq![97u8], 0);
    lemma_texts_differ(seq![109u8], seq![122u8, 122u8], 0);
    lemma_texts_differ(seq![109u8], seq![121u8, 121u8], 0);
}
impl Codec for TagMid {
    open spec fn rt(&self) -> bool { match *self { TagMid::Rec { a, zz } => tag_mid_rec_rt(a, zz), TagMid::Opt { l, yy } => tag_mid_opt_rt(l, yy) } }
    proof fn back(&self) {
        tag_mid_differ(); k_m_lit(); k_Rec_lit(); k_Opt_lit();
        match *self { TagMid::Rec { a, zz } => { tag_mid_rec_back(a, zz); lemma_tag_free(tag_mid_rec_d(a, zz), k_m()); lemma_tagged(tag_mid_rec_e(a, zz)->M_0, k_m(), k_Rec());  } TagMid::Opt { l, yy } => { tag_mid_opt_back(l, yy); lemma_tag_free(tag_mid_opt_d(l, yy), k_m()); lemma_tagged(tag_mid_opt_e(l, yy)->M_0, k_m(), k_Opt());  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<TagMidM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ SkipShapes
pub type SKIP_SHAPES_TUP = (<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn skip_shapes_tup_m(f0: u8, f1: u64, f2: u64, f3: u64) -> SKIP_SHAPES_TUP { (f0.m(), f1.m(), f2.m(), f3.m()) }
pub open spec fn skip_shapes_tup_a(f0: u8, f1: u64, f2: u64, f3: u64) -> Seq<V> { Seq::empty().push(f1.e()).push(f3.e()) }
pub open spec fn skip_shapes_tup_e(f0: u8, f1: u64, f2: u64, f3: u64) -> V { V::A(skip_shapes_tup_a(f0, f1, f2, f3)) }
#[verifier::opaque]
pub open spec fn skip_shapes_tup_take(s: Seq<V>) -> R<SKIP_SHAPES_TUP> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f1, s)) => match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_f3, s)) => if s.len() > 0 { Err::<SKIP_SHAPES_TUP, DecodeError>(DecodeError::UnknownField) } else { Ok::<SKIP_SHAPES_TUP, DecodeError>((0int, m_f1, 0int, m_f3)) } } } }
pub open spec fn skip_shapes_tup_dec(v: V) -> R<SKIP_SHAPES_TUP> { match v { V::A(s) => skip_shapes_tup_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn skip_shapes_tup_rt(f0: u8, f1: u64, f2: u64, f3: u64) -> bool { 
    &&& f0.m() == 0int
    &&& f1.rt_top()
    &&& f2.m() == 0int
    &&& f3.rt_top() }
proof fn skip_shapes_tup_chain(s: Seq<V>, w_f1: <u64 as Ty>::M, w_f3: <u64 as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f1), d_top::<u64>(s[1]) == Ok::<<u64 as Ty>::M, DecodeError>(w_f3)
    ensures skip_shapes_tup_take(s) == Ok::<SKIP_SHAPES_TUP, DecodeError>((0int, w_f1, 0int, w_f3))
{
    
    reveal(skip_shapes_tup_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_f1); let s1 = s0.drop_first();
    lemma_next_step::<u64>(s1, w_f3); let s2 = s1.drop_first();
}
pub proof fn skip_shapes_tup_back(f0: u8, f1: u64, f2: u64, f3: u64)
    requires skip_shapes_tup_rt(f0, f1, f2, f3)
    ensures skip_shapes_tup_dec(skip_shapes_tup_e(f0, f1, f2, f3)) == Ok::<SKIP_SHAPES_TUP, DecodeError>(skip_shapes_tup_m(f0, f1, f2, f3)), skip_shapes_tup_dec(norm(skip_shapes_tup_e(f0, f1, f2, f3))) == Ok::<SKIP_SHAPES_TUP, DecodeError>(skip_shapes_tup_m(f0, f1, f2, f3)), wf(skip_shapes_tup_e(f0, f1, f2, f3)), !has_dup(skip_shapes_tup_e(f0, f1, f2, f3))
{
    
    lemma_required::<u64>(f1);
    lemma_required::<u64>(f3);
    let aa = skip_shapes_tup_a(f0, f1, f2, f3);
    lemma_arr_fields(aa);
    skip_shapes_tup_chain(aa, f1.m(), f3.m());
    skip_shapes_tup_chain(norms(aa), f1.m(), f3.m());
}
/// As many elements as there are fields.
pub proof fn c14_skip_shapes_tup(v: V)
    ensures skip_shapes_tup_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(skip_shapes_tup_take); reveal(f_next); }
pub type SKIP_SHAPES_ARR = (<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M);
pub open spec fn skip_shapes_arr_m(h: u8, x: u64, y: u64) -> SKIP_SHAPES_ARR { (h.m(), x.m(), y.m()) }
pub open spec fn skip_shapes_arr_a(h: u8, x: u64, y: u64) -> Seq<V> { Seq::empty().push(x.e()).push(y.e()) }
pub open spec fn skip_shapes_arr_e(h: u8, x: u64, y: u64) -> V { V::A(skip_shapes_arr_a(h, x, y)) }
#[verifier::opaque]
pub open spec fn skip_shapes_arr_take(s: Seq<V>) -> R<SKIP_SHAPES_ARR> { match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_x, s)) => match f_next::<u64>(s) { Err(e) => Err(e), Ok((m_y, s)) => if s.len() > 0 { Err::<SKIP_SHAPES_ARR, DecodeError>(DecodeError::UnknownField) } else { Ok::<SKIP_SHAPES_ARR, DecodeError>((0int, m_x, m_y)) } } } }
pub open spec fn skip_shapes_arr_dec(v: V) -> R<SKIP_SHAPES_ARR> { match v { V::A(s) => skip_shapes_arr_take(s), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn skip_shapes_arr_rt(h: u8, x: u64, y: u64) -> bool { 
    &&& h.m() == 0int
    &&& x.rt_top()
    &&& y.rt_top() }
proof fn skip_shapes_arr_chain(s: Seq<V>, w_x: <u64 as Ty>::M, w_y: <u64 as Ty>::M)
    requires s.len() == 2, d_top::<u64>(s[0]) == Ok::<<u64 as Ty>::M, DecodeError>(w_x), d_top::<u64>(s[1]) == Ok::<<u64 as Ty>::M, DecodeError>(w_y)
    ensures skip_shapes_arr_take(s) == Ok::<SKIP_SHAPES_ARR, DecodeError>((0int, w_x, w_y))
{
    
    reveal(skip_shapes_arr_take); let s0 = s;
    lemma_next_step::<u64>(s0, w_x); let s1 = s0.drop_first();
    lemma_next_step::<u64>(s1, w_y); let s2 = s1.drop_first();
}
pub proof fn skip_shapes_arr_back(h: u8, x: u64, y: u64)
    requires skip_shapes_arr_rt(h, x, y)
    ensures skip_shapes_arr_dec(skip_shapes_arr_e(h, x, y)) == Ok::<SKIP_SHAPES_ARR, DecodeError>(skip_shapes_arr_m(h, x, y)), skip_shapes_arr_dec(norm(skip_shapes_arr_e(h, x, y))) == Ok::<SKIP_SHAPES_ARR, DecodeError>(skip_shapes_arr_m(h, x, y)), wf(skip_shapes_arr_e(h, x, y)), !has_dup(skip_shapes_arr_e(h, x, y))
{
    
    lemma_required::<u64>(x);
    lemma_required::<u64>(y);
    let aa = skip_shapes_arr_a(h, x, y);
    lemma_arr_fields(aa);
    skip_shapes_arr_chain(aa, x.m(), y.m());
    skip_shapes_arr_chain(norms(aa), x.m(), y.m());
}
/// As many elements as there are fields.
pub proof fn c14_skip_shapes_arr(v: V)
    ensures skip_shapes_arr_dec(v) is Ok ==> v is A && v->A_0.len() == 2
{ reveal(skip_shapes_arr_take); reveal(f_next); }
#[allow(inconsistent_fields)]
pub enum SkipShapesM { Tup((<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M)), Arr((<u8 as Ty>::M, <u64 as Ty>::M, <u64 as Ty>::M)) }
impl Ty for SkipShapes {
    type M = SkipShapesM;
    open spec fn m(self) -> SkipShapesM { match self { SkipShapes::Tup(f0, f1, f2, f3) => SkipShapesM::Tup((f0.m(), f1.m(), f2.m(), f3.m())), SkipShapes::Arr { h, x, y } => SkipShapesM::Arr((h.m(), x.m(), y.m())) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: SkipShapesM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> SkipShapesM { arbitrary() }
}
pub open spec fn skip_shapes_bare(v: V) -> R<SkipShapesM> { Err(DecodeError::UnknownField) }
pub open spec fn skip_shapes_by(k: V, x: V) -> R<SkipShapesM> { if k == k_Tup() { match skip_shapes_tup_dec(x) { Ok(m) => Ok(SkipShapesM::Tup(m)), Err(e) => Err(e) } } else { if k == k_Arr() { match skip_shapes_arr_dec(x) { Ok(m) => Ok(SkipShapesM::Arr(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn skip_shapes_dec(v: V) -> R<SkipShapesM> { match v { V::M(s) => if s.len() != 1 { Err(DecodeError::UnknownField) } else { skip_shapes_by(s[0].0, s[0].1) }, _ => skip_shapes_bare(v) } }
pub proof fn skip_shapes_differ()
    ensures k_Tup() != k_Arr()
{
    lemma_texts_differ(seq![84u8, 117u8, 112u8], seq![65u8, 114u8, 114u8], 0);
}
impl Codec for SkipShapes {
    open spec fn rt(&self) -> bool { match *self { SkipShapes::Tup(f0, f1, f2, f3) => skip_shapes_tup_rt(f0, f1, f2, f3), SkipShapes::Arr { h, x, y } => skip_shapes_arr_rt(h, x, y) } }
    proof fn back(&self) {
        skip_shapes_differ(); k_Tup_lit(); k_Arr_lit();
        match *self { SkipShapes::Tup(f0, f1, f2, f3) => { skip_shapes_tup_back(f0, f1, f2, f3); lemma_one(k_Tup(), skip_shapes_tup_e(f0, f1, f2, f3));  } SkipShapes::Arr { h, x, y } => { skip_shapes_arr_back(h, x, y); lemma_one(k_Arr(), skip_shapes_arr_e(h, x, y));  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<SkipShapesM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ FallNew
pub type FALL_NEW_ONE = (<u64 as Ty>::M,);
pub open spec fn fall_new_one_m(a: u64) -> FALL_NEW_ONE { (a.m(),) }
pub open spec fn fall_new_one_d(a: u64) -> Seq<KO> { Seq::empty().push((k_a(), Some(a.e()))) }
pub open spec fn fall_new_one_e(a: u64) -> V { V::M(ents(fall_new_one_d(a))) }
#[verifier::opaque]
pub open spec fn fall_new_one_take(s: Seq<KV>) -> R<FALL_NEW_ONE> { match f_strict::<u64>(s, k_a()) { Err(e) => Err(e), Ok((m_a, s)) => if s.len() > 0 { Err::<FALL_NEW_ONE, DecodeError>(DecodeError::UnknownField) } else { Ok::<FALL_NEW_ONE, DecodeError>((m_a,)) } } }
pub open spec fn fall_new_one_dec(v: V) -> R<FALL_NEW_ONE> { match v { V::M(s) => fall_new_one_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn fall_new_one_rt(a: u64) -> bool { 
    &&& a.rt_top() }
pub open spec fn fall_new_one_ks() -> Seq<V> { seq![k_a()] }
pub proof fn fall_new_one_keys()
    ensures plain(k_a())
{
    k_a_lit();
}
proof fn fall_new_one_chain(l: Seq<KO>, w_a: <u64 as Ty>::M)
    requires rising(l), l.len() == 1, l[0].0 == k_a(), d_top::<u64>(or_null(l[0].1)) == Ok::<<u64 as Ty>::M, DecodeError>(w_a)
    ensures fall_new_one_take(ents(l)) == Ok::<FALL_NEW_ONE, DecodeError>((w_a,))
{
    
    reveal(fall_new_one_take); let l0 = l;
    lemma_field_step::<u64>(l0, w_a); let l1 = l0.drop_first();
    assert(l1.len() == 0); assert(ents(l1).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn fall_new_one_back(a: u64)
    requires fall_new_one_rt(a)
    ensures fall_new_one_dec(fall_new_one_e(a)) == Ok::<FALL_NEW_ONE, DecodeError>(fall_new_one_m(a)), fall_new_one_dec(norm(fall_new_one_e(a))) == Ok::<FALL_NEW_ONE, DecodeError>(fall_new_one_m(a)), wf(fall_new_one_e(a)), !has_dup(fall_new_one_e(a))
{
    
    fall_new_one_keys();
    lemma_required::<u64>(a);
    let dd = fall_new_one_d(a);
    let ll: Seq<KO> = seq![dd[0]];
    lemma_rearranged(dd, ll, seq![0int], seq![0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    fall_new_one_chain(ll, a.m());
    fall_new_one_chain(normo(ll), a.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_fall_new_one(a: u64)
    ensures lookup(ents(fall_new_one_d(a)), k_a()) == Some(a.e())
{
    
    fall_new_one_keys();
    let dd = fall_new_one_d(a);
    lemma_ord_refl(k_a());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_fall_new_one(s: Seq<KV>)
    ensures fall_new_one_dec(V::M(s)) is Ok ==> declared(s, fall_new_one_ks()), fall_new_one_dec(V::M(s)) is Ok ==> fall_new_one_found(s)
{
    
    if fall_new_one_dec(V::M(s)) is Ok {
        fall_new_one_keys(); reveal(fall_new_one_take);
        let s0 = tsort(s);
        let s1 = f_strict::<u64>(s0, k_a())->Ok_0.1;
        let q1 = Seq::<V>::empty();
        lemma_declared_none(s1, q1);
        let q0 = seq![k_a()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<u64>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= fall_new_one_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<u64>(s0, k_a()); lemma_loose_step::<u64>(s0, k_a());
    }
}
pub open spec fn fall_new_one_found(s: Seq<KV>) -> bool { d_top::<u64>(or_null(lookup(s, k_a()))) == Ok::<<u64 as Ty>::M, DecodeError>(fall_new_one_dec(V::M(s))->Ok_0.0) }
pub proof fn c14_fall_new_one_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures fall_new_one_dec(V::M(s)) == fall_new_one_dec(V::M(t))
{ lemma_tsort_same(s, t); }
#[allow(inconsistent_fields)]
pub enum FallNewM { One((<u64 as Ty>::M,)), Rest(<Plain as Ty>::M), Gone((<u64 as Ty>::M,)) }
impl Ty for FallNew {
    type M = FallNewM;
    open spec fn m(self) -> FallNewM { match self { FallNew::One { a } => FallNewM::One((a.m(),)), FallNew::Rest(inner) => FallNewM::Rest(inner.m()), FallNew::Gone { a } => FallNewM::Gone((a.m(),)) } }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: FallNewM) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> FallNewM { arbitrary() }
}
pub open spec fn fall_new_by(k: V, x: V) -> R<FallNewM> { if k == k_One() { match fall_new_one_dec(x) { Ok(m) => Ok(FallNewM::One(m)), Err(e) => Err(e) } } else { if k == k_Rest() || k == V::S(23) { match d_top::<Plain>(x) { Ok(m) => Ok(FallNewM::Rest(m)), Err(e) => Err(e) } } else { Err(DecodeError::UnknownField) } } }
pub open spec fn fall_new_dec(v: V) -> R<FallNewM> { match v { V::M(s) => fall_new_by(untag(s, k83_()).0, V::M(untag(s, k83_()).1)), _ => Err(DecodeError::UnexpectedType) } }
pub proof fn fall_new_differ()
    ensures k_One() != k_Rest(), k_a() != k83_()
{
    lemma_texts_differ(seq![79u8, 110u8, 101u8], seq![82u8, 101u8, 115u8, 116u8], 0);
    lemma_texts_differ(seq![107u8, 105u8, 110u8, 100u8, 32u8, 111u8, 102u8, 32u8, 116u8, 97u8, 103u8, 32u8, 116u8, 104u8, 97u8, 116u8, 32u8, 105u8, 115u8, 32u8, 108u8, 111u8, 110u8, 103u8, 101u8, 114u8], seq![97u8], 0);
}
impl Codec for FallNew {
    open spec fn rt(&self) -> bool { match *self { FallNew::One { a } => fall_new_one_rt(a), FallNew::Rest(inner) => inner.rt_top() && inner.e() is M && tag_free(inner.e()->M_0, k83_()) && inner.e()->M_0.len() + 1 < two64() && inner.rt(), FallNew::Gone { a } => false } }
    proof fn back(&self) {
        fall_new_differ(); k83__lit(); k_One_lit(); k_Rest_lit();
        match *self { FallNew::One { a } => { fall_new_one_back(a); lemma_tag_free(fall_new_one_d(a), k83_()); lemma_tagged(fall_new_one_e(a)->M_0, k83_(), k_One());  } FallNew::Rest(inner) => { lemma_required(inner); lemma_no_tag(inner.e()->M_0, k83_()); lemma_tagged(inner.e()->M_0, k83_(), k_Rest()); lemma_still_free(inner.e()->M_0, k83_()); lemma_no_tag(norm(inner.e())->M_0, k83_());  } FallNew::Gone { a } => {  } }
    }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() && (is_null(self.e()) ==> Self::d_def() == Ok::<FallNewM, DecodeError>(self.m())) }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) {}
}

// ------------------------------------------------------------------ HasEnums
pub type HAS_ENUMS = (<Units as Ty>::M, <Option<Mixed> as Ty>::M, <Vec<Tagged> as Ty>::M, <Disc as Ty>::M);
pub open spec fn has_enums_m(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc) -> HAS_ENUMS { (u.m(), m.m(), t.m(), c.m()) }
pub open spec fn has_enums_d(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc) -> Seq<KO> { Seq::empty().push((k_u(), Some(u.e()))).push((k_m(), Some(m.e()))).push((k_t(), Some(t.e()))).push((k_c(), (if c.omit() { None } else { Some(c.e()) }))) }
pub open spec fn has_enums_e(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc) -> V { V::M(ents(has_enums_d(u, m, t, c))) }
#[verifier::opaque]
pub open spec fn has_enums_take(s: Seq<KV>) -> R<HAS_ENUMS> { match f_strict::<Disc>(s, k_c()) { Err(e) => Err(e), Ok((m_c, s)) => match f_strict::<Option<Mixed>>(s, k_m()) { Err(e) => Err(e), Ok((m_m, s)) => match f_strict::<Vec<Tagged>>(s, k_t()) { Err(e) => Err(e), Ok((m_t, s)) => match f_strict::<Units>(s, k_u()) { Err(e) => Err(e), Ok((m_u, s)) => if s.len() > 0 { Err::<HAS_ENUMS, DecodeError>(DecodeError::UnknownField) } else { Ok::<HAS_ENUMS, DecodeError>((m_u, m_m, m_t, m_c)) } } } } } }
pub open spec fn has_enums_dec(v: V) -> R<HAS_ENUMS> { match v { V::M(s) => has_enums_take(tsort(s)), _ => Err(DecodeError::UnexpectedType) } }
pub open spec fn has_enums_rt(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc) -> bool { 
    &&& u.rt_top()
    &&& m.rt_top()
    &&& t.rt_top()
    &&& c.rt_top() && !c.lost() }
pub open spec fn has_enums_ks() -> Seq<V> { seq![k_c(), k_m(), k_t(), k_u()] }
pub proof fn has_enums_keys()
    ensures plain(k_c()), plain(k_m()), plain(k_t()), plain(k_u()), ord(k_c(), k_m()) is Less, ord(k_c(), k_t()) is Less, ord(k_c(), k_u()) is Less, ord(k_m(), k_t()) is Less, ord(k_m(), k_u()) is Less, ord(k_t(), k_u()) is Less
{
    lemma_text_less(seq![99u8], seq![109u8], 0);
    lemma_text_less(seq![99u8], seq![116u8], 0);
    lemma_text_less(seq![99u8], seq![117u8], 0);
    lemma_text_less(seq![109u8], seq![116u8], 0);
    lemma_text_less(seq![109u8], seq![117u8], 0);
    lemma_text_less(seq![116u8], seq![117u8], 0);
    k_c_lit();
    k_m_lit();
    k_t_lit();
    k_u_lit();
}
proof fn has_enums_chain(l: Seq<KO>, w_c: <Disc as Ty>::M, w_m: <Option<Mixed> as Ty>::M, w_t: <Vec<Tagged> as Ty>::M, w_u: <Units as Ty>::M)
    requires rising(l), l.len() == 4, l[0].0 == k_c(), d_top::<Disc>(or_null(l[0].1)) == Ok::<<Disc as Ty>::M, DecodeError>(w_c), l[1].0 == k_m(), d_top::<Option<Mixed>>(or_null(l[1].1)) == Ok::<<Option<Mixed> as Ty>::M, DecodeError>(w_m), l[2].0 == k_t(), d_top::<Vec<Tagged>>(or_null(l[2].1)) == Ok::<<Vec<Tagged> as Ty>::M, DecodeError>(w_t), l[3].0 == k_u(), d_top::<Units>(or_null(l[3].1)) == Ok::<<Units as Ty>::M, DecodeError>(w_u)
    ensures has_enums_take(ents(l)) == Ok::<HAS_ENUMS, DecodeError>((w_u, w_m, w_t, w_c))
{
    
    reveal(has_enums_take); let l0 = l;
    lemma_field_step::<Disc>(l0, w_c); let l1 = l0.drop_first(); assert(l1[0] == l[1]);
    lemma_field_step::<Option<Mixed>>(l1, w_m); let l2 = l1.drop_first(); assert(l2[0] == l[2]);
    lemma_field_step::<Vec<Tagged>>(l2, w_t); let l3 = l2.drop_first(); assert(l3[0] == l[3]);
    lemma_field_step::<Units>(l3, w_u); let l4 = l3.drop_first();
    assert(l4.len() == 0); assert(ents(l4).len() == 0) by { reveal_with_fuel(ents, 1); }
}
pub proof fn has_enums_back(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc)
    requires has_enums_rt(u, m, t, c)
    ensures has_enums_dec(has_enums_e(u, m, t, c)) == Ok::<HAS_ENUMS, DecodeError>(has_enums_m(u, m, t, c)), has_enums_dec(norm(has_enums_e(u, m, t, c))) == Ok::<HAS_ENUMS, DecodeError>(has_enums_m(u, m, t, c)), wf(has_enums_e(u, m, t, c)), !has_dup(has_enums_e(u, m, t, c))
{
    
    has_enums_keys();
    lemma_required::<Units>(u);
    lemma_required::<Option<Mixed>>(m);
    lemma_required::<Vec<Tagged>>(t);
    lemma_optional::<Disc>(c);
    let dd = has_enums_d(u, m, t, c);
    let ll: Seq<KO> = seq![dd[3], dd[1], dd[2], dd[0]];
    lemma_rearranged(dd, ll, seq![3int, 1int, 2int, 0int], seq![3int, 1int, 2int, 0int]);
    assert(rising(ll)) by { reveal(rising); }
    lemma_map_fields(dd, ll);
    has_enums_chain(ll, c.m(), m.m(), t.m(), u.m());
    has_enums_chain(normo(ll), c.m(), m.m(), t.m(), u.m());
}
/// Fields are present exactly when they are due, with their encoding.
pub proof fn c15_has_enums(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc)
    ensures lookup(ents(has_enums_d(u, m, t, c)), k_u()) == Some(u.e()), lookup(ents(has_enums_d(u, m, t, c)), k_m()) == Some(m.e()), lookup(ents(has_enums_d(u, m, t, c)), k_t()) == Some(t.e()), lookup(ents(has_enums_d(u, m, t, c)), k_c()) == (if c.omit() { None } else { Some(c.e()) })
{
    
    has_enums_keys();
    let dd = has_enums_d(u, m, t, c);
    lemma_ord_refl(k_c());    lemma_ord_refl(k_m());    lemma_ord_refl(k_t());    lemma_ord_refl(k_u());
    assert(apart(dd));
    lemma_lookup_ents(dd, 0);    lemma_lookup_ents(dd, 1);    lemma_lookup_ents(dd, 2);    lemma_lookup_ents(dd, 3);
}
/// Only declared keys, each at most once, in any order; every field from the entry of its key.
pub proof fn c14_has_enums(s: Seq<KV>)
    ensures has_enums_dec(V::M(s)) is Ok ==> declared(s, has_enums_ks()), has_enums_dec(V::M(s)) is Ok ==> has_enums_found(s)
{
    
    if has_enums_dec(V::M(s)) is Ok {
        has_enums_keys(); reveal(has_enums_take);
        let s0 = tsort(s);
        let s1 = f_strict::<Disc>(s0, k_c())->Ok_0.1;
        let s2 = f_strict::<Option<Mixed>>(s1, k_m())->Ok_0.1;
        let s3 = f_strict::<Vec<Tagged>>(s2, k_t())->Ok_0.1;
        let s4 = f_strict::<Units>(s3, k_u())->Ok_0.1;
        let q4 = Seq::<V>::empty();
        lemma_declared_none(s4, q4);
        let q3 = seq![k_u()]; assert(q3.drop_first() =~= q4); lemma_declared_step::<Units>(s3, q3);
        let q2 = seq![k_t(), k_u()]; assert(q2.drop_first() =~= q3); lemma_declared_step::<Vec<Tagged>>(s2, q2);
        let q1 = seq![k_m(), k_t(), k_u()]; assert(q1.drop_first() =~= q2); lemma_declared_step::<Option<Mixed>>(s1, q1);
        let q0 = seq![k_c(), k_m(), k_t(), k_u()]; assert(q0.drop_first() =~= q1); lemma_declared_step::<Disc>(s0, q0);
        lemma_declared_any(s, q0);
        assert(q0 =~= has_enums_ks());
        lemma_declared_distinct(s, q0);
        lemma_sort_lookup(s);
        lemma_strict_loose::<Disc>(s0, k_c()); lemma_loose_step::<Disc>(s0, k_c());
        lemma_strict_loose::<Option<Mixed>>(s1, k_m()); lemma_loose_step::<Option<Mixed>>(s1, k_m());
        lemma_strict_loose::<Vec<Tagged>>(s2, k_t()); lemma_loose_step::<Vec<Tagged>>(s2, k_t());
        lemma_strict_loose::<Units>(s3, k_u()); lemma_loose_step::<Units>(s3, k_u());
    }
}
pub open spec fn has_enums_found(s: Seq<KV>) -> bool { d_top::<Units>(or_null(lookup(s, k_u()))) == Ok::<<Units as Ty>::M, DecodeError>(has_enums_dec(V::M(s))->Ok_0.0) && d_top::<Option<Mixed>>(or_null(lookup(s, k_m()))) == Ok::<<Option<Mixed> as Ty>::M, DecodeError>(has_enums_dec(V::M(s))->Ok_0.1) && d_top::<Vec<Tagged>>(or_null(lookup(s, k_t()))) == Ok::<<Vec<Tagged> as Ty>::M, DecodeError>(has_enums_dec(V::M(s))->Ok_0.2) && d_top::<Disc>(or_null(lookup(s, k_c()))) == Ok::<<Disc as Ty>::M, DecodeError>(has_enums_dec(V::M(s))->Ok_0.3) }
pub proof fn c14_has_enums_order(s: Seq<KV>, t: Seq<KV>)
    requires s.to_multiset() == t.to_multiset()
    ensures has_enums_dec(V::M(s)) == has_enums_dec(V::M(t))
{ lemma_tsort_same(s, t); }
impl Ty for HasEnums {
    type M = HAS_ENUMS;
    open spec fn m(self) -> HAS_ENUMS { has_enums_m(self.u, self.m, self.t, self.c) }
    open spec fn is_byte() -> bool { false }
    open spec fn byte(m: HAS_ENUMS) -> u8 { arbitrary() }
    open spec fn of_byte(b: u8) -> HAS_ENUMS { arbitrary() }
}
proof fn has_enums_some(u: Units, m: Option<Mixed>, t: Vec<Tagged>, c: Disc) ensures ents(has_enums_d(u, m, t, c)).len() > 0 { lemma_ents_at(has_enums_d(u, m, t, c)); assert(has_enums_d(u, m, t, c)[0].1 is Some); }
impl Codec for HasEnums {
    open spec fn rt(&self) -> bool { has_enums_rt(self.u, self.m, self.t, self.c) }
    proof fn back(&self) { has_enums_back(self.u, self.m, self.t, self.c); }
    proof fn byte_law(&self) {}
    open spec fn rt_top(&self) -> bool { self.rt() }
    proof fn back_top(&self) {}
    open spec fn lost(&self) -> bool { false }
    proof fn empty_law(&self) { has_enums_some(self.u, self.m, self.t, self.c); }
}
