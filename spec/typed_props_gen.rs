// Generated by tools/gen_typed.py: the properties of integers and tuples.
pub fn c09_u8(x: u8, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == V::U(x as int) && vw(u) == vw(v));
    let r = from_value::<u8>(w);
    assert(z is U && z->U_0 <= 255 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is U && z->U_0 > 255 || false ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = u8::try_default();
    assert(d == Ok::<u8, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_u16(x: u16, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == V::U(x as int) && vw(u) == vw(v));
    let r = from_value::<u16>(w);
    assert(z is U && z->U_0 <= 65535 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is U && z->U_0 > 65535 || false ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = u16::try_default();
    assert(d == Ok::<u16, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_u32(x: u32, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == V::U(x as int) && vw(u) == vw(v));
    let r = from_value::<u32>(w);
    assert(z is U && z->U_0 <= 4294967295 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is U && z->U_0 > 4294967295 || false ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = u32::try_default();
    assert(d == Ok::<u32, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_u64(x: u64, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == V::U(x as int) && vw(u) == vw(v));
    let r = from_value::<u64>(w);
    assert(z is U && z->U_0 <= 18446744073709551615 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N ==> r is Err && r->Err_0 is UnexpectedType);
    assert(z is U && z->U_0 > 18446744073709551615 || false ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = u64::try_default();
    assert(d == Ok::<u64, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_i8(x: i8, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == v_int(x as int) && vw(u) == vw(v));
    let r = from_value::<i8>(w);
    assert(z is U && z->U_0 <= 127 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N && -128 <= z->N_0 <= 127 ==> r is Ok && r->Ok_0 as int == z->N_0);
    assert(z is U && z->U_0 > 127 || z is N && !(-128 <= z->N_0 <= 127) ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = i8::try_default();
    assert(d == Ok::<i8, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_i16(x: i16, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == v_int(x as int) && vw(u) == vw(v));
    let r = from_value::<i16>(w);
    assert(z is U && z->U_0 <= 32767 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N && -32768 <= z->N_0 <= 32767 ==> r is Ok && r->Ok_0 as int == z->N_0);
    assert(z is U && z->U_0 > 32767 || z is N && !(-32768 <= z->N_0 <= 32767) ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = i16::try_default();
    assert(d == Ok::<i16, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_i32(x: i32, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == v_int(x as int) && vw(u) == vw(v));
    let r = from_value::<i32>(w);
    assert(z is U && z->U_0 <= 2147483647 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N && -2147483648 <= z->N_0 <= 2147483647 ==> r is Ok && r->Ok_0 as int == z->N_0);
    assert(z is U && z->U_0 > 2147483647 || z is N && !(-2147483648 <= z->N_0 <= 2147483647) ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = i32::try_default();
    assert(d == Ok::<i32, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
pub fn c09_i64(x: i64, w: Value) {
    let v = to_value(x);
    let u = to_value(&x);
    let ghost z = vw(w);
    assert(vw(v) == v_int(x as int) && vw(u) == vw(v));
    let r = from_value::<i64>(w);
    assert(z is U && z->U_0 <= 9223372036854775807 ==> r is Ok && r->Ok_0 as int == z->U_0);
    assert(z is N && -9223372036854775808 <= z->N_0 <= 9223372036854775807 ==> r is Ok && r->Ok_0 as int == z->N_0);
    assert(z is U && z->U_0 > 9223372036854775807 || z is N && !(-9223372036854775808 <= z->N_0 <= 9223372036854775807) ==> r is Err && r->Err_0 is UnexpectedIntegerSize);
    assert(!(z is U) && !(z is N) && !is_null(z) ==> r is Err && r->Err_0 is UnexpectedType);
    let d = i64::try_default();
    assert(d == Ok::<i64, DecodeError>(0));
    let e = x.is_empty();
    assert(e == (x == 0));
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple1<A0: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 1 && A0::d_from(z->A_0[0]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple2<A0: Decode, A1: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple3<A0: Decode, A1: Decode, A2: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple4<A0: Decode, A1: Decode, A2: Decode, A3: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple5<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple6<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode, A5: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4, A5,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0); assert(r is Ok ==> r->Ok_0.5.m() == A5::d_from(z->A_0[5])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0); assert(z is A && z->A_0.len() > 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Err ==> r is Err && r->Err_0 == A5::d_from(z->A_0[5])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple7<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode, A5: Decode, A6: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4, A5, A6,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0); assert(r is Ok ==> r->Ok_0.5.m() == A5::d_from(z->A_0[5])->Ok_0); assert(r is Ok ==> r->Ok_0.6.m() == A6::d_from(z->A_0[6])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0); assert(z is A && z->A_0.len() > 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Err ==> r is Err && r->Err_0 == A5::d_from(z->A_0[5])->Err_0); assert(z is A && z->A_0.len() > 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Err ==> r is Err && r->Err_0 == A6::d_from(z->A_0[6])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple8<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode, A5: Decode, A6: Decode, A7: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4, A5, A6, A7,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 8 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0); assert(r is Ok ==> r->Ok_0.5.m() == A5::d_from(z->A_0[5])->Ok_0); assert(r is Ok ==> r->Ok_0.6.m() == A6::d_from(z->A_0[6])->Ok_0); assert(r is Ok ==> r->Ok_0.7.m() == A7::d_from(z->A_0[7])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0); assert(z is A && z->A_0.len() > 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Err ==> r is Err && r->Err_0 == A5::d_from(z->A_0[5])->Err_0); assert(z is A && z->A_0.len() > 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Err ==> r is Err && r->Err_0 == A6::d_from(z->A_0[6])->Err_0); assert(z is A && z->A_0.len() > 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Err ==> r is Err && r->Err_0 == A7::d_from(z->A_0[7])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple9<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode, A5: Decode, A6: Decode, A7: Decode, A8: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4, A5, A6, A7, A8,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 9 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0); assert(r is Ok ==> r->Ok_0.5.m() == A5::d_from(z->A_0[5])->Ok_0); assert(r is Ok ==> r->Ok_0.6.m() == A6::d_from(z->A_0[6])->Ok_0); assert(r is Ok ==> r->Ok_0.7.m() == A7::d_from(z->A_0[7])->Ok_0); assert(r is Ok ==> r->Ok_0.8.m() == A8::d_from(z->A_0[8])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 8 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0); assert(z is A && z->A_0.len() > 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Err ==> r is Err && r->Err_0 == A5::d_from(z->A_0[5])->Err_0); assert(z is A && z->A_0.len() > 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Err ==> r is Err && r->Err_0 == A6::d_from(z->A_0[6])->Err_0); assert(z is A && z->A_0.len() > 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Err ==> r is Err && r->Err_0 == A7::d_from(z->A_0[7])->Err_0); assert(z is A && z->A_0.len() > 8 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Err ==> r is Err && r->Err_0 == A8::d_from(z->A_0[8])->Err_0);
}
/// Tuples take arrays of at least their arity; what is missing is reported.
pub fn c11_tuple10<A0: Decode, A1: Decode, A2: Decode, A3: Decode, A4: Decode, A5: Decode, A6: Decode, A7: Decode, A8: Decode, A9: Decode>(v: Value) requires !is_null(vw(v)) {
    let ghost z = vw(v);
    let r = from_value::<(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9,)>(v);
    assert(r is Ok <==> z is A && z->A_0.len() >= 10 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Ok && A9::d_from(z->A_0[9]) is Ok);
    assert(!(z is A) ==> r is Err && r->Err_0 is UnexpectedType);
    assert(r is Ok ==> r->Ok_0.0.m() == A0::d_from(z->A_0[0])->Ok_0); assert(r is Ok ==> r->Ok_0.1.m() == A1::d_from(z->A_0[1])->Ok_0); assert(r is Ok ==> r->Ok_0.2.m() == A2::d_from(z->A_0[2])->Ok_0); assert(r is Ok ==> r->Ok_0.3.m() == A3::d_from(z->A_0[3])->Ok_0); assert(r is Ok ==> r->Ok_0.4.m() == A4::d_from(z->A_0[4])->Ok_0); assert(r is Ok ==> r->Ok_0.5.m() == A5::d_from(z->A_0[5])->Ok_0); assert(r is Ok ==> r->Ok_0.6.m() == A6::d_from(z->A_0[6])->Ok_0); assert(r is Ok ==> r->Ok_0.7.m() == A7::d_from(z->A_0[7])->Ok_0); assert(r is Ok ==> r->Ok_0.8.m() == A8::d_from(z->A_0[8])->Ok_0); assert(r is Ok ==> r->Ok_0.9.m() == A9::d_from(z->A_0[9])->Ok_0);
    assert(z is A && z->A_0.len() == 0 ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 1 && A0::d_from(z->A_0[0]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 8 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok ==> r is Err && r->Err_0 is MissingField); assert(z is A && z->A_0.len() == 9 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Ok ==> r is Err && r->Err_0 is MissingField);
    assert(z is A && z->A_0.len() > 0 && A0::d_from(z->A_0[0]) is Err ==> r is Err && r->Err_0 == A0::d_from(z->A_0[0])->Err_0); assert(z is A && z->A_0.len() > 1 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Err ==> r is Err && r->Err_0 == A1::d_from(z->A_0[1])->Err_0); assert(z is A && z->A_0.len() > 2 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Err ==> r is Err && r->Err_0 == A2::d_from(z->A_0[2])->Err_0); assert(z is A && z->A_0.len() > 3 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Err ==> r is Err && r->Err_0 == A3::d_from(z->A_0[3])->Err_0); assert(z is A && z->A_0.len() > 4 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Err ==> r is Err && r->Err_0 == A4::d_from(z->A_0[4])->Err_0); assert(z is A && z->A_0.len() > 5 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Err ==> r is Err && r->Err_0 == A5::d_from(z->A_0[5])->Err_0); assert(z is A && z->A_0.len() > 6 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Err ==> r is Err && r->Err_0 == A6::d_from(z->A_0[6])->Err_0); assert(z is A && z->A_0.len() > 7 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Err ==> r is Err && r->Err_0 == A7::d_from(z->A_0[7])->Err_0); assert(z is A && z->A_0.len() > 8 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Err ==> r is Err && r->Err_0 == A8::d_from(z->A_0[8])->Err_0); assert(z is A && z->A_0.len() > 9 && A0::d_from(z->A_0[0]) is Ok && A1::d_from(z->A_0[1]) is Ok && A2::d_from(z->A_0[2]) is Ok && A3::d_from(z->A_0[3]) is Ok && A4::d_from(z->A_0[4]) is Ok && A5::d_from(z->A_0[5]) is Ok && A6::d_from(z->A_0[6]) is Ok && A7::d_from(z->A_0[7]) is Ok && A8::d_from(z->A_0[8]) is Ok && A9::d_from(z->A_0[9]) is Err ==> r is Err && r->Err_0 == A9::d_from(z->A_0[9])->Err_0);
}
