//! Constructor macros and map destructuring.
use oasis_cbor_value::values::Value;
use oasis_cbor_value::*;

pub fn map_none() -> Value { cbor_map! {} }
pub fn map_one(k: Value, v: Value) -> Value { cbor_map! { k => v } }
pub fn map_mixed(a: u64, b: &str, c: i64, d: Vec<u8>, e: bool, f: Value) -> Value { cbor_map! { a => b, c => d, e => f, } }
pub fn map_more(a: &[u8], b: String, c: Vec<Value>, d: Vec<(Value, Value)>, e: i32, f: i32) -> Value { cbor_map! { a => b, c => d, e => f } }
pub fn map_literal() -> Value { cbor_map! { 0x01 => false, "02" => -3, } }
pub fn options_none() -> Value { cbor_map_options! {} }
pub fn options_three(a: u64, x: Option<bool>, b: &str, y: Option<u64>, c: i64, z: Option<Value>) -> Value { cbor_map_options! { a => x, b => y, c => z } }
pub fn options_mixed(a: u64, x: Value, b: &str, y: Option<String>, c: i64, z: bool) -> Value { cbor_map_options! { a => x, b => y, c => z, } }
pub fn collection(m: Vec<(Value, Value)>) -> Value { cbor_map_collection!(m) }
pub fn array_none() -> Value { cbor_array![] }
pub fn array_one(a: Value) -> Value { cbor_array![a] }
pub fn array_mixed(a: u64, b: i64, c: i32, d: &str, e: String, f: Vec<u8>) -> Value { cbor_array![a, b, c, d, e, f] }
pub fn array_more(a: &[u8], b: Vec<Value>, c: Vec<(Value, Value)>, d: bool, e: Value) -> Value { cbor_array![a, b, c, d, e,] }
pub fn array_ints(v: Vec<i64>) -> Value { cbor_array_vec!(v) }
pub fn array_values(v: Vec<Value>) -> Value { cbor_array_vec!(v) }
pub fn array_texts(v: Vec<String>) -> Value { cbor_array_vec!(v) }
pub fn a_true() -> Value { cbor_true!() }
pub fn a_false() -> Value { cbor_false!() }
pub fn a_null() -> Value { cbor_null!() }
pub fn an_undefined() -> Value { cbor_undefined!() }
pub fn a_bool(b: bool) -> Value { cbor_bool!(b) }
pub fn an_unsigned(n: u64) -> Value { cbor_unsigned!(n) }
pub fn an_int(n: i64) -> Value { cbor_int!(n) }
pub fn a_text(t: String) -> Value { cbor_text!(t) }
pub fn a_text_ref(t: &str) -> Value { cbor_text!(t) }
pub fn some_bytes(b: Vec<u8>) -> Value { cbor_bytes!(b) }
pub fn some_bytes_lit(b: &[u8]) -> Value { cbor_bytes_lit!(b) }
pub fn tagged(t: u64, v: Value) -> Value { cbor_tagged!(t, v) }

pub fn take_one(m: Vec<(Value, Value)>, a: u64) -> Option<Value> {
    destructure_cbor_map! { let { a => x, } = m; }
    x
}
pub fn take_three(m: Vec<(Value, Value)>, a: Value, b: Value, c: Value) -> (Option<Value>, Option<Value>, Option<Value>) {
    destructure_cbor_map! { let { a => x, b => y, c => z, } = m; }
    (x, y, z)
}
pub fn take_mixed(m: Vec<(Value, Value)>) -> (Option<Value>, Option<Value>, Option<Value>, Option<Value>) {
    destructure_cbor_map! { let { 1 => x, 300 => y, -5 => z, "key" => w, } = m; }
    (x, y, z, w)
}
