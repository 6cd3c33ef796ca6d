pub use vstd::utf8::*;
use std::cmp::Ordering;
use crate::oasis_cbor_value::reader::DecoderError;
use crate::oasis_cbor_value::writer::EncoderError;
use crate::oasis_cbor_value::values::{Value, SimpleValue};
pub use crate::lemmas::*;
pub use crate::lemmas_order::*;
pub use crate::lemmas_limit::*;
pub use crate::lemmas_code::*;
pub use crate::lemmas_writer::*;
pub use crate::lemmas_norm::*;
pub use crate::map_access::*;
