//! Uses of the macros of oasis-cbor: what they expand to is verified and run like the code of /repo.
extern crate alloc;
pub mod derived;
pub mod macros;
