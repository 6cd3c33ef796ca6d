#![feature(allocator_api)]
#![allow(unused, non_shorthand_field_patterns, unused_imports, dead_code, non_snake_case, non_camel_case_types)]
#![verifier::loop_isolation(false)]
