//! A program without the standard library that uses derived types (std is linked, under a name nobody expects).
#![no_std]
#![allow(unused_imports, dead_code, non_camel_case_types, unused_parens)]
extern crate std as elsewhere;
#[cfg(feature = "alloc")]
mod types {
    extern crate alloc;
    use alloc::{borrow::Cow, boxed::Box, collections::{BTreeMap, BTreeSet}, string::String, vec::Vec};
    use core::{net::*, num::*, time::Duration};
    use speedy::{Endianness, Readable, Writable};
    use uuid::Uuid;
    include!("../gen/small.decl.rs");
}
#[cfg(not(feature = "alloc"))]
mod types {
    use core::{net::*, num::*, time::Duration};
    use speedy::{Endianness, Readable, Writable};
    include!("../gen/bare.decl.rs");
}
fn main() {}
