------------------------------ MODULE Features -----------------------------
(* What does the library offer in which configuration?                      *)
(* A configuration is a set of cargo features.  An item is a type that can  *)
(* be read and written, or a piece of the interface, together with the      *)
(* features it needs; it is offered in every configuration whose closure    *)
(* contains those, and there it has to compile.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bases == {{}, {"alloc"}, {"std"}}
Crates == {"chrono", "glam", "smallvec", "regex", "uuid", "indexmap_v1", "indexmap_v2", "indexmap"}
Implies(f) == CASE f = "std" -> {"alloc"} [] f = "indexmap" -> {"indexmap_v1"} [] OTHER -> {}
RECURSIVE Closure(_)
Closure(fs) == LET more == fs \cup UNION {Implies(f) : f \in fs} IN IF more = fs THEN fs ELSE Closure(more)
\* a regular expression cannot be read without the standard library, nor a small vector without an allocator
Coherent(fs) == ("regex" \in fs => "std" \in fs) /\ ("smallvec" \in fs => "alloc" \in Closure(fs))

Types(needs, ts) == {[k |-> "both", ty |-> t, needs |-> needs] : t \in ts}
Borrowed(needs, ts) == {[k |-> "read", ty |-> t, needs |-> needs] : t \in ts}
Written(needs, ts) == {[k |-> "write", ty |-> t, needs |-> needs] : t \in ts}
Uses(needs, ts) == {[k |-> "use", ty |-> t, needs |-> needs] : t \in ts}
Derived(needs, ts) == {[k |-> "derive", ty |-> t, needs |-> needs \cup {"speedy-derive"}] : t \in ts}

Core ==
  Types({}, {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "char", "()", "(u8,)", "(u8, u16, bool)",
             "(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)", "[u32; 3]", "[Option<bool>; 2]", "[(); 0]", "Option<u16>", "Result<u8, u16>", "core::ops::Range<u8>",
             "core::ops::RangeInclusive<u16>", "core::num::NonZeroU8", "core::num::NonZeroU64", "core::num::NonZeroI32", "core::sync::atomic::AtomicU8",
             "core::sync::atomic::AtomicI64", "core::net::Ipv4Addr", "core::net::Ipv6Addr", "core::net::IpAddr", "core::time::Duration", "Endianness"})
  \cup Borrowed({}, {"&'a str", "&'a [u8]", "&'a [i8]", "&'a [u8; 4]", "Option<&'a str>", "(&'a str, &'a [u8])"})
  \cup Uses({}, {"u16::read_from_buffer(b)", "u16::read_from_buffer_with_ctx(Endianness::BigEndian, b)", "u16::read_from_buffer_copying_data(b)",
                 "u16::read_from_buffer_copying_data_with_ctx(LittleEndian {}, b)", "u16::read_with_length_from_buffer(b)",
                 "u16::read_with_length_from_buffer_with_ctx(BigEndian {}, b)", "u16::read_with_length_from_buffer_copying_data(b)",
                 "u16::read_with_length_from_buffer_copying_data_with_ctx(Endianness::LittleEndian, b)", "<u16 as Readable<LittleEndian>>::minimum_bytes_needed()",
                 "7u16.write_to_buffer(&mut [0; 2])", "7u16.write_to_buffer_with_ctx(Endianness::BigEndian, &mut [0; 2])", "Writable::<LittleEndian>::bytes_needed(&7u16)",
                 "Endianness::NATIVE.swap_slice_u16(&mut [1, 2])", "u16::read_from_buffer(b).unwrap_err().is_eof()", "IsEof::is_eof(&u16::read_from_buffer(b).unwrap_err())",
                 "tells(&u16::read_from_buffer(b).unwrap_err())"})
Alloc ==
  Types({"alloc"}, {"alloc::vec::Vec<u8>", "alloc::vec::Vec<(u8, alloc::string::String)>", "alloc::string::String", "alloc::borrow::Cow<'a, str>", "alloc::borrow::Cow<'a, [u8]>",
                    "alloc::borrow::Cow<'a, [u32]>", "alloc::borrow::Cow<'a, [bool]>", "alloc::boxed::Box<u16>", "alloc::boxed::Box<[u16]>", "alloc::boxed::Box<str>",
                    "alloc::collections::BTreeMap<u8, alloc::string::String>", "alloc::collections::BTreeSet<u16>",
                    "alloc::borrow::Cow<'a, alloc::collections::BTreeMap<u8, u16>>", "alloc::borrow::Cow<'a, alloc::collections::BTreeSet<u16>>"})
  \cup Written({"alloc"}, {"[u16]", "[bool]", "str", "&'a [u16]", "&'a str"})
  \cup Uses({"alloc"}, {"7u16.write_to_vec()", "7u16.write_to_vec_with_ctx(Endianness::BigEndian)", "says(&u16::read_from_buffer(b).unwrap_err())", "\"abc\".write_to_vec()", "[1u16, 2][..].write_to_vec()"})
Std ==
  Types({"std"}, {"std::collections::HashMap<u8, u16>", "std::collections::HashSet<u16>", "std::borrow::Cow<'a, std::collections::HashMap<u8, u16>>",
                  "std::borrow::Cow<'a, std::collections::HashSet<u16>>", "std::time::SystemTime",
                  "std::collections::HashMap<u8, u16, core::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>"})
  \cup Uses({"std"}, {"u16::read_from_stream_unbuffered(b)", "u16::read_from_stream_unbuffered_with_ctx(Endianness::BigEndian, b)", "u16::read_from_stream_buffered(b)",
                      "u16::read_from_stream_buffered_with_ctx(Endianness::BigEndian, b)", "u16::read_from_file(\"/x\")", "u16::read_from_file_with_ctx(BigEndian {}, \"/x\")",
                      "7u16.write_to_stream(std::vec::Vec::new())", "7u16.write_to_stream_with_ctx(Endianness::BigEndian, std::vec::Vec::new())",
                      "7u16.write_to_file(\"/x\")", "7u16.write_to_file_with_ctx(BigEndian {}, \"/x\")",
                      "speedy::Error::custom(\"no\")", "is_error(&u16::read_from_buffer(b).unwrap_err())", "std::io::Error::from(u16::read_from_buffer(b).unwrap_err())"})
Ext ==
  Types({"chrono"}, {"chrono::DateTime<chrono::Utc>", "Option<chrono::DateTime<chrono::Utc>>"})
  \cup Types({"glam"}, {"glam::" \o t : t \in {"Vec2", "Vec3", "Vec3A", "Vec4", "DVec2", "DVec3", "DVec4", "IVec2", "IVec3", "IVec4", "UVec2", "UVec3", "UVec4", "Quat", "DQuat", "BVec2", "BVec3", "BVec4",
                        "Mat2", "Mat3", "Mat3A", "Mat4", "DMat2", "DMat3", "DMat4", "Affine2", "Affine3A", "DAffine2", "DAffine3"}})
  \cup Types({"smallvec", "alloc"}, {"smallvec::SmallVec<[u16; 4]>", "smallvec::SmallVec<[alloc::string::String; 1]>"})
  \cup Types({"regex", "std"}, {"regex::Regex"})
  \cup Types({"uuid"}, {"uuid::Uuid", "[uuid::Uuid; 2]"})
  \cup UNION {Types({c, "alloc"}, {c \o "::IndexMap<u8, alloc::vec::Vec<u8>>", c \o "::IndexSet<u16>", c \o "::IndexMap<u8, u8, Plain>", c \o "::IndexSet<u8, Plain>"}) : c \in {"indexmap_v1", "indexmap_v2"}}
Deriv ==        \* the names a derive knows by sight
  Derived({}, {"struct T { x: u8, y: Option<u16>, z: [bool; 2] }", "struct T(u8, u16);", "struct T;", "enum T { A, B(u8), C { x: u16 } }", "struct T { #[speedy(varint)] x: u64 }",
               "struct T { #[speedy(skip)] x: u8, #[speedy(default_on_eof)] y: u16 }", "struct T<E> { x: E, y: E }", "#[derive(Clone, Copy)] #[repr(packed)] struct T { x: u8, y: u16 }",
               "#[derive(Clone, Copy)] #[repr(transparent)] struct T(u32);", "#[derive(Clone, Copy)] #[repr(C)] struct T { x: u16, y: u16 }",
               "#[speedy(tag_type = u64_varint)] enum T { A, #[speedy(tag = 700)] B }", "#[speedy(peek_tag)] enum T { A(u32) }", "struct T { x: core::time::Duration, y: core::net::IpAddr }"})
  \cup Derived({"alloc"}, {"struct T { x: String, y: Vec<u8> }", "struct T<'a> { x: Cow<'a, str>, y: Cow<'a, [u16]> }",
               "struct T { n: u8, #[speedy(length = n)] x: Vec<u16>, #[speedy(length = ..)] y: String }",
               "struct T { #[speedy(length_type = u7)] x: String, #[speedy(length_type = u64_varint)] y: Option<Vec<u8>> }",
               "struct T { #[speedy(constant_prefix = \"ab\")] x: u8 }", "struct T { #[speedy(length_type = u16)] x: BTreeMap<u8, u8>, y: BTreeSet<u8> }",
               "struct T<'a> { #[speedy(length_type = u8)] x: Cow<'a, BTreeMap<u8, u8>> }", "struct T<'a> { x: &'a str, y: &'a [u16] }"})
  \cup Derived({"std"}, {"struct T { x: HashMap<u8, u8>, #[speedy(length_type = u8)] y: HashSet<u8> }",
               "struct T<'a> { #[speedy(length_type = u8)] x: Cow<'a, HashMap<u8, u8>> }", "struct T { x: SystemTime }"})
  \cup Derived({"uuid"}, {"struct T { x: uuid::Uuid }"})
Items == Core \cup Alloc \cup Std \cup Ext \cup Deriv
Offered(fs) == {i \in Items : i.needs \subseteq Closure(fs)}

\* one crate, no crate, all crates; all pairs on request
Configs(deep) ==
  {c \in {b \cup x \cup d : b \in Bases, d \in {{}, {"speedy-derive"}},
          x \in {{}, Crates, Crates \ {"regex"}, Crates \ {"regex", "smallvec"}} \cup {{f} : f \in Crates} \cup (IF deep THEN {{f, g} : f, g \in Crates} ELSE {})} :
     Coherent(c) /\ (deep \/ "speedy-derive" \in c \/ c \in Bases) /\ (deep \/ Cardinality(c \cap Crates) < 6 \/ Crates \subseteq c \/ "std" \notin c)}
Fine(c, i, compiles) == i \in Offered(c) => compiles
=============================================================================
